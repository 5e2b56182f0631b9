# Plays scenarios of several codec instances, each alone and all together.   usage: indep_driver.py IN OUT
# Runs under Jython (Python 2 codecs) and Python 3.
import sys, os, json, threading, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['VERIF_COPY'])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
from collections import OrderedDict
from importlib import import_module
PY3 = sys.version_info[0] >= 3

class Options(object):
  verbose = 0
  debug = False
  default_headers = False

class Null(object):
  def write(self, x): pass
  def flush(self): pass

def text(l):
  return ''.join([chr(c) for c in l])
def ints(x):
  return [c if isinstance(c, int) else ord(c) for c in x]
def pairs(d):
  """what was decoded, in an order of its own"""
  if hasattr(d, 'items'):
    d = d.items()
  return sorted([[ints(k), ints(v)] for (k, v) in d])

def fresh():
  """as if the process had just been started"""
  for m in list(sys.modules):
    if m == 'compressor' or m.startswith('compressor.') or m == 'lib' or m.startswith('lib.'):
      del sys.modules[m]

def make(inst):
  try:
    return import_module('compressor.' + inst['codec']).Processor(Options(), bool(inst['req']), [str(p) for p in inst['params']]), ''
  except Exception as e:
    return None, 'raises ' + e.__class__.__name__

def compress(p, m):
  try:
    hd = OrderedDict([(text(n), text(v)) for n, v in m['hdrs']])
    if PY3:
      hd = dict(hd)
    r = p.compress(hd, text(m['host']))
    return r, {'exc': '', 'r': ints(r)}
  except Exception as e:
    return None, {'exc': 'raises ' + e.__class__.__name__, 'r': []}

def decompress(p, blob):
  try:
    return {'exc': '', 'r': pairs(p.decompress(blob))}
  except NotImplementedError:
    return {'exc': 'none', 'r': []}
  except Exception as e:
    return {'exc': 'raises ' + e.__class__.__name__, 'r': []}

def alone(inst):
  fresh()
  p, exc = make(inst)
  res = {'new': exc, 'c': [], 'd': []}
  if p is None:
    return res
  for m in inst['msgs']:
    blob, c = compress(p, m)
    res['c'].append(c)
    if blob is None:
      break
    d = decompress(p, blob)
    res['d'].append(d)
    if d['exc'] not in ('', 'none'):
      break
  return res

def bail(seconds=120):
  """the scenario under way hangs"""
  while True:
    time.sleep(1)
    if started[0] and time.time() - started[0] > seconds:
      out.write(json.dumps({'ev': 'call', 'i': 1, 'op': 'c', 'k': 0, 'exc': 'hangs', 'r': []}) + '\n')
      out.flush()
      try:
        from java.lang import Runtime
        Runtime.getRuntime().halt(7)
      except ImportError:
        os._exit(7)

started = [0]
out = open(sys.argv[2], 'w')
th = threading.Thread(target=bail)
th.daemon = True
th.start()
def emit(ev):
  out.write(json.dumps(ev, separators=(',', ':')) + '\n')
work = json.load(open(sys.argv[1]))
stdout = sys.stdout
sys.stdout = Null()
for w in work:
  started[0] = time.time()
  insts = w['insts']
  solo = [alone(i) if not i['src'] else {'new': '', 'c': [], 'd': []} for i in insts]
  for i, s in zip(insts, solo):
    if i['src']:        # a decoder of the frames of another instance
      s['new'], s['d'] = solo[i['src'] - 1]['new'], solo[i['src'] - 1]['d']
  emit({'ev': 'new', 'solo': solo, 'codecs': [i['codec'] for i in insts]})
  fresh()
  procs = [None] * len(insts)
  frames = [[] for i in insts]
  at_c, at_d, dead = [0] * len(insts), [0] * len(insts), [False] * len(insts)
  for op, n in w['schedule']:
    i = insts[n - 1]
    src = i['src'] or n
    if dead[n - 1]:
      continue
    if op == 'n':
      procs[n - 1], exc = make(i)
      dead[n - 1] = bool(exc)
      emit({'ev': 'call', 'i': n, 'op': 'n', 'k': 1, 'exc': exc, 'r': []})
    elif op == 'c' and procs[n - 1] is not None and at_c[n - 1] < len(solo[n - 1]['c']):
      blob, c = compress(procs[n - 1], i['msgs'][at_c[n - 1]])
      at_c[n - 1] += 1
      frames[n - 1].append(blob)
      dead[n - 1] = blob is None
      emit(dict(c, ev='call', i=n, op='c', k=at_c[n - 1]))
    elif op == 'd' and procs[n - 1] is not None and at_d[n - 1] < min(len(solo[n - 1]['d']), len(frames[src - 1])):
      blob = frames[src - 1][at_d[n - 1]]
      if blob is None:
        continue
      d = decompress(procs[n - 1], blob)
      at_d[n - 1] += 1
      dead[n - 1] = d['exc'] not in ('', 'none')
      emit(dict(d, ev='call', i=n, op='d', k=at_d[n - 1]))
started[0] = 0
out.close()
sys.stdout = stdout
print('DRIVER-DONE')
