# Jython driver: plays header histories through the real compressor.* codecs
# and records one event per public call pair.   usage: codec_driver.py IN OUT
import sys, os, json, time, threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['VERIF_COPY'])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
from collections import OrderedDict
from importlib import import_module
from java.lang import Runtime, StackOverflowError, OutOfMemoryError

CALL_LIMIT = float(os.environ.get('VERIF_CALL_LIMIT', '30'))

class Options(object):
  verbose = 0
  debug = False
  default_headers = False

def s8(x):
  if isinstance(x, list):
    return ''.join([chr(c) for c in x])
  return x.encode('latin-1')

def b(x):
  if isinstance(x, unicode):
    return [ord(c) & 255 if ord(c) < 256 else 63 for c in x]
  return [ord(c) for c in x]

def pairs(d):
  if hasattr(d, 'items'):
    d = d.items()
  return [[b(k), b(v)] for (k, v) in d]

out = open(sys.argv[2], 'w')
lock = threading.Lock()
current = [None, 0.0, 'exc']

def emit(ev):
  lock.acquire()
  out.write(json.dumps(ev, separators=(',', ':')) + '\n')
  lock.release()

def watchdog():
  while True:
    time.sleep(0.5)
    ev, t, field = current
    if ev is not None and time.time() - t > CALL_LIMIT:
      lock.acquire()
      e = dict(ev)
      e[field] = 'hangs'
      out.write(json.dumps(e, separators=(',', ':')) + '\n')
      out.flush()
      Runtime.getRuntime().halt(7)

th = threading.Thread(target=watchdog)
th.setDaemon(True)
th.start()

def guarded(ev, field, fn):
  current[:] = [ev, time.time(), field]
  try:
    try:
      return fn()
    except (Exception, StackOverflowError, OutOfMemoryError), e:
      ev[field] = 'raises'
      ev['what'] = repr(e)[:200]
    except SystemExit, e:
      ev[field] = 'raises'
      ev['what'] = repr(e)[:200]
    return None
  finally:
    current[0] = None

stdout = sys.stdout
class Null(object):
  def write(self, x): pass
  def flush(self): pass

histories = json.load(open(sys.argv[1]))
sys.stdout = Null()
for h in histories:
  ev = dict(h['new'])
  ev['ev'] = 'new'
  ev['exc'] = ''
  params = [s8(p) for p in h.get('params', [])]
  def make():
    m = import_module('compressor.' + h['codec'])
    return m.Processor(Options(), bool(h['req']), params)
  proc = guarded(ev, 'exc', make)
  emit(ev)
  if proc is None:
    continue
  for st in h['steps']:
    if 'feed' in st:
      ev = {'ev': 'feed', 'exc': '', 'dexc': '', 'frame': st['feed'], 'dec': []}
      blob = s8(st['feed'])
    else:
      hd = OrderedDict()
      for n, v in st['hdrs']:
        hd[s8(n)] = s8(v)
      ev = {'ev': 'frame', 'hdrs': pairs(hd), 'exc': '', 'dexc': '', 'frame': [], 'dec': [],
            'mut': False}
      if 'host' in st:
        ev['host'] = b(s8(st['host']))
      before = pairs(hd)
      blob = guarded(ev, 'exc', lambda: proc.compress(hd, s8(st.get('host', 'h.example'))))
      ev['mut'] = pairs(hd) != before
      if ev['exc']:
        emit(ev)
        break
      ev['frame'] = b(blob)
    if not h.get('nodec'):
      d = guarded(ev, 'dexc', lambda: pairs(proc.decompress(blob)))
      if d is not None:
        ev['dec'] = d
    emit(ev)
    if ev['dexc']:
      break
out.close()
sys.stdout = stdout
print 'DRIVER-DONE', len(histories)
Runtime.getRuntime().halt(0)
