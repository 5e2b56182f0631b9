# Jython driver: builds Huffman coders and codes texts with them.   usage: huff_driver.py IN OUT
import sys, os, json, time, threading
sys.dont_write_bytecode = True
from java.lang import Runtime
stdout = sys.stdout
BASE = list(sys.path)
OWN = set(sys.modules)

def load(variant):
  for m in list(sys.modules):
    if m not in OWN:
      del sys.modules[m]
  sys.path[:] = [os.path.join(os.environ['VERIF_COPY'], 'compressor', variant)] + BASE
  return __import__('huffman'), __import__('bit_bucket'), __import__('header_freq_tables')

class Null(object):
  def write(self, x): pass
  def flush(self): pass
out = open(sys.argv[2], 'w')
def emit(ev):
  out.write(json.dumps(ev, separators=(',', ':')) + '\n')
current = [None, 0.0]
def watchdog():
  while True:
    time.sleep(0.5)
    ev, t = current
    if ev is not None and time.time() - t > 30:
      emit(dict(ev, exc='hangs'))
      out.flush()
      Runtime.getRuntime().halt(7)
th = threading.Thread(target=watchdog)
th.setDaemon(True)
th.start()
def ints(xs):
  return [int(x) for x in xs]

work = json.load(open(sys.argv[1]))
sys.stdout = Null()
modules = {}
for h in work:
  v = h['variant']
  if v not in modules:
    modules[v] = load(v)
  huffman, bits, tables = modules[v]
  fr = h['freqs']
  if fr == 'request' or fr == 'response':
    table = getattr(tables, fr + '_freq_table')
  elif h['chars']:
    table = [(chr(i) if i < 256 else i, f) for i, f in enumerate(fr)]
  else:
    table = [(i, f) for i, f in enumerate(fr)]
  if h['shuffle']:                    # the order of the table does not matter
    table = [table[i] for i in h['shuffle']]
  freqs = [0] * len(table)
  for s, f in table:
    freqs[s if isinstance(s, int) else ord(s)] = f
  ev = {'ev': 'new', 'variant': v, 'freqs': freqs, 'canon': v == 'delta2', 'limit': 32 if v == 'delta2' else 0,
        'opt': False, 'codes': [], 'exc': ''}
  current[:] = [ev, time.time()]
  try:
    hf = huffman.Huffman(table)
    cs = []
    for i in range(len(table)):
      b, n = hf.Encode([], True) if i == 256 else hf.Encode([i], False)
      cs.append([int(n), ints(b)])
    ev['codes'] = cs
    longest = max([c[0] for c in cs])
    # small enough for the specification to add up, and short enough for no limit to apply
    ev['opt'] = sum(freqs) * longest < 2 ** 30 and (v != 'delta2' or longest < 32)
    if not ev['opt']:
      ev['freqs'] = [0] * len(freqs)
  except Exception, ex:
    ev['exc'] = type(ex).__name__
    ev['freqs'] = []
  current[0] = None
  emit(ev)
  if ev['exc']:
    continue
  for t in h['texts']:
    e = dict(ev='text', text=t['text'], eof=t['eof'], pre=t['pre'], post=t['post'], bits=-1, enc=[], dec=[], used=-1, count=0, exc='')
    current[:] = [e, time.time()]
    try:
      b, n = hf.Encode(list(t['text']), t['eof'])
      e['enc'], e['bits'] = ints(b), int(n)
      bb = bits.BitBucket()
      junk = lambda k: ([165] * ((k + 7) / 8), k)
      bb.StoreBits(junk(t['pre']))
      hf.EncodeToBB(bb, list(t['text']), t['eof'])
      if bb.NumBits() != t['pre'] + n:
        e['exc'] = 'EncodeToBB'
      bb.StoreBits(junk(t['post']))
      bb.GetBits(t['pre'])
      if t['count'] >= 0:
        e['count'] = int(n) + t['count']
      before = bb.BitsRemaining()
      e['dec'] = ints(hf.DecodeFromBB(bb, t['eof'], e['count']))
      e['used'] = int(before - bb.BitsRemaining())
    except Exception, ex:
      e['exc'] = type(ex).__name__
    current[0] = None
    emit(e)
out.close()
sys.stdout = stdout
print "DRIVER-DONE"
