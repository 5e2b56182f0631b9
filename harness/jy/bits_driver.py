# Jython driver: plays operation histories on the real BitBuckets.   usage: bits_driver.py IN OUT
import sys, os, json
sys.dont_write_bytecode = True
stdout = sys.stdout
BASE = list(sys.path)
OWN = set(sys.modules)

def load(variant):
  """the bit_bucket module of one variant (they share module names)"""
  for m in list(sys.modules):
    if m not in OWN:
      del sys.modules[m]
  sys.path[:] = [os.path.join(os.environ['VERIF_COPY'], 'compressor', variant)] + BASE
  return __import__('bit_bucket')

class Null(object):
  def write(self, x): pass
  def flush(self): pass
def num(bs):
  r = 0
  for x in bs:
    r = r * 256 + x
  return r
def four(v):
  v = int(v)
  if v < 0 or v >= 2 ** 32:
    return [-1]
  return [(v >> s) & 255 for s in (24, 16, 8, 0)]
def ints(xs):
  return [int(x) for x in xs]

out = open(sys.argv[2], 'w')
def emit(ev):
  out.write(json.dumps(ev, separators=(',', ':')) + '\n')

work = json.load(open(sys.argv[1]))
sys.stdout = Null()
modules = {}
for h in work:
  v = h['variant']
  if v not in modules:
    modules[v] = load(v)
  bb = modules[v].BitBucket()
  emit({'ev': 'new', 'variant': v})
  for ev in h['ops']:
    op, n, arg = ev['ev'], ev['n'], ev['b']
    e = dict(ev)
    e.update(exc='', got=[], refused=False, num=-1, rem=-1, done=False, cap=-1)
    try:
      if op == 'store':
        bb.StoreBits((list(arg), n))
      elif op == 's1':
        bb.StoreBit(num(arg))
      elif op in ('s4', 's8', 's16', 's22', 's32'):
        getattr(bb, 'StoreBits' + op[1:])(num(arg))
      elif op == 'get':
        g, k = bb.GetBits(n)
        e['got'] = ints(g)
        if k != n:
          e['exc'] = 'count'
      elif op == 'g1':
        e['got'] = four(bb.GetBit())
      elif op in ('g4', 'g8', 'g16', 'g32'):
        e['got'] = four(getattr(bb, 'GetBits' + op[1:])())
      elif op == 'pad':
        bb.PadToByteBoundary()
      elif op == 'align':
        getattr(bb, 'AdvanceReadPtrToByteBoundary' if v == 'delta2' else 'AdvanceToByteBoundary')()
      elif op == 'clear':
        bb.Clear()
      elif op == 'all':
        g, k = bb.GetAllBits()
        e['got'] = ints(g)
        if k != bb.NumBits():
          e['exc'] = 'count'
      elif op == 'over':
        try:
          bb.GetBits(n)
        except Exception:
          e['refused'] = True
      e.update(num=int(bb.NumBits()), rem=int(bb.BitsRemaining()), done=bool(bb.AllConsumed()), cap=int(bb.BytesOfStorage()))
    except Exception, ex:
      e['exc'] = type(ex).__name__
    emit(e)
    if e['exc']:
      break
out.close()
sys.stdout = stdout
print "DRIVER-DONE"
