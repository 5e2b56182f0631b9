# Jython driver: plays operation histories on the real delta2 LruStorage.   usage: lru_driver.py IN OUT
import sys, os, json, time, threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ['VERIF_COPY'], 'compressor', 'delta2'))
from java.lang import Runtime
import lrustorage
from lrustorage import LruStorage, KV

def s8(x):
  return ''.join([chr(c) for c in x])
def b(x):
  return [ord(c) for c in x]
def none(x):
  return None if x == -1 else x

out = open(sys.argv[2], 'w')
current = [None, 0.0]
def watchdog():
  while True:
    time.sleep(0.5)
    ev, t = current
    if ev is not None and time.time() - t > 20:
      e = dict(ev)
      e['exc'] = 'hangs'
      out.write(json.dumps(e, separators=(',', ':')) + '\n')
      out.flush()
      Runtime.getRuntime().halt(7)
th = threading.Thread(target=watchdog)
th.setDaemon(True)
th.start()
def emit(ev):
  out.write(json.dumps(ev, separators=(',', ':')) + '\n')

class Null(object):
  def write(self, x): pass
  def flush(self): pass
stdout = sys.stdout
histories = json.load(open(sys.argv[1]))
sys.stdout = Null()
for h in histories:
  n = h['new']
  st = LruStorage(none(n['maxb']), none(n['maxn']), none(n['maxs']), n['off'])
  popped = []
  st.pop_cb = lambda e: popped.append([e.seq_num, b(e.key()), b(e.val())])
  outside = KV('st', 'ic')
  made = []
  emit(dict(n, ev='new'))
  for op in h['ops']:
    if op['ev'] == 'probe':
      ev = {'ev': 'probe', 'looks': [], 'finds': []}
      for q in op['looks']:
        try:
          e = st.Lookup(q)
          i = st.SeqNumToIdxFromLeft(q) if e is not None else 0
        except Exception:
          e = None
        if e is None:
          ev['looks'].append([q, 0, [], [], 0])
        else:
          ev['looks'].append([q, 1 if e.seq_num == q else 2, b(e.key()), b(e.val()), i])
      for k, v in op['finds']:
        try:
          ke, ve = st.FindKeyValEntries(s8(k), s8(v))
        except Exception:
          ke, ve = -2, -2
        ev['finds'].append([k, v, -1 if ke is None else ke, -1 if ve is None else ve])
      emit(ev)
      continue
    ev = dict(op)
    ev.update(exc='', ok=False, seq=-1)
    del popped[:]
    current[:] = [ev, time.time()]
    try:
      if op['ev'] == 'pop':
        ev['ok'] = bool(st.PopOne())
      else:
        def src(ref, text, attr):
          return s8(text) if ref == 0 else getattr(outside if ref == -1 else made[ref - 1], attr)
        kv = KV(src(op['kref'], op['k'], 'key_'), src(op['vref'], op['v'], 'val_'))
        made.append(kv)
        if op['ev'] == 'insert':
          ev['ok'] = bool(st.Reserve(kv, op['n']))
          if ev['ok']:
            st.Store(kv)
            ev['seq'] = kv.seq_num
          else:
            kv.done()
        elif op['ev'] == 'store':
          try:
            st.Store(kv)
            ev['ok'] = True
            ev['seq'] = kv.seq_num
          except MemoryError:
            kv.done()
        else:
          ev['ok'] = bool(st.Reserve(kv, op['n']))
          kv.done()
    except Exception, e:
      ev['exc'] = 'raises'
      ev['what'] = repr(e)[:200]
    current[0] = None
    ev.update(out=list(popped), len=len(st), bytes=st.byte_size)
    emit(ev)
    if ev['exc']:
      break
out.close()
sys.stdout = stdout
print 'DRIVER-DONE', len(histories)
Runtime.getRuntime().halt(0)
