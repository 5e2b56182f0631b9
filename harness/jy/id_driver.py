# Jython driver: plays operation histories on the real IDStores.   usage: id_driver.py IN OUT
import sys, os, json
sys.dont_write_bytecode = True
stdout = sys.stdout
BASE = list(sys.path)
OWN = set(sys.modules)

def load(variant):
  for m in list(sys.modules):
    if m not in OWN:
      del sys.modules[m]
  sys.path[:] = [os.path.join(os.environ['VERIF_COPY'], 'compressor', variant)] + BASE
  return __import__('common_utils')

class Null(object):
  def write(self, x): pass
  def flush(self): pass

out = open(sys.argv[2], 'w')
def emit(ev):
  out.write(json.dumps(ev, separators=(',', ':')) + '\n')
work = json.load(open(sys.argv[1]))
sys.stdout = Null()
modules = {}
for h in work:
  v = h['variant']
  if v not in modules:
    modules[v] = load(v)
  new = {'ev': 'new', 'variant': v, 'max': h['max'], 'count': h['count'], 'exc': '', 'what': ''}
  stores = []
  try:
    for k in range(h['count']):
      stores.append(modules[v].IDStore(*([h['max']] if h['arg'] else [])))
  except Exception, e:
    new.update(exc='raises', what=repr(e)[:200])
    emit(new)
    continue
  emit(new)
  used = [[] for s in stores]
  seen = [set() for s in stores]
  for op in h['ops']:
    k, st = op['s'], stores[op['s']]
    ev = {'ev': op['op'], 's': k + 1, 'ids': [], 'exc': '', 'what': '', 'again': 0}
    try:
      if op['op'] == 'get':
        for i in range(op['n']):
          x = int(st.GetNext())
          ev['again'] += x in seen[k]
          seen[k].add(x)
          used[k].append(x)
          ev['ids'].append(x)
      else:
        for p in op['pos']:
          x = used[k].pop(p)
          ev['ids'].append(x)
          st.DoneWithId(x)
    except Exception, e:
      ev.update(exc='raises', what=repr(e)[:200])
    emit(ev)
    if ev['exc']:
      break
out.close()
stdout.write('DRIVER-DONE\n')
