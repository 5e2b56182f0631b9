# Jython driver: typed header encodings, and frames of the bohe codec.   usage: bohe_driver.py IN OUT
import sys, os, json, time, threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['VERIF_COPY'])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
from java.lang import Runtime
from collections import OrderedDict
from importlib import import_module

class Options(object):
  verbose = 0
  debug = False
class Null(object):
  def write(self, x): pass
  def flush(self): pass
def text(l):
  return ''.join([chr(c) for c in l])
def ints(s):
  return [ord(c) for c in s]
out = open(sys.argv[2], 'w')
def emit(ev):
  out.write(json.dumps(ev, separators=(',', ':')) + '\n')
current = [None, 0.0]
def watchdog():
  while True:
    time.sleep(0.5)
    ev, t = current
    if ev is not None and time.time() - t > 60:
      emit(dict(ev, exc='hangs', out=[]))
      out.flush()
      Runtime.getRuntime().halt(7)
th = threading.Thread(target=watchdog)
th.setDaemon(True)
th.start()
work = json.load(open(sys.argv[1]))
stdout = sys.stdout
sys.stdout = Null()
for h in work:
  emit({'ev': 'new'})
  for w in h:
    if 'key' in w:
      ev = {'ev': 'enc', 'variant': w['variant'], 'key': w['key'], 'val': w['val'], 'req': w['req'],
            'year': time.gmtime().tm_year, 'out': [], 'exc': ''}
      current[:] = [ev, time.time()]
      try:
        m = import_module('compressor.' + w['variant'] + '.bohe')
        args = [text(w['key']), text(w['val'])] + ([w['req']] if w['variant'] == 'delta2_bohe' else [])
        ev['out'] = ints(m.encode(*args))
      except Exception as e:
        ev['exc'] = 'raises ' + e.__class__.__name__
      if w.get('carry'):     # the first frame of that codec with this header alone
        ev.update(ev='carry', frame=[])
        if not ev['exc'] and ev['out']:
          try:
            p = import_module('compressor.' + w['variant']).Processor(Options(), w['req'], [])
            ev['frame'] = ints(p.compress(OrderedDict([(text(w['key']), text(w['val']))]), 'h'))
          except Exception as e:
            ev['exc'] = 'raises ' + e.__class__.__name__
    else:
      ev = {'ev': 'frame', 'hdrs': w['hdrs'], 'req': w['req'], 'out': [], 'exc': ''}
      current[:] = [ev, time.time()]
      try:
        p = import_module('compressor.bohe').Processor(Options(), w['req'], [])
        ev['out'] = ints(p.compress(OrderedDict([(text(n), text(v)) for n, v in w['hdrs']]), 'h'))
      except Exception as e:
        ev['exc'] = 'raises ' + e.__class__.__name__
    current[0] = None
    emit(ev)
out.close()
sys.stdout = stdout
print('DRIVER-DONE')
