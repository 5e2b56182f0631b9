# A minimal stand-in for the bitarray extension (not available to Jython):
# big-endian bits, only the operations that compressor/simple/seven.py uses.
class bitarray(object):
  def __init__(self, bits=()):
    self._b = [int(bool(x)) for x in bits]
  def _load(self, text):
    for c in text:
      o = ord(c)
      self._b.extend([(o >> k) & 1 for k in (7, 6, 5, 4, 3, 2, 1, 0)])
  fromstring = frombytes = _load
  def __len__(self):
    return len(self._b)
  def __getitem__(self, i):
    if isinstance(i, slice):
      return bitarray(self._b[i])
    return self._b[i]
  def __iter__(self):
    return iter(self._b)
  def append(self, x):
    self._b.append(int(bool(x)))
  def extend(self, other):
    self._b.extend([int(bool(x)) for x in other])
  def tobytes(self):
    o = []
    for i in range(0, len(self._b), 8):
      byte = (self._b[i:i + 8] + [0] * 8)[:8]
      v = 0
      for x in byte:
        v = v * 2 + x
      o.append(chr(v))
    return ''.join(o)
  tostring = tobytes
