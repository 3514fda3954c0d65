# Stand-in for the absent third-party package tonic (assumed contract; listed in the evidence).


class BitsArray(object):
  """size bits; binary: bytes, bit k is bit k%8 of byte k//8 (little endian); a slice is the number of those bits, first bit lowest"""
  def __init__(self, size, binary=None, endian='<'):
    assert endian == '<'
    self.size = size
    self.bits = [0 for i in range(size)]
    if binary:
      for i in range(size):
        if i // 8 < len(binary):
          self.bits[i] = (ord(binary[i // 8]) >> (i % 8)) & 1

  def __len__(self):
    return self.size

  def __getitem__(self, s):
    r = BitsArray(s.stop - s.start)
    r.bits = self.bits[s.start:s.stop]
    return r

  def __int__(self):
    return sum([b * 2 ** i for i, b in enumerate(self.bits)])

  def __nonzero__(self):
    return int(self) != 0

  def set_shiftable(self, value, begin, end):
    n = int(value)
    for i in range(begin, end):
      self.bits[i] = n // 2 ** (i - begin) % 2

  def _binary(self):
    out = []
    for k in range((self.size + 7) // 8):
      out.append(chr(sum([b * 2 ** i for i, b in enumerate(self.bits[8 * k:8 * k + 8])])))
    return ''.join(out)
  binary = property(_binary)
