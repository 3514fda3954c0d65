# Stand-in for the absent third-party module tonic.combination (assumed contract; listed in the evidence).
FAST = True     # same text, read as Python 3 by the evaluator, for known numbers


def fact(n):
  r = 1
  for i in range(2, n + 1):
    r = r * i
  return r


def C(n, m):
  """number of m-element subsets of n elements"""
  if m < 0 or n < 0 or m > n:
    return 0
  r = 1
  for i in range(m):
    r = r * (n - i) // (i + 1)
  return r


def C_Hash(xs, c):
  """number of the 0/1 list xs, most significant first, among the lists with c ones in increasing order"""
  n = len(xs)
  r = 0
  for x in xs:
    n = n - 1
    if x:
      r = r + C(n, c)
      c = c - 1
  assert c == 0
  return r


def C_RHash(k, n, c):
  """the list of n bits with c ones whose number is k"""
  assert 0 <= k < C(n, c)
  xs = []
  while n:
    n = n - 1
    if k >= C(n, c):
      xs.append(1)
      k = k - C(n, c)
      c = c - 1
    else:
      xs.append(0)
  return xs
