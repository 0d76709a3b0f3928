"""Reference models: plain integers and lists, nothing shared with the code."""
import itertools


def is_prime(n):
  if n < 2:
    return False
  if n > 10**10:
    # Miller and Rabin with these bases decides up to 3 * 10^24
    assert n < 3 * 10**24
    d, e = n - 1, 0
    while d % 2 == 0:
      d, e = d // 2, e + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
      x = pow(a, d, n)
      if x != 1 and not any(pow(x, 2**i, n) == n - 1 for i in range(e)):
        return False
    return True
  i = 2
  while i * i <= n:
    if n % i == 0:
      return False
    i += 1
  return True


# ---- polynomials over Z/p as lists of ints, lowest degree first, no trailing 0


def trim(a):
  a = list(a)
  while a and a[-1] == 0:
    a.pop()
  return a


def padd(a, b, p):
  n = max(len(a), len(b))
  a, b = list(a) + [0] * (n - len(a)), list(b) + [0] * (n - len(b))
  return trim([(x + y) % p for x, y in zip(a, b)])


def psub(a, b, p):
  return padd(a, [-x % p for x in b], p)


def pmul(a, b, p):
  if not a or not b:
    return []
  r = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      r[i + j] += x * y
  return trim([x % p for x in r])


def pdivmod(a, b, p):
  a, q = trim(a), [0] * max(0, len(a) - len(b) + 1)
  inv = pow(b[-1], -1, p)
  while len(a) >= len(b):
    s, c = len(a) - len(b), a[-1] * inv % p
    q[s] = c
    for i, y in enumerate(b):
      a[s + i] = (a[s + i] - c * y) % p
    a = trim(a)
  return trim(q), a


def pmonic(a, p):
  inv = pow(a[-1], -1, p) if a else 1
  return [x * inv % p for x in a]


def pgcd(a, b, p):
  a, b = trim(a), trim(b)
  while b:
    a, b = b, pdivmod(a, b, p)[1]
  return pmonic(a, p)


def ppowmod(a, n, m, p):
  r = pdivmod([1], m, p)[1]
  a = pdivmod(a, m, p)[1]
  while n:
    if n & 1:
      r = pdivmod(pmul(r, a, p), m, p)[1]
    a = pdivmod(pmul(a, a, p), m, p)[1]
    n >>= 1
  return r


def peval(a, x, p):
  y = 0
  for c in reversed(a):
    y = (y * x + c) % p
  return y


def all_polys(p, deg):
  """Every polynomial of degree <= deg (the zero polynomial included)."""
  for c in itertools.product(range(p), repeat=deg + 1):
    yield trim(c)


def monics(p, deg):
  for c in itertools.product(range(p), repeat=deg):
    yield list(c) + [1]


_IRR = {}


def irreducibles(p, deg):
  """All monic irreducible polynomials of this degree, by sieving products."""
  if (p, deg) not in _IRR:
    composite = set()
    for d in range(1, deg // 2 + 1):
      for a in irreducibles(p, d):
        for b in monics(p, deg - d):
          composite.add(tuple(pmul(a, b, p)))
    _IRR[p, deg] = [m for m in monics(p, deg) if tuple(m) not in composite]
  return _IRR[p, deg]


def is_irreducible(f, p):
  return len(f) > 1 and tuple(pmonic(f, p)) in set(map(tuple, irreducibles(p, len(f) - 1)))


def order_of_x(f, p):
  """Order of x modulo f, by walking; None when x is not invertible."""
  x = pdivmod([0, 1], f, p)[1]
  one = pdivmod([1], f, p)[1]
  v, n = x, 1
  seen = set()
  while v != one:
    if tuple(v) in seen:
      return None
    seen.add(tuple(v))
    v = pdivmod(pmul(v, x, p), f, p)[1]
    n += 1
  return n


class RF:
  """GF(p^m) on the integers 0..p^m-1, the base-p digits being the coefficients."""

  def __init__(self, p, m=1, mod=None):
    self.p, self.m, self.q = p, m, p**m
    self.mod = mod
    if m > 1:
      assert len(mod) == m + 1
    self._tables = None
    if m > 1 and self.q <= 1024:
      g = [self._mul(a, b) for a in range(self.q) for b in range(self.q)] if self.q <= 128 else None
      self._tables = g

  def digits(self, a):
    r = []
    for _ in range(self.m):
      a, d = divmod(a, self.p)
      r.append(d)
    return r

  def undigits(self, c):
    r = 0
    for d in reversed(list(c)):
      r = r * self.p + d
    return r

  def add(self, a, b):
    if self.m == 1:
      return (a + b) % self.p
    if self.p == 2:
      return a ^ b
    return self.undigits((x + y) % self.p for x, y in zip(self.digits(a), self.digits(b)))

  def neg(self, a):
    if self.m == 1:
      return -a % self.p
    if self.p == 2:
      return a
    return self.undigits([-x % self.p for x in self.digits(a)])

  def sub(self, a, b):
    return self.add(a, self.neg(b))

  def _mul(self, a, b):
    if self.p == 2:
      m, r = self.undigits(self.mod), 0
      while b:
        if b & 1:
          r ^= a
        b >>= 1
        a <<= 1
        if a >> self.m & 1:
          a ^= m
      return r
    c = pmul(trim(self.digits(a)), trim(self.digits(b)), self.p)
    return self.undigits(pdivmod(c, self.mod, self.p)[1])

  def mul(self, a, b):
    if self.m == 1:
      return a * b % self.p
    if self._tables:
      return self._tables[a * self.q + b]
    return self._mul(a, b)

  def pow(self, a, n):
    if self.m == 1:
      return pow(a, n, self.p)
    r = 1
    while n:
      if n & 1:
        r = self.mul(r, a)
      a = self.mul(a, a)
      n >>= 1
    return r

  def inv(self, a):
    assert a
    return self.pow(a, self.q - 2) if self.m > 1 else pow(a, -1, self.p)

  def div(self, a, b):
    return self.mul(a, self.inv(b))

  def scalar(self, n):
    """The image of an integer."""
    return n % self.p

  def sum(self, xs):
    r = 0
    for x in xs:
      r = self.add(r, x)
    return r

  # polynomials over the field, as lists

  def padd(self, a, b):
    n = max(len(a), len(b))
    a, b = list(a) + [0] * (n - len(a)), list(b) + [0] * (n - len(b))
    return trim([self.add(x, y) for x, y in zip(a, b)])

  def pneg(self, a):
    return [self.neg(x) for x in a]

  def psub(self, a, b):
    return self.padd(a, self.pneg(b))

  def pmul(self, a, b):
    if not a or not b:
      return []
    if self.m == 1:
      return pmul(a, b, self.p)
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
      for j, y in enumerate(b):
        r[i + j] = self.add(r[i + j], self.mul(x, y))
    return trim(r)

  def pdivmod(self, a, b):
    if self.m == 1:
      return pdivmod(a, b, self.p)
    a, q = trim(a), [0] * max(0, len(a) - len(b) + 1)
    inv = self.inv(b[-1])
    while len(a) >= len(b):
      s, c = len(a) - len(b), self.mul(a[-1], inv)
      q[s] = c
      for i, y in enumerate(b):
        a[s + i] = self.sub(a[s + i], self.mul(c, y))
      a = trim(a)
    return trim(q), a

  def peval(self, a, x):
    y = 0
    for c in reversed(a):
      y = self.add(self.mul(y, x), c)
    return y

  def pfromroots(self, xs):
    r = [1]
    for x in xs:
      r = self.pmul(r, [self.neg(x), 1])
    return r

  def interpolate(self, xs, ys):
    """The polynomial of degree < len(xs) through the points (Newton form)."""
    r, base = [], [1]
    for x, y in zip(xs, ys):
      c = self.div(self.sub(y, self.peval(r, x)), self.peval(base, x))
      r = self.padd(r, self.pmul([c] if c else [], base))
      base = self.pmul(base, [self.neg(x), 1])
    return r


def order(rf, a):
  n, v = 1, a
  while v != 1:
    v = rf.mul(v, a)
    n += 1
  return n


# ---- multivariate polynomials over an RF: dicts from exponent tuples to ints


def mclean(a):
  return {k: v for k, v in a.items() if v}


def madd(rf, a, b):
  r = dict(a)
  for k, v in b.items():
    r[k] = rf.add(r.get(k, 0), v)
  return mclean(r)


def mneg(rf, a):
  return {k: rf.neg(v) for k, v in a.items()}


def mmul(rf, a, b):
  r = {}
  for k, v in a.items():
    for l, w in b.items():
      e = tuple(x + y for x, y in zip(k, l))
      r[e] = rf.add(r.get(e, 0), rf.mul(v, w))
  return mclean(r)


def mpow(rf, a, n, nvars):
  r = {(0,) * nvars: 1}
  for _ in range(n):
    r = mmul(rf, r, a)
  return r


def meval(rf, a, xs):
  r = 0
  for k, v in a.items():
    for x, e in zip(xs, k):
      v = rf.mul(v, rf.pow(x, e))
    r = rf.add(r, v)
  return r
