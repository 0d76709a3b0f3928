from mc import env, ref

ID = "C19"
BOUNDS = {
    "pairs": "every pair of well formed floating point numbers over GF(4) and over GF(8) under both moduli, all operations; over "
             "GF(16) every pair of significands and every pair of exponents in 3 x 3 sign and zero patterns (thorough: every "
             "pair)",
    "wide": "boundary significands and exponents over GF(2^5) and GF(2^8)",
    "powers": "every base and exponent over GF(4) and GF(8), every integer exponent of GF(16) and GF(32)",
}
ASSUMPTIONS = ["The exponent and sign of a sum that is zero are not constrained."]


class Model:
  """(v, p, z, s) with v and p words of the reference field."""

  def __init__(self, br):
    self.rf, self.m = br.rf, br.m

  def deg(self, a):
    return a.bit_length() - 1

  def add(self, a, b):
    if a[2]:
      return b
    if b[2]:
      return a
    first = (a[1], a[0]) > (b[1], b[0])
    hi, lo = (a, b) if first else (b, a)
    d = a[1] ^ b[1]
    if d > self.m:
      return hi
    v = self.rf.add(self.rf.mul(hi[0], self.rf.pow(2, d)), lo[0])
    return (v, lo[1], 0 if v else 1, hi[3]) if v else (0, None, 1, None)

  def neg(self, a):
    return a[:3] + (1 - a[3],)

  def scale(self, n):
    return n if n > 0 else 0

  def mul(self, a, b):
    if a[2] or b[2]:
      return (0, 0, 1, a[3] ^ b[3])
    n = self.deg(a[0]) + self.deg(b[0]) - (self.m - 1)
    return (self.rf.mul(a[0], b[0]), a[1] ^ b[1] ^ self.scale(n), 0, a[3] ^ b[3])

  def div(self, a, b):
    if a[2]:
      return (0, 0, 1, a[3] ^ b[3])
    i = self.rf.inv(b[0])
    n = self.deg(a[0]) + self.deg(i) - (self.m - 1)
    return (self.rf.mul(a[0], i), a[1] ^ b[1] ^ self.scale(n), 0, a[3] ^ b[3])

  def fix(self, a):
    if a[2]:
      return 0, 0
    return self.rf.mul(a[0], self.rf.pow(2, a[1])), a[3]

  def power(self, a, b):
    n, _ = self.fix(b)
    one = (1, 0, 0, 0)
    out = one
    for _ in range(n):
      out = self.mul(out, a)
    return self.div(one, out) if b[3] else out


class World:

  def __init__(self, mod):
    from starks.floatingpoint import FloatingPoint
    self.br = env.ext_field(2, mod)
    self.F = FloatingPoint(self.br.F)
    self.model = Model(self.br)

  def make(self, t):
    v, p, z, s = t
    return self.F(self.br.to(v), self.br.to(p), z, s)

  def read(self, x):
    assert type(x) is self.F, type(x)
    return (self.br.frm(x.v), self.br.frm(x.p), int(x.z), int(x.s))


def same(ctx, w, x, want, what, *detail):
  got = w.read(x)
  if want[1] is None:
    got = (got[0], None, got[2], None)
  ctx.eq(got, want, what, *detail)
  ctx.check(bool(got[2]) == (got[0] == 0), "zero flag", what, got, *detail)


def pair(ctx, w, a, b):
  m = w.model
  x, y = w.make(a), w.make(b)
  ctx.at("operands", w.br.rf.mod, a, b)
  same(ctx, w, x + y, m.add(a, b), "sum", a, b)
  same(ctx, w, x - y, m.add(a, m.neg(b)), "difference", a, b)
  same(ctx, w, x * y, m.mul(a, b), "product", a, b)
  if b[2]:
    ctx.raises(lambda: x / y, ZeroDivisionError, "division by zero", a, b)
  else:
    same(ctx, w, x / y, m.div(a, b), "quotient", a, b)
  ctx.eq((w.read(x), w.read(y)), (a, b), "operand changed")
  eq = bool(x == y)
  want = a == b or bool(a[2] and b[2])
  if want or a[2] != b[2]:
    ctx.eq(eq, want, "equality", a, b)
  else:
    ctx.finding("equality-of-nonzero",
                "two different numbers that are both nonzero compare equal", eq == want)
  ctx.state((a, b))


def numbers(q, zero_exps=(0, 1)):
  out = [(v, p, 0, s) for v in range(1, q) for p in range(q) for s in (0, 1)]
  return out + [(0, p, 1, s) for p in zero_exps for s in (0, 1)]


def fixed(ctx, w, a):
  got = w.make(a).Float_to_Fix()
  ctx.eq((w.br.frm(got[0]), int(got[1])), w.model.fix(a), "fixed point value", a)


def pairs(ctx, mod, part, parts):
  w = World(mod)
  ns = numbers(w.br.q)
  for i, a in enumerate(ns):
    if i % parts != part:
      continue
    fixed(ctx, w, a)
    for b in ns:
      pair(ctx, w, a, b)
    ctx.trace()
  ctx.sample(mod, ns[part], ns[-1])


def slices(ctx, mod, part, parts):
  """Every pair of significands for some exponents, every pair of exponents for some significands."""
  w = World(mod)
  q = w.br.q
  signs = ((0, 0), (0, 1), (1, 0))
  ex = ((0, 0), (1, 0), (0, 3), (q - 1, q - 4), (5, 10))
  sg = ((1, 1), (1, q - 1), (q - 1, 2), (6, 6))
  for i in range(q):
    if i % parts != part:
      continue
    for j in range(q):
      for sa, sb in signs:
        if i and j:
          for pa, pb in ex:
            pair(ctx, w, (i, pa % q, 0, sa), (j, pb % q, 0, sb))
        for va, vb in sg:
          pair(ctx, w, (va, i, 0, sa), (vb, j, 0, sb))
        pair(ctx, w, (0, i, 1, sa), (max(j, 1), i, 0, sb))
        pair(ctx, w, (max(j, 1), i, 0, sa), (0, j, 1, sb))
    ctx.trace()


def wide(ctx, mod, part, parts):
  w = World(mod)
  q, m = w.br.q, w.br.m
  vs = sorted({1, 2, 3, q - 1, q // 2, q // 2 + 1, q // 3})
  ps = sorted({0, 1, m - 1, m, m + 1, m + 2, q - 1, q // 2})
  ns = [(v, p, 0, s) for v in vs for p in ps for s in (0, 1)] + [(0, 0, 1, 0), (0, 3, 1, 1)]
  for i, a in enumerate(ns):
    if i % parts == part:
      fixed(ctx, w, a)
      for b in ns:
        pair(ctx, w, a, b)
      ctx.trace()


def powers(ctx, mod, part, parts):
  w = World(mod)
  ns = numbers(w.br.q)
  for i, a in enumerate(ns):
    if i % parts != part:
      continue
    x = w.make(a)
    for b in ns:
      ctx.at("power", a, b)
      if a[2] and b[3] and w.model.fix(b)[0]:
        ctx.raises(lambda: x ** w.make(b), ZeroDivisionError, "negative power of zero", a, b)
      else:
        same(ctx, w, x ** w.make(b), w.model.power(a, b), "power", a, b)
      ctx.state((a, b))
    ctx.eq(w.read(x), a, "operand changed")
    ctx.trace()


def counts(ctx, mod):
  w = World(mod)
  q = w.br.q
  for a in ((3, 0, 0, 1), (q - 1, 1, 0, 0), (2, q - 1, 0, 1)):
    for n in range(q):
      for s in (0, 1):
        b = (n, 0, 0 if n else 1, s)
        ctx.at("power", a, b)
        same(ctx, w, w.make(a) ** w.make(b), w.model.power(a, b), "power", a, b)
        ctx.state((a, b))
    ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = []
  f2, f3, f4 = (ref.irreducibles(2, m) for m in (2, 3, 4))
  out.append(("pairs-4", pairs, dict(mod=f2[0], part=0, parts=1)))
  for f in f3:
    n = "".join(map(str, f))
    out += [("pairs-%s-%d" % (n, i), pairs, dict(mod=f, part=i, parts=4)) for i in range(4)]
  for f in f4 if t else f4[:1]:
    n = "".join(map(str, f))
    if t:
      out += [("pairs-%s-%d" % (n, i), pairs, dict(mod=f, part=i, parts=24)) for i in range(24)]
    out += [("slices-%s-%d" % (n, i), slices, dict(mod=f, part=i, parts=4)) for i in range(4)]
  for m in (5, 8):
    f = ref.irreducibles(2, m)[0]
    out += [("wide-%d-%d" % (m, i), wide, dict(mod=f, part=i, parts=4)) for i in range(4)]
  for f in f2 + f3[:1 if not t else 2]:
    n = "".join(map(str, f))
    k = 1 if len(f) == 3 else 4
    out += [("powers-%s-%d" % (n, i), powers, dict(mod=f, part=i, parts=k)) for i in range(k)]
  for m in (4, 5) if not t else (4, 5, 6, 7):
    out.append(("counts-%d" % m, counts, dict(mod=ref.irreducibles(2, m)[0])))
  return out
