import fractions
import itertools

from mc import env, ref

ID = "C04"
BOUNDS = {
    "pairs": "every pair of polynomials of degree <= 3 over Z/2, <= 2 over Z/3, <= 1 over Z/5 and GF(4), "
             "<= 1 over GF(9), all operations",
    "eval": "every polynomial of those families at every point of the field, and composed with polynomials",
    "degrees": "all pairs of degrees 0..24 (thorough 0..70) of dense, sparse and cyclic polynomials over "
               "Z/2, Z/7, Z/101 and a 256 bit prime, with division identities",
    "long": "families of degree 31..300 around powers of two: every length of cancellation in steps, one differing coefficient, products and divisions",
    "substitution": "polynomials of degree 4..25, 31..33, 40, 41, 63..65 over fields of prime order at c X, X + c, c X + d, X^2",
    "histories": "all operation sequences of length 3 over shared operand objects",
    "integers": "coefficient lists of plain integers, unreduced and negative, with trailing zeros",
}
ASSUMPTIONS = ["Degrees above 300 (600 in the thorough tier) are not enumerated."]


class PB:
  """Polynomials of the code over a bridged field."""

  def __init__(self, br):
    from starks.polynomial import polynomials_over
    self.br, self.rf = br, br.rf
    self.P = polynomials_over(br.F)

  def to(self, c):
    return self.P([self.br.to(a) for a in c])

  def frm(self, f):
    if type(f) is not self.P:
      raise AssertionError("not a polynomial of this ring: %r" % (f,))
    return self.br.poly_from(f)


def pair(ctx, pb, f, g, a, b, small=True):
  rf = pb.rf
  ctx.at("polynomials over", pb.br.F.__name__, a, b)
  ctx.eq(pb.frm(f + g), rf.padd(a, b), "sum", a, b)
  ctx.eq(pb.frm(f - g), rf.psub(a, b), "difference", a, b)
  ctx.eq(pb.frm(f * g), rf.pmul(a, b), "product", a, b)
  ctx.check((f == g) is (a == b), "equality", a, b)
  ctx.check((f != g) is (a != b), "inequality", a, b)
  if b:
    q, r = rf.pdivmod(a, b)
    got = divmod(f, g)
    ctx.eq(pb.frm(got[0]), q, "quotient of divmod", a, b)
    ctx.eq(pb.frm(got[1]), r, "remainder of divmod", a, b)
    ctx.eq(pb.frm(f / g), q, "quotient", a, b)
    ctx.eq(pb.frm(f % g), r, "remainder", a, b)
  else:
    ctx.raises(lambda: f / g, Exception, "division by the zero polynomial", a)
    ctx.raises(lambda: f % g, Exception, "remainder by the zero polynomial", a)
  ctx.eq(pb.frm(f), a, "left operand changed", a, b)
  ctx.eq(pb.frm(g), b, "right operand changed", a, b)
  ctx.state((pb.br.F.__name__, tuple(a), tuple(b)))


def one(ctx, pb, f, a, points, exps):
  rf = pb.rf
  ctx.eq(f.degree(), len(a) - 1, "degree", a)
  ctx.check(f.is_zero() is (not a), "is_zero", a)
  ctx.eq(pb.frm(-f), rf.pneg(a), "negation", a)
  if a:
    ctx.eq(pb.br.frm(f.leading_coefficient()), a[-1], "leading coefficient", a)
  for x in points:
    ctx.at("evaluate", a, x)
    ctx.eq(pb.br.frm_any(f(pb.br.to(x))), rf.peval(a, x), "value", a, x)
  w = [1]
  for n in range(exps + 1):
    ctx.at("power", a, n)
    ctx.eq(pb.frm(f**n), w, "power", a, n)
    w = rf.pmul(w, a)
  for n in (-1, -2, -exps - 1, 0.5, 2.0, "2", None, f):
    ctx.at("power", a, n)
    ctx.raises(lambda: f**n, Exception, "a negative or fractional power of a polynomial", a, n)
  ctx.eq(pb.frm(f), a, "polynomial changed", a)


def small(ctx, field, deg, part, parts):
  pb = PB(bridge(field))
  q = pb.br.q
  polys = [ref.trim(c) for c in itertools.product(range(q), repeat=deg + 1)]
  objs = [pb.to(a) for a in polys]
  for i in range(part, len(polys), parts):
    one(ctx, pb, objs[i], polys[i], range(q), 4)
    for g, b in zip(objs, polys):
      pair(ctx, pb, objs[i], g, polys[i], b)
    ctx.trace()
  ctx.sample(pb.br.F.__name__, polys[-1])


def bridge(field):
  return env.prime_field(field) if isinstance(field, int) else env.ext_field(*field)


def family(pb, n):
  """Polynomials of degree exactly n: dense, sparse, all ones, with a gap."""
  q = pb.br.q
  out = [[(i * i * 7 + 3 * i + 1) % q for i in range(n)] + [1],
         [0] * n + [q - 1],
         [1] * (n + 1),
         [1] + [0] * (n - 1) + [1] if n else [q - 1]]
  if n >= 2:
    out.append([0, q - 1] + [0] * (n - 2) + [2 % q or 1])
  return [ref.trim(a) for a in out]


def degrees(ctx, field, top, part, parts):
  pb = PB(bridge(field))
  fam = [(a, pb.to(a)) for n in range(top + 1) for a in family(pb, n)]
  k = 0
  for a, f in fam:
    for b, g in fam[len(a) % 2::2] if top > 16 else fam:
      k += 1
      if k % parts == part:
        pair(ctx, pb, f, g, a, b)
    ctx.trace()
  if part == 0:
    for a, f in fam:
      one(ctx, pb, f, a, [0, 1, 2 % pb.br.q, pb.br.q - 1], 2)


def long(ctx, field, n):
  """Long polynomials: cancellation of any length, single differing coefficients, sizes around powers of two."""
  pb = PB(bridge(field))
  rf, q = pb.rf, pb.br.q
  for a in family(pb, n):
    f = pb.to(a)
    for i in range(0, n + 1, max(1, n // 40)):
      b = list(a)
      b[i] = rf.add(b[i], 1)
      b = ref.trim(b)
      g = pb.to(b)
      ctx.at("long", field, n, i)
      ctx.check((f == g) is False and (f != g) is True, "polynomials that differ in one coefficient", n, i)
      ctx.eq(pb.frm(f - g), rf.psub(a, b), "difference that cancels", n, i)
      c = a[:i + 1] + [rf.neg(v) for v in a[i + 1:]]
      ctx.eq(pb.frm(pb.to(c) + f), rf.padd(c, a), "sum that cancels", n, i)
      ctx.eq(pb.frm(pb.P([pb.br.to(v) for v in a[:i + 1]] + [pb.br.to(0)] * (n - i))), ref.trim(a[:i + 1]), "trailing zeros given", n, i)
      ctx.state((field, n, i, a[0]))
    h = family(pb, 3)[0]
    for b in (h, a, [1] + [0] * (n // 2) + [1], a[:n // 2] + [1]):
      ctx.eq(pb.frm(f * pb.to(b)), rf.pmul(a, b), "long product", n, len(b))
      ctx.eq(pb.frm(pb.to(b) * f), rf.pmul(a, b), "long product", n, len(b))
      got = divmod(f, pb.to(b))
      ctx.eq((pb.frm(got[0]), pb.frm(got[1])), rf.pdivmod(a, b), "long division", n, len(b))
    for x in (0, 1, q - 1, 2 % q):
      ctx.eq(pb.br.frm_any(f(pb.br.to(x))), rf.peval(a, x), "value", n, x)
  ctx.trace()


def histories(ctx, field, depth):
  pb = PB(bridge(field))
  q = pb.br.q
  ops = [pb.to(a) for a in ([1], [0, 1], [1, q - 1, 1])]
  vals = [pb.frm(f) for f in ops]
  rf = pb.rf

  def go(f, a, d):
    ctx.state((tuple(a), d))
    if d == depth:
      ctx.trace()
      return
    for g, b in zip(ops, vals):
      for name, h, c in (("+", f + g, rf.padd(a, b)), ("-", f - g, rf.psub(a, b)),
                         ("r-", g - f, rf.psub(b, a)), ("*", f * g, rf.pmul(a, b)),
                         ("%", f % g, rf.pdivmod(a, b)[1]), ("/", f / g, rf.pdivmod(a, b)[0])):
        ctx.eq(pb.frm(h), c, "history step " + name, a, b)
        ctx.eq(pb.frm(f), a, "operand changed by " + name, a, b)
        ctx.eq(pb.frm(g), b, "shared operand changed by " + name, a, b)
        go(h, c, d + 1)

  for f, a in zip(ops, vals):
    go(f, a, 0)


def construct(ctx, p):
  pb = PB(env.prime_field(p))
  rng = range(-p, 2 * p)
  for c in itertools.product(rng, repeat=2):
    for tail in ([], [0], [0, 0, p], [1]):
      ctx.at("construct", c, tail)
      want = ref.trim([x % p for x in list(c) + tail])
      f = pb.P(list(c) + tail)
      ctx.eq(pb.frm(f), want, "from integers", c, tail)
      ctx.eq(pb.frm(pb.P(f)), want, "from a polynomial", c, tail)
      ctx.eq(pb.frm(pb.P.factory(list(c) + tail)), want, "by factory", c, tail)
      ctx.eq(pb.frm(pb.P(iter(list(c) + tail))), want, "from an iterator", c, tail)
      ctx.trace()
  for n in rng:
    ctx.eq(pb.frm(pb.P(n)), ref.trim([n % p]), "constant", n)
    ctx.eq(pb.frm(pb.P(pb.br.F(n))), ref.trim([n % p]), "constant", n)


def compose(ctx, field, deg):
  """Evaluation at a polynomial is substitution."""
  pb = PB(bridge(field))
  q, rf = pb.br.q, pb.rf
  polys = [ref.trim(c) for c in itertools.product(range(q), repeat=deg + 1)]
  for a in polys:
    f = pb.to(a)
    for b in polys:
      if not a:
        continue
      ctx.at("compose", a, b)
      w = []
      for c in reversed(a):
        w = rf.padd(rf.pmul(w, b), [c] if c else [])
      got = f(pb.to(b))
      if type(got) is not pb.P:
        got = pb.P([got])
      ctx.eq(pb.frm(got), w, "substitution", a, b)
    ctx.trace()


def compose_long(ctx, field, sizes):
  """Long polynomials at c*X, X + c, c*X + d, X^2 and constants."""
  pb = PB(bridge(field))
  q, rf = pb.br.q, pb.rf
  inner = [[0, c] for c in sorted({1, 2 % q, 3 % q, q - 1, q // 2}) if c] + [[1, 1], [q - 1, 1], [2 % q, q - 1], [0, 0, 1], [1, 0, q - 1], [q - 1]]
  for n in sizes:
    for a in family(pb, n):
      f = pb.to(a)
      for b in map(ref.trim, inner):
        if n > 40 and len(b) > 2:
          continue
        ctx.at("compose", field, n, b)
        w = []
        for c in reversed(a):
          w = rf.padd(rf.pmul(w, b), [c] if c else [])
        got = f(pb.to(b))
        if type(got) is not pb.P:
          got = pb.P([got])
        ctx.eq(pb.frm(got), w, "substitution", a, b)
        ctx.state((field, n, tuple(a), tuple(b)))
    ctx.trace()


def rational(ctx):
  """The default ring of fractions."""
  from starks.polynomial import polynomials_over
  Fr = fractions.Fraction
  P = polynomials_over()
  vals = [Fr(0), Fr(1), Fr(-1), Fr(2, 3), Fr(-7, 2)]
  polys = [ref.trim(c) for c in itertools.product(vals, repeat=2)] + [
      [Fr(1, 7), Fr(0), Fr(3)], [Fr(0), Fr(0), Fr(1), Fr(5, 2)]]

  def mul(a, b):
    r = [Fr(0)] * max(0, len(a) + len(b) - 1)
    for i, x in enumerate(a):
      for j, y in enumerate(b):
        r[i + j] += x * y
    return ref.trim(r)

  def add(a, b):
    n = max(len(a), len(b))
    return ref.trim([x + y for x, y in zip(a + [0] * (n - len(a)), b + [0] * (n - len(b)))])

  for a in polys:
    for b in polys:
      ctx.at("over Q", a, b)
      f, g = P(list(a)), P(list(b))
      ctx.eq(list((f + g).coefficients), add(a, b), "sum over Q", a, b)
      ctx.eq(list((f * g).coefficients), mul(a, b), "product over Q", a, b)
      if b:
        q, r = divmod(f, g)
        q, r = list(q.coefficients), list(r.coefficients)
        ctx.eq(add(mul(q, b), r), a, "division identity over Q", a, b)
        ctx.check(len(r) < len(b), "remainder too long over Q", a, b)
    ctx.trace()


GF4, GF9, GF8 = (2, [1, 1, 1]), (3, [1, 0, 1]), (2, [1, 1, 0, 1])


def chunks(tier):
  t = tier == "thorough"
  out = []
  for name, field, deg, parts in (("Z2", 2, 5 if t else 4, 4), ("Z3", 3, 3 if t else 2, 2),
                                  ("Z5", 5, 2 if t else 1, 4), ("Z7", 7, 1, 2), ("GF4", GF4, 2, 4),
                                  ("GF9", GF9, 1, 8)):
    for k in range(parts):
      out.append(("small-%s-%d" % (name, k), small, dict(field=field, deg=deg, part=k, parts=parts)))
  big = 2**256 - 2**32 * 351 + 1
  for name, field, top in (("Z2", 2, 24), ("Z7", 7, 24), ("Z101", 101, 20), ("big", big, 16), ("GF8", GF8, 10)):
    parts = 4
    for k in range(parts):
      out.append(("degrees-%s-%d" % (name, k), degrees,
                  dict(field=field, top=70 if t and field != GF8 else top, part=k, parts=parts)))
  for n in (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300) + ((511, 512, 600) if t else ()):
    out.append(("long-Z7-%d" % n, long, dict(field=7, n=n)))
    if n < 130:
      out += [("long-Z2-%d" % n, long, dict(field=2, n=n)), ("long-big-%d" % n, long, dict(field=big, n=n))]
    if n < 34 or t and n < 70:
      out.append(("long-GF8-%d" % n, long, dict(field=GF8, n=n)))
  for name, field in (("Z2", 2), ("Z5", 5), ("GF4", GF4)):
    out.append(("histories-" + name, histories, dict(field=field, depth=4 if t else 3)))
  out += [("construct-%d" % p, construct, dict(p=p)) for p in (2, 3, 7)]
  out += [("compose-Z3", compose, dict(field=3, deg=2)), ("compose-Z7", compose, dict(field=7, deg=1)),
          ("compose-Z2", compose, dict(field=2, deg=3))]
  for name, field in (("Z2", 2), ("Z7", 7), ("Z101", 101), ("big", big)):
    for lo, hi in ((4, 12), (12, 18), (18, 26), (31, 34), (40, 42), (63, 66)):
      out.append(("compose-long-%s-%d" % (name, lo), compose_long, dict(field=field, sizes=range(lo, hi))))
  return out + [("rational", rational, {})]
