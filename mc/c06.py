import itertools

from mc import env, ref
from mc.c04 import bridge

ID = "C06"
BOUNDS = {
    "pairs": "every pair among all polynomials with exponents <= 1 in 2 variables over Z/2 and Z/3, every pair of "
             "polynomials with <= 2 terms in 3 variables (Z/2, Z/3), 2 variables (Z/5, GF(4)), 1 and 4 variables",
    "points": "every point of the field for each of those polynomials, and substitution of polynomials",
    "division": "every product of two of those polynomials divided by either factor, and the division identity "
                "with lexicographic leading terms on every pair",
    "wide": "polynomials of 16 to 64 terms, all that differ from them at one monomial, and four families of their parts",
    "exponents": "exponents to 24 and 300 in up to 12 variables for the monomial operations",
    "variables": "every pair of variables in rings of 1 to 17 variables (thorough: 33) over Z/7 and GF(4)",
    "histories": "all operation sequences of length 3 over shared operand objects",
}


class MB:

  def __init__(self, br, n):
    from starks.multivariate_polynomial import multivariates_over
    self.br, self.rf, self.n = br, br.rf, n
    self.M = multivariates_over(br.F, n)

  def to(self, d):
    return self.M({k: self.br.to(v) for k, v in d.items()})

  def frm(self, f):
    if type(f) is not self.M:
      raise AssertionError("not a polynomial of this ring: %r" % (f,))
    out = {}
    for k, v in f.coefficients.items():
      if not (isinstance(k, tuple) and len(k) == self.n and all(
          isinstance(e, int) and e >= 0 for e in k)):
        raise AssertionError("bad exponent vector %r" % (k,))
      out[k] = self.br.frm_any(v) if self.br.m == 1 else self.br.frm(v)
      if out[k] == 0:
        raise AssertionError("explicit zero coefficient in %r" % (f,))
    return out


def lexdiv(rf, a, b):
  """Quotient and remainder of the lexicographic division algorithm."""
  lead = max(b)
  inv = rf.inv(b[lead])
  q, r, rest = {}, {}, dict(a)
  while rest:
    m = max(rest)
    c = rest[m]
    e = tuple(x - y for x, y in zip(m, lead))
    if min(e, default=0) < 0:
      r[m] = rest.pop(m)
      continue
    t = {e: rf.mul(c, inv)}
    q.update(t)
    rest = ref.madd(rf, rest, ref.mneg(rf, ref.mmul(rf, t, b)))
  return q, r


def pair(ctx, mb, f, g, a, b, divide=True):
  rf = mb.rf
  ctx.at(mb.M.__name__, a, b)
  ctx.eq(mb.frm(f + g), ref.madd(rf, a, b), "sum", a, b)
  ctx.eq(mb.frm(f - g), ref.madd(rf, a, ref.mneg(rf, b)), "difference", a, b)
  prod = ref.mmul(rf, a, b)
  h = f * g
  ctx.eq(mb.frm(h), prod, "product", a, b)
  ctx.check((f == g) is (a == b), "equality", a, b)
  ctx.check((f != g) is (a != b), "inequality", a, b)
  if divide:
    if b:
      ctx.eq(mb.frm(h / g), a, "exact quotient", prod, b)
      q, r = lexdiv(rf, a, b)
      if not r:
        ctx.eq(mb.frm(f / g), q, "exact quotient", a, b)
      got = mb.frm(f / g)
      rest = ref.madd(rf, a, ref.mneg(rf, ref.mmul(rf, got, b)))
      lead = max(b)
      ctx.check(not any(all(x >= y for x, y in zip(m, lead)) for m in rest),
                "remainder still divisible by the leading monomial", a, b, got)
    else:
      ctx.raises(lambda: f / g, Exception, "division by the zero polynomial", a)
  ctx.eq(mb.frm(f), a, "left operand changed", a, b)
  ctx.eq(mb.frm(g), b, "right operand changed", a, b)
  ctx.state((mb.M.__name__, tuple(sorted(a.items())), tuple(sorted(b.items()))))


def one(ctx, mb, f, a, points, exps=3):
  rf, n = mb.rf, mb.n
  ctx.at(mb.M.__name__, a)
  ctx.eq(f.degree(), max([sum(k) for k in a], default=0), "total degree", a)
  ctx.check(f.is_zero() is (not a), "is_zero", a)
  ctx.eq(mb.frm(-f), ref.mneg(rf, a), "negation", a)
  for k in list(a) + [(7,) * n]:
    ctx.eq(mb.br.frm_any(f[k]), a.get(k, 0), "coefficient lookup", a, k)
  ctx.eq([(k, mb.br.frm_any(c)) for k, c in f], sorted(a.items()), "iteration order", a)
  for xs in points:
    want = ref.meval(rf, a, xs)
    ctx.at(mb.M.__name__, a, "at", xs)
    args = [mb.br.to(x) for x in xs]
    ctx.eq(mb.br.frm_any(f(args)), want, "value", a, xs)
    ctx.eq(mb.br.frm_any(f(tuple(args))), want, "value at a tuple", a, xs)
  for e in range(exps + 1):
    ctx.eq(mb.frm(f**e), ref.mpow(rf, a, e, n), "power", a, e)
  for e in (-1, -3, 0.5, None):
    ctx.at("power", a, e)
    ctx.raises(lambda: f**e, Exception, "a negative or fractional power", a, e)
  ctx.eq(mb.frm(mb.M(f)), a, "copy", a)
  ctx.eq(mb.frm(f), a, "polynomial changed", a)


def everything(q, n, top):
  """All polynomials with every exponent <= top."""
  mons = list(itertools.product(range(top + 1), repeat=n))
  for cs in itertools.product(range(q), repeat=len(mons)):
    yield {m: c for m, c in zip(mons, cs) if c}


def few_terms(q, n, top, terms, coeffs=None):
  mons = list(itertools.product(range(top + 1), repeat=n))
  coeffs = coeffs or list(range(1, q))
  yield {}
  for k in range(1, terms + 1):
    for ms in itertools.combinations(mons, k):
      for cs in itertools.product(coeffs, repeat=k):
        yield dict(zip(ms, cs))


def family(field, n, top, terms, coeffs=None):
  mb = MB(bridge(field), n)
  polys = list(everything(mb.br.q, n, top) if terms is None else few_terms(
      mb.br.q, n, top, terms, coeffs))
  return mb, polys


def pairs(ctx, field, n, top, terms, coeffs, part, parts, stride):
  mb, polys = family(field, n, top, terms, coeffs)
  objs = [mb.to(a) for a in polys]
  pts = list(itertools.product(range(mb.br.q), repeat=n))
  for i in range(part, len(polys), parts):
    one(ctx, mb, objs[i], polys[i], pts)
    for j in range(i % stride, len(polys), stride):
      pair(ctx, mb, objs[i], objs[j], polys[i], polys[j])
    ctx.trace()
  ctx.sample(mb.M.__name__, len(polys), polys[-1])


def integers(ctx, p, n):
  """Coefficients given as plain integers, unreduced, and constants."""
  mb = MB(env.prime_field(p), n)
  zero, k1 = (0,) * n, (1,) + (0,) * (n - 1)
  for a in range(-p, 2 * p + 1):
    for b in range(-p, 2 * p + 1):
      ctx.at("integer coefficients", a, b)
      want = ref.mclean({zero: a % p, k1: b % p})
      f = mb.M({zero: a, k1: b})
      ctx.eq(mb.frm(f), want, "from integers", a, b)
      ctx.eq(mb.frm(mb.M.factory({zero: a, k1: b})), want, "by factory", a, b)
      ctx.check(f == mb.to(want), "equal polynomials differ", a, b)
      ctx.eq(mb.frm(f + b), ref.madd(mb.rf, want, ref.mclean({zero: b % p})), "plus integer", a, b)
      ctx.eq(mb.frm(b * f), ref.mmul(mb.rf, want, ref.mclean({zero: b % p})), "integer times", a, b)
      ctx.eq(mb.frm(b - f), ref.madd(mb.rf, ref.mneg(mb.rf, want), ref.mclean({zero: b % p})),
             "integer minus", a, b)
    ctx.eq(mb.frm(mb.M(a)), ref.mclean({zero: a % p}), "constant", a)
    ctx.eq(mb.frm(mb.M(mb.br.F(a))), ref.mclean({zero: a % p}), "constant", a)
    ctx.trace()


def exponents(ctx, field, n):
  """Multi-digit exponents and many variables, on monomials and binomials."""
  mb = MB(bridge(field), n)
  rf = mb.rf
  es = [0, 1, 2, 9, 10, 11, 12, 24, 100, 300]
  mons = []
  for i in range(n):
    for e in es:
      k = [0] * n
      k[i] = e
      k[(i + 1) % n] += 1
      mons.append(tuple(k))
  for k in mons:
    for l in mons[::max(1, len(mons) // 25)]:
      c = (len(k) + sum(k)) % (mb.br.q - 1) + 1
      for a, b in (({k: c}, {l: 1}), (ref.madd(rf, {k: c}, {(0,) * n: 1}), {l: 1, (0,) * n: 1} if any(l) else {l: 1})):
        pair(ctx, mb, mb.to(a), mb.to(b), a, b, divide=sum(k) + sum(l) < 60)
    one(ctx, mb, mb.to({k: 1}), {k: 1}, [tuple((j + 1) % mb.br.q for j in range(n))], 2)
    ctx.trace()


def variables(ctx, field, counts):
  """Every pair of variables, in rings of many different widths."""
  br = bridge(field)
  for n in counts:
    mb = MB(br, n)
    rf, q = mb.rf, br.q

    def mono(*which):
      k = [0] * n
      for i, e in which:
        k[i] += e
      return tuple(k)

    pt = [(3 * j + 2) % q for j in range(n)]
    for i in range(n):
      a = ref.mclean({mono((i, 2)): 1, mono(): q - 1})
      f = mb.to(a)
      one(ctx, mb, f, a, [pt], 2)
      for j in range(n):
        b = ref.madd(rf, {mono((j, 1)): 1}, {mono((i, 1), ((i + j) % n, 3)): 1})
        pair(ctx, mb, f, mb.to(b), a, b, divide=(i + j) % 3 == 0)
    ctx.trace()


def compose(ctx, field, n, terms):
  """Evaluation at polynomials is substitution."""
  mb, polys = family(field, n, 2, terms)
  rf = mb.rf
  args = list(few_terms(mb.br.q, n, 1, 2, [1]))
  tuples = list(itertools.product(args, repeat=n))
  stride = max(1, len(tuples) // 24)
  objs = {id(b): mb.to(b) for b in args}
  for i, a in enumerate(polys):
    f = mb.to(a)
    for xs in tuples[i % stride::stride]:
      ctx.at("substitute", a, xs)
      want = {}
      for k, v in a.items():
        t = {(0,) * n: v}
        for x, e in zip(xs, k):
          t = ref.mmul(rf, t, ref.mpow(rf, x, e, n))
        want = ref.madd(rf, want, t)
      got = f([objs[id(x)] for x in xs])
      if type(got) is not mb.M:
        got = mb.M(got)
      ctx.eq(mb.frm(got), want, "substitution", a, xs)
      ctx.state((i, str(xs)))
    ctx.trace()


def histories(ctx, field, depth):
  mb = MB(bridge(field), 2)
  rf, q = mb.rf, mb.br.q
  vals = [{(0, 0): 1}, {(1, 0): 1, (0, 1): q - 1}, {(0, 1): 1, (0, 0): 1}]
  ops = [mb.to(a) for a in vals]

  def go(f, a, d):
    ctx.state((tuple(sorted(a.items())), d))
    if d == depth:
      ctx.trace()
      return
    for g, b in zip(ops, vals):
      m = ref.mmul(rf, a, b)
      for name, h, c in (("+", f + g, ref.madd(rf, a, b)), ("-", f - g, ref.madd(rf, a, ref.mneg(rf, b))),
                         ("*", f * g, m), ("*/", (f * g) / g, a), ("-x", -f, ref.mneg(rf, a))):
        ctx.eq(mb.frm(h), c, "history step " + name, a, b)
        ctx.eq(mb.frm(f), a, "operand changed by " + name, a, b)
        ctx.eq(mb.frm(g), b, "shared operand changed by " + name, a, b)
        go(h, c, d + 1)

  for f, a in zip(ops, vals):
    go(f, a, 0)


def wide(ctx, field, n, top):
  """Polynomials with many terms: every one that differs from a full one at a single monomial."""
  mb = MB(bridge(field), n)
  rf, q = mb.rf, mb.br.q
  mons = list(itertools.product(range(top + 1), repeat=n))
  full = {k: (3 * i + sum(k)) % (q - 1) + 1 for i, k in enumerate(mons)}
  f = mb.to(full)
  pts = [tuple((i * j + i + 1) % q for j in range(n)) for i in range(5)] + [(0,) * n, (1,) * n]
  one(ctx, mb, f, full, pts, 2)
  # parts of it, where the leading monomial is not one of highest degree
  for i, k in enumerate(mons):
    for part in ({m: c for m, c in full.items() if m != k and sum(m) + 2 * m[0] <= sum(k) + 2 * k[0]},
                 {m: c for m, c in full.items() if m <= k and sum(m) <= sum(k)},
                 {(top + 1,) + (0,) * (n - 1): 1, **{m: c for m, c in full.items() if m >= k}},
                 {m: c for m, c in full.items() if sum(k) <= sum(m[::2]) + 3 * sum(m[1::2])}):
      one(ctx, mb, mb.to(part), part, pts[i % 5:i % 5 + 1], 1)
  others = []
  for k in mons:
    for c in sorted({0, full[k] % (q - 1) + 1, rf.add(full[k], 1)} - {full[k]}):
      others.append(ref.mclean({**full, k: c}))
    moved = dict(full)
    c = moved.pop(k)
    others += [{**moved, k[:-1] + (k[-1] + top + 1,): c}, {**moved, (k[0] + top + 1,) + k[1:]: c}]
  small = [{(1,) * n: 1}, {(0,) * n: 1, (1,) + (0,) * (n - 1): q - 1}]
  for i, b in enumerate(others):
    g = mb.to(b)
    ctx.at(mb.M.__name__, "wide", i)
    ctx.check((f == g) is False and (g == f) is False and (f != g) is True, "different polynomials are equal", full, b)
    ctx.check((g == mb.to(dict(reversed(b.items())))) is True, "equal polynomials differ", b)
    ctx.eq(mb.frm(f - g), ref.madd(rf, full, ref.mneg(rf, b)), "difference", full, b)
    ctx.eq(mb.frm(f + g), ref.madd(rf, full, b), "sum", full, b)
    for s in small:
      prod = ref.mmul(rf, b, s)
      h = g * mb.to(s)
      ctx.eq(mb.frm(h), prod, "product", b, s)
      if i % 4 == 0:
        ctx.eq(mb.frm(h / mb.to(s)), b, "exact quotient", prod, s)
    for xs in pts:
      ctx.eq(mb.br.frm_any(g([mb.br.to(x) for x in xs])), ref.meval(rf, b, xs), "value", b, xs)
    ctx.state((n, top, i))
    ctx.trace()
  pair(ctx, mb, f, mb.to(others[1]), full, others[1])


GF4, GF9 = (2, [1, 1, 1]), (3, [1, 0, 1])


def chunks(tier):
  t = tier == "thorough"
  out = []
  for name, field, n, top, terms, coeffs, parts, stride in (
      ("Z2-2", 2, 2, 1, None, None, 1, 1), ("Z3-2", 3, 2, 1, None, None, 8, 1 if t else 2),
      ("Z2-3", 2, 3, 1, None if t else 2, None, 8 if t else 2, 1),
      ("Z3-3", 3, 3, 1, 2, None, 4, 1 if t else 4), ("Z5-2", 5, 2, 2, 2, [1, 3], 4, 1 if t else 3),
      ("GF4-2", GF4, 2, 1, 2, [1, 2, 3], 4, 1), ("GF9-2", GF9, 2, 1, 2, [1, 5], 2, 1 if t else 2),
      ("Z5-1", 5, 1, 3, 2, None, 2, 1), ("Z2-4", 2, 4, 1, 2, None, 4, 1 if t else 3)):
    for k in range(parts):
      out.append(("pairs-%s-%d" % (name, k), pairs, dict(
          field=field, n=n, top=top, terms=terms, coeffs=coeffs, part=k, parts=parts, stride=stride)))
  out += [("integers-%d-%d" % (p, n), integers, dict(p=p, n=n)) for p, n in ((2, 2), (3, 1), (7, 2), (5, 3))]
  big = 2**256 - 2**32 * 351 + 1
  out += [("exponents-%s" % nm, exponents, dict(field=f, n=n))
          for nm, f, n in (("Z7-2", 7, 2), ("Z7-12", 7, 12), ("GF4-3", GF4, 3), ("big-2", big, 2))]
  top = 34 if t else 18
  out += [("variables-%s-%d" % (nm, k), variables, dict(field=f, counts=list(range(k, top, 5))))
          for nm, f in (("Z7", 7), ("GF4", GF4)) for k in range(1, 6)]
  out += [("wide-%s-%d" % (nm, top), wide, dict(field=f, n=n, top=top))
          for nm, f, n, top in (("Z2-2", 2, 2, 3), ("Z7-2", 7, 2, 5), ("Z5-3", 5, 3, 2), ("GF4-2", GF4, 2, 3), ("Z3-4", 3, 4, 1),
                                ("Z5-1", 5, 1, 40)) + ((("Z3-3", 3, 3, 3), ("Z7-2", 7, 2, 9)) if t else ())]
  out += [("compose-Z2-2", compose, dict(field=2, n=2, terms=2)), ("compose-Z3-2", compose, dict(field=3, n=2, terms=2)),
          ("compose-GF4-2", compose, dict(field=GF4, n=2, terms=1))]
  out += [("histories-" + nm, histories, dict(field=f, depth=4 if t else 3)) for nm, f in (("Z2", 2), ("Z5", 5), ("GF4", GF4))]
  return out
