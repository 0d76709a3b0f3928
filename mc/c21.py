import itertools

from mc import env, ref
from mc.c04 import bridge
from mc.c06 import MB, few_terms, everything

ID = "C21"
BOUNDS = {
    "functions": "every function F_q^n -> F_q for (q, n) = (2,1), (2,2), (2,3), (3,1), (4,1), (5,1), and for (3,2) a stride of 13 "
                 "(thorough: every one); families for (4,2), (5,2), (7,1), (8,1), (9,1), (2,4), (3,3)",
    "delta": "every point of those spaces: value at every point, degree per variable below q",
    "embedding": "every polynomial of degree <= 3 over Z/2, Z/3, degree <= 2 over Z/5, GF(4), as variable i of 1..4; 39 polynomials of degree 4 to 40",
    "projection": "every pair of exponents out of eleven up to 40 in two to five variables; every polynomial with <= 2 terms, exponents <= 2, in 2 and 3 variables over Z/2, Z/3, on every variable; every "
                  "multilinear polynomial in 2 variables over Z/5",
}


class Space:

  def __init__(self, field, n):
    self.mb = MB(bridge(field), n)
    self.br, self.rf, self.q, self.n = self.mb.br, self.mb.rf, self.mb.br.q, n
    self.els = [self.br.to(a) for a in range(self.q)]
    self.points = list(itertools.product(range(self.q), repeat=n))


def reduced(ctx, sp, d, *detail):
  ctx.check(all(e < sp.q for k in d for e in k), "degree in a variable not below q", d, *detail)


def function(ctx, sp, values):
  """values: one per point, in the order of sp.points."""
  from starks.poly_utils import construct_multivariate_coefficients
  table = dict(zip(sp.points, values))
  asked = []

  def step_fn(args):
    key = tuple(sp.br.frm(a) for a in args)
    asked.append(key)
    return sp.els[table[key]]

  ctx.at("function", sp.mb.M.__name__, values)
  poly = construct_multivariate_coefficients(sp.br.F, step_fn, sp.n)
  d = sp.mb.frm(poly)
  reduced(ctx, sp, d, values)
  for x in sp.points:
    ctx.eq(ref.meval(sp.rf, d, x), table[x], "value of the polynomial of a function", values, x)
  ctx.eq(sp.br.frm_any(poly([sp.els[a] for a in sp.points[-1]])), values[-1], "evaluation", values)
  ctx.check(set(asked) == set(sp.points), "the function was not asked at every point", values)
  ctx.state((sp.q, sp.n, tuple(values)))
  ctx.outcome(len(d))


def functions(ctx, field, n, stride, part, parts):
  sp = Space(field, n)
  for i, values in enumerate(itertools.product(range(sp.q), repeat=len(sp.points))):
    if i % stride == 0 and i // stride % parts == part:
      function(ctx, sp, values)
  ctx.trace()
  ctx.sample(field, n)


def families(ctx, field, n):
  sp = Space(field, n)
  k = len(sp.points)
  fam = [[0] * k, [1] * k, [sp.q - 1] * k]
  fam += [[int(j == i) for j in range(k)] for i in (0, 1, k // 2, k - 1)]
  fam += [[x[i] for x in sp.points] for i in range(n)]
  fam += [[sp.rf.mul(x[0], x[-1]) for x in sp.points], [(i * i + 3 * i + 1) % sp.q for i in range(k)],
          [(i // 3 + i) % sp.q for i in range(k)]]
  for values in fam:
    function(ctx, sp, values)
  ctx.trace()


def deltas(ctx, field, n):
  from starks.poly_utils import construct_multivariate_dirac_delta
  sp = Space(field, n)
  for y in sp.points:
    ctx.at("delta", field, n, y)
    vals = [sp.els[a] for a in y]
    poly = construct_multivariate_dirac_delta(sp.br.F, vals, n)
    if n == 0:
      continue
    d = sp.mb.frm(poly)
    reduced(ctx, sp, d, y)
    for x in sp.points:
      ctx.eq(ref.meval(sp.rf, d, x), int(x == y), "delta polynomial", y, x)
      ctx.eq(sp.br.frm_any(poly([sp.els[a] for a in x])), int(x == y), "delta polynomial", y, x)
    ctx.eq([sp.br.frm(v) for v in vals], list(y), "point changed")
    ctx.state((field, n, y))
  ctx.trace()


def embedding(ctx, field, top):
  from starks.polynomial import polynomials_over
  from starks.poly_utils import make_multivar
  br = bridge(field)
  P = polynomials_over(br.F)
  for n in range(1, 5):
    mb = MB(br, n)
    for k in range(0, top + 2):
      for cs in itertools.product(range(br.q), repeat=k):
        if cs and not cs[-1]:
          continue
        f = br.poly_to(P, cs)
        for i in range(n):
          ctx.at("embedding", field, n, i, cs)
          g = make_multivar(f, i, br.F, n)
          want = {tuple(e if j == i else 0 for j in range(n)): c for e, c in enumerate(cs) if c}
          ctx.eq(mb.frm(g), want, "embedding", cs, i, n)
          ctx.state((field, n, i, cs))
        ctx.eq(br.poly_from(f), list(cs), "polynomial changed")
  ctx.trace()


def long_embedding(ctx, field):
  """Polynomials of high degree: single terms, ends, and full ones."""
  from starks.polynomial import polynomials_over
  from starks.poly_utils import make_multivar
  br = bridge(field)
  P = polynomials_over(br.F)
  fam = []
  for d in (4, 5, 7, 8, 9, 15, 16, 20, 21, 22, 31, 32, 40):
    fam += [[0] * d + [1], [1] + [0] * (d - 1) + [br.q - 1], [1 + i % (br.q - 1) for i in range(d + 1)]]
  for n in (1, 2, 3):
    mb = MB(br, n)
    for cs in fam:
      f = br.poly_to(P, cs)
      for i in range(n):
        ctx.at("long embedding", field, n, i, cs)
        want = {tuple(e if j == i else 0 for j in range(n)): c for e, c in enumerate(cs) if c}
        ctx.eq(mb.frm(make_multivar(f, i, br.F, n)), want, "embedding", cs, i, n)
        ctx.state((field, n, i, tuple(cs)))
  ctx.trace()


def projection(ctx, field, n, top, terms):
  from starks.poly_utils import project_to_univariate
  mb = MB(bridge(field), n)
  sub = MB(mb.br, n - 1)
  polys = everything(mb.br.q, n, top) if terms is None else few_terms(mb.br.q, n, top, terms)
  for a in polys:
    f = mb.to(a)
    for i in range(n):
      ctx.at("projection", field, n, a, i)
      g = project_to_univariate(f, i, mb.br.F, n)
      want = {}
      for k, c in a.items():
        want.setdefault(k[i], {})[k[:i] + k[i + 1:]] = c
      cs = [sub.frm(c) for c in g.coefficients]
      ctx.check(not cs or cs[-1], "leading coefficient zero", a, i)
      ctx.eq({e: c for e, c in enumerate(cs) if c}, want, "projection", a, i)
      ctx.state((field, n, i, tuple(sorted(a.items()))))
    ctx.eq(mb.frm(f), a, "polynomial changed")
  ctx.trace()


def long_projection(ctx, field, n):
  """Terms with exponents to 40 in every variable."""
  from starks.poly_utils import project_to_univariate
  mb = MB(bridge(field), n)
  sub = MB(mb.br, n - 1)
  q = mb.br.q
  exps = (0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 40)
  keys = list(itertools.product(exps, repeat=2))
  for s, (a, b) in enumerate(keys):
    term = lambda a, b, r: tuple([a, b, (a + b + r) % 23, r, b, a][:n])
    f = {term(a, b, r): 1 + (s + r) % (q - 1) for r in range(1 + s % 4)}
    f[term(*keys[(s * 7 + 5) % len(keys)], 2)] = q - 1
    obj = mb.to(f)
    for i in range(n):
      ctx.at("long projection", field, n, f, i)
      g = project_to_univariate(obj, i, mb.br.F, n)
      want = {}
      for k, c in f.items():
        want.setdefault(k[i], {})[k[:i] + k[i + 1:]] = c
      ctx.eq({e: d for e, d in enumerate(sub.frm(c) for c in g.coefficients) if d}, want, "projection", f, i)
      ctx.state((field, n, i, s))
  ctx.trace()


GF4, GF8, GF9 = (2, [1, 1, 1]), (2, [1, 1, 0, 1]), (3, [1, 0, 1])


def chunks(tier):
  t = tier == "thorough"
  out = []
  for f, n, stride, parts in ((2, 1, 1, 1), (2, 2, 1, 1), (2, 3, 1, 1), (3, 1, 1, 1), (GF4, 1, 1, 1), (5, 1, 1, 4),
                              (3, 2, 1 if t else 13, 16 if t else 8)):
    for i in range(parts):
      out.append(("functions-%s-%d-%d" % (f if f is not GF4 else "GF4", n, i), functions,
                  dict(field=f, n=n, stride=stride, part=i, parts=parts)))
  for name, f, n in (("GF4", GF4, 2), ("5", 5, 2), ("7", 7, 1), ("GF8", GF8, 1), ("GF9", GF9, 1), ("2", 2, 4), ("3", 3, 3)) + (
      (("7", 7, 2), ("GF8", GF8, 2), ("2", 2, 6)) if t else ()):
    out.append(("family-%s-%d" % (name, n), families, dict(field=f, n=n)))
  for name, f, n in (("2", 2, 1), ("2", 2, 2), ("2", 2, 4), ("3", 3, 1), ("3", 3, 2), ("3", 3, 3), ("5", 5, 2), ("GF4", GF4, 1),
                     ("GF4", GF4, 2), ("GF8", GF8, 1), ("GF9", GF9, 1), ("7", 7, 1)):
    out.append(("delta-%s-%d" % (name, n), deltas, dict(field=f, n=n)))
  for name, f, top in (("2", 2, 3), ("3", 3, 3), ("5", 5, 2), ("GF4", GF4, 2)):
    out.append(("embedding-%s" % name, embedding, dict(field=f, top=top + (1 if t else 0))))
  for name, f in (("2", 2), ("3", 3), ("5", 5), ("GF4", GF4), ("GF9", GF9)):
    out.append(("long-embedding-%s" % name, long_embedding, dict(field=f)))
  for name, f in (("2", 2), ("7", 7), ("GF9", GF9)):
    out += [("long-projection-%s-%d" % (name, n), long_projection, dict(field=f, n=n)) for n in (2, 3, 5)]
  for name, f, n, top, terms in (("2", 2, 2, 2, 3), ("2", 2, 3, 2, 2), ("3", 3, 2, 2, 2), ("3", 3, 3, 1, 2), ("5", 5, 2, 1, None),
                                 ("GF4", GF4, 2, 2, 2), ("2", 2, 1, 3, None)):
    out.append(("projection-%s-%d" % (name, n), projection, dict(field=f, n=n, top=top, terms=terms)))
  return out
