import itertools
import math

from mc import env, ref
from mc.c04 import PB, bridge

ID = "C05"
BOUNDS = {
    "integers": "every pair in -60..120 squared (thorough -150..400), both orders; consecutive Fibonacci "
                "numbers to 2^300; boundary alphabet of large integers with planted common factors",
    "polynomials": "every pair of polynomials of degree <= 4 over Z/2, <= 2 over Z/3, <= 1 over Z/5, <= 1 over "
                   "GF(4); products with planted common factors to degree 24 over Z/7 and Z/101",
    "powers": "every modular power with exponents 0..16 of polynomials of degree <= 3 modulo every one of degree <= 4 over Z/2, "
              "and of degree <= 2 modulo degree <= 2 over Z/3, Z/5 (degree <= 1) and GF(4) (degree <= 1); exponents to 200 bits modulo degree <= 20 over Z/2, Z/7, Z/101",
    "modular": "every pair of elements of Z/p as integers, p=2,3,5,7,11",
}


def check_ints(ctx, a, b):
  from starks import euclidean as eu
  ctx.at("gcd", a, b)
  want = math.gcd(a, b)
  g = eu.gcd(a, b)
  ctx.eq(abs(g), want, "gcd", a, b)
  x, y, d = eu.extended_euclidean_algorithm(a, b)
  ctx.eq(abs(d), want, "extended gcd", a, b)
  ctx.eq(a * x + b * y, d, "Bezout identity", a, b, (x, y, d))
  if a >= 0 and b >= 0:
    ctx.eq(g, want, "sign of gcd", a, b)
    ctx.eq(d, want, "sign of extended gcd", a, b)
  ctx.state((a, b))
  ctx.outcome(want)


def ints(ctx, lo, hi, part, parts):
  for a in range(lo + part, hi, parts):
    for b in range(lo, hi):
      check_ints(ctx, a, b)
    ctx.trace()
  ctx.sample((lo, hi))


def large(ctx):
  f = [1, 1]
  while f[-1] < 2**300:
    f.append(f[-1] + f[-2])
  for i in range(len(f) - 2):
    for a, b in ((f[i], f[i + 1]), (f[i + 1], f[i]), (f[i] * 6, f[i + 2] * 4)):
      check_ints(ctx, a, b)
  alpha = [0, 1, 2, 3, 6, 2**31, 2**32 - 1, 2**53 + 1, 2**61 - 1, 2**64, 2**127 - 1, 2**128 * 15,
           2**255 - 19, 2**256 - 2**32 * 351 + 1, 3**100, 6**80]
  for a in alpha:
    for b in alpha:
      for k in (1, 6, 2**40):
        check_ints(ctx, a * k, b * k)
        check_ints(ctx, a * k, b)
    ctx.trace()


def check_polys(ctx, pb, a, b, f=None, g=None):
  from starks import euclidean as eu
  rf = pb.rf
  f, g = f or pb.to(a), g or pb.to(b)
  ctx.at("polynomial gcd over", pb.br.F.__name__, a, b)

  def monic(c):
    return [rf.div(x, c[-1]) for x in c]

  want, r = ref.trim(a), ref.trim(b)
  while r:
    want, r = r, rf.pdivmod(want, r)[1]
  want = monic(want)
  d = eu.gcd(f, g)
  ctx.eq(monic(pb.frm(d)), want, "gcd up to a unit", a, b)
  x, y, d = eu.extended_euclidean_algorithm(f, g)
  lift = lambda v: v if type(v) is pb.P else pb.P([v])
  ctx.eq(monic(pb.frm(lift(d))), want, "extended gcd up to a unit", a, b)
  lhs = rf.padd(rf.pmul(a, pb.frm(lift(x))), rf.pmul(b, pb.frm(lift(y))))
  ctx.eq(lhs, pb.frm(lift(d)), "Bezout identity", a, b)
  ctx.eq(pb.frm(f), a, "operand changed", a, b)
  ctx.eq(pb.frm(g), b, "operand changed", a, b)
  ctx.state((tuple(a), tuple(b)))
  ctx.outcome(len(want))


def polys(ctx, field, deg, part, parts):
  pb = PB(bridge(field))
  all_ = [ref.trim(c) for c in itertools.product(range(pb.br.q), repeat=deg + 1)]
  objs = [pb.to(a) for a in all_]
  for i in range(part, len(all_), parts):
    for g, b in zip(objs, all_):
      check_polys(ctx, pb, all_[i], b, objs[i], g)
    ctx.trace()
  ctx.sample(pb.br.F.__name__, deg)


def planted(ctx, p, top):
  pb = PB(env.prime_field(p))
  rf = pb.rf
  base = [[1], [0, 1], [3, 1], [1, 0, 1], [2, 1, 0, 1], [1] * 5, [0] * 7 + [2], [5] + [0] * (top // 3 - 1) + [1],
          list(range(1, top // 2))]
  base = [ref.trim([x % p for x in a]) for a in base]
  for a in base:
    for b in base:
      for c in base:
        check_polys(ctx, pb, rf.pmul(a, c), rf.pmul(b, c))
    ctx.trace()


def modular(ctx, p):
  from starks import euclidean as eu
  br = env.prime_field(p)
  for a in range(p):
    for b in range(p):
      ctx.at("gcd of residues", a, b, p)
      ctx.eq(br.frm(eu.gcd(br.to(a), br.to(b))), math.gcd(a, b), "gcd of residues", a, b, p)
      ctx.state((a, b))
    ctx.trace()


def powers(ctx, field, deg, mdeg, top, part=0, parts=1):
  """Every modular power of small polynomials: the remainder of the power, whatever the exponent."""
  pb = PB(bridge(field))
  rf = pb.rf
  all_ = [ref.trim(c) for c in itertools.product(range(pb.br.q), repeat=max(deg, mdeg) + 1)]
  for m in all_[part::parts]:
    if len(m) > mdeg + 1:
      continue
    g = pb.to(m)
    for a in all_:
      if len(a) > deg + 1:
        continue
      f = pb.to(a)
      if not m:
        for n in (0, 1, 2, 3):
          ctx.at("power modulo the zero polynomial", a, n)
          ctx.raises(lambda: f.powmod(n, g), Exception, "a power modulo the zero polynomial", a, n)
        continue
      want = rf.pdivmod([1], m)[1]
      base = rf.pdivmod(a, m)[1]
      for n in range(top + 1):
        ctx.at("modular power over", pb.br.F.__name__, a, n, m)
        ctx.eq(pb.frm(f.powmod(n, g)), want, "modular power", a, n, m)
        want = rf.pdivmod(rf.pmul(want, base), m)[1]
      for n in (-1, -2, -top, 0.5, None):
        ctx.at("modular power over", pb.br.F.__name__, a, n, m)
        ctx.raises(lambda: f.powmod(n, g), Exception, "a negative or fractional modular power", a, n, m)
      ctx.eq(pb.frm(f), a, "operand changed", a, m)
      ctx.state((tuple(a), tuple(m)))
    ctx.eq(pb.frm(g), m, "modulus changed", m)
    ctx.trace()
  ctx.sample(pb.br.F.__name__, deg, mdeg, top)


def high_powers(ctx, p):
  """Frobenius-size exponents modulo polynomials of degree to 20."""
  pb = PB(env.prime_field(p))
  for m in ([1, 1], [2, 0, 1], [1, 2, 3, 1], [3] + [0] * 7 + [1], [1, 1] + [0] * 18 + [5]):
    m = ref.trim([x % p for x in m])
    g = pb.to(m)
    for a in ([0, 1], [1, 1], [2], [], list(range(1, 12)), [0] * 25 + [1], m):
      a = ref.trim([x % p for x in a])
      f = pb.to(a)
      for n in (1, p - 1, p, p + 1, p * p, 255, 256, 2**31, 2**64 - 1, p**5, p**5 - 1, 2**200 + 1):
        ctx.at("modular power", p, a, n, m)
        ctx.eq(pb.frm(f.powmod(n, g)), ref.ppowmod(a, n, m, p), "modular power", p, a, n, m)
      ctx.state((tuple(a), tuple(m)))
    ctx.trace()


def chunks(tier):
  lo, hi = (-60, 120) if tier == "quick" else (-150, 400)
  out = [("ints-%d" % k, ints, dict(lo=lo, hi=hi, part=k, parts=4)) for k in range(4)]
  out += [("large", large, {})]
  for name, field, deg, parts in (("Z2", 2, 4 if tier == "quick" else 6, 4), ("Z3", 3, 2 if tier == "quick" else 3, 4),
                                  ("Z5", 5, 1 if tier == "quick" else 2, 4), ("GF4", (2, [1, 1, 1]), 1 if tier == "quick" else 2, 4)):
    for k in range(parts):
      out.append(("polys-%s-%d" % (name, k), polys, dict(field=field, deg=deg, part=k, parts=parts)))
  out += [("planted-%d" % p, planted, dict(p=p, top=24 if tier == "quick" else 60)) for p in (7, 101)]
  more = tier != "quick"
  out += [("powers-2", powers, dict(field=2, deg=4 if more else 3, mdeg=5 if more else 4, top=40 if more else 16)),
          ("powers-3", powers, dict(field=3, deg=2, mdeg=2, top=27 if more else 12)),
          ("powers-5", powers, dict(field=5, deg=1, mdeg=2, top=26 if more else 11)),
          ("powers-GF4", powers, dict(field=(2, [1, 1, 1]), deg=1, mdeg=2, top=17 if more else 9))]
  out += [("high-powers-%d" % p, high_powers, dict(p=p)) for p in (2, 7, 101)]
  return out + [("modular-%d" % p, modular, dict(p=p)) for p in (2, 3, 5, 7, 11)]
