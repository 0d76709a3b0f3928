import math

from mc import env, fieldcheck as fc, ref

ID = "C03"
BOUNDS = {
    "tables": "every pair of fractions m/n with every admissible m, n, for p in 2, 3, 5, 7 (thorough 11)",
    "histories": "all operation sequences of length 3 over shared operands, p=5,7",
    "large": "boundary numerators and denominators mod 2^61-1, 2^127-1 and a 256 bit prime; built from bytes of every pair of reduced and unreduced parts",
    "interleaving": "two moduli, and the integers mod p, used alternately",
}


class RBridge(env.Bridge):

  def to(self, a):
    return self.F(a)

  def frm(self, x):
    if type(x) is not self.F:
      raise AssertionError("not a rational mod %d: %r" % (self.p, x))
    if not (0 <= x.m < self.p and 0 < x.n < self.p):
      raise AssertionError("fraction not reduced mod %d: %r" % (self.p, x))
    if math.gcd(x.m, x.n) != 1:
      raise AssertionError("fraction not in lowest terms: %r" % (x,))
    return x.m * pow(x.n, -1, self.p) % self.p


def bridge(p):
  from starks.rationals_modp import RationalsModP
  return RBridge(RationalsModP(p), ref.RF(p))


def tables(ctx, p):
  br = bridge(p)
  reps = [(m, n, m * pow(n, -1, p) % p) for m in range(p) for n in range(1, p)]
  els = []
  for m, n, v in reps:
    ctx.at("construct", m, n)
    x = br.F(m, n)
    ctx.eq(br.frm(x), v, "fraction", m, n, p)
    for dm, dn in ((p, 0), (0, p), (-p, 2 * p), (3 * p, -p)):
      y = br.F(m + dm, n + dn)
      ctx.eq(br.frm(y), v, "fraction with unreduced parts", m + dm, n + dn, p)
      ctx.check(y == x and not y != x, "congruent fractions differ", m, n)
    raw = m.to_bytes(32, "big") + n.to_bytes(32, "big")
    ctx.eq(br.frm(br.F(raw)), v, "fraction from bytes", m, n)
    raw = (m + p).to_bytes(32, "big") + (n + 2 * p).to_bytes(32, "big")
    ctx.eq(br.frm(br.F(raw)), v, "fraction from unreduced bytes", m, n)
    fc.unary(ctx, br, x, v, list(range(0, 2 * p + 2)) + [2**200 + 7])
    els.append((x, v))
  for x, a in els:
    for y, b in els:
      fc.apply_all(ctx, br, x, y, a, b)
    ctx.trace()
    for n in range(-p, 2 * p):
      ctx.eq(br.frm(x + n), (a + n) % p, "fraction + int", a, n)
      ctx.eq(br.frm(n + x), (a + n) % p, "int + fraction", a, n)
      ctx.eq(br.frm(x - n), (a - n) % p, "fraction - int", a, n)
      ctx.eq(br.frm(n - x), (n - a) % p, "int - fraction", a, n)
      ctx.eq(br.frm(n * x), (a * n) % p, "int * fraction", a, n)
      if a:
        ctx.eq(br.frm(n / x), n * pow(a, -1, p) % p, "int / fraction", a, n)
  ctx.sample("p=%d, %d fractions, all ordered pairs" % (p, len(reps)))


def histories(ctx, p, depth):
  fc.histories(ctx, bridge(p), depth, [1, 2, p - 1])


def large(ctx, p):
  br = bridge(p)
  parts = [0, 1, 2, 3, 6, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, 2**32, 2**53 + 1, 2**60,
           int("9e3779b97f4a7c15" * 4, 16) % p]
  parts = sorted({x % p for x in parts})
  els = [(br.F(m, n), m * pow(n, -1, p) % p) for m in parts for n in parts[1:]]
  for (x, a) in els:
    fc.unary(ctx, br, x, a, (2, 3, 5, 8))
  if p.bit_length() <= 256:
    full = sorted({x for x in parts + [p, p + 1, 2 * p + 3, 2**255 + 7, 2**256 - 1] if x < 2**256})
    for m in full:
      for n in full:
        if n % p:
          ctx.at("large fraction from bytes", m, n, p)
          raw = m.to_bytes(32, "big") + n.to_bytes(32, "big")
          ctx.eq(br.frm(br.F(raw)), m * pow(n, -1, p) % p, "large fraction from bytes", m, n, p)
          x = br.F(m, n)
          ctx.eq(br.frm(br.F(x.to_bytes())), m * pow(n, -1, p) % p, "large fraction through bytes", m, n, p)
    ctx.trace()
  for i, (x, a) in enumerate(els):
    for (y, b) in els[i % 3::3]:
      fc.apply_all(ctx, br, x, y, a, b)
    ctx.trace()


def interleave(ctx):
  fc.interleaved(ctx, [bridge(5), bridge(7), env.prime_field(5), env.prime_field(7)], range(6))


def chunks(tier):
  ps = (2, 3, 5, 7) if tier == "quick" else (2, 3, 5, 7, 11, 13)
  out = [("tables-%d" % p, tables, dict(p=p)) for p in ps]
  out += [("histories-%d" % p, histories, dict(p=p, depth=3)) for p in (5, 7)]
  out += [("large-%d" % p.bit_length(), large, dict(p=p))
          for p in (2**61 - 1, 2**127 - 1, 2**256 - 2**32 * 351 + 1)]
  return out + [("interleave", interleave, {})]
