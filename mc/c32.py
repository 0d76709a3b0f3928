import itertools

from mc import c03, env, ref
from mc.c04 import bridge

ID = "C32"
BOUNDS = {
    "elements": "every element of Z/p for p to 61, boundary elements of 31 to 256 bit primes, every element of seven extension "
                "fields, boundary elements of GF(2^17), GF(2^32) and GF(p^2) for a 127 bit p",
    "polynomials": "every polynomial of length <= 5 over Z/2, <= 3 over Z/3, Z/5, Z/7; boundary coefficients over a 256 bit prime "
                   "to length 40",
    "rationals": "every fraction m/n over Z/p for p to 13, boundary fractions of large primes",
    "refusal": "every length to 200 that is no multiple of 32",
}


def integers(ctx, p, vals):
  br = bridge(p)
  seen = {}
  for a in vals:
    ctx.at("element", p, a)
    x = br.to(a)
    b = x.to_bytes()
    ctx.eq(b, a.to_bytes(32, "big"), "encoding", p, a)
    ctx.eq(br.frm(br.F(b)), a, "decoded element", p, a)
    ctx.check(br.F(b) == x, "decoded element differs", p, a)
    ctx.eq(seen.setdefault(b, a), a, "two elements with one encoding", p)
    ctx.state((p, a))
  ctx.trace()


def extension(ctx, field, vals=None):
  br = bridge(field)
  seen = {}
  for a in range(br.q) if vals is None else vals:
    ctx.at("element", field, a)
    x = br.to(a)
    b = x.to_bytes()
    ctx.check(type(b) is bytes, "not bytes", b)
    ctx.eq(b, b"".join(c.to_bytes(32, "big") for c in ref.trim(br.rf.digits(a))), "encoding", field, a)
    ctx.eq(br.frm(br.F(b)), a, "decoded element", field, a)
    ctx.eq(br.frm(x), a, "element changed")
    ctx.eq(seen.setdefault(b, a), a, "two elements with one encoding", field)
    ctx.state((repr(field), a))
  ctx.trace()


def polynomial(ctx, br, P, cs, seen):
  ctx.at("polynomial", br.p, cs)
  f = br.poly_to(P, cs)
  b = f.to_bytes()
  want = ref.trim(cs)
  ctx.eq(b, b"".join(c.to_bytes(32, "big") for c in want), "encoding", br.p, cs)
  g = P(b)
  ctx.eq(br.poly_from(g), want, "decoded polynomial", br.p, cs)
  ctx.check(g == f, "decoded polynomial differs", br.p, cs)
  ctx.eq(br.poly_from(f), want, "polynomial changed")
  ctx.eq(seen.setdefault(b, want), want, "two polynomials with one encoding")
  # zeros at the end of the bytes are no part of the polynomial
  ctx.eq(br.poly_from(P(b + bytes(32))), want, "decoded polynomial with a zero on top", br.p, cs)
  ctx.state((br.p, tuple(cs)))


def polynomials(ctx, p, top):
  from starks.polynomial import polynomials_over
  br = bridge(p)
  P = polynomials_over(br.F)
  seen = {}
  for k in range(top + 1):
    for cs in itertools.product(range(p), repeat=k):
      polynomial(ctx, br, P, list(cs), seen)
  ctx.trace()


def wide(ctx, p):
  from starks.polynomial import polynomials_over
  br = bridge(p)
  P = polynomials_over(br.F)
  vals = [0, 1, p - 1, p // 2, (1 << 248) % p, 255, 256, ((1 << 200) - 1) % p]
  seen = {}
  for cs in itertools.product(vals, repeat=3):
    polynomial(ctx, br, P, list(cs), seen)
  for n in range(4, 41):
    polynomial(ctx, br, P, [vals[(i * i + n) % len(vals)] for i in range(n)], seen)
  ctx.trace()


def rationals(ctx, p, ms, ns):
  from starks.rationals_modp import RationalsModP
  Q = RationalsModP(p)
  fractions = c03.bridge(p)
  for m in ms:
    for n in ns:
      if n % p == 0:
        continue
      ctx.at("rational", p, m, n)
      x = Q(m, n)
      b = x.to_bytes()
      ctx.eq((type(b), len(b)), (bytes, 64), "shape of the encoding", p, m, n)
      y = Q(b)
      ctx.eq(fractions.frm(y), m * pow(n, -1, p) % p, "decoded rational", p, m, n)
      ctx.check(x == y, "decoded rational differs", p, m, n)
      num, den = int.from_bytes(b[:32], "big"), int.from_bytes(b[32:], "big")
      ctx.check(den % p and num * pow(den, -1, p) % p == m * pow(n, -1, p) % p, "encoding", p, m, n)
      ctx.eq(y.to_bytes(), b, "encoding of the decoded rational", p, m, n)
      ctx.state((p, m, n))
  ctx.trace()


def refusal(ctx):
  from starks.polynomial import polynomials_over
  for field in (2, 7, 101):
    br = bridge(field)
    P = polynomials_over(br.F)
    for n in range(200):
      ctx.at("length", n)
      if n % 32:
        ctx.raises(lambda: P(bytes(n)), Exception, "a truncated encoding was accepted", field, n)
        ctx.raises(lambda: P(bytes([1]) * n), Exception, "a truncated encoding was accepted", field, n)
      else:
        ctx.eq(br.poly_from(P(bytes(n))), [], "zeros")
      ctx.state((field, n))
  ext = bridge((2, [1, 1, 0, 1]))
  for n in range(1, 130):
    if n % 32:
      ctx.raises(lambda: ext.F(bytes(n)), Exception, "a truncated encoding was accepted", n)
  ctx.trace()


BIG = 2**256 - 2**32 * 351 + 1
LARGE = (2**31 - 1, 2**61 - 1, 2**127 - 1, 2**255 - 19, BIG)
GF17 = (2, [1, 0, 0, 1] + [0] * 13 + [1])


def edge(p):
  v = {0, 1, 2, 255, 256, 257, 65535, 65536, p - 1, p - 2, p // 2, p // 3, p // 256}
  v |= {(1 << k) % p for k in range(0, 256, 7)} | {((1 << k) - 1) % p for k in range(0, 257, 8)}
  return sorted(v)


def chunks(tier):
  out = []
  for p in range(2, 258 if tier == "thorough" else 62):
    if ref.is_prime(p):
      out.append(("element-%d" % p, integers, dict(p=p, vals=list(range(p)))))
  for p in LARGE:
    out.append(("element-large-%d" % p.bit_length(), integers, dict(p=p, vals=edge(p))))
  for p, m in ((2, 2), (2, 3), (3, 2), (2, 4), (5, 2), (3, 3), (2, 8)):
    out.append(("extension-%d-%d" % (p, m), extension, dict(field=(p, ref.irreducibles(p, m)[0]))))
  out.append(("extension-17", extension, dict(field=GF17, vals=[0, 1, 2, 3, 1 << 16, (1 << 17) - 1, 0x15555, 0x100ff])))
  p = 2**127 - 1  # x^2 + 1 is irreducible: p = 3 mod 4
  vals = [a + p * b for a in (0, 1, p - 1, p // 2) for b in (0, 1, p - 1, 1 << 100)]
  out.append(("extension-127", extension, dict(field=(p, [1, 0, 1]), vals=vals)))
  for p, top in ((2, 5), (3, 3), (5, 3), (7, 3)):
    out.append(("polynomial-%d" % p, polynomials, dict(p=p, top=top + (2 if tier == "thorough" else 0))))
  for p in (BIG, 2**61 - 1):
    out.append(("polynomial-large-%d" % p.bit_length(), wide, dict(p=p)))
  for p in (2, 3, 5, 7, 11, 13):
    out.append(("rational-%d" % p, rationals, dict(p=p, ms=range(-p - 1, 2 * p + 2), ns=range(-p - 1, 2 * p + 2))))
  for p in LARGE[1:]:
    out.append(("rational-large-%d" % p.bit_length(), rationals, dict(p=p, ms=edge(p)[::5], ns=edge(p)[1::6] + [-1])))
  return out + [("refusal", refusal, {})]
