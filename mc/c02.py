import itertools

from mc import env, fieldcheck as fc, ref

ID = "C02"
BOUNDS = {
    "tables": "every pair of elements under every monic irreducible modulus for p^m = 4, 8, 9, "
              "16, 25, 27, 32 (thorough also 49, 64, 81, 121, 125)",
    "middle": "p^m = 125, 49, 343, 625, 81, 243, 121, 1331, 169, 289, 128: inverse, powers and the operations with two others "
              "of all constants and monomials and up to 200 further elements, and all pairs of 12, modulo the first irreducible trinomials or denser",
    "large integers": "162 integers of up to 1000 bits, of both signs, into every field",
    "construction": "every coefficient list up to length 2m (small fields), integers, prime field "
                    "elements, polynomials, bytes",
    "histories": "all operation sequences of length 3 on shared operands in GF(4), GF(8), GF(9)",
    "large": "boundary alphabets in GF(2^8), GF(2^17), GF(2^32), GF(3^9), GF(p^2) for 31 and 127 bit p",
    "single digits": "all pairs of elements that differ from one of 4 in one digit, and products of monomials, in fields of degree up to 64",
    "long lists": "coefficient lists, polynomials and bytes of up to 3m, and of 4, 5, 8 and 13 times m, entries in ten regular patterns (a selection above degree 20), in fields of degree up to 64",
    "default modulus": "GF(p^m) built without a modulus under every sequence of random answers of "
                       "the first draws",
    "interleaving": "fields with equal p, m and different moduli used alternately",
}

LARGE = [
    (2, [1, 1, 0, 1, 1, 0, 0, 0, 1]),  # AES, x not primitive
    (2, [1, 0, 0, 1] + [0] * 13 + [1]),
    (2, [1, 0, 1, 1, 0, 0, 0, 1] + [0] * 24 + [1]),
    (3, [1, 0, 0, 0, 2] + [0] * 4 + [1]),
    (2**31 - 1, [1, 0, 1]),
    (2**127 - 1, [1, 0, 1]),
]


def construct(ctx, br):
  p, m, rf = br.p, br.m, br.rf
  Zp = br.F(0).poly.ring
  from starks.polynomial import polynomials_over
  P = polynomials_over(Zp)

  def want(c):
    return rf.undigits((ref.pdivmod(ref.trim([x % p for x in c]), br.rf.mod, p)[1] + [0] * m)[:m])

  length = 2 * m if p**(2 * m) <= 1100 else m + 1 if p**(m + 1) <= 1100 else 3
  for c in itertools.product(range(p), repeat=length):
    ctx.at("construct", c)
    w = want(c)
    ctx.eq(br.frm(br.F(list(c))), w, "from a coefficient list", c, rf.mod)
    ctx.eq(br.frm(br.F(P(list(c)))), w, "from a polynomial", c, rf.mod)
    ctx.eq(br.frm(br.F([Zp(x) for x in c])), w, "from prime field coefficients", c, rf.mod)
    x = br.F(P(list(c)))
    ctx.check(br.F(x) == x and br.frm(br.F(x)) == w, "from an element", c, rf.mod)
    raw = b"".join(v.to_bytes(32, "big") for v in c)
    ctx.eq(br.frm(br.F(raw)), w, "from bytes", c, rf.mod)
    ctx.trace()
  for k in range(2, 4):  # long lists, one nonzero entry
    for i in range(k * m + 1):
      c = [0] * i + [1]
      ctx.eq(br.frm(br.F(c)), want(c), "from a long list", c, rf.mod)
  for n in range(-2 * p, 3 * p):
    ctx.eq(br.frm(br.F(n)), n % p, "from the integer", n)
    ctx.eq(br.frm(br.F(Zp(n))), n % p, "from a prime field element", n)
    ctx.check(br.F(n) == n % p, "an integer does not equal its image", n)
  for k in (8, 15, 16, 31, 32, 52, 53, 63, 64, 65, 127, 128, 255, 256, 257, 384, 521, 1000):
    for n in (2**k - 1, 2**k, 2**k + 1, 2**k + 2**(k // 2) + 3, 3**k, -2**k + 1, -2**k, -2**k - 5, 10**(k // 3) + 7):
      ctx.eq(br.frm(br.F(n)), n % p, "from a large integer", n)
      ctx.eq(br.frm(br.F([n, 0, -n])), want([n, 0, -n]), "from large integers", n)
      ctx.eq(br.frm(br.F([0, 1]) + n), rf.add(br.frm(br.F([0, 1])), n % p), "plus a large integer", n)
      ctx.eq(br.frm(n * br.F([1, 1])), rf.mul(br.frm(br.F([1, 1])), n % p), "times a large integer", n)
      ctx.check((br.F(3) == n) is ((n - 3) % p == 0), "equality to a large integer", n)


def tables(ctx, p, mod):
  br = env.ext_field(p, mod)
  q = br.q
  fc.tables(ctx, br, sorted({0, 1, 2, 3, 4, 5, p, p + 1, q - 2, q - 1, q, q + 1, 2 * q + 1, 2**200 + 7, 2**600 - 1}))
  construct(ctx, br)
  # Frobenius and the generator relation
  x = br.F([0, 1])
  acc = br.to(0)
  for i, c in enumerate(mod):
    acc = acc + br.F(c) * x**i
  ctx.eq(br.frm(acc), 0, "the modulus does not vanish at x", mod)
  ctx.eq(br.F.field_size, q, "field size")


def histories(ctx, p, mod, depth):
  br = env.ext_field(p, mod)
  fc.histories(ctx, br, depth, [1, p, br.q - 1])


def large(ctx, p, mod):
  br = env.ext_field(p, mod)
  q, m = br.q, br.m
  alpha = {0, 1, p, p**(m - 1), q - 1, q - p, q // p + 1, p - 1, p + 1,
           0xDEADBEEFCAFEF00D1234567 % q, 0x123456789ABCDEF % q}
  if p == 2:
    alpha |= {1 << (m // 2), (1 << (m // 2)) - 1, q // 3 * 2 % q}
  fc.pairs(ctx, br, sorted(alpha), (0, 1, 2, 3, 5, 8, p, q - 2, q - 1, q) if m <= 9 or p > 5 else (0, 1, 2, 3, 17))


def long_lists(ctx, p, mod):
  """Lists, polynomials and bytes of up to 3m entries have to be reduced."""
  from starks.polynomial import polynomials_over
  br = env.ext_field(p, mod)
  rf, m = br.rf, br.m
  Zp = br.F(0).poly.ring
  P = polynomials_over(Zp)
  lists = [[0] * i + [c] for i in range(3 * m + 1) for c in sorted({1, 2 % p, p - 1} - {0})]
  lists += [[1] * n for n in range(m - 1, 3 * m + 1)] + [[i % p for i in range(n)] for n in range(m - 1, 3 * m + 1)]
  lists += [list(mod), [0] + list(mod), list(mod) + [1], [(x + 1) % p for x in mod], [0] * m + list(mod)]
  lists += [[1] + [0] * (n - 2) + [1] for n in range(m, 2 * m + 2)]
  for k in (4, 5, 8, 13):
    n = k * m + k % 3
    lists += [[0] * n + [1], [1] * n, [i % p for i in range(n)], [1] + [0] * n + [p - 1]]
  for c in lists if m < 20 else [c for c in lists if len(c) < m + 8 or len(c) % 16 == 0 or 3 * m < len(c) < 6 * m][::1 if m < 40 else 5]:
    ctx.at("long list", p, m, c)
    w = rf.undigits((ref.pdivmod(ref.trim([x % p for x in c]), mod, p)[1] + [0] * m)[:m])
    ctx.eq(br.frm(br.F(c)), w, "from a long coefficient list", c, p, m)
    ctx.eq(br.frm(br.F(P(c))), w, "from a long polynomial", c, p, m)
    ctx.eq(br.frm(br.F(b"".join(v.to_bytes(32, "big") for v in c))), w, "from many bytes", c, p, m)
    x = br.F(c)
    ctx.check(x == br.to(w) and not x != br.to(w), "equality of a long list and its remainder", c, p, m)
    ctx.eq(x.to_bytes(), br.to(w).to_bytes(), "bytes of a long list and of its remainder", c, p, m)
    ctx.state((p, m, tuple(c)))
  ctx.trace()


def middle(ctx, p, m, count):
  """Fields between the tables and the large ones: one operand runs through (almost) all elements."""
  for mod in itertools.islice(ref.irreducibles(p, m), 0, None):
    if count == 0:
      break
    if any(mod[1:m]):  # not a binomial
      count -= 1
    else:
      continue
    br = env.ext_field(p, mod)
    q, rf = br.q, br.rf
    step = max(1, q // 200)
    few = sorted({0, 1, 2, p - 1, p, p + 1, 2 * p + 3, p**(m - 1), p**(m - 1) * (p - 1), q - 1, q // 2, q // 3 * 2})
    others = [(b, br.to(b)) for b in few]
    for a in sorted(set(few) | set(range(p)) | {c * p**i for c in range(1, p) for i in range(m)} | set(range(1, q, step))):
      x = br.to(a)
      fc.unary(ctx, br, x, a, (2, 3, p) if a % 7 else (0, 1, 5, p, q - 2, q))
      b, y = others[a % len(others)]
      fc.apply_all(ctx, br, x, y, a, b)
      fc.apply_all(ctx, br, y, x, b, a)
    for a, x in others:
      for b, y in others:
        fc.apply_all(ctx, br, x, y, a, b)
    ctx.trace()


def single(ctx, p, mod):
  """Elements that differ in one or two digits only, in fields of high degree."""
  br = env.ext_field(p, mod)
  m, q, rf = br.m, br.q, br.rf
  for base in (q - 1, p**(m - 1), 0, p**(m - 1) + 1):
    els = [(base, br.to(base))]
    for i in range(m):
      d = rf.digits(base)
      d = list(d) + [0] * (m - len(d))
      d[i] = (d[i] + 1) % p
      v = rf.undigits(d)
      els.append((v, br.to(v)))
    for (a, x), (b, y) in itertools.product(els, repeat=2):
      ctx.at("single digits", base, a, b)
      ctx.check((x == y) is (a == b), "equality", a, b, m)
      ctx.check((x != y) is (a != b), "inequality", a, b, m)
      if a < b:
        ctx.eq(br.frm(x - y), rf.sub(a, b), "difference", a, b, m)
        ctx.eq(br.frm(x + y), rf.add(a, b), "sum", a, b, m)
      ctx.state((m, a, b))
    ctx.trace()
  # products of monomials: every reduction the modulus can cause
  mons = [(p**i, br.to(p**i)) for i in range(m)]
  for (a, x), (b, y) in itertools.product(mons, mons[-8:] if m > 20 else mons):
    ctx.eq(br.frm(x * y), rf.mul(a, b), "product of monomials", a, b, m)
  ctx.trace()


def interleave(ctx, p, m):
  fc.interleaved(ctx, [env.ext_field(p, f) for f in ref.irreducibles(p, m)][:3], list(range(1, p**m, 2))[:5])


def default_modulus(ctx, p, m, starts):
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  # One construction per process can draw; the class is then shared, so that the
  # draws are enumerated by forking the feed's starting point across chunks.
  with env.source(env.Odometer(starts)):
    F = FiniteField(p, m)
  mod = [int(c) for c in F.ideal_generator.coefficients]
  ctx.outcome(tuple(mod))
  ctx.check(len(mod) == m + 1 and mod[-1] == 1, "default modulus not monic of degree m", mod)
  ctx.check(ref.is_irreducible(mod, p), "default modulus reducible", p, mod)
  ctx.eq(ref.order_of_x(mod, p), p**m - 1, "default modulus not primitive", p, mod)
  br = env.Bridge(F, ref.RF(p, m, mod))
  fc.tables(ctx, br, [0, 1, 2, 3, p, br.q - 2, br.q - 1])
  construct(ctx, br)
  ctx.check(FiniteField(p, m) is F, "a second request gave another field")


def chunks(tier):
  sizes = [(2, 2), (2, 3), (3, 2), (2, 4), (5, 2), (3, 3), (2, 5)]
  if tier == "thorough":
    sizes += [(7, 2), (2, 6), (3, 4), (11, 2), (5, 3)]
  out = []
  for p, m in sizes:
    for f in ref.irreducibles(p, m):
      out.append(("tables-%d-%s" % (p, "".join(map(str, f))), tables, dict(p=p, mod=f)))
  depth = 3 if tier == "quick" else 4
  for p, f in ((2, [1, 1, 1]), (2, [1, 0, 1, 1]), (3, [1, 0, 1])):
    out.append(("histories-%d-%d" % (p, len(f) - 1), histories, dict(p=p, mod=f, depth=depth)))
  for p, f in LARGE:
    out.append(("large-%d-%d" % (p, len(f) - 1), large, dict(p=p, mod=f)))
  for p, f in LARGE[1:] + [(2, [1, 1, 0, 1, 1] + [0] * 59 + [1]), (5, [2, 0, 1] + [0] * 9 + [1]), (7, [1, 0, 3] + [0] * 7 + [1])]:
    out.append(("single-%d-%d" % (p, len(f) - 1), single, dict(p=p, mod=f)))
  for p, f in LARGE + [(2, [1, 1, 0, 1, 1] + [0] * 59 + [1]), (5, [2, 0, 1] + [0] * 9 + [1]), (7, [1, 0, 3] + [0] * 7 + [1])]:
    out.append(("lists-%d-%d" % (p, len(f) - 1), long_lists, dict(p=p, mod=f)))
  for p, m in ((5, 3), (7, 2), (7, 3), (5, 4), (3, 4), (3, 5), (11, 2), (11, 3), (13, 2), (17, 2), (2, 7)):
    out.append(("middle-%d-%d" % (p, m), middle, dict(p=p, m=m, count=1 if tier == "quick" else 4)))
  for p, m in ((2, 3), (2, 4), (3, 2), (5, 2)):
    out.append(("interleave-%d-%d" % (p, m), interleave, dict(p=p, m=m)))
  for p, m in ((2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (5, 2)):
    for s in range(0, 4 if tier == "quick" else 16):
      out.append(("default-%d-%d-%d" % (p, m, s), default_modulus,
                  dict(p=p, m=m, starts=s * p**m // 5 + s)))
  return out
