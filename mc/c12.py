import itertools

from mc import env, ref
from mc.c04 import PB, bridge

ID = "C12"
BOUNDS = {
    "complete": "every polynomial shorter than the domain and every value vector, every root of unity, for domains "
                "of 1, 2, 4 (Z/5), 1, 2, 3 (Z/7), 1, 3 (GF(4)), 1, 2 (Z/11, GF(9)) points, forward and back",
    "sparse": "every polynomial of at most 2 terms with coefficients out of three, domains of 3 to 24 points, orders with odd factors 3, 5, 7, 9, 11, 15 among them",
    "large": "families of dense, sparse, symmetric and short polynomials on domains of 32 to 512 points",
    "unit": "domains of 128 to 2048 points: monomials of a family of degrees, value lists with one nonzero entry, and polynomials "
            "one or two terms short of the domain",
    "long": "polynomials and factors of up to 3n + 2 coefficients on domains of n = 1 to 64 points (every one of up to 2n + 1 "
            "coefficients on the smallest domains), sparse and dense; n + 1 values and more are refused by the inverse",
    "orders": "those families on 22 orders between 60 and 420 that are no powers of two or have odd factors, products among them",
    "products": "every pair of polynomials of length <= 2 over Z/5, <= 2 over GF(4); families on larger domains, "
                "including products that wrap around the domain",
}


def roots(rf, n):
  """All primitive n-th roots of unity."""
  if rf.q > 2000:
    return None
  return [a for a in range(1, rf.q) if ref.order(rf, a) == n]


def forward(ctx, pb, g, n, c, powers):
  from starks.fft import NonBinaryFFT
  br, rf = pb.br, pb.rf
  ctx.at("fft", br.F.__name__, g, n, c)
  f = pb.to(c)
  vals = NonBinaryFFT(br.F, br.to(g)).fft(f)
  want = [rf.peval(ref.trim(c), x) for x in powers]
  ctx.eq([br.frm(v) for v in vals], want, "values on the domain", br.F.__name__, "root %d of order %d" % (g, n), c)
  ctx.eq(pb.frm(f), ref.trim(c), "polynomial changed")
  ctx.state((br.F.__name__, g, tuple(c)))
  return vals


def backward(ctx, pb, g, vals, c):
  from starks.fft import NonBinaryFFT
  vals = list(vals)
  f = NonBinaryFFT(pb.br.F, pb.br.to(g)).inv_fft(vals)
  ctx.eq(pb.frm(f), ref.trim(c), "inverse transform", pb.br.F.__name__, g, c)


def domain(rf, g, n):
  out = [1]
  for _ in range(n - 1):
    out.append(rf.mul(out[-1], g))
  assert rf.mul(out[-1], g) == 1
  return out


def complete(ctx, field, n, inverse):
  pb = PB(bridge(field))
  rf, q = pb.rf, pb.br.q
  for g in roots(rf, n):
    powers = domain(rf, g, n)
    for length in range(1, n + 1):
      for c in itertools.product(range(q), repeat=length):
        if length < n and c[-1] == 0:
          continue
        vals = forward(ctx, pb, g, n, list(c), powers)
        if inverse:
          backward(ctx, pb, g, vals, c)
    if inverse:
      for v in itertools.product(range(q), repeat=n):
        ctx.at("inverse", g, v)
        from starks.fft import NonBinaryFFT
        f = NonBinaryFFT(pb.br.F, pb.br.to(g)).inv_fft([pb.br.to(a) for a in v])
        c = pb.frm(f)
        ctx.check(len(c) <= n and [rf.peval(c, x) for x in powers] == list(v), "inverse transform", g, v, c)
    ctx.trace()
  ctx.sample(pb.br.F.__name__, n)


def sparse(ctx, field, n, coeffs, inverse, few):
  pb = PB(bridge(field))
  rf = pb.rf
  gs = roots(rf, n)[:few]
  for g in gs:
    powers = domain(rf, g, n)
    for i in range(n):
      for j in range(i, n):
        for a in coeffs:
          for b in (coeffs if j > i else [0]):
            c = [0] * (j + 1)
            c[i] = a
            c[j] = rf.add(c[j], b)
            vals = forward(ctx, pb, g, n, c, powers)
            if inverse:
              backward(ctx, pb, g, vals, c)
    ctx.trace()
  ctx.sample(pb.br.F.__name__, n, "roots", gs)


def families(q, n):
  yield []
  yield [1]
  yield [0] * (n - 1) + [1]
  yield [q - 1] * n
  yield [(i * i * 5 + 3 * i + 1) % q for i in range(n)]
  yield [(i * i * 5 + 3 * i + 1) % q for i in range(n // 2 + 1)]
  yield [(q // 3 * i + 2) % q if i % 2 else 0 for i in range(n)]
  yield [0] * (n // 4) + [1] * (n // 2)
  yield [1] + [0] * (n // 2 - 1) + [q - 1]


def large(ctx, p, n, g):
  pb = PB(env.prime_field(p))
  powers = domain(pb.rf, g, n)
  for c in families(p, n):
    vals = forward(ctx, pb, g, n, c, powers)
    backward(ctx, pb, g, vals, c)
    ctx.trace()


def unit(ctx, p, n, g, degrees):
  """Monomials, single values and near full polynomials on large domains, against closed forms."""
  from starks.fft import NonBinaryFFT
  pb = PB(env.prime_field(p))
  br = pb.br
  powers = domain(pb.rf, g, n)
  T = NonBinaryFFT(br.F, br.to(g))
  ninv = pow(n, -1, p)
  for d in degrees:
    d %= n
    for c in (1, p // 3):
      ctx.at("monomial", p, n, d, c)
      vals = T.fft(pb.to([0] * d + [c]))
      ctx.eq([br.frm(v) for v in vals], [c * powers[d * i % n] % p for i in range(n)], "values of a monomial", p, n, d)
      ctx.eq(pb.frm(T.inv_fft(list(vals))), [0] * d + [c], "inverse transform of a monomial", p, n, d)
      ctx.at("one value", p, n, d, c)
      one = [br.to(c if i == d else 0) for i in range(n)]
      want = [c * ninv * powers[-d * k % n] % p for k in range(n)]
      ctx.eq(pb.frm(T.inv_fft(one)), want, "inverse transform of one value", p, n, d)
      ctx.state((p, n, d, c))
    ctx.trace()
  # near full ones: (x^k - 1)/(x - 1), whose values are known
  for k in (n, n - 1, n - 2, n // 2 + 1, n // 2 - 1):
    ctx.at("sum of powers", p, n, k)
    vals = [br.frm(v) for v in T.fft(pb.to([1] * k))]
    want = [k % p] + [(powers[k * i % n] - 1) * pow(powers[i] - 1, -1, p) % p for i in range(1, n)]
    ctx.eq(vals, want, "values of a sum of powers", p, n, k)
    ctx.eq(pb.frm(T.inv_fft([br.to(v) for v in vals])), [1] * k, "inverse transform", p, n, k)
    ctx.state((p, n, k))
    ctx.trace()


def product(ctx, pb, g, n, a, b):
  from starks.fft import mul_polys
  br, rf = pb.br, pb.rf
  ctx.at("mul_polys", br.F.__name__, g, a, b)
  A, B = [br.to(x) for x in a], [br.to(x) for x in b]
  got = [br.frm(x) for x in mul_polys(A, B, br.to(g))]
  want = [0] * n
  for i, x in enumerate(rf.pmul(ref.trim(a), ref.trim(b))):
    want[i % n] = rf.add(want[i % n], x)
  ctx.eq(got, want, "product by transform", br.F.__name__, "order %d" % n, a, b)
  ctx.check([br.frm(x) for x in A] == list(a) and [br.frm(x) for x in B] == list(b), "arguments changed", a, b)
  ctx.state((br.F.__name__, g, tuple(a), tuple(b)))


def products(ctx, field, n, length, stride):
  pb = PB(bridge(field))
  q = pb.br.q
  for g in roots(pb.rf, n):
    lists = [c for k in range(1, length + 1) for c in itertools.product(range(q), repeat=k)]
    for i, a in enumerate(lists):
      for b in lists[i % stride::stride]:
        product(ctx, pb, g, n, list(a), list(b))
      ctx.trace()
  ctx.sample(pb.br.F.__name__, n, length)


def products_large(ctx, p, n, g):
  pb = PB(env.prime_field(p))
  fam = [c for c in families(p, n) if c]
  if n > 100:
    fam = fam[2:5] + fam[6:]
  for a in fam:
    for b in fam:
      product(ctx, pb, g, n, a, b)
    ctx.trace()


def long(ctx, field, n, every):
  """Polynomials with more coefficients than the domain has points."""
  from starks.fft import NonBinaryFFT
  pb = PB(bridge(field))
  rf, q = pb.rf, pb.br.q
  g = roots(rf, n)[0]
  powers = domain(rf, g, n)
  if every:
    for length in range(n + 1, 2 * n + 2):
      for c in itertools.product(range(q), repeat=length):
        if c[-1]:
          forward(ctx, pb, g, n, list(c), powers)
    ctx.trace()
  lists = []
  for length in sorted({n + 1, n + 2, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, 3 * n + 2}):
    if length <= n:
      continue
    lists.append([0] * (length - 1) + [q - 1])
    lists.append([1] + [0] * (length - 2) + [q - 1])
    lists.append([(i * i * 5 + 3 * i + 1) % q or 1 for i in range(length)])
    lists.append([0] * (length - 2) + [1, 1])
  for c in lists:
    forward(ctx, pb, g, n, c, powers)
    ctx.trace()
  short = [[1], [q - 1] * n, [0] * (n - 1) + [1], lists[0], lists[2], lists[-2]]
  for a in lists:
    for b in short:
      product(ctx, pb, g, n, a, b)
      product(ctx, pb, g, n, b, a)
    ctx.trace()
  T = NonBinaryFFT(pb.br.F, pb.br.to(g))
  for length in (n + 1, n + 2, 2 * n, 3 * n):
    if length > n:
      for fill in (0, 1):
        ctx.raises(lambda: T.inv_fft([pb.br.to(fill)] * length), ValueError, "inverse transform of too many values", n, length)
        ctx.state(("too many", pb.br.F.__name__, n, length, fill))
  ctx.sample(pb.br.F.__name__, n, len(lists))


GF4, GF8, GF16, GF9, GF25 = (2, [1, 1, 1]), (2, [1, 1, 0, 1]), (2, [1, 1, 0, 0, 1]), (3, [1, 0, 1]), (5, [2, 0, 1])
BIG = 2**256 - 2**32 * 351 + 1


def chunks(tier):
  t = tier == "thorough"
  out = []
  for nm, f, ns, inv in (("Z2", 2, (1,), True), ("Z3", 3, (1, 2), True), ("Z5", 5, (1, 2, 4), True),
                         ("Z7", 7, (1, 2, 3), True), ("GF4", GF4, (1, 3), True), ("GF8", GF8, (1,), True), ("GF9", GF9, (1, 2, 4) if t else (1, 2), True),
                         ("Z11", 11, (1, 2), True)):
    out += [("complete-%s-%d" % (nm, n), complete, dict(field=f, n=n, inverse=inv)) for n in ns]
  for nm, f, n, co, inv in (("Z7", 7, 6, [1, 3, 6], True), ("Z13", 13, 12, [1, 5], True), ("Z17", 17, 8, [1, 2, 16], True),
                            ("Z17", 17, 16, [1, 7], True), ("GF9", GF9, 8, [1, 5], True), ("GF25", GF25, 8, [1, 7], True),
                            ("GF25", GF25, 24, [1], True), ("Z11", 11, 5, [1, 2, 10], True), ("Z11", 11, 10, [1, 7], True),
                            ("Z19", 19, 9, [1, 5], True), ("Z19", 19, 18, [1], True), ("Z41", 41, 20, [1], True), ("GF8", GF8, 7, [1, 3, 6], True),
                            ("GF16", GF16, 15, [1, 9], True), ("GF16", GF16, 5, [1, 2, 15], True), ("GF25", GF25, 12, [1, 7], True),
                            ("Z13", 13, 3, [1, 2, 12], True), ("Z61", 61, 15, [1], True), ("Z43", 43, 14, [1], True), ("Z23", 23, 11, [1, 5], True)):
    out.append(("sparse-%s-%d" % (nm, n), sparse, dict(field=f, n=n, coeffs=co, inverse=inv,
                                                     few=1 if n > 12 and not isinstance(f, int) and not t else None)))
  for nm, f, ns, every in (("Z3", 3, (1, 2), True), ("Z5", 5, (1, 2), True), ("Z5", 5, (4,), False), ("Z7", 7, (3,), t), ("Z7", 7, (6,), False),
                           ("GF4", GF4, (3,), t), ("GF9", GF9, (8,), False), ("Z17", 17, (8, 16), False), ("Z193", 193, (24, 64), False),
                           ("Z61", 61, (15,), False), ("GF16", GF16, (5, 15), False)):
    out += [("long-%s-%d" % (nm, n), long, dict(field=f, n=n, every=every)) for n in ns]
  for nm, p, gen, ns in (("421", 421, 2, (60, 84, 105, 140, 210, 420) if t else (70, 105, 140, 210)), ("193", 193, 5, (96, 192)),
                         ("241", 241, 7, (120, 240)), ("97", 97, 5, (3, 6, 12, 24, 32, 48, 96)), ("257", 257, 3, (2, 4, 8, 16, 32, 64, 128, 256)),
                         ("769", 769, 11, (256, 384) if t else (48, 192)), ("big", BIG, 7, (8, 64, 256, 1024) if t else (8, 64, 512))):
    for n in ns:
      g = pow(gen, (p - 1) // n, p)
      out.append(("large-%s-%d" % (nm, n), large, dict(p=p, n=n, g=g)))
      if n in (8, 12, 32, 48, 64, 96, 192, 256, 384):
        out.append(("product-%s-%d" % (nm, n), products_large, dict(p=p, n=n, g=g)))
  for nm, p, gen, ns in (("257", 257, 3, (128, 256)), ("big", BIG, 7, (256, 1024)), ("7681", 7681, 17, (512,)),
                         ("12289", 12289, 11, (256, 512, 1024, 2048)), ("65537", 65537, 3, (256, 1024))):
    for n in ns:
      deg = sorted({0, 1, 2, 3, n // 4, n // 2 - 1, n // 2, n // 2 + 1, n - 3, n - 2, n - 1} | set(range(0, n, n // 16 if t else n // 4)))
      out.append(("unit-%s-%d" % (nm, n), unit, dict(p=p, n=n, g=pow(gen, (p - 1) // n, p), degrees=deg)))
  for nm, f, n, length, stride in (("Z5", 5, 4, 3 if t else 2, 1), ("Z7", 7, 6, 2, 1), ("Z7", 7, 3, 2, 1), ("GF4", GF4, 3, 3, 1 if t else 5),
                                   ("Z17", 17, 8, 1, 1), ("GF9", GF9, 8, 1, 1), ("Z3", 3, 2, 2, 1), ("Z11", 11, 5, 1, 1), ("Z11", 11, 10, 1, 1), ("GF8", GF8, 7, 1, 1)):
    out.append(("products-%s-%d" % (nm, n), products, dict(field=f, n=n, length=length, stride=stride)))
  return out
