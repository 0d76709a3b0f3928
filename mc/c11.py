import itertools

from mc import env, ref
from mc.c04 import PB, bridge

ID = "C11"
BOUNDS = {
    "interpolation": "every choice of up to 4 distinct points of Z/5 and GF(4) (in every order up to 3) with every "
                     "list of values, up to 3 of Z/7; two point and four point forms on all point sets",
    "vanishing": "every list of up to 4 roots (repetitions allowed) over Z/5, GF(4), Z/2, Z/3",
    "inversion": "every list of up to 4 elements, zeros included, over Z/5, Z/3, GF(4), GF(9) up to 3",
    "sizes": "up to 24 points (thorough 64) over Z/101, Z/257 and a 256 bit prime, runs, gaps and unsorted points; "
             "33, 48, 64, 65 and 100 points with a few value lists",
    "batches": "every sequence of up to 3 batches out of six point sets for the batched four point form; every pair of "
               "point sets that share three points, or the same points in another order",
    "long lists": "batch inversion of up to 1025 elements with a zero at each place of a family, several zeros, runs of zeros",
}


def lagrange(ctx, pb, xs, ys):
  from starks import poly_utils as pu
  br = pb.br
  ctx.at("interpolate", br.F.__name__, xs, ys)
  X, Y = [br.to(x) for x in xs], [br.to(y) for y in ys]
  f = pu.lagrange_interp(br.F, X, Y)
  ctx.eq(pb.frm(f), pb.rf.interpolate(xs, ys), "interpolating polynomial", br.F.__name__, xs, ys)
  for x, y in zip(xs, ys):
    ctx.eq(br.frm_any(f(br.to(x))), y, "the interpolant misses a point", br.F.__name__, xs, ys)
  ctx.check([br.frm(x) for x in X] == list(xs) and [br.frm(y) for y in Y] == list(ys), "arguments changed", xs, ys)
  ctx.state((br.F.__name__, tuple(xs), tuple(ys)))
  ctx.outcome(len(f.coefficients))


def small(ctx, field, k, part, parts):
  pb = PB(bridge(field))
  q = pb.br.q
  for i, xs in enumerate(itertools.permutations(range(q), k) if k <= 3 else itertools.combinations(range(q), k)):
    if k == 4 and i % 2:
      xs = xs[::-1]
    for ys in itertools.islice(itertools.product(range(q), repeat=k), part, None, parts):
      lagrange(ctx, pb, list(xs), list(ys))
    ctx.trace()
  ctx.sample(pb.br.F.__name__, k)


def fixed(ctx, field, size, part, parts):
  """The forms for two and for four points."""
  from starks import poly_utils as pu
  pb = PB(bridge(field))
  br = pb.br
  fn = {2: pu.lagrange_interp_2, 4: pu.lagrange_interp_4}[size]
  sets = list(itertools.permutations(range(br.q), size))
  for i, xs in enumerate(sets):
    X = [br.to(x) for x in xs]
    vals = itertools.product(range(br.q), repeat=size) if size == 2 or i % 24 == 0 else (
        [int(j == k) * v for j in range(size)] for k in range(size) for v in range(br.q))
    for ys in itertools.islice(vals, part, None, parts):
      ctx.at(fn.__name__, xs, ys)
      want = pb.rf.interpolate(xs, ys)
      Y = [br.to(y) for y in ys]
      ctx.eq(pb.frm(fn(br.F, X, Y)), want, "interpolation through %d points" % size, br.F.__name__, xs, ys)
      if size == 4:
        got = pu.multi_interp_4(br.F, [X], [Y])
        ctx.eq([pb.frm(f) for f in got], [want], "batched interpolation of one set", br.F.__name__, xs, ys)
      ctx.state((br.F.__name__, xs, tuple(ys)))
    ctx.trace()
  ctx.sample(br.F.__name__, size, len(sets))


def batches(ctx, field):
  from starks import poly_utils as pu
  pb = PB(bridge(field))
  br = pb.br
  q = br.q
  sets = [[(a * i + b) % q for i in range(4)] for a, b in ((1, 0), (1, 1), (2, 3))] + [[0, 1, 3, 2], [3, 1, 2, 0]]
  if br.m > 1:
    sets = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], [2, 3, 0, 1]]
  vals = [[0, 0, 0, 0], [1, 2, 3, 1], [0, 1, 0, 2], [q - 1, q - 1, q - 1, q - 1], [0, 0, 0, 1]]
  pool = [(xs, ys) for xs in sets for ys in vals]
  for n in (0, 1, 2, 3):
    for pick in itertools.product(pool if n < 3 else pool[::3], repeat=n):
      ctx.at("batch", pick)
      got = pu.multi_interp_4(br.F, [[br.to(x) for x in xs] for xs, _ in pick],
                              [[br.to(y) for y in ys] for _, ys in pick])
      ctx.eq([pb.frm(f) for f in got], [pb.rf.interpolate(xs, ys) for xs, ys in pick], "batched interpolation", pick)
      ctx.state(str(pick))
      ctx.trace()


def near(ctx, field):
  """Neighbouring sets of one batch that differ in one point only, or in the order of the points."""
  from starks import poly_utils as pu
  pb = PB(bridge(field))
  br = pb.br
  q = br.q
  base = [1, 2, 3, 0] if q < 5 else [1, 2, 4, 3]
  sets = [base] + [list(s) for s in itertools.permutations(base) if list(s) != base]
  for i in range(4):
    sets += [base[:i] + [v] + base[i + 1:] for v in range(q) if v not in base][:6]
  ys = [[1, 0, 2, 3], [0, 1, 1, q - 1]]
  for a in sets:
    for b in sets:
      for ya, yb in ((ys[0], ys[1]), (ys[1], ys[1])):
        for pick in ([(a, ya), (b, yb)], [(b, ya), (a, yb), (b, yb)]):
          ctx.at("near", pick)
          got = pu.multi_interp_4(br.F, [[br.to(x) for x in xs] for xs, _ in pick],
                                  [[br.to(y) for y in y4] for _, y4 in pick])
          ctx.eq([pb.frm(f) for f in got], [pb.rf.interpolate(xs, y4) for xs, y4 in pick], "batched interpolation", pick)
          ctx.state(str(pick))
    ctx.trace()


def long_batch(ctx, p, n):
  """Many sets in one batch."""
  from starks import poly_utils as pu
  pb = PB(env.prime_field(p))
  br = pb.br
  pick = []
  for i in range(n):
    xs = [(i + 1) * pow(3, j, p) % p for j in range(4)]
    xs = xs if len(set(xs)) == 4 else [0, 1, 2, 3]
    pick.append((xs, [(i * i + j * i + j) % p if i % 3 else 0 for j in range(4)]))
  ctx.at("long batch", p, n)
  got = pu.multi_interp_4(br.F, [[br.to(x) for x in xs] for xs, _ in pick], [[br.to(y) for y in ys] for _, ys in pick])
  ctx.eq(len(got), n, "number of interpolants")
  for i, (f, (xs, ys)) in enumerate(zip(got, pick)):
    ctx.eq(pb.frm(f), pb.rf.interpolate(xs, ys), "batched interpolation", i, xs, ys)
    ctx.state((p, n, i))
  ctx.trace()


def many(ctx, p, ns):
  pb = PB(env.prime_field(p))
  for n in ns:
    xs = [(i * i * 3 + 11 * i + 5) % p for i in range(n)]
    xs = list(dict.fromkeys(xs + list(range(n))))[:n]
    for ys in ([(7 * i * i + i + 1) % p for i in range(n)], [0] * (n - 1) + [1]):
      lagrange(ctx, pb, xs, ys)
    ctx.trace()


def long_inversion(ctx, field, n):
  """Lists of n elements, with zeros at every place of a family."""
  from starks import poly_utils as pu
  br = bridge(field)
  q = br.q
  base = [(i * 7 + 3) % (q - 1) + 1 for i in range(n)]
  inv = [br.rf.inv(v) for v in base]
  places = sorted({0, 1, 2, n // 2, n - 2, n - 1} | {i for k in range(3, 11) for i in (2**k - 1, 2**k, 2**k + 1)} | set(range(0, n, 50)))
  zeros = [()] + [(i,) for i in places if 0 <= i < n] + [(0, n - 1), tuple(range(n // 3, n // 2)), tuple(range(0, n, 3)),
                                                        tuple(range(n // 2)), tuple(range(n // 2, n)), tuple(range(n))]
  for zs in zeros:
    ctx.at("long inversion", br.F.__name__, n, zs[:5])
    vs, want = list(base), list(inv)
    for z in zs:
      vs[z] = want[z] = 0
    got = pu.multi_inv(br.F, [br.to(v) for v in vs])
    ctx.eq([br.frm_any(x) for x in got], want, "simultaneous inversion", br.F.__name__, n, zs)
    ctx.state((br.F.__name__, n, zs))
    ctx.trace()


def vanish(ctx, field, k):
  from starks import poly_utils as pu
  pb = PB(bridge(field))
  br = pb.br
  for n in range(k + 1):
    for roots in itertools.product(range(br.q), repeat=n):
      ctx.at("zpoly", br.F.__name__, roots)
      R = [br.to(r) for r in roots]
      f = pu.zpoly(br.F, R)
      ctx.eq(pb.frm(f), pb.rf.pfromroots(roots), "polynomial with given roots", br.F.__name__, roots)
      for x in range(br.q):
        ctx.check((br.frm_any(f(br.to(x))) == 0) is (x in roots), "zero set", br.F.__name__, roots, x)
      ctx.eq([br.frm(r) for r in R], list(roots), "roots changed")
      ctx.state((br.F.__name__, roots))
      ctx.trace()


def inversion(ctx, field, k):
  from starks import poly_utils as pu
  br = bridge(field)
  for n in range(1, k + 1):
    for vs in itertools.product(range(br.q), repeat=n):
      ctx.at("multi_inv", br.F.__name__, vs)
      V = [br.to(v) for v in vs]
      got = pu.multi_inv(br.F, V)
      ctx.eq([br.frm_any(x) for x in got], [br.rf.inv(v) if v else 0 for v in vs],
             "simultaneous inversion", br.F.__name__, vs)
      ctx.eq([br.frm(v) for v in V], list(vs), "arguments changed")
      ctx.state((br.F.__name__, vs))
      ctx.trace()


def sizes(ctx, p, top):
  from starks import poly_utils as pu
  pb = PB(env.prime_field(p))
  br = pb.br
  for n in list(range(1, 13)) + [15, 16, 17, 23, 24, 31, 32, 33, 48, 64]:
    if n > top:
      break
    for xs in ([i for i in range(n)], [(7 * i * i * i + 5 * i + 1) % p for i in range(n)], [p - 1 - 3 * i for i in range(n)]):
      xs = list(dict.fromkeys(x % p for x in xs))
      for ys in ([0] * len(xs), [1] * len(xs), [i * i % p for i in range(len(xs))], [0] * (len(xs) - 1) + [p - 1],
                 [(5 * i + (p >> 1)) % p if i % 2 else 0 for i in range(len(xs))]):
        lagrange(ctx, pb, xs, ys)
      R = [br.to(x) for x in xs]
      ctx.eq(pb.frm(pu.zpoly(br.F, R)), pb.rf.pfromroots(xs), "polynomial with given roots", xs)
      for again in (xs + xs[:1], xs[-1:] + xs, xs + xs, [x for x in xs for _ in (0, 1)], xs[:1] * (n + 1), [0] * n + xs):
        ctx.at("repeated roots", p, again)
        ctx.eq(pb.frm(pu.zpoly(br.F, [br.to(x) for x in again])), pb.rf.pfromroots(again), "polynomial with repeated roots", again)
      vals = [x if i % 5 else 0 for i, x in enumerate(xs)]
      ctx.eq([br.frm_any(v) for v in pu.multi_inv(br.F, [br.to(v) for v in vals])],
             [pow(v, -1, p) if v else 0 for v in vals], "simultaneous inversion", vals)
    ctx.trace()


GF4, GF9, GF8 = (2, [1, 1, 1]), (3, [1, 0, 1]), (2, [1, 1, 0, 1])


def chunks(tier):
  t = tier == "thorough"
  out = []
  for nm, f, ks in (("Z2", 2, (1, 2)), ("Z3", 3, (1, 2, 3)), ("Z5", 5, (1, 2, 3, 4)), ("Z7", 7, (1, 2, 3) if t else (1, 2)),
                    ("GF4", GF4, (1, 2, 3, 4)), ("GF9", GF9, (1, 2))):
    for k in ks:
      parts = 4 if k > 2 else 1
      for j in range(parts):
        out.append(("lagrange-%s-%d-%d" % (nm, k, j), small, dict(field=f, k=k, part=j, parts=parts)))
  for nm, f, size in (("Z5", 5, 2), ("Z5", 5, 4), ("Z7", 7, 2), ("Z7", 7, 4), ("GF4", GF4, 2), ("GF4", GF4, 4),
                      ("GF8", GF8, 2), ("GF9", GF9, 2)):
    parts = 4 if size == 4 else 1
    for j in range(parts):
      out.append(("fixed-%s-%d-%d" % (nm, size, j), fixed, dict(field=f, size=size, part=j, parts=parts)))
  out += [("batches-Z7", batches, dict(field=7)), ("batches-Z101", batches, dict(field=101)),
          ("batches-GF4", batches, dict(field=GF4)),
          ("near-Z7", near, dict(field=7)), ("near-GF9", near, dict(field=GF9)), ("near-Z101", near, dict(field=101)),
          ("near-GF4", near, dict(field=GF4)), ("many-257", many, dict(p=257, ns=(33, 48, 64, 65, 100))),
          ("long-batch", long_batch, dict(p=257, n=300))]
  out += [("long-inversion-%s-%d" % (nm, n), long_inversion, dict(field=f, n=n)) for nm, f, n in (
      ("257", 257, 100), ("257", 257, 256), ("101", 101, 512), ("257", 257, 1025), ("GF9", GF9, 200), ("big", 2**256 - 2**32 * 351 + 1, 400))]
  out += [("vanish-%s" % nm, vanish, dict(field=f, k=k)) for nm, f, k in (
      ("Z2", 2, 6), ("Z3", 3, 5), ("Z5", 5, 4), ("GF4", GF4, 4), ("GF9", GF9, 2))]
  out += [("inversion-%s" % nm, inversion, dict(field=f, k=k)) for nm, f, k in (
      ("Z2", 2, 8), ("Z3", 3, 6), ("Z5", 5, 5), ("GF4", GF4, 5), ("GF9", GF9, 3))]
  big = 2**256 - 2**32 * 351 + 1
  out += [("sizes-%s" % nm, sizes, dict(p=p, top=64 if t else 24)) for nm, p in (("101", 101), ("257", 257), ("big", big))]
  return out
