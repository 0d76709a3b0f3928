import itertools

from mc import env, ref
from mc.c04 import bridge
from mc.c06 import MB, few_terms, everything

ID = "C20"
BOUNDS = {
    "instances": "every step polynomial of degree <= 2 over Z/2, Z/3, Z/5, GF(4) in one variable with every input (quick: two inputs over the last two); every "
                 "pair of multilinear step polynomials in two variables over Z/2 with every input (quick: two inputs each); "
                 "families in 2 and 3 variables over Z/3, Z/5, GF(4), GF(2^17) and a 256 bit prime",
    "broad": "4 to 6 (8) registers of field elements, and step polynomials of degree 13 to 31 (64) in one and two, over five fields",
    "peaks": "3, 7 and 8 registers, the step polynomial of each in turn of the highest degree",
    "constraints": "each constraint polynomial at every (current, next) pair of states of the small fields",
    "traces": "every trace length 1..9 and every number of registers 1..3, step functions as polynomials and as functions",
    "faults": "every register of the transitions 0, 1, 254, 255, 509 and 510 of a trace replaced by a wrong value, 1 to 7 "
              "registers that all move, stand still, or stand still but for the first or last",
    "integers": "63 integers of up to 300 bits, of both signs, as inputs of one and two registers over four prime fields",
}
STEPS = 511


def run(rf, steps, inp, polys):
  tr = [list(inp)]
  for _ in range(steps - 1):
    tr.append([ref.meval(rf, p, tr[-1]) for p in polys])
  return tr


def frm(br, x):
  return br.frm_any(x) if br.m == 1 else br.frm(x)


def instance(ctx, mb, polys, inp, plain=False, constraints=False):
  from starks.air import AIR
  br, w = mb.br, len(polys)
  ctx.at("air", mb.M.__name__, polys, inp)
  steps = [mb.to(p) for p in polys]
  state = [br.to(x) for x in inp]
  arg = inp[0] if plain else state
  air = AIR(br.F, w, arg, STEPS, steps, 8)
  want = run(br.rf, STEPS, inp, polys)
  wit = air.generate_witness()
  ctx.eq([len(r) for r in wit], [STEPS] * w, "shape of the witness")
  if plain:
    wit[0][0] = br.to(wit[0][0])
  ctx.eq([[frm(br, wit[j][i]) for j in range(w)] for i in range(STEPS)], want, "witness", polys, inp)
  ctx.eq([frm(br, x) for x in air.output], want[-1], "output", polys, inp)
  ctx.eq([(i, j, br.frm(br.to(a) if plain else a)) for i, j, a in air.B], [(0, j, x) for j, x in enumerate(inp)],
         "boundary constraints", polys, inp)
  ctx.check(bool(air.C) is True, "an honest trace does not satisfy the constraints", polys, inp)
  degs = [max([sum(k) for k in p], default=0) for p in polys]
  ctx.eq(air.get_degree(), max(degs), "degree of the step polynomials", polys)
  ctx.eq(air.CDegree, max(max(degs), 1), "degree of the constraints", polys)
  ctx.eq(len(air.Polys), w, "number of constraints", polys)
  ctx.eq([mb.frm(p) for p in steps], list(polys), "step polynomials changed")
  if not plain:
    ctx.eq([br.frm(x) for x in state], list(inp), "input changed")
  ctx.state((mb.M.__name__, repr(polys), inp))
  ctx.outcome(tuple(want[-1]))
  if constraints:
    transitions(ctx, mb, air, polys)
  return air


def transitions(ctx, mb, air, polys):
  """Constraint j vanishes exactly where register j follows."""
  br, rf = mb.br, mb.rf
  vals = range(br.q) if br.q <= 5 else (0, 1, 2, br.q - 1)
  els = {v: br.to(v) for v in vals}
  states = list(itertools.product(vals, repeat=len(polys)))
  for x in states:
    nxt = [ref.meval(rf, p, x) for p in polys]
    for y in states + [tuple(nxt)]:
      args = [els.get(v) or br.to(v) for v in x + tuple(y)]
      for j, c in enumerate(air.Polys):
        ctx.at("constraint", polys, x, y, j)
        ctx.eq(frm(br, c(args)), rf.sub(y[j], nxt[j]), "constraint", polys, x, y, j)
  ctx.trace()


def one_register(ctx, field, part, parts):
  mb = MB(bridge(field), 1)
  for i, p in enumerate(everything(mb.br.q, 1, 2)):
    if i % parts != part:
      continue
    for x in range(mb.br.q) if mb.br.q < 4 or ctx.thorough else (i % mb.br.q, (i + 1 + i // 16) % mb.br.q):
      instance(ctx, mb, [p], (x,), constraints=x == i % mb.br.q)
    if isinstance(field, int):
      instance(ctx, mb, [p], (mb.br.q - 1,), plain=True)
  ctx.sample(field, part)


def two_registers(ctx, part, parts, full):
  mb = MB(bridge(2), 2)
  ps = list(everything(2, 2, 1))
  inputs = list(itertools.product(range(2), repeat=2))
  for i, (p, r) in enumerate(itertools.product(ps, repeat=2)):
    if i % parts != part:
      continue
    for k, inp in enumerate(inputs):
      if full or k in (i % 4, (i + 1 + i // 16) % 4):
        instance(ctx, mb, [p, r], inp, constraints=k == i % 4)


def families(ctx, field, n, seed):
  mb = MB(bridge(field), n)
  q = mb.br.q
  mons = list(itertools.product(range(3), repeat=n))
  for s in range(seed, seed + 6):
    polys = []
    for j in range(n):
      p = {}
      for t in range(1 + (s + j) % 4):
        c = (s * s * 11 + 5 * j * t + 3 * t + 1) % q
        if c:
          p[mons[(7 * s + 5 * j + 4 * t * t + t) % len(mons)]] = c
      polys.append(p)
    inp = tuple((3 * s + 2 * j + (q // 2 if s % 2 else 0)) % q for j in range(n))
    instance(ctx, mb, polys, inp, constraints=s == seed and n < 3)


def broad(ctx, field, n):
  """Many registers, and step polynomials of high degree."""
  mb = MB(bridge(field), n)
  q = mb.br.q
  unit = [tuple(int(i == j) for i in range(n)) for j in range(n)]
  for s in range(3):
    polys = []
    for j in range(n):
      p = {unit[(j + 1 + s) % n]: 1 + (s + j) % (q - 1)}
      k = tuple(int(i in (j, (j + 1) % n)) for i in range(n))
      p[k] = (p.get(k, 0) + 1 + j * s % (q - 1)) % q or 1
      polys.append(p)
    instance(ctx, mb, polys, tuple((j * j + s + 1) % q for j in range(n)))


def steep(ctx, field, n, degs):
  mb = MB(bridge(field), n)
  q = mb.br.q
  for d in degs:
    for s in range(2):
      polys = []
      for j in range(n):
        a = d if (j + s) % n == 0 else d // 2 + j
        k = tuple(a - a // 3 if i == j else a // 3 if i == (j + 1) % n else 0 for i in range(n)) if n > 1 else (a,)
        p = {k: 1 + s % (q - 1), tuple(int(i == j) for i in range(n)): 1}
        p[(0,) * n] = 1 + j % (q - 1)
        polys.append(p)
      instance(ctx, mb, polys, tuple((j + s + 1) % q for j in range(n)))


def peaks(ctx, field, n):
  """One register's step polynomial has the highest degree, each in turn."""
  mb = MB(bridge(field), n)
  q = mb.br.q
  unit = [tuple(int(i == j) for i in range(n)) for j in range(n)]
  for top in range(n):
    polys = [{unit[(j + 1) % n]: 1, (0,) * n: 1} for j in range(n)]
    polys[top][tuple(2 if i == top else int(i == 0) for i in range(n))] = 1
    instance(ctx, mb, polys, tuple((j + top) % q for j in range(n)))


def wide(ctx):
  mb = MB(bridge(GF17), 2)
  instance(ctx, mb, [{(0, 1): 1}, {(1, 0): 1, (0, 1): 1}], (0, 1))
  instance(ctx, mb, [{(1, 0): 2}, {(0, 1): 1, (0, 0): 0x1ffff}], (1, 0x10000))


def traces(ctx, field, n):
  """The trace of any length, from polynomials and from functions."""
  from starks.air import get_computational_trace
  mb = MB(bridge(field), n)
  br, q = mb.br, mb.br.q
  unit = [tuple(int(i == j) for i in range(n)) for j in range(n)]
  fam = []
  for c in range(1, min(q, 4)):
    fam.append([{unit[(j + 1) % n]: c, (0,) * n: (j + 1) % q} if (j + 1) % q else {unit[(j + 1) % n]: c} for j in range(n)])
    fam.append([{unit[j]: c} for j in range(n)])
  fam.append([{tuple(2 * e for e in unit[j]): 1, unit[(j + 1) % n]: q - 1} if n > 1 else {(2,): 1, (0,): 1} for j in range(n)])
  inputs = list(itertools.product(range(min(q, 4)), repeat=n))
  for polys in fam:
    steps = [mb.to(p) for p in polys]
    for inp in inputs:
      for length in range(1, 10):
        want = run(br.rf, length, inp, polys)
        for fs in (steps, [(lambda f: lambda s: f(s))(f) for f in steps]):
          ctx.at("trace", field, polys, inp, length)
          start = [br.to(x) for x in inp]
          tr, out = get_computational_trace(start, length, n, fs)
          ctx.eq([[frm(br, x) for x in s] for s in tr], want, "trace", polys, inp, length)
          ctx.eq([frm(br, x) for x in out], want[-1], "output", polys, inp, length)
          ctx.eq([br.frm(x) for x in start], list(inp), "input changed")
        ctx.state((field, n, repr(polys), inp, length))
  ctx.trace()


def integers(ctx, p):
  """Inputs given as plain integers of any size and sign stand for their residues."""
  from starks.air import AIR
  br = env.prime_field(p)
  values = sorted({s * (2**k + d) for k in (1, 31, 32, 63, 64, 65, 128, 255, 256, 300) for d in (-1, 0, 3) for s in (1, -1)} | {p, p - 1, -p, 2 * p + 1, 0})
  for n in (1, 2):
    mb = MB(br, n)
    unit = [tuple(int(i == j) for i in range(n)) for j in range(n)]
    polys = [{tuple(2 * e for e in unit[j]): 1, unit[(j + 1) % n]: p - 1, (0,) * n: 1} if n > 1 else {(3,): 1, (0,): 1} for j in range(n)]
    steps = [mb.to(f) for f in polys]
    for i, v in enumerate(values):
      for plain in (False, True) if n == 1 else (False,):
        inp = [v, values[(7 * i + 3) % len(values)]][:n]
        ctx.at("integers", p, inp, plain)
        air = AIR(br.F, n, v if plain else list(inp), STEPS, steps, 8)
        want = run(br.rf, STEPS, [x % p for x in inp], polys)
        wit = air.generate_witness()
        ctx.eq([[int(br.F(wit[j][k])) for j in range(n)] for k in range(STEPS)], want, "witness", polys, inp)
        ctx.eq([int(br.F(x)) for x in air.output], want[-1], "output", polys, inp)
        ctx.eq([(r, j, int(br.F(a))) for r, j, a in air.B], [(0, j, x) for j, x in enumerate(want[0])], "boundary constraints", polys, inp)
        ctx.check(bool(air.C) is True, "an honest trace does not satisfy the constraints", polys, inp)
        ctx.state((p, n, i, plain))
      ctx.trace()


def faults(ctx, field, n, kind=0):
  mb = MB(bridge(field), n)
  br = mb.br
  unit = [tuple(int(i == j) for i in range(n)) for j in range(n)]
  if kind == 0:
    polys = [{unit[(j + 1) % n]: 1, (0,) * n: 1} for j in range(n)]
  else:
    # all registers, or all but one, stand still
    polys = [{unit[j]: 1} for j in range(n)]
    if kind > 1:
      polys[(kind - 2) % n][(0,) * n] = 1
  air = instance(ctx, mb, polys, tuple(j % br.q for j in range(n)))
  good = air.computational_trace
  for k in (0, 1, 254, 255, 509, 510):
    for j in range(n):
      bad = [list(s) for s in good]
      bad[k][j] = bad[k][j] + br.to(1)
      air.computational_trace = bad
      ctx.at("fault", field, k, j)
      ctx.check(not air.generate_monotone_circuit(air.Polys), "a wrong trace satisfies the constraints", field, k, j)
      ctx.state((field, n, k, j))
  air.computational_trace = good
  ctx.check(air.generate_monotone_circuit(air.Polys), "the honest trace does not satisfy the constraints")
  ctx.trace()


GF4, GF9 = (2, [1, 1, 1]), (3, [1, 0, 1])
GF17 = (2, [1, 0, 0, 1] + [0] * 13 + [1])
BIG = 2**256 - 2**32 * 351 + 1


def chunks(tier):
  t = tier == "thorough"
  out = []
  for f, name, parts in ((2, "2", 1), (3, "3", 2), (5, "5", 8), (GF4, "GF4", 16 if t else 8)):
    out += [("one-%s-%d" % (name, i), one_register, dict(field=f, part=i, parts=parts)) for i in range(parts)]
  k = 16 if t else 8
  out += [("two-%d" % i, two_registers, dict(part=i, parts=k, full=t)) for i in range(k)]
  for name, f in (("3", 3), ("5", 5), ("GF4", GF4), ("256", BIG)):
    for n in (2, 3):
      for s in range(1, 60 if t else 7, 6):
        out.append(("family-%s-%d-%d" % (name, n, s), families, dict(field=f, n=n, seed=s)))
  out.append(("wide-GF17", wide, {}))
  for name, f in (("3", 3), ("5", 5), ("GF4", GF4), ("GF9", GF9), ("256", BIG)):
    out += [("broad-%s-%d" % (name, n), broad, dict(field=f, n=n)) for n in ((4, 5, 6, 8) if t else (4, 5, 6))]
    out += [("steep-%s-%d" % (name, n), steep, dict(field=f, n=n, degs=(13, 16, 17, 31, 64) if t else (13, 17, 31))) for n in (1, 2)]
  for name, f in (("3", 3), ("101", 101), ("GF4", GF4)):
    out += [("peaks-%s-%d" % (name, n), peaks, dict(field=f, n=n)) for n in ((3, 7, 8) if isinstance(f, int) else (3, 7))]
  for name, f in (("2", 2), ("3", 3), ("7", 7), ("GF4", GF4), ("GF9", GF9)):
    for n in (1, 2, 3):
      out.append(("traces-%s-%d" % (name, n), traces, dict(field=f, n=n)))
  for name, f in (("2", 2), ("5", 5), ("GF4", GF4)):
    for n in (1, 2, 3):
      out.append(("faults-%s-%d" % (name, n), faults, dict(field=f, n=n)))
      out.append(("still-%s-%d" % (name, n), faults, dict(field=f, n=n, kind=1)))
  for name, f, ns in (("3", 3, (4, 5, 6, 8)), ("101", 101, (4, 5, 7)), ("GF4", GF4, (4, 5))):
    for n in ns if t else ns[:3]:
      for kind in (0, 1, 2, n + 1):
        out.append(("many-%s-%d-%d" % (name, n, kind), faults, dict(field=f, n=n, kind=kind)))
  out += [("integers-%s" % name, integers, dict(p=p)) for name, p in (("2", 2), ("7", 7), ("97", 97), ("256", BIG))]
  return out
