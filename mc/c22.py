import itertools

from mc import env, ref, merkleref
from mc.starkref import Instance, stark_of, rows, boundary_of, peval, values, load, importable, idft, order
from mc.c06 import MB

ID = "C22"
BOUNDS = {
    "one register": "every step polynomial of degree 1..2 with coefficients in {0, 1, 3, 16} over Z/17 and every input, 4 steps, "
                    "extension 4; the same coefficients from every fifth input with 2 and 8 steps",
    "registers": "families of 1 to 4 registers and degree to 4 over Z/97, Z/257 and a 256 bit prime, 2 to 16 steps, extension 4 and 8",
    "wide": "5 to 17 registers over Z/257 and Z/97, 4 and 8 steps; 1 and 2 registers with 32, 64 and 128 steps",
    "fields": "five prime fields in which 7 is a square, besides those in which it is not",
    "security factor": "1 to 19 and selected numbers of spot checks to 256, on six computations",
    "polynomials": "for each of those, the trace, constraint, remainder and boundary polynomials, the linear combination and the opened "
                   "branches against the reference",
}
ASSUMPTIONS = ["The proximity prover that the module imports does not exist in the package; a stand-in that proves low degree by "
               "giving all values takes its place."]


def sparse(p, d):
  return {k: c % p for k, c in d.items() if c % p}


def instance(ctx, inst, tables=True, samples=80):
  p = inst.p
  ctx.at("stark", p, inst.steps, inst.ext, inst.polys, inst.inp, samples)
  S, br, mb, steps, stark = stark_of(inst, samples)
  wit, bound = rows(br, inst.witness), boundary_of(br, inst.inp)
  proof = stark.mk_proof(wit, bound)
  ctx.step()
  got = stark.verify_proof(proof, wit, bound)
  ctx.check(got is True, "an honest proof is not accepted", got, inst.polys, inst.inp)
  # a verifier of its own, from the public parameters alone
  _, _, _, _, other = stark_of(inst, samples)
  ctx.check(other.verify_proof(proof, wit, bound) is True, "an honest proof is not accepted by another verifier")
  ctx.eq(stark.mk_proof(rows(br, inst.witness), bound), proof, "a second proof differs", inst.polys, inst.inp)
  ctx.eq([[br.frm(a) for a in r] for r in wit], inst.witness, "witness changed")
  ctx.eq([mb.frm(q) for q in steps], [sparse(p, q) for q in inst.polys], "step polynomials changed")
  commitment(ctx, inst, proof, samples)
  if tables:
    polynomials(ctx, inst, S, br, steps, wit, bound)
  ctx.state((p, inst.steps, inst.ext, repr(inst.polys), inst.inp))
  ctx.outcome(proof[0])


def commitment(ctx, inst, proof, samples):
  """What is committed and opened is what an honest prover derives."""
  P, C, D, B, z = inst.derive()
  vals = [values(cs, inst) for cs in P + [d for d, _ in D] + [b for b, _ in B]]
  leaves = [b"".join(v[i].to_bytes(32, "big") for v in vals) for i in range(inst.n)]
  mroot, lroot, branches, low = proof
  ctx.eq(mroot, merkleref.root(leaves), "committed values", inst.polys, inst.inp)
  ctx.check(len(lroot) == 32 and lroot != mroot, "root of the combination")
  pos = inst.positions(lroot, samples)
  ctx.check(len(branches) >= 3 * samples, "number of opened branches", samples, len(branches))
  known = {}
  for i, x in enumerate(pos):
    if x not in known:
      known[x] = (merkleref.branch(leaves, x), merkleref.branch(leaves, (x + inst.ext) % inst.n), merkleref.branch(low[0], x))
    ctx.eq(tuple(branches[3 * i:3 * i + 3]), known[x], "opened branches", i, x)
  cs = idft([int.from_bytes(v, "big") for v in low[0]], inst.g2, inst.p)
  ctx.check(len(cs) <= inst.steps * max(inst.degree, 1), "degree of the combination", len(cs))
  ctx.eq(lroot, merkleref.root(low[0]), "root of the combination")
  ctx.trace()


def polynomials(ctx, inst, S, br, steps, wit, bound):
  from starks.polynomial import polynomials_over
  p = inst.p
  P, C, D, B, z = inst.derive()
  g1, last = br.to(inst.g1), br.to(inst.last)
  tr = S.construct_trace_polynomials(wit, br.F, g1)
  ctx.eq([br.poly_from(f) for f in tr], P, "trace polynomials", inst.polys, inst.inp)
  for f, row in zip(tr, inst.witness):
    for i, v in enumerate(row):
      ctx.eq(peval([int(c) for c in f.coefficients], pow(inst.g1, i, p), p), v, "trace polynomial at a step", i)
  co = S.construct_constraint_polynomials(steps, tr, br.F, g1, inst.w)
  ctx.eq([br.poly_from(f) for f in co], C, "constraint polynomials", inst.polys, inst.inp)
  re = S.construct_remainder_polynomials(co, br.F, inst.steps, last)
  ctx.eq([br.poly_from(f) for f in re], [d for d, r in D], "remainder polynomials", inst.polys, inst.inp)
  ctx.check(not any(r for _, r in D), "reference: constraint not divisible")
  bo = S.construct_boundary_polynomials(tr, wit, bound, br.F, last, inst.w)
  ctx.eq([br.poly_from(f) for f in bo], [b for b, r in B], "boundary polynomials", inst.polys, inst.inp)
  ent = merkleref.h(repr((inst.polys, inst.inp)).encode())
  g2 = br.to(inst.g2)
  ls = S.compute_pseudorandom_linear_combination_1d(ent, tr, re, bo, g2, inst.steps, inst.n)
  lj = S.compute_pseudorandom_linear_combination(ent, tr, re, bo, br.F, g2, inst.n, inst.steps, inst.w)
  ctx.eq(len(ls), inst.w, "number of combinations")
  # each is a combination with coefficients that depend on the entropy only
  ks = S.get_pseudorandom_ks(ent, 4)
  top = pow(inst.g2, inst.steps * (inst.n - 1), p)
  for f, a, d, b in zip(ls, P, [d for d, _ in D], [b for b, _ in B]):
    want = ref.padd(d, [x * (ks[0] + ks[1] * top) % p for x in a], p)
    want = ref.padd(want, [x * (ks[2] + ks[3] * top) % p for x in b], p)
    ctx.eq(br.poly_from(f), want, "linear combination", inst.polys, inst.inp)
  jk = S.get_pseudorandom_ks(ent, inst.w)
  want = []
  for f, k in zip(ls, jk):
    want = ref.padd(want, [int(c) * (1 + k * top) % p for c in f.coefficients], p)
  ctx.eq(br.poly_from(lj), want, "joint linear combination", inst.polys, inst.inp)
  ctx.trace()


def one_register(ctx, steps, ext, part, parts, inputs):
  cs = (0, 1, 3, 16)
  i = 0
  for c in itertools.product(cs, repeat=3):
    q = {(k,): a for k, a in enumerate(c) if a}
    if not (c[1] or c[2]):
      continue  # a constant step has no degree to prove
    for a in inputs:
      i += 1
      if i % parts == part:
        instance(ctx, Instance(17, steps, ext, [q], (a,)), tables=(i // parts) % 4 == 0 or steps != 4)
  ctx.sample(17, steps, ext)


def family(ctx, p, w, steps, ext, count):
  mons = [m for m in itertools.product(range(4), repeat=w) if 0 < sum(m) <= min(ext, 4)]
  for s in range(count):
    polys = []
    for j in range(w):
      q = {}
      for t in range(1 + (s + j) % 3):
        c = (s * s * 11 + 5 * j * t + 3 * t + 1) % p or 1
        q[mons[(7 * s + 5 * j + 4 * t * t + t) % len(mons)]] = c
      if (s + j) % 2:
        q[(0,) * w] = (3 * s + j + 1) % p or 1
      polys.append(q)
    inp = tuple((3 * s + 2 * j + (p // 2 if s % 2 else 0)) % p for j in range(w))
    instance(ctx, Instance(p, steps, ext, polys, inp))


def special(ctx, p, steps, ext):
  """Zero inputs and outputs, equal registers, traces of low degree and fixed points."""
  u = lambda *e: tuple(e)
  cases = [
      ([{u(1): 1}], [(0,), (1,), (p - 1,)]),
      ([{u(1): p - 1}], [(0,), (1,)]),
      ([{u(1): 1, u(0): 1}], [((1 - steps) % p,), (0,), (p - 1,)]),
      ([{u(2): 1}], [(0,), (1,), (p - 1,), (2,)]),
      ([{u(2): 1, u(0): p - 1}], [(0,), (1,)]),
      ([{u(0, 1): 1}, {u(1, 0): 1, u(0, 1): 1}], [(0, 1), (0, 0), (1, 0), (p - 1, 1)]),
      ([{u(1, 0): 1}, {u(1, 0): 1}], [(0, 5), (3, 3)]),
      ([{u(1, 1): 1}, {u(0, 0): 4}], [(2, 4), (0, 4)]),
      ([{u(0, 1, 0): 1}, {u(0, 0, 1): 1}, {u(1, 0, 0): 1}], [(0, 0, 1), (1, 2, 3)]),
  ]
  for polys, inputs in cases:
    for inp in inputs:
      instance(ctx, Instance(p, steps, ext, polys, inp))


def wide(ctx, p, w, steps, ext):
  """Many registers, each made of its neighbours."""
  e = lambda *js: tuple(js.count(i) for i in range(w))
  for s in range(2):
    polys = []
    for j in range(w):
      a, b = (j + 1) % w, (j + 2 + s) % w
      q = {e(a): (3 * j + s + 1) % p or 1}
      if j % 3 == s:
        q[e(j, b)] = (j + 2) % p or 1
      if j % 2:
        q[e()] = (5 * j + s + 1) % p or 1
      polys.append(q)
    instance(ctx, Instance(p, steps, ext, polys, tuple((2 * j + s) % p for j in range(w))), samples=80 if s else 40)


def factors(ctx, p, steps, ext):
  """Every number of spot checks, few and many."""
  u = lambda *e: tuple(e)
  for polys, inp in (([{u(2): 1, u(0): 3}], (2,)), ([{u(0, 1): 1}, {u(1, 0): 1, u(0, 1): 1}], (0, 1))):
    for samples in list(range(1, 20)) + [39, 40, 41, 79, 80, 81, 82, 100, 120, 160, 161, 240, 256]:
      instance(ctx, Instance(p, steps, ext, polys, inp), tables=False, samples=samples)


def kscheck(ctx):
  S = load()
  seen = {}
  for e in range(40):
    ent = merkleref.h(bytes([e]))
    for num in range(0, 40):
      ctx.at("coefficients", e, num)
      ks = S.get_pseudorandom_ks(ent, num)
      ctx.eq(len(ks), num, "number of coefficients")
      ctx.eq(S.get_pseudorandom_ks(ent, num), ks, "coefficients differ on a second call")
      ctx.eq(len(set(ks)), num, "coefficients repeat", num)
      for i, k in enumerate(ks):
        ctx.check(type(k) is int and 0 <= k < 1 << 256, "coefficient", k)
        ctx.eq(seen.setdefault(k, e), e, "coefficient independent of the root", num, i)
      ctx.state((e, num))
    for b in range(32):
      other = ent[:b] + bytes([ent[b] ^ 1]) + ent[b + 1:]
      ctx.check(S.get_pseudorandom_ks(other, 4) != S.get_pseudorandom_ks(ent, 4), "a byte of the root has no effect", b)
  ctx.trace()


def plain_import(ctx):
  ok = importable()
  ctx.step()
  ctx.state(ok)
  ctx.finding("import", "the prover cannot be imported: the proximity prover it needs is missing from the package", ok)


BIG = 2**256 - 2**32 * 351 + 1


def chunks(tier):
  t = tier == "thorough"
  k = 16
  every = list(range(17))
  out = [("import", plain_import, {}), ("coefficients", kscheck, {})]
  out += [("one-4-%d" % i, one_register, dict(steps=4, ext=4, part=i, parts=k, inputs=every)) for i in range(k)]
  for steps, ext in ((2, 8), (2, 4), (8, 2), (4, 2)):
    out += [("one-%d-%d-%d" % (steps, ext, i), one_register,
             dict(steps=steps, ext=ext, part=i, parts=4, inputs=every if t else every[::5])) for i in range(4)]
  for p, steps, ext in ((97, 4, 4), (97, 4, 8), (97, 8, 4), (97, 2, 4), (257, 8, 8), (257, 16, 4), (257, 4, 8), (BIG, 8, 4), (BIG, 4, 8)):
    for w in (1, 2, 3, 4) if p != BIG or t else (1, 2, 3):
      out.append(("family-%d-%d-%d-%d" % (p % 1000, w, steps, ext), family,
                  dict(p=p, w=w, steps=steps, ext=ext, count=24 if t else 4)))
  for p, steps, ext in ((17, 4, 4), (97, 4, 8), (97, 8, 4), (257, 8, 4), (BIG, 4, 4)):
    out.append(("special-%d-%d-%d" % (p % 1000, steps, ext), special, dict(p=p, steps=steps, ext=ext)))
  out += [("factors-%d-%d-%d" % (p, steps, ext), factors, dict(p=p, steps=steps, ext=ext)) for p, steps, ext in ((17, 4, 4), (97, 4, 8), (257, 8, 4))]
  for w in (5, 6, 8, 9, 10, 11, 12, 16, 17):
    out.append(("wide-257-%d" % w, wide, dict(p=257, w=w, steps=4, ext=4)))
  out += [("wide-97-%d" % w, wide, dict(p=97, w=w, steps=8, ext=4)) for w in (5, 7, 10)]
  # fields in which 7 is a square
  out += [("special-%d-%d-%d" % (p, steps, ext), special, dict(p=p, steps=steps, ext=ext))
          for p, steps, ext in ((193, 4, 8), (449, 4, 4), (641, 8, 4), (113, 2, 4)) if pow(7, (p - 1) // 2, p) == 1]
  out += [("family-257-2-32-4", family, dict(p=257, w=2, steps=32, ext=4, count=1)), ("family-257-1-64-4", family, dict(p=257, w=1, steps=64, ext=4, count=2)),
          ("family-7681-1-128-4", family, dict(p=7681, w=1, steps=128, ext=4, count=1))]
  if t:
    out += [("family-257-2-32-8", family, dict(p=257, w=2, steps=32, ext=8, count=4)),
            ("family-7681-2-128-4", family, dict(p=7681, w=2, steps=128, ext=4, count=3))]
  return out
