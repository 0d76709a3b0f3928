import copy

from mc import env, ref, merkleref
from mc.starkref import Instance, stark_of, rows, boundary_of, peval, values, build

ID = "C23"
BOUNDS = {
    "witness faults": "every register of every step of the trace replaced by every other value of Z/17 (quick: three other values), every "
                      "prover that divides anyway, for 12 computations of 1 to 3 registers, 4 steps, extension 4",
    "value faults": "every committed value (trace, remainder, boundary; every register; every one of 16 and 32 points, a selection of 64 "
                    "and 128, thorough 256, points) changed, with a tree rebuilt over it",
    "public faults": "every input and output of every register replaced by every other value of Z/17; other step polynomials",
    "bit faults": "8 bits of each component of the branches of every 16th sample (thorough: every bit of every branch of a proof), every bit of "
                  "the root; every branch dropped, exchanged with the next one or replaced by that of another sample",
    "lost samples": "the branches cut after every number of them, or taken from any number of them on; none at all; one sample repeated throughout",
}
ASSUMPTIONS = ["The stand-in proximity prover of C22; which points are sampled is recomputed by the reference from the root.",
               "The link between the opened values and the combination proved of low degree is not part of the verifier (its source says so)."]


def accepts(stark, proof, wit, bound):
  try:
    return stark.verify_proof(proof, wit, bound) is True
  except Exception:
    return False


COMPUTATIONS = [
    ([{(1,): 1, (0,): 1}], (3,)),
    ([{(2,): 1}], (2,)),
    ([{(2,): 1, (0,): 1}], (0,)),
    ([{(3,): 2, (1,): 1}], (5,)),
    ([{(1,): 16}], (0,)),
    ([{(0, 1): 1}, {(1, 0): 1, (0, 1): 1}], (0, 1)),
    ([{(0, 1): 1}, {(1, 0): 1, (0, 2): 2}], (2, 5)),
    ([{(1, 1): 1}, {(0, 1): 1, (0, 0): 3}], (1, 0)),
    ([{(1, 0): 1}, {(1, 0): 2, (0, 1): 1}], (4, 4)),
    ([{(1, 0, 0): 1, (0, 1, 0): 1}, {(0, 0, 1): 1}, {(1, 0, 0): 3}], (1, 2, 3)),
    ([{(0, 0, 2): 1}, {(1, 0, 0): 1}, {(0, 1, 0): 1}], (0, 5, 2)),
    ([{(1, 1, 0): 1}, {(0, 1, 1): 1}, {(0, 0, 1): 1, (0, 0, 0): 1}], (1, 1, 1)),
]


def lowdeg(inst, P, D, B, seed):
  """Values of some combination of low degree."""
  p = inst.p
  out = []
  for k, cs in enumerate(P + D + B):
    out = ref.padd(out, [c * (seed * (k + 1) * 5 + 3) % p for c in cs], p)
  return values(out[:inst.steps * inst.degree], inst)


def equations(inst, wit_last, P, D, B, x):
  """Whether the verifier's equations hold at g2^x for these polynomials' values."""
  p = inst.p
  at = pow(inst.g2, x, p)
  pv, dv, bv = ([f[x] for f in fs] for fs in (P, D, B))
  pn = [f[(x + inst.ext) % inst.n] for f in P]
  z = (pow(at, inst.steps, p) - 1) * pow(at - inst.last, -1, p) % p
  for j in range(inst.w):
    if (pn[j] - ref.meval(ref.RF(p), inst.polys[j], pv) - z * dv[j]) % p:
      return False
    y0, y1 = inst.inp[j], wit_last[j]
    i = (y0 + (y1 - y0) * pow(inst.last - 1, -1, p) * (at - 1)) % p
    if (pv[j] - bv[j] * (at - 1) * (at - inst.last) - i) % p:
      return False
  return True


def attempt(ctx, stark, br, inst, P, D, B, wit, lvals, what, samples=80):
  """A proof over these values is accepted iff the equations hold wherever it is sampled."""
  proof, pos = build(inst, P, D, B, lvals, samples)
  last = [row[-1] for row in wit]
  ok = all(equations(inst, last, P, D, B, x) for x in set(pos))
  got = accepts(stark, proof, rows(br, wit), boundary_of(br, inst.inp))
  ctx.step()
  if got and not ok:
    ctx.fail("a proof is accepted though an equation fails at a sampled point", what, inst.polys, inst.inp)
  ctx.outcome((got, ok))
  ctx.trace()
  return got, ok


def cheat(ctx, inst, all_values):
  """A prover with a wrong trace that divides anyway and drops the remainder."""
  _, br, mb, _, stark = stark_of(inst)
  p = inst.p
  honest = inst.derive()
  caught = 0
  for j in range(inst.w):
    for i in range(inst.steps):
      others = [v for v in range(p) if v != inst.witness[j][i]]
      for v in others if all_values else others[(i + j) % 5::6][:3]:
        wit = [list(r) for r in inst.witness]
        wit[j][i] = v
        P, C, D, B, z = inst.derive(wit)
        bad = any(r for _, r in D) or any(r for _, r in B)
        fs = [[values(c, inst) for c in P], [values(d, inst) for d, _ in D], [values(b, inst) for b, _ in B]]
        for seed in (1, 2):
          ctx.at("wrong trace", inst.polys, inst.inp, j, i, v, seed)
          got, ok = attempt(ctx, stark, br, inst, *fs, wit, lowdeg(inst, P, [d for d, _ in D], [b for b, _ in B], seed), ("trace", j, i, v))
          caught += not got
        # the prover itself refuses to prove a trace that breaks a transition
        if any(r for _, r in D):
          ctx.raises(lambda: stark.mk_proof(rows(br, wit), boundary_of(br, inst.inp)), Exception, "a wrong trace was proved", j, i, v)
        ctx.state((repr(inst.polys), j, i, v))
  ctx.check(caught > 0, "no wrong trace was caught", inst.polys)


def value(ctx, inst, deltas, stride=1):
  """One committed value changed, everything else honest and consistent."""
  _, br, mb, _, stark = stark_of(inst)
  P, C, D, B, z = inst.derive()
  D, B = [d for d, _ in D], [b for b, _ in B]
  lv = lowdeg(inst, P, D, B, 3)
  fs = [[values(c, inst) for c in x] for x in (P, D, B)]
  ctx.at("honest", inst.polys, inst.inp)
  got, ok = attempt(ctx, stark, br, inst, *fs, inst.witness, lv, "honest")
  ctx.check(got and ok, "the honest values are refused", inst.polys)
  for kind in range(3):
    for j in range(inst.w):
      for x in range((kind + j) % stride, inst.n, stride):
        for d in deltas:
          gs = copy.deepcopy(fs)
          gs[kind][j][x] = (gs[kind][j][x] + d) % inst.p
          ctx.at("changed value", inst.polys, kind, j, x, d)
          attempt(ctx, stark, br, inst, *gs, inst.witness, lv, ("value", "PDB"[kind], j, x, d))
          ctx.state((repr(inst.polys), kind, j, x, d))


def few(ctx, inst):
  """With few samples: every sampled point counts, and only those."""
  P, C, D, B, z = inst.derive()
  D, B = [d for d, _ in D], [b for b, _ in B]
  fs = [[values(c, inst) for c in x] for x in (P, D, B)]
  for samples in (1, 2, 3, 7):
    _, br, mb, _, stark = stark_of(inst, samples)
    for seed in (1, 2, 3, 4):
      lv = lowdeg(inst, P, D, B, seed)
      _, pos = build(inst, *fs, lv, samples)
      for kind in range(3):
        for k, x in enumerate(pos):
          gs = copy.deepcopy(fs)
          gs[kind][0][x] = (gs[kind][0][x] + 1) % inst.p
          ctx.at("few samples", samples, seed, kind, x)
          got, ok = attempt(ctx, stark, br, inst, *gs, inst.witness, lv, ("few", samples, kind, k), samples)
          ctx.check(not ok and not got, "sample not verified", samples, k)
          ctx.state((repr(inst.polys), samples, seed, kind, k))


def public(ctx, inst):
  """An honest proof for other inputs, outputs or steps."""
  _, br, mb, steps, stark = stark_of(inst)
  p = inst.p
  wit, bound = rows(br, inst.witness), boundary_of(br, inst.inp)
  proof = stark.mk_proof(wit, bound)
  ctx.check(accepts(stark, proof, wit, bound), "the honest proof is refused")
  for j in range(inst.w):
    for v in range(p):
      if v != inst.inp[j]:
        inp = list(inst.inp)
        inp[j] = v
        ctx.at("input", inst.polys, j, v)
        ctx.check(not accepts(stark, proof, wit, boundary_of(br, inp)), "accepted for another input", inst.polys, j, v)
      if v != inst.witness[j][-1]:
        other = [list(r) for r in inst.witness]
        other[j][-1] = v
        ctx.at("output", inst.polys, j, v)
        ctx.check(not accepts(stark, proof, rows(br, other), bound), "accepted for another output", inst.polys, j, v)
      ctx.state((repr(inst.polys), j, v))
    for d in (1, p - 1):
      polys = [dict(q) for q in inst.polys]
      key = (0,) * inst.w
      polys[j][key] = (polys[j].get(key, 0) + d) % p
      polys[j] = {k: c for k, c in polys[j].items() if c}
      other = stark_of(Instance(p, inst.steps, inst.ext, polys, inst.inp))[4]
      ctx.at("steps", inst.polys, j, d)
      ctx.check(not accepts(other, proof, wit, bound), "accepted for another computation", inst.polys, j, d)
  # all public data of another computation
  for polys, inp in COMPUTATIONS:
    if len(polys) == inst.w and (polys, inp) != (inst.polys, inst.inp):
      o = Instance(p, inst.steps, inst.ext, polys, inp)
      so = stark_of(o)[4]
      ctx.check(not accepts(so, proof, rows(br, o.witness), boundary_of(br, inp)), "accepted for another computation", polys, inp)
  ctx.trace()


def flip(b, k):
  return b[:k // 8] + bytes([b[k // 8] ^ 1 << k % 8]) + b[k // 8 + 1:]


def bits(ctx, inst, part, parts, full):
  _, br, mb, _, stark = stark_of(inst)
  wit, bound = rows(br, inst.witness), boundary_of(br, inst.inp)
  mroot, lroot, branches, low = stark.mk_proof(wit, bound)
  branches = [list(b) for b in branches]

  def judge(ms, ls, brs, *what):
    ctx.at("tampered", inst.polys, *what)
    ctx.check(not accepts(stark, [ms, ls, brs, low], wit, bound), "a tampered proof is accepted", inst.polys, *what)
    ctx.state((repr(inst.polys),) + what)

  if part == 0:
    ctx.check(accepts(stark, [mroot, lroot, branches, low], wit, bound), "the honest proof is refused")
    for k in range(256):
      judge(flip(mroot, k), lroot, branches, "root", k)
    for k in range(0, 256, 8):
      judge(mroot, flip(lroot, k), branches, "root of the combination", k)
    for other in (mroot + b"\0", mroot + mroot, mroot[:31], b"\0" + mroot, b"", bytes(32), lroot, None):
      judge(other, lroot, branches, "another root", other)
    for other in (lroot[:31], b"", bytes(32), mroot, None):
      judge(mroot, other, branches, "another root of the combination", other)
  for i, b in enumerate(branches):
    if i % parts != part or (i // 3) % 16 and not full:
      continue
    for c in range(len(b)):
      n = 8 * len(b[c])
      for k in (range(n) if full else range((i + 5 * c) % 31, n, n // 8 - 1)):
        bs = list(branches)
        bs[i] = b[:c] + [flip(b[c], k)] + b[c + 1:]
        judge(mroot, lroot, bs, "branch", i, c, k)
    nodes = {x for bb in branches for x in bb}
    for c in range(1, len(b)):
      for x in sorted(nodes)[i % 7::11]:
        if x != b[c]:
          bs = list(branches)
          bs[i] = b[:c] + [x] + b[c + 1:]
          judge(mroot, lroot, bs, "node", i, c, x[:4])
    for o in range(len(branches)):
      if branches[o] != b:
        bs = list(branches)
        bs[i] = branches[o]
        judge(mroot, lroot, bs, "swapped in", i, o)
    judge(mroot, lroot, branches[:i] + branches[i + 1:], "dropped", i)
    judge(mroot, lroot, branches[:i] + [b[:-1]] + branches[i + 1:], "shortened", i)
    judge(mroot, lroot, branches[:i] + [b[:1]] + branches[i + 1:], "cut", i)
    judge(mroot, lroot, branches[:i] + [[]] + branches[i + 1:], "emptied", i)
    ctx.trace()


def lost(ctx, inst):
  """Fewer samples than the verifier asks for."""
  _, br, mb, _, stark = stark_of(inst)
  wit, bound = rows(br, inst.witness), boundary_of(br, inst.inp)
  mroot, lroot, branches, low = stark.mk_proof(wit, bound)
  branches = [list(b) for b in branches]
  ctx.check(accepts(stark, [mroot, lroot, branches, low], wit, bound), "the honest proof is refused")
  n = len(branches)

  def judge(brs, *what):
    ctx.at("lost samples", inst.polys, *what)
    ctx.check(not accepts(stark, [mroot, lroot, brs, low], wit, bound), "a proof with samples missing is accepted", inst.polys, *what)
    ctx.state((repr(inst.polys),) + what)

  for k in range(n):
    judge(branches[:k], "cut after", k)
    if k:
      judge(branches[k:], "cut before", k)
      judge(branches[:n - 3 - k % 7] + branches[:k % 7], "from the start again", k)
  for k in range(0, n, 3):
    judge(branches[k:k + 3] * (n // 3), "one sample throughout", k)
    judge(branches[:k] + [[]] * (n - k), "empty from", k)
  ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = []
  for k, (polys, inp) in enumerate(COMPUTATIONS):
    inst = Instance(17, 4, 4, polys, inp)
    out.append(("cheat-%d" % k, cheat, dict(inst=inst, all_values=t)))
    out.append(("value-%d" % k, value, dict(inst=inst, deltas=(1, 16, 8) if t else (1,))))
    out.append(("public-%d" % k, public, dict(inst=inst)))
  for k in (1, 6, 9):
    polys, inp = COMPUTATIONS[k]
    out.append(("few-%d" % k, few, dict(inst=Instance(97, 4, 8, polys, inp))))
    out.append(("value-97-%d" % k, value, dict(inst=Instance(97, 4, 8, polys, inp), deltas=(1,))))
    big = [(257, 4, 32), (257, 16, 8), (193, 8, 8)] + ([(257, 32, 8), (257, 64, 4), (12289, 4, 64)] if t else [])
    for p, steps, ext in big:
      out.append(("value-%d-%d-%d-%d" % (p, steps, ext, k), value, dict(
          inst=Instance(p, steps, ext, polys, inp), deltas=(1,), stride=1 if t else 7)))
    if t:
      out.append(("value-97-8-%d" % k, value, dict(inst=Instance(97, 8, 4, polys, inp), deltas=(1, 50))))
      out.append(("cheat-97-%d" % k, cheat, dict(inst=Instance(97, 8, 4, polys, inp), all_values=False)))
    out.append(("lost-%d" % k, lost, dict(inst=Instance(17, 4, 4, polys, inp))))
    parts = 16 if t else 3
    for i in range(parts):
      out.append(("bits-%d-%d" % (k, i), bits, dict(inst=Instance(17, 4, 4, polys, inp), part=i, parts=parts, full=t and k == 1)))
  return out
