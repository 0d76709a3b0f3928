import hashlib
import itertools

from mc import env, ref
from mc.c04 import bridge

ID = "C24"
BOUNDS = {
    "commit": "every 2 dimensional space of GF(8) with every table of values on two of them and every polynomial of degree <= 3 over Z/2 "
              "on all; every ordered basis of GF(16) with families; 3 dimensional spaces of GF(8), GF(16) with families of functions; rate 1",
    "odd": "spaces of 9 elements of GF(9) and GF(27), 5 of GF(25), 7 and 13 of GF(49) and GF(169): every 5th ordered basis, families of functions "
           "with values of high degree",
    "subspaces": "every basis of up to 3 vectors of GF(8), every leading part of it",
    "large spaces": "four bases of 4 to 8 vectors of GF(256) with four shifts, every leading part",
    "evaluation": "every polynomial of degree <= 1 over GF(8) and families, on those spaces",
    "challenges": "20 (112) labels over each of four fields, with digests of every length from 376 to 384 bits met",
    "findings": "more rounds, lower rates, spaces below dimension 2, and the query phase are known not to work; what is executed there is listed "
                "in known_findings.txt",
}


class quick_challenges:
  """Challenges of one round do not enter its result, and each costs about a
  second: while executing commitments they come from a cheap function."""

  def __enter__(self):
    from starks import fri
    self.fri, self.old = fri, getattr(fri, "select_random", None)
    if self.old:
      fri.select_random = lambda field, x: field([1, 1])

  def __exit__(self, *exc):
    if self.old:
      self.fri.select_random = self.old


class World:

  def __init__(self, mod, p=2):
    from starks.modp import IntegersModP
    from starks.polynomial import polynomials_over
    from starks.reedsolomon import AffineSpace
    self.br = env.ext_field(p, mod)
    self.rf, self.q = self.br.rf, self.br.q
    self.Z = IntegersModP(p)
    self.P = polynomials_over(self.Z)
    self.F = polynomials_over(self.br.F)
    self.A = AffineSpace

  def vec(self, a):
    return self.P(self.rf.digits(a))

  def word(self, x):
    return self.br.frm(self.br.F(x))

  def space(self, basis):
    return self.A(self.Z, [self.vec(b) for b in basis])

  def elements(self, basis):
    """In the order in which the space lists them."""
    return [self.word(x) for x in self.space(basis)]


def independent(q, d):
  for b in itertools.permutations(range(1, q), d):
    span = {0}
    for v in b:
      if v in span:
        break
      span |= {s ^ v for s in span}
    else:
      yield b


def interpolate(rf, xs, ys):
  n, out = len(xs), [0] * len(xs)
  for i in range(n):
    num, den = [1], 1
    for j in range(n):
      if j != i:
        num = [rf.sub(a, rf.mul(xs[j], b)) for a, b in zip([0] + num, num + [0])]
        den = rf.mul(den, rf.sub(xs[i], xs[j]))
    c = rf.mul(ys[i], rf.inv(den))
    out = [rf.add(o, rf.mul(c, a)) for o, a in zip(out, num)]
  return ref.trim(out)


def commit(ctx, w, basis, table):
  """table: value of the committed function at every element."""
  from starks.fri import AffineSubspaceFRI
  els = w.elements(basis)
  f = lambda x: w.br.to(table[w.word(x)])
  ctx.at("commit", basis, table)
  space = w.space(basis)
  with quick_challenges():
    got = AffineSubspaceFRI(w.br.F, space, 1).commit(f)
  cs = [w.br.frm(c) for c in got]
  ctx.eq(cs, interpolate(w.rf, els, [table[e] for e in els]), "committed coefficients", basis, table)
  ctx.eq([w.word(x) for x in space], els, "space changed")
  ctx.state((w.q, basis, tuple(sorted(table.items()))))
  ctx.outcome(tuple(cs))


def tables(ctx, mod, basis, part, parts):
  w = World(mod)
  els = w.elements(basis)
  for i, vs in enumerate(itertools.product(range(w.q), repeat=len(els))):
    if i % parts == part:
      commit(ctx, w, basis, dict(zip(els, vs)))
  ctx.trace()
  ctx.sample(mod, basis)


def bases(ctx, mod, d, part, parts):
  from starks.fri import AffineSubspaceFRI
  w = World(mod)
  for i, basis in enumerate(independent(w.q, d)):
    if i % parts != part:
      continue
    els = w.elements(basis)
    n = len(els)
    fams = [[0] * n, [1] * n, [int(k == n - 1) for k in range(n)], [(k * k + 3 * k + i) % w.q for k in range(n)]]
    for vs in fams:
      commit(ctx, w, basis, dict(zip(els, vs)))
    for cs in itertools.product(range(2), repeat=4) if d == 2 else ((0, 1, 0, 0), (1, 0, 1, 1)):
      # a polynomial over Z/2, as a user gives it, of degree below the size of the space
      ctx.at("commit", basis, cs)
      with quick_challenges():
        got = AffineSubspaceFRI(w.br.F, w.space(basis), 1).commit(w.P(list(cs)))
      ctx.eq([w.br.frm(c) for c in got], ref.trim(cs), "committed coefficients of a polynomial of low degree", basis, cs)
      ctx.state((w.q, basis, cs))
    ctx.trace()


def odd(ctx, p, mod, d, every):
  w = World(mod, p)
  rf = w.rf
  for i, basis in enumerate(itertools.permutations(range(1, w.q), d)):
    if i % every:
      continue
    span = {0}
    for v in basis:
      span = {rf.add(s, rf.mul(c, v)) for s in span for c in range(p)}
    n = p**d
    if len(span) != n:
      continue
    els = w.elements(basis)
    for vs in ([0] * n, [1] * n, [int(k == n - 1) for k in range(n)], [int(k == 0) for k in range(n)],
               [(k * k + 3 * k + i) % w.q for k in range(n)], [rf.pow(e, n - 1) for e in els], [rf.pow(e, n - 2) for e in els],
               [rf.add(rf.pow(e, n - 1), rf.pow(e, 2)) for e in els], list(els)):
      commit(ctx, w, basis, dict(zip(els, vs)))
    ctx.trace()


def subspaces(ctx, mod, d):
  from starks.fri import select_subspace
  w = World(mod)
  for basis in independent(w.q, d):
    for eta in range(1, d + 1):
      ctx.at("subspace", basis, eta)
      space = w.space(basis)
      got = select_subspace(space, eta)
      ctx.eq([w.word(x) for x in got], w.elements(basis[:eta]), "selected subspace", basis, eta)
      ctx.eq(len(got), 1 << eta, "size of the subspace", basis, eta)
      ctx.eq([w.word(x) for x in space], w.elements(basis), "space changed")
      ctx.state((w.q, basis, eta))
  # a shifted space has the same leading directions, and the selected space contains 0
  for basis in list(independent(w.q, d))[::7]:
    for shift in range(1, w.q):
      for eta in range(1, d + 1):
        ctx.at("subspace of a shifted space", basis, shift, eta)
        space = w.A(w.Z, [w.vec(b) for b in basis], w.vec(shift))
        before = [w.word(x) for x in space]
        got = select_subspace(space, eta)
        ctx.eq([w.word(x) for x in got], w.elements(basis[:eta]), "subspace selected from a shifted space", basis, shift, eta)
        ctx.eq([w.word(x) for x in space], before, "space changed")
        ctx.state((w.q, basis, shift, eta))
  ctx.trace()


def large(ctx, mod, d):
  """Spaces of many dimensions, shifted or not."""
  from starks.fri import select_subspace
  w = World(mod)
  m = len(mod) - 1
  families = [[1 << i for i in range(d)], [1 << (m - 1 - i) for i in range(d)], [(1 << i) | (1 << (i + 1) % m) for i in range(d)],
              [(1 << (i + 1)) - 1 for i in range(d)]]
  for basis in families:
    span = {0}
    for v in basis:
      span |= {s ^ v for s in span}
    if len(span) < 1 << d:
      continue
    for shift in (0, 1, w.q - 1, 1 << (m - 1)):
      space = w.A(w.Z, [w.vec(b) for b in basis], w.vec(shift)) if shift else w.space(basis)
      before = [w.word(x) for x in space]
      for eta in range(1, d + 1):
        ctx.at("subspace of a large space", basis, shift, eta)
        got = select_subspace(space, eta)
        ctx.eq([w.word(x) for x in got], w.elements(basis[:eta]), "selected subspace", basis, shift, eta)
        ctx.state((w.q, tuple(basis), shift, eta))
      ctx.eq([w.word(x) for x in space], before, "space changed")
  ctx.trace()


def evaluation(ctx, mod):
  from starks.fri import eval_on_subspace
  w = World(mod)
  fam = [list(c) for c in itertools.product(range(w.q), repeat=2)]
  fam += [[(k * i * i + i + k) % w.q for i in range(n)] for n in (3, 4, 5, 8, 9, 10, 13, 17, 20) for k in range(3)]
  fam += [[0] * n + [1] for n in (7, 8, 9, 15, 16)]
  for basis in list(independent(w.q, 1))[:3] + list(independent(w.q, 2))[::9] + list(independent(w.q, 3))[::41]:
    els = w.elements(basis)
    for cs in fam:
      q = w.br.poly_to(w.F, cs)
      space = w.A(w.Z, [w.br.to(b) for b in basis])
      ctx.at("evaluation", basis, cs)
      got = eval_on_subspace(q, space)
      want = []
      for e in els:
        v = 0
        for c in reversed(cs):
          v = w.rf.add(w.rf.mul(v, e), c)
        want.append(v)
      ctx.eq([w.br.frm(v) for v in got], want, "values on a space", basis, cs)
      ctx.state((basis, tuple(cs)))
  ctx.trace()


def digest(label):
  return int(hashlib.sha384(label.encode()).hexdigest(), 16)


def challenge(br, mod, label):
  bits = [int(b) for b in bin(digest(label))[2:]]
  return br.rf.undigits((ref.pdivmod(ref.trim(bits), mod, 2)[1] + [0] * br.m)[:br.m])


def challenges(ctx, mod, labels):
  from starks.fri import select_random
  for mod in (mod,):
    br = env.ext_field(2, mod)
    seen = set()
    for i in range(labels):
      label = "round %d of %d" % (i, 7 * i)
      ctx.at("challenge", len(mod) - 1, label)
      x = select_random(br.F, label)
      v = br.frm(x)
      ctx.eq(br.frm(select_random(br.F, label)), v, "a second challenge differs", label)
      ctx.eq(v, challenge(br, mod, label), "challenge of a label", label)
      seen.add(v)
      ctx.state((len(mod), i))
    # the bits of the digest of the label, from the highest set one on, are the coefficients
    extra = [next(s for s in map(str, itertools.count()) if test(digest(s))) for test in (
        lambda n: n >> 383 and n & 1, lambda n: n >> 383 and not n & 1, lambda n: n < 1 << 378 and n & 1, lambda n: n < 1 << 376,
        lambda n: n & 0xff == 0, lambda n: n >> 376 == 0xff)]
    for label in ["", "a", "round 7", "x" * 200, "\u00e9\u4e2d", "commit 0 of 1"] + extra:
      ctx.at("challenge", len(mod) - 1, label)
      ctx.eq(br.frm(select_random(br.F, label)), challenge(br, mod, label), "challenge of a label", label)
      ctx.state((len(mod), label))
    ctx.check(len(seen) > min(br.q, labels) // 4, "challenges do not depend on the label", len(seen))
    ctx.trace()


def outcome(fn):
  try:
    return fn()
  except Exception as e:
    return e


def findings(ctx):
  with quick_challenges():
    broken(ctx)


def broken(ctx):
  from starks.fri import AffineSubspaceFRI
  w = World([1, 1, 0, 0, 1])
  f = w.P([0, 1])

  def good(r, n):
    return isinstance(r, list) and len(r) <= n and [w.br.frm(c) for c in r] == [0, 1]

  for basis in ((1, 2, 4, 8), (3, 5, 6, 8)):
    ctx.step()
    ctx.state(basis)
    r = outcome(lambda: AffineSubspaceFRI(w.br.F, w.space(basis), 1).commit(f))
    ctx.finding("commit-rounds", "committing on a space of dimension 4 or more (two rounds) fails", isinstance(r, list))
  for rho in (0.5, 0.25):
    for basis in ((1, 2, 4), (1, 2)):
      ctx.step()
      ctx.state((rho, basis))
      r = outcome(lambda: AffineSubspaceFRI(w.br.F, w.space(basis), rho).commit(f))
      ctx.finding("commit-rate", "committing at a rate below 1 fails", good(r, len(basis)))
  ctx.step()
  r = outcome(lambda: AffineSubspaceFRI(w.br.F, w.space((1,)), 1).commit(f))
  ctx.finding("commit-trivial", "committing on a space of fewer than 4 elements returns nothing", isinstance(r, list))
  for basis in ((1, 2), (2, 4), (3, 8)):
    for cs in itertools.product(range(2), repeat=3):
      g = w.P(list(cs))
      for draw in range(5):
        def run():
          fri = AffineSubspaceFRI(w.br.F, w.space(basis), 1)
          with env.source(env.Choices([draw, draw], horizon=8)):
            return fri.query([g], fri.commit(g))
        ctx.at("query", basis, cs, draw)
        ctx.step()
        ctx.state((basis, cs, draw))
        ctx.finding("query", "the query phase rejects honest commitments or fails on them", outcome(run) is True)
  ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  g8, g8b, g16 = [1, 1, 0, 1], [1, 0, 1, 1], [1, 1, 0, 0, 1]
  out = []
  for mod, basis in ((g8, (1, 2)), (g8b, (6, 3))):
    out += [("tables-%s-%d" % (basis, i), tables, dict(mod=mod, basis=basis, part=i, parts=4)) for i in range(4)]
  out += [("bases-8-2-%d" % i, bases, dict(mod=g8, d=2, part=i, parts=2)) for i in range(2)]
  out += [("bases-16-2-%d" % i, bases, dict(mod=g16, d=2, part=i, parts=8)) for i in range(8)]
  out += [("bases-8-3-%d" % i, bases, dict(mod=g8, d=3, part=i, parts=8)) for i in range(8)]
  if t:
    out += [("bases-16-3-%d" % i, bases, dict(mod=g16, d=3, part=i, parts=16)) for i in range(16)]
  out += [("odd-%d-%d" % (p, len(mod) - 1), odd, dict(p=p, mod=mod, d=d, every=1 if t else ev)) for p, mod, d, ev in (
      (3, [1, 0, 1], 2, 3), (3, [1, 2, 0, 1], 2, 29), (5, [2, 0, 1], 1, 3), (7, [1, 0, 1], 1, 5), (13, [11, 0, 1], 1, 17))]
  out += [("subspace-%d" % d, subspaces, dict(mod=g8, d=d)) for d in (1, 2, 3)]
  g256 = [1, 0, 1, 1, 1, 0, 0, 0, 1]
  out += [("subspace-large-%d" % d, large, dict(mod=g256, d=d)) for d in range(4, 9)]
  for mod in ([1, 1, 1], g8, g16, [1, 0, 0, 1] + [0] * 13 + [1]):
    out.append(("challenges-%d" % (len(mod) - 1), challenges, dict(mod=mod, labels=100 if t else 8)))
  return out + [("evaluation", evaluation, dict(mod=g8)), ("findings", findings, {})]
