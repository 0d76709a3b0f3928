"""Reference STARK in plain integers, and the stand-in for the proximity prover
that starks.stark imports but starks.fri does not provide."""
from mc import env, ref, merkleref
from mc.c06 import MB
from mc.c17 import stretch, index


class FRI:
  """Proof of low degree by giving all the values."""

  def __init__(self, field):
    self.p = field.p

  def generate_proximity_proof(self, f, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0, **kw):
    r, g = int(root_of_unity), 1
    cs, vals = [int(c) for c in f.coefficients], []
    for _ in range(order(r, self.p)):
      vals.append(peval(cs, g, self.p))
      g = g * r % self.p
    return [[v.to_bytes(32, "big") for v in vals]]

  def verify_proximity_proof(self, proof, merkle_root, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0, **kw):
    r = int(root_of_unity)
    (vals,) = proof
    assert len(vals) == order(r, self.p)
    assert merkleref.root(vals) == merkle_root
    cs = idft([int.from_bytes(v, "big") for v in vals], r, self.p)
    assert len(cs) <= maxdeg_plus_1
    return True


def load():
  import starks.fri
  if not hasattr(starks.fri, "FRI"):
    starks.fri.FRI = FRI
  import starks.stark
  starks.stark.FRI = FRI
  return starks.stark


def importable():
  """Whether the module can be used without the stand-in."""
  import starks.fri
  return hasattr(starks.fri, "FRI")


def order(r, p):
  n, x = 1, r
  while x != 1:
    n, x = n + 1, x * r % p
  return n


def peval(cs, x, p):
  v = 0
  for c in reversed(cs):
    v = (v * x + c) % p
  return v


def idft(vals, r, p):
  """The polynomial with these values at 1, r, r^2, ..."""
  n = len(vals)
  inv, ri = pow(n, -1, p), pow(r, -1, p)
  return ref.trim([peval(vals, pow(ri, k, p), p) * inv % p for k in range(n)])


def shift(cs, g, p):
  """f(g x)"""
  return [c * pow(g, i, p) % p for i, c in enumerate(cs)]


def compose(poly, args, p):
  """A multivariate polynomial at univariate ones."""
  out = []
  for k, c in poly.items():
    t = [c]
    for e, a in zip(k, args):
      for _ in range(e):
        t = ref.pmul(t, a, p)
    out = ref.padd(out, t, p)
  return out


class Instance:
  """A computation and everything an honest prover derives from it."""

  def __init__(self, p, steps, ext, polys, inp):
    self.p, self.steps, self.ext, self.polys, self.inp = p, steps, ext, polys, inp
    self.w = len(polys)
    self.n = steps * ext
    g = 7
    while pow(g, (p - 1) // 2, p) != p - 1:
      g += 1  # in a field where 7 is a square it has no roots of full order
    self.g2 = pow(g, (p - 1) // self.n, p)
    self.g1 = pow(self.g2, ext, p)
    self.last = pow(self.g1, steps - 1, p)
    self.degree = max(sum(k) for q in polys for k in q)
    tr = [list(inp)]
    rf = ref.RF(p)
    for _ in range(steps - 1):
      tr.append([ref.meval(rf, q, tr[-1]) for q in polys])
    self.witness = [[s[j] for s in tr] for j in range(self.w)]

  def derive(self, witness=None):
    """P, C, D with remainder, B, from a witness (honest by default)."""
    p = self.p
    wit = self.witness if witness is None else witness
    P = [idft(row, self.g1, p) for row in wit]
    C = [ref.psub(shift(a, self.g1, p), compose(q, P, p), p) for a, q in zip(P, self.polys)]
    z = ref.pdivmod([p - 1] + [0] * (self.steps - 1) + [1], [-self.last % p, 1], p)[0]
    D = [ref.pdivmod(c, z, p) for c in C]
    q = ref.pmul([p - 1, 1], [-self.last % p, 1], p)
    B = []
    for j in range(self.w):
      y0, y1 = self.inp[j], wit[j][-1]
      slope = (y1 - y0) * pow(self.last - 1, -1, p) % p
      I = [(y0 - slope) % p, slope]
      B.append(ref.pdivmod(ref.psub(P[j], I, p), q, p))
    return P, C, D, B, z

  def positions(self, l_root, samples):
    return [index(x, self.n, self.ext) for x in stretch(l_root, samples)]


def stark_of(inst, samples=80):
  S = load()
  br = env.prime_field(inst.p)
  mb = MB(br, inst.w)
  steps = [mb.to(q) for q in inst.polys]
  if samples == 80:
    s = S.STARK(br.F, inst.steps, inst.ext, inst.w, steps)
  else:
    s = S.STARK(br.F, inst.steps, inst.ext, inst.w, steps, samples)
  return S, br, mb, steps, s


def rows(br, witness):
  return [[br.to(a) for a in row] for row in witness]


def boundary_of(br, inp):
  return [(0, j, br.to(a)) for j, a in enumerate(inp)]


def build(inst, P, D, B, lvals, samples=80, patch=None):
  """A proof made from these values at the powers of g2 (lists per register)."""
  n = inst.n
  leaves = [b"".join(vals[i].to_bytes(32, "big") for vals in P + D + B) for i in range(n)]
  if patch:
    patch(leaves)
  lleaves = [v.to_bytes(32, "big") for v in lvals]
  mroot, lroot = merkleref.root(leaves), merkleref.root(lleaves)
  branches = []
  cache = {}

  def br(which, i):
    if (which, i) not in cache:
      cache[which, i] = merkleref.branch(leaves if which == 0 else lleaves, i)
    return cache[which, i]

  pos = inst.positions(lroot, samples)
  for x in pos:
    branches += [br(0, x), br(0, (x + inst.ext) % n), br(1, x)]
  return [mroot, lroot, branches, [lleaves]], pos


def values(cs, inst):
  return [peval(cs, pow(inst.g2, i, inst.p), inst.p) for i in range(inst.n)]
