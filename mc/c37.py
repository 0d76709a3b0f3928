import itertools

from mc import env, ref
from mc.c04 import PB

ID = "C37"
BOUNDS = {
    "boundaries": "every set of constrained cells of tables of 3 steps with 1 and 2 registers, every set of at most 2 (thorough 3) cells of 3 x 3 and "
                  "7 x 2, families on 15 to 127 (255) steps with up to 4 registers; required values from three families; both orders of the list",
    "polynomials": "every answer to the random draws that propose the primitive polynomial, for 3, 7 and 15 steps (31 in the thorough tier)",
    "parameters": "constraint degrees 1..5, 8, 9 and zero knowledge expansions 0..6",
    "fields": "GF(2^17), GF(2^20) and GF(2^24), two moduli of the first",
}
ASSUMPTIONS = ["The AIR given to the reduction is a record with the documented fields, since the AIR class takes only computations of 511 steps.",
               "The constraint polynomials Phi and the witness of the reduction are placeholders in the code (TODO); no claim covers them."]

MODS = {17: [1, 0, 0, 1] + [0] * 13 + [1], 170: [1, 0, 0, 0, 0, 1] + [0] * 11 + [1], 20: [1, 0, 0, 1] + [0] * 16 + [1],
        24: [1, 1, 1, 0, 0, 0, 0, 1] + [0] * 16 + [1]}


class Air:
  """The fields of an AIR the reduction reads."""

  def __init__(self, br, width, steps, B, degree=1, polys=()):
    self.field = self.F = br.F
    self.width = self.w = width
    self.steps = self.T = steps
    self.B = [(i, j, br.to(a)) for i, j, a in B]
    self.CDegree, self.Polys, self.C = degree, list(polys), True
    self.t = steps.bit_length()
    self.d = max(1, degree.bit_length())
    self.step_polys, self.inp, self.extension_factor = [], [br.to(0)] * width, 8
    self.computational_trace = [[br.to((5 * i + 3 * j) % 7) for j in range(width)] for i in range(steps)]
    self.output = self.computational_trace[-1]

  def generate_witness(self):
    return [[row[j] for row in self.computational_trace] for j in range(self.width)]


def bits(f):
  """A polynomial over Z/2 or an element of a binary field, as an integer."""
  c = f.poly.coefficients if hasattr(f, "poly") else f.coefficients if hasattr(f, "coefficients") else [f]
  return sum((int(b) % 2) << i for i, b in enumerate(c))


def mulx(a, zeta):
  a <<= 1
  return a ^ zeta if a >> (zeta.bit_length() - 1) & 1 else a


def rank(vs):
  basis = []
  for v in vs:
    for b in basis:
      v = min(v, v ^ b)
    if v:
      basis.append(v)
  return len(basis)


def outside(v, vs):
  return rank(list(vs) + [v]) == rank(vs) + 1


def reduce_(br, width, steps, B, degree, zk):
  from starks.apr import APR
  air = Air(br, width, steps, B, degree)
  return APR(air) if zk is None else APR(air, zk)


def judge(ctx, br, pb, apr, width, steps, B, degree, zk):
  rf = br.rf
  t = steps.bit_length()
  zeta = bits(apr.zeta)
  ctx.eq(zeta.bit_length() - 1, t, "degree of the polynomial that orders the rows", steps)
  row, a = [], 1
  for _ in range(steps):
    row.append(a)
    a = mulx(a, zeta)
  ctx.eq(sorted(row), list(range(1, 1 << t)), "rows visited by the powers of g", steps, bin(zeta))
  # the affine spaces
  for _ in range(2):
    H, H0, H1 = ([bits(x) for x in S] for S in (apr.H, apr.H0, apr.H1))
    ctx.eq(sorted(H), list(range(1 << t)), "H", steps)
    ctx.eq(sorted(H0 + H1), sorted(H), "H0 and H1 partition H", steps)
    ctx.eq((len(apr.H), len(apr.H0), len(apr.H1)), (1 << t, 1 << t - 1, 1 << t - 1), "sizes", steps)
    ctx.check(0 in H0 and len(H0) == len(H1), "H0 is the linear half", steps)
  # the neighbours
  nb = {}
  for tau, n in apr.Nbrs:
    nb.setdefault(tau, []).append(n)
  ctx.eq(sorted(nb), list(range(width)), "registers with neighbours", width)
  ctx.eq(list(apr.Tau), list(range(width)), "registers", width)
  for tau, ns in nb.items():
    ctx.eq(sorted(pb.frm(n) for n in ns), sorted([[0, 1], [0, 2], [zeta, 2]]), "neighbours", tau, bin(zeta))
    by = {tuple(pb.frm(n)): n for n in ns}
    for i, x in enumerate(row):
      nxt = row[(i + 1) % steps]
      n = by[(0, 2)] if x in H0 else by[(zeta, 2)]
      ctx.eq(br.frm(n(br.to(x))), nxt, "the cyclic neighbour leads to the next row", i, bin(zeta))
      ctx.eq(br.frm(by[(0, 1)](br.to(x))), x, "the neighbour that stays", i)
  # the boundary polynomials
  ctx.eq((len(apr.Z_boundaries), len(apr.Eps_boundaries)), (width, width), "one boundary polynomial per register")
  counts = []
  for j in range(width):
    cells = {i: al for i, jj, al in B if jj == j}
    counts.append(len(cells))
    Z = apr.Z_boundaries[j]
    ctx.eq(pb.frm(Z), rf.pfromroots([row[i] for i in sorted(cells)]), "vanishing polynomial of the register's constraints", j, B)
    E = apr.Eps_boundaries[j]
    ctx.check(len(pb.frm(E)) <= max(1, len(cells)) and (cells or not pb.frm(E)), "degree of the interpolant", j, B)
    for i in range(steps):
      ctx.check((br.frm(Z(br.to(row[i]))) == 0) is (i in cells), "zeros of the vanishing polynomial", i, j, B)
    for i, al in cells.items():
      ctx.eq(br.frm(E(br.to(row[i]))), al, "value required by a constraint", i, j, B)
  # evaluation domains and rates
  k = 5 if zk is None else zk
  d = apr.d
  ctx.eq((apr.t, apr.k), (t, k), "parameters", steps, zk)
  ctx.check(degree <= 1 << d <= 2 * degree, "2^d bounds the constraint degree", degree, d)
  n = 1 + k + t + d + apr.R
  for nm, S, dim in (("L", apr.L, n + 1), ("Lcmp", apr.Lcmp, n)):
    vs, sh = [bits(b) for b in S.basis], bits(S.shift)
    ctx.eq(rank(vs), dim, "dimension of " + nm, k, t, d)
    ctx.eq(len(vs), dim, "size of the basis of " + nm)
    ctx.eq(S.__len__(), 1 << dim, "size of " + nm, "as a space over Z/2")
    ctx.check(all(outside(sh, vs) for _ in "1"), nm + " contains zero", vs, sh)
    ctx.eq(rank(vs + [sh] + [1 << i for i in range(t)]), rank(vs) + 1, nm + " meets H")
  ctx.eq(rank([bits(b) for b in apr.L.basis + apr.Lcmp.basis]), n + 1, "the direction of Lcmp lies in that of L")
  ctx.check(len(apr.rho_js) == width, "one rate per register")
  for j in range(width):
    ctx.eq(apr.rho_js[j] * (1 << n + 1), 2**(k + t) - counts[j], "rate of a register", j, B)
    ctx.check(0 < apr.rho_js[j] < 1, "a rate lies between 0 and 1")
  ctx.eq(apr.rho_cmp * (1 << n), 1 + 2**(k + t + d), "rate of the composition", k, t, d)
  ctx.eq([(i, j, br.frm(a)) for i, j, a in apr.air.B], [(i, j, a) for i, j, a in B], "constraints changed")
  ctx.state((br.m, width, steps, tuple(B), degree, zk, zeta))
  ctx.trace()


def values(br, cells, fam):
  q = br.q
  return [(i, j, [lambda: 0, lambda: 1, lambda: (i * 37 + j * 1009 + 5) * 7919 % q][fam]()) for i, j in cells]


def one(ctx, br, pb, width, steps, B, degree=1, zk=None):
  ctx.at("reduction", br.m, width, steps, B, degree, zk)
  with env.source(env.Odometer(1)):
    apr = reduce_(br, width, steps, B, degree, zk)
  judge(ctx, br, pb, apr, width, steps, B, degree, zk)


def boundaries(ctx, m, width, steps, most, fams, flip):
  br = env.ext_field(2, MODS[m])
  pb = PB(br)
  cells = [(i, j) for i in range(steps) for j in range(width)]
  for r in range(most + 1):
    for sub in itertools.combinations(cells, r):
      for fam in fams if r else fams[:1]:
        B = values(br, sub, fam)
        one(ctx, br, pb, width, steps, B)
        if flip and r > 1:
          one(ctx, br, pb, width, steps, B[::-1])
  ctx.sample(width, steps, most)


def families(ctx, m, width, steps):
  br = env.ext_field(2, MODS[m])
  pb = PB(br)
  for cells in ([(0, j) for j in range(width)], [(steps - 1, j) for j in range(width)],
                [(i, j) for j in range(width) for i in (0, steps - 1)], [(i, 0) for i in range(steps)][:9], [(i, width - 1) for i in range(0, steps, 3)],
                [((3 * j) % steps, j) for j in range(width)], [(i, (i * i + 1) % width) for i in range(min(steps, 8))]):
    for fam in (1, 2):
      one(ctx, br, pb, width, steps, values(br, cells, fam))


def tall(ctx, m, width, steps, part, parts):
  """Many rows: constraints around the powers of two, in the middle and at the end."""
  br = env.ext_field(2, MODS[m])
  pb = PB(br)
  rows = sorted({i for k in range(steps.bit_length()) for i in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {steps // 3, steps - 2, steps - 1})
  rows = [i for i in rows if i < steps]
  sets = [[(i, 0) for i in rows], [(i, i % width) for i in rows], [(i, j) for j in range(width) for i in rows[-6:]],
          [(rows[-1 - j], j) for j in range(width)], [(i, width - 1) for i in range(steps // 2 - 5, steps // 2 + 6)]]
  for cells in sets[part::parts]:
    one(ctx, br, pb, width, steps, values(br, cells, 2))


def parameters(ctx, m, steps):
  br = env.ext_field(2, MODS[m])
  pb = PB(br)
  for degree in (1, 2, 3, 4, 5, 8, 9):
    for zk in (None, 0, 1, 2, 3, 4, 6):
      one(ctx, br, pb, 2, steps, values(br, [(0, 0), (0, 1), (steps - 1, 1)], 2), degree, zk)


def draws(ctx, m, steps, room):
  br = env.ext_field(2, MODS[m])
  pb = PB(br)
  B = values(br, [(0, 0), (1, 0), (steps - 1, 1)], 2)
  seen = set()

  def run(src):
    apr = reduce_(br, 2, steps, B, 1, None)
    judge(ctx, br, pb, apr, 2, steps, B, 1, None)
    seen.add(bits(apr.zeta))
    ctx.state((steps, tuple(src.taken)))

  env.explore_lead(run, room)
  ctx.sample(steps, sorted(map(bin, seen)))


def chunks(tier):
  t = tier == "thorough"
  out = [("boundaries-3x1", boundaries, dict(m=17, width=1, steps=3, most=3, fams=(0, 1, 2), flip=True)),
         ("boundaries-3x2", boundaries, dict(m=17, width=2, steps=3, most=6, fams=(1, 2), flip=False)),
         ("boundaries-3x3", boundaries, dict(m=170, width=3, steps=3, most=3 if t else 2, fams=(0, 2), flip=True)),
         ("boundaries-7x2", boundaries, dict(m=17, width=2, steps=7, most=3 if t else 2, fams=(2,), flip=t)),
         ("boundaries-7x1", boundaries, dict(m=20, width=1, steps=7, most=7 if t else 4, fams=(2,), flip=False))]
  for m, w, s in ((20, 1, 15), (20, 3, 15), (24, 4, 15), (24, 2, 31), (20, 4, 7), (170, 5, 3)):
    out.append(("families-%d-%d-%d" % (m, s, w), families, dict(m=m, width=w, steps=s)))
  out += [("tall-%d-%d-%d" % (s, w, i), tall, dict(m=24, width=w, steps=s, part=i, parts=5))
          for s, w in ((63, 2), (127, 2)) + (((255, 1),) if t else ()) for i in range(5)]
  out += [("parameters-%d-%d" % (m, s), parameters, dict(m=m, steps=s)) for m, s in ((24, 3), (24, 7), (24, 15))[:3 if t else 2]]
  out += [("draws-%d" % s, draws, dict(m=20, steps=s, room=r)) for s, r in ((3, 64), (7, 64), (15, 256)) + (((31, 1024),) if t else ())]
  return out
