import itertools

from mc import env
from mc.c04 import bridge

ID = "C31"
BOUNDS = {
    "complete": "every system, singular ones included, of 1 and 2 unknowns over Z/2, Z/3, Z/5, GF(4) and of 3 unknowns over Z/2, every right "
                "hand side (3 unknowns over Z/3: stride 7, 4 unknowns over Z/2: stride 23; thorough every matrix)",
    "patterns": "every placement of zeros in 3 x 3 matrices over Z/7 and GF(8), a stride of those in 4 x 4 over Z/5 and GF(9)",
    "shapes": "permutation, triangular, Vandermonde and nearly singular matrices of 3 to 17 (thorough 33) unknowns over Z/2, Z/3, Z/7, GF(8), "
              "GF(9), Z/101 and a 256 bit prime",
}


def rank_solve(rf, rows):
  """The unique solution of an augmented system, or None."""
  rows = [list(r) for r in rows]
  n = len(rows)
  for i in range(n):
    k = next((k for k in range(i, n) if rows[k][i]), None)
    if k is None:
      return None
    rows[i], rows[k] = rows[k], rows[i]
    inv = rf.inv(rows[i][i])
    rows[i] = [rf.mul(inv, a) for a in rows[i]]
    for j in range(n):
      if j != i and rows[j][i]:
        c = rows[j][i]
        rows[j] = [rf.sub(a, rf.mul(c, b)) for a, b in zip(rows[j], rows[i])]
  return [r[n] for r in rows]


def system(ctx, br, rows):
  from starks.poly_utils import gauss
  want = rank_solve(br.rf, rows)
  ctx.at("system", br.F.__name__, rows)
  M = [[br.to(a) for a in r] for r in rows]
  if want is None:
    ctx.raises(lambda: gauss(M, len(rows), br.F), Exception, "a singular system is answered", rows)
    return False
  got = gauss(M, len(rows), br.F)
  ctx.eq([br.frm_any(x) for x in got], want, "solution", rows)
  ctx.state((br.q, repr(rows)))
  return True


def complete(ctx, field, n, part, parts, stride=1):
  br = bridge(field)
  q = br.q
  k = 0
  for i, cells in enumerate(itertools.product(range(q), repeat=n * n)):
    if i % stride or i // stride % parts != part:
      continue
    mat = [list(cells[r * n:r * n + n]) for r in range(n)]
    for rhs in itertools.product(range(q), repeat=n):
      k += system(ctx, br, [r + [b] for r, b in zip(mat, rhs)])
  ctx.outcome(k)
  ctx.trace()
  ctx.sample(field, n, k)


def patterns(ctx, field, n, part, parts, stride):
  """Every placement of zeros in a matrix, the other entries all different."""
  br = bridge(field)
  q = br.q
  k = 0
  for i in range(part * stride, 2**(n * n), parts * stride):
    for fill in (lambda c: c * c % (q - 1) + 1, lambda c: (c * 5 + 2) % (q - 1) + 1):
      rows = [[fill(r * n + c) if i >> (r * n + c) & 1 else 0 for c in range(n)] + [(3 * r + i) % q] for r in range(n)]
      k += system(ctx, br, rows)
  ctx.outcome(k)
  ctx.trace()
  ctx.sample(field, n, k)


def shapes(ctx, field, n):
  br = bridge(field)
  rf, q = br.rf, br.q
  rhs = [(5 * i * i + 2 * i + 1) % q for i in range(n)]
  mats = []
  if n <= 8:
    perms = list(itertools.permutations(range(n)))
  else:  # rotations, both ways, and exchanges
    perms = [tuple((d * i + s) % n for i in range(n)) for d in (1, -1) for s in range(n)]
    perms += [tuple({0: k, k: 0}.get(i, i) for i in range(n)) for k in range(1, n)]
  for p in perms if n <= 4 else perms[::len(perms) // 40 or 1]:
    mats.append([[int(j == p[i]) for j in range(n)] for i in range(n)])
    mats.append([[(1 + i) % (q - 1) + 1 if j == p[i] else int(j < p[i] and (i + j) % 3 == 0) for j in range(n)] for i in range(n)])
  up = [[(i * j + 1) % q if j > i else int(i == j) for j in range(n)] for i in range(n)]
  mats += [up, [r[::-1] for r in up], up[::-1], [list(c) for c in zip(*up)]]
  if q > n:
    for base in (0, 1, q - n):
      mats.append([[rf.pow((base + i) % q, j) if j else 1 for j in range(n)] for i in range(n)])
  for i in range(n - 1):  # rows that become equal but for the last column
    m = [[int(a == b) for b in range(n)] for a in range(n)]
    m[i] = [1] * n
    m[i + 1] = [1] * (n - 1) + [0]
    mats.append(m)
  k = 0
  for m in mats:
    for b in (rhs, [0] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [q - 1]):
      k += system(ctx, br, [r + [x] for r, x in zip(m, b)])
  ctx.outcome(k)
  ctx.check(k > 0, "no nonsingular system")
  ctx.trace()


GF4, GF8, GF9 = (2, [1, 1, 1]), (2, [1, 1, 0, 1]), (3, [1, 0, 1])
BIG = 2**256 - 2**32 * 351 + 1


def chunks(tier):
  t = tier == "thorough"
  out = []
  for name, f, n, parts, stride in (("2", 2, 1, 1, 1), ("3", 3, 1, 1, 1), ("5", 5, 1, 1, 1), ("GF4", GF4, 1, 1, 1), ("2", 2, 2, 1, 1),
                                    ("3", 3, 2, 1, 1), ("5", 5, 2, 8, 1), ("GF4", GF4, 2, 8, 1), ("2", 2, 3, 2, 1),
                                    ("3", 3, 3, 16 if t else 8, 1 if t else 7),
                                    ("2", 2, 4, 16 if t else 8, 1 if t else 23)):
    out += [("complete-%s-%d-%d" % (name, n, i), complete, dict(field=f, n=n, part=i, parts=parts, stride=stride)) for i in range(parts)]
  for name, f in (("2", 2), ("3", 3), ("7", 7), ("GF8", GF8), ("GF9", GF9), ("101", 101), ("256", BIG)):
    for n in list(range(3, 9)) + [10, 12, 16, 17] + ([24, 33] if t else []):
      out.append(("shapes-%s-%d" % (name, n), shapes, dict(field=f, n=n)))
  for name, f, n, parts, stride in (("7", 7, 3, 1, 1), ("GF8", GF8, 3, 1, 1), ("5", 5, 4, 8, 1 if t else 7), ("GF9", GF9, 4, 8, 3 if t else 29)):
    out += [("patterns-%s-%d-%d" % (name, n, i), patterns, dict(field=f, n=n, part=i, parts=parts, stride=stride)) for i in range(parts)]
  return out
