import itertools

from mc import env, merkleref as mr

ID = "C14"
BOUNDS = {
    "lists": "every list of 4 leaves over 3 values and of 8 leaves over 2 values; every length 4..1024 that is a power "
             "of 2 with distinct, equal and periodic leaves; integers, field elements and byte strings",
    "deep": "trees of 4096 and 8192 distinct leaves (thorough 32768), every index",
    "range": "integers from -2^300 to 2^300 around the powers of two: those that do not fit in 32 bytes are refused, in every place of a list of 4",
    "indices": "every index of every one of those lists",
    "dependence": "every single leaf changed in every list length up to 64: the root changes",
    "bytes": "lists of 4 to 128 leaves of 32 to 100 bytes that differ in one byte only, at each place, in four patterns",
    "packing": "1 to 5 polynomials, 1 to 3 dimensions (up to 8 for up to 8 points), 4 to 32 points, prime and extension fields",
}


def leaf_bytes(x):
  return x.to_bytes(32, "big") if isinstance(x, int) else x if isinstance(x, bytes) else x.to_bytes()


def one(ctx, values, indices=None):
  from starks import merkle_tree as mt
  n = len(values)
  ctx.at("merkelize", n, values[:8])
  raw = [leaf_bytes(v) for v in values]
  arg = list(values)
  tree = mt.merkelize(arg)
  ctx.check(len(arg) == n and all(a is b for a, b in zip(arg, values)), "the list of leaves changed", n)
  lv = mr.levels(raw)
  ctx.eq(tree[1], lv[-1][0], "root", n, values[:8])
  ctx.eq(len(tree), 2 * n, "size of the tree", n)
  frozen = list(tree)
  for i in range(n) if indices is None else indices:
    ctx.at("branch", n, i)
    proof = mt.mk_branch(tree, i)
    pos, want = mr.position(i, n), [raw[i]]
    for row in lv[:-1]:
      want.append(row[pos ^ 1])
      pos //= 2
    ctx.eq(proof, want, "branch", n, i)
    keep = list(proof)
    ctx.eq(mt.verify_branch(tree[1], i, proof), raw[i], "verification returned another leaf", n, i)
    ctx.eq(mt.verify_branch(tree[1], i, proof, output_as_int=True), int.from_bytes(raw[i], "big"),
           "verification returned another number", n, i)
    ctx.eq(proof, keep, "the branch changed while it was verified", n, i)
  ctx.eq(tree, frozen, "the tree changed while branches were taken", n)
  ctx.state((n, tuple(raw)))
  ctx.outcome(tree[1][:4])
  ctx.trace()
  return tree[1]


def lists(ctx, n, alphabet):
  roots = {}
  for vs in itertools.product(range(alphabet), repeat=n):
    r = one(ctx, list(vs))
    ctx.check(roots.setdefault(r, vs) == vs, "two lists have one root", roots[r], vs)
  ctx.sample(n, alphabet, len(roots))


def lengths(ctx, n, kinds):
  z = env.prime_field(2**256 - 2**32 * 351 + 1)
  f9 = env.ext_field(3, [1, 0, 1])
  pats = {
      "int": [(i * i * 2654435761 + i) % 2**61 for i in range(n)],
      "same": [7] * n,
      "wide": [(1 << 256) - 1 - i for i in range(n)],
      "bytes": [bytes([i % 256, i // 256]) * 16 for i in range(n)],
      "short": [bytes([i % 256, i // 256]) for i in range(n)],
      "long": [bytes([i % 256, i // 256]) * 48 for i in range(n)],
      "period": [i % 3 for i in range(n)],
      "element": [z.to(i * i * i + 5) for i in range(n)],
      "pairs": [f9.F([1 + i % 2, 1 + i % 2]) for i in range(n)],
      "mixed": [i if i % 3 == 0 else (i).to_bytes(32, "big") if i % 3 == 1 else z.to(i) for i in range(n)],
  }
  for k in kinds or pats:
    one(ctx, pats[k])
    ctx.state((n, k))
  ctx.sample(n, sorted(kinds or pats))


def deep(ctx, n, step):
  """Every opening of a large tree, the nodes taken from a tree of our own."""
  from starks import merkle_tree as mt
  values = [(i * i * 2654435761 + i) % 2**61 for i in range(n)]
  raw = [leaf_bytes(v) for v in values]
  ctx.at("deep", n)
  tree = mt.merkelize(values)
  lv = mr.levels(raw)
  ctx.eq(tree[1], lv[-1][0], "root", n)
  for i in range(0, n, step):
    pos, want = mr.position(i, n), [raw[i]]
    for row in lv[:-1]:
      want.append(row[pos ^ 1])
      pos //= 2
    proof = mt.mk_branch(tree, i)
    ctx.eq(proof, want, "branch", n, i)
    ctx.eq(mt.verify_branch(tree[1], i, proof), raw[i], "verification returned another leaf", n, i)
    ctx.state((n, i))
  ctx.trace()


def outside(ctx):
  """A tree may only be made of integers that fit into a leaf: no two lists may share a root."""
  from starks import merkle_tree as mt
  ints = sorted({s * 2**k + d for k in (0, 8, 31, 64, 127, 255, 256, 257, 264, 300) for d in (-1, 0, 1) for s in (1, -1)})
  roots = {}
  for place in range(4):
    for v in ints:
      ctx.at("integer leaf", place, v)
      vs = [11, 12, 13, 14]
      vs[place] = v
      try:
        root = mt.merkelize(vs)[1]
      except (OverflowError, ValueError, AssertionError, TypeError):
        root = None
      if 0 <= v < 2**256:
        ctx.eq(root, mr.root([x.to_bytes(32, "big") for x in vs]), "root", vs)
      if root is not None:
        ctx.check(roots.setdefault(root, vs) == vs, "two lists have one root", vs, roots[root])
      ctx.state((place, v))
      ctx.outcome("refused" if root is None else "committed")
    ctx.trace()


def dependence(ctx, n):
  from starks import merkle_tree as mt
  base = [i * 31 + 7 for i in range(n)]
  roots = {mt.merkelize(base)[1]: "base"}
  for i in range(n):
    for delta in (1, 256, 1 << 255):
      vs = list(base)
      vs[i] ^= delta
      r = mt.merkelize(vs)[1]
      ctx.check(r not in roots, "the root does not depend on a leaf", n, i, delta, roots.get(r))
      roots[r] = (i, delta)
      ctx.state((n, i, delta))
    for j in range(i):
      vs = list(base)
      vs[i], vs[j] = vs[j], vs[i]
      r = mt.merkelize(vs)[1]
      ctx.check(r not in roots, "the root does not depend on the order of the leaves", n, i, j)
      roots[r] = (i, j)
      ctx.state((n, "swap", i, j))
    ctx.trace()


def bytewise(ctx, n, width):
  """Leaves that are alike but for one byte, at every place: the tree is that of the leaves."""
  base = int.from_bytes(bytes((i * 37 + 11) % 256 for i in range(width)), "big")
  roots = {}
  for k in range(width):
    for kind in ("all", "pairs", "halves", "last"):
      tags = [{"all": i, "pairs": i // 2, "halves": 2 * i // n, "last": i == n - 1}[kind] * 5 % 256 for i in range(n)]
      ints = [base ^ (t << 8 * k) for t in tags]
      ctx.at("bytewise", n, width, k, kind)
      raw = [x.to_bytes(width, "big") for x in ints]
      r = one(ctx, raw, (0, n // 2, n - 1))
      ctx.check(roots.setdefault(r, raw) == raw, "two lists have one root", raw, roots[r])
      if width == 32:
        ctx.eq(one(ctx, ints, (1, n - 1)), r, "root of integers", n, k, kind)


def permutation(ctx, top):
  from starks import merkle_tree as mt
  n = 4
  while n <= top:
    xs = list(range(n))
    out = mt.permute4(xs)
    ctx.eq(sorted(out), xs, "leaves lost or repeated", n)
    for i in range(n):
      ctx.eq(out[mt.get_index_in_permuted(i, n)], i, "place of a leaf", n, i)
      ctx.eq(mt.get_index_in_permuted(i, n), mr.position(i, n), "place of a leaf", n, i)
      ctx.state((n, i))
    ctx.trace()
    n *= 2


def packing(ctx, field, n, polys, dims):
  """Evaluations merkelized together: the leaf of an index holds exactly its values."""
  from starks import merkle_tree as mt
  br = env.prime_field(field) if isinstance(field, int) else env.ext_field(*field)
  cols = [[(31 * i + 7 * j + i * i * j + 1) % br.p for i in range(n)] for j in range(polys * dims)]
  evals = [[br.F(v) for v in c] for c in cols]
  if br.m > 1:  # two 32 byte words per value
    evals = [[br.F([0, 0]) + br.F([v, 1 + v % (br.p - 1)]) for v in c] for c in cols]
  ctx.at("packing", field, n, polys, dims)
  tree = mt.merkelize_polynomial_evaluations(dims, evals)
  raw = [b"".join(e[i].to_bytes() for e in evals) for i in range(n)]
  ctx.eq(tree[1], mr.root(raw), "root of the packed evaluations", field, n, polys, dims)
  for i in range(n):
    leaf = mt.verify_branch(tree[1], i, mt.mk_branch(tree, i))
    ctx.eq(leaf, raw[i], "packed leaf", n, i)
    if br.m == 1:
      vals = mt.unpack_merkle_leaf(leaf, dims, polys)
      ctx.eq(len(vals), dims * polys, "number of unpacked values", n, i)
      for k, v in enumerate(vals):
        ctx.eq(br.frm(br.F(v)), cols[k][i], "value unpacked from a leaf", n, i, k)
    ctx.state((str(field), n, polys, dims, i))
  ctx.trace()


def packings(ctx, field, n):
  for polys in (1, 2, 3, 5):
    for dims in (1, 2, 3) + ((4, 5, 6, 8) if n <= 8 else ()):
      packing(ctx, field, n, polys, dims)


def chunks(tier):
  t = tier == "thorough"
  out = [("lists-4", lists, dict(n=4, alphabet=5 if t else 3)), ("lists-8", lists, dict(n=8, alphabet=3 if t else 2))]
  for k in range(2, 13 if t else 11):
    out.append(("length-%d" % 2**k, lengths, dict(n=2**k, kinds=None if k <= 8 or t else ["int", "mixed"])))
  out += [("deep-%d" % n, deep, dict(n=n, step=1)) for n in ((2048, 4096, 8192, 32768) if t else (2048, 4096, 8192))]
  out.append(("outside", outside, {}))
  out += [("bytewise-%d-%d" % (n, w), bytewise, dict(n=n, width=w)) for n in (4, 8, 32, 128) for w in (32, 33, 64, 100)]
  out += [("dependence-%d" % n, dependence, dict(n=n)) for n in (4, 8, 16, 32, 64)]
  out.append(("permutation", permutation, dict(top=2**16 if t else 2**13)))
  for n in (4, 8, 16, 32):
    for nm, f in (("97", 97), ("big", 2**256 - 2**32 * 351 + 1), ("GF9", (3, [1, 0, 1]))):
      out.append(("packing-%s-%d" % (nm, n), packings, dict(field=f, n=n)))
  return out
