import itertools

from mc import env, merkleref as mr

ID = "C15"
BOUNDS = {
    "bits": "every bit of every component of every branch of trees of 4, 8 and 16 leaves; 8 bits of each component "
            "of 32 to 256 leaves (thorough: every bit up to 64 leaves)",
    "substitution": "every component replaced by every other node of the tree and by fixed values, every pair of "
                    "components exchanged, every component dropped, doubled or emptied, for 4 to 32 leaves",
    "index": "every branch presented for every other index (trees to 256 leaves; to 2048, thorough 8192, for the indices one bit or a regular distance away) and for every index outside the tree from -3n to 5n (to 128 leaves; far away ones beyond), every branch against every other tree of the family",
    "root": "every bit of the root (eight indices in trees of 64 to 1024, thorough 4096, leaves), and other roots",
    "deep": "all of bits and substitution for three branches of trees of 64 to 1024 (thorough 4096) leaves",
}


def rejected(ctx, mt, root, i, proof, what, *detail):
  ctx.step()
  try:
    r = mt.verify_branch(root, i, proof)
  except Exception as e:
    ctx.outcome(type(e).__name__)
    return
  ctx.fail("accepted: " + what, "returned " + repr(r), *detail)


def values(n):
  return [(i * 7919 + 13) * 0x10001 for i in range(n)]


def flip(b, k):
  return b[:k // 8] + bytes([b[k // 8] ^ (1 << k % 8)]) + b[k // 8 + 1:]


def setup(ctx, n):
  from starks import merkle_tree as mt
  vs = values(n)
  tree = mt.merkelize(list(vs))
  raw = [v.to_bytes(32, "big") for v in vs]
  proofs = [mt.mk_branch(tree, i) for i in range(n)]
  for i in range(n):
    ctx.eq(mt.verify_branch(tree[1], i, proofs[i]), raw[i], "an honest branch was not accepted", n, i)
    ctx.eq(mr.branch(raw, i) == proofs[i], True, "branch", n, i)
  return mt, tree, raw, proofs


def bits(ctx, n, all_bits, part, parts):
  mt, tree, raw, proofs = setup(ctx, n)
  ks = range(256) if all_bits else (0, 7, 8, 100, 128, 200, 248, 255)
  for i in range(part, n, parts):
    for c in range(len(proofs[i])):
      for k in ks:
        bad = list(proofs[i])
        bad[c] = flip(bad[c], k)
        ctx.at("bit", n, i, c, k)
        rejected(ctx, mt, tree[1], i, bad, "a branch with one bit flipped", n, i, c, k)
        ctx.state((n, i, c, k))
    ctx.trace()
  ctx.sample("n=%d, %d components, bits %s" % (n, len(proofs[0]), list(ks)[:9]))


def root_bits(ctx, n, every=1):
  mt, tree, raw, proofs = setup(ctx, n)
  for i in range(0, n, every):
    for k in range(256):
      rejected(ctx, mt, flip(tree[1], k), i, proofs[i], "a branch against another root", n, i, k)
      ctx.state((n, i, k))
    for other in (b"", tree[1][:31], tree[1] + b"\0", bytes(32), tree[2], tree[0], raw[i]):
      rejected(ctx, mt, other, i, proofs[i], "a branch against another root", n, i, other)
    ctx.trace()


def indices(ctx, n):
  mt, tree, raw, proofs = setup(ctx, n)
  for i in range(n):
    for j in range(n):
      if i != j:
        rejected(ctx, mt, tree[1], j, proofs[i], "a branch for another index", n, i, j)
        ctx.state((n, i, j))
    ctx.trace()


def substitution(ctx, n):
  mt, tree, raw, proofs = setup(ctx, n)
  pool = [x for x in tree[1:]] + [b"", bytes(32), b"\xff" * 32]
  for i in range(n):
    p = proofs[i]
    for c in range(len(p)):
      for x in pool:
        if x != p[c]:
          bad = list(p)
          bad[c] = x
          rejected(ctx, mt, tree[1], i, bad, "a branch with a component replaced", n, i, c, x)
          ctx.state((n, i, c, x))
      for x in (p[c][:31], p[c] + b"\0", b"\0" + p[c], p[c] + p[c]):
        bad = list(p)
        bad[c] = x
        rejected(ctx, mt, tree[1], i, bad, "a branch with a component resized", n, i, c, x)
      rejected(ctx, mt, tree[1], i, p[:c] + p[c + 1:], "a branch with a component dropped", n, i, c)
      rejected(ctx, mt, tree[1], i, p[:c] + [p[c]] + p[c:], "a branch with a component doubled", n, i, c)
      for d in range(c):
        if p[c] != p[d]:
          bad = list(p)
          bad[c], bad[d] = bad[d], bad[c]
          if d == 0 and c == 1:
            # exchanging the two leaves opens the sibling's index, not this one
            pass
          rejected(ctx, mt, tree[1], i, bad, "a branch with two components exchanged", n, i, c, d)
          ctx.state((n, i, c, d))
    rejected(ctx, mt, tree[1], i, [], "an empty branch", n, i)
    ctx.trace()


def other_trees(ctx, n):
  """Branches of one list against the root of another that differs in one leaf."""
  mt, tree, raw, proofs = setup(ctx, n)
  for k in range(n):
    vs = values(n)
    vs[k] += 1
    r = mt.merkelize(vs)[1]
    for i in range(n):
      rejected(ctx, mt, r, i, proofs[i], "a branch of another list", n, k, i)
      ctx.state((n, k, i))
    ctx.trace()


def packed(ctx, n):
  """Every byte of a packed leaf is bound."""
  from starks import merkle_tree as mt
  br = env.prime_field(2**256 - 2**32 * 351 + 1)
  evals = [[br.to((i + 3) * 101**(j + 2)) for i in range(n)] for j in range(3)]
  tree = mt.merkelize_polynomial_evaluations(1, evals)
  for i in range(n):
    p = mt.mk_branch(tree, i)
    ctx.eq(len(p[0]), 96, "width of a packed leaf")
    for k in range(0, 8 * 96, 5):
      rejected(ctx, mt, tree[1], i, [flip(p[0], k)] + p[1:], "a packed leaf with one bit flipped", n, i, k)
      ctx.state((n, i, k))
    words = [p[0][:32], p[0][32:64], p[0][64:]]
    for perm in itertools.permutations(words):
      if list(perm) != words:
        rejected(ctx, mt, tree[1], i, [b"".join(perm)] + p[1:], "a packed leaf with values exchanged", n, i)
    for other in range(n):
      if other != i:
        q = mt.mk_branch(tree, other)
        for w in range(3):
          mixed = list(words)
          mixed[w] = q[0][32 * w:32 * w + 32]
          rejected(ctx, mt, tree[1], i, [b"".join(mixed)] + p[1:], "a packed leaf with a value of another index", n, i)
    ctx.trace()


def outside(ctx, n):
  """No branch is opened or accepted at an index the tree does not have."""
  mt, tree, raw, proofs = setup(ctx, n)
  beyond = [i for i in range(-3 * n, 5 * n) if not 0 <= i < n] if n <= 128 else [-n, -1, n, n + 1, 2 * n, 5 * n // 4]
  beyond += [2**32, 2**64 + 1, -2**32]
  every = 1 if n <= 16 else n // 8 + 1 if n <= 128 else 1
  for i in beyond:
    for j in sorted(set(range(0, n, every)) | {i % n, (i % n) ^ 1, mt.permute4(list(range(n)))[i % n]}):
      ctx.at("outside", n, i, j)
      rejected(ctx, mt, tree[1], i, proofs[j], "a branch for an index outside the tree", n, i, j)
      ctx.state((n, i, j))
    ctx.raises(lambda: mt.mk_branch(tree, i), Exception, "a branch opened outside the tree", n, i)
    ctx.trace()


def far_indices(ctx, n, every):
  """Branches of a large tree at all indices that are congruent or near, and at indices outside the tree."""
  mt, tree, raw, proofs = setup(ctx, n)
  for i in range(0, n, every):
    others = {i ^ (1 << k) for k in range(n.bit_length() - 1)} | {(i + d) % n for d in (1, 2, 4, n // 4, n // 2, 3 * n // 4, n - 1)} | {n - 1 - i}
    for j in sorted(others - {i}):
      ctx.at("index", n, i, j)
      rejected(ctx, mt, tree[1], j, proofs[i], "a branch of another index", n, i, j)
      ctx.state((n, i, j))
    ctx.trace()


def deep(ctx, n):
  """Every bit of every component, and every loss, doubling, exchange and replacement of components, in a few branches of a large tree."""
  mt, tree, raw, proofs = setup(ctx, n)
  for i in (0, n // 2 - 1, n - 2):
    good = proofs[i]
    for c in range(len(good)):
      bad = [(("bit", k), flip(good[c], k)) for k in range(256)]
      bad += [("longer", good[c] + b"\0"), ("before", b"\0" + good[c]), ("short", good[c][:31] + b""), ("rest", good[c][1:]),
              ("reversed", good[c][::-1]), ("zero", bytes(32)), ("empty", b""), ("root", tree[1]), ("sibling", proofs[i ^ 1][c])]
      for name, b in bad:
        if b == good[c]:
          continue
        ctx.at("component", n, i, c, name)
        changed = good[:c] + [b] + good[c + 1:]
        try:
          r = mt.verify_branch(tree[1], i, changed)
        except Exception as e:
          ctx.outcome(type(e).__name__)
          continue
        ctx.eq(r, raw[i], "a changed branch yields another value", n, i, c, name)
        ctx.check(name in ("longer", "before", "short", "rest"), "accepted: a branch with a changed component", n, i, c, name)
        ctx.state((n, i, c, name))
      rejected(ctx, mt, tree[1], i, good[:c] + good[c + 1:], "a branch without a component", n, i, c)
      rejected(ctx, mt, tree[1], i, good[:c + 1] + good[c:], "a branch with a component doubled", n, i, c)
      for d in range(c):
        swapped = list(good)
        swapped[c], swapped[d] = swapped[d], swapped[c]
        if swapped != good:
          rejected(ctx, mt, tree[1], i, swapped, "a branch with two components exchanged", n, i, c, d)
    ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = []
  for n in (4, 8, 16, 32, 64, 128, 256):
    parts = 4 if n >= 16 else 1
    for k in range(parts):
      out.append(("bits-%d-%d" % (n, k), bits, dict(n=n, all_bits=n <= (64 if t else 16), part=k, parts=parts)))
  for n in (4, 8, 16, 32):
    out += [("substitution-%d" % n, substitution, dict(n=n)), ("root-%d" % n, root_bits, dict(n=n)),
            ("trees-%d" % n, other_trees, dict(n=n)), ("packed-%d" % n, packed, dict(n=n))]
  out += [("root-%d" % n, root_bits, dict(n=n, every=n // 8 + 1)) for n in (64, 128, 256, 512, 1024) + ((2048, 4096) if t else ())]
  out += [("deep-%d" % n, deep, dict(n=n)) for n in (64, 128, 256, 512, 1024) + ((2048, 4096) if t else ())]
  out += [("indices-%d" % n, indices, dict(n=n)) for n in (4, 8, 16, 64, 256)]
  out += [("outside-%d" % n, outside, dict(n=n)) for n in (4, 8, 16, 32, 64, 128, 1024)]
  out += [("far-%d" % n, far_indices, dict(n=n, every=1 if n <= 1024 or t else n // 512)) for n in (512, 1024, 2048) + ((4096, 8192) if t else ())]
  return out
