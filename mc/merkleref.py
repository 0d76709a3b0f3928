"""Merkle tree of the documented shape, from hashlib and plain lists."""
from hashlib import blake2s


def h(x):
  return blake2s(x).digest()


def position(i, n):
  """Where the i-th value sits among the leaves: quarters are interleaved."""
  return (i % (n // 4)) * 4 + i // (n // 4)


def levels(leaves):
  """Levels of the tree from the leaves (already bytes) up to [root]."""
  n = len(leaves)
  row = [None] * n
  for i, x in enumerate(leaves):
    row[position(i, n)] = x
  out = [row]
  while len(row) > 1:
    row = [h(row[i] + row[i + 1]) for i in range(0, len(row), 2)]
    out.append(row)
  return out


def root(leaves):
  return levels(leaves)[-1][0]


def branch(leaves, i):
  pos = position(i, len(leaves))
  out, lv = [], levels(leaves)
  out.append(lv[0][pos])
  for row in lv[:-1]:
    out.append(row[pos ^ 1])
    pos //= 2
  return out
