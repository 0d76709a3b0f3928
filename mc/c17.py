from hashlib import blake2s

from mc import env

ID = "C17"
BOUNDS = {
    "map": "every residue the sampled words can have, for every modulus to 64 and every excluded stride 2..modulus "
           "(thorough to 160), and without exclusion",
    "words": "boundary words 0, 1, 2^31, 2^32-1 and carries, moduli 2^k and 3*2^k to 2^23",
    "mutable": "entropies of 0 to 70 bytes given as bytearrays, three times each, counts to 40: the same indices, and the entropy unchanged",
    "counts": "counts 0..100 from entropy of 1 to 100 bytes, extended by hashing",
}


def stretch(entropy, count):
  while len(entropy) < 4 * count:
    entropy += blake2s(entropy[-32:]).digest()
  return [int.from_bytes(entropy[4 * i:4 * i + 4], "big") for i in range(count)]


def words(ws):
  return b"".join(w.to_bytes(4, "big") for w in ws)


def index(w, modulus, e):
  if not e:
    return w % modulus
  r = w % (modulus * (e - 1) // e)
  return r + 1 + r // (e - 1)  # the r-th index that is no multiple of e


def judge(ctx, entropy, modulus, count, e):
  from starks.utils import get_pseudorandom_indices
  ctx.at("indices", entropy[:8], modulus, count, e)
  got = get_pseudorandom_indices(entropy, modulus, count, e) if e else get_pseudorandom_indices(entropy, modulus, count)
  ctx.eq(len(got), count, "number of indices", modulus, count, e)
  for x in got:
    ctx.check(type(x) is int and 0 <= x < modulus, "index out of range", x, modulus, e)
    ctx.check(not e or x % e, "an excluded index was drawn", x, modulus, e)
  ctx.eq(got, [index(w, modulus, e) for w in stretch(entropy, count)], "indices drawn from the entropy", modulus, count, e)
  ctx.eq(got, get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=e), "a second draw differs")
  ctx.state((entropy, modulus, count, e))
  return got


def residues(ctx, lo, hi):
  for modulus in range(lo, hi):
    judge(ctx, words(range(modulus + 3)), modulus, modulus + 3, 0)
    for e in range(2, modulus + 1):
      real = modulus * (e - 1) // e
      if real < 1:
        continue
      ws = list(range(real)) + [real, 2**32 - 1, 2**31, 2**32 - real]
      got = judge(ctx, words(ws), modulus, len(ws), e)
      ctx.eq(len(set(got[:real])), real, "two residues give one index", modulus, e)
      if modulus % e == 0:
        ctx.eq(set(got[:real]), {x for x in range(modulus) if x % e}, "some index can never be drawn", modulus, e)
      ctx.outcome((modulus, e))
    ctx.trace()
  ctx.sample(lo, hi)


def boundary(ctx):
  ws = [0, 1, 2, 255, 256, 65535, 65536, 2**24 - 1, 2**24, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 0x01020304, 0xfffefdfc]
  for k in range(2, 24):
    for modulus in (2**k, 3 * 2**(k - 1)):
      if modulus >= 2**24:
        continue
      for e in [0] + [2**j for j in range(1, k) if modulus % 2**j == 0][::3] + [3 if modulus % 3 == 0 else 2]:
        judge(ctx, words(ws), modulus, len(ws), e)
    ctx.trace()
  from starks.utils import get_pseudorandom_indices
  for m in (2**24, 2**24 + 1, 2**40):
    ctx.raises(lambda: get_pseudorandom_indices(bytes(64), m, 4), Exception, "a range too wide for the words was accepted", m)
  judge(ctx, bytes(range(64)), 2**24 - 1, 16, 0)


def counts(ctx, e):
  for n in (1, 2, 3, 4, 5, 16, 31, 32, 33, 64, 100):
    ent = blake2s(bytes([n])).digest() * 4
    ent = ent[:n]
    for count in list(range(0, 42)) + [63, 64, 65, 80, 100]:
      judge(ctx, ent, 512, count, e)
    for k in range(min(n, 32)):  # every byte that is read matters
      other = ent[:k] + bytes([ent[k] ^ 1]) + ent[k + 1:]
      a, b = judge(ctx, ent, 1 << 23, 40, 0), judge(ctx, other, 1 << 23, 40, 0)
      if k < 160 and (n <= 32 or k < 160) and k % 4:
        ctx.check(a != b, "a byte of the entropy has no effect", n, k)
    ctx.trace()


def mutable(ctx):
  """The entropy is read, whatever holds its bytes."""
  from starks.utils import get_pseudorandom_indices
  for n in (0, 1, 3, 4, 31, 32, 33, 64, 70):
    ent = (blake2s(bytes([n])).digest() * 3)[:n]
    for e in (0, 2, 8):
      for count in (0, 1, 2, 7, 8, 9, 16, 17, 40):
        want = [index(w, 512, e) for w in stretch(ent, count)]
        given = bytearray(ent)
        for _ in range(3):
          ctx.at("bytearray", n, e, count)
          ctx.eq(get_pseudorandom_indices(given, 512, count, e), want, "indices drawn from a bytearray", n, count, e)
          ctx.eq(bytes(given), ent, "the entropy was changed", n, count, e)
        ctx.state((n, e, count))
    ctx.trace()


def chunks(tier):
  top = 160 if tier == "thorough" else 64
  step = 16
  out = [("residues-%d" % lo, residues, dict(lo=max(lo, 1), hi=min(lo + step, top + 1))) for lo in range(0, top + 1, step)]
  return out + [("boundary", boundary, {}), ("mutable", mutable, {})] + [("counts-%d" % e, counts, dict(e=e)) for e in (0, 2, 8)]
