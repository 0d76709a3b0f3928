import collections
import fractions
import itertools

from mc import env
from mc.c25 import weigh

ID = "C27"
BOUNDS = {
    "bits": "every permutation of a domain of 4 with every predicate on it, every draw and every bit; squaring modulo seven (nine) Blum integers up to "
            "31 * 43 (67 * 71); every alternative secret of the domain and every alternative commitment",
    "integers": "1..5 (6) bits, every integer, every combination of secrets of a domain of 4 (up to 4 (5) bits also of 8); every replacement of one secret or one "
                "commitment, every exchange of two, every shorter or longer opening",
    "long integers": "7 to 200 bits: every single bit, runs and patterns, one wrong part at every place; every draw changed alone, which changes one secret; too long and negative integers",
    "wide secrets": "security parameters of 22 lengths from 1 to 513 (thorough 2048) bits: the number of equally likely draws, and single bits and runs as draws",
    "findings": "opening with the negated secret modulo a Blum integer, which the scheme cannot tell apart (known_findings.txt)",
}
BLUM = ((3, 7), (7, 11), (3, 11), (11, 19), (7, 23))


def cm():
  return env.misc("commitment")


def scheme(ctx, mod, f, h, bits, draw):
  with env.source(env.Choices([draw], horizon=1)):
    s = mod.BBSBitCommitmentScheme(f, h, bits)
  return s


def one(ctx, mod, f, h, bits, domain, others):
  """Every draw, bit and opening for one permutation and predicate."""
  v = mod.BBSBitCommitmentVerifier(f, h)
  for draw in range(1 << bits):
    for bit in (0, 1):
      ctx.at("commit", bit, draw)
      s = scheme(ctx, mod, f, h, bits, draw)
      secret = s.reveal()
      ctx.check(secret in domain, "the secret is not in the range of the permutation", secret, draw)
      c = s.commit(bit)
      ctx.eq(s.reveal(), secret, "the secret changed by committing")
      ctx.eq(s.commit(bit), c, "a second commitment differs")
      ctx.eq(tuple(c), (f(secret), h(secret) ^ bit), "commitment", secret, bit)
      ctx.check(v.verify(secret, c) is True, "an honest opening is rejected", secret, bit)
      ctx.eq(v.decode(secret, c), bit, "decoded bit", secret)
      ctx.eq(v.decode(secret, s.commit(1 - bit)), 1 - bit, "decoded bit", secret)
      for o in others:
        if f(o) != f(secret):
          ctx.check(v.verify(o, c) is False, "another secret opens the commitment", secret, o)
        elif o in domain:
          ctx.eq(o, secret, "two secrets of one commitment")
      for o in domain:
        if o != c[0]:
          ctx.check(v.verify(secret, (o, c[1])) is False, "the secret opens another commitment", secret, o)
      ctx.state((secret, bit, tuple(c)))


def tables(ctx, part, parts):
  mod = cm()
  for i, f in enumerate(itertools.permutations(range(4))):
    if i % parts != part:
      continue
    for h in itertools.product(range(2), repeat=4):
      one(ctx, mod, lambda x: f[x % 4], lambda x: h[x], 2, set(range(4)), range(4))
      hidden(ctx, mod, lambda x: f[x % 4], lambda x: h[x], sum(h) == 2)
      ctx.state((f, h))
    ctx.trace()


class Draws(env.Choices):
  """Answers the first draw as told, all others by 0."""

  def __init__(self, first):
    env.Choices.__init__(self)
    self.first = first

  def answer(self, kind, n):
    v = self.first % n if not self.widths else 0
    self.widths.append(n)
    self.values.append(v)
    return v


def wide(ctx, secs):
  """Secrets of many bits: as many equally likely draws as there are values, and different draws are different secrets."""
  mod = cm()
  for sec in secs:
    f = lambda x: (3 * x + 1) % 2**sec
    ks = sorted({k for k in range(sec) if sec <= 70 or k % 16 in (0, 1, 15) or k > sec - 4})
    answers = sorted({0, 2**sec - 1} | {1 << k for k in ks} | {(1 << k) - 1 for k in ks})
    for build in (lambda: mod.BBSBitCommitmentScheme(f, lambda x: x & 1, sec), lambda: mod.BBSIntCommitmentScheme(1, f, lambda x: x & 1, sec)):
      seen = set()
      for a in answers:
        ctx.at("secret of many bits", sec, a)
        ch = Draws(a)
        with env.source(ch):
          s = build()
        total = 1
        for w in ch.widths:
          total *= w
        ctx.check(total % 2**sec == 0, "the draws cannot make secrets of this length equally likely", sec, ch.widths)
        secret = s.reveal()
        secret = secret[0] if isinstance(secret, (list, tuple)) else secret
        if len(ch.widths) != 1 or total != 2**sec:
          continue  # drawn in another way
        ctx.check(0 <= secret < 2**sec and secret not in seen, "two draws give one secret", sec, a)
        seen.add(secret)
        ctx.state((sec, a))
      ctx.trace()


def hidden(ctx, mod, f, h, balanced):
  """Over the draws, each part of a commitment is independent of the bit."""
  def run(bit):
    s = mod.BBSBitCommitmentScheme(f, h, 2)
    return tuple(s.commit(bit))
  d = [weigh(lambda: run(b)) for b in (0, 1)]
  first = [collections.Counter(), collections.Counter()]
  second = [collections.Counter(), collections.Counter()]
  for b in (0, 1):
    for (x, y), w in d[b].items():
      first[b][x] += w
      second[b][y] += w
  ctx.eq(first[0], first[1], "the first part depends on the bit")
  ctx.eq(first[0], {x: fractions.Fraction(1, 4) for x in range(4)}, "secrets are not drawn uniformly")
  if balanced:
    ctx.eq(second[0], second[1], "the second part alone tells the bit")


def blum(ctx, p, q):
  mod, parity = cm(), env.misc("blum_blum_shub").parity
  m = p * q
  f = lambda x: pow(x, 2, m)
  squares = {f(x) for x in range(m)}
  one(ctx, mod, f, parity, 4, squares, range(m))
  if m < 256:
    one(ctx, mod, f, parity, 8, squares, sorted(squares))
  v = mod.BBSBitCommitmentVerifier(f, parity)
  for draw in range(1, 16):
    s = scheme(ctx, mod, f, parity, 4, draw)
    c = s.commit(0)
    o = (m - s.reveal()) % m
    ctx.step()
    ctx.finding("negated-opening", "the negated secret opens the commitment, to the other bit", not v.verify(o, c) or v.decode(o, c) == 0)
  ctx.trace()
  ctx.sample(p, q)


PERM8 = (3, 6, 0, 5, 7, 2, 4, 1)


def integers(ctx, nbits, sec, part, parts):
  mod = cm()
  dom = 1 << sec
  f = (lambda x: PERM8[x % 8]) if sec == 3 else (lambda x: (3 * x + 1) % 4)
  for pred in ((lambda x: bin(x).count("1") % 2), (lambda x: x % 2)):
    v = mod.BBSIntCommitmentVerifier(nbits, f, pred)
    for i, draws in enumerate(itertools.product(range(dom), repeat=nbits)):
      if i % parts != part:
        continue
      for n in range(1 << nbits):
        ctx.at("integer", nbits, draws, n)
        ch = env.Choices(list(draws), horizon=nbits)
        with env.source(ch):
          s = mod.BBSIntCommitmentScheme(nbits, f, pred, sec)
        ctx.eq(len(ch.taken), nbits, "secrets drawn")
        cs, ss = s.commit(n), s.reveal()
        ctx.eq(len(cs), nbits, "parts of a commitment")
        ctx.eq([tuple(c) for c in cs], [(f(x), pred(x) ^ (n >> (nbits - 1 - k) & 1)) for k, x in enumerate(ss)], "commitment", draws, n)
        ctx.check(v.verify(ss, cs) is True, "an honest opening is rejected", draws, n)
        ctx.eq(v.decode(ss, cs), n, "decoded integer", draws)
        if n in (0, (1 << nbits) - 1, i % (1 << nbits)):
          tamper(ctx, v, ss, cs, dom)
        ctx.state((nbits, draws, n))
      ctx.trace()

  def secrets():
    return tuple(mod.BBSIntCommitmentScheme(nbits, f, lambda x: 0, sec).reveal())
  if part == 0:
    ctx.eq(weigh(secrets), {x: fractions.Fraction(1, dom**nbits) for x in itertools.product(range(dom), repeat=nbits)},
           "the secrets of the bits are not independent and uniform")


def long(ctx, nbits, sec):
  """Many bits: single bits, runs and patterns, with secrets that differ from bit to bit."""
  mod = cm()
  dom = 1 << sec
  f = (lambda x: PERM8[x % 8]) if sec == 3 else (lambda x: (3 * x + 1) % dom)
  pred = lambda x: bin(x).count("1") % 2
  full = (1 << nbits) - 1
  ns = {0, full, full // 3, full // 5, full - full // 3} | {1 << k for k in range(nbits)} | {full ^ 1 << k for k in range(0, nbits, 3)} | {
      (1 << k) - 1 for k in range(0, nbits, 5)}
  for a in (0, 1, 5):
    draws = [(k * k * a + k + a) % dom for k in range(nbits)]
    v = mod.BBSIntCommitmentVerifier(nbits, f, pred)
    with env.source(env.Choices(list(draws), horizon=nbits)):
      s = mod.BBSIntCommitmentScheme(nbits, f, pred, sec)
    ctx.eq(len(s.reveal()), nbits, "secrets", nbits)
    first = list(s.reveal())
    for k in range(nbits):
      ctx.at("one draw", nbits, a, k)
      other = list(draws)
      other[k] = (draws[k] + 1) % dom
      with env.source(env.Choices(other, horizon=nbits)):
        r = mod.BBSIntCommitmentScheme(nbits, f, pred, sec).reveal()
      ctx.eq(sum(x != y for x, y in zip(first, r)), 1, "secrets that depend on one draw", nbits, k)
      ctx.state((nbits, a, "draw", k))
    for n in sorted(ns):
      ctx.at("integer", nbits, a, n)
      cs, ss = s.commit(n), s.reveal()
      ctx.eq([tuple(c) for c in cs], [(f(x), pred(x) ^ (n >> (nbits - 1 - k) & 1)) for k, x in enumerate(ss)], "commitment", nbits, n)
      ctx.check(v.verify(ss, cs) is True, "an honest opening is rejected", nbits, n)
      ctx.eq(v.decode(ss, cs), n, "decoded integer", nbits)
      ctx.state((nbits, a, n))
    ss, cs = list(ss), list(cs)
    for k in range(nbits):
      ctx.at("one part", nbits, k)
      o = (ss[k] + 1) % dom
      ctx.check(v.verify(ss[:k] + [o] + ss[k + 1:], cs) is False, "a wrong secret is accepted", k)
      ctx.check(v.verify(ss, cs[:k] + [((cs[k][0] + 1) % dom, cs[k][1])] + cs[k + 1:]) is False, "a wrong commitment is accepted", k)
    for k in range(nbits):
      ctx.check(v.verify(ss[:k], cs[:k]) is False, "an opening of the wrong length is accepted", k)
    # what does not fit is refused: it could only be opened as another integer
    for n in (full + 1, full + 2, 2 * full, full << 7, 1 << 2 * nbits, -1, -full):
      ctx.at("outside", nbits, n)
      ctx.raises(lambda: s.commit(n), (ValueError, AssertionError, OverflowError), "an integer that does not fit was committed to", nbits, n)
      ctx.state((nbits, a, n))
    ctx.trace()


def tamper(ctx, v, ss, cs, dom):
  k = len(ss)
  ss, cs = list(ss), list(cs)
  for i in range(k):
    for o in range(dom):
      if o != ss[i]:
        ctx.check(v.verify(ss[:i] + [o] + ss[i + 1:], cs) is False, "a wrong secret is accepted", ss, i, o)
      if o != cs[i][0]:
        ctx.check(v.verify(ss, cs[:i] + [(o, cs[i][1])] + cs[i + 1:]) is False, "a wrong commitment is accepted", ss, i, o)
  for i, j in itertools.combinations(range(k), 2):
    if ss[i] != ss[j]:
      t = list(ss)
      t[i], t[j] = t[j], t[i]
      ctx.check(v.verify(t, cs) is False, "exchanged secrets are accepted", ss, i, j)
  for a in range(k + 2):
    for b in range(k + 2):
      if (a, b) != (k, k):
        ctx.check(v.verify((ss + ss[:1])[:a], (cs + cs[:1])[:b]) is False, "an opening of the wrong length is accepted", a, b)


def chunks(tier):
  t = tier == "thorough"
  out = [("tables-%d" % i, tables, dict(part=i, parts=2)) for i in range(2)]
  out += [("blum-%d-%d" % pq, blum, dict(p=pq[0], q=pq[1])) for pq in BLUM + ((19, 23), (31, 43)) + (((43, 59), (67, 71)) if t else ())]
  for nbits, sec, parts in ((1, 2, 1), (1, 3, 1), (2, 2, 1), (2, 3, 1), (3, 2, 1), (3, 3, 2), (4, 2, 2), (4, 3, 16), (5, 2, 8)) + (((5, 3, 64), (6, 2, 32)) if t else ()):
    out += [("integers-%d-%d-%d" % (nbits, sec, i), integers, dict(nbits=nbits, sec=sec, part=i, parts=parts)) for i in range(parts)]
  ws = [1, 2, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 160, 255, 256, 257, 511, 512, 513] + ([1000, 1024, 2048] if t else [])
  out += [("wide-%d" % i, wide, dict(secs=ws[i::4])) for i in range(4)]
  out += [("long-%d-%d" % (n, sec), long, dict(nbits=n, sec=sec)) for n, sec in (
      (1, 2), (2, 3), (3, 2), (4, 3), (7, 3), (8, 2), (9, 4), (16, 3), (31, 2), (32, 8), (33, 3), (63, 2), (64, 3), (65, 2), (128, 32), (200, 60))]
  return out
