import collections
import fractions
import itertools

from mc import env

ID = "C28"
BOUNDS = {
    "test": "every integer from -20 to 20000 (100000) with every base (as the only draw) up to 900 (2500), and with every base of a family above; pairs of draws "
            "up to 60, triples up to 40 (60); the Carmichael numbers and strong pseudoprimes to base 2 below 30000, Mersenne primes to 2^521-1; the range the bases are drawn from for numbers of up to 1025 bits",
    "smooth": "17 primes p with 2^16 and more dividing p - 1, products of them, 2^k + 1 and 3 2^k + 1 to 200 bits, each with up to 24 bases, among them some of the highest two-power order",
    "witnesses": "every odd number below 2000 (6000) with every base: the verdict against the definition, and at most a quarter of the bases lie",
    "generator": "every pair of good primes below 40 and all candidates drawn before them (each a composite, an even number, a prime that is 1 mod 4); "
                 "the generator on every input of 0..3M for each modulus M, on negative and huge inputs; squaring permutes the squares",
}


def prime(n):
  return n > 1 and all(n % d for d in range(2, int(n**0.5) + 1))


def strong_liar(a, n):
  """The definition: n passes the strong test to base a."""
  d, s = n - 1, 0
  while d % 2 == 0:
    d //= 2
    s += 1
  x = 1
  for _ in range(d):
    x = x * a % n
  if x in (1, n - 1):
    return True
  for _ in range(s - 1):
    x = x * x % n
    if x == n - 1:
      return True
  return False


def liar(a, n):
  d, s = n - 1, 0
  while d % 2 == 0:
    d //= 2
    s += 1
  x = pow(a, d, n)
  if x in (1, n - 1):
    return True
  for _ in range(s - 1):
    x = x * x % n
    if x == n - 1:
      return True
  return False


def decide(ctx, n, accuracy, want=None):
  """probablyPrime(n, accuracy) under every sequence of draws: counts."""
  m = env.misc("primality")
  res = collections.Counter()

  def run(ch):
    ctx.at("probablyPrime", n, ch.prefix)
    r = m.probablyPrime(n, accuracy)
    ctx.check(r is True or r is False, "not a verdict", n, r)
    w = fractions.Fraction(1)
    for k in ch.widths:
      w /= k
    res[r] += w
    ctx.step()
    ctx.state((n, accuracy, tuple(ch.taken)))

  env.explore(run, horizon=accuracy, limit=10**6)
  return res


def test(ctx, lo, hi, accuracy):
  for n in range(lo, hi):
    res = decide(ctx, n, accuracy)
    if prime(n):
      ctx.eq(dict(res), {True: 1}, "a prime is called composite", n)
    elif n < 2 or n % 2 == 0:
      ctx.eq(dict(res), {False: 1}, "not rejected", n)
    else:
      bases = range(2, n - 1)
      liars = sum(1 for a in bases if liar(a, n))
      p = fractions.Fraction(liars, len(bases))**accuracy
      ctx.eq(res[True], p, "chance of calling a composite prime", n)
    ctx.outcome(prime(n))
    ctx.trace()


FAMILY = (0, 1, 2, 3, 5, 11, 35, 39, 59, 173)


def fixed(ctx, lo, hi):
  """Larger numbers with bases of a family, repeated as often as asked."""
  m = env.misc("primality")
  for n in range(lo, hi):
    for k in FAMILY + (-1, -2):
      if n < 5 or n % 2 == 0:
        c = 0
      else:
        c = k % (n - 3)
      for accuracy in (1, 3):
        ctx.at("probablyPrime", n, c)
        with env.source(env.Choices([c] * accuracy if n >= 5 and n % 2 else [], horizon=accuracy)):
          got = m.probablyPrime(n, accuracy)
        want = prime(n) or (n > 3 and n % 2 == 1 and liar(c + 2, n))
        ctx.eq(got, want, "verdict", n, c)
      ctx.state((n, c))
    ctx.trace()


def witnesses(ctx, lo, hi):
  m = env.misc("primality")
  for n in range(lo | 1, hi, 2):
    s, d = m.decompose(n - 1)
    ctx.eq((2**s * d, d % 2), (n - 1, 1), "decomposition", n)
    liars = 0
    for a in range(1, n):
      ctx.at("isWitness", a, n)
      got = m.isWitness(a, n, s, d)
      want = not liar(a, n)
      if n < 120:
        ctx.eq(want, not strong_liar(a, n), "reference")
      ctx.check(bool(got) == want, "witness", a, n, got)
      liars += not got
      ctx.state((a, n))
    if prime(n):
      ctx.eq(liars, n - 1, "a prime has a witness", n)
    elif n > 9:
      ctx.check(4 * liars <= n - 1, "too many bases lie", n, liars)
    ctx.trace()


HARD = (561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 2047, 3277, 4033, 4681, 8321, 15841, 25, 49, 91, 121, 1194649, 12327121)
BIG = (2**13 - 1, 2**17 - 1, 2**31 - 1, 2**61 - 1, 2**89 - 1, 2**107 - 1, 2**127 - 1, 2**521 - 1, 2**255 - 19)


def big(ctx):
  m = env.misc("primality")
  for n in HARD:
    for a in list(range(2, 40)) + [n // 2, n - 3, n - 2]:
      ctx.at("hard", n, a)
      if a <= n - 2:
        with env.source(env.Choices([a - 2], horizon=1)):
          ctx.eq(m.probablyPrime(n, 1), liar(a, n), "verdict", n, a)
        ctx.state((n, a))
  # every base from 2 to n - 2 can be drawn: a smaller range would not bound the share that lies
  for n in BIG + HARD + (2**64 + 13, 2**200 + 235, (2**89 - 1) * (2**107 - 1), 2**1024 + 643):
    for acc in (1, 2, 5):
      ctx.at("range", n, acc)
      ch = env.Choices((), menu=lambda kind, k: [k - 1], horizon=acc)
      widths = []
      ch.menu = lambda kind, k: widths.append(k) or [k - 1]
      with env.source(ch):
        m.probablyPrime(n, acc)
      ctx.check(widths and all(k >= n - 3 for k in widths), "bases are drawn from a smaller range", n, widths)
      ctx.state((n, acc))
  for n in BIG:
    for k in (1, 7, 10**6 + 3):
      ctx.at("big", n, k)
      with env.source(env.Odometer(k, 101)):
        ctx.eq(m.probablyPrime(n), True, "a prime is called composite", n)
      for c in (n * n, n * BIG[0], n * 3, n * 2, n + 1):
        with env.source(env.Odometer(k, 101)):
          ctx.eq(m.probablyPrime(c), False, "a composite is called prime", c)
        ctx.state((n, c, k))
  ctx.trace()


# p - 1 divisible by 2^16 and more
SMOOTH = (65537, 786433, 5767169, 7340033, 23068673, 104857601, 167772161, 469762049, 998244353, 3221225473, 2**64 - 2**32 + 1,
          4179340454199820289, 2**256 - 2**32 * 351 + 1, 2**255 - 19, 3 * 2**189 + 1, 5 * 2**127 + 1, 9 * 2**134 + 1)


def smooth(ctx):
  """Numbers one above a multiple of a high power of two, with many bases."""
  m = env.misc("primality")
  primes = [p for p in SMOOTH if all(pow(a, p - 1, p) == 1 for a in (2, 3, 5, 7, 11, 13, 17))]
  ctx.check(len(primes) >= 13, "reference")
  for p in SMOOTH:
    s, d = m.decompose(p - 1)
    ctx.eq((2**s * d, d % 2), (p - 1, 1), "decomposition", p)
  some = [p * q for p in primes[:5] for q in primes[:7]] + [p * q for p, q in zip(primes, primes[1:])] + [2**k + 1 for k in range(6, 200)] + [3 * 2**k + 1 for k in range(6, 100)]
  for p in primes + some:
    e, r = m.decompose(p - 1)
    # and elements of order 2^e: those whose powers reach -1 late
    late = [pow(a, r, p) for a in (3, 5, 7, 10, 11, 13)]
    for a in [2, 3, 5, 6, 7, 10, 11, 13, 17, 19, 23, 29, 31, 37, p - 2, p - 3, p // 2, p // 3] + late:
      if not 2 <= a <= p - 2:
        continue
      want = not liar(a, p)
      ctx.at("smooth", p, a)
      if p in primes:
        ctx.check(not want, "reference")
      ctx.check(bool(m.isWitness(a, p, e, r)) is want, "witness", a, p)
      with env.source(env.Choices([0], menu=lambda kind, k: [a - 2 if k == p - 3 else a % k], horizon=1)):
        ctx.check(m.probablyPrime(p, 1) is (not want), "verdict", p, a)
      ctx.state((p, a))
    ctx.trace()


BAD = (0, 1, 2, 4, 5, 6, 9, 13, 15, 21, 27, 35, 39)
GOOD = [p for p in range(3, 40) if prime(p) and p % 4 == 3]
DULL = lambda kind, n: range(n) if kind == "bits" else [min(n - 1, 5)]


def search(ctx):
  m = env.misc("blum_blum_shub")
  # the base drawn is always 7 or the largest: none of the composites tried is a pseudoprime to it
  for n in range(0, 200):
    with env.source(env.Choices((), menu=DULL, horizon=200)):
      ctx.at("good_prime", n)
      ctx.eq(bool(m.good_prime(n)), prime(n) and n % 4 == 3, "good prime", n)
    ctx.state(n)
  for bits in range(2, 7):
    bad = [b for b in BAD if b < 1 << bits]
    for g in GOOD:
      if g >= 1 << bits:
        continue
      for k in range(3):
        for lead in itertools.product(bad, repeat=k):
          ctx.at("find_good_prime", bits, lead, g)
          src = Script(list(lead) + [g], bits)
          with env.source(src):
            ctx.eq(m.find_good_prime(bits), g, "prime found", lead)
          ctx.eq(src.left, [], "candidates left")
          ctx.state((bits, lead, g))
  for a in GOOD:
    for b in GOOD:
      ctx.at("make_modulus", a, b)
      with env.source(Script([4, a, 9, b], 6)):
        ctx.eq(m.make_modulus(6), a * b, "modulus", a, b)
  ctx.trace()


class Script:
  """Answers draws of whole candidates from a list, bases by a fixed value."""

  def __init__(self, left, bits):
    self.left, self.width = left, 1 << bits

  def reseed(self, args):
    pass

  def answer(self, kind, n):
    if n == self.width:
      return self.left.pop(0)
    assert kind != "bits", "candidates of %d values" % n
    return min(n - 1, 5)


def generator(ctx, part, parts):
  m = env.misc("blum_blum_shub")
  for i, (a, b) in enumerate(itertools.product(GOOD, repeat=2)):
    if i % parts != part:
      continue
    with env.source(Script([a, b], 6)):
      f = m.blum_blum_shub(6)
    mod = a * b
    ctx.at("generator", a, b)
    for x in list(range(3 * mod)) + [-1, -5, 10**40, 2**512 - 1]:
      ctx.eq(f(x), x * x % mod, "next state", x, mod)
    if a != b:
      units = {x * x % mod for x in range(mod) if x % a and x % b}
      ctx.eq({f(x) for x in units}, units, "squares are not permuted", mod)
      squares = {x * x % mod for x in range(mod)}
      ctx.eq({f(x) for x in squares}, squares, "squares are not permuted", mod)
    ctx.state((a, b))
    ctx.trace()


def parity(ctx):
  m = env.misc("blum_blum_shub")
  for n in list(range(5000)) + [2**k + d for k in range(13, 600, 7) for d in (-1, 0, 1)]:
    ctx.at("parity", n)
    ctx.eq(m.parity(n), bin(n).count("1") & 1, "parity", n)
    ctx.state(n)
  ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = [("test1-%d" % lo, test, dict(lo=lo, hi=lo + 80, accuracy=1)) for lo in range(-20, 2500 if t else 900, 80)]
  out += [("test2", test, dict(lo=-3, hi=60, accuracy=2)), ("test3", test, dict(lo=-3, hi=60 if t else 40, accuracy=3))]
  out += [("fixed-%d" % lo, fixed, dict(lo=lo, hi=lo + 1000)) for lo in range(-10, 100000 if t else 20000, 1000)]
  out += [("witnesses-%d" % lo, witnesses, dict(lo=lo, hi=lo + 100)) for lo in range(3, 6000 if t else 2000, 100)]
  out += [("generator-%d" % i, generator, dict(part=i, parts=4)) for i in range(4)]
  return out + [("big", big, {}), ("smooth", smooth, {}), ("search", search, {}), ("parity", parity, {})]
