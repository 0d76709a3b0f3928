import hashlib
import itertools

from mc import env, ref

ID = "C08"
BOUNDS = {
    "decision": "every monic polynomial over Z/2 to degree 8, Z/3 to 5, Z/5 to 3, Z/7, Z/11 and Z/13 to 2 "
                "(thorough: 11, 7, 4, 3, 2, 2), irreducibility and primitivity against a sieve and a walk",
    "linear": "x - a over Z/p for 27 (thorough 51) primes up to 1019 (2999), most with p - 1 having a prime factor above 50: every a for p < 120 (350), two of each order p - 1 and (p - 1) / prime above",
    "several primes": "every list of coefficients below 5, 4, 3, 2, 2 of degree 2..6 asked about over up to five primes in turn",
    "generation": "every vector of random answers for the first attempt, followed by all others in turn, "
                  "degrees 1..6 over Z/2, 1..4 over Z/3, 1..2 over Z/5, Z/7",
    "search": "to 29 (thorough 125) starting points of the random draws (fewer for primitive polynomials) in degrees 7..10 over Z/2, 5 and 6 over Z/3, "
              "3 and 4 over Z/5, 3 over Z/7, 2 over Z/11, Z/13 and Z/31, both tests",
    "refusal": "every reducible monic modulus of degree m, and every monic modulus of degree 0 to m + 2 other than m, for Z/2, Z/5, GF(4), GF(8), GF(16), GF(9), GF(25), given by "
               "name and by position, before and after accepted moduli",
}


def decide(ctx, p, deg, part, parts):
  from starks.poly_utils import is_irreducible, is_primitive
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  P = polynomials_over(IntegersModP(p))
  irr = set(map(tuple, ref.irreducibles(p, deg)))
  for i, c in enumerate(ref.monics(p, deg)):
    if i % parts != part:
      continue
    f = P(c)
    ctx.at("is_irreducible", c, p)
    want = tuple(c) in irr
    ctx.eq(bool(is_irreducible(f, p)), want, "irreducibility decided wrongly", c, p)
    ctx.at("is_primitive", c, p)
    prim = want and c[0] != 0 and ref.order_of_x(c, p) == p**deg - 1
    ctx.eq(bool(is_primitive(f, p, deg)), prim, "primitivity decided wrongly", c, p)
    ctx.eq([int(x) for x in f.coefficients], c, "the polynomial changed", p)
    ctx.state((p, tuple(c)))
    ctx.outcome((want, prim))
    ctx.trace()
  ctx.sample("monic degree %d over Z/%d: %d of %d irreducible" % (deg, p, len(irr), p**deg))


def generate(ctx, p, deg, primitive):
  from starks import poly_utils as pu
  fn = pu.generate_primitive_polynomial if primitive else pu.generate_irreducible_polynomial
  got = set()
  complete = [True]

  def run(src):
    ctx.at(fn.__name__, p, deg, "first answers", src.prefix)
    f = fn(p, deg)
    c = [int(x) for x in f.coefficients]
    ctx.check(len(c) == deg + 1 and c[-1] == 1, "generated polynomial is not monic of the degree asked for", c, p, deg)
    ctx.check(ref.is_irreducible(c, p), "generated polynomial is reducible", c, p)
    if primitive:
      ctx.check(c[0] != 0 and ref.order_of_x(c, p) == p**deg - 1, "generated polynomial is not primitive", c, p)
    ctx.state((p, deg, tuple(src.taken)))
    ctx.step(src.draws)
    complete[0] &= not src.unit
    got.add(tuple(c))
    ctx.outcome(tuple(c))
    ctx.trace()

  env.explore_lead(run, p**deg)
  want = [tuple(f) for f in ref.irreducibles(p, deg)
          if not primitive or (f[0] and ref.order_of_x(f, p) == p**deg - 1)]
  if complete[0]:
    ctx.eq(sorted(got), sorted(want), "some polynomials are never generated", p, deg)


class Lead(env.Odometer):
  """The digits of a number as the first draws, then a fixed sequence that depends on it."""

  def __init__(self, start, length):
    env.Odometer.__init__(self)
    self.start, self.rest, self.left = start, start, length

  def answer(self, kind, n):
    self.draws += 1
    if n <= 1:
      return 0
    if self.left:
      self.left -= 1
      self.rest, r = divmod(self.rest, n)
      return r
    word = hashlib.sha256(b"%d %d" % (self.start, self.draws)).digest()
    return int.from_bytes(word, "big") % n


def search(ctx, p, deg, starts, primitive):
  """Searches in higher degrees, which start at many different first draws."""
  from starks import poly_utils as pu
  fn = pu.generate_primitive_polynomial if primitive else pu.generate_irreducible_polynomial
  total = p**deg
  first = sorted({(total * i) // starts + j for i in range(starts) for j in (0, 1)} | ({1, 2, p - 1, p, total - 1} if starts > 5 else {p}))
  for s in first:
    ctx.at(fn.__name__, p, deg, "draws from", s)
    with env.source(Lead(s, deg)) as src:
      f = fn(p, deg)
    ctx.step(src.draws)
    c = [int(x) for x in f.coefficients]
    ctx.check(len(c) == deg + 1 and c[-1] == 1, "generated polynomial is not monic of the degree asked for", c, p, deg)
    ctx.check(ref.is_irreducible(c, p), "generated polynomial is reducible", c, p)
    if primitive:
      ctx.check(c[0] != 0 and ref.order_of_x(c, p) == total - 1, "generated polynomial is not primitive", c, p)
    ctx.state((p, deg, s))
    ctx.outcome(tuple(c))
    ctx.trace()


def refusal(ctx, p, m, accept_first):
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  P = polynomials_over(IntegersModP(p))
  irr = [list(f) for f in ref.irreducibles(p, m)]

  def accept():
    for c in irr:
      if m == 1:  # the prime field itself
        ctx.check(FiniteField(p, m, P(c)) is FiniteField(p, m, polynomialModulus=P(c)) is IntegersModP(p), "prime field", c)
        continue
      ctx.at("accept", c)
      for F in (FiniteField(p, m, polynomialModulus=P(c)), FiniteField(p, m, P(c))):
        ctx.eq([int(x) for x in F.ideal_generator.coefficients], c, "field with another modulus", c)
        ctx.eq([int(x) for x in F([0] * m + [1]).poly.coefficients],
               ref.trim([-x % p for x in c[:-1]]), "x^m in the field", c)

  if accept_first:
    accept()
  for d in range(m + 3):
    if d == m:
      continue
    for c in list(ref.monics(p, d)) + [[]] * (d == 0):
      ctx.at("modulus of another degree", m, c)
      ctx.raises(lambda: FiniteField(p, m, polynomialModulus=P(c)), Exception, "a modulus of another degree is accepted", p, m, c)
      ctx.raises(lambda: FiniteField(p, m, P(c)), Exception, "a modulus of another degree is accepted", p, m, c)
      ctx.state((p, m, tuple(c)))
  for c in ref.monics(p, m):
    if list(c) in irr:
      continue
    for fn in (lambda: FiniteField(p, m, polynomialModulus=P(c)), lambda: FiniteField(p, m, P(c)),
               lambda: FiniteField(p=p, m=m, polynomialModulus=P(c))):
      ctx.at("reducible modulus", c)
      ctx.raises(fn, ValueError, "a reducible modulus was accepted", c, p)
    ctx.state(tuple(c))
  accept()
  for c in ref.monics(p, m):
    if list(c) not in irr:
      ctx.raises(lambda: FiniteField(p, m, polynomialModulus=P(c)), ValueError,
                 "a reducible modulus was accepted the second time", c, p)
  ctx.trace()


def large(ctx):
  """Known large cases, and a product of large irreducibles."""
  from starks.poly_utils import is_irreducible
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  P = polynomials_over(IntegersModP(2))

  def bits(*e):
    return [1 if i in e else 0 for i in range(max(e) + 1)]

  yes = [bits(17, 3, 0), bits(32, 7, 3, 2, 0), bits(16, 5, 3, 1, 0), bits(8, 4, 3, 1, 0), bits(13, 4, 3, 1, 0),
         bits(20, 3, 0), bits(31, 3, 0)]
  for c in yes:
    ctx.at("is_irreducible", c)
    ctx.check(is_irreducible(P(c), 2), "a standard irreducible polynomial was rejected", c)
    ctx.state(tuple(c))
  for a, b in itertools.combinations_with_replacement(yes[:5], 2):
    c = ref.pmul(a, b, 2)
    ctx.at("is_irreducible", c)
    ctx.check(not is_irreducible(P(c), 2), "a product was reported irreducible", a, b)
    ctx.state(tuple(c))
    ctx.trace()


def linear(ctx, primes, every):
  """x - a is primitive over Z/p exactly if a generates the units: a walk through the powers of a decides."""
  from starks.poly_utils import is_irreducible, is_primitive
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  for p in primes:
    P = polynomials_over(IntegersModP(p))
    order = {0: 0}
    for a in range(1, p):
      n, x = 1, a
      while x != 1:
        x = x * a % p
        n += 1
      order[a] = n
    by = {}
    for a, n in order.items():
      by.setdefault(n, []).append(a)
    for a in range(p) if p < every else [a for n in by for a in by[n][:2] if n == p - 1 or (n and ref.is_prime((p - 1) // n))]:
      n = order[a]
      f = P([-a % p, 1])
      ctx.at("is_primitive", p, "x -", a)
      ctx.check(bool(is_irreducible(f, p)), "a linear polynomial was reported reducible", p, a)
      ctx.eq(bool(is_primitive(f, p, 1)), a != 0 and n == p - 1, "primitivity of x - a decided wrongly", p, a)
      ctx.state((p, a))
    ctx.trace()


def several(ctx, deg, low, primes, part, parts):
  """One list of integer coefficients asked about over one prime after the other, in both orders."""
  from starks.poly_utils import is_irreducible, is_primitive
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  irr = {p: set(map(tuple, ref.irreducibles(p, deg))) for p in primes}
  for i, c in enumerate(itertools.product(range(low), repeat=deg)):
    if i % parts != part:
      continue
    for p in tuple(primes) + tuple(primes)[::-1]:
      f = polynomials_over(IntegersModP(p))(list(c) + [1])
      d = tuple(x % p for x in c) + (1,)
      ctx.at("is_irreducible", c, p, "after other primes")
      ctx.eq(bool(is_irreducible(f, p)), d in irr[p], "irreducibility decided wrongly", d, p)
      prim = d in irr[p] and d[0] != 0 and ref.order_of_x(list(d), p) == p**deg - 1
      ctx.eq(bool(is_primitive(f, p, deg)), prim, "primitivity decided wrongly", d, p)
      ctx.state((p, d))
    ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = []
  for p, top in ((2, 11 if t else 8), (3, 7 if t else 5), (5, 4 if t else 3), (7, 3 if t else 2), (11, 2), (13, 2)):
    for d in range(1, top + 1):
      parts = 4 if p**d > 100 else 1
      for k in range(parts):
        out.append(("decide-%d-%d-%d" % (p, d, k), decide, dict(p=p, deg=d, part=k, parts=parts)))
  for p, top in ((2, 6), (3, 4 if t else 3), (5, 2), (7, 2)):
    for d in range(1, top + 1):
      out.append(("generate-%d-%d" % (p, d), generate, dict(p=p, deg=d, primitive=False)))
      if d > 1 or p > 2:
        out.append(("primitive-%d-%d" % (p, d), generate, dict(p=p, deg=d, primitive=True)))
  for p, deg in ((2, 7), (2, 8), (2, 9), (2, 10), (3, 5), (3, 6), (5, 3), (5, 4), (7, 3), (11, 2), (13, 2), (31, 2), (17, 1)):
    for prim in (False, True):
      out.append(("search-%d-%d-%d" % (p, deg, prim), search, dict(
          p=p, deg=deg, starts=(60 if t else 12) if not prim else max(1, (4000 if t else 1000) // p**deg), primitive=prim)))
  for deg, low, primes in ((2, 5, (2, 3, 5, 7, 11)), (3, 4, (2, 3, 5, 7)), (4, 3, (2, 3, 5)), (5, 2, (2, 3, 5)), (6, 2, (2, 3))):
    out += [("several-%d-%d" % (deg, k), several, dict(deg=deg, low=low, primes=primes, part=k, parts=3)) for k in range(3)]
  for p, m in ((2, 1), (5, 1), (2, 2), (2, 3), (2, 4), (3, 2), (5, 2)):
    for first in (False, True):
      out.append(("refusal-%d-%d-%d" % (p, m, first), refusal, dict(p=p, m=m, accept_first=first)))
  # p - 1 = 2q, 4q, 6q, 2 q^2, ... with a large prime factor q
  ps = [17, 29, 31, 37, 47, 59, 83, 107, 149, 163, 179, 211, 227, 241, 263, 283, 317, 347, 359, 383, 467, 509, 557, 643, 659, 797, 1019]
  if t:
    ps += [19, 23, 41, 43, 53, 61, 67, 71, 73, 79, 89, 97, 101, 103, 109, 113, 127, 131, 251, 257, 383, 1283, 2027, 2999]
  out += [("linear-%d" % i, linear, dict(primes=ps[i::6], every=350 if t else 120)) for i in range(6)]
  return out + [("large", large, {})]
