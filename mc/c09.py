import itertools

from mc import env, ref, sched

ID = "C09"
BOUNDS = {
    "histories": "every sequence of 3 (thorough 4) requests over 10 spellings of 5 structures, each on a prime "
                 "never used before, identity and behaviour of every class handed out",
    "schedules": "2 threads with at most 2 preemptions, 3 threads with at most 1 (0 for  three extension fields), switching at the first 2 visits to every line of "
                 "the package, each on a prime never used before",
    "moduli": "every irreducible modulus of degree 8 over Z/2 and of other degrees, and all of degree 16 and 32 that "
              "differ in their low terms, requested twice; every sequence of 4 valid and refused requests",
    "crowd": "each of seven kinds of structure after up to 1200 (thorough 4800) other requests, early, middle and late ones repeated",
    "spellings": "36 orders of floats, fractions, decimals, complex and foreign integers before the integer they equal, for primes of 23 and 45 bits, "
                 "extension fields and multivariate rings: refused or the integer's own structure, which computes with integers",
    "alike": "primes that agree modulo 2^61 - 1, (p, m) against (m, p), with and without a modulus, each asked for twice",
    "algebra": "rings of polynomials over equal and different fields, for all pairs of requests",
}
ASSUMPTIONS = ["Preemption inside one source line is not explored."]


def fresh_primes(start):
  """Primes congruent to 3 mod 4: x^2 + c^2 is irreducible over each."""
  n = start
  while True:
    if n % 4 == 3 and ref.is_prime(n):
      yield n
    n += 1


def catalogue(p):
  """(what is asked for, request); equal keys must give one class."""
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  from starks.multivariate_polynomial import multivariates_over
  from starks.rationals_modp import RationalsModP

  def mod(c):
    return polynomials_over(IntegersModP(p))([c, 0, 1])

  return [
      (("Z", p), lambda: IntegersModP(p)),
      (("Z", p), lambda: IntegersModP(p=p)),
      (("Q", p), lambda: RationalsModP(p)),
      (("F", p, 1), lambda: FiniteField(p, 2, mod(1))),
      (("F", p, 1), lambda: FiniteField(p, 2, polynomialModulus=mod(1))),
      (("F", p, 1), lambda: FiniteField(polynomialModulus=mod(1), m=2, p=p)),
      (("F", p, 4), lambda: FiniteField(p, m=2, polynomialModulus=mod(4))),
      (("F", p, 4), lambda: FiniteField(p, 2, mod(4))),
      (("ZX", p), lambda: polynomials_over(IntegersModP(p))),
      (("ZX", p), lambda: polynomials_over(IntegersModP(p=p))),
      (("ZXY", p), lambda: multivariates_over(IntegersModP(p), 2)),
      (("Z", p), lambda: FiniteField(p, 1)),
  ]


def behave(ctx, key, cls):
  """The class computes in the structure that was asked for."""
  kind, p = key[:2]
  if kind == "Z":
    x = cls(p - 2)
    ctx.eq(int(x * x + 3), 7 % p, "arithmetic of the class handed out", key)
  elif kind == "Q":
    x = cls(1, 2) + cls(1, 2)
    ctx.check(x == cls(1), "arithmetic of the class handed out", key)
  elif kind == "F":
    x = cls([0, 1])
    ctx.eq([int(c) for c in (x * x).poly.coefficients], [p - key[2]], "arithmetic of the class handed out", key)
    ctx.check(int(cls.p) == p and cls.m == 2, "parameters of the field", key)
  elif kind == "ZX":
    ctx.eq([int(c) for c in (cls([1, 1]) * cls([p - 1, 1])).coefficients], [p - 1, 0, 1], "ring", key)
  else:
    f = cls({(1, 0): 1, (0, 1): 1})
    ctx.eq({k: int(v) for k, v in (f * f).coefficients.items()}, {(2, 0): 1, (1, 1): 2, (0, 2): 1}, "ring", key)


def histories(ctx, depth, first, start):
  primes = fresh_primes(start)
  n = len(catalogue(7))
  for seq in itertools.product(range(n), repeat=depth - 1):
    p = next(primes)
    cat = catalogue(p)
    other = catalogue(next(primes))
    seen = {}
    for i in (first,) + seq + (first,):
      for c in (cat, other):
        key, ask = c[i]
        ctx.at("request", key, "after", (first,) + seq)
        cls = ask()
        if key in seen:
          ctx.check(seen[key] is cls, "a second request gave another class", key, (first,) + seq)
        for k, other_cls in seen.items():
          if k != key:
            ctx.check(other_cls is not cls, "two structures share a class", key, k, (first,) + seq)
        seen[key] = cls
        behave(ctx, key, cls)
    ctx.state((first,) + seq)
    ctx.trace()
  ctx.sample("first request %d, then every sequence of %d" % (first, depth - 1))


def mix(ctx, key, classes):
  """Elements made by different callers combine."""
  kind, p = key[:2]
  for a, b in itertools.permutations(classes, 2):
    if kind in ("Z", "F"):
      ctx.check(a(3) + b(2) == a(5) and type(a(3) * b(2)) is type(b(2) * a(3)),
                "elements made by two callers do not combine", key)
    elif kind == "ZX":
      ctx.check(a([1, 2]) + b([2, 1]) == a([3, 3]), "polynomials made by two callers do not combine", key)


def threads(ctx, picks, preemptions, start):
  primes = fresh_primes(start)
  used = {}

  def make(k):
    p = next(primes)
    cat = catalogue(p)
    used[k] = [cat[i] for i in picks]
    if any(cat[i][0][0] in ("F", "ZX", "ZXY") for i in picks):
      cat[0][1]()  # the prime field, and for F the ring the modulus lives in
    if any(cat[i][0][0] == "F" for i in picks):
      cat[8][1]()
    return [ask for _, ask in used[k]]

  def check(run, k):
    ctx.at("schedule", [c for c, _ in run.trace])
    for i, e in enumerate(run.error):
      if e is not None:
        ctx.fail("thread %d failed: %s: %s" % (i, type(e).__name__, e), used[k][i][0])
    by_key = {}
    for (key, ask), cls in zip(used[k], run.result):
      by_key.setdefault(key, []).append(cls)
      behave(ctx, key, cls)
      by_key[key].append(ask())
    for key, classes in by_key.items():
      ctx.check(len(set(map(id, classes))) == 1, "concurrent requests gave different classes", key)
      mix(ctx, key, classes)
    keys = list(by_key)
    for a, b in itertools.combinations(keys, 2):
      ctx.check(by_key[a][0] is not by_key[b][0], "two structures share a class", a, b)
    ctx.state(tuple(c for c, _ in run.trace))
    ctx.step(len(run.trace))
    ctx.outcome(len(run.trace))
    ctx.trace()

  n = sched.explore(make, preemptions, check)
  ctx.sample("requests %s: %d schedules with <= %d preemptions" % (picks, n, preemptions))


def rings(ctx):
  """Pairs of polynomial ring requests over equal and different coefficient fields."""
  from starks.polynomial import polynomials_over
  from starks.multivariate_polynomial import multivariates_over
  fields = [env.prime_field(5).F, env.prime_field(7).F, env.ext_field(2, [1, 1, 0, 1]).F,
            env.ext_field(2, [1, 0, 1, 1]).F, env.ext_field(3, [1, 0, 1]).F, env.ext_field(3, [2, 1, 1]).F]
  reqs = []
  for i, F in enumerate(fields):
    reqs.append((("X", i), lambda F=F: polynomials_over(F)))
    for n in (1, 2, 3):
      reqs.append((("M", i, n), lambda F=F, n=n: multivariates_over(F, n)))
  seen = {}
  for (ka, fa), (kb, fb) in itertools.product(reqs, repeat=2):
    a, b = fa(), fb()
    ctx.check((a is b) is (ka == kb), "identity of polynomial rings", ka, kb)
    if ka[0] == "X":
      ctx.check(a.ring is fields[ka[1]], "coefficient ring", ka)
    ctx.check(seen.setdefault(ka, a) is a, "a later request gave another ring", ka)
    ctx.state((ka, kb))
  ctx.trace()


def moduli(ctx, p, m, low, start):
  """Every irreducible modulus of a degree (or all that differ only in low terms): pairwise different fields."""
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  if low is None:
    mods = ref.irreducibles(p, m)
  else:
    mods = [c + [0] * (m - low) + [1] for c in map(list, itertools.product(range(p), repeat=low))]
    mods = [f for f in mods if f[0] and rabin(f, p)]
  P = polynomials_over(IntegersModP(p))
  seen = []
  for rnd in range(2):
    for i, f in enumerate(mods):
      ctx.at("field", p, m, f)
      F = FiniteField(p, m, polynomialModulus=P(list(f)))
      if rnd:
        ctx.check(F is seen[i], "a second request gave another class", f)
      else:
        ctx.check(all(F is not G for G in seen), "two structures share a class", f)
        seen.append(F)
      ctx.eq([int(c) for c in F.ideal_generator.coefficients], f, "modulus of the field", f)
      x = F([0] * (m - 1) + [1]) * F([0, 1])
      ctx.eq([int(c) for c in x.poly.coefficients], ref.trim([-c % p for c in f[:-1]]), "x^m", f)
      ctx.state((p, tuple(f)))
      ctx.trace()
  ctx.sample("%d moduli of degree %d over Z/%d" % (len(mods), m, p))


def rabin(f, p):
  """Irreducibility by Rabin's criterion."""
  m, x = len(f) - 1, [0, 1]
  for r in [r for r in range(2, m + 1) if m % r == 0 and ref.is_prime(r)]:
    h = ref.psub(ref.ppowmod(x, p**(m // r), f, p), x, p)
    if len(ref.pgcd(f, h, p)) != 1:
      return False
  return not ref.psub(ref.ppowmod(x, p**m, f, p), x, p)


def refusals(ctx, start):
  """A refused request is refused again, and does not disturb the valid ones."""
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  primes = fresh_primes(start)
  for seq in itertools.product(range(3), repeat=4):
    p = next(primes)
    P = polynomials_over(IntegersModP(p))
    good = None
    for i in seq:
      ctx.at("requests", seq)
      if i == 0:
        ctx.raises(lambda: FiniteField(p, 2, P([p - 1, 0, 1])), ValueError, "reducible modulus", p)
      elif i == 1:
        F = FiniteField(p, 2, P([1, 0, 1]))
        ctx.check(good is None or F is good, "a second request gave another class", seq)
        good = F
        behave(ctx, ("F", p, 1), F)
      else:
        ctx.raises(lambda: FiniteField(p, polynomialModulus=P([0, 0, 1]), m=2), ValueError, "reducible modulus", p)
    ctx.state(seq)
    ctx.trace()


def spellings(ctx, start):
  """Numbers that equal integers but are none: whoever asks first, the integers' structure computes with integers."""
  from decimal import Decimal
  from fractions import Fraction
  import sympy
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.multivariate_polynomial import multivariates_over
  from starks.polynomial import polynomials_over
  from starks.rationals_modp import RationalsModP
  primes = fresh_primes(start)
  large = [q for q in range(2**44 + 1, 2**44 + 4000, 2) if sympy.isprime(q)]
  spell = [float, Fraction, Decimal, complex, sympy.Integer, lambda p: p]
  for j, f in enumerate(spell):
    for g in range(len(spell)):
      for big in (False, True):
        p = large.pop() if big else next(primes)
        seq = [f, spell[g], spell[-1]]
        ctx.at("spelling", j, g, p)
        got = []
        for h in seq:
          for make, name in ((IntegersModP, "prime"), (RationalsModP, "rational")):
            try:
              got.append((name, make(h(p))))
            except (TypeError, ValueError, AttributeError):
              ctx.check(h is not spell[-1], "an integer was refused", name, p)
        F = IntegersModP(p)
        ctx.check(type(F.p) is int and type(F.field_size) is int, "a modulus that is no integer", F.p)
        for name, c in got:
          ctx.check(c is (F if name == "prime" else RationalsModP(p)), "another class for an equal number", name, p, j, g)
        a, b = p - 2, p - 3
        ctx.check(type(F(a).n) is int and (F(a) * F(b)).n == 6 % p and (F(a) * F(b).inverse() * F(b)).n == a, "arithmetic", p, j, g)
        ctx.eq(F(a).to_bytes(), a.to_bytes(32, "big"), "bytes", p, j, g)
        R = RationalsModP(p)
        ctx.check(R(a) * R(b) == R(6 % p) and R(a) != R(b), "rational arithmetic", p, j, g)
        ctx.state((j, g, p))
    # extension fields and rings
    p = next(primes)
    P = polynomials_over(IntegersModP(p))
    modulus = P([1, 0, 1])
    for k, args in enumerate(((f(p), 2), (p, f(2)), (f(p), f(2)), (p, 2))):
      try:
        FiniteField(*args, modulus)
      except (TypeError, ValueError, AttributeError):
        ctx.check(k < 3, "integers were refused", p)
    E = FiniteField(p, 2, modulus)
    ctx.check(type(E.m) is int and type(E.p) is int and E.field_size == p * p and type(E.field_size) is int, "parameters of a field", E.p, E.m)
    ctx.check(E([0, 1]) * E([0, 1]) == E(p - 1), "arithmetic", p)
    try:
      multivariates_over(E, f(2))
    except (TypeError, ValueError, AttributeError):
      pass
    M = multivariates_over(E, 2)
    ctx.check(type(M.num_vars) is int and (M({(1, 0): 1}) + M(1))([E(2), E(5)]) == E(3), "multivariate arithmetic", p)
    ctx.trace()


def crowd(ctx, kind, count, start):
  """What was asked for first is still the same class after many other requests."""
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  from starks.multivariate_polynomial import multivariates_over
  from starks.rationals_modp import RationalsModP
  F7 = IntegersModP(7)
  primes = fresh_primes(start)
  asks = {
      "prime": lambda p, i: IntegersModP(p),
      "rational": lambda p, i: RationalsModP(p),
      "field": lambda p, i: FiniteField(p, 1),
      "extension": lambda p, i: FiniteField(p, 2, polynomialModulus=polynomials_over(IntegersModP(p))([1, 0, 1])),
      "ring": lambda p, i: polynomials_over(IntegersModP(p)),
      "multivariate": lambda p, i: multivariates_over(IntegersModP(p), 2),
      "variables": lambda p, i: multivariates_over(F7, i + 1),
  }
  ask = asks[kind]
  ps = [next(primes) for _ in range(count)]
  got = []
  for i, p in enumerate(ps):
    ctx.at("request", kind, p, i)
    got.append(ask(p, i))
    ctx.check(ask(p, i) is got[i], "a second request gave another class", kind, p, i)
    # the first, and the one half way back, are asked for again and again
    for j in {0, i // 2, i - 1 if i else 0}:
      ctx.check(ask(ps[j], j) is got[j], "a request repeated after many others gave another class", kind, ps[j], j, i)
    ctx.state((kind, p, i))
  for i, p in enumerate(ps):
    ctx.check(ask(p, i) is got[i], "a request repeated after many others gave another class", kind, p, i, count)
  ctx.check(len(set(map(id, got))) == count, "two structures share a class", kind)
  ctx.trace()


def alike(ctx):
  """Parameters that hash alike, or are the same numbers in another order."""
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  from starks.multivariate_polynomial import multivariates_over
  from starks.rationals_modp import RationalsModP
  M = 2**61 - 1  # hash(n) is n mod M
  seen = {}

  def put(key, cls):
    ctx.at("request", key)
    for k, c in seen.items():
      if k[0] == key[0]:
        ctx.check((c is cls) is (k == key), "two structures share a class, or one has two", k, key)
    seen[key] = cls
    ctx.state(key)

  for rnd in range(2):
    for r in (2, 3, 5, 7, 11, 13, 101, 103):
      twins = [r] + [q for q in (r + M * k for k in range(1, 200)) if ref.is_prime(q)][:2]
      for q in twins:
        Z = IntegersModP(q)
        put(("Z", q), Z)
        ctx.eq((int(Z(q - 1) * Z(q - 1)), int(Z.p)), (1, q), "arithmetic of the class handed out", q)
        Q = RationalsModP(q)
        put(("Q", q), Q)
        ctx.check(Q(1, 2) + Q(1, 2) == Q(1), "arithmetic of the class handed out", q) if q > 2 else None
        P = polynomials_over(Z)
        put(("ZX", q), P)
        ctx.check(P.ring is Z, "coefficient ring", q)
        V = multivariates_over(Z, 2)
        put(("ZXY", q), V)
        ctx.eq(int(list(V({(1, 0): q - 1}).coefficients.values())[0]), q - 1, "arithmetic of the class handed out", q)
        if q % 4 == 3:
          F = FiniteField(q, 2, polynomialModulus=P([1, 0, 1]))
          put(("F", q), F)
          ctx.eq([int(c) for c in (F([0, 1]) * F([0, 1])).poly.coefficients], [q - 1], "arithmetic of the class handed out", q)
  # (p, m) and (m, p); moduli with the same numbers in another order or place
  for rnd in range(2):
    for p, m in ((2, 3), (3, 2), (2, 5), (5, 2), (3, 5), (5, 3), (2, 7), (7, 2)):
      with env.source(env.Odometer(1)):
        F = FiniteField(p, m)
      put(("G", p, m), F)
      ctx.eq((int(F.p), F.m), (p, m), "parameters of the field", p, m)
      x = F([0, 1])
      ctx.eq([int(c) for c in (x - x).poly.coefficients], [], "arithmetic of the class handed out", p, m)
      ctx.check(x**(p**m) == x and x**p != x, "arithmetic of the class handed out", p, m)
      s, step = x, 0
      for step in range(1, p):
        ctx.check(s != F(0), "characteristic of the class handed out", p, m)
        s = s + x
      ctx.check(s == F(0), "characteristic of the class handed out", p, m)
      for f in ref.irreducibles(p, m)[:6]:
        H = FiniteField(p, m, polynomialModulus=polynomials_over(IntegersModP(p))(list(f)))
        put(("H", p, m, tuple(f)), H)
        ctx.eq(([int(c) for c in H.ideal_generator.coefficients], int(H.p), H.m), (list(f), p, m), "parameters of the field", p, m, f)
  for rnd in range(2):
    for n in range(1, 6):
      for p in (2, 3, 5):
        put(("V", p, n), multivariates_over(IntegersModP(p), n))
  ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  n = 12
  out = [("histories-%d" % i, histories, dict(depth=4 if t else 3, first=i, start=10**5 * (i + 1) + 3))
         for i in range(n)]
  pairs = [(0, 0), (0, 1), (2, 2), (3, 3), (3, 4), (3, 7), (8, 8), (10, 10), (0, 11)]
  for a, b in pairs:
    small = a in (0, 2, 8, 10)
    out.append(("threads-%d-%d" % (a, b), threads,
                dict(picks=(a, b), preemptions=2 if t or small else 1, start=20000)))
  for picks in ((0, 0, 0), (3, 4, 7), (8, 8, 9)):
    out.append(("threads-%s" % "-".join(map(str, picks)), threads,
                dict(picks=picks, preemptions=(2 if t else 1) if picks[0] == 0 else 1 if t or picks[0] == 8 else 0, start=40000)))
  out += [("moduli-%d-%d" % (p, m), moduli, dict(p=p, m=m, low=low, start=0)) for p, m, low in (
      (2, 8, None), (2, 5, None), (2, 16, 8), (2, 32, 10 if t else 9), (3, 4, None), (5, 3, None)) + (((2, 10, None), (3, 6, None)) if t else ())]
  out += [("crowd-" + k, crowd, dict(kind=k, count=n * (4 if t else 1), start=10**7 + 10**5 * i)) for i, (k, n) in enumerate((
      ("prime", 1200), ("rational", 1200), ("field", 600), ("extension", 300), ("ring", 1200), ("multivariate", 1200), ("variables", 300)))]
  out.append(("alike", alike, {}))
  return out + [("rings", rings, {}), ("refusals", refusals, dict(start=3 * 10**6)), ("spellings", spellings, dict(start=5 * 10**6))]
