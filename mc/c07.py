import fractions
import decimal
import itertools

from mc import env, ref
from mc.c04 import PB
from mc.c06 import MB

ID = "C07"
BOUNDS = {
    "scalars": "every element of Z/p (p = 2, 3, 5, 7) and of GF(4), GF(9), GF(8) against every integer in -2p..3p, "
               "on both sides of + - * / == !=; large integers against a 256 bit field",
    "polynomials": "every polynomial of degree <= 2 over Z/2, Z/3 and degree <= 1 over Z/5 against every integer "
                   "and prime field element; against every element of the extension field over the same prime",
    "multivariate": "polynomials with <= 2 terms in 2 variables over Z/3, Z/5, GF(4) against integers and elements",
    "refusal": "unconvertible operands of seven kinds, and ten fractions, floats and complex numbers on either side, on every operation of every type",
    "aliens": "every element (every constant, and some other polynomials) of each of 18 structures against every one of every other structure that "
              "it does not embed into: extension field elements with elements of other fields, polynomials with elements of other fields "
              "or with polynomials in other variables; every operation on both sides",
}


def ops(x, s, divide):
  out = [("x+s", lambda: x + s), ("s+x", lambda: s + x), ("x-s", lambda: x - s), ("s-x", lambda: s - x),
         ("x*s", lambda: x * s), ("s*x", lambda: s * x)]
  if divide:
    out += [("x/s", lambda: x / s), ("s/x", lambda: s / x)]
  return out


def ref_op(rf, name, a, b):
  """Reference result, None where a division by zero is asked for."""
  if name in ("x+s", "s+x"):
    return rf.add(a, b)
  if name in ("x*s", "s*x"):
    return rf.mul(a, b)
  if name == "x-s":
    return rf.sub(a, b)
  if name == "s-x":
    return rf.sub(b, a)
  if name == "x/s":
    return rf.div(a, b) if b else None
  return rf.div(b, a) if a else None


def field_scalars(ctx, br, elements, ints):
  for a in elements:
    x = br.to(a)
    for n in ints:
      v = n % br.p
      # the code divides by the right operand's inverse(), which an int lacks
      for name, fn in ops(x, n, True):
        if name == "x/s":
          continue
        ctx.at(br.F.__name__, name, a, n)
        want = ref_op(br.rf, name, a, v)
        if want is None:
          ctx.raises(fn, Exception, "division by zero answered", a, n)
        else:
          ctx.eq(br.frm(fn()), want, "mixed %s" % name, br.F.__name__, a, n)
      ctx.check((x == n) is (a == v), "element == int", br.F.__name__, a, n)
      ctx.check((x != n) is (a != v), "element != int", br.F.__name__, a, n)
      ctx.check((n == x) is (a == v), "int == element", br.F.__name__, a, n)
      ctx.eq(br.frm(x), a, "operand changed", br.F.__name__, a, n)
      ctx.state((br.F.__name__, a, n))
    ctx.trace()


def prime(ctx, p):
  field_scalars(ctx, env.prime_field(p), range(p), range(-2 * p, 3 * p + 1))


def big(ctx):
  p = 2**256 - 2**32 * 351 + 1
  vals = [0, 1, 2, p - 1, p // 2, 2**64, 2**255]
  field_scalars(ctx, env.prime_field(p), vals, [n + k * p for n in vals for k in (-2, -1, 0, 1, 5)])


def ext(ctx, p, mod):
  br = env.ext_field(p, mod)
  field_scalars(ctx, br, range(br.q), range(-2 * p, 3 * p + 1))
  base = env.prime_field(p)
  for a in range(br.q):
    for c in range(p):
      x, s = br.to(a), base.to(c)
      for name, fn in ops(x, s, True):
        ctx.at(br.F.__name__, name, a, c)
        want = ref_op(br.rf, name, a, c)
        if want is None:
          ctx.raises(fn, Exception, "division by zero answered", a, c)
        elif name in ("x+s", "x-s", "x*s", "s+x", "s*x", "s-x"):
          ctx.eq(br.frm(fn()), want, "mixed with the prime subfield, %s" % name, br.F.__name__, a, c)
      ctx.check((x == s) is (a == c), "element == prime field element", a, c)
    ctx.trace()


def polys(ctx, p, deg, mod):
  pb = PB(env.prime_field(p))
  rf = pb.rf
  br = env.ext_field(p, mod)
  for c in itertools.product(range(p), repeat=deg + 1):
    a = ref.trim(c)
    f = pb.to(a)
    for n in range(-p, 2 * p):
      b = ref.trim([n % p])
      for s in (n, pb.br.F(n)):
        ctx.at("polynomial with scalar", a, s)
        for name, fn, want in (("f+s", lambda: f + s, rf.padd(a, b)), ("s+f", lambda: s + f, rf.padd(a, b)),
                               ("f-s", lambda: f - pb.P(s), rf.psub(a, b)), ("s-f", lambda: s - f, rf.psub(b, a)),
                               ("f*s", lambda: f * s, rf.pmul(a, b)), ("s*f", lambda: s * f, rf.pmul(a, b))):
          ctx.eq(pb.frm(fn()), want, "polynomial with scalar, " + name, a, n, type(s).__name__)
        if type(s) is int:
          ctx.eq(pb.frm(f - s), rf.psub(a, b), "polynomial - int", a, n)
        ctx.check((f == s) is (a == b), "polynomial == scalar", a, n)
        ctx.check((f != s) is (a != b), "polynomial != scalar", a, n)
        if b:
          ctx.eq(pb.frm(f / s), rf.pdivmod(a, b)[0], "polynomial / scalar", a, n)
          ctx.eq(pb.frm(f % s), [], "polynomial % scalar", a, n)
    # the extension field over the same prime absorbs a polynomial
    w = br.rf.undigits((ref.pdivmod(a, mod, p)[1] + [0] * br.m)[:br.m])
    for e in range(br.q):
      x = br.to(e)
      for name, fn in ops(x, f, False):
        ctx.at("extension element with polynomial", name, e, a)
        ctx.eq(br.frm(fn()), ref_op(br.rf, name, e, w), "extension element with polynomial, " + name, e, a)
      ctx.state((tuple(a), e))
    ctx.trace()


def multi(ctx, field, coeffs):
  from mc.c06 import few_terms
  br = env.prime_field(field) if isinstance(field, int) else env.ext_field(*field)
  mb = MB(br, 2)
  rf = mb.rf
  zero = (0, 0)
  for a in few_terms(br.q, 2, 1, 2, coeffs):
    f = mb.to(a)
    for s, v in [(n, n % br.p) for n in range(-br.p, 2 * br.p)] + [(br.to(e), e) for e in range(br.q)]:
      b = ref.mclean({zero: v})
      nb = ref.mneg(rf, b)
      ctx.at("multivariate with scalar", a, s)
      cases = [("f+s", lambda: f + s, ref.madd(rf, a, b)), ("s+f", lambda: s + f, ref.madd(rf, a, b)),
               ("f-s", lambda: f - s, ref.madd(rf, a, nb)),
               ("s-f", lambda: s - f, ref.madd(rf, ref.mneg(rf, a), b)),
               ("f*s", lambda: f * s, ref.mmul(rf, a, b)), ("s*f", lambda: s * f, ref.mmul(rf, a, b))]
      for name, fn, want in cases:
        ctx.eq(mb.frm(fn()), want, "multivariate with scalar, " + name, a, v, type(s).__name__)
      ctx.check((f == s) is (a == b), "multivariate == scalar", a, v)
      ctx.eq(mb.frm(f), a, "operand changed", a, v)
      ctx.state((str(a), v, type(s).__name__))
    ctx.trace()


def refusal(ctx):
  from starks.rationals_modp import RationalsModP
  junk = ["abc", None, object(), b"", {}, [[]], lambda: 0]
  z7 = env.prime_field(7)
  f4 = env.ext_field(2, [1, 1, 1])
  things = [z7.to(3), env.prime_field(2**61 - 1).to(5), f4.to(2), PB(z7).to([1, 2]), MB(z7, 2).to({(1, 0): 2})]
  for x in things:
    for j in junk[:3] + junk[6:]:
      for name, fn in (("+", lambda: x + j), ("-", lambda: x - j), ("*", lambda: x * j), ("/", lambda: x / j)):
        ctx.at("refusal", x, name, j)
        ctx.raises(fn, (TypeError, ValueError, AttributeError), "an unconvertible operand was accepted", x, name, j)
      ctx.state((repr(x), repr(type(j))))
    ctx.trace()
  # numbers that are no integers belong to none of the structures
  Q = RationalsModP(7)
  things += [Q(2, 3), Q(1), z7.to(0), z7.to(2), PB(f4).to([1, 2]), PB(z7).to([2]), MB(f4, 1).to({(1,): 2}), MB(z7, 1).to({(0,): 2})]
  halves = [2.5, -0.5, 0.1, float("nan"), float("inf"), fractions.Fraction(1, 2), fractions.Fraction(22, 7), decimal.Decimal("2.5"), 1j, 2 + 1j]
  for x in things:
    for j in halves + (["0", "1", "5", "12"] if hasattr(x, "num_vars") or "X_1" in repr(x) else []):
      for name, fn in (("+", lambda: x + j), ("-", lambda: x - j), ("*", lambda: x * j), ("/", lambda: x / j), ("built", lambda: type(x)(j)),
                       ("+ ", lambda: j + x), ("- ", lambda: j - x), ("* ", lambda: j * x), ("/ ", lambda: j / x)):
        ctx.at("refusal", x, name, j)
        ctx.raises(fn, Exception, "a number that is no integer was accepted", x, name, j)
      for fn in (lambda: x == j, lambda: j == x):
        try:
          same = fn()
        except TypeError:
          continue
        ctx.check(same is False, "equal to a number that is no integer", x, j)
      ctx.state((repr(x), repr(j)))
    ctx.trace()


def structures():
  """name -> (kind, characteristic, degree, elements)"""
  from starks.rationals_modp import RationalsModP
  zs = {p: env.prime_field(p) for p in (2, 3, 5, 7)}
  fs = {"f4": (2, [1, 1, 1]), "f8": (2, [1, 1, 0, 1]), "f8b": (2, [1, 0, 1, 1]), "f9": (3, [1, 0, 1]), "f9b": (3, [2, 1, 1]),
        "f25": (5, [2, 0, 1])}
  fs = {n: env.ext_field(*v) for n, v in fs.items()}
  out = {"z%d" % p: ("prime", p, [b.to(a) for a in range(p)]) for p, b in zs.items()}
  out.update({n: ("ext", n, [b.to(a) for a in range(b.q)]) for n, b in fs.items()})
  for p in (5, 7):
    Q = RationalsModP(p)
    out["q%d" % p] = ("rational", p, [Q(m, n) for m in range(-1, 3) for n in (1, 2, 3)])
  for p in (2, 5, 7):
    pb = PB(zs[p])
    out["P%d" % p] = ("poly", p, [pb.to(c) for c in ([1], [p - 1], [0, 1], [1, 1], [1, 0, 1])])
  for n in ("f4", "f9"):
    pb = PB(fs[n])
    out["P" + n] = ("polyext", n, [pb.to(c) for c in ([1], [2], [0, 1], [2, 3], [1, 0, 2])])
  for p, k in ((7, 2), (7, 3), (5, 2)):
    mb = MB(zs[p], k)
    z = (0,) * k
    out["M%d-%d" % (p, k)] = ("multi", (p, k), [mb.to(c) for c in ({z: 1}, {z: p - 1}, {(1,) + z[1:]: 1}, {z: 2, (1,) * k: 1})])
  return out


CHAR = {"f4": 2, "f8": 2, "f8b": 2, "f9": 3, "f9b": 3, "f25": 5}


def foreign(a, b):
  """Neither structure embeds into the other, and the code does not define a conversion."""
  (k, x), (l, y) = a, b
  if k == l:
    return k not in ("prime", "poly") and x != y
  ks = {k, l}
  get = dict(((k, x), (l, y)))
  if ks == {"prime", "ext"}:
    return CHAR[get["ext"]] != get["prime"]
  if ks == {"prime", "poly"}:
    return get["prime"] != get["poly"]
  if ks == {"prime", "multi"}:
    return get["prime"] != get["multi"][0]
  if ks == {"prime", "polyext"}:
    return CHAR[get["polyext"]] != get["prime"]
  if ks == {"ext", "polyext"}:
    return get["ext"] != get["polyext"]
  if ks == {"poly", "polyext"}:
    return CHAR[get["polyext"]] != get["poly"]
  if ks == {"prime", "rational"} or ks == {"ext", "poly"}:
    return False
  return True


def aliens(ctx, only):
  st = structures()
  for n, (k, x, xs) in st.items():
    if k != only:
      continue
    for m, (l, y, ys) in st.items():
      if m == n or not foreign((k, x), (l, y)):
        continue
      for a in xs:
        for b in ys:
          ctx.at("alien", n, a, m, b)
          for name, fn in (("+", lambda: a + b), ("-", lambda: a - b), ("*", lambda: a * b), ("/", lambda: a / b),
                           ("+ ", lambda: b + a), ("- ", lambda: b - a), ("* ", lambda: b * a), ("/ ", lambda: b / a)):
            ctx.raises(fn, Exception, "operands of unrelated structures were combined", n, a, name, m, b)
          for fn in (lambda: a == b, lambda: b == a):
            try:
              same = fn()
            except TypeError:
              continue
            ctx.check(same is False, "values of unrelated structures compare equal", n, a, m, b)
        ctx.state((n, m, repr(a)))
      ctx.trace()


def chunks(tier):
  out = [("prime-%d" % p, prime, dict(p=p)) for p in (2, 3, 5, 7)] + [("big", big, {})]
  exts = [(2, [1, 1, 1]), (3, [1, 0, 1]), (2, [1, 1, 0, 1]), (2, [1, 1, 0, 0, 1]), (5, [2, 0, 1])]
  out += [("ext-%d-%d" % (p, len(m) - 1), ext, dict(p=p, mod=m)) for p, m in exts]
  out += [("polys-%d" % p, polys, dict(p=p, deg=d, mod=m)) for p, d, m in (
      (2, 3, [1, 1, 0, 1]), (3, 2, [1, 0, 1]), (5, 1, [2, 0, 1]))]
  out += [("multi-%s" % n, multi, dict(field=f, coeffs=c)) for n, f, c in (
      ("Z3", 3, [1, 2]), ("Z5", 5, [1, 3]), ("GF4", (2, [1, 1, 1]), [1, 2, 3]), ("GF9", (3, [1, 0, 1]), [1, 5]))]
  out += [("alien-" + k, aliens, dict(only=k)) for k in ("prime", "ext", "rational", "poly", "polyext", "multi")]
  return out + [("refusal", refusal, {})]
