"""Explorations shared by the field properties, over env.Bridge-like pairs."""
import itertools
import operator

BIN = [("+", operator.add, "add"), ("-", operator.sub, "sub"), ("*", operator.mul, "mul"),
       ("/", operator.truediv, "div")]


def apply_all(ctx, br, xa, xb, a, b, ints=True):
  """Every operation on one pair of elements, each compared with the reference."""
  rf = br.rf
  for sym, op, ref in BIN:
    ctx.at(br.F.__name__, sym, a, b)
    if ref == "div" and b == 0:
      ctx.raises(lambda: op(xa, xb), Exception, "division by zero answered", a, b)
      continue
    got = op(xa, xb)
    ctx.eq(br.frm(got), getattr(rf, ref)(a, b), "%s: %d %s %d" % (br.F.__name__, a, sym, b))
  ctx.at(br.F.__name__, "==", a, b)
  ctx.check((xa == xb) is True if a == b else (xa == xb) is False,
            "%s: equality of %d and %d" % (br.F.__name__, a, b), xa, xb)
  ctx.check((xa != xb) is (a != b), "%s: inequality of %d and %d" % (br.F.__name__, a, b))
  ctx.eq(br.frm(xa), a, "left operand changed", br.F.__name__, a, b)
  ctx.eq(br.frm(xb), b, "right operand changed", br.F.__name__, a, b)
  if ctx.state((br.F.__name__, a, b)):
    ctx.outcome((br.frm(xa), br.frm(xb)))


def unary(ctx, br, x, a, exponents):
  rf = br.rf
  ctx.at(br.F.__name__, "unary", a)
  ctx.eq(br.frm(-x), rf.neg(a), "%s: -%d" % (br.F.__name__, a))
  if a:
    inv = x.inverse()
    ctx.eq(br.frm(inv), rf.inv(a), "%s: inverse of %d" % (br.F.__name__, a))
    ctx.eq(br.frm(x * inv), 1, "%s: %d times its inverse" % (br.F.__name__, a))
    ctx.eq(br.frm(inv.inverse()), a, "%s: inverse of inverse of %d" % (br.F.__name__, a))
  else:
    ctx.raises(x.inverse, Exception, "zero was inverted in %s" % br.F.__name__)
  for n in exponents:
    ctx.at(br.F.__name__, "**", a, n)
    ctx.eq(br.frm(x**n), rf.pow(a, n), "%s: %d ** %d" % (br.F.__name__, a, n))
  few = {-n for n in exponents if 0 < n < 40 or n % 4 == 3} | {-1, -2, -3, 1 - br.q, -br.q, -2**64 - 1}
  for n in sorted(few):
    ctx.at(br.F.__name__, "**", a, n)
    if a:
      ctx.eq(br.frm(x**n), rf.pow(rf.inv(a), -n), "%s: %d ** %d" % (br.F.__name__, a, n))
    else:
      ctx.raises(lambda: x**n, Exception, "zero has a negative power in %s" % br.F.__name__, n)
  for n in (0.5, 2.0, -1.5, "2", None, x):
    ctx.at(br.F.__name__, "**", a, n)
    ctx.raises(lambda: x**n, Exception, "an exponent that is no integer is answered in %s" % br.F.__name__, a, n)
  ctx.eq(br.frm(x), a, "operand changed", br.F.__name__, a)


def tables(ctx, br, exponents):
  """Complete operation tables, on shared operand objects."""
  els = [br.to(a) for a in range(br.q)]
  for a in range(br.q):
    unary(ctx, br, els[a], a, exponents)
  for a in range(br.q):
    for b in range(br.q):
      apply_all(ctx, br, els[a], els[b], a, b)
    ctx.trace()
  ctx.sample("%s: all %d pairs x + - * / == !=" % (br.F.__name__, br.q**2))


def pairs(ctx, br, alphabet, exponents=()):
  els = {a: br.to(a) for a in alphabet}
  for a in alphabet:
    unary(ctx, br, els[a], a, exponents)
  for a in alphabet:
    for b in alphabet:
      apply_all(ctx, br, els[a], els[b], a, b)
    ctx.trace()
  ctx.sample("%s alphabet %s" % (br.F.__name__, alphabet[:8]))


def histories(ctx, br, depth, operands):
  """All operation sequences up to `depth` on one accumulator, fed with the
  same operand objects again and again, the result of a step being the operand
  of the next one.  States are the values reached with the path's last object."""
  els = [(a, br.to(a)) for a in operands]
  ops = [(sym, op, ref) for sym, op, ref in BIN] + [("rsub", lambda x, y: y - x, None),
                                                   ("self", None, None)]

  def go(x, v, d):
    ctx.state((br.F.__name__, v, d))
    if d == depth:
      ctx.trace()
      return
    for sym, op, ref in ops:
      if sym == "self":
        y, w = x * x + x, br.rf.add(br.rf.mul(v, v), v)
        ctx.eq(br.frm(y), w, "history: x*x+x at %d" % v, br.F.__name__)
        go(y, w, d + 1)
        continue
      for a, e in els:
        if sym == "/" and a == 0:
          continue
        y = op(x, e)
        w = getattr(br.rf, ref)(v, a) if ref else br.rf.sub(a, v)
        ctx.eq(br.frm(y), w, "history: %d %s %d" % (v, sym, a), br.F.__name__)
        ctx.eq(br.frm(x), v, "history: accumulator changed", sym, br.F.__name__)
        go(y, w, d + 1)

  for a, e in els:
    go(e, a, 0)
    for b, f in els:
      ctx.eq(br.frm(f), b, "shared operand changed", br.F.__name__)


def interleaved(ctx, bridges, values):
  """Operations on several fields alternating in one process, in every order of
  two fields: what was computed in one field may not show in another."""
  for f, g in itertools.permutations(range(len(bridges)), 2):
    for v in values:
      for w in values:
        for br in (bridges[f], bridges[g], bridges[f]):
          a, b = v % br.q, w % br.q
          xa, xb = br.to(a), br.to(b)
          apply_all(ctx, br, xa, xb, a, b)
          if a:
            ctx.eq(br.frm(xa.inverse()), br.rf.inv(a), "inverse after other fields",
                   br.F.__name__, a)
          ctx.eq(br.frm(xa**(w + 2)), br.rf.pow(a, w + 2), "power after other fields",
                 br.F.__name__, a)
        ctx.trace()


BIG_PRIMES = [2**31 - 1, 2**61 - 1, 2**64 - 59, 2**127 - 1, 2**255 - 19,
              2**256 - 2**32 * 351 + 1]


def boundary(p, wide=False):
  """Values at the edges of the field and of machine words, all reduced."""
  s = [0, 1, 2, 3, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2]
  for k in (8, 16, 31, 32, 53, 63, 64, 128, 255) if wide else (8, 32, 53, 64, 128):
    s += [2**k - 1, 2**k, 2**k + 1]
  s += [p // 3, p // 7 * 5, int("9e3779b97f4a7c15" * 4, 16)]
  out = []
  for v in s:
    v %= p
    if v not in out:
      out.append(v)
  return out
