import itertools

from mc import env

ID = "C10"
BOUNDS = {
    "sequences": "every sequence of 2 operations out of some 130 on one shared set of operands, over Z/5 and Z/257 "
                 "with GF(4), GF(9) alongside; every sequence of 3 in thorough (quick: of 24 of them)",
    "augmented": "the six augmented assignments on polynomials of every two lengths below 8 (thorough 14) after four warm-ups",
    "callers": "every container kind and size to 4, changed in 5 ways after an object was built from it",
    "helpers": "every helper that takes lists on every list of up to 4 distinct places in every order and of up to 4 values over Z/5, and five values of Z/257",
    "reused": "16 helpers with one container refilled between the calls, and with containers that live for one call only, lists of 4, 8, 16, 32",
    "observed": "after every step: the value of every operand, of every container passed in, of the results of "
                "all earlier steps, and the equality of the step's result with its result on fresh operands",
}


def snap(x):
  """The value of an object, read through its public attributes."""
  if isinstance(x, (list, tuple)):
    return (type(x).__name__,) + tuple(snap(v) for v in x)
  if isinstance(x, dict):
    return ("dict",) + tuple(sorted((repr(k), snap(v)) for k, v in x.items()))
  if isinstance(x, (int, bytes, str, bool, type(None), float)):
    return x
  t = type(x).__name__
  if hasattr(x, "coefficients"):
    return (t, snap(x.coefficients))
  if hasattr(x, "poly"):
    return (t, snap(x.poly))
  if hasattr(x, "m") and hasattr(x, "n") and isinstance(x.n, int):
    return (t, x.m, x.n)
  if hasattr(x, "n"):
    return (t, x.n)
  if all(hasattr(x, k) for k in "vpzs"):
    return (t, snap(x.v), snap(x.p), snap(x.z), snap(x.s))
  if hasattr(x, "basis"):
    return (t, snap(x.basis), snap(x.shift))
  return repr(x)


class Space:
  """Operands and the operations on them."""

  def __init__(self, p):
    from starks.modp import IntegersModP
    from starks.finitefield import FiniteField
    from starks.polynomial import polynomials_over
    from starks.multivariate_polynomial import multivariates_over
    from starks.rationals_modp import RationalsModP
    from starks.reedsolomon import AffineSpace
    from starks.floatingpoint import FloatingPoint
    Z, Q = IntegersModP(p), RationalsModP(p)
    self.p, self.Z = p, Z
    F4 = FiniteField(2, 2, polynomialModulus=polynomials_over(IntegersModP(2))([1, 1, 1]))
    F9 = FiniteField(3, 2, polynomialModulus=polynomials_over(IntegersModP(3))([1, 0, 1]))
    P, M, PF = polynomials_over(Z), multivariates_over(Z, 2), polynomials_over(F4)
    self.P, self.M, self.F4 = P, M, F4
    g = 2 if p == 5 else 64  # of order 4 mod 5, of order 8 mod 257
    self.v = dict(
        a=Z(3), b=Z(p - 2), u=Z(g), e=F4([0, 1]), h=F4([1, 1]), n=F9([1, 2]), r=Q(1, 2), s=Q(2, 3),
        f=P([1, 2, 0, 3]), g=P([4, 1]), k=P([0, 0, 1]), t=PF([F4(1), F4([0, 1])]), w=PF([F4([1, 1])]),
        m=M({(1, 0): 1, (0, 1): 2}), o=M({(0, 0): 3, (1, 1): 1}),
        xs=[Z(1), Z(2), Z(3), Z(4)], ys=[Z(0), Z(3), Z(1), Z(1)], zs=[Z(2), Z(0), Z(3), Z(0)],
        co={(0, 0): Z(1), (2, 1): Z(3)}, fs=[F4([0, 1]), F4(0), F4([1, 1])],
        leaves=[i.to_bytes(32, "big") for i in (3, 1, 4, 1, 5, 9, 2, 6)],
        evals=[[Z(1), Z(2), Z(3), Z(4)], [Z(4), Z(3), Z(2), Z(1)]],
        aq=polynomials_over(IntegersModP(3))([1, 2, 1]), aff=AffineSpace(IntegersModP(3), [IntegersModP(3)(1)], IntegersModP(3)(2)),
        branches=[[b"a" * 32, b"b" * 32], [b"b" * 32, b"c" * 32]], ent=b"entropy!" * 4)
    n = 4 if p == 5 else 8  # the order of u
    v = self.v
    F = FloatingPoint(F4)
    v.update(
        L=[Z((3 * i * i + i) % p) for i in range(n)], K=[Z((i + 2) % p) for i in range(n)],
        x2=[Z(1), Z(2)], y2=[Z(3), Z(0)], x3=[Z(4), Z(1), Z(2)], pt=[F4([0, 1]), F4(0)],
        xss=[[Z(1), Z(2), Z(3), Z(4)], [Z(2), Z(0), Z(4), Z(1)]], yss=[[Z(0), Z(3), Z(1), Z(1)], [Z(2), Z(0), Z(3), Z(0)]],
        mm=[M({(0, 0): 3, (1, 1): 1}), M({(1, 0): 1, (0, 1): 2})],
        proof=[[b"r" * 32, [[[b"a" * 32, b"b" * 32], [b"c" * 32]], [[b"a" * 32]]]], [b"x" * 32, b"y" * 32, b"x" * 32]],
        
        x=F(F4([1, 1]), F4([1]), 0, 0), y=F(F4([0, 1]), F4([0, 1]), 0, 1), o0=F(F4(0), F4([1]), 1, 0),
        inp=[Z(1), Z(3)], sp=[M({(0, 1): 1}), M({(1, 0): 2, (0, 1): 1})], rc=[3, 5, 7])
    from starks.merkle_tree import merkelize, mk_branch
    v["mtree"] = merkelize(v["leaves"])
    v["mbranch"] = mk_branch(v["mtree"], 3)

  def ops(self):
    from starks.air import AIR, get_computational_trace
    from starks import fri, finitefield as ff, euclidean as eu, poly_utils as pu, fft, merkle_tree as mt, compression as cp, utils as ut
    v, Z, P, M, F4 = self.v, self.Z, self.P, self.M, self.F4
    out = {}

    def add(name, fn):
      out[name] = fn

    for x, y in (("a", "b"), ("e", "h"), ("r", "s"), ("f", "g"), ("f", "k"), ("t", "w"), ("m", "o"), ("f", "a"),
                 ("m", "b"), ("n", "n")):
      add(x + "+" + y, lambda x=x, y=y: v[x] + v[y])
      add(x + "-" + y, lambda x=x, y=y: v[x] - v[y])
      add(x + "*" + y, lambda x=x, y=y: v[x] * v[y])
      add(x + "==" + y, lambda x=x, y=y: (v[x] == v[y], v[x] != v[y]))
      if (x, y) not in (("f", "a"), ("m", "b")):
        add(x + "/" + y, lambda x=x, y=y: v[x] / v[y])
      if x in "ft" and y not in "ae":
        add(x + "%" + y, lambda x=x, y=y: divmod(v[x], v[y]))

    def inplace(x, y, op):
      z = v[x]
      if op == "+":
        z += v[y]
      elif op == "-":
        z -= v[y]
      else:
        z *= v[y]
      return z

    for x, y in (("a", "b"), ("e", "h"), ("f", "g"), ("m", "o"), ("r", "s")):
      for op in "+-*":
        add(x + op + "=" + y, lambda x=x, y=y, op=op: inplace(x, y, op))
    for x in "aenrftmo":
      add("-" + x, lambda x=x: -v[x])
      add(x + "^5", lambda x=x: v[x]**5)
    for x in "aenr":
      add("inv " + x, lambda x=x: v[x].inverse())
    add("f(a)", lambda: v["f"](v["a"]))
    add("f(g)", lambda: v["f"](v["g"]))
    add("t(e)", lambda: v["t"](v["e"]))
    add("m(xs)", lambda: v["m"](v["x2"]))
    add("m(o)", lambda: v["m"](v["mm"]))
    add("P(f)", lambda: P(v["f"]))
    add("P(xs)", lambda: P(v["xs"]))
    add("P.factory(zs)", lambda: P.factory(v["zs"]))
    add("M(m)", lambda: M(v["m"]))
    add("M(co)", lambda: M(v["co"]))
    add("M(co)*m", lambda: M(v["co"]) * v["m"])
    add("F4(h)", lambda: F4(v["h"]))
    add("f.to_bytes", lambda: v["f"].to_bytes())
    add("e.to_bytes", lambda: v["e"].to_bytes())
    add("gcd", lambda: eu.gcd(v["f"], v["g"]))
    add("xgcd", lambda: eu.extended_euclidean_algorithm(v["f"], v["g"]))
    add("zpoly", lambda: pu.zpoly(Z, v["xs"]))
    add("multi_inv", lambda: pu.multi_inv(Z, v["zs"]))
    add("multi_inv4", lambda: pu.multi_inv(F4, v["fs"]))
    add("interp", lambda: pu.lagrange_interp(Z, v["xs"], v["ys"]))
    add("interp_4", lambda: pu.lagrange_interp_4(Z, v["xs"], v["ys"]))
    add("interp_2", lambda: pu.lagrange_interp_2(Z, v["x2"], v["y2"]))
    add("multi_interp", lambda: pu.multi_interp_4(Z, v["xss"], v["yss"]))
    add("make_multivar", lambda: pu.make_multivar(v["f"], 1, Z, 2))
    add("project", lambda: pu.project_to_univariate(v["m"], 0, Z, 2))
    add("dirac", lambda: pu.construct_multivariate_dirac_delta(self.F4, v["pt"], 2))
    add("fft f", lambda: fft.NonBinaryFFT(Z, v["u"]).fft(v["f"]))
    add("fft g", lambda: fft.NonBinaryFFT(Z, v["u"]).fft(v["g"]))
    add("inv_fft", lambda: fft.NonBinaryFFT(Z, v["u"]).inv_fft(v["L"]))
    add("mul_polys", lambda: fft.mul_polys(v["x2"], v["y2"], v["u"]))
    add("mul_polys3", lambda: fft.mul_polys(v["x3"], v["y2"], v["u"]))
    add("mul_polys4", lambda: fft.mul_polys(v["L"], v["K"], v["u"]))
    add("square", lambda: fft.mul_polys(v["x2"], v["x2"], v["u"]))
    add("verify_branch", lambda: mt.verify_branch(v["mtree"][1], 3, v["mbranch"]))
    add("mk_branch", lambda: mt.mk_branch(v["mtree"], 2))
    add("compress_fri", lambda: cp.decompress_fri(cp.compress_fri(v["proof"])))
    add("word+", lambda: v["e"].Regular_Binary_Addition(v["h"]))
    add("word<", lambda: v["e"].LT(v["h"]))
    add("two_pow", lambda: v["e"].two_pow())
    for x, y in (("x", "y"), ("y", "x"), ("x", "o0"), ("o0", "y")):
      add(x + "+f" + y, lambda x=x, y=y: v[x] + v[y])
      add(x + "-f" + y, lambda x=x, y=y: v[x] - v[y])
      add(x + "*f" + y, lambda x=x, y=y: v[x] * v[y])
      if y != "o0":
        add(x + "/f" + y, lambda x=x, y=y: v[x] / v[y])
      add(x + "==f" + y, lambda x=x, y=y: v[x] == v[y])
    add("trace", lambda: get_computational_trace(v["inp"], 4, 2, v["sp"]))
    add("AIR", lambda: (lambda a: (a.generate_witness(), a.B, a.output))(AIR(Z, 2, v["inp"], 511, v["sp"], 8)))
    add("mimc", lambda: ut.mimc(3, 5, v["rc"]))
    add("vanish", lambda: pu.construct_affine_vanishing_polynomial(v["aff"].field, v["aff"]))
    add("subspace", lambda: list(fri.select_subspace(v["aff"], 1)))
    add("on space", lambda: fri.eval_on_subspace(v["aq"], v["aff"]))
    add("merkelize", lambda: mt.merkelize(v["leaves"]))
    add("merkelize xs", lambda: mt.merkelize(v["xs"]))
    add("branch", lambda: mt.mk_branch(mt.merkelize(v["leaves"]), 5))
    add("packed", lambda: mt.merkelize_polynomial_evaluations(1, v["evals"]))
    add("permute4", lambda: mt.permute4(v["leaves"]))
    add("compress", lambda: cp_branches(cp, v["branches"]))
    add("indices", lambda: ut.get_pseudorandom_indices(v["ent"], 64, 9, 8))
    add("cycle", lambda: ut.get_power_cycle(v["u"], Z))
    add("Xi", lambda: ut.generate_Xi_s(Z, 2))
    add("aff", lambda: list(v["aff"]))
    return out


def cp_branches(cp, b):
  return cp.compress_branches(b), cp.decompress_branches(cp.compress_branches(b))


CORE = ("a*b", "e*h", "r+s", "f+g", "f-g", "f*g", "f%g", "m*o", "m+o", "f+=g", "m+=o", "-f", "f^5", "f(g)", "P(f)",
        "M(co)", "multi_inv", "interp", "fft f", "inv_fft", "mul_polys", "merkelize", "zpoly", "m/o")


def sequences(ctx, p, depth, names, part, parts):
  sp = Space(p)
  ops = sp.ops()
  pick = list(ops) if names is None else [n for n in ops if n in names]
  ctx.check(names is None or set(names) <= set(ops), "harness: missing operation")
  base = {n: snap(Space(p).ops()[n]()) for n in pick}
  before = {k: snap(x) for k, x in sp.v.items()}
  ids = {k: id(x) for k, x in sp.v.items()}

  def unchanged(seq):
    for k, x in sp.v.items():
      if snap(x) != before[k] or id(x) != ids[k]:
        ctx.fail("an operation changed an operand", "operand " + k, "was %r" % (before[k],),
                 "is %r" % (snap(x),), "operations %s" % (seq,))

  for first in pick[part::parts]:
    for rest in itertools.product(pick, repeat=depth - 1):
      kept = []
      seq = (first,) + rest
      for n in seq:
        ctx.at("sequence", seq, "step", n)
        r = ops[n]()
        ctx.eq(snap(r), base[n], "the result of an operation depends on what ran before", n, seq)
        for m, old in kept:
          ctx.check(snap(old) == base[m], "an operation changed the result of an earlier one", m, "by", n)
        kept.append((n, r))
      unchanged(seq)
      ctx.state((p, seq))
      ctx.outcome(seq[-1])
    ctx.trace()
  ctx.sample("p=%d, %d operations, sequences of %d" % (p, len(pick), depth))


def chained(ctx, p):
  """Results used as the next operands: every operand of the chain keeps its value."""
  sp = Space(p)
  v = sp.v
  pools = [["a", "b"], ["e", "h"], ["r", "s"], ["f", "g", "k"], ["m", "o"], ["t", "w"]]
  kinds = ["+", "-", "*", "+=", "-=", "*="]

  def do(x, y, op):
    if op == "+":
      return x + y
    if op == "-":
      return x - y
    if op == "*":
      return x * y
    if op == "+=":
      x += y
    elif op == "-=":
      x -= y
    else:
      x *= y
    return x

  for pool in pools:
    start = [v[k] for k in pool]

    def go(objs, snaps, d, hist):
      if d == 3:
        ctx.trace()
        return
      n = len(objs)
      for i in range(n):
        for j in range(n):
          if d and i != n - 1 and j != n - 1:
            continue  # the latest result takes part
          for op in kinds:
            ctx.at("chain", pool, hist, i, op, j)
            r = do(objs[i], objs[j], op)
            ctx.state((p, pool[0], hist, i, op, j))
            for k, (o, s) in enumerate(zip(objs, snaps)):
              ctx.check(snap(o) == s, "an operand changed in a chain", pool, hist, (i, op, j), k)
            go(objs + [r], snaps + [snap(r)], d + 1, hist + ((i, op, j),))

    go(start, [snap(o) for o in start], 1 if len(pool) > 2 else 0, ())


def augmented(ctx, field, longest):
  """Augmented assignments on polynomials of every pair of lengths: the object a name held before keeps its value."""
  from mc.c04 import bridge
  from starks.polynomial import polynomials_over
  from starks.multivariate_polynomial import multivariates_over
  br = bridge(field)
  F, q = br.F, br.q
  P, M = polynomials_over(F), multivariates_over(F, 2)
  el = lambda i: br.to(i % (q - 1) + 1)

  def uni(n, s):
    return P([el(i * i + s) for i in range(n)])

  def multi(n, s):
    return M({(i, (i * i + s) % 3): el(i + s) for i in range(n)})

  import operator as op
  kinds = {"+=": op.iadd, "-=": op.isub, "*=": op.imul, "/=": op.itruediv, "%=": op.imod, "**=": op.ipow}
  for make in (uni, multi):
    for a, b in itertools.product(range(longest), repeat=2):
      for same in (False, True):
        for warm in ("none", "neg", "value", "power", "bool"):
          for name, fn in kinds.items():
            if (name == "%=" and make is multi) or (name in ("/=", "%=") and not b):
              continue
            ctx.at("augmented", br.F.__name__, make.__name__, a, b, same, warm, name)
            x = make(a, 1)
            y = make(b, 1 if same else 2) if name != "**=" else b % 4
            if warm == "neg":
              w = -x
            elif warm == "value":
              w = x(br.to(1)) if make is uni else x([br.to(1)] * 2)
            elif warm == "power":
              w = x**2
            else:
              w = x.is_zero() if make is multi and warm == "bool" else None
            sx, sy, sw = snap(x), snap(y), snap(w)
            z = x
            try:
              z = fn(z, y)
            except TypeError:
              continue  # an operator these objects do not have
            sz = snap(z)
            ctx.eq(snap(x), sx, "an augmented assignment changed the object", name, a, b, warm)
            ctx.eq(snap(y), sy, "an augmented assignment changed its operand", name, a, b, warm)
            z = fn(z, y) if name != "**=" else z
            w2 = -x if warm == "neg" else w
            ctx.eq([snap(x), snap(y), snap(w), snap(w2)], [sx, sy, sw, sw], "an augmented assignment changed an earlier value", name, a, b, warm)
            ctx.eq(snap(fn(make(a, 1), y)), sz, "an augmented assignment depends on the past", name, a, b, warm)
            ctx.state((br.F.__name__, make.__name__, a, b, same, warm, name))
      ctx.trace()


def callers(ctx, p):
  """What the caller does with a container after passing it in changes nothing."""
  for size in range(5):
    for change in ("set", "append", "clear", "pop", "reverse"):
      for kind in range(9):
        sp = Space(p)
        Z, P, M, F4 = sp.Z, sp.P, sp.M, sp.F4
        PF = type(sp.v["t"])
        zs, es = [Z(i + 1) for i in range(size)], [F4([1, i % 2]) for i in range(size)]
        terms = [((i, 1), Z(i + 1)) for i in range(size)]
        box, build = [
            (zs, P), (zs, P.factory), (list(range(1, size + 1)), P), (es, PF), (es, PF.factory), (dict(terms), M),
            (dict(terms), M.factory), ([Z(1)] * min(size, 2), F4) if p == 2 else ([1] * min(size, 2), F4),
            ({k: int(c) for k, c in terms}, M)][kind]
        if isinstance(box, dict) and change in ("append", "reverse"):
          continue
        ctx.at("container", kind, size, change)
        obj = build(box)
        want, twin = snap(obj), build(type(box)(box))
        other = obj + obj
        after = snap(other)
        fill = box[0] if isinstance(box, list) and box else 1
        if change == "clear":
          box.clear()
        elif isinstance(box, dict):
          if change == "set" or not box:
            box[(0, 1)] = Z(4)
          else:
            box.popitem()
        elif change == "append" or not box:
          box.append(fill)
        elif change == "pop":
          box.pop()
        elif change == "reverse":
          box.reverse()
          box.append(fill)
        else:
          box[-1] = fill if len(box) > 1 else box[0] + box[0]
        ctx.eq(snap(obj), want, "an object changed with the caller's container", kind, change, size)
        ctx.check(obj == twin, "an object changed with the caller's container", kind, change, size)
        ctx.eq(snap(other), after, "an object changed with the caller's container", kind, change, size)
        ctx.eq(snap(obj + obj), after, "an object changed with the caller's container", kind, change, size)
        ctx.state((p, kind, change, size))
        ctx.trace()


def helpers(ctx, p, size, part, parts):
  """Every helper that takes lists, on every small list: arguments keep their values, and asking again gives the same."""
  from starks import fft, poly_utils as pu, merkle_tree as mt
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  from starks.multivariate_polynomial import multivariates_over
  Z = IntegersModP(p)
  P, M = polynomials_over(Z), multivariates_over(Z, 2)
  n = 4 if p == 5 else 8
  root = Z(2 if p == 5 else 64)

  def call(name, fn, *args):
    ctx.at("helper", name, args)
    before = snap(list(args))
    kept = [(a, list(a)) for a in args if isinstance(a, list)]
    kept += [(b, list(b)) for a, _ in kept for b in a if isinstance(b, list)]
    first = snap(fn(*args))
    for a, k in kept:
      ctx.check(len(a) == len(k) and all(x is y for x, y in zip(a, k)), "a helper changed its argument", name, before)
    ctx.eq(snap(list(args)), before, "a helper changed its argument", name)
    ctx.eq(snap(fn(*args)), first, "a helper called again gives another result", name, before)
    ctx.state((p, name, before))

  vals = range(p) if p < 10 else (0, 1, 2, p - 1, p // 2)
  # places, in every order
  for i, xs in enumerate(itertools.permutations(vals, size)):
    if i % parts != part:
      continue
    X = [Z(x) for x in xs]
    call("zpoly", lambda a: pu.zpoly(Z, a), X)
    call("zpoly", lambda a: pu.zpoly(Z, a), list(xs))
    for ys in itertools.product((0, 1, p - 2), repeat=size):
      Y = [Z(y) for y in ys]
      call("lagrange_interp", lambda a, b: pu.lagrange_interp(Z, a, b), X, Y)
      if size == 2:
        call("lagrange_interp_2", lambda a, b: pu.lagrange_interp_2(Z, a, b), X, Y)
      if size == 4:
        call("lagrange_interp_4", lambda a, b: pu.lagrange_interp_4(Z, a, b), X, Y)
        call("multi_interp_4", lambda a, b: pu.multi_interp_4(Z, a, b), [X, X[::-1]], [Y, Y])
        call("multi_interp_4", lambda a, b: pu.multi_interp_4(Z, a, b), [X, X[::-1]], [list(ys), list(ys)])
        call("lagrange_interp_4", lambda a, b: pu.lagrange_interp_4(Z, a, b), X, list(ys))
    ctx.trace()
  # values, in every combination
  for i, ys in enumerate(itertools.product(vals if size < 4 else vals[:4], repeat=size)):
    if i % parts != part:
      continue
    Y = [Z(y) for y in ys]
    call("multi_inv", lambda a: pu.multi_inv(Z, a), Y)
    call("multi_inv", lambda a: pu.multi_inv(Z, a), list(ys))
    call("polynomial", P, Y)
    call("polynomial", P, list(ys))
    call("factory", P.factory, Y)
    if size == 2:
      call("evaluation", lambda a: M({(1, 2): 1, (0, 1): 3})(a), Y)
    f = P(list(ys))
    if any(ys):
      call("fft", lambda a: fft.NonBinaryFFT(Z, root).fft(a), f)
      call("mul_polys", lambda a, b: fft.mul_polys(a, b, root), Y[:2], Y[:1])
    call("make_multivar", lambda a: pu.make_multivar(a, 1, Z, 2), f)
    if size == 4:
      call("merkelize", mt.merkelize, Y)
      call("permute4", mt.permute4, Y)
      call("packed", lambda a: mt.merkelize_polynomial_evaluations(1, a), [Y, Y[::-1]])
    ctx.trace()


def reused(ctx, p, n):
  """One container refilled between the calls: each call answers for what it then holds, as it does for new ones."""
  from starks import compression as cp, fft, poly_utils as pu, merkle_tree as mt
  from starks.air import get_computational_trace
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  from starks.multivariate_polynomial import multivariates_over
  Z = IntegersModP(p)
  P, M, M2 = polynomials_over(Z), multivariates_over(Z, n), multivariates_over(Z, 2)
  root = Z(next(g for g in range(2, p) if pow(g, n, p) == 1 and pow(g, n // 2, p) == p - 1))
  steps = [M2({(3, 0): 1, (0, 1): 2}), M2({(1, 1): 1, (0, 0): 3})]

  # the contents, in turn: distinct places, values with runs of zeros at either end, few distinct ones
  places = [[(3 * i * i + 5 * i + 1 + s * (i + 7) * 31) % p for i in range(n)] for s in range(40)]
  places = [xs for xs in places if len(set(xs)) == n][:3] + [list(range(n)), list(range(n, 0, -1)), [p - 1 - 2 * i for i in range(n)]]
  values = [[(7 * i * i + 3 * i + s) % p for i in range(n)] for s in (1, 2)]
  values += [v[:k] + [0] * (n - k) for v in values for k in (0, 1, n // 2, n - 3, n - 2, n - 1) if 0 <= k]
  values += [[0] * (n // 2) + v[n // 2:] for v in values[:2]] + [[1, 0] * (n // 2), [0, 5] * (n // 2), [4] * n]
  digits = [bytes([i + s]) * 32 for s in (0, 40) for i in range(n)]

  shared = M({(3,) + (0,) * (n - 1): 1, (1,) * n: 2, (0,) * (n - 1) + (4,): 3})
  both = lambda fn: [(fn, xs, ys) for xs in places for ys in values[::3]]
  cases = {
      "zpoly": [(lambda a: pu.zpoly(Z, a), xs) for xs in places],
      "zpoly of values": [(lambda a: pu.zpoly(Z, a), ys) for ys in values],
      "interp": both(lambda a, b: pu.lagrange_interp(Z, a, b)),
      "multi_inv": [(lambda a: pu.multi_inv(Z, a), ys) for ys in values],
      "polynomial": [(P, ys) for ys in values],
      "factory": [(P.factory, ys) for ys in values],
      "evaluation": [(lambda a, f=M({(3,) + (0,) * (n - 1): 1, (1,) * n: 2, (0,) * (n - 1) + (4,): 3}): f(a), ys) for ys in values],
      "one polynomial": [(shared, ys) for ys in values],
      "one composition": [(lambda a: shared([M({(1,) * n: x}) for x in a]), ys) for ys in values],
      "fft": [(lambda a: fft.NonBinaryFFT(Z, root).fft(P(a)), ys) for ys in values],
      "inv_fft": [(lambda a: fft.NonBinaryFFT(Z, root).inv_fft(a), ys) for ys in values],
      "mul_polys": [(lambda a, b: fft.mul_polys(a, b, root), ys[:n // 2], zs[:n // 2]) for ys in values[::2] for zs in values[1::3]],
      "merkelize": [(mt.merkelize, ys) for ys in values],
      "permute4": [(mt.permute4, ys) for ys in values],
      "branches": [(lambda a: mt.mk_branch(a, 5 % n), mt.merkelize([Z(y) for y in ys])) for ys in values],
      "trace": [(lambda a: get_computational_trace(a, 9, 2, steps), ys[:2]) for ys in values],
      "packed": [(lambda a, b: mt.merkelize_polynomial_evaluations(2, [a, b]), ys, zs) for ys in values[::2] for zs in values[1::3]],
      "compress": [(lambda a, b: cp_branches(cp, [a, b]), digits[k:k + 5], digits[j:j + 3]) for k in range(4) for j in range(4)],
  }
  if n == 4:
    cases["interp_4"] = both(lambda a, b: pu.lagrange_interp_4(Z, a, b))
    cases["multi_interp_4"] = both(lambda a, b: pu.multi_interp_4(Z, [a, b], [b, a])) and [
        (lambda a, b: pu.multi_interp_4(Z, [a, a], [b, b]), xs, ys) for xs in places for ys in values]

  def elements(vals):
    return [Z(x) if isinstance(x, int) else x for x in vals]

  kept = []
  for name, calls in cases.items():
    want = []
    for fn, *args in calls:
      fresh = [elements(a) for a in args]
      kept.append(fresh)  # never freed: no later list takes its place
      ctx.at(name, p, n, args)
      want.append(snap(fn(*fresh)))
    boxes = [[] for _ in calls[0][1:]]
    for turn, order in enumerate((range(len(calls)), range(len(calls) - 1, -1, -1), range(len(calls)))):
      for i in order:
        fn, *args = calls[i]
        for b, a in zip(boxes, args):
          b[:] = elements(a)
        ctx.at(name, p, n, "refilled", args)
        ctx.eq(snap(fn(*boxes)), want[i], "a call answers for what a container held before", name, args)
        ctx.eq([snap(b) for b in boxes], [snap(elements(a)) for a in args], "a helper changed its argument", name, args)
        # and lists that live only for the call, whose places are taken again at once
        if turn:
          ctx.eq(snap(fn(*[elements(a) for a in args])), want[i], "a call answers for a container that is gone", name, args)
        ctx.state((p, n, name, i))
    ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = []
  for p in (5, 257):
    for k in range(4):
      out.append(("pairs-%d-%d" % (p, k), sequences, dict(p=p, depth=2, names=None, part=k, parts=4)))
      out.append(("triples-%d-%d" % (p, k), sequences,
                  dict(p=p, depth=3, names=None if t and p == 5 else CORE, part=k, parts=4)))
    out.append(("callers-%d" % p, callers, dict(p=p)))
    out.append(("chained-%d" % p, chained, dict(p=p)))
    for nm, field in (("Z", p), ("GF", (p, [1, 1, 1]) if p == 5 else (2, [1, 1, 0, 1]))):
      out.append(("augmented-%s-%d" % (nm, p), augmented, dict(field=field, longest=14 if t else 8)))
    for n in (4,) if p == 5 else (4, 8, 16, 32):
      out.append(("reused-%d-%d" % (p, n), reused, dict(p=p, n=n)))
    for n in (1, 2, 3, 4):
      out += [("helpers-%d-%d-%d" % (p, n, k), helpers, dict(p=p, size=n, part=k, parts=4 if n > 2 else 1)) for k in range(4 if n > 2 else 1)]
  return out
