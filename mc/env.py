"""Binds the harness to the code in /repo, and owns its randomness."""
import importlib
import importlib.util
import itertools
import os
import random
import sys

REPO = "/repo"
if REPO not in sys.path:
  sys.path.insert(0, REPO)
import starks  # noqa: E402
assert os.path.realpath(starks.__file__).startswith(REPO + "/"), starks.__file__

MISC = ("primality", "blum_blum_shub", "commitment", "zero_knowledge", "zkp_3_coloring",
        "blockchain")


def misc(name):
  """Loads misc/<name>.py, whose imports call it starks.<name>."""
  full = "starks." + name
  if full not in sys.modules:
    if name in ("blum_blum_shub",):
      misc("primality")
    if name == "zkp_3_coloring":
      for dep in ("zero_knowledge", "blum_blum_shub", "commitment"):
        misc(dep)
    path = os.path.join(REPO, "misc", name + ".py")
    try:
      m = importlib.import_module(full)
    except ImportError:
      spec = importlib.util.spec_from_file_location(full, path)
      m = importlib.util.module_from_spec(spec)
      sys.modules[full] = m
      try:
        spec.loader.exec_module(m)
      except BaseException:
        del sys.modules[full]
        raise
    setattr(starks, name, m)
  return sys.modules[full]


# ---- conversions between implementation objects and reference integers


class Bridge:
  """A field of the code paired with its reference field."""

  def __init__(self, field, rf):
    self.F, self.rf = field, rf
    self.p, self.m, self.q = rf.p, rf.m, rf.q

  def to(self, a):
    if self.m == 1:
      return self.F(a)
    return self.F(self.rf.digits(a))

  def frm(self, x):
    """The reference value of an element; complains about a malformed one."""
    if self.m == 1:
      n = int(x)
      if type(x) is not self.F or not 0 <= n < self.p:
        raise AssertionError("not a reduced element of %s: %r" % (self.F.__name__, x))
      return n
    if type(x) is not self.F:
      raise AssertionError("not an element of %s: %r (%s)" % (
          self.F.__name__, x, type(x).__name__))
    c = [int(d) for d in x.poly.coefficients]
    if len(c) > self.m or (c and c[-1] == 0) or not all(0 <= d < self.p for d in c):
      raise AssertionError("element not in canonical form: %r" % (x,))
    return self.rf.undigits(c)

  def frm_any(self, x):
    """As frm, also accepting a plain 0 or 1 in place of the element."""
    if type(x) is int:
      return x % self.p
    return self.frm(x)

  def poly_to(self, poly_cls, c):
    return poly_cls([self.to(a) for a in c])

  def poly_from(self, f):
    c = [self.frm(x) for x in f.coefficients]
    if c and c[-1] == 0:
      raise AssertionError("polynomial with a zero leading coefficient: %r" % (f,))
    return c


def prime_field(p):
  from starks.modp import IntegersModP
  from mc import ref
  return Bridge(IntegersModP(p), ref.RF(p))


def ext_field(p, mod):
  """GF(p^m) for this monic irreducible modulus (list of ints, low first)."""
  from starks.finitefield import FiniteField
  from starks.modp import IntegersModP
  from starks.polynomial import polynomials_over
  from mc import ref
  m = len(mod) - 1
  F = FiniteField(p, m, polynomialModulus=polynomials_over(IntegersModP(p))(list(mod)))
  return Bridge(F, ref.RF(p, m, list(mod)))


# ---- randomness


class Owned(random.Random):
  """random's hidden generator, with every draw answered by the explorer."""
  __slots__ = ()

  def _randbelow(self, n):
    return _answer("below", n)

  def getrandbits(self, k):
    return _answer("bits", 1 << k)

  def random(self):
    return _answer("unit", 1 << 8) / 256.0

  def seed(self, *args, **kwargs):
    if _source is not None:
      _source.reseed(args)

  def randbytes(self, n):
    return self.getrandbits(8 * n).to_bytes(n, "little")


_source = None


def _answer(kind, n):
  if _source is None:
    raise RuntimeError("randomness drawn outside an owned run")
  r = _source.answer(kind, n)
  assert 0 <= r < n, (kind, n, r)
  return r


def own_randomness():
  """Routes every draw of the random module to the current source."""
  inst = random._inst
  if type(inst) is Owned:
    return
  old = {n: getattr(random, n) for n in ("getrandbits", "random", "seed", "randbytes")}
  inst.__class__ = Owned
  new = {n: getattr(inst, n) for n in old}
  for n in old:
    setattr(random, n, new[n])
  for name, m in list(sys.modules.items()):
    f = getattr(m, "__file__", None) or ""
    if name.startswith("starks") or f.startswith(REPO):
      for n in old:
        for k, v in list(vars(m).items()):
          if v is old[n]:
            setattr(m, k, new[n])
  random.Random = Owned
  random.SystemRandom = Owned


class Choices:
  """Answers from a prefix, then 0; records the width of every draw."""

  def __init__(self, prefix=(), menu=None, horizon=10**6):
    self.prefix, self.menu, self.horizon = list(prefix), menu, horizon
    self.taken, self.widths, self.values = [], [], []

  def reseed(self, args):
    pass

  def answer(self, kind, n):
    opts = self.menu(kind, n) if self.menu else range(n)
    i = len(self.taken)
    if i >= self.horizon:
      raise RuntimeError("more than %d random draws" % self.horizon)
    c = self.prefix[i] if i < len(self.prefix) else 0
    if c >= len(opts):
      raise RuntimeError("schedule diverged at draw %d" % i)
    self.taken.append(c)
    self.widths.append(len(opts))
    self.values.append(opts[c])
    return opts[c]


class Odometer:
  """Feeds bounded draws through every vector of values in turn, so that a
  rejection loop over them must meet an acceptable one."""

  def __init__(self, start=0, stride=1):
    self.n, self.stride, self.draws, self.pending = start, stride, 0, 0

  def reseed(self, args):
    pass

  def answer(self, kind, n):
    self.draws += 1
    if n <= 1:
      return 0
    if self.pending == 0:
      self.pending = self.n
      self.n += self.stride
    r = self.pending % n
    self.pending //= n
    return r


class source:

  def __init__(self, s):
    self.s = s

  def __enter__(self):
    global _source
    own_randomness()
    self.old, _source = _source, self.s
    return self.s

  def __exit__(self, *exc):
    global _source
    _source = self.old


def explore(run, menu=None, horizon=10**6, limit=None):
  """Runs `run(choices)` once per complete sequence of random answers."""
  stack = [[]]
  n = 0
  while stack:
    prefix = stack.pop()
    ch = Choices(prefix, menu, horizon)
    with source(ch):
      run(ch)
    n += 1
    if limit and n > limit:
      raise RuntimeError("more than %d executions" % limit)
    if ch.taken[:len(prefix)] != prefix:
      raise RuntimeError("nondeterminism outside the owned sources")
    for i in range(len(ch.taken) - 1, len(prefix) - 1, -1):
      for alt in range(ch.widths[i] - 1, 0, -1):
        stack.append(ch.taken[:i] + [alt])
  return n


class Lead:
  """Answers the first draws from a prefix, as long as their widths multiply up
  to less than `room`, and the rest from an odometer."""

  def __init__(self, prefix, room):
    self.prefix, self.room, self.prod = list(prefix), room, 1
    self.taken, self.widths, self.draws, self.unit = [], [], 0, False
    self.rest = Odometer(1)

  def reseed(self, args):
    pass

  def answer(self, kind, n):
    self.draws += 1
    self.unit |= kind == "unit"
    if self.prod >= self.room or self.prod * n > 64 * self.room:
      self.prod = self.room
      return self.rest.answer(kind, n)
    self.prod *= n
    i = len(self.taken)
    c = self.prefix[i] if i < len(self.prefix) else 0
    self.taken.append(c)
    self.widths.append(n)
    return c


def explore_lead(run, room):
  """run(source) under every answer to the first draws (to a product of widths
  of about `room`), each continued to the end with fixed answers."""
  stack, n = [[]], 0
  while stack:
    prefix = stack.pop()
    src = Lead(prefix, room)
    with source(src):
      run(src)
    n += 1
    for i in range(len(src.taken) - 1, len(prefix) - 1, -1):
      for alt in range(src.widths[i] - 1, 0, -1):
        stack.append(src.taken[:i] + [alt])
  return n
