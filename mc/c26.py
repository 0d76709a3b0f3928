import collections
import fractions
import itertools
import random

from mc import env

ID = "C26"
BOUNDS = {
    "honest": "every graph without loops on exactly 2 and 3 vertices (up to 3 edges) and families on 4..6 (up to 17 edges), every colouring in three colours, proper or "
              "not, every permutation of the colours, every edge chosen, every combination of two (2 vertices: four) draws per committed bit",
    "knowledge": "exact distribution of the revealed pair of colours for every proper colouring and edge: uniform on the six pairs",
    "cheating": "every assignment of the values 0..3 to the vertices of a triangle, a path and K4, every edge chosen, every opening of it with "
                "secrets of a permutation of a domain of 4, of every length from 0 to 3 bits",
    "secrets": "cycles of 3 to 65 (257) vertices: a secret of its own for each bit of each vertex, in two commitments one after the other",
    "refusal": "pairs that are no edge of the graph, graphs of up to 40 vertices",
    "whole protocol": "run_protocol with every pair of four primes, every choice of colours and edges, and two secrets per bit on one vertex pair",
}


def load():
  if "starks.zkp_3_coloring" not in __import__("sys").modules:
    random.seed(5)
  return env.misc("zkp_3_coloring")


def F4(x):
  return (3 * x + 1) % 4


def H4(x):
  return (x >> 1) & 1


# powers of two draws per bit: values whose images have both predicates
MENU2 = (0, 3)
MENU4 = (0, 1, 2, 3)


def menu(secrets):
  def m(kind, n):
    return secrets if n >= 1 << 64 else range(n)
  return m


def graphs(n):
  pairs = [e for e in itertools.permutations(range(1, n + 1), 2)]
  for k in range(1, 4):
    for g in itertools.product(pairs, repeat=k):
      if {v for e in g for v in e} == set(range(1, n + 1)):
        yield list(g)


def honest(ctx, gs, secrets, part, parts, f=F4, h=H4):
  z = load()
  for gi, g in enumerate(gs):
    if gi % parts != part:
      continue
    n = max(v for e in g for v in e)
    for colors in itertools.product(range(3), repeat=n):
      col = dict(zip(range(1, n + 1), colors))
      proper = all(col[a] != col[b] for a, b in g)
      if n > 4 and not proper:
        continue
      seen = collections.Counter()
      drawn = set()

      def run(ch):
        ctx.at("protocol", g, colors, ch.prefix)
        prover = z.ZK3ColProver(g, dict(col), f, h)
        verifier = z.ZK3ColVerifier(g, f, h)
        com = prover.commit_to_coloring()
        edge = verifier.choose_edge(com)
        a, b = edge
        ctx.check((a, b) in g or (b, a) in g, "not an edge", edge)
        shown = prover.reveal_colors(a, b)
        ok = verifier.accepts(shown)
        want = col[a] != col[b]
        ctx.check(ok is want, "verdict for an edge whose ends are coloured %d and %d" % (col[a], col[b]), g, colors, edge, ok)
        ctx.check(set(com) == set(col), "vertices committed to")
        vals = [verifier.verifier.decode(s, com[v]) for s, v in zip(shown, (a, b))]
        ctx.check(all(x in (0, 1, 2) for x in vals) and (vals[0] != vals[1]) == want, "revealed colours", vals)
        key = (min(a, b), max(a, b))
        w = fractions.Fraction(1)
        for k in ch.widths:
          w /= k
        seen[key, tuple(vals)] += w
        drawn.add(tuple(c[0] for v in col for c in com[v]))
        ctx.state((tuple(g), colors, tuple(ch.taken)))

      env.explore(run, menu(secrets), horizon=64, limit=10**6)
      chance = collections.Counter()
      for a, b in g:
        chance[min(a, b), max(a, b)] += fractions.Fraction(1, len(g))
      for e, p in chance.items():
        vals = {k[1]: w for k, w in seen.items() if k[0] == e}
        same = col[e[0]] == col[e[1]]
        pairs = [(x, y) for x in range(3) for y in range(3) if (x == y) == same]
        ctx.eq(vals, {x: p / len(pairs) for x in pairs}, "distribution of the revealed colours", g, colors, e)
      ctx.eq(len(drawn), len(secrets)**(2 * n), "combinations of secrets")
    ctx.trace()
  ctx.sample(len(gs))


class Secrets:
  """Answers the draws of secrets from a list, all others by 0."""

  def __init__(self, bits, values=MENU2):
    self.bits, self.values, self.secrets, self.draws = list(bits), values, 0, 0

  def reseed(self, args):
    pass

  def answer(self, kind, n):
    self.draws += 1
    if self.draws > 10**4:
      raise RuntimeError("more than 10000 random draws")
    if n < 1 << 64:
      return 0
    self.secrets += 1
    i = self.secrets - 1
    return self.values[self.bits[i % len(self.bits)]]


class Counter(Secrets):
  """Every secret a number of its own."""

  def answer(self, kind, n):
    r = Secrets.answer(self, kind, n)
    return 4 * self.secrets + r if n >= 1 << 64 else r


class Pick(Secrets):

  def __init__(self, k):
    Secrets.__init__(self, (0,))
    self.k = k

  def answer(self, kind, n):
    return self.k % n


def own_secrets(ctx, sizes):
  """On graphs of many vertices, every bit of every vertex is hidden by a secret of its own."""
  z = load()
  wide = lambda x: 5 * x + 2
  for n in sizes:
    ring = [(v, v % n + 1) for v in range(1, n + 1)]
    colors = {v: (v - 1) % 2 if v < n or n % 2 == 0 else 2 for v in range(1, n + 1)}
    p, v = z.ZK3ColProver(ring, dict(colors), wide, H4), z.ZK3ColVerifier(ring, wide, H4)
    for rnd in range(2):
      src = Counter((0, 1, 1, 0, 1))
      with env.source(src):
        com = p.commit_to_coloring()
      ctx.at("secrets", n, rnd)
      ctx.eq(sorted(com), list(range(1, n + 1)), "vertices committed to", n)
      images = [c[0] for w in com for c in com[w]]
      ctx.eq(len(set(images)), 2 * n, "two bits share a secret", n, rnd)
      shown = {}
      for k, (a, b) in enumerate(ring):
        got = p.reveal_colors(a, b)
        for w, s in zip(sorted((a, b)), got):
          ctx.eq([wide(x) for x in s], [c[0] for c in com[w]], "secrets revealed for a vertex", n, w)
          shown[w] = v.verifier.decode(s, com[w])
        with env.source(Pick(k)):
          edge = v.choose_edge(com)
        ctx.check(v.accepts(p.reveal_colors(*edge)) is True, "an honest opening is not accepted", n, edge)
        ctx.state((n, rnd, k))
      ctx.check(all((shown[a] == shown[b]) == (colors[a] == colors[b]) for a in shown for b in shown), "committed colours", n, rnd)
    ctx.trace()


def refusal(ctx):
  """Only edges may be asked for; every new commitment draws new secrets."""
  z = load()
  ring = lambda n: [(v, v % n + 1) for v in range(1, n + 1)]
  petersen = [(i, i % 5 + 1) for i in range(1, 6)] + [(i, i + 5) for i in range(1, 6)] + [(i + 5, (i + 1) % 5 + 6) for i in range(1, 6)]
  for g in (ring(9), ring(10)[::-1], ring(11), ring(17), ring(32), ring(40), petersen, [(a, 20) for a in range(1, 20)],
            [e for e in itertools.combinations(range(1, 13), 2) if sum(e) % 3], [e[::-1] for e in itertools.combinations(range(1, 8), 2) if e != (2, 5)],
            [(1, 2), (2, 3)], [(2, 1), (3, 4), (1, 4)], [(1, 2), (1, 4), (1, 3), (2, 5), (2, 5), (3, 6), (5, 6)]):
    n = max(v for e in g for v in e)
    es = {tuple(sorted(e)) for e in g}
    with env.source(env.Choices((), menu(MENU2), horizon=4000)):
      p = z.ZK3ColProver(g, {v: v % 3 for v in range(1, n + 1)}, F4, H4)
      p.commit_to_coloring()
    for a in range(0, n + 2):
      for b in range(0, n + 2):
        ctx.at("reveal", g, a, b)
        if (min(a, b), max(a, b)) in es:
          got = p.reveal_colors(a, b)
          ctx.eq(len(got), 2, "revealed")
        else:
          ctx.raises(lambda: p.reveal_colors(a, b), Exception, "colours of a pair that is no edge are revealed", g, a, b)
        ctx.state((n, a, b))
  for bits in itertools.product(range(2), repeat=4):
    ch = Secrets(bits)
    g = [(1, 2)]
    ctx.at("again", bits)
    with env.source(ch):
      p = z.ZK3ColProver(g, {1: 0, 2: 1}, F4, H4)
      first = p.commit_to_coloring()
      ctx.eq(ch.secrets, 4, "secrets drawn for a commitment")
      second = p.commit_to_coloring()
      ctx.eq(ch.secrets, 8, "secrets drawn for two commitments")
    v = z.ZK3ColVerifier(g, F4, H4)
    with env.source(Secrets((0,))):
      v.choose_edge(second)
    ctx.check(v.accepts(p.reveal_colors(1, 2)) is True, "the second commitment does not open", bits)
    ctx.state(bits)
    ctx.outcome(str(first))
  ctx.trace()


def attempt(fn):
  try:
    return fn()
  except (ValueError, IndexError, TypeError, KeyError):
    return False


def cheating(ctx, g, lengths, part, parts):
  """Any commitment to two bits a vertex, any opening of the chosen edge."""
  z = load()
  n = max(v for e in g for v in e)
  openings = {k: list(itertools.product(range(4), repeat=k)) for k in range(4)}
  for i, vals in enumerate(itertools.product(range(4), repeat=n)):
    if i % parts != part:
      continue
    # secrets that differ from vertex to vertex
    sec = {v: ((v + i) % 4, (3 * v + i // 4) % 4) for v in range(1, n + 1)}
    com = {v: [(F4(s), H4(s) ^ (vals[v - 1] >> (1 - k) & 1)) for k, s in enumerate(sec[v])] for v in sec}
    convinced = 0
    for k, e in enumerate(g):
      v = z.ZK3ColVerifier(g, F4, H4)
      with env.source(env.Choices([k], horizon=1)):
        a, b = v.choose_edge(com)
      opened = False
      for la, lb in lengths:
        full = (la, lb) == (2, 2)
        # a wrong length on one side: the other side opened honestly, or likewise
        for x in openings[la] if la != 2 or full else [sec[a]]:
          for y in openings[lb] if lb != 2 or full else [sec[b]]:
            ctx.at("opening", g, vals, (a, b), x, y)
            got = attempt(lambda: v.accepts((list(x), list(y))))
            va, vb = vals[a - 1], vals[b - 1]
            want = x == sec[a] and y == sec[b] and va != vb and va < 3 and vb < 3
            ctx.check(bool(got) == want, "verdict on an opening", vals, (a, b), x, y, got)
            opened |= want
      for few in ((), (list(sec[a]),), [], [list(sec[a])], ([], []), ((), list(sec[b])), (list(sec[a]), [])):
        ctx.at("opening", g, vals, (a, b), few)
        ctx.check(not attempt(lambda: v.accepts(few)), "an opening of too few vertices is accepted", vals, (a, b), few)
      convinced += opened
      ctx.state((len(g), vals, k))
    three = all(x < 3 for x in vals) and all(vals[a - 1] != vals[b - 1] for a, b in g)
    ctx.eq(convinced == len(g), three, "every edge convinces although the values are no 3-colouring", g, vals)
    ctx.outcome(three)
    ctx.trace()


PRIMES = (103, 107, 127, 131)


def whole(ctx, part, parts):
  z = load()
  cases = [([(1, 2)], (0, 1), MENU2), ([(1, 2)], (1, 1), MENU2), ([(1, 2), (2, 3), (1, 3)], (2, 0, 1), (1,)),
           ([(2, 1), (3, 2)], (0, 2, 0), (2,)), ([(1, 2), (3, 2)], (0, 0, 1), (3,))]
  secrets = (12345, 2**200 + 77)
  for i, (p, q) in enumerate(itertools.product(PRIMES, repeat=2)):
    if i % parts != part:
      continue
    for g, colors, sec in cases:
      col = dict(enumerate(colors, 1))
      edges, cands = [], []

      def m(kind, n):
        if n == 1 << 9:
          cands.append(1)
          return (p,) if len(cands) % 2 else (q,)
        if n >= 1 << 64:
          return [secrets[x % 2] + x for x in sec]
        return (7,) if n > 90 else range(n)

      old = z.ZK3ColVerifier.choose_edge

      def spy(self, c):
        edges.append(tuple(old(self, c)))
        return edges[-1]

      def run(ch):
        del cands[:], edges[:]
        ctx.at("run_protocol", g, colors, p, q, ch.prefix)
        got = z.run_protocol(g, dict(col), 9)
        ctx.eq(len(edges), 1, "edges chosen")
        a, b = edges[0]
        ctx.check(got is (col[a] != col[b]), "verdict of the protocol", g, colors, (a, b), got)
        ctx.state((p, q, tuple(g), colors, tuple(ch.taken)))

      z.ZK3ColVerifier.choose_edge = spy
      try:
        env.explore(run, m, horizon=400, limit=10**5)
      finally:
        z.ZK3ColVerifier.choose_edge = old
    ctx.trace()


FOUR = [[(1, 2), (2, 3), (3, 4)], [(4, 1), (1, 2), (3, 1)], [(1, 2), (3, 4)]]
MANY = [[(1, 4), (5, 1), (1, 6), (2, 4), (2, 5), (6, 2), (3, 4), (3, 5), (3, 6)],
        [(a, b) for a in range(1, 7) for b in range(a + 1, 7) if b != a + 3],
        [(1, 2), (2, 1)] * 4 + [(2, 3), (1, 3), (3, 2)],
        [(1, 2)] * 16 + [(4, 3)]]
BIG = [[(1, 2), (1, 4), (1, 3), (2, 5), (2, 5), (3, 6), (5, 6)], [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]]
K4 = [(1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)]


def chunks(tier):
  t = tier == "thorough"
  out = [("refusal", refusal, {}), ("secrets", own_secrets, dict(sizes=(3, 5, 12, 13, 14, 17, 20, 33, 65) + ((100, 257) if t else ())))]
  out += [("honest-2-%d" % i, honest, dict(gs=list(graphs(2)), secrets=MENU4, part=i, parts=4)) for i in range(4)]
  g3 = list(graphs(3))
  if not t:
    g3 = [g for g in g3 if len(g) == 2] + [g for g in g3 if len(g) == 3][::9]
  out += [("honest-3-%d" % i, honest, dict(gs=g3, secrets=MENU2, part=i, parts=16)) for i in range(16)]
  out += [("honest-4-%d" % i, honest, dict(gs=FOUR if t else FOUR[:1], secrets=MENU2 if t else (1,), part=i, parts=3)) for i in range(3 if t else 1)]
  out += [("honest-many-%d" % i, honest, dict(gs=MANY, secrets=(1,), part=i, parts=4)) for i in range(4)]
  out += [("honest-big-%d" % i, honest, dict(gs=BIG, secrets=(2,), part=i, parts=2)) for i in range(2)]
  alll = list(itertools.product(range(4), repeat=2))
  for name, g in (("edge", [(1, 2)]), ("path", [(2, 1), (3, 2)]), ("triangle", [(1, 2), (2, 3), (1, 3)])):
    out.append(("cheating-" + name, cheating, dict(g=g, lengths=alll, part=0, parts=1)))
  out += [("cheating-K4-%d" % i, cheating, dict(g=K4, lengths=alll if t else [(2, 2), (2, 1), (1, 2), (1, 1), (3, 2), (2, 3)], part=i, parts=8)) for i in range(8)]
  out += [("whole-%d" % i, whole, dict(part=i, parts=4)) for i in range(4)]
  return out
