import collections
import fractions
import itertools

from mc import env

ID = "C25"
BOUNDS = {
    "completeness": "every graph of 1..3 edges on up to 4 vertices (as lists of ordered pairs, loops and repeated edges included, no isolated "
                    "vertex), every isomorphism, every shuffle of the prover and both choices of the verifier; 5 and 6 vertex graphs by families",
    "isolated vertices": "every graph of one edge with a vertex of 2..4 and of two edges with one of 4, some lower vertex unused: honest rounds and "
                         "distributions of transcripts",
    "decision": "every H of the same number of edges on up to 2 per edge vertices (up to renaming the vertices), every map of its vertices to "
                "1..n: the verifier's verdict against the definition of an isomorphism; no H opens for both graphs unless they are isomorphic",
    "wide graphs": "seven families on 7 to 40 (thorough 130) vertices: each end of each edge split off or moved, each edge left out or doubled, vertices exchanged in the map",
    "zero knowledge": "exact distributions (all draws, as fractions) of real and simulated transcripts for those graphs up to 4 vertices",
    "choices": "joint distribution of four (six) successive choices of one verifier for paths, cycles and doubled cycles on 2 to 43 vertices",
    "many rounds": "two and three rounds of one prover: exact joint distribution on graphs of up to 3 vertices; convincing beyond doubt under 24 fixed schedules of answers",
}


def zk():
  return env.misc("zero_knowledge")


def graphs(n, m):
  """Lists of m ordered pairs that use exactly the vertices 1..n."""
  pairs = list(itertools.product(range(1, n + 1), repeat=2))
  for g in itertools.product(pairs, repeat=m):
    if {v for e in g for v in e} == set(range(1, n + 1)):
      yield list(g)


def gapped(n, m):
  """Lists of m ordered pairs whose greatest vertex is n, some vertex below it unused."""
  pairs = list(itertools.product(range(1, n + 1), repeat=2))
  for g in itertools.product(pairs, repeat=m):
    used = {v for e in g for v in e}
    if max(used) == n and len(used) < n:
      yield list(g)


def isolated(ctx, n, m, part, parts):
  """Graphs with isolated vertices: honest rounds and both kinds of transcripts."""
  z = zk()
  for i, g in enumerate(gapped(n, m)):
    if i % parts != part:
      continue
    for iso in perms(n):
      g2 = image(g, dict(zip(range(1, n + 1), (v + 1 for v in iso))))
      if max(v for e in g2 for v in e) != n:
        continue
      one_round(ctx, z, g, g2, list(iso), n)
      v = z.ZKVerifier(g, g2)

      def shown(msg):
        h, choice, w = msg
        ctx.check(v.accepts(w, choice, h) is True, "a transcript is not accepted", g, g2, h, choice)
        return tuple(as_list(h)), choice, table(w, n)

      ctx.at("isolated", g, iso)
      ctx.eq(weigh(lambda: shown(z.simulate_protocol(g, g2))), weigh(lambda: shown(z.messages_from_protocol(g, g2, list(iso)))),
             "simulated transcripts are distributed differently from real ones", g, g2)
      ctx.state((tuple(g), iso))
    ctx.trace()


def image(g, t):
  return [(t[a], t[b]) for a, b in g]


def perms(n):
  return list(itertools.permutations(range(n)))


def table(f, n):
  return tuple(f(i) for i in range(1, n + 1))


def as_list(h):
  return [tuple(e) for e in h]


def weigh(run):
  """Exact distribution of what run() returns over all its random draws."""
  dist = collections.Counter()

  def one(ch):
    r = run()
    w = fractions.Fraction(1)
    for k in ch.widths:
      w /= k
    dist[r] += w

  env.explore(one, horizon=64, limit=200000)
  return dist


def rounds(ctx, n, m, part, parts, every):
  z = zk()
  for i, g in enumerate(graphs(n, m)):
    if i % parts != part or (i // parts) % every:
      continue
    for iso in perms(n):
      t = dict(zip(range(1, n + 1), (v + 1 for v in iso)))
      g2 = image(g, t)
      one_round(ctx, z, g, g2, list(iso), n)
    ctx.trace()
  ctx.sample(n, m)


def one_round(ctx, z, g1, g2, iso, n):
  keep = (list(g1), list(g2), list(iso))

  def run(ch):
    ctx.at("round", g1, g2, iso, ch.prefix)
    ctx.check(z.run_protocol(g1, g2, iso) is True, "an honest round was rejected", g1, g2, iso)
    ctx.state((tuple(g1), tuple(iso), tuple(ch.taken)))

  env.explore(run, horizon=64, limit=5000)
  ctx.eq((g1, g2, iso), keep, "inputs changed")


def transcripts(ctx, n, m, part, parts, every):
  """Real transcripts against simulated ones, both accepted, same distribution."""
  z = zk()
  for i, g in enumerate(graphs(n, m)):
    if i % parts != part or (i // parts) % every:
      continue
    sims = {}
    for iso in perms(n):
      t = dict(zip(range(1, n + 1), (v + 1 for v in iso)))
      g2 = image(g, t)
      v = z.ZKVerifier(g, g2)

      def shown(msg):
        h, choice, w = msg
        ctx.check(v.accepts(w, choice, h) is True, "a transcript is not accepted", g, g2, h, choice)
        return tuple(as_list(h)), choice, table(w, n)

      ctx.at("transcripts", g, iso)
      real = weigh(lambda: shown(z.messages_from_protocol(g, g2, list(iso))))
      ctx.step(len(real))
      key = tuple(g2)
      if key not in sims:
        sims[key] = weigh(lambda: shown(z.simulate_protocol(g, g2)))
      ctx.eq(sims[key], real, "simulated transcripts are distributed differently from real ones", g, g2)
      # the prover's parts on their own
      hs = weigh(lambda: tuple(as_list(z.ZKProver(g, g2, list(iso)).send_isomorphic_copy()[1])))
      want = collections.Counter()
      for q in perms(n):
        want[tuple(image(g, dict(zip(range(1, n + 1), (x + 1 for x in q)))))] += fractions.Fraction(1, len(perms(n)))
      ctx.eq(hs, want, "the copy sent is not a uniformly relabelled first graph", g)
      ctx.eq(weigh(v.choose_graph), {1: fractions.Fraction(1, 2), 2: fractions.Fraction(1, 2)}, "choice of the verifier")
      ctx.state((tuple(g), iso))
    ctx.trace()


def successive(ctx, n, m, part, parts, every, count):
  """Rounds of one prover with one verifier are independent of each other."""
  z = zk()
  for i, g in enumerate(graphs(n, m)):
    if i % parts != part or (i // parts) % every:
      continue
    for iso in perms(n):
      t = dict(zip(range(1, n + 1), (v + 1 for v in iso)))
      g2 = image(g, t)

      def one(p, v):
        q, h = p.send_isomorphic_copy()
        choice = v.choose_graph()
        w = p.prove_isomorphic_to(q, choice)
        ctx.check(v.accepts(w, choice, h) is True, "an honest round was rejected", g, g2, iso)
        return tuple(as_list(h)), choice, table(w, n)

      def several():
        p, v = z.ZKProver(g, g2, list(iso)), z.ZKVerifier(g, g2)
        return tuple(one(p, v) for _ in range(count))

      ctx.at("successive rounds", g, iso)
      single = weigh(lambda: one(z.ZKProver(g, g2, list(iso)), z.ZKVerifier(g, g2)))
      want = collections.Counter()
      for seq in itertools.product(single.items(), repeat=count):
        w = fractions.Fraction(1)
        for _, x in seq:
          w *= x
        want[tuple(k for k, _ in seq)] += w
      ctx.eq(weigh(several), want, "a round depends on earlier rounds of the same prover", g, iso)
      ctx.step(len(want))
      ctx.state((tuple(g), iso, count))
    ctx.trace()


def shapes(m):
  """Edge lists of m edges up to renaming of the vertices."""
  def grow(seq, k):
    if len(seq) == 2 * m:
      yield [(seq[2 * i], seq[2 * i + 1]) for i in range(m)]
      return
    for v in range(1, k + 2):
      yield from grow(seq + [v], max(k, v))
  yield from grow([], 0)


def isomorphic(g1, g2):
  """As lists of edges."""
  fwd, bwd = {}, {}
  for e, f in zip(g1, g2):
    for a, b in zip(e, f):
      if fwd.setdefault(a, b) != b or bwd.setdefault(b, a) != a:
        return False
  return len(g1) == len(g2)


def decision(ctx, n, m, hm, part, parts):
  """The verifier against every H and every map of its vertices."""
  z = zk()
  gs = list(graphs(n, m))
  hs = list(shapes(hm))
  cand = []
  for h in hs:
    vs = sorted({v for e in h for v in e})
    maps = [dict(zip(vs, x)) for x in itertools.product(range(1, n + 1), repeat=len(vs))]
    cand.append((h, [(image(h, t), t, len(set(t.values())) == len(vs)) for t in maps]))
  for i, g in enumerate(gs):
    if i % parts != part:
      continue
    v = z.ZKVerifier(g, gs[(7 * i + 3) % len(gs)])
    pair = (v.G1, v.G2)
    opens = {1: set(), 2: set()}
    for hi, (h, maps) in enumerate(cand):
      for im, t, inj in maps:
        for choice in (1, 2):
          ctx.at("decision", pair, h, t, choice)
          got = v.accepts(lambda a, t=t: t[a], choice, h)
          want = im == pair[choice - 1] and inj
          ctx.check(got == want and type(got) is bool, "verdict", pair, h, t, choice, got)
          if got:
            opens[choice].add(hi)
    if opens[1] & opens[2]:
      ctx.check(isomorphic(*pair), "a graph opens as both of two graphs that are not isomorphic", pair)
    ctx.eq(pair, (g, gs[(7 * i + 3) % len(gs)]), "graphs changed")
    ctx.state((tuple(g), i))
    ctx.outcome(bool(opens[1] & opens[2]))
    ctx.trace()


def wide(ctx, name, n):
  """Large graphs: every end of every edge split off, moved, every edge left out, for both graphs."""
  z = zk()
  star = [(1, v) for v in range(2, n + 1)]
  g = {"star": star, "in-star": [(v, 1) for v in range(2, n + 1)], "path": [(v, v + 1) for v in range(1, n)],
       "cycle": [(v, v % n + 1) for v in range(1, n + 1)], "double": star + star[::-1],
       "complete": list(itertools.combinations(range(1, n + 1), 2)), "loops": [(v, v) for v in range(1, n + 1)] + star}[name]
  iso = [(3 * i + 1) % n for i in range(n)] if n % 3 else list(range(n))[::-1]
  t = {v: iso[v - 1] + 1 for v in range(1, n + 1)}
  g2 = image(g, t)
  back = {b: a for a, b in t.items()}
  verifier = z.ZKVerifier(g, g2)
  for choice, base in ((1, g), (2, g2)):
    # H is the chosen graph under new names
    new = {v: (v + 2) % n + 1 for v in range(1, n + 1)}
    old = {b: a for a, b in new.items()}
    h = image(base, new)
    ctx.check(verifier.accepts(lambda v: old[v], choice, h) is True, "an isomorphism is not accepted", name, n, choice)
    ctx.check(verifier.accepts(lambda v: old[v], 3 - choice, h) is ([old[v] for e in h for v in e] == [v for e in (g2, g)[choice - 1] for v in e]),
              "verdict for the other graph", name, n, choice)
    uses = collections.Counter(v for e in h for v in e)
    for i, e in enumerate(h):
      for side in range(2):
        ctx.at("wide", name, n, choice, i, side)
        v = e[side]
        for fresh in (n + 1, n + 7):
          hh = list(h)
          hh[i] = (fresh, e[1]) if side == 0 else (e[0], fresh)
          m = dict(old)
          m[fresh] = old[v]
          got = verifier.accepts(lambda x: m[x], choice, hh)
          ctx.check(bool(got) is (uses[v] == 1), "a map that merges vertices is accepted, or an isomorphism is not", name, n, choice, i, side)
        hh = list(h)
        w = v % n + 1
        hh[i] = (w, e[1]) if side == 0 else (e[0], w)
        ctx.check(not verifier.accepts(lambda x: old[x], choice, hh), "another graph is accepted", name, n, choice, i, side)
        ctx.state((name, n, choice, i, side))
      ctx.check(not verifier.accepts(lambda x: old[x], choice, h[:i] + h[i + 1:]), "a graph short of an edge is accepted", name, n, choice, i)
      ctx.check(not verifier.accepts(lambda x: old[x], choice, h[:i] + [e] + h[i:]), "a graph with another edge is accepted", name, n, choice, i)
    # and two vertices exchanged in the map
    for a, b in itertools.combinations(sorted(uses), 2):
      if a > 3 and b < n - 2:
        continue
      m = dict(old)
      m[a], m[b] = old[b], old[a]
      ctx.check(bool(verifier.accepts(lambda x: m[x], choice, h)) is (image(h, m) == base), "verdict for a map with two exchanged vertices", name, n, a, b)
  ctx.trace()


def helpers(ctx):
  z = zk()
  for n in range(1, 6):
    d = weigh(lambda: tuple(z.random_permutation(n)))
    ctx.eq(d, {q: fractions.Fraction(1, len(perms(n))) for q in perms(n)}, "random permutations", n)
    for q in perms(n):
      f, inv = z.make_permutation_function(list(q)), z.make_inverse_permutation_function(list(q))
      ctx.at("permutation", q)
      ctx.eq(table(f, n), tuple(x + 1 for x in q), "permutation function", q)
      ctx.eq([inv(f(i)) for i in range(1, n + 1)], list(range(1, n + 1)), "inverse after permutation", q)
      ctx.eq([f(inv(i)) for i in range(1, n + 1)], list(range(1, n + 1)), "permutation after inverse", q)
      ctx.state(q)
  for n in (1, 2, 3):
    for m in (1, 2):
      for g in graphs(n, m):
        ctx.eq(z.num_vertices(g), n, "vertices", g)
        for x in itertools.product(range(1, 5), repeat=n):
          ctx.eq(as_list(z.apply_isomorphism(g, lambda i: x[i - 1])), image(g, (None,) + x), "image", g, x)
  ctx.trace()


FAMILY = [
    [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)],
    [(1, 2), (1, 4), (1, 3), (2, 5), (2, 5), (4, 5)],
    [(5, 1), (2, 4), (3, 3), (4, 4)],
]
SIX = [(1, 2), (1, 4), (1, 3), (2, 5), (2, 5), (3, 6), (5, 6)]


def family(ctx, k, part, parts):
  z = zk()
  for i, iso in enumerate(perms(5)):
    if i % parts == part:
      t = dict(zip(range(1, 6), (v + 1 for v in iso)))
      one_round(ctx, z, FAMILY[k], image(FAMILY[k], t), list(iso), 5)
  ctx.trace()


def choices(ctx, sizes, count):
  """The choices of one verifier in several rounds are independent of each other, whatever the graphs."""
  z = zk()
  for n in sizes:
    for shape in ("path", "cycle", "double"):
      g = [(i, i + 1) for i in range(1, n)] if shape == "path" else [(i, i % n + 1) for i in range(1, n + 1)] * (2 if shape == "double" else 1)
      g2 = [(n + 1 - a, n + 1 - b) for a, b in g]
      v = z.ZKVerifier(g, g2)

      def both():
        return tuple(v.choose_graph() for _ in range(count))

      ctx.at("choices", shape, n)
      ctx.eq(weigh(both), {c: fractions.Fraction(1, 2**count) for c in itertools.product((1, 2), repeat=count)},
             "the choices of the verifier are not uniform and independent", shape, n)
      for start in range(3):
        with env.source(env.Odometer(1 + 31 * start)):
          p = z.ZKProver(g, g2, list(range(n - 1, -1, -1)))
          iso, h = p.send_isomorphic_copy()
          for c in both():
            ctx.check(v.accepts(p.prove_isomorphic_to(iso, c), c, h) is True, "an honest round was rejected", shape, n, c)
      ctx.state((shape, n))
    ctx.trace()


def many(ctx):
  z = zk()
  for iso in ([0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [1, 2, 3, 4, 5, 0], [3, 5, 0, 2, 4, 1]):
    g2 = image(SIX, dict(zip(range(1, 7), (v + 1 for v in iso))))
    for start in range(6):
      ctx.at("convince", iso, start)
      verdicts, old = [], z.ZKVerifier.accepts
      z.ZKVerifier.accepts = lambda self, *a: verdicts.append(old(self, *a)) or verdicts[-1]
      try:
        with env.source(env.Odometer(1 + 97 * start, 1 + start)):
          z.convince_beyond_doubt(SIX, g2, iso)
      finally:
        z.ZKVerifier.accepts = old
      ctx.check(len(verdicts) >= 67 and all(verdicts), "fewer rounds than the error tolerance needs", verdicts)
      ctx.state((tuple(iso), start))
    bad = list(iso)
    bad[0], bad[1] = bad[1], bad[0]
    wrong = image(SIX, dict(zip(range(1, 7), (v + 1 for v in bad))))
    # this pair is not isomorphic as given: some round must fail
    with env.source(env.Odometer(1)):
      ctx.raises(lambda: z.convince_beyond_doubt(SIX, wrong, iso), AssertionError, "convinced by a wrong isomorphism", iso)
    ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = [("helpers", helpers, {}), ("many", many, {})]
  out += [("choices-%d" % n, choices, dict(sizes=(n, n + 1, n + 2, 3 * n + 10), count=6 if t else 4)) for n in (2, 5, 8, 11)]
  for n, m, parts, ev in ((1, 1, 1, 1), (2, 1, 1, 1), (1, 2, 1, 1), (2, 2, 1, 1), (3, 2, 2, 1), (4, 2, 2, 1), (2, 3, 1, 1), (3, 3, 8, 1),
                          (4, 3, 8, 1)):
    out += [("rounds-%d-%d-%d" % (n, m, i), rounds, dict(n=n, m=m, part=i, parts=parts, every=ev)) for i in range(parts)]
    ev2 = 1 if t or n * m < 12 else 3
    if n < 4:
      k = 3 if n < 3 else 2
      out += [("successive-%d-%d-%d" % (n, m, i), successive, dict(n=n, m=m, part=i, parts=parts, every=1 if n < 3 or t else 5, count=k))
              for i in range(parts)]
    out += [("transcripts-%d-%d-%d" % (n, m, i), transcripts, dict(n=n, m=m, part=i, parts=parts, every=ev2)) for i in range(parts)]
  for n, m, hm, parts in ((2, 1, 1, 1), (2, 1, 2, 1), (2, 2, 1, 1), (2, 2, 2, 1), (3, 2, 2, 4), (4, 2, 2, 4), (2, 3, 3, 4)) + (
      ((3, 3, 3, 16), (4, 3, 3, 32)) if t else ((3, 3, 3, 16),)):
    out += [("decision-%d-%d-%d-%d" % (n, m, hm, i), decision, dict(n=n, m=m, hm=hm, part=i, parts=parts)) for i in range(parts)]
  out += [("isolated-%d-%d-%d" % (n, m, i), isolated, dict(n=n, m=m, part=i, parts=parts))
          for n, m, parts in ((2, 1, 1), (3, 1, 1), (4, 1, 1), (3, 2, 2), (4, 2, 32 if t else 0)) for i in range(parts)]
  if not t:
    out += [("isolated-4-2-%d" % i, isolated, dict(n=4, m=2, part=i, parts=32)) for i in (0, 9, 21)]
  out += [("wide-%s-%d" % (name, n), wide, dict(name=name, n=n)) for name in ("star", "in-star", "path", "cycle", "double", "loops")
          for n in ((7, 20, 40, 130) if t else (7, 20, 40))]
  out += [("wide-complete-%d" % n, wide, dict(name="complete", n=n)) for n in (7, 10, 13)]
  out += [("family-%d-%d" % (k, i), family, dict(k=k, part=i, parts=4)) for k in range(3) for i in range(4)]
  return out
