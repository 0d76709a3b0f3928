import copy
import itertools
import json

import requests

from mc import chain as C

ID = "C30"
BOUNDS = {
    "answers": "own chains of 1..3 blocks; every combination of 32 kinds of answers (ten valid or tampered chains, false lengths, errors, no connection, "
               "delays, silence, and 15 kinds of nonsense) from 0..2 neighbours, and of 12 (32) from 3",
    "long chains": "chains of 9, 20 and 34 (66) blocks: every prefix, every block with one of seven faults, lost or repeated, and blocks that link "
                   "elsewhere with all work redone; 5 to 33 neighbours with the best chain at each of them",
    "very long chains": "66 and 129 blocks, whole or with one of three faults at up to 14 places",
    "lengths": "every assignment of 1, 2, 3, 4 or 6 blocks to 4 and 5 (6) neighbours, of one chain or of two in turn",
    "offers": "every sequence of three offers to one node, and of two by two neighbours in either order, out of a chain of 3 and of 5 blocks, its extension, its prefix, a fork "
              "and forgeries of each of its blocks that share the last block",
    "growing": "own chains of 1 to 3 blocks that grow by 1 to 3 while the first or second of two neighbours is asked",
    "network": "three (four) nodes that know each other, every sequence of up to 5 (6) minings and resolutions: states merged, from each the "
               "nodes are also made to converge; the same for a line of three nodes",
    "addresses": "87 spellings of neighbours",
}


class Garbled(C.Reply):
  """An answer that is no JSON."""

  def json(self):
    raise requests.exceptions.JSONDecodeError("Expecting value", "<html>", 0)


def library():
  """name -> (reply or exception, chain offered or None)."""
  def mk(n, who, at):
    c = C.genesis(at)
    for i in range(n - 1):
      c = C.grow(c, [C.tx("0", who, 1)] + [C.tx(who, "x", j) for j in range(i % 2)], at + i + 1)
    return c

  a2, a3, b3, a4, b4 = mk(2, "a", 5), mk(3, "a", 5), mk(3, "b", 6), mk(4, "c", 7), mk(4, "d", 8)
  short = mk(1, "s", 9)
  longer = mk(5, "e", 9)

  def hurt(c, i, **kw):
    c = copy.deepcopy(c)
    c[i].update(kw)
    return c

  lib = {
      "one": C.Reply(short), "two": C.Reply(a2), "three": C.Reply(a3), "other three": C.Reply(b3), "four": C.Reply(a4), "other four": C.Reply(b4),
      "tampered middle": C.Reply(hurt(longer, 2, transactions=[])),
      "tampered first": C.Reply(hurt(longer, 0, timestamp=0)),
      "no work at the end": C.Reply(a4 + [dict(index=5, timestamp=1.0, transactions=[], proof=-7, previous_hash=C.digest(a4[-1]))]),
      "bad link at the end": C.Reply(hurt(longer, 4, previous_hash="0" * 64)),
      "claims more": C.Reply(a2, length=99), "claims less": C.Reply(a4, length=1),
      "error": C.Reply(longer, status=500), "missing": C.Reply(longer, status=404),
      "empty": C.Reply([], length=50),
      "down": requests.exceptions.ConnectionError("refused"),
      "slow": requests.exceptions.ReadTimeout("too slow"),
      "garbled": Garbled(longer),
      "silent": C.SILENT,
  }
  lost = lambda field: [{k: v for k, v in b.items() if i != 2 or k != field} for i, b in enumerate(longer)]
  for name, c in (("no chain", None), ("chain a number", 77), ("chain a text", "a" * 9), ("chain an object", dict.fromkeys("abcdefgh")),
                  ("blocks are numbers", [1] * 9), ("a block is null", longer[:2] + [None] + longer[3:]), ("first block null", [None] + longer[1:]),
                  ("proof missing", lost("proof")), ("link missing", lost("previous_hash")), ("first proof missing", [{"index": 1}] + longer[1:])):
    lib[name] = C.Reply(c, length=9)
  lib["nothing"] = C.Reply([], body={})
  lib["a list"] = C.Reply([], body=[1, 2, 3])
  lib["null"] = C.Reply([], body=[])
  lib["null"].text = "null"
  return lib


def offered(r):
  """The chain an answer lawfully offers."""
  if r is C.SILENT or isinstance(r, Exception) or r.status_code != 200:
    return None
  try:
    c = r.json()["chain"]
    return c if c and type(c) is list and C.valid(c) else None
  except Exception:
    return None


def answers(ctx, own, n, names, part, parts):
  m = C.load()
  lib = library()
  C.tick(2)
  base = C.genesis(2)
  for i in range(own - 1):
    base = C.grow(base, [C.tx("0", "me", 1)], 3 + i)
  for k, combo in enumerate(itertools.product(names, repeat=n)):
    if k % parts != part:
      continue
    ctx.at("answers", own, combo)
    b = m.Blockchain()
    b.chain = copy.deepcopy(base)
    b.new_transaction("p", "q", 1)
    for i in range(n):
      b.register_node("http://10.0.0.%d:5000" % i)
    table = {"http://10.0.0.%d:5000/chain" % i: lib[x] for i, x in enumerate(combo)}

    def answer(url):
      r = table[url]
      if isinstance(r, Exception):
        raise r
      return r

    with C.network(answer) as net:
      try:
        got = b.resolve_conflicts()
      except C.Stuck as e:
        ctx.fail("a silent neighbour is waited for forever", combo, str(e))
    best = [c for c in map(offered, table.values()) if c and len(c) > own]
    top = max(map(len, best), default=own)
    best = [c for c in best if len(c) == top]
    if best:
      ctx.check(got is True, "not reported as replaced", combo, got)
      ctx.check(b.chain in best, "not the longest valid chain", own, combo, len(b.chain), top)
    else:
      ctx.check(got is False, "reported as replaced", combo, got)
      ctx.eq(b.chain, base, "own chain replaced", combo)
    ctx.eq(sorted(set(net.urls)), sorted(table), "neighbours asked")
    ctx.check(C.valid(b.chain) and len(b.chain) >= own, "invalid or shorter chain", combo)
    ctx.eq(b.current_transactions, [C.tx("p", "q", 1)], "pending transactions")
    ctx.eq(len(b.nodes), n, "neighbours")
    ctx.state((own, combo))
    ctx.outcome((bool(best), top))
    ctx.trace()


def long(ctx, n, part, parts):
  """Chains of many blocks, faulty at one place, offered to a node with a shorter one."""
  m = C.load()
  c = C.genesis(5)
  for i in range(n - 1):
    c = C.grow(c, [C.tx("0", "l", 1)] + [C.tx("l", "x", j) for j in range(i % 2)], 6 + i)
  C.tick(2)
  mine = C.grow(C.genesis(2), [C.tx("0", "me", 1)], 3)

  def offer(chain, what, length=None):
    good = C.valid(chain) and len(chain) > 2
    ctx.at("long chain", n, what)
    b = m.Blockchain()
    b.chain = copy.deepcopy(mine)
    b.register_node("http://far:1")
    with C.network(lambda url: C.Reply(chain, length=length)):
      got = b.resolve_conflicts()
    ctx.check(got is good, "verdict on a chain of %d blocks" % len(chain), what, got)
    ctx.eq(b.chain, chain if good else mine, "chain after resolving", what)
    ctx.eq(b.valid_chain(copy.deepcopy(chain)), C.valid(chain), "valid chain", what)
    ctx.state((n, what))
    ctx.trace()

  if part == 0:
    offer(c, "whole")
    for k in range(1, n):
      offer(c[:k], ("prefix", k))
  for i in range(n):
    if i % parts != part:
      continue
    for what, kw in (("transactions", dict(transactions=[C.tx("bank", "thief", 9)])), ("proof", dict(proof=c[i]["proof"] + 1)),
                     ("previous hash", dict(previous_hash="0" * 64)), ("first hash", dict(previous_hash="1")), ("no hash", dict(previous_hash="")),
                     ("time", dict(timestamp=0.5)), ("index", dict(index=-1))):
      bad = c[:i] + [dict(c[i], **kw)] + c[i + 1:]
      offer(bad, (what, i))
    if 0 < i < n - 1:
      offer(c[:i] + c[i + 1:], ("lost", i))
      offer(c[:i] + [c[i - 1]] + c[i:], ("twice", i))
    # a block that links nowhere, with all the work done after it
    for link in ("1", "", "0" * 64, C.digest(c[max(i - 2, 0)])):
      if i and i + 3 >= n and link != c[i]["previous_hash"]:
        bad = c[:i] + [dict(c[i], previous_hash=link)]
        while len(bad) < n:
          bad = C.grow(bad, [], 99 + len(bad))
        offer(bad, ("unlinked", i, link))


def few_faults(ctx, n, part, parts):
  """Very long chains, one fault at one of several places."""
  m = C.load()
  c = C.genesis(5)
  for i in range(n - 1):
    c = C.grow(c, [C.tx("0", "l", 1)], 6 + i)
  C.tick(2)
  mine = C.grow(C.genesis(2), [C.tx("0", "me", 1)], 3)
  places = sorted({0, 1, n // 2, n - 3, n - 2, n - 1} | {k for k in (15, 16, 31, 32, 63, 64, 65, 127, 128) if k < n})
  for i in places[part::parts]:
    for what, kw in (("none", {}), ("transactions", dict(transactions=[])), ("proof", dict(proof=c[i]["proof"] + 1)), ("previous hash", dict(previous_hash="0" * 64))):
      chain = c[:i] + [dict(c[i], **kw)] + c[i + 1:]
      good = C.valid(chain)
      ctx.at("very long chain", n, i, what)
      b = m.Blockchain()
      b.chain = copy.deepcopy(mine)
      b.register_node("http://far:1")
      with C.network(lambda url: C.Reply(chain)):
        got = b.resolve_conflicts()
      ctx.check(got is good, "verdict on a chain of %d blocks" % n, i, what, got)
      ctx.eq(b.chain, chain if good else mine, "chain after resolving", i, what)
      ctx.state((n, i, what))
    ctx.trace()


def crowd(ctx, n):
  """Many neighbours, the best chain at each of them in turn."""
  m = C.load()
  lib = library()
  kinds = ["two", "three", "tampered middle", "error", "down", "other three", "claims more", "one", "garbled", "bad link at the end", "a block is null"]
  C.tick(2)
  mine = C.grow(C.genesis(2), [C.tx("0", "me", 1)], 3)
  for shift in (0, 3):
    for at in range(n):
      ctx.at("crowd", n, shift, at)
      b = m.Blockchain()
      b.chain = copy.deepcopy(mine)
      for i in range(n):
        b.register_node("http://10.0.1.%d:5000" % i)
      ctx.eq(len(b.nodes), n, "neighbours")
      table = {"http://10.0.1.%d:5000/chain" % i: lib["four" if i == at else kinds[(i + shift) % len(kinds)]] for i in range(n)}
      def answer(url):
        if isinstance(table[url], Exception):
          raise table[url]
        return table[url]

      with C.network(answer) as net:
        got = b.resolve_conflicts()
      ctx.eq(sorted(net.urls), sorted(table), "neighbours asked", n, at)
      ctx.check(got is True and b.chain == lib["four"].json()["chain"], "not the longest valid chain", n, at, len(b.chain))
      ctx.state((n, shift, at))
      ctx.trace()


def lengths(ctx, n, part, parts):
  """Every assignment of lengths to several neighbours: the longest is taken."""
  m = C.load()
  c = C.genesis(5)
  for i in range(5):
    c = C.grow(c, [C.tx("0", "l", 1)], 6 + i)
  other = C.genesis(25)
  for i in range(5):
    other = C.grow(other, [C.tx("0", "o", 1)], 26 + i)
  C.tick(2)
  mine = C.grow(C.genesis(2), [C.tx("0", "me", 1)], 3)
  for k, combo in enumerate(itertools.product((1, 2, 3, 4, 6), repeat=n)):
    if k % parts != part:
      continue
    for j in range(2):
      ctx.at("lengths", combo, j)
      b = m.Blockchain()
      b.chain = copy.deepcopy(mine)
      for i in range(n):
        b.register_node("http://10.0.2.%d:5000" % i)
      table = {"http://10.0.2.%d:5000/chain" % i: (c, other)[(i + j) % 2][:x] for i, x in enumerate(combo)}
      with C.network(lambda url: C.Reply(table[url])) as net:
        got = b.resolve_conflicts()
      ctx.eq(sorted(net.urls), sorted(table), "neighbours asked", combo)
      top = max(combo)
      ctx.check(got is (top > 2), "report of a replacement", combo, got)
      ctx.check(b.chain in [x for x in table.values() if len(x) == top] if top > 2 else b.chain == mine, "not the longest valid chain", combo, len(b.chain))
      ctx.state((combo, j))
    ctx.trace()


def net(ctx, n, edges, depth, first):
  """All histories of a network, states merged."""
  m = C.load()
  C.tick(2)
  names = ["n%d:1" % i for i in range(n)]

  def nodes(chains):
    out = []
    for i in range(n):
      C.tick(2 + i)
      b = m.Blockchain()
      b.chain = copy.deepcopy(chains[i])
      for j in range(n):
        if (i, j) in edges:
          b.register_node("http://" + names[j])
      out.append(b)
    return out

  def chains_of(bs):
    return [copy.deepcopy(b.chain) for b in bs]

  def resolve(bs, i):
    with C.network(lambda url: C.Reply(bs[names.index(url[len("http://"):-len("/chain")])].chain)):
      return bs[i].resolve_conflicts()

  def step(chains, op, i):
    bs = nodes(chains)
    ctx.at("network", [len(c) for c in chains], op, i)
    if op == "mine":
      b = bs[i]
      C.tick(100 * i + len(b.chain))
      b.new_transaction("0", names[i], 1)
      last = b.last_block
      key = (i, C.digest(last))
      if key not in mined:
        mined[key] = b.proof_of_work(last)
      b.new_block(mined[key], b.hash(last))
      ctx.eq(len(b.chain), len(chains[i]) + 1, "mined block")
    else:
      got = resolve(bs, i)
      near = [len(chains[j]) for j in range(n) if (i, j) in edges]
      ctx.eq(len(bs[i].chain), max(near + [len(chains[i])]), "length after resolving", op, i)
      ctx.eq(got, len(bs[i].chain) > len(chains[i]), "report of a replacement")
      if not got:
        ctx.eq(bs[i].chain, chains[i], "own chain replaced")
      else:
        ctx.check(bs[i].chain in [chains[j] for j in range(n) if (i, j) in edges], "chain of nobody")
    new = chains_of(bs)
    for j in range(n):
      ctx.check(C.valid(new[j]) and len(new[j]) >= len(chains[j]), "invalid or shorter chain", op, i, j)
      if j != i:
        ctx.eq(new[j], chains[j], "another node's chain changed", op, i, j)
    return new

  def converge(chains):
    bs = nodes(chains)
    for _ in range(n - 1):
      for i in range(n):
        resolve(bs, i)
    top = max(map(len, chains))
    ctx.eq([len(b.chain) for b in bs], [top] * n, "the network does not converge", [len(c) for c in chains])
    ctx.check(not any(resolve(bs, i) for i in range(n)), "a converged network changes")

  mined = {}
  ops = [(o, i) for o in ("mine", "resolve") for i in range(n)]
  start = [C.genesis(2 + i) for i in range(n)]
  level = [step(start, *ops[first])]
  for d in range(1, depth):
    new = {}
    for chains in level:
      for op in ops:
        c = step(chains, *op)
        key = json.dumps(c)
        if key not in new:
          new[key] = c
    level = list(new.values())
    for chains in level:
      if ctx.state(json.dumps(chains)):
        converge(chains)
    ctx.trace(len(level))
  ctx.sample(n, depth, len(level))


def growing(ctx, own):
  """The node's own chain grows while its neighbours are asked: what it holds by then is what an answer has to beat."""
  m = C.load()
  lib = library()
  offers = {"two": 2, "three": 3, "four": 4}
  for combo in itertools.product(offers, repeat=2):
    for grow in range(1, 4):
      for when in range(2):
        ctx.at("growing", own, combo, grow, when)
        C.tick(2)
        b = m.Blockchain()
        base = C.genesis(2)
        for i in range(own - 1 + grow):
          base = C.grow(base, [C.tx("0", "me", 1)], 3 + i)
        b.chain = copy.deepcopy(base[:own])
        for i in range(2):
          b.register_node("http://10.0.0.%d:5000" % i)
        table = {"http://10.0.0.%d:5000/chain" % i: lib[x] for i, x in enumerate(combo)}
        asked = []

        def answer(url):
          if len(asked) == when:
            for blk in base[own:]:
              b.current_transactions = list(blk["transactions"])
              C.tick(blk["timestamp"])
              b.new_block(blk["proof"], blk["previous_hash"])
          asked.append(url)
          return table[url]

        with C.network(answer):
          got = b.resolve_conflicts()
        best = max(offers[x] for x in combo)
        if best <= own + grow:
          ctx.eq(b.chain, base, "a chain was replaced by one that is not longer", own, grow, combo)
          ctx.check(got is False, "reported as replaced", own, grow, combo)
        else:
          ctx.check(got is True and len(b.chain) == best and C.valid(b.chain), "not the longest valid chain", own, grow, combo, len(b.chain))
        ctx.state((own, combo, grow, when))
    ctx.trace()


def offers(ctx, n, first, two):
  """Sequences of offers, forged versions of a chain before and after the chain itself: nothing is remembered wrongly."""
  m = C.load()
  real = C.genesis(5)
  for i in range(n - 1):
    real = C.grow(real, [C.tx("0", "r", 1)], 6 + i)
  forged = [real[:i] + [dict(real[i], transactions=[C.tx("bank", "thief", 9)])] + real[i + 1:] for i in range(n - 1)]
  forged += [real[:i] + [dict(real[i], timestamp=0.25)] + real[i + 1:] for i in (0, n - 2)]
  # the work of the last two blocks done again on the forgery
  redone = real[:1] + [dict(real[1], transactions=[C.tx("bank", "thief", 9)])]
  while len(redone) < n:
    redone = redone + [dict(real[len(redone)], previous_hash=C.digest(redone[-1]))]
  menu = [real, real[:-1]] + forged + [redone, C.grow(real[:-1], [C.tx("0", "s", 1)], 50)]
  other = C.grow(real, [], 60)
  menu += [other, forged[1] + other[-1:]]
  C.tick(2)
  mine = C.grow(C.genesis(2), [C.tx("0", "me", 1)], 3)
  rest = range(len(menu))
  seqs = itertools.product(rest, repeat=2) if not two else [(j,) for j in rest]
  for tail in seqs:
    for swap in (False, True) if two else (False,):
      b = m.Blockchain()
      b.chain = copy.deepcopy(mine)
      if two:
        steps = [((first,) + tail)[::-1 if swap else 1], ((first,) + tail)[::1 if swap else -1]]
      else:
        steps = [(k,) for k in (first,) + tail]
      for i in range(len(steps[0])):
        b.register_node("http://10.0.0.%d:5000" % i)
      for asked in steps:
        ctx.at("offers", n, steps, asked)
        table = {"http://10.0.0.%d:5000/chain" % i: C.Reply(menu[k]) for i, k in enumerate(asked)}
        before = copy.deepcopy(b.chain)
        with C.network(lambda url: table[url]):
          got = b.resolve_conflicts()
        good = [menu[k] for k in asked if C.valid(menu[k]) and len(menu[k]) > len(before)]
        top = max(map(len, good), default=0)
        good = [c for c in good if len(c) == top]
        ctx.check(got is bool(good), "report of a replacement", steps, asked, got)
        ctx.check(b.chain in (good or [before]), "not the longest valid chain", steps, asked, len(b.chain))
      ctx.state((n, two, steps[0], tail, swap))
      # a node that has seen nothing decides the same way, as does the check on its own
      for k in rest:
        if k in tail or k == first:
          ctx.check(b.valid_chain(copy.deepcopy(menu[k])) is C.valid(menu[k]), "valid chain", n, k)
      ctx.trace()


def addresses(ctx):
  m = C.load()
  hosts = ("192.168.0.5", "localhost", "node-1.example.org", "[::1]", "a", "user:pw@node", "user@10.0.0.1", "[fe80::1:2]")
  for h in hosts:
    for port in (":5000", ":80", ""):
      forms = ["http://" + h + port, "https://" + h + port, "http://" + h + port + "/", "http://" + h + port + "/chain?x=1", "//" + h + port]
      if h[0] != "[":
        forms.append(h + port)
      for f in forms:
        b = m.Blockchain()
        ctx.at("register", f)
        b.register_node(f)
        ctx.eq(set(b.nodes), {h + port}, "neighbour", f)
        b.register_node(f)
        b.register_node("http://" + h + port)
        ctx.eq(set(b.nodes), {h + port}, "neighbour registered twice", f)
        with C.network(lambda url: C.Reply(C.genesis())) as net:
          b.resolve_conflicts()
        ctx.eq(net.urls, ["http://%s/chain" % (h + port)], "address asked")
        ctx.state(f)
  b = m.Blockchain()
  for bad in ("", "//"):
    ctx.raises(lambda: b.register_node(bad), ValueError, "an address without a host is accepted", bad)
    ctx.eq(set(b.nodes), set(), "neighbours after a refusal")
  ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  names = list(library())
  few = [x for x in names if x not in ("other three", "other four", "missing", "tampered first", "no work at the end", "one", "empty", "slow", "no chain", "chain a number", "chain a text", "chain an object",
                                       "blocks are numbers", "a block is null", "first block null", "proof missing", "first proof missing", "nothing", "a list", "null")]
  out = [("addresses", addresses, {})]
  for own in (1, 2, 3):
    for n in (0, 1, 2):
      out.append(("answers-%d-%d" % (own, n), answers, dict(own=own, n=n, names=names, part=0, parts=1)))
    out += [("answers-%d-3-%d" % (own, i), answers, dict(own=own, n=3, names=names if t else few, part=i, parts=4)) for i in range(4)]
  out += [("growing-%d" % own, growing, dict(own=own)) for own in (1, 2, 3)]
  for n in (3, 5):
    k = n - 1 + 2 + 6
    out += [("offers-%d-%d" % (n, i), offers, dict(n=n, first=i, two=False)) for i in range(k)]
    out += [("pairs-%d-%d" % (n, i), offers, dict(n=n, first=i, two=True)) for i in range(k)]
  if t:
    out += [("answers-4-few-%d" % i, answers, dict(own=2, n=4, names=few, part=i, parts=8)) for i in range(8)]
  out += [("long-%d-%d" % (n, i), long, dict(n=n, part=i, parts=4)) for n in ((9, 20, 34, 66) if t else (9, 20, 34)) for i in range(4)]
  out += [("very-long-%d-%d" % (n, i), few_faults, dict(n=n, part=i, parts=2)) for n in (66, 129) for i in range(2)]
  out += [("lengths-%d-%d" % (n, i), lengths, dict(n=n, part=i, parts=2)) for n in (4, 5) for i in range(2)]
  if t:
    out += [("lengths-6-%d" % i, lengths, dict(n=6, part=i, parts=8)) for i in range(8)]
  out += [("crowd-%d" % n, crowd, dict(n=n)) for n in (5, 9, 17, 33)]
  full = [(i, j) for i in range(3) for j in range(3) if i != j]
  for f in range(6):
    out.append(("net-3-%d" % f, net, dict(n=3, edges=full, depth=6 if t else 5, first=f)))
    out.append(("line-3-%d" % f, net, dict(n=3, edges=[(0, 1), (1, 0), (1, 2), (2, 1)], depth=6 if t else 5, first=f)))
  if t:
    full4 = [(i, j) for i in range(4) for j in range(4) if i != j]
    out += [("net-4-%d" % f, net, dict(n=4, edges=full4, depth=5, first=f)) for f in range(8)]
  return out
