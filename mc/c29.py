import copy
import itertools
import json

from mc import chain as C

ID = "C29"
BOUNDS = {
    "histories": "every sequence of up to 6 (7) operations among two transactions, mining with the given and with the default predecessor: the "
                 "whole ledger against a model after each",
    "tampering": "four valid chains of 3..5 blocks: every change of one field of one block, every removal, addition, replacement or exchange of "
                 "transactions, every removal, repetition, exchange or splice of blocks, every pair of changes of two fields of one chain",
    "links": "chains of 2 to 4 blocks with each block linking to each other block and to ten fixed values, the work redone on it or not",
    "long chains": "chains of 14 and 40 (70) blocks: every prefix, one of five faults, a lost, repeated or exchanged block at every place",
    "bulk": "blocks of 0 to 257 transactions, kept whole; one transaction of each changed or lost at up to 11 places",
    "work": "every proof from 0 to 300000 for four predecessors against the definition of valid work",
    "digest": "every order of the keys, and distinct digests for all blocks that differ",
}


def book():
  return C.load()


OPS = ("t1", "t2", "B", "N")
TX = {"t1": ("alice", "bob", 5), "t2": ("bob", "é\"x", 0.25)}


def snap(b):
  return copy.deepcopy((b.chain, b.current_transactions))


def restore(b, s):
  b.chain, b.current_transactions = copy.deepcopy(s)


def consistent(ctx, b, model, pending):
  ctx.eq(b.chain, model, "chain")
  ctx.eq(b.current_transactions, pending, "pending transactions")
  ctx.eq(b.last_block, model[-1], "last block")
  ctx.check(b.valid_chain(b.chain) is True, "an honest chain is invalid", model)
  ctx.check(C.valid(model), "invalid model")
  ctx.eq(b.chain, model, "chain changed by validating it")


def histories(ctx, lead, depth):
  m = book()
  C.tick(1)
  b = m.Blockchain()
  consistent(ctx, b, C.genesis(), [])

  def apply(op, path, model, pending):
    ctx.at("history", path + [op])
    C.tick(2 + len(path))
    if op[0] == "t":
      a = TX[op]
      ctx.eq(b.new_transaction(*a), len(model) + 1, "announced block", path)
      pending = pending + [C.tx(*a)]
    else:
      last = b.last_block
      proof = b.proof_of_work(last)
      ctx.check(type(proof) is int and C.work(last["proof"], proof, C.digest(last)), "proof of work", path, proof)
      h = b.hash(last)
      ctx.eq(h, C.digest(last), "digest of a block")
      got = b.new_block(proof, h if op == "B" else None)
      new = dict(index=len(model) + 1, timestamp=float(2 + len(path)), transactions=pending, proof=proof, previous_hash=h)
      ctx.eq(got, new, "returned block", path)
      model, pending = model + [copy.deepcopy(new)], []
    consistent(ctx, b, model, pending)
    ctx.state(json.dumps([model, pending]))
    return model, pending

  def go(path, model, pending):
    ctx.trace()
    if len(path) == depth:
      return
    s = snap(b)
    for op in OPS:
      if op == "N" and path[-1:] == ["N"]:
        continue
      m2, p2 = apply(op, path, copy.deepcopy(model), copy.deepcopy(pending))
      go(path + [op], m2, p2)
      restore(b, s)

  model, pending, path = C.genesis(), [], []
  for op in lead:
    model, pending = apply(op, path, model, pending)
    path = path + [op]
  go(path, model, pending)
  ctx.sample(lead)


def honest(k):
  """Valid chains of various shapes."""
  c = C.genesis(3)
  for i in range(2 + k % 3):
    txs = [C.tx("a%d" % j, "b", j + i) for j in range((i + k) % 3)] + [C.tx("0", "miner", 1)]
    c = C.grow(c, txs, 10 + i)
  return c


def edits(c, i):
  """(changed block i, whether anything the digest covers changed)."""
  b = c[i]
  for key, vals in (("index", (0, b["index"] + 1, -b["index"], str(b["index"]), None)),
                    ("timestamp", (0, b["timestamp"] + 1e-6, b["timestamp"] + 1, str(b["timestamp"]), None)),
                    ("proof", (0, b["proof"] + 1, b["proof"] - 1, b["proof"] * 10, -b["proof"], b["proof"] ^ 1)),
                    ("previous_hash", ("", "1", "1" * 64, C.digest(c[0]), C.digest(c[-1]), C.digest(b), c[i - 1]["previous_hash"], b["previous_hash"][::-1], b["previous_hash"][:-1], b["previous_hash"].upper() + "A",
                                       b["previous_hash"] + "0", None))):
    for v in vals:
      if v != b[key]:
        yield key, dict(b, **{key: v})
  for j in range(64):
    h = b["previous_hash"]
    if j < len(h):
      yield "previous_hash", dict(b, previous_hash=h[:j] + ("0" if h[j] != "0" else "1") + h[j + 1:])
  t = b["transactions"]
  yield "transactions", dict(b, transactions=t + [C.tx("x", "y", 1)])
  yield "transactions", dict(b, transactions=t + t[:1]) if t else dict(b, transactions=None)
  for j in range(len(t)):
    yield "transactions", dict(b, transactions=t[:j] + t[j + 1:])
    for key, v in (("amount", t[j]["amount"] + 1), ("amount", -t[j]["amount"] - 1), ("amount", str(t[j]["amount"])), ("sender", "mallory"),
                   ("sender", ""), ("recipient", "mallory"), ("extra", 1)):
      yield "transactions", dict(b, transactions=t[:j] + [dict(t[j], **{key: v})] + t[j + 1:])
    yield "transactions", dict(b, transactions=t[:j] + [dict(t[j], sender=t[j]["recipient"], recipient=t[j]["sender"])] + t[j + 1:])
  if len(t) > 1:
    yield "transactions", dict(b, transactions=t[::-1])
  yield "extra", dict(b, extra=0)


def judge(ctx, b, chain):
  keep = json.dumps(chain)
  got = b.valid_chain(chain)
  ctx.check(got is True or got is False, "not a verdict", got)
  ctx.eq(json.dumps(chain), keep, "chain changed by validating it")
  return got


def tampering(ctx, k):
  m = book()
  b = m.Blockchain()
  c = honest(k)
  n = len(c)
  ctx.check(judge(ctx, b, copy.deepcopy(c)) is True, "an honest chain is invalid")
  seen = set()

  def verdict(ch, what):
    ctx.at("tampered", k, what)
    got = judge(ctx, b, ch)
    want = C.valid(ch)
    ctx.check(got == want, "verdict", what, got)
    ctx.state(json.dumps(ch))
    return got

  for i in range(n):
    for key, blk in edits(c, i):
      ch = copy.deepcopy(c)
      ch[i] = copy.deepcopy(blk)
      got = verdict(ch, (i, key, blk[key] if key in blk else None))
      if i < n - 1 or (key == "previous_hash" and n > 1):
        ctx.check(got is False, "tampering is not noticed", i, key, blk)
      seen.add((i, key, got))
    d = dict(c[i])
    for key in ("proof", "previous_hash"):
      ch = copy.deepcopy(c)
      del ch[i][key]
      try:
        got = b.valid_chain(ch)
      except (KeyError, TypeError):
        got = False
      ctx.check(not got or (i == 0 and n == 1), "a block without %s passes" % key, i)
    ctx.eq(c[i], d, "reference chain")
  # whole blocks
  for i in range(n):
    verdict(c[:i] + c[i + 1:], ("drop", i)) if n > 1 else None
    if 0 < i < n - 1:
      ctx.check(b.valid_chain(c[:i] + c[i + 1:]) is False, "a dropped block is not noticed", i)
    for j in range(n):
      ch = c[:j] + [c[i]] + c[j:]
      ctx.check(verdict(ch, ("repeat", i, j)) is False, "a repeated block is not noticed", i, j)
      if i < j:
        ch = list(c)
        ch[i], ch[j] = ch[j], ch[i]
        ctx.check(verdict(ch, ("exchange", i, j)) is False, "exchanged blocks are not noticed", i, j)
  for i in range(1, n + 1):
    verdict(c[:i], ("prefix", i))
    verdict(c[n - i:], ("suffix", i))
    for o in range(4):
      if o != k:
        verdict(c[:i] + honest(o)[i:], ("splice", i, o))
  # a chain redone honestly after a change is valid again; without the work it is not
  for i in range(n - 1):
    ch = copy.deepcopy(c[:i + 1])
    ch[i]["timestamp"] += 5
    redone = ch
    for blk in c[i + 1:]:
      redone = C.grow(redone, blk["transactions"], blk["timestamp"])
    if i == 0:
      ctx.check(verdict(redone, ("redone", i)) is True, "a remade chain is invalid")
    relinked = list(ch)
    for blk in c[i + 1:]:
      relinked.append(dict(blk, previous_hash=C.digest(relinked[-1])))
    verdict(relinked, ("relinked", i))
  ctx.outcome(len(seen))
  ctx.trace()


LINKS = ("", "0", "1", "0" * 64, "1" * 64, "f" * 64, None, 1, 0, True)


def links(ctx, n):
  """A block that links anywhere but to the one before, all the work done on what it links to and on its predecessor."""
  m = book()
  b = m.Blockchain()
  c = honest(2)
  while len(c) < n:
    c = C.grow(c, [], 40 + len(c))
  for i in range(1, n):
    for link in LINKS + tuple(C.digest(x) for x in c):
      ctx.at("link", n, i, link)
      bad = c[:i] + [dict(c[i], previous_hash=link)]
      ctx.eq(judge(ctx, b, bad), C.valid(bad), "verdict on a chain of %d blocks" % len(bad), i, link)
      while len(bad) < n:
        bad = C.grow(bad, [], 99 + len(bad))
      ctx.eq(judge(ctx, b, bad), C.valid(bad), "verdict", i, link)
      # the work done on the wrong link
      p = 0
      while not C.work(c[i - 1]["proof"], p, link):
        p += 1
      bad = c[:i] + [dict(c[i], previous_hash=link, proof=p)]
      ctx.eq(judge(ctx, b, bad), C.valid(bad), "verdict", i, link)
      ctx.state((n, i, link))
  # what the first block links to is not looked at
  for link in LINKS:
    first = [dict(c[0], previous_hash=link)]
    ctx.eq(judge(ctx, b, first), True, "one block alone", link)
  ctx.trace()


def lengthy(ctx, n, part, parts):
  """Chains of many blocks with a fault at any one place."""
  m = book()
  b = m.Blockchain()
  c = C.genesis(3)
  for i in range(n - 1):
    c = C.grow(c, [C.tx("0", "l", i)] + [C.tx("l", "x", j) for j in range(i % 2)], 6 + i)
  for k in range(1, n + 1):
    ctx.check(judge(ctx, b, c[:k]) is True, "an honest chain is invalid", k)
  for i in range(n):
    if i % parts != part:
      continue
    for what, kw in (("transactions", dict(transactions=c[i]["transactions"] + [C.tx("bank", "thief", 9)])), ("proof", dict(proof=c[i]["proof"] + 1)),
                     ("previous hash", dict(previous_hash="0" * 64)), ("time", dict(timestamp=0.5)), ("index", dict(index=-1))):
      ch = c[:i] + [dict(c[i], **kw)] + c[i + 1:]
      ctx.at("long chain", n, i, what)
      got = judge(ctx, b, ch)
      ctx.eq(got, C.valid(ch), "verdict", n, i, what)
      ctx.check(not got or i == n - 1, "tampering is not noticed", n, i, what)
      ctx.state((n, i, what))
    for ch, what in ((c[:i] + c[i + 1:], "lost"), (c[:i] + [c[i]] + c[i:], "twice"), (c[:i] + c[i:i + 2][::-1] + c[i + 2:], "exchanged")):
      if ch:
        ctx.at("long chain", n, i, what)
        ctx.eq(judge(ctx, b, ch), C.valid(ch), "verdict", n, i, what)
        ctx.state((n, i, what))
    ctx.trace()


def pairs(ctx, k, part, parts):
  """Two changes at once, anywhere."""
  m = book()
  b = m.Blockchain()
  c = honest(k)
  all_edits = [(i, key, blk) for i in range(len(c)) for key, blk in edits(c, i) if key != "previous_hash" or blk[key] in (None, "")]
  for n, ((i, ka, x), (j, kb, y)) in enumerate(itertools.combinations(all_edits, 2)):
    if n % parts != part:
      continue
    ch = list(c)
    ch[i] = x
    ch[j] = y if i != j else dict(x, **{kb: y[kb]})
    ctx.at("two changes", k, (i, ka), (j, kb))
    ctx.eq(judge(ctx, b, ch), C.valid(ch), "verdict", (i, ka), (j, kb))
    ctx.state(n)
  ctx.trace()


def bulk(ctx, counts):
  """Blocks of many transactions, one after the other."""
  m = book()
  C.tick(1)
  b = m.Blockchain()
  model = C.genesis(1)
  for n, count in enumerate(counts):
    pending = []
    for j in range(count):
      ctx.at("bulk", count, j)
      t = ("s%d" % (j % 7), "r%d" % j, j * 1.5)
      ctx.eq(b.new_transaction(*t), len(model) + 1, "announced block", count, j)
      pending.append(C.tx(*t))
      ctx.eq(len(b.current_transactions), j + 1, "pending transactions", count, j)
    ctx.eq(b.current_transactions, pending, "pending transactions", count)
    last = b.last_block
    C.tick(2 + n)
    h = C.digest(last)
    proof = b.proof_of_work(last)
    ctx.check(C.work(last["proof"], proof, h), "proof of work", count, proof)
    got = b.new_block(proof, h if n % 2 else None)
    model = model + [dict(index=len(model) + 1, timestamp=float(2 + n), transactions=pending, proof=proof, previous_hash=h)]
    ctx.eq(got, model[-1], "returned block", count)
    consistent(ctx, b, model, [])
    ctx.state((count, n))
    ctx.trace()
  # no transaction of any block may be changed
  for i in range(len(model) - 1):
    t = model[i]["transactions"]
    for j in sorted({0, 1, 9, 10, 49, 50, 63, 64, 99, len(t) // 2, len(t) - 1}):
      if 0 <= j < len(t):
        ch = list(model)
        ch[i] = dict(model[i], transactions=t[:j] + [dict(t[j], amount=1)] + t[j + 1:])
        ctx.check(judge(ctx, b, ch) is False, "a changed transaction is not noticed", i, j)
        ch[i] = dict(model[i], transactions=t[:j] + t[j + 1:])
        ctx.check(judge(ctx, b, ch) is False, "a lost transaction is not noticed", i, j)
        ctx.state((i, j))
  ctx.trace()


def work(ctx, last_proof, last_hash, lo, hi):
  m = book()
  b = m.Blockchain
  hits = 0
  for p in range(lo, hi):
    got = b.valid_proof(last_proof, p, last_hash)
    want = C.work(last_proof, p, last_hash)
    ctx.check(got is want, "valid work", last_proof, p, last_hash, got)
    hits += want
  ctx.state((last_proof, lo))
  ctx.outcome(hits)
  ctx.trace()


def digests(ctx):
  m = book()
  b = m.Blockchain
  seen = {}
  for k in range(4):
    c = honest(k)
    for i in range(len(c)):
      for key, blk in [("", c[i])] + list(edits(c, i)):
        ctx.at("digest", blk)
        h = b.hash(blk)
        ctx.eq(h, C.digest(blk), "digest", blk)
        text = json.dumps(blk, sort_keys=True)
        ctx.check(seen.setdefault(h, text) == text, "two blocks of one digest", text, seen[h])
        ctx.state(text)
    blk = c[-1]
    for order in itertools.permutations(blk):
      ctx.eq(b.hash({x: blk[x] for x in order}), b.hash(blk), "the digest depends on the order of the keys", order)
  ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = []
  for a in OPS:
    for b in OPS:
      if (a, b) != ("N", "N"):
        out.append(("history-%s-%s" % (a, b), histories, dict(lead=[a, b], depth=7 if t else 6)))
  out += [("tampering-%d" % k, tampering, dict(k=k)) for k in range(4)]
  out += [("pairs-%d-%d" % (k, i), pairs, dict(k=k, part=i, parts=4)) for k in range(4 if t else 2) for i in range(4)]
  for n, (lp, lh) in enumerate(((100, "0" * 64), (35293, "ab" * 32), (0, "f" * 64), (533, "1"))):
    out += [("work-%d-%d" % (n, i), work, dict(last_proof=lp, last_hash=lh, lo=100000 * i, hi=100000 * (i + 1))) for i in range(10 if t else 3)]
  out += [("links-%d" % n, links, dict(n=n)) for n in (2, 3, 4)]
  out += [("bulk-0", bulk, dict(counts=(1, 50, 51, 9, 10))), ("bulk-1", bulk, dict(counts=(100, 257, 0, 33)))]
  out += [("lengthy-%d-%d" % (n, i), lengthy, dict(n=n, part=i, parts=4)) for n in ((14, 40, 70) if t else (14, 40)) for i in range(4)]
  return out + [("digests", digests, {})]
