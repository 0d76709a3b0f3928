import copy
import json

from mc import chain as C

ID = "C35"
BOUNDS = {
    "requests": "every sequence of up to 4 (5) requests among: two transactions, each with and without a missing field, an empty and a non-object "
                "body, mining, reading the chain, registering none, one or two nodes, 16 malformed registrations, transactions that are no objects, resolving "
                "against no, longer, shorter and forged chains; the answers and the whole state of the node against a model after each",
    "bulk": "17, 40 and 70 neighbours in one request, as many transactions in one block, chains of as many blocks taken over; 130, 300 and 1100 transactions before each of two blocks",
    "values": "20 values of every JSON type as sender, recipient and amount; further fields; the same transaction five times",
    "adopted": "chains taken over from neighbours whose blocks carry no index, or 9 odd ones, in their last or in every block; then transactions, mining and transactions again",
    "identity": "two servers loaded side by side share nothing",
}

AMOUNTS = ["5", "007", "", "1e3", "-1", " 5 ", "abc", 0.1, -0.0, 1e300, 5e-324, 2**53 + 1, 2**64, -3, True, False, None, [1, "2"], {"v": 1}, "\u00e9", "x" * 300]
GOOD = {"a": C.tx("alice", "bob", 3), "b": C.tx("b", "", 0), "0": C.tx("0", "eve", 1)}
BAD = {"no sender": dict(recipient="x", amount=1), "no recipient": dict(sender="x", amount=1), "no amount": dict(sender="x", recipient="y"),
       "nothing": {}, "list": []}


def node(server):
  found = [v for v in vars(server).values() if type(v).__name__ == "Blockchain"]
  assert len(found) == 1, found
  return found[0]


def text(chain):
  return json.loads(json.dumps(chain))


class Model:

  def __init__(self, chain):
    self.chain, self.pending, self.nodes = chain, [], set()

  def copy(self):
    m = Model(list(self.chain))
    m.pending, m.nodes = list(self.pending), set(self.nodes)
    return m


def forge(kind, at):
  """A chain as some neighbour would serve it."""
  if kind == "short":
    return C.genesis(7)
  c = C.genesis(7)
  for i in range(3):
    c = C.grow(c, [C.tx("0", "far", 1)], 8 + i)
  if kind == "forged":
    c = C.grow(c, [], 20)
    c[2] = dict(c[2], transactions=[C.tx("bank", "thief", 10**9)])
  return c


class World:

  def __init__(self, ctx):
    self.ctx = ctx
    C.tick(1)
    self.server = C.load_server()
    self.b = node(self.server)
    self.client = self.server.app.test_client()
    self.model = Model(C.genesis(1))
    r = self.mine_reward()
    self.me = r

  def mine_reward(self):
    """The node's address, as seen in the reward of a mined block."""
    me = self.server.node_identifier
    self.ctx.check(type(me) is str and me, "address of the node")
    return me

  def snap(self):
    return copy.deepcopy((self.b.chain, self.b.current_transactions, set(self.b.nodes))), self.model.copy()

  def restore(self, s):
    (c, t, n), m = s
    self.b.chain, self.b.current_transactions, self.b.nodes = copy.deepcopy(c), list(t), set(n)
    self.model = m.copy()

  def check(self):
    ctx, m = self.ctx, self.model
    ctx.eq(self.b.chain, m.chain, "chain of the node")
    ctx.eq(self.b.current_transactions, m.pending, "pending transactions")
    ctx.eq(set(self.b.nodes), m.nodes, "neighbours")
    r = self.client.get("/chain")
    ctx.eq((r.status_code, r.get_json()), (200, dict(chain=text(m.chain), length=len(m.chain))), "served chain")
    ctx.check(C.valid(m.chain), "invalid chain")
    ctx.state(json.dumps([m.chain, m.pending, sorted(m.nodes)]))

  def do(self, op, at):
    ctx, m = self.ctx, self.model
    kind, arg = op
    C.tick(at)
    if kind == "tx":
      r = self.client.post("/transactions/new", json=GOOD[arg])
      ctx.eq(r.status_code, 201, "status of a transaction")
      m.pending.append(dict(GOOD[arg]))
      ctx.check(str(len(m.chain) + 1) in r.get_json()["message"].split(), "announced block", r.get_json(), len(m.chain) + 1)
    elif kind == "bad":
      r = self.client.post("/transactions/new", json=BAD[arg])
      ctx.eq(r.status_code, 400, "status of an incomplete transaction", arg)
    elif kind == "raw":
      r = self.client.post("/transactions/new", data="not json", content_type="application/json")
      ctx.check(400 <= r.status_code < 500, "status of a request that is not JSON", r.status_code)
    elif kind == "odd":
      r = self.client.post("/transactions/new", json=arg)
      ctx.check(r.status_code >= 400, "a transaction that is no object is accepted", arg, r.status_code)
    elif kind == "mine":
      r = self.client.get("/mine")
      ctx.eq(r.status_code, 200, "status of mining")
      got = r.get_json()
      last = m.chain[-1]
      proof = got["proof"]
      ctx.check(C.work(last["proof"], proof, C.digest(last)), "proof of work", proof)
      blk = dict(index=len(m.chain) + 1, timestamp=float(at), transactions=m.pending + [C.tx("0", self.me, 1)], proof=proof,
                 previous_hash=C.digest(last))
      m.chain, m.pending = m.chain + [blk], []
      ctx.eq({k: got.get(k) for k in blk if k != "timestamp"}, {k: text(v) for k, v in blk.items() if k != "timestamp"}, "mined block")
    elif kind == "register":
      r = self.client.post("/nodes/register", json=dict(nodes=["http://%s:5000" % x for x in arg]))
      m.nodes |= {"%s:5000" % x for x in arg}
      ctx.eq(r.status_code, 201, "status of registering")
      ctx.eq(set(r.get_json()["total_nodes"]), m.nodes, "registered nodes")
    elif kind == "noregister":
      r = self.client.post("/nodes/register", json=dict(other=1))
      ctx.eq(r.status_code, 400, "status of registering nothing")
    elif kind == "badregister":
      r = self.client.post("/nodes/register", json=arg)
      ctx.check(r.status_code >= 400, "a malformed list of nodes is registered", arg, r.status_code)
    elif kind == "resolve":
      c = forge(arg, at) if arg else None
      with C.network(lambda url: C.Reply(c) if c else C.Reply([], status=503)) as net:
        r = self.client.get("/nodes/resolve")
      ctx.eq(r.status_code, 200, "status of resolving")
      ctx.eq(sorted(net.urls), sorted("http://%s/chain" % x for x in m.nodes), "neighbours asked")
      got = r.get_json()
      if m.nodes and c and C.valid(c) and len(c) > len(m.chain):
        m.chain = text(c)
        ctx.eq(got.get("new_chain"), text(m.chain), "new chain", arg)
        ctx.check("chain" not in got or got["chain"] == got["new_chain"], "answer", got)
      else:
        ctx.eq(got.get("chain"), text(m.chain), "own chain", arg)
        ctx.check("new_chain" not in got, "answer", got)
    self.check()


OPS = [("tx", "a"), ("tx", "b"), ("mine", None), ("register", ("n1", "n2")), ("register", ("n1",)), ("resolve", "long"), ("resolve", "forged")]
NO_NODES = [dict(nodes=x) for x in (
    [""], "http://n3:5000", "n3", ["http://n3:5000", ""], ["", "http://n3:5000"], ["http://n3:5000", 7], ["n3:5000", None, "n4:5000"],
    [["http://n3:5000"]], {"n3": "http://n3:5000"}, 5, True, None)] + [["http://n3:5000"], "nodes", 7, None]
RARE = [("bad", x) for x in BAD] + [("raw", None)] + [("odd", x) for x in (["sender", "recipient", "amount"], "sender recipient amount", 7, True, None)] + [("register", ()), ("noregister", None), *(("badregister", x) for x in NO_NODES), ("resolve", "short"), ("resolve", None)]


def requests(ctx, lead, depth):
  w = World(ctx)

  def go(path):
    ctx.trace()
    s = w.snap()
    for op in OPS + RARE:
      # the requests that change nothing are tried everywhere, and not continued
      ctx.at("requests", path + [op])
      w.do(op, 10 + len(path))
      if op in OPS and len(path) + 1 < depth:
        go(path + [op])
      w.restore(s)

  path = []
  for op in lead:
    ctx.at("requests", path + [op])
    w.do(op, 10 + len(path))
    path.append(op)
  go(path)
  ctx.sample(lead)


def bulk(ctx, n):
  """Many neighbours in one request, many transactions in one block, long chains."""
  w = World(ctx)
  names = ["m%d" % i for i in range(n)]
  ctx.at("bulk", n)
  w.do(("register", tuple(names)), 10)
  w.do(("register", tuple(names[::2]) + ("extra",)), 11)
  for i in range(n):
    ctx.at("bulk transaction", n, i)
    r = w.client.post("/transactions/new", json=C.tx("s%d" % i, "r", i))
    ctx.eq(r.status_code, 201, "status of a transaction")
    ctx.check("2" in r.get_json()["message"].split(), "announced block", r.get_json(), i)
    w.model.pending.append(C.tx("s%d" % i, "r", i))
    if i % 16 == 0:
      w.check()
  w.check()
  w.do(("mine", None), 12)
  for i in range(n // 4):
    w.do(("mine", None), 13 + i)
  # a much longer chain elsewhere
  c = C.genesis(7)
  for i in range(n):
    c = C.grow(c, [C.tx("0", "far", 1)], 8 + i)
  for chain in (c[:len(w.model.chain)], c):
    ctx.at("bulk resolve", n, len(chain))
    with C.network(lambda url: C.Reply(chain)):
      r = w.client.get("/nodes/resolve").get_json()
    if len(chain) > len(w.model.chain):
      w.model.chain = text(chain)
      ctx.eq(r.get("new_chain"), text(chain), "new chain")
    else:
      ctx.eq(r.get("chain"), text(w.model.chain), "own chain")
    w.check()
  w.do(("tx", "a"), 90)
  w.do(("mine", None), 91)
  ctx.trace()


def pending(ctx, n):
  """Many transactions before and between blocks: the announced index is that of the next block."""
  w = World(ctx)
  for block in range(2):
    for i in range(n):
      ctx.at("pending", n, block, i)
      t = C.tx("s%d" % i, "r%d" % (i * i), i)
      r = w.client.post("/transactions/new", json=t)
      ctx.eq(r.status_code, 201, "status of a transaction")
      ctx.check(str(len(w.model.chain) + 1) in r.get_json()["message"].split(), "announced block", r.get_json(), len(w.model.chain) + 1)
      w.model.pending.append(t)
      ctx.state((n, block, i))
    w.do(("mine", None), 20 + block)
  ctx.trace()


def values(ctx):
  """What is given is what is recorded: senders, recipients and amounts of every kind."""
  w = World(ctx)
  at = 20
  for where in ("sender", "recipient", "amount"):
    for v in AMOUNTS:
      ctx.at("values", where, v)
      t = dict(C.tx("s", "r", 1), **{where: v})
      r = w.client.post("/transactions/new", json=t)
      ctx.eq(r.status_code, 201, "status of a transaction", t)
      ctx.eq(json.dumps(w.b.current_transactions[-1:], sort_keys=True), json.dumps([t], sort_keys=True), "recorded transaction")
      w.model.pending.append(t)
      ctx.state((where, repr(v)))
    w.do(("mine", None), at)
    at += 1
  # more than is asked for, and the same twice and three times
  for extra in (dict(note="x"), dict(index=9), dict(timestamp=1)):
    r = w.client.post("/transactions/new", json=dict(GOOD["a"], **extra))
    ctx.eq(r.status_code, 201, "status of a transaction with more fields", extra)
    w.model.pending.append(dict(GOOD["a"]))
  for _ in range(5):
    w.do(("tx", "b"), at)
  w.do(("mine", None), at + 1)
  ctx.trace()


ODD = (None, 0, -1, 1, 2, 10**6, "7", 2.5, [3], {})


def adopted(ctx, n):
  """The next block is the one after the chain's last, however the blocks taken over are numbered."""
  for k, odd in enumerate(ODD):
    for every in (False, True):
      c = C.genesis(7)
      for i in range(n - 1):
        c = C.grow(c, [C.tx("0", "far", i)], 8 + i)
        if every or i == n - 2:
          if k:
            c[-1]["index"] = odd
          else:
            del c[-1]["index"]
      ctx.at("adopted", n, odd, every)
      w = World(ctx)
      w.do(("register", ("n1",)), 20)
      with C.network(lambda url: C.Reply(c)):
        r = w.client.get("/nodes/resolve")
      ctx.eq(r.status_code, 200, "status of resolving")
      ctx.eq(r.get_json().get("new_chain"), text(c), "new chain")
      w.model.chain = text(c)
      w.check()
      for at, op in enumerate((("tx", "a"), ("tx", "b"), ("mine", None), ("tx", "a"), ("mine", None), ("mine", None))):
        ctx.at("adopted", n, odd, every, at)
        w.do(op, 30 + at)
      ctx.trace()


def identity(ctx):
  C.tick(1)
  a, b = C.load_server(), C.load_server()
  ctx.check(a.node_identifier != b.node_identifier, "two nodes of one address", a.node_identifier)
  ca, cb = a.app.test_client(), b.app.test_client()
  ctx.at("identity")
  ctx.eq(ca.post("/transactions/new", json=GOOD["a"]).status_code, 201, "transaction")
  ctx.eq(ca.get("/mine").status_code, 200, "mining")
  ctx.eq(len(node(a).chain), 2, "chain")
  ctx.eq((len(node(b).chain), node(b).current_transactions), (1, []), "another node's state")
  ctx.eq(ca.post("/nodes/register", json=dict(nodes=["http://b"])).status_code, 201, "registering")
  ctx.eq(set(node(b).nodes), set(), "another node's neighbours")
  for path, method in (("/mine", "post"), ("/transactions/new", "get"), ("/chain", "post"), ("/nodes/register", "get"), ("/nodes/resolve", "post"),
                       ("/", "get"), ("/nope", "get")):
    r = getattr(cb, method)(path)
    ctx.check(r.status_code in (404, 405), "request with the wrong method", path, r.status_code)
    ctx.eq((len(node(b).chain), node(b).current_transactions), (1, []), "state after a refused request", path)
    ctx.state((path, method))
  # the chain a node serves is accepted by another one
  with C.network(lambda url: C.Reply(None, body=ca.get("/chain").get_json(), length=0)):
    cb.post("/nodes/register", json=dict(nodes=["http://a:1"]))
    r = cb.get("/nodes/resolve")
  ctx.eq(r.get_json().get("new_chain"), ca.get("/chain").get_json()["chain"], "chain taken over")
  ctx.eq(node(b).chain, node(a).chain, "chain taken over")
  ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = [("identity", identity, {}), ("values", values, {})] + [("bulk-%d" % n, bulk, dict(n=n)) for n in (17, 40, 70)]
  out += [("pending-%d" % n, pending, dict(n=n)) for n in (130, 300, 1100)]
  out += [("adopted-%d" % n, adopted, dict(n=n)) for n in ((2, 3, 5) if t else (2, 4))]
  for a in OPS:
    for b in OPS:
      out.append(("requests-%s-%s" % (a, b), requests, dict(lead=[a, b], depth=5 if t else 4)))
  # a transaction that looks like a reward is no reward
  for b in [("tx", "0"), ("tx", "a"), ("mine", None)]:
    out.append(("requests-zero-%s" % (b,), requests, dict(lead=[("tx", "0"), b], depth=4 if t else 3)))
  return out
