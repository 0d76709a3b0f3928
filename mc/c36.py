import copy
import itertools
import json

from mc import chain as C
from mc import sched

ID = "C36"
BOUNDS = {
    "schedules": "every schedule with at most 2 (3) preemptions of 2 threads serving 1 or 2 requests each, and at most 1 (2) of 3 threads, a switch "
                 "being possible before every line of misc/ and before an attribute is stored that its line has read (each line the first two times a thread executes it); requests: transaction, mining, "
                 "resolving against a chain longer by one or more, registering, reading the chain",
    "oracle": "the final state of the node and the answers equal those of some order of the requests executed one after another",
    "work": "the difficulty of the proof of work is lowered (any digest beginning with one of 0..7) so that mining takes a few steps",
}


def easy(last_proof, proof, last_hash):
  import hashlib
  return hashlib.sha256(("%s%s%s" % (last_proof, proof, last_hash)).encode()).hexdigest()[0] < "8"


def far(n):
  c = C.genesis(7)
  for i in range(n - 1):
    c = C.grow(c, [C.tx("0", "far", 1)], 8 + i, easy)
  return c


def tx(c, who):
  r = c.post("/transactions/new", json=C.tx(who, "x", 1))
  return ["tx", r.status_code, r.get_json()]


def mine(c, who):
  r = c.get("/mine")
  return ["mine", r.status_code, r.get_json()]


def resolve(c, who):
  r = c.get("/nodes/resolve")
  # the chain told along may already have grown again
  told = {k: v for k, v in (r.get_json() or {}).items() if k.endswith("chain")}
  return ["resolve", r.status_code, sorted(told), all(C.valid(v, easy) for v in told.values())]


def register(c, who):
  r = c.post("/nodes/register", json=dict(nodes=["http://late:1"]))
  return ["register", r.status_code, "late:1" in r.get_json()["total_nodes"]]


def register2(c, who):
  r = c.post("/nodes/register", json=dict(nodes=["http://later:1"]))
  return ["register", r.status_code, "later:1" in r.get_json()["total_nodes"]]


def read(c, who):
  r = c.get("/chain")
  return ["read", r.status_code, r.get_json()["chain"], r.get_json()["length"]]


DO = dict(t=tx, m=mine, r=resolve, g=register, h=register2, c=read)
server = None


def setup():
  global server
  if server is None:
    sched.own_locks()
    C.tick(5)
    m = C.load()
    m.Blockchain.valid_proof = staticmethod(easy)
    server = C.load_server()
    server.clients = [server.app.test_client() for _ in range(8)]
    server.clients[0].get("/chain")
  return server


def fresh(pre, length):
  """A node that knows a neighbour, `pre` requests already served."""
  s = setup()
  b = [v for v in vars(s).values() if type(v).__name__ == "Blockchain"][0]
  b.chain, b.current_transactions, b.nodes = C.genesis(1), [], {"far:1"}
  for k in pre:
    DO[k](s.clients[7], "before")
  return s, b


def final(b, answers):
  return json.dumps([b.chain, b.current_transactions, sorted(b.nodes), answers], sort_keys=True)


def scenario(ctx, pre, threads, length, preemptions):
  """threads: strings of requests."""
  chain = far(length)
  served = {"far:1": chain, "late:1": C.genesis(9), "later:1": C.genesis(8)}

  def answer(url):
    return C.Reply(served[url.split("/")[2]])

  who = lambda i, k: "thread%d-%d" % (i, k)
  lawful, base = {}, None
  slots = [i for i, t in enumerate(threads) for _ in t]
  with C.network(answer):
    for order in set(itertools.permutations(slots)):
      s, b = fresh(pre, length)
      base = len(b.chain)
      pos, answers = [0] * len(threads), [[] for _ in threads]
      for i in order:
        answers[i].append(DO[threads[i][pos[i]]](s.clients[i], who(i, pos[i])))
        pos[i] += 1
      lawful[final(b, answers)] = order
      ctx.check(C.valid(b.chain, easy), "requests one after another leave an invalid chain", order)

    box = {}

    def make(n):
      s, b = fresh(pre, length)
      box["b"] = b

      def body(i):
        return lambda: [DO[k](s.clients[i], who(i, j)) for j, k in enumerate(threads[i])]

      return [body(i) for i in range(len(threads))]

    def check(run, n):
      b = box["b"]
      ctx.at("schedule", pre, threads, [c for c, _ in run.trace])
      for e in run.error:
        ctx.check(e is None, "a request failed", repr(e))
      ctx.check(C.valid(b.chain, easy), "the chain is invalid", b.chain)
      ctx.check(len(b.chain) >= base, "the chain got shorter")
      for a in run.result:
        for x in a:
          ctx.check(x[1] < 400, "a request failed", x)
          if x[0] == "read":
            ctx.check(C.valid(x[2], easy) and x[3] == len(x[2]), "the chain read is invalid or not of the length told", x)
          if x[0] == "resolve":
            ctx.check(x[3], "the chain told by the resolution is invalid", x)
      got = final(b, run.result)
      ctx.check(got in lawful, "no order of the requests explains the outcome", got)
      ctx.state((tuple(threads), tuple(c for c, _ in run.trace)))
      ctx.outcome(lawful[got])
      ctx.step(len(run.trace))

    ctx.at("schedules", pre, threads)
    n = sched.explore(make, preemptions, check)
    ctx.trace(n)
    ctx.sample(pre, threads, length, n)


def chunks(tier):
  t = tier == "thorough"
  out = []
  two = [("", ("m", "m"), 1), ("t", ("m", "m"), 1), ("", ("m", "t"), 1), ("t", ("m", "t"), 1), ("", ("t", "t"), 1), ("", ("m", "r"), 2), ("", ("m", "r"), 3),
         ("t", ("m", "r"), 3), ("", ("mm", "r"), 3), ("", ("mm", "r"), 2), ("", ("r", "r"), 3), ("", ("r", "g"), 3), ("", ("m", "g"), 1), ("", ("m", "c"), 1),
         ("", ("mm", "c"), 1), ("", ("r", "c"), 3), ("m", ("tm", "m"), 1), ("", ("tm", "mt"), 1), ("", ("mm", "mt"), 1), ("", ("tm", "r"), 3), ("", ("r", "t"), 3),
         ("", ("m", "cc"), 1), ("t", ("mt", "c"), 1), ("", ("m", "gc"), 1), ("", ("g", "h"), 1), ("", ("gg", "h"), 1)]
  for pre, th, n in two:
    out.append(("two-%s-%s-%d" % (pre, "-".join(th), n), scenario, dict(pre=pre, threads=th, length=n, preemptions=3 if t else 2)))
  three = [("", ("m", "m", "t"), 1), ("", ("m", "m", "m"), 1), ("", ("m", "t", "r"), 3), ("", ("m", "m", "r"), 3), ("", ("r", "g", "m"), 3), ("", ("m", "r", "c"), 3), ("", ("g", "h", "g"), 1),
           ("", ("g", "h", "r"), 3)]
  for pre, th, n in three:
    out.append(("three-%s-%s-%d" % (pre, "-".join(th), n), scenario, dict(pre=pre, threads=th, length=n, preemptions=2 if t else 1)))
  # the longest first
  return sorted(out, key=lambda c: -sum(2 if k == "r" else 1 for th in c[2]["threads"] for k in th))
