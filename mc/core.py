"""Explorer framework: runs the chunks of a property check in forked workers.

A property module offers
  ID, LEVEL (default model_checking), BOUNDS (dict of text), ASSUMPTIONS (list)
  chunks(tier) -> [(name, function, kwargs), ...]
Every chunk exhausts one finite space of executions of the real code and reports
through its Ctx: states (distinct), transitions, traces compared with the
reference model.  A chunk runs in a process of its own, with stdout thrown away.
"""
import collections
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
MEM = 3 << 30
WORKERS = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):

  def __init__(self, message, detail=None):
    super().__init__(message)
    self.message = message
    self.detail = detail


def show(x, limit=600):
  try:
    s = x if isinstance(x, str) else repr(x)
  except Exception as e:  # the object under test may be broken
    s = "<unprintable %s: %s>" % (type(x).__name__, type(e).__name__)
  return s if len(s) <= limit else s[:limit] + "...(%d chars)" % len(s)


class Ctx:

  def __init__(self, prop, chunk, tier, known):
    self.prop, self.chunk, self.tier = prop, chunk, tier
    self._states = set()
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.outcomes = collections.Counter()
    self.known_sites = known
    self.known_seen = {}
    self.label = None

  @property
  def thorough(self):
    return self.tier == "thorough"

  def state(self, key):
    """Counts a distinct state; true when it is new."""
    n = len(self._states)
    try:
      self._states.add(key if isinstance(key, int) else hash(key))
    except TypeError:  # lists within
      self._states.add(hash(repr(key)))
    return len(self._states) != n

  def step(self, n=1):
    self.transitions += n

  def trace(self, n=1):
    self.traces += n

  def sample(self, *x):
    if len(self.samples) < 2:
      self.samples.append(show(x[0] if len(x) == 1 else x, 300))

  def outcome(self, x):
    if len(self.outcomes) < 64 or x in self.outcomes:
      self.outcomes[x] += 1

  def at(self, *label):
    """Says what is being executed, for the report of an exception or a hang."""
    self.label = label

  def fail(self, message, *detail):
    raise Violation(message, [show(d) for d in detail] + ["at " + show(self.label)])

  def check(self, ok, message, *detail):
    self.transitions += 1
    if not ok:
      self.fail(message, *detail)

  def eq(self, got, want, message, *detail):
    self.transitions += 1
    if not (got == want):
      self.fail(message, "got " + show(got), "want " + show(want), *detail)

  def raises(self, fn, exceptions, message, *detail):
    self.transitions += 1
    try:
      r = fn()
    except exceptions:
      return
    self.fail(message, "returned " + show(r), *detail)

  def finding(self, site, what, holds):
    """A site listed as a known finding; fails as a violation if not listed."""
    if holds:
      return
    if site in self.known_sites:
      self.known_seen[site] = what
    else:
      self.fail("%s: %s" % (site, what))

  def result(self):
    return dict(states=len(self._states), transitions=self.transitions,
                traces=self.traces, samples=self.samples,
                outcomes=len(self.outcomes), known=self.known_seen)


def load_known(prop):
  sites = {}
  path = os.path.join(VERIF, "known_findings.txt")
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith("known: property=%s " % prop):
        rest = line.split(" ", 2)[2]
        assert rest.startswith("site="), line
        site, _, what = rest[5:].partition(" ")
        sites[site] = what
  return sites


def _child(wfd, prop, name, fn, kwargs, tier, cpu_s):
  devnull = os.open(os.devnull, os.O_RDWR)
  for fd in (0, 1, 2):
    os.dup2(devnull, fd)
  sys.stdin = open(os.devnull)
  sys.stdout = open(os.devnull, "w")
  sys.stderr = sys.stdout
  resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
  resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
  ctx = Ctx(prop, name, tier, load_known(prop))

  def send(rec):
    data = json.dumps(rec, default=show).encode()
    view = memoryview(data)
    while view:
      view = view[os.write(wfd, view):]

  def too_long(signum, frame):
    stack = traceback.format_stack(frame)[-6:]
    send(dict(violation=dict(
        message="did not terminate: %d s of processor time spent on executions that "
                "take a small fraction of that" % cpu_s,
        detail=["at " + show(ctx.label)], traceback="".join(stack))))
    os._exit(0)

  signal.signal(signal.SIGPROF, too_long)
  signal.setitimer(signal.ITIMER_PROF, cpu_s)
  rec = {}
  t0 = time.time()
  try:
    fn(ctx, **kwargs)
    rec = ctx.result()
    if not ctx.transitions:
      raise RuntimeError("vacuous chunk")
  except Violation as v:
    rec = ctx.result()
    rec["violation"] = dict(message=v.message, detail=v.detail, traceback=None)
  except BaseException as e:  # the code under test failed where it must not
    rec = ctx.result()
    rec["violation"] = dict(
        message="unexpected %s: %s" % (type(e).__name__, show(str(e), 300)),
        detail=["at " + show(ctx.label)],
        traceback="".join(traceback.format_exc()[-3000:]))
  rec["s"] = round(time.time() - t0, 2)
  send(rec)
  os._exit(0)


def run_chunks(prop, chunks, tier, cpu_s):
  """Runs the chunks, at most WORKERS at a time, and returns their records."""
  results = [None] * len(chunks)
  running = {}  # rfd -> (index, pid, buffer)
  retried = set()
  queue = collections.deque(range(len(chunks)))
  worst = len(chunks)  # lowest violating chunk so far

  def start(i):
    name, fn, kwargs = chunks[i]
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
      os.close(r)
      for fd in list(running):
        os.close(fd)
      try:
        _child(w, prop, name, fn, kwargs, tier, cpu_s)
      finally:
        os._exit(9)
    os.close(w)
    running[r] = (i, pid, bytearray())

  while queue or running:
    while queue and len(running) < WORKERS:
      i = queue.popleft()
      if i < worst:
        start(i)
    if not running:
      break
    ready, _, _ = select.select(list(running), [], [], 5)
    for fd in ready:
      if fd not in running:  # its process was ended just now
        continue
      i, pid, buf = running[fd]
      data = os.read(fd, 1 << 16)
      if data:
        buf.extend(data)
        continue
      os.close(fd)
      del running[fd]
      _, status = os.waitpid(pid, 0)
      try:
        rec = json.loads(buf.decode())
      except ValueError:
        if i not in retried:  # killed from outside (memory): once more
          retried.add(i)
          queue.appendleft(i)
          continue
        rec = dict(violation=dict(
            message="the process running this chunk died (wait status %d)" % status,
            detail=[], traceback=None))
      results[i] = rec
      if rec.get("violation") and i < worst:
        worst = i
        for fd2, (j, pid2, _) in list(running.items()):
          if j > worst:
            os.kill(pid2, signal.SIGKILL)
            os.waitpid(pid2, 0)
            os.close(fd2)
            del running[fd2]
  return results


def run_property(mod, tier, only=None):
  """Runs one property's check; returns the process exit status."""
  prop = mod.ID
  t0 = time.time()
  chunks = mod.chunks(tier)
  names = [c[0] for c in chunks]
  assert len(set(names)) == len(names), names
  if only:
    chunks = [c for c in chunks if c[0] == only]
  cpu_s = getattr(mod, "CPU_S", 240 if tier == "quick" else 7200)
  results = run_chunks(prop, chunks, tier, cpu_s)
  done = [(c[0], r) for c, r in zip(chunks, results) if r is not None]
  bad = next(((n, r) for n, r in done if r.get("violation")), None)
  known = {}
  for _, r in done:
    known.update(r.get("known") or {})
  listed = load_known(prop)
  cov = dict(
      states=sum(r.get("states", 0) for _, r in done),
      transitions=sum(r.get("transitions", 0) for _, r in done),
      traces_validated_against_impl=sum(r.get("traces", 0) for _, r in done),
      samples=[{"chunk": n, "case": s} for n, r in done for s in r.get("samples", [])][:40],
      exhaustive=bad is None and not only,
      bounds=mod.BOUNDS,
      distinct_outcomes={n: r.get("outcomes", 0) for n, r in done},
      chunks={n: {"states": r.get("states", 0), "transitions": r.get("transitions", 0),
                  "traces": r.get("traces", 0), "s": r.get("s")} for n, r in done},
      chunks_total=len(chunks), chunks_run=len(done))
  if known:
    cov["known_findings_observed"] = sorted(known)
  evidence = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                  level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
                  assumptions=getattr(mod, "ASSUMPTIONS", []),
                  wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
  if not only:
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
      json.dump(evidence, f, indent=1)
      f.write("\n")
  for site in sorted(known):
    print("KNOWN-FINDING: property=%s site=%s %s" % (prop, site, known[site]))
  print("%s %s: chunks=%d/%d states=%d transitions=%d traces=%d wall=%.1fs" % (
      prop, tier, len(done), len(chunks), cov["states"], cov["transitions"],
      cov["traces_validated_against_impl"], evidence["wall_s"]))
  if bad is None:
    return 0
  name, rec = bad
  os.makedirs(OUT, exist_ok=True)
  path = os.path.join(OUT, "%s-%s.json" % (prop, "".join(
      ch if ch.isalnum() or ch in "-_." else "_" for ch in name)))
  with open(path, "w") as f:
    json.dump(dict(property=prop, tier=tier, chunk=name, **rec["violation"]), f, indent=1)
    f.write("\n")
  print("violated in chunk %s: %s" % (name, rec["violation"]["message"]))
  for d in rec["violation"].get("detail") or []:
    print("  " + d)
  if rec["violation"].get("traceback"):
    print(rec["violation"]["traceback"])
  print("VIOLATION property=%s replay=%s" % (prop, path))
  return 1
