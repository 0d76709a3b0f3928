"""A controlled scheduler: threads running code of /repo, stopped at every line.

Exactly one thread runs at a time.  The first VISITS times a thread executes a
line of a function of the package are scheduling points (what a class body does
is local to the thread running it), and so is, within a line, the store of an
attribute which that line has read.  `explore` enumerates every schedule with at most
`preemptions` switches away from a thread that could have gone on.
"""
import dis
import inspect
import sys
import threading

from mc import env

PREFIX = env.REPO + "/"
VISITS = 2
STUCK = 0.5  # seconds without reaching a point: blocked on a lock


_here = threading.local()
_Lock, _RLock, _Condition = threading.Lock, threading.RLock, threading.Condition


class CoLock:
  """A lock the scheduler knows of: who waits for it is not runnable."""

  def __init__(self, reentrant):
    self.reentrant, self.owner, self.depth = reentrant, None, 0
    self.cond = _Condition()

  def _take(self):
    me = threading.get_ident()
    if self.owner is None or (self.reentrant and self.owner == me):
      self.owner, self.depth = me, self.depth + 1
      return True
    return False

  def acquire(self, blocking=True, timeout=-1):
    while True:
      with self.cond:
        if self._take():
          return True
        if not blocking:
          return False
        if getattr(_here, "run", None) is None:
          if not self.cond.wait(20 if timeout < 0 else timeout):
            raise RuntimeError("deadlock")
          continue
      if timeout >= 0:
        return False
      _here.run.block(_here.index, self)

  def release(self):
    with self.cond:
      if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
        raise RuntimeError("release of a lock that is not held")
      self.depth -= 1
      if not self.depth:
        self.owner = None
        self.cond.notify_all()

  def locked(self):
    return self.owner is not None

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *exc):
    self.release()


class _Factory:

  def __init__(self, real, reentrant):
    self.real, self.reentrant = real, reentrant

  def __call__(self, *args, **kwargs):
    if sys._getframe(1).f_code.co_filename.startswith(PREFIX):
      return CoLock(self.reentrant)
    return self.real(*args, **kwargs)


def own_locks():
  """Locks made by code of /repo become CoLocks."""
  threading.Lock, threading.RLock = _Factory(_Lock, False), _Factory(_RLock, True)


_stores = {}


def stores(code):
  """Offsets of stores of attributes that were read by the same line."""
  if code not in _stores:
    found, read, line = set(), set(), None
    for i in dis.get_instructions(code):
      if i.starts_line is not None and i.starts_line != line:
        line, read = i.starts_line, set()
      if i.opname in ("LOAD_ATTR", "LOAD_METHOD"):
        read.add(i.argval)
      elif i.opname == "STORE_ATTR" and i.argval in read:
        found.add(i.offset)
    _stores[code] = found
  return _stores[code]


class Run:

  def __init__(self, bodies, prefix):
    self.n = len(bodies)
    self.prefix = prefix
    self.trace = []        # (chosen thread, runnable threads)
    self.result = [None] * self.n
    self.error = [None] * self.n
    self.done = [False] * self.n
    self.go = [threading.Semaphore(0) for _ in bodies]
    self.arrived = threading.Condition()
    self.at_point = [False] * self.n
    self.waits = [None] * self.n
    self.threads = [threading.Thread(target=self._body, args=(i, b), daemon=True)
                    for i, b in enumerate(bodies)]

  def _point(self, i):
    with self.arrived:
      self.at_point[i] = True
      self.arrived.notify_all()
    self.go[i].acquire()

  def block(self, i, lock):
    self.waits[i] = lock
    self._point(i)
    self.waits[i] = None

  def _runnable(self, i):
    w = self.waits[i]
    return self.at_point[i] and not self.done[i] and (w is None or w.owner is None)

  def _body(self, i, body):
    visits = {}
    _here.run, _here.index = self, i

    def local(frame, event, arg):
      if event == "line" or event == "opcode" and frame.f_lasti in stores(frame.f_code):
        at = (frame.f_code, frame.f_lineno if event == "line" else -frame.f_lasti)
        visits[at] = n = visits.get(at, 0) + 1
        if n <= VISITS:
          self._point(i)
      return local

    def trace(frame, event, arg):
      if event == "call" and frame.f_code.co_filename.startswith(
          PREFIX) and frame.f_code.co_flags & inspect.CO_OPTIMIZED:
        if stores(frame.f_code):
          frame.f_trace_opcodes = True
        return local
      return None

    self._point(i)
    sys.settrace(trace)
    try:
      self.result[i] = body()
    except BaseException as e:
      self.error[i] = e
    finally:
      sys.settrace(None)
      with self.arrived:
        self.done[i] = True
        self.arrived.notify_all()

  def settled(self, i):
    return self.at_point[i] or self.done[i]

  def run(self):
    for t in self.threads:
      t.start()
    with self.arrived:
      ok = self.arrived.wait_for(lambda: all(map(self.settled, range(self.n))), 20)
      assert ok, "threads did not start"
    current = 0
    while True:
      with self.arrived:
        ready = [i for i in range(self.n) if self._runnable(i)]
        if not ready:
          if all(self.done):
            break
          if all(map(self.settled, range(self.n))):
            raise RuntimeError("deadlock: every thread waits for a lock")
          ok = self.arrived.wait_for(
              lambda: any(self.at_point) or all(self.done), 20)
          if not ok:
            raise RuntimeError("deadlock: no thread can go on")
          continue
      k = len(self.trace)
      if k < len(self.prefix) and self.prefix[k] in ready:
        current = self.prefix[k]
      elif current not in ready:
        current = ready[0]
      self.trace.append((current, tuple(ready)))
      with self.arrived:
        self.at_point[current] = False
      self.go[current].release()
      with self.arrived:
        self.arrived.wait_for(lambda: self.settled(current), STUCK)
    for t in self.threads:
      t.join(20)
    return self


def explore(make, preemptions, check, limit=10**6):
  """make(k) -> thread bodies of the k-th execution; check(run, k) after each.
  Every schedule of at most `preemptions` preemptive switches, each once."""
  stack, n = [[]], 0
  while stack:
    prefix = stack.pop()
    r = Run(make(n), prefix).run()
    check(r, n)
    n += 1
    assert n <= limit
    chosen = [c for c, _ in r.trace]
    used = 0  # switches away from a thread that could have gone on
    for k, (c, ready) in enumerate(r.trace):
      preempts = k and chosen[k - 1] in ready
      if k >= len(prefix):
        for alt in ready:
          if alt != c and used + (1 if preempts and alt != chosen[k - 1] else 0) <= preemptions:
            stack.append(chosen[:k] + [alt])
      used += 1 if preempts and c != chosen[k - 1] else 0
  return n
