"""Loading the ledger, with its clock, network and threads under control, and a
reference model of its blocks."""
import hashlib
import importlib.util
import json
import os
import sys
import time
import types
import uuid

from mc import env

_clock = [1000.0]


def tick(t):
  _clock[0] = float(t)


def load():
  """misc/blockchain.py under both names it is imported by."""
  real, time.time = time.time, lambda: _clock[0]
  try:
    m = env.misc("blockchain")
  finally:
    time.time = real
  t = getattr(m, "time", None)
  if isinstance(t, types.ModuleType):
    m.time = types.SimpleNamespace(time=lambda: _clock[0])
  elif t is not None:
    m.time = lambda: _clock[0]
  sys.modules["blockchain"] = m
  return m


def load_server():
  """A fresh copy of misc/run_blockchain.py: a node of its own."""
  load()
  path = os.path.join(env.REPO, "misc", "run_blockchain.py")
  spec = importlib.util.spec_from_file_location("run_blockchain", path)
  m = importlib.util.module_from_spec(spec)
  real, uuid.uuid4 = uuid.uuid4, _uuid
  try:
    spec.loader.exec_module(m)
  finally:
    uuid.uuid4 = real
  return m


_ids = [0]


def _uuid():
  """As good as random, and the same in every run."""
  _ids[0] += 1
  return uuid.UUID(bytes=hashlib.md5(b"node %d" % _ids[0]).digest(), version=4)


def digest(block):
  return hashlib.sha256(json.dumps(block, sort_keys=True).encode()).hexdigest()


def work(last_proof, proof, last_hash):
  return hashlib.sha256(("%s%s%s" % (last_proof, proof, last_hash)).encode()).hexdigest().startswith("0000")


def valid(chain, work=work):
  for a, b in zip(chain, chain[1:]):
    h = digest(a)
    if b["previous_hash"] != h or not work(a["proof"], b["proof"], h):
      return False
  return True


_nonce = {}


def solve(last, work=work):
  key = (last["proof"], digest(last), work)
  if key not in _nonce:
    p = 0
    while not work(key[0], p, key[1]):
      p += 1
    _nonce[key] = p
  return _nonce[key]


def grow(chain, txs, at, work=work):
  """A valid chain one block longer, made without the code under test."""
  last = chain[-1]
  return chain + [dict(index=len(chain) + 1, timestamp=float(at), transactions=txs, proof=solve(last, work), previous_hash=digest(last))]


def genesis(at=1.0):
  return [dict(index=1, timestamp=float(at), transactions=[], proof=100, previous_hash="1")]


def tx(s, r, a):
  return dict(sender=s, recipient=r, amount=a)


class Reply:

  def __init__(self, chain, length=None, status=200, body=None):
    self.status_code = status
    self.ok = status < 400
    self.body = dict(chain=chain, length=len(chain) if length is None else length) if body is None else body
    self.text = json.dumps(self.body)

  def json(self):
    return json.loads(self.text)


SILENT = object()


class Stuck(BaseException):
  """Stands for a call that never returns."""


class network:
  """Replaces requests.get; answer(url) gives a Reply or raises."""

  def __init__(self, answer):
    self.answer, self.urls = answer, []

  def __enter__(self):
    import requests
    self.mod, self.old = requests, requests.get

    def get(url, *args, **kwargs):
      self.urls.append(url)
      r = self.answer(url)
      if r is SILENT:
        # Nothing comes: without a limit the call would never return
        if kwargs.get("timeout") is None:
          raise Stuck("waiting forever for %s" % url)
        raise requests.exceptions.ReadTimeout("no answer")
      return r

    requests.get = get
    return self

  def __exit__(self, *exc):
    self.mod.get = self.old
