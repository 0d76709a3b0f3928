import itertools

from mc import env

ID = "C16"
BOUNDS = {
    "branches": "every list of up to 3 branches of up to 3 nodes over 3 payloads",
    "proofs": "every proof of up to 2 layers with up to 2 queries of up to 2 branches of up to 2 nodes over 2 "
              "payloads, with every final list of up to 2 values",
    "payloads": "payload lengths 0, 1, 3, 4 (other than the markers), 8, 31, 32, 33, 64, 255, 256",
    "sizes": "lists whose distinct and repeated payloads sit around positions 255, 256, 257, 4096, 65535 and 65536",
}
ASSUMPTIONS = ["Payloads are never two bytes long nor equal to one of the four byte markers."]

PAY = [b"a" * 32, b"b" * 31 + b"\0", b"\0\1" * 16]


def branches_ok(ctx, br):
  from starks import compression as cp
  keep = [list(b) for b in br]
  ctx.at("compress_branches", br)
  c = cp.compress_branches(br)
  ctx.eq(cp.decompress_branches(c), keep, "branches lost in compression", keep)
  ctx.eq(br, keep, "the argument changed")
  ctx.eq(cp.decompress_branches(list(c)), keep, "decompression differs the second time", keep)
  ctx.eq(cp.bin_length(c), sum(len(x) + (len(x) == 32) for x in c), "length of the encoding", keep)
  return c


def fri_ok(ctx, prf):
  from starks import compression as cp
  ctx.at("compress_fri", prf)
  c = cp.compress_fri(prf)
  ctx.eq(cp.decompress_fri(c), prf, "proof lost in compression")
  ctx.eq(cp.decompress_fri(list(c)), prf, "decompression differs the second time")
  ctx.eq(cp.bin_length(c), sum(len(x) + (len(x) == 32) for x in c), "length of the encoding")
  return c


def small_branches(ctx, first):
  one = [list(b) for k in range(4) for b in itertools.product(PAY, repeat=k)]
  for n in range(3):
    for rest in itertools.product(one, repeat=n):
      bs = [list(one[first])] + [list(b) for b in rest]
      c = branches_ok(ctx, bs)
      ctx.state(str(bs))
      ctx.outcome(len(c))
    ctx.trace()
  ctx.sample("branches starting with", one[first])


def small_fri(ctx, part, parts):
  pay = PAY[:2]
  br = [list(b) for k in range(3) for b in itertools.product(pay, repeat=k)]
  yproofs = [[list(x) for x in p] for k in range(3) for p in itertools.product(br[:5], repeat=k)]
  layer = [[r, [list(y) for y in ys]] for r in pay for k in range(2) for ys in itertools.product(yproofs, repeat=k)]
  layer += [[pay[0], [yproofs[1], y]] for y in yproofs] + [[pay[1], [y, yproofs[-1]]] for y in yproofs]
  finals = [list(f) for k in range(3) for f in itertools.product(PAY, repeat=k)]
  i = 0
  for n in range(3):
    for ls in itertools.product(layer, repeat=n):
      i += 1
      if i % parts != part:
        continue
      fs = finals if n < 2 else [finals[i % len(finals)]]
      for f in fs:
        prf = [[r, [list(y) for y in ys]] for r, ys in ls] + [list(f)]
        fri_ok(ctx, prf)
        ctx.state(str(prf))
    ctx.trace()
  ctx.sample("%d layers to choose from" % len(layer))


def payloads(ctx):
  lens = [0, 1, 3, 4, 8, 31, 32, 33, 64, 255, 256]
  pay = [bytes([65 + i]) * n for i, n in enumerate(lens)] + [b"\0" * 4, b"---+", b"+++-", b"=" * 8, b"/" * 32, b"-" * 32]
  for a in pay:
    for b in pay:
      branches_ok(ctx, [[a, b], [b, a, a], [], [b]])
      fri_ok(ctx, [[a, [[[a, b], [b]], [[a]]]], [b, [[[b, b]]]], [a, b, a]])
      ctx.state((a, b))
    ctx.trace()
  ctx.sample(lens)


def sizes(ctx, n, width):
  """n distinct payloads, then every one of a few positions repeated."""
  def item(i):
    return b"x" * 28 + i.to_bytes(4, "big")

  spots = sorted({0, 1, n // 2, n - 1} | {x for x in (253, 254, 255, 256, 257, 258, 511, 512, 4095, 4096, 61675, 61676, 61677, 65000, 65534, 65535, 65536, 65537) if x < n})
  bs = [[item(i) for i in range(k, min(n, k + width))] for k in range(0, n, width)]
  for shift in range(3):
    extra = [[item(s)] * (shift + 1) for s in spots]
    c = branches_ok(ctx, bs + extra)
    ctx.check(sum(len(x) for x in c) < sum(len(x) for b in bs + extra for x in b) + 4 * (len(bs) + len(extra)) + 1,
              "repeated payloads are not shortened")
    prf = [[item(0), [[b] for b in bs]], [item(1), [extra]], [item(s) for s in spots] + [item(n + 7)]]
    fri_ok(ctx, prf)
    ctx.state((n, shift))
  ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = [("branches-%d" % i, small_branches, dict(first=i)) for i in range(0, 40, 1 if t else 3)]
  out += [("fri-%d" % k, small_fri, dict(part=k, parts=4)) for k in range(4)]
  out += [("payloads", payloads, {})]
  out += [("sizes-%d" % n, sizes, dict(n=n, width=16)) for n in (5, 200, 250, 256, 300, 520, 4200, 60000, 64000, 66000)]
  # one long branch: the i-th payload sits at position i
  out += [("flat-%d" % n, sizes, dict(n=n, width=n)) for n in (254, 255, 256, 257, 258, 600, 66000)]
  return out
