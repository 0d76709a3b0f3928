from mc import env, fieldcheck as fc

ID = "C01"
BOUNDS = {
    "tables": "every pair of elements of Z/p, p in 2..61 (thorough also 101, 127, 131, 257), every operation",
    "histories": "all operation sequences of length 4 (thorough 5) over 3 shared operands, p=5,7",
    "large": "all pairs over a boundary alphabet in fields of 31 to 256 bits",
    "construction": "every integer in -3p..4p, boundary integers and their byte encodings, bytes of 18 widths to 200, elements of 7 other prime fields",
    "interleaving": "every ordered pair of 5 fields used alternately",
}


def tables(ctx, p):
  br = env.prime_field(p)
  fc.tables(ctx, br, list(range(0, 2 * p + 6)) + [64, 65, 127, 255, 1000, 2**200 + 7, 2**600 - 1])
  for n in range(-3 * p, 4 * p + 1):
    ctx.at("construct", n)
    ctx.eq(br.frm(br.F(n)), n % p, "Z/%d from the integer %d" % (p, n))
    ctx.eq(br.frm(br.F(br.F(n))), n % p, "Z/%d from an element" % p)
    ctx.check(br.F(n) == br.F(n + p) and br.F(n) == n, "congruent integers differ", p, n)
    if n >= 0:
      for width in (1, 2, 32):
        if n < 256**width:
          ctx.eq(br.frm(br.F(n.to_bytes(width, "big"))), n % p,
                 "Z/%d from %d bytes of %d" % (p, width, n))


def histories(ctx, p, depth):
  fc.histories(ctx, env.prime_field(p), depth, [0, 1, p - 2])


def large(ctx, p):
  br = env.prime_field(p)
  alpha = fc.boundary(p, wide=True)
  exps = sorted({0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 255, 256, p - 1, p - 2, p, p + 1,
                 (p - 1) // 2, 2**64 - 1, 2**64, 2**128 + 1})
  fc.pairs(ctx, br, alpha, exps)
  for a in alpha:
    for n in (a - p, a + p, a + 3 * p, a * p + a, a - 2**300 * p):
      ctx.eq(br.frm(br.F(n)), n % p, "reduction of a large integer", p, n)
    if a < 2**256:
      ctx.eq(br.frm(br.F(a.to_bytes(32, "big"))), a % p, "from 32 bytes", p, a)
  for o in (2, 3, 5, 11, 257, 2**61 - 1, 2**256 - 2**32 * 351 + 1):
    G = env.prime_field(o).F
    for b in (0, 1, o - 1, o // 2, p % o):
      ctx.eq(br.frm(br.F(G(b))), b % p, "from an element of another prime field", p, o, b)
      ctx.eq(br.frm(br.F(br.F(G(b)))), b % p, "from an element built from another field", p, o, b)
  top = 2**256 - 1
  ctx.eq(br.frm(br.F(top.to_bytes(32, "big"))), top % p, "from 32 bytes of ones", p)
  for width in (0, 1, 3, 4, 7, 8, 16, 31, 33, 40, 63, 64, 65, 96, 128, 200):
    for raw in (b"\xff" * width, b"\x01" + b"\0" * max(0, width - 1), bytes(range(1, 256))[:width], b"\0" * width + b"\x07"):
      ctx.eq(br.frm(br.F(raw)), int.from_bytes(raw, "big") % p, "from bytes of other widths", p, len(raw))


def interleave(ctx, values):
  fc.interleaved(ctx, [env.prime_field(p) for p in (3, 7, 11, 101, 2**61 - 1)], values)


def midsize(ctx, p, step):
  """One field of a hundred or so elements: inverses and powers of every element."""
  br = env.prime_field(p)
  for a in range(p):
    fc.unary(ctx, br, br.to(a), a, (2, 3, p - 2, p - 1, p))
    for b in range(a % step, p, step):
      fc.apply_all(ctx, br, br.to(a), br.to(b), a, b)
    ctx.trace()


def chunks(tier):
  ps = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61] + ([101, 127, 131, 257] if tier != "quick" else [])
  out = [("tables-%d" % p, tables, dict(p=p)) for p in ps]
  out += [("histories-%d" % p, histories, dict(p=p, depth=4 if tier == "quick" else 5))
          for p in (5, 7)]
  out += [("large-%d" % p.bit_length(), large, dict(p=p)) for p in fc.BIG_PRIMES]
  out += [("interleave", interleave, dict(values=list(range(0, 8 if tier == "quick" else 14))))]
  out += [("midsize-%d" % p, midsize, dict(p=p, step=8 if tier == "quick" else 1))
          for p in (97, 257)]
  return out
