from mc import env, ref

ID = "C18"
BOUNDS = {
    "pairs": "every pair of words of 2 to 5 bits (thorough 6, 7) under every irreducible modulus to degree 4 and two of "
             "each higher degree, for ordering and addition",
    "powers": "every word of 2 to 8 bits",
    "wide": "boundary words of 16, 17 and 32 bits, carry chains of every length",
}


def reduce_bits(n, rf):
  m = rf.m
  mod = rf.undigits(rf.mod)
  while n.bit_length() > m:
    n ^= mod << (n.bit_length() - m - 1)
  return n


def pair(ctx, br, x, y, a, b):
  ctx.at("words", br.m, a, b)
  ctx.eq(bool(x.LT(y)), a <= b, "ordering of words", br.rf.mod, a, b)
  s = x.Regular_Binary_Addition(y)
  ctx.eq(br.frm(s), reduce_bits(a + b, br.rf), "integer addition of words", br.rf.mod, a, b)
  ctx.eq(br.frm(x), a, "operand changed", a, b)
  ctx.eq(br.frm(y), b, "operand changed", a, b)
  ctx.state((br.m, a, b))
  ctx.outcome((a <= b, (a + b).bit_length()))


def power(ctx, br, x, a):
  ctx.at("two_pow", br.m, a)
  ctx.eq(br.frm(x.two_pow()), br.rf.pow(2, a), "power of two", br.rf.mod, a)
  ctx.eq(br.frm(x), a, "operand changed", a)


def tables(ctx, mod):
  br = env.ext_field(2, mod)
  els = [br.to(a) for a in range(br.q)]
  for a in range(br.q):
    power(ctx, br, els[a], a)
    for b in range(br.q):
      pair(ctx, br, els[a], els[b], a, b)
    ctx.trace()
  ctx.sample("modulus", mod)


def powers(ctx, mod):
  br = env.ext_field(2, mod)
  for a in range(br.q):
    power(ctx, br, br.to(a), a)
    ctx.state(a)
  ctx.trace()


def wide(ctx, mod):
  br = env.ext_field(2, mod)
  m = br.m
  vals = {0, 1, 2, 3, br.q - 1, br.q - 2, br.q // 2, br.q // 2 - 1, br.q // 3}
  vals |= {1 << i for i in range(0, m, 3)} | {(1 << i) - 1 for i in range(1, m, 3)}
  vals = sorted(vals)
  for a in vals:
    for b in vals:
      pair(ctx, br, br.to(a), br.to(b), a, b)
    ctx.trace()
  for i in range(1, m + 1):  # a carry through i places
    a = (1 << i) - 1
    pair(ctx, br, br.to(a), br.to(1), a, 1)
    pair(ctx, br, br.to(1), br.to(a), 1, a)
  for a in vals if m <= 17 else vals[:8]:
    power(ctx, br, br.to(a), a)


def chunks(tier):
  t = tier == "thorough"
  out = []
  for m in range(2, 8 if t else 6):
    for f in ref.irreducibles(2, m)[:None if m <= 4 else 2]:
      out.append(("tables-" + "".join(map(str, f)), tables, dict(mod=f)))
  for m in (6, 7, 8):
    for f in ref.irreducibles(2, m)[:2]:
      out.append(("powers-" + "".join(map(str, f)), powers, dict(mod=f)))
  def bits(*e):
    return [1 if i in e else 0 for i in range(max(e) + 1)]
  return out + [("wide-%d" % (len(f) - 1), wide, dict(mod=f)) for f in (
      bits(16, 5, 3, 1, 0), bits(17, 3, 0), bits(32, 7, 3, 2, 0))]
