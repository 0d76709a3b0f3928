from mc import env, ref

ID = "C34"
BOUNDS = {
    "expansion": "every polynomial of degree < 4 and < 8 in fields of degree 4, 5, 8, 9 and 11; every polynomial of degree < 16 with at "
                 "most 3 or at least 14 terms and a stride of 37 in fields of degree 16 and 17 (thorough: every one); families of "
                 "degree < 32 and < 64",
    "transform": "every polynomial of degree < 2^m and every list of values for m = 1, 2 over GF(16) on three bases (known finding)",
}


def leaves(x):
  if isinstance(x, (tuple, list)):
    out = []
    for y in x:
      out += leaves(y)
    return out
  return [x]


def expand(f, n):
  """f, degree < n, in powers of x^2 + x: list of n/2 remainders below degree 2."""
  out = []
  for _ in range(n // 2):
    low = f
    q = 0
    while low.bit_length() > 2:
      s = low.bit_length() - 3
      q |= 1 << s
      low ^= 0b110 << s
    out.append(low)
    f = q
  return out


def one(ctx, br, T, f, n):
  ctx.at("Taylor expansion", br.m, f, n)
  x = br.to(f)
  got = T.Taylor_Expansion(x, n)
  ctx.eq([br.frm(g) for g in leaves(got)], expand(f, n), "Taylor expansion", br.m, f, n)
  ctx.eq(br.frm(x), f, "polynomial changed")
  depth, y = 0, got
  while isinstance(y, (tuple, list)):
    ctx.eq(len(y), 2, "shape of the expansion", f, n)
    depth, y = depth + 1, y[1]
  ctx.eq(2 << depth, max(n, 2), "depth of the expansion", f, n)
  ctx.state((br.m, f, n))


def small(ctx, m, n):
  from starks.fft import Additive_FFT
  br = env.ext_field(2, ref.irreducibles(2, m)[0])
  T = Additive_FFT(br.F)
  for f in range(1 << n):
    one(ctx, br, T, f, n)
  ctx.trace()
  ctx.sample(m, n)


def middle(ctx, m, part, parts, full):
  from starks.fft import Additive_FFT
  br = env.ext_field(2, MODS[m])
  T = Additive_FFT(br.F)
  for f in range(1 << 16):
    if f % parts == part and (full or f % 37 == 0 or bin(f).count("1") <= 3 or bin(f).count("1") >= 14):
      one(ctx, br, T, f, 16)
  ctx.trace()


def large(ctx, m, n):
  from starks.fft import Additive_FFT
  br = env.ext_field(2, MODS[m])
  T = Additive_FFT(br.F)
  fs = {(1 << n) - 1, 0, int("10" * (n // 2), 2), int("1100" * (n // 4), 2)}
  fs |= {1 << i for i in range(n)} | {(1 << n) - 1 ^ (1 << i) for i in range(n)} | {(1 << i) | 1 << (n - 1 - i) for i in range(n)}
  for f in sorted(fs):
    one(ctx, br, T, f, n)
  ctx.trace()


def evaluate(rf, f, x):
  r = 0
  for i in range(f.bit_length() - 1, -1, -1):
    r = rf.add(rf.mul(r, x), f >> i & 1)
  return r


def transform(ctx):
  """Not an evaluation nor an interpolation: listed in known_findings.txt."""
  from starks.fft import Additive_FFT
  br = env.ext_field(2, [1, 1, 0, 0, 1])
  T = Additive_FFT(br.F)
  for m, bases in ((1, ([1], [3], [6])), (2, ([1, 2], [2, 1], [5, 6]))):
    for beta in bases:
      pts = [0]
      for b in beta:
        pts += [p ^ b for p in pts]
      for f in range(1 << (1 << m)):
        ctx.at("additive transform", m, beta, f)
        want = [evaluate(br.rf, f, p) for p in pts]
        try:
          got = [br.frm(x) for x in T.adfft(br.to(f), m, [br.to(b) for b in beta])]
        except Exception as e:
          got = repr(e)
        ctx.step()
        ctx.finding("additive-transform", "the additive transform does not return the values of the polynomial", got == want)
        try:
          back = br.frm(T.adfft_inverse([br.to(p) for p in pts], [br.to(w) for w in want], m))
        except Exception as e:
          back = repr(e)
        ctx.step()
        ctx.finding("additive-inverse", "the inverse additive transform does not return the interpolating polynomial", back == f)
        ctx.state((m, tuple(beta), f))
  ctx.trace()


MODS = {16: [1, 1, 0, 1, 0, 1] + [0] * 10 + [1], 17: [1, 0, 0, 1] + [0] * 13 + [1]}
MODS[16] = None


def chunks(tier):
  t = tier == "thorough"
  for m, taps in ((16, (5, 3, 1)), (32, (7, 3, 2)), (64, (4, 3, 1))):
    MODS[m] = [1] + [int(i in taps) for i in range(1, m)] + [1]
  out = [("small-%d-%d" % (m, n), small, dict(m=m, n=n)) for m, n in ((4, 4), (5, 4), (8, 4), (8, 8), (9, 8), (11, 8), (2, 2), (3, 2))]
  for m in (16, 17):
    k = 16 if t else 8
    out += [("middle-%d-%d" % (m, i), middle, dict(m=m, part=i, parts=k, full=t)) for i in range(k)]
  return out + [("large-32-32", large, dict(m=32, n=32)), ("large-64-64", large, dict(m=64, n=64)), ("large-64-32", large, dict(m=64, n=32)),
                ("transform", transform, {})]
