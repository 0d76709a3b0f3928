from mc import env, ref
from mc.c04 import bridge
from mc.c06 import MB

ID = "C33"
BOUNDS = {
    "powers of two": "every integer in -2000..70000, and 2^k-3..2^k+3, 3*2^k, for k to 256 and selected k to 4096",
    "cycles": "every nonzero element of Z/p for p to 31, GF(4), GF(8), GF(9), GF(16), GF(25), GF(27); roots of unity of order 1..4096 "
              "of a 256 bit prime, to 12288 of Z/12289, to 65536 of Z/65537",
    "indeterminates": "1 to 9 variables over seven fields",
    "mimc": "0..40 rounds, 1..17 round constants, boundary inputs; up to 516 rounds, 31 to 257 constants; negative and unreduced constants and inputs",
}


def power2(ctx):
  from starks.utils import is_a_power_of_2
  powers = {1 << k for k in range(0, 5000)}
  vals = list(range(-2000, 70001))
  for k in range(17, 257):
    vals += [(1 << k) + d for d in range(-3, 4)] + [3 << k, -(1 << k), (1 << k) + (1 << k // 2)]
  for k in (257, 500, 511, 512, 900, 990, 999, 1000, 1023, 1024, 1025, 2047, 2048, 3001, 4096):
    vals += [(1 << k) + d for d in (-1, 0, 1, 2)] + [3 << k, 5 << k, -(1 << k), (1 << k) + (1 << k - 1), (1 << k) + (1 << k // 2)]
  for v in vals:
    ctx.at("power of two", v)
    ctx.eq(bool(is_a_power_of_2(v)), v in powers, "power of two", v)
    ctx.state(v)
  ctx.trace()


def cycles(ctx, field):
  from starks.utils import get_power_cycle
  br = bridge(field)
  rf = br.rf
  for a in range(1, br.q):
    ctx.at("cycle", field, a)
    r = br.to(a)
    got = get_power_cycle(r, br.F)
    want, x = [1], a
    while x != 1:
      want.append(x)
      x = rf.mul(x, a)
    ctx.eq([br.frm(g) for g in got], want, "power cycle", field, a)
    ctx.eq(br.frm(r), a, "root changed")
    ctx.state((repr(field), a))
    ctx.outcome(len(want))
  ctx.trace()


def long_cycles(ctx, p, g):
  from starks.utils import get_power_cycle
  br = bridge(p)
  for n in (1, 2, 4, 8, 16, 64, 256, 512, 1024, 2048, 4096) + {12289: (3, 6, 12, 96, 12288), 65537: (8192, 16384, 32768, 65536)}.get(p, ()):
    a = pow(g, (p - 1) // n, p)
    ctx.at("cycle", p, n)
    got = get_power_cycle(br.to(a), br.F)
    ctx.eq([br.frm(x) for x in got], [pow(a, i, p) for i in range(n)], "power cycle", p, n)
    ctx.state((p, n))
  ctx.trace()


def indeterminates(ctx):
  from starks.utils import generate_Xi_s
  for field in (2, 3, 7, (2, [1, 1, 1]), (3, [1, 0, 1]), 101, 2**256 - 2**32 * 351 + 1):
    for n in range(1, 10):
      mb = MB(bridge(field), n)
      ctx.at("indeterminates", field, n)
      xs = generate_Xi_s(mb.br.F, n)
      ctx.eq([mb.frm(x) for x in xs], [{tuple(int(i == j) for j in range(n)): 1} for i in range(n)], "indeterminates", field, n)
      pt = [mb.br.to((3 * i + 1) % mb.br.q) for i in range(n)]
      ctx.check(all(x(pt) == v for x, v in zip(xs, pt)), "value of an indeterminate", field, n)
      ctx.state((repr(field), n))
    ctx.trace()


def permutation(ctx):
  from starks.utils import mimc
  p = 2**256 - 2**32 * 351 + 1
  consts = [(i**7) ^ 42 for i in range(20)]
  for k in range(1, 18):
    cs = consts[:k]
    for x0 in (0, 1, 2, 3, p - 1, p - 2, p // 2, 1 << 128, 12345678901234567890):
      x = x0
      for steps in range(1, 42):
        ctx.at("mimc", k, x0, steps)
        ctx.eq(mimc(x0, steps, cs), x, "mimc", k, x0, steps)
        ctx.state((k, x0, steps))
        x = (pow(x, 3, p) + cs[(steps - 1) % k]) % p
    ctx.eq(cs, consts[:k], "constants changed")
    ctx.trace()
  for k in (31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257):
    cs = [(i * i * i * 7 + 11 * i + 3) << (i % 200) for i in range(k)]
    x = 3
    for steps in range(1, 2 * k + 3):
      if steps < 4 or steps % k < 4 or steps % k > k - 3 or steps % 37 == 0:
        ctx.at("mimc", k, 3, steps)
        ctx.eq(mimc(3, steps, cs), x, "mimc", k, steps)
        ctx.state((k, 3, steps))
      x = (pow(x, 3, p) + cs[(steps - 1) % k]) % p
    ctx.trace()
  # constants and inputs outside 0..p-1
  for cs in ([-1], [-5, 3], [-p, p, 2 * p + 1], [p + 5, -(p << 3), 1 << 300], [-(1 << 400), 1 << 400, 7, -7], [0], [0, -1, 0]):
    for x0 in (0, 1, 5, -1, -p, p, p + 3, 1 << 300, -(1 << 257)):
      x = x0
      for steps in range(1, 12):
        ctx.at("mimc", cs, x0, steps)
        ctx.eq(mimc(x0, steps, list(cs)), x, "mimc", cs, x0, steps)
        ctx.state((tuple(cs), x0, steps))
        x = (pow(x, 3, p) + cs[(steps - 1) % len(cs)]) % p
    ctx.trace()
  big = [p - 1, p - 2, 1 << 255]
  x = 5
  for steps in range(1, 10):
    ctx.eq(mimc(5, steps, big), x, "mimc", steps)
    x = (pow(x, 3, p) + big[(steps - 1) % 3]) % p


def chunks(tier):
  out = [("power-of-two", power2, {}), ("indeterminates", indeterminates, {}), ("mimc", permutation, {})]
  top = 100 if tier == "thorough" else 32
  for p in range(2, top):
    if ref.is_prime(p):
      out.append(("cycles-%d" % p, cycles, dict(field=p)))
  for p, m in ((2, 2), (2, 3), (3, 2), (2, 4), (5, 2), (3, 3)) + (((2, 5), (2, 6), (7, 2), (3, 4)) if tier == "thorough" else ()):
    for f in ref.irreducibles(p, m)[:None if tier == "thorough" else 3]:
      out.append(("cycles-%d-%s" % (p, "".join(map(str, f))), cycles, dict(field=(p, f))))
  return out + [("long-256", long_cycles, dict(p=2**256 - 2**32 * 351 + 1, g=7)), ("long-12289", long_cycles, dict(p=12289, g=11)), ("long-65537", long_cycles, dict(p=65537, g=3))]
