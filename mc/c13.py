import collections
import itertools

from mc import env, ref
from mc.c04 import PB

ID = "C13"
BOUNDS = {
    "spaces": "every linearly independent basis of up to 3 vectors of GF(8), up to 2 of GF(16) and GF(9), given as "
              "field elements and as polynomials, with every shift; (dimension 3 and 4 of GF(16) from a stride)",
    "scalars": "every basis of up to 2 and shift over Z/2, Z/3, Z/5, dependent ones included",
    "vanishing": "value at every point of the field, degree and leading coefficient, both constructions",
    "wide": "spaces of 5 to 8 (thorough 10) dimensions over Z/2 and 4 to 5 over Z/3 listed in full, with and without shift; "
            "lengths over GF(4), GF(8), GF(9) and GF(25)",
    "derived": "every prefix subspace of those spaces, every polynomial of degree <= 2 from a family on them",
}


def independent(rf, vs):
  return len(set(span(rf, vs))) == rf.p**len(vs)


def span(rf, vs, shift=0):
  """All combinations, with multiplicity."""
  out = [shift]
  for v in vs:
    out = [rf.add(a, rf.mul(c, v)) for a in out for c in range(rf.p)]
  return out


def vanishing(ctx, pb, f, elements, what, *detail):
  want = pb.rf.pfromroots(sorted(elements))
  got = pb.frm(f)
  ctx.eq(got, want, what, *detail)
  br = pb.br
  for x in range(br.q):
    ctx.check((br.frm_any(f(br.to(x))) == 0) is (x in elements), "zero set of " + what, x, *detail)


def spaces(ctx, p, mod, dim, stride, shifts):
  from starks.poly_utils import (construct_affine_vanishing_polynomial,
                                 construct_affine_vanishing_polynomial_Moore)
  from starks.reedsolomon import AffineSpace
  from starks.polynomial import polynomials_over
  from starks.fri import select_subspace, eval_on_subspace
  br = env.ext_field(p, mod)
  rf, q = br.rf, br.q
  pb = PB(br)
  Z = env.prime_field(p)
  ZP = polynomials_over(Z.F)
  g = pb.to([1, 0, q - 1])
  for i, vs in enumerate(itertools.permutations(range(1, q), dim)):
    if i % stride or not independent(rf, vs):
      continue
    for kind in ("element", "polynomial"):
      to = br.to if kind == "element" else (lambda a: ZP(rf.digits(a)))
      back = br.frm if kind == "element" else (lambda f: br.frm(br.F(f)))
      for shift in [None] + (list(range(q)) if shifts and i % shifts == 0 else [1, q - 1]):
        ctx.at("space", kind, vs, shift)
        basis = [to(v) for v in vs]
        A = AffineSpace(Z.F, basis) if shift is None else AffineSpace(Z.F, basis, to(shift))
        want = sorted(span(rf, vs, shift or 0))
        first = list(A)
        if dim == 0 and shift is None:
          break
        got = [back(e) for e in first]
        ctx.eq(sorted(got), want, "elements of the space", kind, vs, shift)
        ctx.eq(len(A), p**dim, "size of the space", kind, vs)
        ctx.eq([back(e) for e in A], got, "a second iteration differs", kind, vs, shift)
        pairs = [(back(x), back(y)) for x in A for y in A] if dim < 3 else []
        ctx.eq(pairs, [(x, y) for x in got for y in got] if dim < 3 else [], "nested iterations interfere", vs)
        ctx.eq([back(b) for b in basis], list(vs), "basis changed", vs)
        ctx.state((kind, vs, shift))
        if kind == "element" or i % 3 == 0:
          f = construct_affine_vanishing_polynomial(br.F, A)
          vanishing(ctx, pb, f, set(want), "vanishing polynomial", kind, vs, shift)
        if p == 2 and (shift is None or kind == "element" or i % 3 == 0):
          f = construct_affine_vanishing_polynomial_Moore(br.F, A)
          vanishing(ctx, pb, f, set(want), "vanishing polynomial by Moore matrix", kind, vs, shift)
          ctx.eq([back(b) for b in basis], list(vs), "basis changed", vs)
        if shift is None:
          for eta in range(dim + 2):
            sub = select_subspace(A, eta)
            if eta and dim:
              ctx.eq(sorted(back(e) for e in sub), sorted(span(rf, vs[:eta])), "subspace of the first vectors", vs, eta)
              ctx.eq(len(sub), p**min(eta, dim), "size of the subspace", vs, eta)
            ctx.eq(sorted(back(e) for e in A) if dim else [], want if dim else [], "space changed by taking a subspace")
        if kind == "element":
          ctx.eq([br.frm(v) for v in eval_on_subspace(g, A)],
                 [rf.peval([1, 0, q - 1], x) for x in got], "values of a polynomial on the space", vs, shift)
    ctx.trace()
  ctx.sample("GF(%d), dimension %d, every %d-th basis" % (q, dim, stride))


def scalars(ctx, p, dim):
  """Bases of scalars: every combination is listed, repeated where dependent."""
  from starks.poly_utils import construct_affine_vanishing_polynomial
  from starks.reedsolomon import AffineSpace
  from starks.polynomial import polynomials_over
  br = env.prime_field(p)
  pb = PB(br)
  for vs in itertools.product(range(p), repeat=dim):
    for shift in [None] + list(range(p)):
      ctx.at("space of scalars", p, vs, shift)
      A = AffineSpace(br.F, [br.to(v) for v in vs], None if shift is None else br.to(shift))
      want = collections.Counter(span(br.rf, vs, shift or 0))
      els = list(A)
      ctx.eq(collections.Counter(br.frm(e) for e in els), want, "elements with multiplicity", p, vs, shift)
      ctx.eq(len(A), p**dim, "size", p, vs)
      ctx.eq(len(els), p**dim, "number of elements listed", p, vs)
      f = construct_affine_vanishing_polynomial(br.F, A)
      ctx.eq(pb.frm(f), pb.rf.pfromroots(sorted(want.elements())), "vanishing polynomial", p, vs, shift)
      ctx.state((p, vs, shift))
      ctx.trace()
  # polynomials of growing degree as basis vectors, nothing reduced
  P = polynomials_over(br.F)
  for k in range(1, 5 if p == 2 else 3):
    A = AffineSpace(br.F, [P([0] * i + [1]) for i in range(k)])
    got = sorted(tuple(int(c) for c in e.coefficients) if type(e) is P else (int(e),) for e in A)
    ctx.eq(got, sorted(tuple(ref.trim(c)) for c in itertools.product(range(p), repeat=k)),
           "all polynomials below a degree", p, k)
    ctx.trace()


def wide(ctx, p, m, mod, dims):
  """Bases of many vectors: every element listed once, in the same order on every pass."""
  from starks.fri import select_subspace
  from starks.reedsolomon import AffineSpace
  br = env.ext_field(p, mod)
  rf, q = br.rf, br.q
  Z = env.prime_field(p)
  for d in dims:
    for vs in ([p**i for i in range(d)], [p**(m - 1 - i) for i in range(d)], [p**i + (p**(i + 1) if i + 1 < m else 0) for i in range(d)]):
      if not independent(rf, vs):
        continue
      for shift in (None, q - 1):
        ctx.at("wide", p, m, vs, shift)
        A = AffineSpace(Z.F, [br.to(v) for v in vs], None if shift is None else br.to(shift))
        got = [br.frm(e) for e in A]
        ctx.eq(sorted(got), sorted(span(rf, vs, shift or 0)), "elements of the space", p, vs, shift)
        ctx.eq(len(A), p**d, "size of the space", p, vs)
        ctx.eq([br.frm(e) for e in A], got, "a second iteration differs", p, vs, shift)
        if shift is None:
          for eta in range(1, d + 1):
            ctx.eq(sorted(br.frm(e) for e in select_subspace(A, eta)), sorted(span(rf, vs[:eta])), "subspace of the first vectors", vs, eta)
        ctx.state((p, m, tuple(vs), shift))
        ctx.trace()


def sizes(ctx):
  """The number of combinations with scalars out of a field of p^m elements."""
  from starks.reedsolomon import AffineSpace
  for p, mod in ((2, [1, 1, 1]), (2, [1, 1, 0, 1]), (3, [1, 0, 1]), (5, [2, 0, 1])):
    br = env.ext_field(p, mod)
    for d in range(6):
      ctx.at("size", p, mod, d)
      ctx.eq(len(AffineSpace(br.F, [br.to(1 + i % (br.q - 1)) for i in range(d)])), br.q**d, "size of the space", br.q, d)
      ctx.state((br.q, d))
  for p in (2, 3, 5, 7, 257):
    br = env.prime_field(p)
    for d in range(7 if p > 100 else 9):
      ctx.eq(len(AffineSpace(br.F, [br.to(i) for i in range(d)])), p**d, "size of the space", p, d)
      ctx.state((p, d))
  ctx.trace()


def large(ctx, m, mod, dims):
  """Linear spaces over bigger binary fields, by Moore matrix and by roots."""
  from starks.poly_utils import (construct_affine_vanishing_polynomial,
                                 construct_affine_vanishing_polynomial_Moore)
  from starks.reedsolomon import AffineSpace
  br = env.ext_field(2, mod)
  pb, rf = PB(br), br.rf
  Z = env.prime_field(2)
  for d in dims:
    for vs in ([1 << i for i in range(d)], [1 << (m - 1 - i) for i in range(d)],
               [(1 << i) | (1 << (i + 1) % m) for i in range(d)], [3 << i for i in range(d)] if d < m else [1 << i for i in range(d)]):
      if not independent(rf, vs):
        continue
      ctx.at("large space", m, vs)
      A = AffineSpace(Z.F, [br.to(v) for v in vs])
      want = pb.rf.pfromroots(sorted(span(rf, vs)))
      ctx.eq(pb.frm(construct_affine_vanishing_polynomial_Moore(br.F, A)), want, "vanishing polynomial by Moore matrix", vs)
      ctx.eq(pb.frm(construct_affine_vanishing_polynomial(br.F, A)), want, "vanishing polynomial", vs)
      ctx.state((m, tuple(vs)))
      for s in [1 << (m - 1), (1 << m) - 1, vs[0], vs[-1] ^ vs[0], (1 << (m - 1)) | 2]:
        ctx.at("large space", m, vs, s)
        A = AffineSpace(Z.F, [br.to(v) for v in vs], br.to(s))
        want = pb.rf.pfromroots(sorted(span(rf, vs, s)))
        ctx.eq(pb.frm(construct_affine_vanishing_polynomial(br.F, A)), want, "vanishing polynomial", vs, s)
        ctx.eq(pb.frm(construct_affine_vanishing_polynomial_Moore(br.F, A)), want, "vanishing polynomial by Moore matrix", vs, s)
        ctx.state((m, tuple(vs), s))
      ctx.trace()


def chunks(tier):
  t = tier == "thorough"
  out = []
  GF8, GF8b, GF16, GF9, GF4 = [1, 1, 0, 1], [1, 0, 1, 1], [1, 1, 0, 0, 1], [1, 0, 1], [1, 1, 1]
  for nm, p, mod, dim, stride, sh in (
      ("GF4", 2, GF4, 1, 1, 1), ("GF4", 2, GF4, 2, 1, 1), ("GF8", 2, GF8, 1, 1, 1), ("GF8", 2, GF8, 2, 1, 2),
      ("GF8", 2, GF8, 3, 1 if t else 3, 8), ("GF8b", 2, GF8b, 2, 1, 2), ("GF16", 2, GF16, 1, 1, 1),
      ("GF16", 2, GF16, 2, 1 if t else 3, 9), ("GF16", 2, GF16, 3, 11 if t else 67, 0),
      ("GF16", 2, GF16, 4, 97 if t else 2003, 0), ("GF9", 3, GF9, 1, 1, 1), ("GF9", 3, GF9, 2, 1 if t else 3, 0),
      ("GF25", 5, [2, 0, 1], 1, 1, 3), ("GF27", 3, [1, 2, 0, 1], 2, 5 if t else 29, 0)):
    out.append(("spaces-%s-%d" % (nm, dim), spaces, dict(p=p, mod=mod, dim=dim, stride=stride, shifts=sh)))
  out += [("scalars-%d-%d" % (p, d), scalars, dict(p=p, dim=d)) for p, d in ((2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (5, 1))]
  out += [("wide-2", wide, dict(p=2, m=8, mod=[1, 1, 0, 1, 1, 0, 0, 0, 1], dims=(5, 6, 7, 8))),
          ("wide-3", wide, dict(p=3, m=5, mod=[1, 2, 0, 0, 0, 1], dims=(3, 4, 5))), ("sizes", sizes, {})]
  if t:
    out.append(("wide-2-10", wide, dict(p=2, m=10, mod=[1, 0, 0, 1] + [0] * 6 + [1], dims=(9, 10))))
  out += [("large-8", large, dict(m=8, mod=[1, 1, 0, 1, 1, 0, 0, 0, 1], dims=(1, 2, 3, 4, 5, 6, 7) if t else (2, 3, 4, 5, 6))),
          ("large-10", large, dict(m=10, mod=[1, 0, 0, 1] + [0] * 6 + [1], dims=(2, 4, 5, 6) if t else (2, 3, 5)))]
  return out
