From d795e27d3b0264efdc617518839e6611c6c31d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 01/53] fix: memoized class constructors ignored the values of
 keyword arguments

---
 starks/numbertype.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index dac40bf..dbed4b3 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -1,9 +1,20 @@
 """
 These classes help speed up field computations by caching and introduce some useful types.
 """
+import inspect
 from typing import List
 
 
+def _memo_key(value):
+  """Returns a hashable stand-in for an argument of a memoized constructor."""
+  try:
+    hash(value)
+    return value
+  except TypeError:
+    # Polynomials define equality but no hash
+    return (type(value), repr(value))
+
+
 def memoize(f):
   """Decorator to memoize a function. 
 
@@ -11,12 +22,18 @@ def memoize(f):
   never creating two separate instances of a number class.
   """
   cache = {}
+  signature = inspect.signature(f)
 
   def memoizedFunction(*args, **kwargs):
-    argTuple = args + tuple(kwargs)
-    if argTuple not in cache:
-      cache[argTuple] = f(*args, **kwargs)
-    return cache[argTuple]
+    # However the arguments are spelled (positionally, by name or defaulted),
+    # the same values must name the same class and different values another.
+    bound = signature.bind(*args, **kwargs)
+    bound.apply_defaults()
+    key = tuple(_memo_key(value) for value in bound.arguments.values())
+    if key not in cache:
+      # Concurrent callers must agree on a single class, so the first one wins
+      cache.setdefault(key, f(*args, **kwargs))
+    return cache[key]
 
   memoizedFunction.cache = cache
   return memoizedFunction
-- 
2.43.0


From f1651a7557afd781a98e5d7b0ceedd6c477a5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:56 +0000
Subject: [PATCH 02/53] fix: reduce integers mod p built from bytes

---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 17babff..437594f 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -31,7 +31,7 @@ def IntegersModP(p):
     def __init__(self, n):
       try:
         if isinstance(n, bytes):
-          self.n = int.from_bytes(n, 'big')
+          self.n = int.from_bytes(n, 'big') % IntegerModP.p
         else:
           self.n = int(n) % IntegerModP.p
       except:
-- 
2.43.0


From 93e6cbd1902a7d39a5c929899739e513a05c0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 03/53] fix: byte encoding of polynomials and extension field
 elements

---
 starks/finitefield.py | 3 +--
 starks/polynomial.py  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 9e8e609..86300b4 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -77,7 +77,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
     def __init__(self, poly):
       if isinstance(poly, bytes):
-        self.poly = Polynomial(poly)
+        self.poly = Polynomial(poly) % polynomialModulus
       elif type(poly) is Fq:
         self.poly = poly.poly
       elif type(poly) is int or type(poly) is Zp:
@@ -145,7 +145,6 @@ def FiniteField(p, m, polynomialModulus=None):
 
       return Fq(x) * Fq(d.coefficients[0].inverse())
 
-    # TODO(rbharath): This function is broken!!
     def to_bytes(self):
       return self.poly.to_bytes()
 
diff --git a/starks/polynomial.py b/starks/polynomial.py
index 4f224eb..18bfde2 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -164,7 +164,7 @@ def polynomials_over(ring=fractions.Fraction):
       return y
 
     def to_bytes(self):
-      coeff_bytes = [coeff.to_bytes(32, 'big') for coeff in self.coefficients]
+      return b''.join([coeff.to_bytes() for coeff in self.coefficients])
 
 
   def Zero():
-- 
2.43.0


From 3738b3cf87a5b02f869efc4351e1d14ebe82b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:08 +0000
Subject: [PATCH 04/53] fix: inequality of rationals mod p raised NameError

---
 starks/rationals_modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 6e547a1..269196d 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -78,7 +78,7 @@ def RationalsModP(p):
 
     @typecheck
     def __ne__(self, other):
-      return isinstance(other, IntegerModP) is False or (
+      return isinstance(other, RationalModP) is False or (
           (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)
 
     # TODO(rbharath): This should be possible to implement. Think more about it.
-- 
2.43.0


From c7c17518d88a95a240300d73c18658340aad68db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 05/53] fix: reduce rationals mod p built from bytes

---
 starks/rationals_modp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 269196d..a6c7a72 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -30,8 +30,8 @@ def RationalsModP(p):
       try:
         # This is awkward constructor overloading
         if isinstance(m, bytes):
-          num = int.from_bytes(m[:32], 'big')
-          den = int.from_bytes(m[32:], 'big')
+          num = int.from_bytes(m[:32], 'big') % RationalModP.p
+          den = int.from_bytes(m[32:], 'big') % RationalModP.p
         else:
           num = int(m) % RationalModP.p
           den = int(n) % RationalModP.p
-- 
2.43.0


From 820a2e2126ec18bf8694d65f146244024f85977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:20 +0000
Subject: [PATCH 06/53] fix: multi_inv returned garbage for zero field elements

---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 99694ac..4c3eae3 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -314,7 +314,7 @@ def multi_inv(field, values):
   inv = 1 / partials[-1]
   outputs = [0] * len(values)
   for i in range(len(values), 0, -1):
-    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] else 0
+    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] != 0 else 0
     if values[i-1] != 0:
       inv = inv * values[i - 1]
   return outputs
-- 
2.43.0


From cd176ca3ddafdfb804ed98440aef5505b4a2a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 07/53] fix: mul_polys did not scale the inverse transform

---
 starks/fft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 11a19d9..eb6875b 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -342,4 +342,5 @@ def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: Field
     b = b + [0] * (len(rootz) - len(b) - 1)
   x1 = _fft(a, rootz[:-1])
   x2 = _fft(b, rootz[:-1])
-  return _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])
+  scale = 1 / (0 * root_of_unity + len(x1))
+  return [x * scale for x in _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])]
-- 
2.43.0


From daaa217235769b8e396ada27e6549b9129cef9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:31 +0000
Subject: [PATCH 08/53] fix: boundary polynomials could not be built for a zero
 output

---
 starks/stark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 9b54365..a685392 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -92,8 +92,8 @@ def construct_boundary_polynomials(trace_polys: List[Poly], witness: List[List],
     constraint = boundary[dim]
     (_, _, input_value) = constraint
     output_dim = witness[dim][-1]
-    interpolant = lagrange_interp_2(field, polysOver([1, last_step_position]),
-        polysOver([input_value, output_dim]))
+    interpolant = lagrange_interp_2(field, [1, last_step_position],
+        [input_value, output_dim])
     interpolants.append(interpolant)
   # B = (P - I) / Z2
   b_polys = []
-- 
2.43.0


From 444151792a3231881196eb7a092961b25c345988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 09/53] fix: is_a_power_of_2 never returned for zero

---
 starks/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/utils.py b/starks/utils.py
index c435ab9..cba469d 100644
--- a/starks/utils.py
+++ b/starks/utils.py
@@ -91,4 +91,4 @@ def get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=0):
 
 
 def is_a_power_of_2(x):
-  return True if x == 1 else False if x % 2 else is_a_power_of_2(x // 2)
+  return True if x == 1 else False if x < 1 or x % 2 else is_a_power_of_2(x // 2)
-- 
2.43.0


From 681206df926dae2eac635fb705b983746cedd844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 10/53] fix: floating point subtraction flipped the sign of its
 operand

---
 starks/floatingpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index ef137f0..a95b72f 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -127,8 +127,7 @@ def FloatingPoint(field):
     @typecheck
     def __sub__(self, other):
       # subtraction is implemented based on addition
-      other.s = other.s ^ 1
-      output = self + other
+      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)
       return output
 
     #this is division operation of two floating point numbers in binary finite field representation
-- 
2.43.0


From cfad963ee28899e7fed213c7ebb537e5f2749d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 11/53] fix: floating point product ignored the degree of the
 second significand

---
 starks/floatingpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index a95b72f..c21964a 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -190,7 +190,7 @@ def FloatingPoint(field):
         p_c = field(polysOver([0]))
       else:
         p_c = self.p + other.p
-        p_c = p_c + num_to_binary_list(self.v.poly.degree() + self.v.poly.degree() - (self.v.m - 1))
+        p_c = p_c + num_to_binary_list(self.v.poly.degree() + other.v.poly.degree() - (self.v.m - 1))
  
       output = Fp(v_c, p_c, z_c, s_c)
       return output
-- 
2.43.0


From a320491dffcd5ea07d840d0f676619bc5a93f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 12/53] fix: two_pow computed the wrong power from the third
 bit on

---
 starks/finitefield.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 86300b4..fbcb8fc 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -154,8 +154,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
       for i in range(self.poly.degree()+1):
         if str(self.poly.coefficients[i])[0] == '1':
-          l = num_to_binary_list_pow(i+1)
-          num = num * Fq(l)
+          num = num * Fq(num_to_binary_list_pow(1))**(2**i)
 
       return num
 
-- 
2.43.0


From 093d32c5b446a429d3cb74a18e3055473b69b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:31 +0000
Subject: [PATCH 13/53] fix: simulated graph isomorphism transcripts were not
 accepted

---
 misc/zero_knowledge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 48143e1..1c7a0f4 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -182,7 +182,8 @@ def simulate_protocol(G1, G2):
   pi = make_permutation_function(isomorphism)
   H = apply_isomorphism(G, pi)
 
-  return H, choice, pi
+  # The protocol reveals the isomorphism from H back to the chosen graph
+  return H, choice, make_inverse_permutation_function(isomorphism)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From e21fe1dfc32315af024a6cfe01d829d6e05f9413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:35 +0000
Subject: [PATCH 14/53] fix: consensus trusted the chain length claimed by a
 neighbour

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a65ec7e..cbec3f7 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -84,8 +84,9 @@ class Blockchain:
       response = requests.get(f'http://{node}/chain')
 
       if response.status_code == 200:
-        length = response.json()['length']
         chain = response.json()['chain']
+        # The length a node claims for its chain is not to be trusted
+        length = len(chain)
 
         # Check if the length is longer and the chain is valid
         if length > max_length and self.valid_chain(chain):
-- 
2.43.0


From 1f90e89611b60bc85932e2b2dad785ae47151fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:40 +0000
Subject: [PATCH 15/53] fix: interpolate functions at every point of F_q^n

---
 starks/poly_utils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 4c3eae3..b3fd9a2 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -283,17 +283,15 @@ def construct_multivariate_coefficients(field: Field, step_fn: Callable, n:int)
   field_size = field.field_size
   # Finite field case
   if field.__name__[:2] == "F_":
-    p = field.p
-    m = field.m
+    elements = [field(list(coeffs)) for coeffs in
+        itertools.product(range(field.p), repeat=field.m)]
   elif field.__name__[:2] == "Z/":
-    p = field.p
-    m = 1
+    elements = [field(ind) for ind in range(field.p)]
   else:
     raise ValueError
-  # Iterate over field indices
-  field_indices = itertools.product(*[range(p) for _ in range(m)])
-  for index in field_indices:
-    index = [field(ind) for ind in list(index)]
+  # Iterate over the points of F_q^n
+  for index in itertools.product(elements, repeat=n):
+    index = list(index)
     term = construct_multivariate_dirac_delta(field, index, n)
     poly += step_fn(index) * term
   return poly
-- 
2.43.0


From e6b2a4f234e4b972c653f01966680f46dddd7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 16/53] fix: Moore construction of vanishing polynomials
 returned the bare kernel

---
 starks/poly_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index b3fd9a2..86442b2 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -92,9 +92,14 @@ def construct_affine_vanishing_polynomial_Moore(field: Field, aff: AffineSpace)
       temp = temp + Moore[i][j+1] * kernel[j+1]
     assert temp == Moore[i][len(b)]
 
-  # constructing the polynomial where kernel is the vector of coefficients
+  # The kernel gives b^{2^d} = \sum_j kernel_j b^{2^j} on the basis, so the
+  # linearized polynomial x^{2^d} - \sum_j kernel_j x^{2^j} vanishes on its span
   polysOver = polynomials_over(field).factory
-  return polysOver(kernel)
+  coefficients = [field(0)] * (2**len(b) + 1)
+  for j in range(len(b)):
+    coefficients[2**j] = -kernel[j]
+  coefficients[2**len(b)] = field(1)
+  return polysOver(coefficients)
 
 def gauss(M, row, field):
   for i in range(row):
-- 
2.43.0


From 2b3c6b92182bb98c8fb284a7471336db76072ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 17/53] fix: Taylor expansion recursed with a float length

---
 starks/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/fft.py b/starks/fft.py
index eb6875b..b9fd9f0 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -89,8 +89,8 @@ class Additive_FFT(FFT):
     g1 = h+f_twoK*f2
 
     # recursive part
-    V1 = self.Taylor_Expansion(g0, n/2)
-    V2 = self.Taylor_Expansion(g1, n/2)
+    V1 = self.Taylor_Expansion(g0, n//2)
+    V2 = self.Taylor_Expansion(g1, n//2)
 
     return V1, V2
 
-- 
2.43.0


From e416d41b9ed81fc8da8f07e74cb0f253b62be01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 18/53] fix: multivariate polynomials kept unreduced integer
 coefficients

---
 starks/multivariate_polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index 44096e1..1378373 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -82,8 +82,8 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
       elif isinstance(c, ring):
         self.coefficients = {(0,)*num_vars: c}
       elif isinstance(c, dict):
-        coefficients = remove_zero_coefficients(c)
-        self.coefficients = c
+        self.coefficients = {
+            power_tup: ring(coeff) for power_tup, coeff in c.items()}
       elif isinstance(c, int):
         self.coefficients = {(0,)*num_vars: ring(c)}
       else:
-- 
2.43.0


From 8d25d646dd3499ca4ed29c9a2e6bb5de52e2cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:18 +0000
Subject: [PATCH 19/53] fix: the polynomial x was reported to be primitive

---
 starks/poly_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 86442b2..cf354d4 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -228,6 +228,9 @@ def is_primitive(irred_poly: Poly, modulus: int, degree: int) -> bool:
   # All primitive polynomials are irreducible
   if not is_irreducible(irred_poly, modulus):
     return False
+  # x itself is irreducible but is never a generator
+  if irred_poly.coefficients[0] == 0:
+    return False
   # factorize p^m - 1
   prime_factors = factorint(modulus**degree - 1)
   # This is returned as dictionary with multiplicities. Turn into list
-- 
2.43.0


From 21ca13312ceb498b3bcfd83a5437d2aedf00502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 20/53] fix: divide multivariate polynomials over their own
 coefficient ring

---
 starks/multivariate_polynomial.py | 43 ++++++++++++++-----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index 1378373..4d9ac2d 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -169,29 +169,26 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
 
     @typecheck
     def __truediv__(self, divisor):
-      """" 
-      div operation is implemented by using div in sympy
-      The approach is, we convert MultivariatePolynomial to string which will be used to build MultivariatePolynomial in sympy,
-      then we use division which is already available in sympy, the output of division then converted to MultivariatePolynomial
-      which is compatible with our design
-      """
-
-      X = Poly(str(self))
-      X_size = self.size_p()
-      Y = Poly(str(divisor))
-      Y_size = divisor.size_p()
-      Z = div(X, Y)
-
-      # the output of the division converted again to MultivariatePolynomial
-      Z_str = str(Z)
-      result = ""
-      i = 6
-      while i < len(Z_str) and Z_str[i] != ",":
-        result += Z_str[i]
-        i += 1
-
-      # now we have string format of the output, it should be converted to MultivariatePolynomial
-      return self.StrToMulti(result, max(X_size, Y_size))
+      """Quotient of the lexicographic division algorithm over the ring."""
+      if divisor.is_zero():
+        raise ZeroDivisionError
+      leading = max(divisor.coefficients)
+      quotient = {}
+      rest = dict(self.coefficients)
+      while rest:
+        monomial = max(rest)
+        coeff = rest.pop(monomial)
+        exponent = tuple(a - b for a, b in zip(monomial, leading))
+        if min(exponent, default=0) < 0:
+          # Not divisible by the leading monomial: belongs to the remainder
+          continue
+        factor = coeff / divisor[leading]
+        quotient[exponent] = factor
+        for power_tup, divisor_coeff in divisor:
+          if power_tup != leading:
+            prod = add_power_tuples(exponent, power_tup)
+            rest[prod] = rest.get(prod, ring(0)) - factor * divisor_coeff
+      return MultivariatePolynomial(quotient)
 
     # it returns maximum degree in a polynomial
     def size_p(self):
-- 
2.43.0


From f092ba0b9d2c306b56e7c03e107833c760c2ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:21 +0000
Subject: [PATCH 21/53] fix: Moore construction failed for spaces of more than
 one dimension

---
 starks/poly_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index cf354d4..a0b6f50 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -71,8 +71,8 @@ def construct_affine_vanishing_polynomial(field: Field, aff: AffineSpace) -> Pol
 
 def construct_affine_vanishing_polynomial_Moore(field: Field, aff: AffineSpace) -> Poly:
   """Constructs a polynomial which vanishes over a given affine space."""
-  # pick a basis a_1, ..., a_d for the space
-  b = aff.basis
+  # pick a basis a_1, ..., a_d for the space, in the field: the elimination divides
+  b = [field(elt) for elt in aff.basis]
   #construct Moore matrix with d+1 colums, The Moore matrix has successive powers of the Frobenius automorphism applied to its columns
   Moore = []
   for i in range(len(b)):
@@ -84,7 +84,8 @@ def construct_affine_vanishing_polynomial_Moore(field: Field, aff: AffineSpace)
     Moore.append(temp_l)
   print(Moore)
   # compute Moore's nonzero kernel element by using gaussian elimination
-  kernel = gauss(Moore, len(b), field)
+  # (in place, so on a copy: the rows are needed below)
+  kernel = gauss([list(row) for row in Moore], len(b), field)
   # testing the output of gaussian elimination (this part can be removed because of its overhead)
   for i in range(len(b)):
     temp = Moore[i][0] * kernel[0]
@@ -142,6 +143,9 @@ def gauss(M, row, field):
 
 # compute whether a is bigger than b or not where a and b both are polynomials
 def max(a, b):
+  # field elements have no degree, but any nonzero one will do as a pivot
+  if isinstance(b, FieldElement):
+    return 1 if b == 0 else 0
   aD = a.degree()
   bD = b.degree()
   if aD > bD:
-- 
2.43.0


From f9e8c3ed88e66c6b3c9fb6eb4c8b82f6eb11ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:52 +0000
Subject: [PATCH 22/53] fix: compression of proofs with more than 65536 entries
 overflowed

---
 starks/compression.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/starks/compression.py b/starks/compression.py
index 31295c1..9983d02 100644
--- a/starks/compression.py
+++ b/starks/compression.py
@@ -11,7 +11,9 @@ def compress_fri(prf):
       o.append(oindex[x].to_bytes(2, 'big'))
     else:
       o.append(x)
-      oindex[x] = len(o) - 1
+      # Only the first 2**16 positions can be referred to in two bytes
+      if len(o) <= 2**16:
+        oindex[x] = len(o) - 1
 
   for root, yproofs in prf[:-1]:
     # print('Adding proof item, pos %d' % len(o))
@@ -73,7 +75,9 @@ def compress_branches(branches):
       o.append(oindex[x].to_bytes(2, 'big'))
     else:
       o.append(x)
-      oindex[x] = len(o) - 1
+      # Only the first 2**16 positions can be referred to in two bytes
+      if len(o) <= 2**16:
+        oindex[x] = len(o) - 1
 
   for branch in branches:
     for p in branch:
-- 
2.43.0


From c1afc1b3e44a2cec642cb1827b516993ae201ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:51 +0000
Subject: [PATCH 23/53] fix: graph isomorphism verifier accepted maps that
 merge vertices

Any two graphs with the same number of edges could be proven isomorphic by
sending disjoint edges as H.
---
 misc/zero_knowledge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 1c7a0f4..0e57c5c 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -134,7 +134,11 @@ class ZKVerifier(object):
     # The correctness of this check depends on python list comparison being
     # done with == since each graph is a list of tuples.
     is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))
-    return is_valid_isomorphism
+
+    # A map that merges vertices of H is not an isomorphism
+    vertices = set(v for e in H for v in e)
+    is_injective = len(set(f(v) for v in vertices)) == len(vertices)
+    return is_valid_isomorphism and is_injective
 
 
 def run_protocol(G1, G2, isomorphism):
-- 
2.43.0


From 41e929230c0a6fae235d8a02cfeaad2396c7e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:57 +0000
Subject: [PATCH 24/53] fix: integer commitments could be opened in part

Leaving out the last secrets opened a commitment to 2 as 1.
---
 misc/commitment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 9f39539..b51a538 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -106,6 +106,9 @@ class BBSIntCommitmentVerifier(object):
     ]
 
   def verify(self, secrets, bitCommitments):
+    # A shorter list of secrets would open another integer
+    if not len(secrets) == len(bitCommitments) == len(self.verifiers):
+      return False
     return all(
         bitVerifier.verify(secret, commitment)
         for (bitVerifier, secret,
-- 
2.43.0


From 2d2724b07fdd5ead9ee0c76a30465de375705819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:02 +0000
Subject: [PATCH 25/53] fix: 3-coloring verifier accepted a fourth color

---
 misc/zkp_3_coloring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 0fd2419..70f812c 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -83,6 +83,9 @@ class ZK3ColVerifier(object):
       revealed_colors.append(trueColor)
       if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
         return False
+      # Two bits can also hold a fourth color
+      if trueColor not in (0, 1, 2):
+        return False
 
     return revealed_colors[0] != revealed_colors[1]
 
-- 
2.43.0


From cbc4fc490227617274675b4361489dfc76454b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:07 +0000
Subject: [PATCH 26/53] fix: the node server did not import what it uses

---
 misc/run_blockchain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 6c2182b..e849506 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,9 @@
+from uuid import uuid4
+
+from flask import Flask, jsonify, request
+
+from blockchain import Blockchain
+
 # Instantiate the Node
 app = Flask(__name__)
 
-- 
2.43.0


From efb861ec80b1d0a599b141936f191f60ea0f7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:21 +0000
Subject: [PATCH 27/53] fix: nodes registered by host name and port lost their
 host

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index cbec3f7..14ca3e1 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -25,7 +25,8 @@ class Blockchain:
     :param address: Address of node. Eg. 'http://192.168.0.5:5000'
     """
 
-    parsed_url = urlparse(address)
+    # Without the slashes the host of 'localhost:5000' would be taken for a scheme
+    parsed_url = urlparse(address if '//' in address else '//' + address)
     if parsed_url.netloc:
       self.nodes.add(parsed_url.netloc)
     elif parsed_url.path:
-- 
2.43.0


From b0b19bb9a8a2817b5515321bfa11a902fac72701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:28 +0000
Subject: [PATCH 28/53] fix: concurrent requests could break the chain of a
 node

Two requests to mine appended two blocks that name the same predecessor, and
a chain replaced meanwhile was extended by a block that does not fit it.
---
 misc/blockchain.py     | 10 +++++++---
 misc/run_blockchain.py | 14 ++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 14ca3e1..66a47a1 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -1,5 +1,6 @@
 import hashlib
 import json
+from threading import RLock
 from time import time
 from urllib.parse import urlparse
 from uuid import uuid4
@@ -14,6 +15,8 @@ class Blockchain:
     self.current_transactions = []
     self.chain = []
     self.nodes = set()
+    # A server handles requests in several threads
+    self.lock = RLock()
 
     # Create the genesis block
     self.new_block(previous_hash='1', proof=100)
@@ -95,9 +98,10 @@ class Blockchain:
           new_chain = chain
 
     # Replace our chain if we discovered a new, valid chain longer than ours
-    if new_chain:
-      self.chain = new_chain
-      return True
+    with self.lock:
+      if new_chain and len(new_chain) > len(self.chain):
+        self.chain = new_chain
+        return True
 
     return False
 
diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index e849506..a631711 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,4 @@
+from functools import wraps
 from uuid import uuid4
 
 from flask import Flask, jsonify, request
@@ -14,7 +15,19 @@ node_identifier = str(uuid4()).replace('-', '')
 blockchain = Blockchain()
 
 
+def synchronized(handler):
+  """Lets one request at a time change the chain and the pending transactions."""
+
+  @wraps(handler)
+  def locked():
+    with blockchain.lock:
+      return handler()
+
+  return locked
+
+
 @app.route('/mine', methods=['GET'])
+@synchronized
 def mine():
   # We run the proof of work algorithm to get the next proof...
   last_block = blockchain.last_block
@@ -43,6 +56,7 @@ def mine():
 
 
 @app.route('/transactions/new', methods=['POST'])
+@synchronized
 def new_transaction():
   values = request.get_json()
 
-- 
2.43.0


From 7a0d86b145fff3294ccf6273759650732802a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:40 +0000
Subject: [PATCH 29/53] fix: registering a node made a running consensus fail

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 66a47a1..408153e 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -77,7 +77,8 @@ class Blockchain:
     :return: True if our chain was replaced, False if not
     """
 
-    neighbours = self.nodes
+    # Nodes may be registered while their chains are fetched
+    neighbours = list(self.nodes)
     new_chain = None
 
     # We're only looking for chains longer than ours
-- 
2.43.0


From 3061d48f78d206bd3af2a33bae5963ed3837f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 30/53] fix: transforms on domains with an odd factor above 3
 failed

---
 starks/fft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index b9fd9f0..7d8ff28 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -301,7 +301,8 @@ def _simple_ft(vals: List[FieldElement], roots_of_unity: FieldElement) -> List[F
 
 
 def _fft(vals: List[FieldElement], roots_of_unity: FieldElement) -> List[FieldElement]:
-  if len(vals) <= 4:
+  # An odd number of values cannot be halved
+  if len(vals) <= 4 or len(vals) % 2:
     #return vals
     return _simple_ft(vals, roots_of_unity)
   L = _fft(vals[::2], roots_of_unity[::2])
-- 
2.43.0


From 22a9dcad3aca7be4ce05a401ad34411b3601a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 31/53] fix: a STARK with a security factor above 80 could not
 be verified

---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index a685392..2078376 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -262,7 +262,8 @@ class STARK(object):
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
-    branches = self.compute_merkle_spot_checks(mtree, l_mtree)
+    branches = self.compute_merkle_spot_checks(
+        mtree, l_mtree, samples=self.spot_check_security_factor)
 
     fri = FRI(self.field)
     # Return the Merkle roots of P and D, the spot check Merkle
-- 
2.43.0


From 973f074d9c0a44516524f2d3075037f973481150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 32/53] fix: the APR boundary polynomials of a register used
 the constraints of every register

---
 starks/apr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index b56e502..c0b50a1 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -212,6 +212,8 @@ class APR(object):
     for w in range(self.width):
       accum = self.polysOver([self.basePolys(1)])
       for (i, j, alpha) in B:
+        if j != w:
+          continue
         # x - g**i % zeta
         term = x - self.polysOver([((g**i) % self.zeta)])
         accum = accum * term
@@ -231,8 +233,8 @@ class APR(object):
     accums = []
     g = self.basePolys([0, 1])
     for w in range(self.width):
-      xs = [(g**i) % self.zeta for (i, _, _) in B]
-      ys = [alpha for (_, _, alpha) in B]
+      xs = [(g**i) % self.zeta for (i, j, _) in B if j == w]
+      ys = [alpha for (_, j, alpha) in B if j == w]
       # TODO(rbharath): This interpolation call is broken!
       interp = lagrange_interp(self.field, xs, ys)
       accums.append(interp)
-- 
2.43.0


From 87e9394836bef275a250468ecaa7859187dda973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 33/53] fix: steps of the trace shared rows of the APR: zeta
 has degree t, where T = 2^t - 1

---
 starks/apr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index c0b50a1..6e32e1b 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -63,7 +63,8 @@ class APR(object):
 
     # Some constants
     T = air.steps
-    self.t = int(math.log(T, 2))
+    # T = 2^t - 1
+    self.t = T.bit_length()
     # chosen so deg(C) <= 2^d
     # Setting to arbitrary value for now.
     self.d = int(math.log(self.air.CDegree, 2))+1
@@ -75,7 +76,7 @@ class APR(object):
     self.polysOver = polynomials_over(self.field).factory
     self.Tau = list(range(self.width))
     # Element of (Z/2[g]/h(g))
-    self.zeta = generate_primitive_polynomial(modulus, self.width)
+    self.zeta = generate_primitive_polynomial(modulus, self.t)
     # Neighbors
     self.Nbrs = self.construct_neighbors(self.Tau, self.zeta, g, self.polysOver)
 
@@ -269,8 +270,8 @@ class APR(object):
     w_apr = []
     g = self.basePolys([0, 1])
     for (w_air_j, Z_B_j, E_B_j) in zip(w_air, Z_boundary, E_boundary):
-      xs = [g**i % self.zeta for i in range(2**self.t)]
-      ys = [w_air_j[i] for i in range(2**self.t)]
+      xs = [g**i % self.zeta for i in range(2**self.t - 1)]
+      ys = [w_air_j[i] for i in range(2**self.t - 1)]
       Q_j = draw_random_interpolant(2**(self.k+self.t), xs, ys)
       # TODO(rbharath): How does this division work? These are multivariate polynomials I think.
       w_apr_j = (Q_j - E_B_j)/Z_B_j
-- 
2.43.0


From f214791b90bee98bad6d165bf0487769884abe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 34/53] fix: the APR's L and Lcmp are affine spaces over Z/2,
 not over the field

---
 starks/apr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index 6e32e1b..7d7f07f 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -134,13 +134,13 @@ class APR(object):
     """Constructs the affine space L"""
     basis = [g**i for i in range(1 + self.k + self.R + self.t + self.d)] + [g**(1+self.k+self.R+self.t+self.d)*(1+g)]
     shift = g**(1+self.k+self.R+self.t+self.d)
-    return AffineSpace(self.field, basis, shift)
+    return AffineSpace(self.field.base_field, basis, shift)
 
   def construct_L_cmp(self,g):
     """Constructs the affine space Lcmp"""
     basis = [g**i for i in range(1 + self.k + self.R + self.t + self.d)]
     shift = g**(1+self.k+self.R+self.t+self.d)
-    return AffineSpace(self.field, basis, shift)
+    return AffineSpace(self.field.base_field, basis, shift)
 
   def compute_rho_js(self, Z_boundaries, L):
     """Computes rho_j
-- 
2.43.0


From c449c8230d3016cb89167833364e29b901bf907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:28 +0000
Subject: [PATCH 35/53] fix: do not commit to the leading bits of an integer
 that does not fit

---
 misc/commitment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index b51a538..11351b6 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -86,6 +86,8 @@ class BBSIntCommitmentScheme(CommitmentScheme):
   def commit(self, integer):
     # first pad bits to desired length
     integer = bin(integer)[2:].zfill(len(self.schemes))
+    if len(integer) > len(self.schemes):
+      raise ValueError("The integer does not fit in %d bits" % len(self.schemes))
     bits = [int(bit) for bit in integer]
     return [scheme.commit(bit) for scheme, bit in zip(self.schemes, bits)]
 
-- 
2.43.0


From 81334af86403152a3f0a81f442acdc604a909636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:04 +0000
Subject: [PATCH 36/53] fix: STARKs of ten or more registers

---
 starks/stark.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 2078376..3c015ed 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -119,8 +119,7 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
     byte_list = [b'0x01', b'0x02', b'0x03', b'0x04']
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-  # Is the < 10 restriction needed
-  elif num < 10:
+  else:
     byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-- 
2.43.0


From f60543f82ebb6bf5e7d32d687c672ef6b1d75c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 37/53] fix: STARKs over prime fields in which 7 is a square

---
 starks/stark.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index 3c015ed..0e7657c 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -212,8 +212,13 @@ class STARK(object):
       modulus = self.field.p
       # TODO(rbharath): Perhaps these should be roots of the primitive
       # polynomials in the full-fledged starks.
+      # A quadratic non-residue, so that the roots of unity have full order
+      non_residue = field(7)
+      while non_residue**((modulus - 1) // 2) != field(-1):
+        non_residue = non_residue + field(1)
+
       # Root of unity such that x^precision=1
-      self.G2 = field(7)**((modulus - 1) // self.precision)
+      self.G2 = non_residue**((modulus - 1) // self.precision)
 
       # Root of unity such that x^steps=1
       self.G1 = self.G2**extension_factor
-- 
2.43.0


From d06df370130708b20660a613f46da9e8da17e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 38/53] fix: the length told with the chain is that of the
 chain told

---
 misc/run_blockchain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index a631711..12f8a47 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -75,9 +75,11 @@ def new_transaction():
 
 @app.route('/chain', methods=['GET'])
 def full_chain():
+  # Blocks may be mined while the response is made
+  chain = list(blockchain.chain)
   response = {
-      'chain': blockchain.chain,
-      'length': len(blockchain.chain),
+      'chain': chain,
+      'length': len(chain),
   }
   return jsonify(response), 200
 
-- 
2.43.0


From bad87b85d92a1714fe6ab04a7eb08812c8dc4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:48 +0000
Subject: [PATCH 39/53] fix: do not truncate fractions to integers modulo p

---
 starks/modp.py           | 4 ++++
 starks/rationals_modp.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/starks/modp.py b/starks/modp.py
index 437594f..3cdab90 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -3,6 +3,8 @@
 Adapted from https://github.com/j2kun/finite-fields
 """
 
+from numbers import Number
+
 from starks.euclidean import extended_euclidean_algorithm
 from starks.numbertype import FieldElement
 from starks.numbertype import memoize
@@ -32,6 +34,8 @@ def IntegersModP(p):
       try:
         if isinstance(n, bytes):
           self.n = int.from_bytes(n, 'big') % IntegerModP.p
+        elif not isinstance(n, int) and isinstance(n, Number) and n != int(n):
+          raise TypeError("%s is not an integer" % n)
         else:
           self.n = int(n) % IntegerModP.p
       except:
diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index a6c7a72..91cb8e8 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -3,6 +3,8 @@
 Q/p is the field of fractiosn over Z/p. This is canonically isomorphic to Z/p
 but can be useful to have a separate representation for experimentation.
 """
+from numbers import Number
+
 from starks.euclidean import gcd
 from starks.numbertype import FieldElement
 from starks.numbertype import memoize
@@ -32,6 +34,8 @@ def RationalsModP(p):
         if isinstance(m, bytes):
           num = int.from_bytes(m[:32], 'big') % RationalModP.p
           den = int.from_bytes(m[32:], 'big') % RationalModP.p
+        elif any(not isinstance(x, int) and isinstance(x, Number) and x != int(x) for x in (m, n)):
+          raise TypeError("%s/%s is not a quotient of integers" % (m, n))
         else:
           num = int(m) % RationalModP.p
           den = int(n) % RationalModP.p
-- 
2.43.0


From 516131a6b500c870d5d687b516834e0b5874b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:13 +0000
Subject: [PATCH 40/53] fix: Moore construction ignored the shift of an affine
 space

---
 starks/poly_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index a0b6f50..f2ce52e 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -100,6 +100,8 @@ def construct_affine_vanishing_polynomial_Moore(field: Field, aff: AffineSpace)
   for j in range(len(b)):
     coefficients[2**j] = -kernel[j]
   coefficients[2**len(b)] = field(1)
+  # A shifted space is where it takes the value it has at the shift
+  coefficients[0] = -polysOver(coefficients)(field(aff.shift))
   return polysOver(coefficients)
 
 def gauss(M, row, field):
-- 
2.43.0


From 75eb652bcd408a0911cf3f643e4b1fb4e328e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:00 +0000
Subject: [PATCH 41/53] fix: negative and very large powers of field elements

Negative powers of elements of Z/p were silently those of a positive power,
those in extension fields (and exponents of 500 bits) exhausted the stack, and
fractional exponents there gave None.  All fields now share the iterative
square-and-multiply, with negative powers being powers of the inverse.
---
 starks/finitefield.py | 9 ---------
 starks/numbertype.py  | 7 +++++++
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index fbcb8fc..4a4a345 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -109,15 +109,6 @@ def FiniteField(p, m, polynomialModulus=None):
     def __ne__(self, other):
       return not self == other
 
-    def __pow__(self, n):
-      if n == 0: return Fq([1])
-      if n == 1: return self
-      if n % 2 == 0:
-        sqrut = self**(n // 2)
-        return sqrut * sqrut
-      if n % 2 == 1: return (self**(n - 1)) * self
-
-    #def __pow__(self, n): return Fq(pow(self.poly, n))
     def __neg__(self):
       return Fq(-self.poly)
 
diff --git a/starks/numbertype.py b/starks/numbertype.py
index dbed4b3..51e0352 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -85,6 +85,8 @@ class DomainElement(object):
   def __pow__(self, n):
     if type(n) is not int:
       raise TypeError
+    if n < 0:
+      raise ValueError("Only invertible elements have negative powers.")
 
     Q = self
     R = self if n & 1 else self.__class__(1)
@@ -126,6 +128,11 @@ class DomainElement(object):
 # additionally require inverse() on subclasses
 class FieldElement(DomainElement):
 
+  def __pow__(self, n):
+    if type(n) is int and n < 0:
+      return self.inverse()**-n
+    return super().__pow__(n)
+
   def __truediv__(self, other):
     return self * other.inverse()
 
-- 
2.43.0


From 5638498f3212c2dcdf80bf6fd45136797bab95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:00 +0000
Subject: [PATCH 42/53] fix: powmod returned small powers without reducing them

---
 starks/numbertype.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index 51e0352..359a4b5 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -106,9 +106,11 @@ class DomainElement(object):
     """requires the additional % operator (i.e. a Euclidean Domain)"""
     if type(n) is not int:
       raise TypeError
+    if n < 0:
+      raise ValueError("Only nonnegative modular powers are computed.")
 
-    Q = self
-    R = self if n & 1 else self.__class__(1)
+    Q = self % modulus
+    R = Q if n & 1 else self.__class__(1) % modulus
 
     i = 2
     while i <= n:
-- 
2.43.0


From cf694b318c5a437ffb212ae69a83f913a1c175f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:32 +0000
Subject: [PATCH 43/53] fix: is_a_power_of_2 ran out of stack on powers of 1000
 and more bits

---
 starks/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starks/utils.py b/starks/utils.py
index cba469d..b5f763d 100644
--- a/starks/utils.py
+++ b/starks/utils.py
@@ -91,4 +91,6 @@ def get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=0):
 
 
 def is_a_power_of_2(x):
-  return True if x == 1 else False if x < 1 or x % 2 else is_a_power_of_2(x // 2)
+  while x > 1 and x % 2 == 0:
+    x //= 2
+  return x == 1
-- 
2.43.0


From a5d4aba0969d2c372133cec052fdbc7b4f2804d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:32 +0000
Subject: [PATCH 44/53] fix: embedding or projecting the zero polynomial gave
 an integer

---
 starks/poly_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index f2ce52e..94a1872 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -35,7 +35,7 @@ def make_multivar(poly: Poly, i: int, field: Field, width: int) -> MultiVarPoly:
   post = (0,) * (width - (i+1))
   index = pre + (1,) + post
   X_i = polysOver({index: field(1)})
-  up_poly = 0
+  up_poly = polysOver({})
   for degree, coeff in enumerate(poly.coefficients):
     up_poly += coeff * X_i**degree
   return up_poly
@@ -46,7 +46,7 @@ def project_to_univariate(multivar_poly: MultiVarPoly, i: int, field: Field, wid
   multiVarsOver = multivars.factory
   polysOver = polynomials_over(multivars).factory
   X = polysOver([0, 1])
-  out = 0 
+  out = polysOver([])
   for (term, coeff) in multivar_poly:
     # Remove i-th variable 
     term_minus_i = term[:i] + term[i+1:]
-- 
2.43.0


From c5ca15c727c4a5339025caf5ac232357ce3c38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:34 +0000
Subject: [PATCH 45/53] fix: one unreachable or nonsensical neighbour kept
 every other from being heard

An exception while asking a neighbour, or while checking a malformed chain,
ended the resolution of conflicts, whatever the other neighbours offered.
---
 misc/blockchain.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 408153e..352a797 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -69,6 +69,27 @@ class Blockchain:
 
     return True
 
+  @staticmethod
+  def offered_chain(response):
+    """
+    The chain in the answer of a node, empty if the answer makes no sense
+
+    :param response: Answer to a request for the chain
+    :return: <list> A list of blocks
+    """
+
+    try:
+      chain = response.json()['chain']
+    except (ValueError, LookupError, TypeError):
+      return []
+
+    if not isinstance(chain, list) or not all(
+        isinstance(block, dict) and 'proof' in block and
+        'previous_hash' in block for block in chain):
+      return []
+
+    return chain
+
   def resolve_conflicts(self):
     """
     This is our consensus algorithm, it resolves conflicts
@@ -86,10 +107,14 @@ class Blockchain:
 
     # Grab and verify the chains from all the nodes in our network
     for node in neighbours:
-      response = requests.get(f'http://{node}/chain')
+      try:
+        response = requests.get(f'http://{node}/chain')
+      except requests.RequestException:
+        # The others are still to be heard
+        continue
 
       if response.status_code == 200:
-        chain = response.json()['chain']
+        chain = self.offered_chain(response)
         # The length a node claims for its chain is not to be trusted
         length = len(chain)
 
-- 
2.43.0


From 1eb41a2808a8017cb022e3f240702eee4c81ebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:03 +0000
Subject: [PATCH 46/53] fix: a malformed registration of nodes was carried out
 in part

A text in place of the list registered its characters, and an invalid address
was refused only after those before it had been registered.
---
 misc/run_blockchain.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 12f8a47..cc1be56 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -89,7 +89,15 @@ def register_nodes():
   values = request.get_json()
 
   nodes = values.get('nodes')
-  if nodes is None:
+  if not isinstance(nodes, list):
+    return "Error: Please supply a valid list of nodes", 400
+
+  # Either all of the nodes are registered or none
+  trial = Blockchain()
+  try:
+    for node in nodes:
+      trial.register_node(node)
+  except (ValueError, TypeError):
     return "Error: Please supply a valid list of nodes", 400
 
   for node in nodes:
-- 
2.43.0


From 0dda498ef253017461e94b876b79043cd04eac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:47 +0000
Subject: [PATCH 47/53] fix: a modulus of another degree silently made a field
 of another size

FiniteField(2, 3, x^2 + x + 1) claimed eight elements and had four.
---
 starks/finitefield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 4a4a345..9e41420 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -60,6 +60,8 @@ def FiniteField(p, m, polynomialModulus=None):
   if polynomialModulus is not None:
     if not is_irreducible(polynomialModulus, p):
       raise ValueError("Must provide an irreducible polynomial as modulus.")
+    if polynomialModulus.degree() != m:
+      raise ValueError("The degree of the modulus must be %d." % m)
   Zp = IntegersModP(p)
   if m == 1:
     return Zp
-- 
2.43.0


From d12d1583098df70215266bc47bdbc360dec2f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:12 +0000
Subject: [PATCH 48/53] fix: transforms of more coefficients than roots of
 unity were silently wrong

---
 starks/fft.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/starks/fft.py b/starks/fft.py
index 7d8ff28..ccef20a 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -314,12 +314,22 @@ def _fft(vals: List[FieldElement], roots_of_unity: FieldElement) -> List[FieldEl
     o[i + len(L)] = (x - y_times_root)
   return o
 
+def _fold(vals: List[FieldElement], order: int) -> List[FieldElement]:
+  """Reduces coefficients modulo x^order - 1, which keeps the values at the roots of unity of that order."""
+  if len(vals) <= order:
+    return vals
+  return [sum(vals[i::order]) for i in range(order)]
+
 def fft_1d(field: Field, vals: List[FieldElement], modulus: int, root_of_unity: FieldElement, inv: bool = False) -> List[FieldElement]:
   """Computes FFT for one dimensional inputs"""
   # Build up roots of unity
   rootz = [field(1), root_of_unity]
   while rootz[-1] != field(1):
     rootz.append((rootz[-1] * root_of_unity))
+  if len(vals) > len(rootz) - 1:
+    if inv:
+      raise ValueError("There are more values than powers of the root of unity")
+    vals = _fold(vals, len(rootz) - 1)
   # Fill in vals with zeroes if needed
   if len(rootz) > len(vals) + 1:
     vals = vals + [0] * (len(rootz) - len(vals) - 1)
@@ -337,6 +347,8 @@ def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: Field
   rootz = [1, root_of_unity]
   while rootz[-1] != 1:
     rootz.append((rootz[-1] * root_of_unity))
+  a = _fold(a, len(rootz) - 1)
+  b = _fold(b, len(rootz) - 1)
   if len(rootz) > len(a) + 1:
     a = a + [0] * (len(rootz) - len(a) - 1)
   if len(rootz) > len(b) + 1:
-- 
2.43.0


From 3ebdf995b4509bd5f25f470a3700003039146c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:32 +0000
Subject: [PATCH 49/53] fix: Merkle branches were opened and accepted at
 indices outside of the tree

---
 starks/merkle_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index 39f07ef..e5ec95e 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -29,6 +29,7 @@ def get_index_in_permuted(x, L):
   Useful to find the location of an index in original list
   in Merkle tree.
   """
+  assert 0 <= x < L
   ld4 = L // 4
   return x // ld4 + 4 * (x % ld4)
 
-- 
2.43.0


From 55bd369f3a54ce4be8ba0060e19015e5120b9473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:52 +0000
Subject: [PATCH 50/53] fix: a float modulus made the field compute in floats,
 for later integer callers too

---
 starks/numbertype.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index 359a4b5..6179db3 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -2,6 +2,7 @@
 These classes help speed up field computations by caching and introduce some useful types.
 """
 import inspect
+from numbers import Number
 from typing import List
 
 
@@ -29,10 +30,17 @@ def memoize(f):
     # the same values must name the same class and different values another.
     bound = signature.bind(*args, **kwargs)
     bound.apply_defaults()
+    # The first spelling of a number names the class for all the others, so
+    # floats that equal integers must not be the ones it computes with
+    for name, value in bound.arguments.items():
+      if isinstance(value, Number):
+        if value != int(value):
+          raise TypeError("%s is not an integer" % value)
+        bound.arguments[name] = int(value)
     key = tuple(_memo_key(value) for value in bound.arguments.values())
     if key not in cache:
       # Concurrent callers must agree on a single class, so the first one wins
-      cache.setdefault(key, f(*args, **kwargs))
+      cache.setdefault(key, f(*bound.args, **bound.kwargs))
     return cache[key]
 
   memoizedFunction.cache = cache
-- 
2.43.0


From 38b39f3928e342eaa888be4f4129d61b52e1cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:52 +0000
Subject: [PATCH 51/53] fix: a new transaction was announced for another block
 than the one that holds it

---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 352a797..2098ec2 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -169,7 +169,7 @@ class Blockchain:
         'amount': amount,
     })
 
-    return self.last_block['index'] + 1
+    return len(self.chain) + 1
 
   @property
   def last_block(self):
-- 
2.43.0


From f32eb73e051ca555a95f46679088ed2ac754d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:52 +0000
Subject: [PATCH 52/53] fix: drawing indices from a bytearray of entropy
 changed it

---
 starks/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/utils.py b/starks/utils.py
index b5f763d..78b6cff 100644
--- a/starks/utils.py
+++ b/starks/utils.py
@@ -72,7 +72,7 @@ def get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=0):
   # expands data to have necessary length. Think of this as an
   # entropy expansion step.
   while len(data) < 4 * count:
-    data += blake(data[-32:])
+    data = data + blake(data[-32:])
   if exclude_multiples_of == 0:
     return [
         int.from_bytes(data[i:i + 4], 'big') % modulus
-- 
2.43.0


From 8a359287d1598ab740b9a2808162e3b576d258c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:59 +0000
Subject: [PATCH 53/53] fix: a neighbour that never answered kept the consensus
 waiting forever

---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 2098ec2..01464ba 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -108,7 +108,7 @@ class Blockchain:
     # Grab and verify the chains from all the nodes in our network
     for node in neighbours:
       try:
-        response = requests.get(f'http://{node}/chain')
+        response = requests.get(f'http://{node}/chain', timeout=10)
       except requests.RequestException:
         # The others are still to be heard
         continue
-- 
2.43.0

