"""The properties, in one place."""

REAL = ("Every case in the stated bounds is executed on the code in /repo and compared with an independent reference "
        "model (mc/ref.py and the module of the property); nothing is sampled. Trusted: CPython, the reference model, "
        "and the bounds: larger sizes are covered only by the boundary families named in the evidence. ")
EX = "stateless model checking of the real code: bounded-exhaustive enumeration of %s against a reference model"
NOTES = ("All checks run the real code of /repo's working tree in-process; models are reference oracles compared with it "
         "on every explored transition, so no separate conformance step is needed. No hooks in /repo are used.")
NOT_APPLICABLE = []


def P(id, title, statement, all, why, files, mech, tech, over=("inputs",), note=""):
  return dict(id=id, title=title, statement=statement, over=list(over), all=all, why=why,
              files=files, mech=mech, tech=tech, note=REAL + note)


PROPS = [
    P("C01", "Integers modulo a prime form a field",
      "For every prime p, integers modulo p are always held reduced, and +, -, unary -, *, /, **, inverse, == and != "
      "agree with arithmetic modulo p, whatever integers (any sign or size) or encoded bytes they were built from; ** takes every integer exponent, "
      "a negative power being the power of the inverse. Division "
      "by zero, a negative power of zero and exponents that are no integers are refused rather than answered. Using one prime's field never disturbs the results of another.",
      "all primes, all pairs of elements, all integers used to construct them, all sequences of operations",
      "The tests look at a dozen sums and products modulo 2, 5, 7 and 23; the laws must hold for every pair in every field, "
      "including 256 bit ones and elements built from unreduced or negative integers.",
      ["starks/modp.py", "starks/numbertype.py", "starks/euclidean.py"],
      [("IntegersModP", "starks/modp.py"), ("DomainElement/FieldElement, typecheck", "starks/numbertype.py"),
       ("extended_euclidean_algorithm", "starks/euclidean.py")],
      EX % "element pairs and operation sequences", over=["inputs", "histories"]),
    P("C02", "GF(p^m) arithmetic is the field defined by its modulus polynomial",
      "For every prime p, degree m and monic irreducible modulus, elements of GF(p^m) are always held as the canonical "
      "remainder, and +, -, unary -, *, /, **, inverse, ==, !=, and construction from integers, coefficient lists, "
      "polynomials or bytes agree with arithmetic modulo that polynomial, ** for every integer exponent, negative ones included. Division by zero is refused. This holds too when "
      "the modulus is left for the library to choose, and when several fields are used in turn.",
      "all fields, all moduli, all pairs of elements, all random choices made while picking a modulus",
      "The tests check a few products in GF(4), GF(8) and GF(2^17); the field laws quantify over all pairs, moduli and the "
      "random draws that pick a modulus.",
      ["starks/finitefield.py", "starks/polynomial.py", "starks/euclidean.py", "starks/poly_utils.py"],
      [("FiniteField", "starks/finitefield.py"), ("polynomial division", "starks/polynomial.py"),
       ("generate_irreducible_polynomial", "starks/poly_utils.py")],
      EX % "element pairs, moduli, random choices and operation sequences", over=["inputs", "histories"]),
    P("C03", "Rationals modulo p agree with the field of fractions modulo p",
      "A fraction m/n with n not divisible by the prime p always behaves as the residue m * n^-1 modulo p: + - * /, ** with any integer exponent, "
      "unary minus, inverse, == and != agree with arithmetic modulo p however the fraction is written "
      "(negative, unreduced or large numerators and denominators, or encoded bytes). It is always held reduced and in lowest terms, and "
      "division by zero is refused.",
      "all primes, all pairs of fractions",
      "The tests exercise a handful of fractions modulo 7; equal residues have unboundedly many spellings.",
      ["starks/rationals_modp.py", "starks/euclidean.py", "starks/numbertype.py"],
      [("RationalsModP", "starks/rationals_modp.py")],
      EX % "pairs of fractions and operation sequences", over=["inputs", "histories"]),
    P("C04", "Univariate polynomials form a Euclidean ring that evaluates consistently",
      "Polynomials over any of the fields are always held without trailing zero coefficients, and +, -, *, unary -, ==, "
      "nonnegative powers, degree, leading coefficient, evaluation and composition agree with coefficient arithmetic in that field; negative powers are refused. Division "
      "with remainder returns the unique quotient and remainder with a = q*b + r and deg r < deg b, and refuses a zero "
      "divisor. Evaluating a sum or product at a point equals the sum or product of the evaluations.",
      "all pairs of polynomials over all fields, all evaluation points",
      "The tests divide and multiply a few polynomials; the identities quantify over every pair and every point, including "
      "products with internal cancellation and zero, constant or sparse operands.",
      ["starks/polynomial.py", "starks/numbertype.py"],
      [("polynomials_over", "starks/polynomial.py"), ("strip", "starks/polynomial.py")],
      EX % "polynomial pairs, points and operation sequences", over=["inputs", "histories"]),
    P("C05", "gcd, the extended Euclidean algorithm and modular powers are exact",
      "For any two integers that are not both zero, or any two polynomials over a finite field, the gcd divides both and is "
      "divisible by every common divisor, and the extended algorithm returns x, y and d with x*a + y*b = d and d a greatest "
      "common divisor. The order of the arguments changes the answer by at most a unit factor. A modular power of a polynomial is the remainder of "
      "that power by the modulus, whatever the exponent, and negative exponents are refused.",
      "all pairs of integers and of polynomials over all fields",
      "The tests evaluate two or three pairs; every inversion in every field rests on all of them.",
      ["starks/euclidean.py", "starks/numbertype.py"], [("gcd, extended_euclidean_algorithm", "starks/euclidean.py"), ("powmod", "starks/numbertype.py")],
      EX % "argument pairs"),
    P("C06", "Multivariate polynomials form a ring with sound division",
      "Multivariate polynomials over any of the fields are held without zero terms, and +, -, *, unary -, ==, nonnegative powers (negative ones are refused), degree, "
      "evaluation at a point and substitution of polynomials agree with term-by-term arithmetic in that field. Dividing a by b "
      "gives a quotient q such that no term of a - q*b is divisible by the leading term of b, hence exactly a/b whenever b divides a, and refuses a zero divisor. Evaluation is a ring homomorphism.",
      "all pairs of multivariate polynomials, all points, all substitutions",
      "The tests add and multiply a few polynomials over Z/7 and GF(4).",
      ["starks/multivariate_polynomial.py"], [("multivariates_over", "starks/multivariate_polynomial.py")],
      EX % "polynomial pairs, points and operation sequences", over=["inputs", "histories"]),
    P("C07", "Mixing integers, field elements and polynomials is exact or refused",
      "An arithmetic operation or comparison between a field element or polynomial and a plain integer, or between a polynomial and an "
      "element of its field, on either side, gives exactly the result of first "
      "converting the simpler operand into the richer type. Operands that cannot be converted - other objects, numbers that are no integers, elements of an unrelated extension field, of a "
      "field other than a polynomial's own, polynomials in other variables - are refused or compare unequal; they never yield a number.",
      "all operand pairs, both operand orders, all operations",
      "The tests mix a few small integers on one side; the coercion rules are a table over types, sides and operators.",
      ["starks/numbertype.py", "starks/modp.py", "starks/finitefield.py", "starks/polynomial.py",
       "starks/multivariate_polynomial.py"],
      [("typecheck, operatorPrecedence", "starks/numbertype.py")],
      EX % "operand pairs over every type, side and operator"),
    P("C08", "Irreducible and primitive polynomials are recognised and generated correctly",
      "A monic polynomial over Z/p is declared irreducible exactly when it has no proper factors, and declared primitive "
      "exactly when it is irreducible and x generates the multiplicative group of the field it defines. Generated irreducible or "
      "primitive polynomials are monic, of the requested degree, and satisfy the test, whatever the random draws. A "
      "finite field is never built on a reducible modulus or one of another degree.",
      "all monic polynomials, all random draws of the generators, all requested fields",
      "The tests ask about a few polynomials over Z/2; both predicates are wrong only on rare polynomials when broken.",
      ["starks/poly_utils.py", "starks/finitefield.py"],
      [("is_irreducible, is_primitive, generate_*", "starks/poly_utils.py"), ("FiniteField modulus check", "starks/finitefield.py")],
      EX % "polynomials and random-choice sequences", over=["inputs", "histories"]),
    P("C09", "Asking twice for the same algebraic structure gives the same structure",
      "Requesting the same field or polynomial ring more than once, from any number of threads, gives classes whose "
      "elements interoperate, and different parameters - given by position or by name - give different structures with their "
      "own arithmetic. A number of another type that equals a parameter is refused or names that same structure, which computes with integers. "
      "This holds for every order of requests and every interleaving of the threads that make them.",
      "all sequences of requests in all spellings, all thread schedules",
      "The tests create each field once in one thread; class identity depends on the history of requests and on races in "
      "the cache of classes.",
      ["starks/numbertype.py", "starks/modp.py", "starks/finitefield.py", "starks/polynomial.py",
       "starks/multivariate_polynomial.py", "starks/rationals_modp.py"],
      [("memoize", "starks/numbertype.py")],
      "stateless model checking: all request histories to a depth and all thread schedules to a preemption bound on the real code",
      over=["histories", "schedules"],
      note="Thread switches are explored at source line boundaries of the package."),
    P("C10", "Algebraic values are immutable and operations do not depend on history",
      "No operation on field elements, polynomials, multivariate polynomials or floating point numbers, and none of the algebra helpers "
      "(interpolation, transforms, gcd, vanishing polynomials, batch inversion, Merkle trees, compression, ...; elimination, which works in place, apart), changes its operands, the lists "
      "passed to it, or any earlier result, and an object built from a list or dictionary keeps its value whatever the caller then does with that container. The result of an operation is therefore the same at every point of a session.",
      "all sequences of operations on shared operands",
      "Every test works on fresh objects and never looks at an operand again.",
      ["starks/numbertype.py", "starks/polynomial.py", "starks/multivariate_polynomial.py", "starks/finitefield.py",
       "starks/poly_utils.py", "starks/fft.py", "starks/floatingpoint.py", "starks/merkle_tree.py"],
      [("operators that build new values", "starks/polynomial.py"), ("_fft, fft_1d", "starks/fft.py")],
      "stateless model checking: all operation sequences to a depth over shared operands on the real code, every value observed after each step",
      over=["histories", "inputs"]),
    P("C11", "Interpolation, vanishing polynomials and batch inversion are exact",
      "Interpolating any distinct points returns the unique polynomial of degree below their number through all of them; "
      "the special two point, four point and batched four point forms agree with it. The vanishing polynomial of a list of roots is the monic product "
      "of the linear factors, and batch inversion returns the inverse of each element, with zeros left as zero.",
      "all point sets, value lists, root lists and batches, over all fields",
      "The tests interpolate a few point sets; zero values, unsorted points and zeros among batched inverses only show for "
      "particular inputs.",
      ["starks/poly_utils.py"],
      [("lagrange_interp*, multi_interp_4, zpoly, multi_inv", "starks/poly_utils.py")],
      EX % "point sets, values and batches"),
    P("C12", "Fast Fourier transforms evaluate, invert and multiply exactly",
      "The transform of a polynomial of any length is its list of values at the successive powers of that "
      "root, over prime and extension fields. The inverse transform recovers the unique polynomial shorter than the order of the root with those values, more values than that are refused, and transform "
      "based multiplication gives the product of the two polynomials reduced modulo x^n - 1, where n is the order of the root.",
      "all polynomials, value lists and roots of unity over all domains",
      "The tests transform one or two polynomials on one domain each.",
      ["starks/fft.py"], [("_fft, _simple_ft, fft_1d, mul_polys, NonBinaryFFT, BinaryFFT", "starks/fft.py")],
      EX % "polynomials, values and domains"),
    P("C13", "Affine spaces and their vanishing polynomials are exact",
      "An affine space lists every combination of its basis plus the shift exactly once when the basis is independent, in the same order on "
      "every pass, and its length is the number of listed elements. Both constructions of its vanishing polynomial give a polynomial whose "
      "degree is the size of the space and which is zero at exactly the elements of the space.",
      "all bases, shifts and scalar fields",
      "The tests build two spaces and compare one vanishing polynomial.",
      ["starks/reedsolomon.py", "starks/poly_utils.py"],
      [("AffineSpace", "starks/reedsolomon.py"), ("construct_affine_vanishing_polynomial*", "starks/poly_utils.py")],
      EX % "bases, shifts and field points"),
    P("C14", "Merkle trees commit to every leaf and open at every index",
      "For every list of values whose length is a power of two (at least four), the branch opened at any index verifies against the root and "
      "yields the value at that index, the root depends on every leaf, and the tree is the same each time it is built. An integer that "
      "does not fit in the 32 bytes of a leaf is never committed to as another one. "
      "Packing the evaluations of polynomials into leaves loses nothing: unpacking an opened leaf returns exactly the packed values.",
      "all lists of values and all indices",
      "The tests open a few indices of one tree.",
      ["starks/merkle_tree.py"],
      [("permute4, merkelize, mk_branch, verify_branch, unpack_merkle_leaf", "starks/merkle_tree.py")],
      EX % "leaf lists and indices"),
    P("C15", "Tampered Merkle openings are rejected",
      "A branch verifies only for the root, index and leaf it was opened for: after any change to one component of an honest branch - a bit "
      "flip, replacement by any other node, loss, duplication or exchange of components - or "
      "for any other index of the tree or another tree's root, verification fails or yields the honest value at that index. The leaf value handed "
      "back by a successful verification is never anything but the committed one.",
      "all single faults in all branches of all trees",
      "The tests verify honest branches only; a verifier that skips a level or a direction bit passes them all.",
      ["starks/merkle_tree.py"], [("verify_branch, get_index_in_permuted", "starks/merkle_tree.py")],
      "exhaustive fault enumeration (model checking over all single tamperings of every honest branch) on the real verifier",
      over=["fault_sequences", "inputs"],
      note="Assumes blake2s has no collisions among the explored inputs; multi-component forgeries with rebuilt hashes are outside the statement."),
    P("C16", "Proof compression is lossless",
      "Compressing and then decompressing any list of Merkle branches, or any low degree proof made of layers of branches and a "
      "final list of values, returns exactly the original, provided no payload is two bytes long or equal to one of the four separators of the encoding. This holds for any mix of "
      "repeated payloads, any number of distinct payloads and any other payload length.",
      "all proofs and branch lists, all repetition patterns, all sizes",
      "The module's tests do not run; back references change width at 256 and 65536 entries, which a small proof never reaches.",
      ["starks/compression.py"],
      [("compress_fri, decompress_fri, compress_branches, decompress_branches", "starks/compression.py")],
      EX % "proof shapes, payloads and sizes",
      note="Payloads that are two bytes long or equal a byte marker cannot be represented by the format and are outside the statement."),
    P("C17", "Pseudorandom query indices are deterministic, in range and avoid the excluded",
      "From given entropy, exactly the requested number of indices is drawn, all below the modulus, none a multiple of the "
      "excluded stride, the same on every call, and the entropy is left as it was. Every admissible index can be drawn, and the entropy read decides the outcome. A range "
      "too wide for the sampled words is refused.",
      "all entropies, moduli, counts and excluded strides",
      "No test calls the sampler with an excluded stride and looks at the result.",
      ["starks/utils.py"], [("get_pseudorandom_indices", "starks/utils.py")],
      EX % "residues, moduli, strides and counts"),
    P("C18", "Binary word operations on GF(2^m) elements match integer arithmetic",
      "Read as m bit words, elements of GF(2^m), m > 1, are ordered (at most) as the integers they spell, their word addition is the integer sum reduced by the field's "
      "modulus polynomial, and raising two to a word gives the field's element x to the power of that integer.",
      "all pairs of words, all moduli",
      "The tests compare and add a few words of one field.",
      ["starks/finitefield.py"], [("LT, Regular_Binary_Addition, two_pow, add_binary_nums", "starks/finitefield.py")],
      EX % "pairs of words and moduli"),
    P("C19", "Floating point arithmetic over GF(2^m) follows its documented rules",
      "For well formed numbers (significand, exponent, zero flag set exactly when the significand is zero, sign), sums and differences, products, "
      "quotients, powers and the conversion to fixed point give exactly the significand, exponent, zero flag and sign that the documented rules "
      "prescribe: adding zero changes nothing, a sum takes the sign of the larger operand and drops the smaller one when the exponents differ by more than the word "
      "length, subtracting adds the negated operand, products and quotients combine signs by exclusive or. Division by zero is refused, and a number "
      "never equals one whose zero flag differs.",
      "all pairs of well formed numbers over all binary fields",
      "The tests add and multiply a few numbers and compare with an equality that ignores most of them.",
      ["starks/floatingpoint.py", "starks/finitefield.py"], [("FloatingPoint", "starks/floatingpoint.py")],
      EX % "pairs of numbers"),
    P("C20", "An AIR describes exactly the computation it was built from",
      "For every field, number of registers, step polynomials and input, the trace of an algebraic intermediate representation is the repeated "
      "application of the steps, its output and boundary constraints are the first and last rows, and its constraint polynomials vanish at a pair of states "
      "exactly when the second follows from the first, with the degrees it reports. Its circuit accepts the honest trace and rejects "
      "one with a wrong transition.",
      "all fields, computations and inputs; all states; all wrong transitions",
      "The tests build a few computations and look at sizes.",
      ["starks/air.py"], [("AIR, get_computational_trace", "starks/air.py")],
      EX % "computations, inputs, states and trace faults"),
    P("C21", "Functions on F_q^n become the polynomials they equal",
      "For every function from F_q^n to F_q the constructed polynomial takes the function's value at every point and has degree below q in every "
      "variable. The delta polynomial of a point is one there and zero elsewhere, embedding a univariate polynomial as one variable keeps its values, and "
      "projecting on a variable keeps exactly that variable's terms.",
      "all functions, points and polynomials over all small fields",
      "The tests interpolate two functions and check a coefficient or two.",
      ["starks/poly_utils.py"],
      [("construct_multivariate_*, make_multivar, project_to_univariate", "starks/poly_utils.py")],
      EX % "functions, points and polynomials"),
    P("C22", "Honest STARK proofs are accepted and commit to the derived polynomials",
      "For every computation with non-constant step polynomials, any number of registers, every input, a power of two of steps and of the extension, and every prime field with roots of unity of the order of their product, a proof made from "
      "the honest trace is accepted by the verifier. The trace, constraint, remainder and boundary polynomials it commits to are exactly those "
      "derived from the computation, the opened values are their values, and the same statement always gives the same proof.",
      "all computations, inputs and sizes",
      "No STARK test runs: the module needs a proximity prover that the repository does not provide.",
      ["starks/stark.py", "starks/merkle_tree.py", "starks/poly_utils.py"], [("STARK.mk_proof, verify_proof and helpers", "starks/stark.py")],
      EX % "computations, inputs and sizes",
      note="The proximity prover that stark.py imports does not exist in the repository (known finding); a sound stand-in that checks the exact degree takes its place."),
    P("C23", "The STARK verifier rejects proofs of false statements",
      "A proof is rejected whenever the transition or the boundary equation fails at a sampled point, when the public input, output or "
      "computation differs from the proven one, and after any single change to its root or opened branches, the loss of any of them included. An honest prover refuses to "
      "prove a trace that breaks the computation.",
      "all wrong traces, committed values, public values and single changes of a proof",
      "No STARK test runs, and a verifier that checks less accepts every honest proof.",
      ["starks/stark.py"], [("verify_proof_at_position, verify_proof", "starks/stark.py")],
      "exhaustive fault enumeration (wrong witnesses, committed values, public values, tampered proofs) on the real prover and verifier",
      over=["fault_sequences", "inputs"],
      note="The proximity prover is a stand-in, as in C22; statistical soundness against committed functions that are wrong only off the samples is outside the statement."),
    P("C24", "One round FRI commitments return the interpolant of the codeword",
      "Committing to any function on an affine space of dimension 2 or 3 at rate 1 returns the coefficients of the unique polynomial of degree "
      "below the size of the space that agrees with the function. Subspaces are spanned by the leading basis vectors, whatever the shift of the space, evaluation lists values in "
      "the order of the space, and a challenge is the element whose coefficients are the bits of the SHA-384 digest of its label, reduced.",
      "all functions, bases and labels",
      "The tests run one commitment each on one space and do not look at the coefficients.",
      ["starks/fri.py", "starks/poly_utils.py"], [("AffineSubspaceFRI.commit, select_subspace, eval_on_subspace, select_random", "starks/fri.py")],
      EX % "functions, spaces and labels",
      note="More rounds, lower rates and the query phase do not work in the repository and are known findings."),
    P("C25", "The graph isomorphism protocol is complete, sound and zero knowledge",
      "An honest prover convinces the verifier in every round, whatever both draw. The verifier accepts exactly the answers that are isomorphisms "
      "from the sent graph to the chosen one, so no sent graph can be answered for both of two non-isomorphic graphs. Simulated transcripts have exactly "
      "the distribution of real ones, and rounds are independent of each other.",
      "all graphs, isomorphisms, random draws, cheating messages",
      "The tests run single random rounds; soundness and equality of distributions quantify over every message and draw.",
      ["misc/zero_knowledge.py"], [("ZKProver, ZKVerifier, simulate_protocol", "misc/zero_knowledge.py")],
      "explicit enumeration of all random choices and all cheating messages of the protocol on the real code", over=["inputs", "histories"]),
    P("C26", "The 3-coloring protocol is complete, sound and hides the coloring",
      "A prover with a proper 3-coloring convinces the verifier on every edge, whatever both draw; with any committed values that are no proper "
      "3-coloring there is an edge no opening of which (from the range of the one-way permutation) is accepted. The revealed pair of colors is uniform over distinct "
      "pairs, and only the ends of an edge can be asked for.",
      "all graphs, colorings, random draws, committed values and openings",
      "The tests run one honest round.",
      ["misc/zkp_3_coloring.py", "misc/commitment.py"], [("ZK3ColProver, ZK3ColVerifier", "misc/zkp_3_coloring.py")],
      "explicit enumeration of all random choices, commitments and openings of the protocol on the real code", over=["inputs", "histories"]),
    P("C27", "Commitments open to the committed value and to nothing else",
      "For every secret and every bit or integer of the given length, the revealed secret verifies and decodes to the committed value. With a "
      "one-way permutation no other secret from its range, no altered or exchanged component and no opening of another length verifies. An integer too long for the scheme is refused. Secrets are drawn "
      "uniformly and independently, and neither part of a bit commitment alone depends on the bit.",
      "all permutations, predicates, secrets, values and openings",
      "The tests commit to random bits and never try a false opening.",
      ["misc/commitment.py"], [("BBSBitCommitment*, BBSIntCommitment*", "misc/commitment.py")],
      "explicit enumeration of permutations, predicates, secrets, values and openings on the real code",
      note="Binding is claimed for secrets in the range of the permutation; the negated secret is a known finding."),
    P("C28", "Primality tests and the Blum-Blum-Shub generator are correct",
      "No prime is ever called composite, and a composite is called prime only if every base drawn passes the strong pseudoprime test, of which at most a quarter "
      "of the bases from 2 to n - 2, all of which can be drawn, do. The prime search returns exactly the first drawn candidate that is prime and 3 modulo 4, and the generator "
      "squares modulo the product of two such primes, which permutes the squares.",
      "all integers, bases, random draws and moduli",
      "The tests construct one generator.",
      ["misc/primality.py", "misc/blum_blum_shub.py"], [("probablyPrime, isWitness", "misc/primality.py"), ("good_prime, make_modulus", "misc/blum_blum_shub.py")],
      "explicit enumeration of integers, bases and random choices on the real code", over=["inputs", "histories"]),
    P("C29", "The ledger keeps every transaction once and any tampering is evident",
      "After any sequence of transactions and minings, every pending transaction goes into exactly the next block, in order, blocks are numbered consecutively and linked by hash and proof of work, and the "
      "chain is valid. A chain is valid exactly when every link and proof of work holds, so any change to a block before the last, "
      "or of the order or number of inner blocks, is detected. Hashes do not depend on the order of fields and cover all of them.",
      "all histories of operations, all tamperings",
      "The only test constructs a ledger.",
      ["misc/blockchain.py"], [("Blockchain.new_block, valid_chain, valid_proof, hash", "misc/blockchain.py")],
      "stateless model checking: all operation sequences to a depth and all single and double tamperings on the real code", over=["histories", "fault_sequences"]),
    P("C30", "Consensus adopts the longest valid chain and nothing else",
      "Resolving conflicts replaces the own chain exactly when some neighbour offers a valid chain that is really longer, by one of the longest "
      "such chains, and reports truthfully; neighbours that are invalid, forged, shorter, unreachable, silent, failing, nonsensical or lying change nothing, and the others are heard all the same. In every network history chains stay valid and never "
      "shrink, and nodes that resolve in turn converge to one length. Neighbours are asked at the address they were registered with.",
      "all combinations of answers, all histories of a network",
      "No test exists.",
      ["misc/blockchain.py"], [("Blockchain.resolve_conflicts, register_node", "misc/blockchain.py")],
      "explicit-state model checking of node networks and of all combinations of neighbour answers, on the real code", over=["histories", "fault_sequences"]),
    P("C31", "Gaussian elimination solves every nonsingular system",
      "For every nonsingular square system over any field, whatever its pivots, elimination returns the unique solution; a singular system is refused rather than answered.",
      "all nonsingular matrices and right hand sides over all fields",
      "No test calls it directly; zero and non-unit pivots only show for particular matrices.",
      ["starks/poly_utils.py"], [("gauss", "starks/poly_utils.py")], EX % "matrices and right hand sides"),
    P("C32", "Byte encodings round trip and are injective",
      "Encoding an integer modulo p, an extension field element, a polynomial over a prime field or a rational modulo p as bytes and decoding it gives "
      "back an equal value. Different field elements and different polynomials have different encodings, and byte strings of an impossible length are refused.",
      "all values of all fields",
      "The tests encode one or two values.",
      ["starks/modp.py", "starks/finitefield.py", "starks/polynomial.py", "starks/rationals_modp.py"],
      [("to_bytes and constructors from bytes", "starks/modp.py")], EX % "values"),
    P("C33", "Number helpers: powers of two, power cycles, indeterminates, MiMC",
      "An integer is called a power of two exactly when it is one. The power cycle of a nonzero field element lists its "
      "successive powers from one up to, and not including, the return to one. The i-th indeterminate evaluates to the i-th coordinate, and "
      "MiMC applies x^3 + k_i modulo its 256 bit prime for each step after the first, cycling through the round constants.",
      "all integers, elements, fields and inputs",
      "The tests look at two or three values of each.",
      ["starks/utils.py"], [("is_a_power_of_2, get_power_cycle, generate_Xi_s, mimc", "starks/utils.py")], EX % "integers, elements and inputs"),
    P("C34", "The additive FFT's Taylor expansion is exact",
      "For every polynomial over Z/2 of degree below n, a power of two, held in a binary field of at least that degree, the Taylor expansion at x^2 + x lists, in order, the linear "
      "coefficients whose recombination is the polynomial.",
      "all polynomials and sizes",
      "The test expands one polynomial.",
      ["starks/fft.py"], [("Taylor_Expansion", "starks/fft.py")], EX % "polynomials",
      note="The additive transform built on it and its inverse are known findings."),
    P("C35", "The node's HTTP interface reports and changes the ledger as told",
      "After any sequence of requests, the served chain, pending transactions and neighbours are those the accepted requests "
      "call for: complete transactions are queued with the right announced block (whatever numbers the blocks of a chain taken over carry), incomplete or malformed requests change nothing and "
      "get an error status, mining puts all pending transactions and one reward into a valid new block, and resolving follows the consensus rule and answers "
      "with the resulting chain.",
      "all sequences of requests",
      "No test starts the server.",
      ["misc/run_blockchain.py", "misc/blockchain.py"], [("request handlers", "misc/run_blockchain.py")],
      "stateless model checking: all request sequences to a depth on the real server code, against a model", over=["histories"]),
    P("C36", "Concurrent requests to a node never corrupt its ledger",
      "Whatever requests are served at the same time and however their threads interleave, the chain stays valid and never gets shorter, every "
      "accepted transaction is recorded exactly once, every served chain is valid and told with its length, and the outcome is that of the same requests served one after another in some order. "
      "No interleaving makes a request fail or block forever.",
      "all thread schedules of concurrent requests",
      "No test starts the server, let alone with concurrent requests.",
      ["misc/run_blockchain.py", "misc/blockchain.py"], [("synchronized handlers, lock", "misc/run_blockchain.py"), ("resolve_conflicts", "misc/blockchain.py")],
      "stateless model checking of the real server code: all thread schedules to a preemption bound, checked for linearizability", over=["schedules"],
      note="Thread switches are explored at source line boundaries of misc/."),
    P("C37", "The APR reduction places rows, constraints and domains as specified",
      "For every AIR of 2^t - 1 steps over a binary field: the powers of g modulo the primitive zeta of degree t visit every non-zero point of H once, H is the disjoint union of "
      "the linear H0 and its coset H1, and the neighbour gx on H0, gx + zeta on H1, leads from each row to the next. For every register j, Z_{B,j} vanishes at the rows B "
      "constrains in that register and at no other, and E_{B,j}, of degree below their number, takes the required values there. L and Lcmp are affine "
      "spaces over Z/2 of the stated dimensions that avoid H, and the rates are the stated fractions of their sizes.",
      "all AIRs with 2^t - 1 steps, constraint lists and primitive polynomials",
      "The only tests of the reduction do not run: the AIR class takes no computation of the size they use.",
      ["starks/apr.py"], [("construct_Z_boundaries, construct_Eps_boundaries", "starks/apr.py"), ("construct_neighbors, construct_L", "starks/apr.py")], EX % "constraint sets, parameters and random draws",
      note="The constraint polynomials Phi and the witness of the reduction are placeholders in the code; nothing is claimed of them."),
]
