HEAD = """
# Model checking computablelabs/starks

## Approach

All of starks is sequential, deterministic Python over small algebraic domains, plus four places where a schedule, a history, an adversary or
a random draw matters: the class cache (threads), the node server (threads), the ledger and its network (histories, lying peers, tampering),
and the interactive protocols (random draws, cheating provers). Each property is decided by *explicit enumeration of executions of the real
code* within stated bounds: stateless model checking in the style of CHESS/VeriSoft. There is no translation step that could drift, and no
sampling: a chunk of a check is a finite space, walked to its end. Where a model exists (the reference algebra in `mc/ref.py`, the reference
STARK in `mc/starkref.py`, the server model in `mc/c35.py`, the ledger in `mc/chain.py`) it is the oracle, and every explored transition of
the model is replayed on the implementation at once and compared: `traces_validated_against_impl` in the evidence counts the traces compared
that way, `states` the distinct cases, `transitions` the comparisons.

What the enumeration ranges over:

- **inputs**: every element, pair, list, polynomial, matrix, graph, ... of a small domain (small primes, small extension fields under *every*
  irreducible modulus), then boundary families in large domains (256 bit primes, 2^17, 512 point transforms, 65537 entry proofs). The algebra
  is uniform in the size of the field, which is what makes small scopes telling; the families guard the places where size itself matters.
- **histories**: every sequence of operations to a depth on *shared* objects, with the value of every object observed after every step.
- **schedules**: a controlled scheduler (`mc/sched.py`) runs real threads one at a time, can switch before every source line of the package,
  knows the locks the code takes, and enumerates every schedule up to a preemption bound (2 or 3). A deadlock or a thread that never ends is a violation.
- **random draws**: the hidden generator of `random` is replaced (`env.Owned`), so every draw becomes a choice of the explorer. With all draws
  enumerated, exact distributions (as fractions) are computed, not estimated.
- **faults**: every single tampering of an opening, proof, block or commitment; every combination of answers of lying or failing neighbours.

Layout: `check` runs `mc/run.py` on one property; `mc/cNN.py` holds property CNN as a list of chunks; `mc/core.py` runs chunks in forked workers
(8 at a time, 3 GB each, each with its own time limit; a worker that is killed or hangs is a violation and not a pass), writes `evidence/CNN.json`, prints `VIOLATION` lines
with a replay file (`./check replay out/....json` reruns that chunk); `mc/env.py` binds everything to `/repo` (it asserts that the imported
package is the one in `/repo`; `misc/` modules, which import each other as `starks.*`, are loaded under that name).
`tools/gen.py` writes `properties.jsonl` and `MANIFEST.json` from `tools/props.py`; `tools/design.py` writes this file.

No hooks in `/repo` are needed: everything the checks control (randomness, threads, locks, time, the network, the difficulty of the proof of
work) is reachable by replacing module globals from outside.

A module of `/repo` that cannot be loaded any more is reported as a violation of the property that needs it.
"""

HOW = {
    "C01": "full operation tables of each small prime field against integers mod p, full construction tables from integers and bytes, all histories of three operations over shared operands, alternation of fields, and all pairs of a boundary alphabet in large fields.",
    "C02": "the same against an independent polynomial-basis reference (`ref.RF`, integers as digit strings, schoolbook reduction), for every monic irreducible modulus of each size; the library's own choice of modulus is explored over all answers to its random draws.",
    "C03": "every pair of spellings of fractions against residues; canonical form of each result checked by cross multiplication.",
    "C04": "every pair of small polynomials against list arithmetic in the reference field; division checked by uniqueness (a = qb + r, deg r < deg b) as well as against schoolbook division; degrees to 70 by families.",
    "C05": "every pair in a square of integers (both signs) against math.gcd and Bezout; every pair of small polynomials against the reference Euclid up to units; every small modular power against repeated multiplication.",
    "C06": "every pair of sparse polynomials against dictionaries of exponents; division by its specification (no term of the remainder divisible by the leading term).",
    "C07": "the table (type, type, side, operator) is enumerated completely with all values of the small structures: convertible operands against the reference in the richer type, unconvertible ones against refusal.",
    "C08": "every monic polynomial to a degree: irreducibility against a sieve of products, primitivity against the order of x by repeated multiplication; generators under all answers to their draws.",
    "C09": "request histories in every order and spelling, and all schedules of two and three requesting threads, each on a fresh prime so that the cache is cold.",
    "C10": "one shared set of operands and lists, some 130 operations, every sequence of two (three of the core); a deep snapshot of every object is compared after each step and every result with the one on fresh operands.",
    "C11": "every point set, value list and batch of the small fields against Lagrange interpolation by solving in the reference, products of linear factors, and inverses.",
    "C12": "every polynomial (longer than the domain too) and value vector on small domains and every root of unity, forward and back, against evaluation by Horner's rule; products against schoolbook multiplication reduced modulo x^n - 1.",
    "C13": "every basis (dependent ones too) and shift over small fields and extension fields: listing against all combinations, vanishing polynomials at every point of the field.",
    "C14": "every list of a small alphabet, and families of up to 1024 leaves, every index; the tree against an independent construction (`mc/merkleref.py`).",
    "C15": "every single fault of every branch of every tree of the families: each bit, each replacement, loss, exchange, wrong index, wrong root.",
    "C16": "every pattern of repetition of payloads in every small proof shape; sizes around 256 and 65536 entries, where the references change width.",
    "C17": "every residue of a drawn word for small moduli and strides (the hash is inverted by table: its output is replaced), counts to 64 and beyond, against the reference sampler; determinism and dependence on the entropy.",
    "C18": "every pair of words of fields up to GF(2^6) (GF(2^8)) under every modulus against integers.",
    "C19": "every pair of well formed numbers over GF(4) and GF(8) under all moduli against a model of the documented rules.",
    "C20": "every small computation and input against the iterated reference; constraint polynomials at every pair of states; every single wrong register at boundary steps.",
    "C21": "every function from F_q^n to F_q for the smallest q and n, families above; evaluated at every point.",
    "C22": "the real prover and verifier on every small computation and input against a reference STARK in integers: polynomials, committed values, opened branches, combination, verdict.",
    "C23": "every single wrong value in a trace, in the committed evaluations, in the public values and in the proof; a proof is accepted only if the reference's equations hold at every sampled point.",
    "C24": "every function on small spaces (values enumerated on all points) against interpolation in the reference field.",
    "C25": "all draws of both parties enumerated; exact joint distributions as fractions; every graph as cheating message with every map as answer.",
    "C26": "all draws, colourings, committed values and openings with a small explicit one-way permutation.",
    "C27": "every permutation and predicate of a small domain, secret, value and (false) opening; the real Blum-Blum-Shub functions modulo small Blum integers.",
    "C28": "every integer to a bound with every base, primes and pseudoprimes beyond; the search under all answers to its draws.",
    "C29": "every sequence of transactions and minings to a depth against a ledger model; every single and double tampering of the chains reached.",
    "C30": "every combination of neighbours' answers from a library of honest, forged, failing, unreachable, silent, nonsensical and lying ones; breadth first state space of small networks with state merging.",
    "C31": "every matrix of the small fields, singular ones refused, and families of larger shapes, against Cramer-free elimination in the reference.",
    "C32": "every element and every small polynomial: decode(encode(x)) = x, injectivity by a table of all encodings.",
    "C33": "every integer to 2^16 and around powers of two to 2^300; every element of the small fields; every input of the MiMC families.",
    "C34": "every polynomial below the size, recombined by Horner's rule in x^2 + x in the reference.",
    "C35": "every sequence of requests to a depth, sent to the real Flask application through its test client, against a model of the node.",
    "C36": "every schedule of concurrent requests up to a preemption bound; the outcome must equal that of one of the sequential orders, each executed on the same code.",
    "C37": "every set of constrained cells of small tables, every proposal for the primitive polynomial and all parameters of the families, through the real constructor; rows, zeros, values, neighbours, spans and rates against integers as bit strings.",
}

TAIL = """
## Genuine defects

The defects found on the pinned tree are in `known_findings.txt`: `fixed:` lines name the `fix:` commits (they suppress nothing), `known:` lines
are the findings that are recorded and not repaired, each tied to one site of one check:

- C19: floating point `==` says two different nonzero numbers are equal (`self.z == other.z or ...`); existing tests compare numbers that only agree that way.
- C22: `starks.stark` imports a class FRI that `starks.fri` does not define (it is commented out). The checks of C22 and C23 supply a stand-in that proves
  low degree by giving all the values. It is sound and complete, so whatever the rest of the module does is decided for real.
- C24: FRI commitments of more than one round raise, rates below one return nothing, spaces of fewer than four elements return nothing, and the query
  phase rejects honest commitments. Repairing them means writing the protocol (the intermediate spaces are lists, not spaces).
- C27: modulo a Blum integer the negated secret opens a commitment, often to the other bit. This is a flaw of the scheme (squaring is a
  permutation only on the squares, and secrets are not drawn from them); changing it changes the format of secrets.
- C34: the additive FFT and its inverse do not compute the transform.

## Restrictions of the properties, and false alarms corrected

- Byte-compatible interfaces keep their meaning: two prime fields mix through the integer representative (`Z/5 + Z/7` converts), univariate
  polynomials over different primes too, extension field elements absorb any polynomial over a prime field, and rationals absorb integers
  modulo another prime. C07 first asked for refusal there; the code defines these conversions, so the statement leaves them out.
- C06 division: sympy's reduction stops at the leading term; the property asks what a quotient by leading terms is, not for a Groebner remainder.
- C12 first took `mul_polys` for an ordinary product; it is the product modulo x^n - 1 by its documentation.
- C15: `verify_branch` takes the tree's depth from the proof, so an inner node can be opened as a leaf of a smaller tree, and a leaf may be split
  differently into two: the property is restricted to single-component tampering of honest branches and to leaves of the honest width.
- C16: payloads of two bytes collide with references by design of the format.
- C19: the exponent and sign of a sum that is zero are not specified anywhere and are not compared.
- C23: the check of the random linear combination is commented out in the source (with a remark that this is insecure); the property claims what the verifier does check.
- C27, C30, C36: see the notes in MANIFEST.json. A neighbour that cannot be reached may make a resolution raise or be skipped: only the chain must not change.
- C31: `gauss` works in place, so C10 leaves it out.
- C37: the witness of the reduction is drawn with `draw_random_interpolant`, a stub that returns 0, and the constraint polynomials Phi come out as
  0 (they would be rational functions); both carry TODO remarks in the source and are left out of the statement. `ali.py` is a stub that cannot be
  constructed; no property is stated about it.
- Checks read values through public attributes and operators, never the form of the code, and accept any exception where refusal is asked for.

## Not addressed

Performance, memory, and the statistical soundness of the proof system over large fields are not properties of executions that can be enumerated
and are not claimed. Nothing claimed is listed under not_applicable.
"""
