CLAIMED = {
 'C01': ('symbolic execution of the amd64 assembly and of the SSA of the portable code; SMT (linear integer arithmetic over words)', 'proof',
         'Every primitive is shown exact for all operands by unsat answers of z3/cvc5; trusts the instruction model, go/ssa and the solvers.'),
 'C04': ('symbolic execution of the SSA of the portable code and of the stubs of the assembly build; SMT (bit-vectors) over every shift amount, width and value', 'proof',
         'Each operation is compared with the exact integer function for every value; loops over bits are unrolled to the width.'),

 'C02': ('symbolic execution of the SSA (both architectures) on values in internal form; SMT (linear integer arithmetic with congruence elimination); inductive invariants for the inversion loop checked by SMT', 'proof',
         'Every operation on all canonical operands, including aliased ones; the repr and primitive operations are used by the contracts C01/C04 decide.'),
 'C03': ('symbolic execution of the SSA (both architectures) on values in internal form; SMT (linear integer arithmetic with congruence elimination); inductive invariants for the inversion loop checked by SMT', 'proof',
         'Every operation on all canonical operands, including aliased ones and unmodified arguments; the primitive operations are used by the contracts C01/C04 decide.'),

 'C05': ('symbolic execution of the SSA on formal ring elements, identities discharged by SMT over the finite field F_q (QF_FF); powers by bit-symbolic exponents', 'proof',
         'All operands for every tower operation and all Frobenius powers; the base-field operations are used by the contracts C02 decides. Powers: every leading-bit position.'),
 'C07': ('symbolic execution of the SSA on formal coordinates with path enumeration; SMT over the finite field F_q (QF_FF)', 'proof',
         'Every case of the group law (infinity, equal, opposite, distinct points) on all coordinates and representations; coordinates in the extension field are handled as elements of a formal ring.'),
 'C08': ('symbolic execution of the SSA with bit-symbolic scalars over the group contracts of C07; SMT (linear integer arithmetic)', 'model_checking',
         'All scalars whose leading bit is at one of the listed positions (quick) or anywhere (thorough), all points.'),
 'C06': ('symbolic execution of the SSA over a multiplicative group with symbolic discrete logarithms for square-root chains, bit-vector canonical integers for sign rules; SMT (LIA, bit-vectors, QF_FF)', 'proof',
         'All field elements; powers and multiplications by the contracts C02/C05 decide. The scalar-field square root is a recorded finding.'),
 'C09': ('symbolic execution of the SSA on bit-vector bytes and formal field elements carrying their canonical integers, with path enumeration; SMT (bit-vectors, QF_FF)', 'proof',
         'Every 48/96-byte string and every curve point; square root, comparison and subgroup test by the contracts that C06 and C08 decide (re-run here).'),
 'C10': ('symbolic execution of the SSA on bit-vector bytes and formal field elements carrying their canonical integers; SMT (bit-vectors)', 'proof',
         'Every curve point, infinity and any previous receiver content.'),

 'C14': ('symbolic execution of the SSA of both key variants with points and pairing values as discrete logarithms over F_r and symbolic message bytes; SMT (QF_FF, bit-vectors)', 'model_checking',
         'Every key, group element and content of messages of the listed lengths; hashing is an arbitrary function of the bytes, pairing and multiples by contract (C08, C11).'),
 'C15': ('symbolic execution of the SSA of both key variants with points and pairing values as discrete logarithms over F_r and symbolic message bytes; SMT (QF_FF, bit-vectors)', 'model_checking',
         'Lists of up to four signers and eight summands, all points, symbolic messages including equal, prefix-related and empty ones, repeated objects.'),

 'C12': ('symbolic execution of the SSA of the maps on formal field elements (QF_FF identities, path conditions), signs as bit-vectors of canonical integers, cofactor clearing as exponents over P, psi(P), psi(psi(P)); SMT', 'proof',
         'Every field element and point; field and group operations by contract (C02, C05, C06, C07, C08).'),
 'C13': ('symbolic execution of the SSA of the hashing code on symbolic message bytes with SHA-256 as an uninterpreted function; SMT (bit-vectors)', 'model_checking',
         'Every content of messages of the listed lengths (nil, 0 to 128 bytes; thorough: every length up to 199), every seed and domain.'),
 'C16': ('symbolic execution of the SSA of both key variants on symbolic bytes with points as discrete logarithms and scalars as canonical bit-vectors; SMT (bit-vectors, QF_FF)', 'model_checking',
         'Every key, point and byte string; encodings of points by contract (C09), sequences of operations on copies.'),
 'C11': ('symbolic execution of the SSA: preparation on formal coordinates cut at every step (QF_FF identities with the point and line formulas), loop and final exponentiation as exponents of formal elements (LIA), comparison on discrete logarithms over F_r (QF_FF)', 'model_checking',
         'Every affine point of the twist for the preparation, listed numbers of pairs with infinities for the loop, every argument for the exponentiation and the comparison; tower and curve operations by contract (C05, C07).'),
 'C18': ('symbolic execution of the SSA with symbolic slice bounds and bytes: every panic edge is an obligation; SMT (bit-vectors, QF_FF); integer lemmas on the loops', 'model_checking',
         'Every content of inputs of the listed lengths and of lists up to four; field, tower, curve and pairing code by the panic-freedom part of the obligations of C02 to C12.'),
 'C19': ('symbolic execution of the SSA on a symbolic byte stream and error position of the random source; SMT (bit-vectors, QF_FF)', 'model_checking',
         'Every stream content and every failing read, with up to two (thorough: three) rounds of each rejection loop; rand.Int by its documented contract.'),
 'C17': ('symbolic execution of the SSA of every exported operation on unconstrained data, other exported operations by their frames; SMT over the branch decisions and the addresses stored to or reachable from results', 'model_checking',
         'Every data value, both outcomes of every data-dependent branch, loops until their heap state repeats; lists of up to three elements, aliased pointer arguments.'),
}
NA = {}
