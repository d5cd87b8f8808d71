#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as source so that the statements are easy to review).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p('C01','Multi-word primitives are exact, and assembly and portable code agree',
 'Every multi-word primitive (add with carry, subtract with borrow, multiply-accumulate, 384-bit add, 384-bit subtract, 384x384-bit multiply, Montgomery reduction) returns the exact integer result of its definition, modulo the width it returns, for every operand. The assembly build and the portable build return the same words. The Montgomery reduction of T < 2^384*q is congruent to T/2^384 mod q and smaller than 2q.',
 ['inputs','configurations'],'all 64-bit and 384-bit operands (carries included; for the reduction every T < 2^384*q), both the amd64 assembly and the portable implementation',
 'The tests compare a few hundred random operand tuples against math/big and run one implementation per platform; a lost carry shows on a 2^-64 fraction of operands, which random operands never meet.',
 ['primitivefuncs_amd64.s','stub.go','stub_fallback.go'],
 [('carry chains and register allocation of the generated assembly','primitivefuncs_amd64.s'),('bits.Add64/Sub64/Mul64 chains','stub_fallback.go')],
 ['return words of the primitives'])
p('C02','Base field arithmetic is exact mod q and stays canonical',
 'For all canonical elements, addition, subtraction, negation, doubling, multiplication, squaring, division, inversion, exponentiation and multiplication by an integer return the canonical representative of the exact result modulo q. Conversion between integers and elements is the identity on [0,q) in both directions, and equality, ordering and zero tests agree with those integers. Inversion reports failure for zero and only for zero, and always terminates.',
 ['inputs'],'all pairs of canonical elements, every 384-bit exponent or multiplier',
 'Tests use a handful of vectors and a few thousand random elements; final-subtraction and borrow corner cases and values next to 0, q and 2^384 have negligible probability.',
 ['fq.go','fqrepr.go'],[('conditional final subtraction','fq.go:reduceAssign'),('interleaved squaring','fq.go:SquareAssign'),('binary extended gcd','fq.go:Inverse'),('square and multiply','fq.go:Exp')],
 ['ToRepr of results, Equals/Cmp/IsZero'],[('f.n','Montgomery form of the element, always < q','fq.go')])
p('C03','Scalar field arithmetic is exact mod r, canonical, and free of side effects',
 'For all canonical scalars, addition, subtraction, negation, doubling, multiplication, squaring, inversion, exponentiation and multiplication by an integer return the canonical representative of the exact result modulo r in the receiver or the returned value. Conversion between integers and scalars is the identity on [0,r), rejects integers >= r, and leaves the integer it was given unchanged. Operands other than the receiver are never modified.',
 ['inputs','histories'],'all pairs of canonical scalars, every 256-bit exponent or multiplier, any sequence of earlier calls',
 'The only scalar-field test inverts ten random scalars.',
 ['fr.go','frrepr.go'],[('unrolled Montgomery reduction','fr.go:montReduce'),('binary extended gcd','fr.go:Inverse')],
 ['ToRepr/Bytes of results','operands after the call'],[('f.n','pointer to the Montgomery form of the scalar','fr.go')])
p('C04','Fixed-width integers behave as exact unsigned integers of their width',
 'Shifts, halving, doubling, comparison, equality, parity, zero test, bit length, bit access and bit iteration of the 256- and 384-bit integers agree with the mathematical unsigned integer for every value and every shift amount. Conversion to and from big-endian bytes and big integers round-trips, and conversion from a negative or too wide big integer is refused. Widening a 256-bit integer to 384 bits preserves its value.',
 ['inputs','configurations'],'all 256-/384-bit values, all shift amounts (also >= the width), 64-bit and 32-bit platforms',
 'Tests sample a few shifts and random values on the 384-bit type only; limb-boundary shifts (63, 64, 65, 128...), the top bit and the 32-bit build are barely touched.',
 ['fqrepr.go','frrepr.go','bititerator.go'],[('limb loops','fqrepr.go'),('limb loops','frrepr.go'),('bit cursor','bititerator.go')],['results of the methods'])
p('C05','Extension tower arithmetic is exact field arithmetic',
 'Quadratic, sextic and dodecic extension operations (add, subtract, negate, double, multiply, square, invert, norm, conjugate, sparse multiplications, multiplication by the non-residues, exponentiation) return exactly the field result in F_q[u]/(u^2+1), F_q2[v]/(v^3-(1+u)) and F_q6[w]/(w^2-v) for all operands, including when both operands are the same object. The Frobenius map of power k returns the element raised to q^k, for every k. Inversion fails exactly for zero.',
 ['inputs'],'all elements of the three extensions, all 256 Frobenius powers, every exponent, aliased operands',
 'Tests check identities on random elements with distinct operands, Frobenius for small powers, and sparse products on random values.',
 ['fq2.go','fq6.go','fq12.go'],[('Karatsuba-style formulas','fq2.go fq6.go fq12.go'),('Frobenius coefficient tables','fq2.go fq6.go fq12.go')],['coefficients of the results'])
p('C06','Square roots, quadratic character and sign selection are correct',
 'Square root of a base- or quadratic-field element succeeds exactly on squares (zero included) and then returns an element whose square is the input, and the Legendre symbol agrees with it. Ordering compares canonical integers (for the quadratic field, the u coefficient first), and of an element and its negative exactly one is reported as the larger one unless it is zero. The scalar field follows the same rules.',
 ['inputs'],'all field elements, including 0, 1, -1 and elements of the subfield',
 'Tests take roots of random squares and a few vectors; zero, -1, purely imaginary and subfield elements take rare branches.',
 ['fq.go','fq2.go','fr.go'],[('Shanks / Adj-Rodriguez square roots','fq.go:Sqrt fq2.go:Sqrt'),('canonical comparison','Cmp, Parity')],['Sqrt results','Legendre','Cmp','Parity'])
p('C07','Point addition, doubling, negation and equality implement the group law',
 'For all points of G1 and of G2 in any projective representation, addition (projective and mixed), doubling and negation return the group-law result, including when the operands are equal, opposite or infinity. Conversion between affine and projective form preserves the point, and equality holds exactly when two representations denote the same point. Results of operations on curve points are on the curve.',
 ['inputs'],'all pairs of curve points (equal, opposite, at infinity, same point with different denominators) in any representation',
 'Tests add random multiples; equal points with different denominators, opposite points and infinity on either side are mostly not exercised.',
 ['g1.go','g2.go'],[('special-case branches and Jacobian formulas','g1.go g2.go: Add, AddAffine, Double'),('cross-multiplied comparison','Equal, Equals')],['affine coordinates of results','IsZero','Equals','IsOnCurve'],[('infinity','affine infinity flag','g1.go g2.go'),('z','zero exactly for infinity','g1.go g2.go')])
p('C08','Scalar multiplication is exact for every scalar',
 'Multiplying any point by any unsigned integer (256-bit, 384-bit or big) returns exactly that multiple of the point, for affine and projective inputs in both groups, including scalars 0, 1 and multiples of the group order. Cofactor multiplication multiplies by the group cofactor, and the subgroup test accepts a curve point exactly when its multiple by the group order is infinity.',
 ['inputs'],'every scalar of the parameter type and every point',
 'Tests use a few small or random scalars; limb boundaries, single-bit and zero scalars are not covered.',
 ['g1.go','g2.go'],[('double-and-add over the bit length','Mul, MulFR, MulBig'),('cofactor constants','g1Cofactor, g2Cofactor'),('subgroup check','IsInCorrectSubgroupAssumingOnCurve')],['affine coordinates of results'])
p('C09','Point compression is canonical: exact round trip, everything else rejected',
 'Decompressing the compression of any point returns that point, and any byte string that decompression accepts is exactly the compression of the point it returns. Strings with a missing compression flag, a non-canonical infinity, an x-coordinate that is not a field element or not on the curve are refused with an error. The checked variants additionally refuse exactly the points outside the prime-order subgroup.',
 ['inputs'],'all 48- and 96-byte strings and all curve points including infinity',
 'Tests round-trip random valid points and a few malformed strings; 2^384 malformed strings (flag combinations, non-canonical coordinates) are not reachable by sampling.',
 ['g1.go','g2.go'],[('flag handling','DecompressG1Unchecked, DecompressG2Unchecked, CompressG1, CompressG2'),('y selection','GetG1PointFromX, GetG2PointFromX')],['decoded points, error results, encoded bytes'])
p('C10','Uncompressed serialization round-trips',
 'Writing any point of either group in uncompressed form and reading it back yields the same point, including infinity and whatever the receiving object held before. The bytes are the big-endian canonical coordinates, x before y and for G2 the constant coefficient before the u coefficient.',
 ['inputs','histories'],'all affine points and any previous content of the receiver',
 'No test uses the uncompressed form.',
 ['g1.go','g2.go'],[('coordinate layout','SerializeBytes, SetRawBytes')],['bytes','coordinates and infinity flag after reading'])
p('C11','The pairing is a non-degenerate bilinear map; infinity pairs to one',
 'The pairing of P and Q is the optimal ate pairing: the product over the loop of the correct line functions through the multiples of Q evaluated at P, raised to a fixed power that maps into the r-th roots of unity and is not trivial on them. Pairs with a point at infinity contribute one, products over several pairs multiply, and comparing two pairings returns true exactly when the two pairing values are equal. No input point or prepared point is modified.',
 ['inputs'],'all points of G1 x G2 and any number of pairs within the bound, infinity in any position',
 'One test checks bilinearity for one random pair of points and one known value; infinity and multi-pair products are not exercised.',
 ['pairing.go','g2.go'],[('line coefficients','g2.go:G2AffineToPrepared'),('loop over the curve parameter','pairing.go:MillerLoop'),('exponent chain','pairing.go:FinalExponentiation')],['pairing values','comparison results'])
p('C12','Hash-to-curve maps always land on the right point of the prime-order subgroup',
 'For every field element the simplified SWU map returns a point on the isogenous curve whose y has the sign of the input, the isogeny maps that curve into the target curve, and the endomorphism and cofactor clearing multiply by the standardised effective cofactor. Consequently hashing any message to G1 or G2 returns a point on the curve in the prime-order subgroup, and the two-element map is the sum of the two mapped points.',
 ['inputs'],'all field elements (including those taking the exceptional branches) and all messages',
 'Tests compare a handful of vectors; the exceptional denominator branch, the sign rules at 0 and (q-1)/2 and inputs with one zero coefficient are not reached.',
 ['g1.go','g2.go','hash.go'],[('SWU maps','g1.go:optimizedSWUMapHelper g2.go:OptimizedSWU2MapHelper'),('isogeny tables','hash.go:iso11 iso3'),('psi and effective cofactors','hash.go:psi ClearH clearH2')],['returned point coordinates'])
p('C13','Messages are hashed to field elements exactly as specified',
 'The field elements derived from a message are the big-endian integer of the specified SHA-256 outputs (cipher suite byte, counter, coefficient and block index in their places, or message, domain and index for the domain variant) reduced modulo the field order, for every message. Distinct counters, indices and domains use distinct hash inputs, deriving a secret key from 32 bytes follows the same rule modulo r, and hashing depends on nothing but the message (and domain).',
 ['inputs'],'all messages up to the length bound, all domains and 32-byte seeds',
 'Tests compare a few vectors of short messages; empty, long or aliasing-prone buffers and leading zero digests are not covered.',
 ['hash.go','g2.go'],[('hash_to_field','hash.go: hp, hp2, HashSecretKey'),('try-and-increment','g2.go:HashG2WithDomain')],['derived field elements and points'])
p('C14','Signatures verify exactly when they match key and message',
 'In both variants (keys in G1 or in G2, with and without domain), a signature made with a secret key over a message verifies under the corresponding public key, for every key and message. Verification accepts exactly the signatures that equal the secret multiple of the hashed message, so a different message, domain, key or altered signature is rejected, and infinity points are handled like any other point.',
 ['inputs'],'all secret keys (0 and r-1 included), messages and domains, all public keys and signatures in the prime-order groups',
 'Tests sign and verify a few random keys and messages; zero keys, infinity signatures and adversarial signatures are not covered.',
 ['g1pubs/bls.go','g2pubs/bls.go','pairing.go'],[('pairing equation','Verify, VerifyWithDomain'),('signing','Sign, SignWithDomain')],['Verify results'])
p('C15','Aggregation is the group sum and aggregate verification enforces its equation',
 'Aggregating signatures or public keys yields the group sum independent of order and grouping, with the blank aggregate as neutral element and no change to the inputs. Aggregate verification accepts exactly when the signature equals the sum of the signers\' signatures over their messages, and refuses mismatched list lengths and, in the variant that promises it, any repeated message. Verification of a common message is verification under the summed keys.',
 ['inputs','histories'],'any number of signers within the bound, all keys and messages (empty and prefix-related messages included), any order',
 'Tests aggregate a few random keys over fixed distinct messages; empty messages, duplicates at a distance, identical signers and empty lists are not covered.',
 ['g1pubs/bls.go','g2pubs/bls.go'],[('sorted duplicate search','VerifyAggregate'),('sums','AggregateSignatures, AggregatePublicKeys, Aggregate')],['aggregate points, verification results, inputs afterwards'])
p('C16','Keys and signatures survive serialization',
 'Serializing a secret key, public key or signature and deserializing it yields an equal object that signs and verifies identically, for every key including 0 and r-1 and every aggregate including the blank one. Deserialization of a public key or signature accepts exactly canonical encodings of points in the prime-order subgroup. The public key of a secret key is that multiple of the generator, and copies are independent of the original.',
 ['inputs','histories'],'all keys and signatures, all 32-, 48- and 96-byte strings',
 'Tests round-trip a few random keys; boundary keys, blank aggregates and rejected encodings are not covered.',
 ['g1pubs/bls.go','g2pubs/bls.go','fr.go','frrepr.go'],[('fixed-width big-endian encoding','Serialize, Deserialize*'),('checked decompression','DeserializePublicKey, DeserializeSignature')],['serialized bytes, deserialized objects'])
p('C17','Results depend only on the arguments: no hidden state, no modified inputs',
 'No exported operation writes to package-level values, to its arguments (other than the receiver of an in-place operation) or to memory an earlier result still refers to. Consequently every result is the same whatever calls came before or run concurrently. Returned objects are independent of package-level constants and of the arguments.',
 ['inputs','histories','schedules'],'all arguments within the bounds, any earlier or concurrent calls',
 'Each test runs one operation in a fresh process on fresh objects, sequentially.',
 ['fq.go','fr.go','frrepr.go','fq6.go','fq12.go','g1.go','g2.go','pairing.go','hash.go','g1pubs/bls.go','g2pubs/bls.go'],[('copy before in-place update','throughout')],['arguments and package-level values after a call'])
p('C18','Operations on untrusted input never crash',
 'Decoding any bytes, and verifying, aggregating or hashing any messages, keys and signatures obtained by decoding, returns a result or an error without panicking and within a bounded number of steps. This includes points at infinity, empty messages and empty or mismatched lists.',
 ['inputs'],'all byte strings of the decoders\' widths, all messages within the length bound, all decodable points, lists within the bound',
 'Tests use well-formed inputs.',
 ['g1.go','g2.go','pairing.go','hash.go','g1pubs/bls.go','g2pubs/bls.go'],[('error returns','Decompress*, Deserialize*'),('infinity skipping','pairing.go:MillerLoop')],['panics, termination'])
p('C19','Randomly generated values are valid for every random stream',
 'For every byte stream from the random source, generated field elements and scalars are canonical and equal the integer drawn, generated extension elements use independent draws for every coefficient, and generated points are on the curve, in the prime-order subgroup and not infinity. An error of the random source is returned as an error with no value.',
 ['inputs','fault_sequences'],'all outputs of the random source, an error at any read',
 'Tests draw from a fixed pseudo-random stream and never make the source fail.',
 ['fq.go','fr.go','fq2.go','fq6.go','fq12.go','g1.go','g2.go','g1pubs/bls.go','g2pubs/bls.go'],[('rejection sampling','RandG1, RandG2'),('error propagation','Rand*')],['returned values and errors'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
