import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
T="The tests sample a few hundred pseudo-random or fixed values from a domain of more than 2^380 elements; "
p("C01","Multi-word integer primitives are exact on both builds",
 "For every operand, the 384-bit multiply returns the exact 768-bit product, 384-bit addition and subtraction are exact modulo 2^384, and the word-level add-with-carry, subtract-with-borrow (borrow 0 or 1) and multiply-accumulate return the exact two-word result. For every 768-bit T below q*2^384, Montgomery reduction returns a 384-bit value below 2q congruent to T*2^-384 modulo q. Both hold for the amd64 assembly and for the portable implementation, so the two builds compute the same function.",
 ["inputs","configurations"],"all 384/768-bit operands; both build configurations (amd64 assembly, portable Go)",
 T+"a lost carry shows on a fraction of about 2^-64 of inputs, and the portable build is never run by the tests on amd64.",
 ["primitivefuncs_amd64.s","stub.go","stub_fallback.go"],
 [("assembly primitives","primitivefuncs_amd64.s"),("portable primitives","stub_fallback.go")])
p("C02","Base-field arithmetic is exact and canonical",
 "For all base-field elements, addition, subtraction, negation, doubling, multiplication and squaring return the mathematically exact result modulo q, always in the unique representation below q. Converting an integer below q into the field and back is the identity, zero tests and equality tests decide equality of the represented residues, and the parity (sign) test tells exactly whether the residue is larger than its negative.",
 ["inputs","configurations"],"all pairs of canonical field elements, including operands aliasing the receiver; both builds",
 T+"missed final subtractions and lost carries only show near the modulus or at word boundaries.",
 ["fq.go","fqrepr.go","primitivefuncs_amd64.s","stub_fallback.go"],
 [("FQ arithmetic","fq.go"),("limb arithmetic","fqrepr.go, primitivefuncs_amd64.s")])
p("C03","Scalar-field arithmetic is exact and canonical",
 "For all scalar-field elements, addition, subtraction, negation, doubling, multiplication and squaring return the exact result modulo the group order r, always in the unique representation below r. Converting an integer below r into the field and back is the identity, an integer of r or more is refused, equality tests decide equality of residues, and the parity (sign) test tells exactly whether the residue is larger than its negative.",
 ["inputs"],"all pairs of canonical scalars, including operands aliasing the receiver",
 "The scalar field has a single unit test file of 18 lines; everything else reaches it only through a handful of keys.",
 ["fr.go","frrepr.go"],[("FR arithmetic","fr.go"),("limb arithmetic","frrepr.go")])
p("C04","Inversion and division are exact in every field of the tower",
 "For every non-zero element of the base field, scalar field and the degree 2, 6 and 12 extensions, inversion returns the element whose product with it is one, in canonical form; for zero it reports failure. Division by a non-zero element returns the quotient whose product with the divisor is the dividend.",
 ["inputs"],"all non-zero field elements; whenever the inversion loop returns",
 T+"inversion by a binary GCD takes data-dependent paths hundreds of iterations long, of which tests reach a handful.",
 ["fq.go","fr.go","fq2.go","fq6.go","fq12.go"],
 [("binary GCD inversion","fq.go Inverse, fr.go Inverse"),("norm-based inversion","fq2.go, fq6.go, fq12.go InverseAssign")])
p("C05","Fixed-width integer operations and conversions are exact",
 "For every 256-bit and 384-bit integer, comparison, equality, zero and parity tests, shifts by every count, halving, doubling, bit tests and bit length agree with the integer it denotes. Conversion to and from big-endian bytes and arbitrary-precision integers is the identity in both directions, and integers that are negative or too wide are refused.",
 ["inputs"],"all 2^256 and 2^384 values and all shift counts / bit positions in range",
 T+"word-boundary cases (shift by multiples of 64, comparison decided in the lowest word, leading zero words) are sampled for a few values only.",
 ["fqrepr.go","frrepr.go","bititerator.go"],
 [("FQRepr operations","fqrepr.go"),("FRRepr operations","frrepr.go"),("bit iteration","bititerator.go")])
p("C06","Quadratic extension field operations satisfy their defining formulas",
 "For all elements a0+a1*u and b0+b1*u with u^2=-1, addition, subtraction, negation, doubling, multiplication, squaring, norm and multiplication by 1+u return exactly the coefficients given by the ring definition, also when operands alias the receiver. Comparison orders lexicographically by (a1,a0) as integers.",
 ["inputs"],"all pairs of elements of the quadratic extension",
 T+"formulas with shared sub-terms can be wrong only on special operands (zero coefficients, equal operands).",
 ["fq2.go"],[("FQ2 operations","fq2.go")])
p("C07","Degree-6 and degree-12 extension operations satisfy their defining formulas",
 "For all operands in the degree-6 extension (v^3=1+u) and the degree-12 extension (w^2=v), addition, subtraction, negation, doubling, multiplication, squaring, conjugation, multiplication by the non-residue and the sparse multiplications used for line evaluation return exactly the coefficients given by the ring definition. This holds also when an operand is the same object as the receiver, and no operand other than the receiver is changed.",
 ["inputs","programs"],"all operands and all aliasing patterns between receiver and operand",
 "The tests compare a few vectors and random ring identities with distinct objects; they never square through multiplication with itself and never check sparse multiplication coefficient by coefficient.",
 ["fq6.go","fq12.go"],[("FQ6 operations","fq6.go"),("FQ12 operations","fq12.go")])
p("C08","Frobenius maps equal raising to the power q^k for every k",
 "For every k and every element of the degree 2, 6 and 12 extensions, the Frobenius map of power k returns the element raised to q^k.",
 ["inputs"],"all elements and every power argument",
 T+"tests exercise powers 0..13 on one or a few random elements and compare fixed vectors.",
 ["fq2.go","fq6.go","fq12.go"],[("FrobeniusMapAssign and coefficient tables","fq2.go, fq6.go, fq12.go")])
p("C09","Exponentiation and scalar doubling-and-adding are right for every exponent",
 "For every field element and every 256/384-bit exponent n, exponentiation in each field of the tower returns the n-th power (n=0 gives one), and multiplying a field element by an integer n returns n times the element. The exponent and base passed in are unchanged.",
 ["inputs"],"all bases and all exponents of the declared width, including 0, 1 and top-bit-set exponents",
 T+"errors in bit order or the first/last bit vanish on palindromic, tiny or even exponents.",
 ["fq.go","fr.go","fq2.go","fq6.go","fq12.go","bititerator.go"],
 [("square-and-multiply loops","Exp in fq.go, fr.go, fq2.go, fq6.go, fq12.go"),("double-and-add","MulBits in fq.go, fr.go, fq2.go")])
p("C10","Square roots and quadratic-residue tests are right for every field element",
 "For every element of the base field, its quadratic extension and the scalar field, the square-root routine succeeds exactly when the element is a square and then returns a value whose square is the element. The Legendre symbol is zero exactly for zero, and otherwise tells squares from non-squares.",
 ["inputs"],"all elements, including zero, -1 times squares and elements with a zero coefficient",
 T+"the exceptional branch of the extension-field algorithm is taken with probability about 1/q.",
 ["fq.go","fq2.go","fr.go"],[("Sqrt","fq.go, fq2.go"),("Legendre","fq.go, fq2.go, fr.go")])
p("C11","G1 addition, doubling and negation implement the group law for all points",
 "For every pair of points on the G1 curve, in any projective representation, projective addition, mixed addition, doubling and negation return the sum, double and inverse in the curve group. This includes the identity, equal points and mutually inverse points, and the result is always on the curve.",
 ["inputs"],"all pairs of curve points and all projective representations of them",
 T+"the exceptional cases (identity, doubling inside addition, P+(-P), unequal Z) are met only by chance.",
 ["g1.go"],[("Add, AddAffine, Double, NegAssign","g1.go")])
p("C12","G2 addition, doubling and negation implement the group law for all points",
 "For every pair of points on the G2 curve, in any projective representation, projective addition, mixed addition, doubling and negation return the sum, double and inverse in the curve group. This includes the identity, equal points and mutually inverse points, and the result is always on the curve.",
 ["inputs"],"all pairs of curve points and all projective representations of them",
 T+"the exceptional cases (identity, doubling inside addition, P+(-P), unequal Z) are met only by chance.",
 ["g2.go"],[("Add, AddAffine, Double, NegAssign","g2.go")])
p("C13","Scalar multiplication of curve points is right for every scalar",
 "For every point of either group in affine or projective form and every scalar of the accepted width, scalar multiplication returns the point added to itself that many times, with the identity for scalar zero. Multiplying by the cofactor helper multiplies by the curve's cofactor.",
 ["inputs"],"all scalars of 256/384 bits (and arbitrary-precision scalars where accepted), all points",
 T+"scalars with leading or trailing zero words or the top bit set are not sampled.",
 ["g1.go","g2.go"],[("Mul, MulFR, MulBig, ScaleByCofactor","g1.go, g2.go")])
p("C14","Point conversion and equality agree with equality of the group elements",
 "For every point, converting affine to projective and back returns an equal point and keeps the identity. Two projective (or two affine) points, or two public keys, compare equal exactly when they denote the same group element, whatever their representation; copies, accessors and constructors of keys and signatures keep the point.",
 ["inputs"],"all pairs of points and all projective representations",
 T+"tests compare points expected to be equal far more often than points expected to differ, and rarely the identity.",
 ["g1.go","g2.go"],[("ToAffine, ToProjective, Equals/Equal, IsZero","g1.go, g2.go")])
p("C15","Compressed encoding is bit-exact and decodes to the same point",
 "For every curve point of either group, compression produces big-endian x (for G2 the u-coefficient first) with bit 7 of the first byte set, bit 6 set exactly for the identity (all other bits then zero) and bit 5 set exactly when y is the larger of y and -y. Decompressing it returns the same point without error.",
 ["inputs"],"all curve points of both groups including the identity",
 T+"no test compresses points with zero-coefficient y (where the tie-break matters) or checks every flag bit.",
 ["g1.go","g2.go"],[("CompressG1/G2, DecompressG1/G2, GetG1/G2PointFromX","g1.go, g2.go")])
p("C16","Decoding refuses every byte string that is not a canonical subgroup point",
 "Checked decompression returns a point only if the compression flag is set, the x coordinate is below q, the point is on the curve with the sign the flag asks for, and it lies in the order-r subgroup; the identity is accepted in exactly one encoding. Deserializing public keys and signatures always uses this checked form, and every refusal is an error rather than a default point.",
 ["inputs"],"all 48-byte and 96-byte strings",
 "The tests decode only valid encodings and a couple of hand-made bad ones; the string space has 2^384 and 2^768 members.",
 ["g1.go","g2.go","g1pubs/bls.go","g2pubs/bls.go"],
 [("DecompressG1/G2(Unchecked), IsInCorrectSubgroupAssumingOnCurve","g1.go, g2.go"),("DeserializePublicKey/Signature","g1pubs/bls.go, g2pubs/bls.go")])
p("C17","Uncompressed point encoding round-trips",
 "For every finite point of either group, writing its coordinates as raw bytes gives the big-endian coordinates in the documented order, and loading those bytes into a fresh point gives back the same point.",
 ["inputs"],"all finite curve points",
 "One group's round trip is tested on a single point, the other's not at all.",
 ["g1.go","g2.go"],[("SerializeBytes, SetRawBytes","g1.go, g2.go")])
p("C18","The Miller loop evaluates the right lines at the right points",
 "For every non-identity G2 point of the order-r subgroup, the prepared coefficients are, up to factors killed by the final exponentiation, the tangent and chord lines met by the double-and-add walk over the curve parameter, in order. For every list of pairs the Miller loop accumulates exactly those line values at the G1 points with the square-and-multiply schedule of the parameter, conjugating because the parameter is negative.",
 ["inputs"],"all point pairs and all list lengths",
 "The tests check a handful of pairings and two known vectors; a wrong line can cancel in every test that only compares two pairings of the same library.",
 ["pairing.go","g2.go"],[("MillerLoop","pairing.go"),("G2AffineToPrepared","g2.go")])
p("C19","Final exponentiation is a fixed power that is a valid multiple of (q^12-1)/r",
 "For every non-zero degree-12 element, final exponentiation returns that element raised to one fixed exponent, which is (q^12-1)/r times an integer prime to r; for zero it reports failure. The argument is unchanged.",
 ["inputs"],"all elements of the degree-12 extension",
 T+"an exponent that kills too little or too much cannot be distinguished by comparing pairings with each other.",
 ["pairing.go","fq12.go"],[("FinalExponentiation","pairing.go")])
p("C20","Pairings with the identity are one and products compare correctly",
 "The pairing of any point with the identity of either group is one and never fails, and identity pairs contribute nothing to a product of pairings. The two-pairing comparison returns true exactly when the two pairing values are equal, for all four arguments including identities, and changes none of them.",
 ["inputs"],"all pairs of points including identities",
 "No test pairs an identity; the comparison is only tested through complete signatures.",
 ["pairing.go"],[("Pairing, CompareTwoPairings, MillerLoop","pairing.go")])
p("C21","Signing and verifying evaluate exactly the BLS equations",
 "In both key/signature placements, for every key and message, the signature is the hash of the message (with its domain when given) times the secret scalar, the public key is the generator times the secret scalar, and verification accepts exactly when e(generator, signature) equals e(public key, hash of that message and domain). Every argument takes part: changing the message, the domain, the key or the signature point changes the equation checked.",
 ["inputs"],"all messages, domains, keys and signatures, both packages",
 "Tests sign and verify a few random messages; accepting too much is invisible unless the right forgery is tried.",
 ["g1pubs/bls.go","g2pubs/bls.go"],[("Sign, SignWithDomain, PrivToPub, Verify, VerifyWithDomain","g1pubs/bls.go, g2pubs/bls.go")])
p("C22","Aggregation sums everything and aggregate verification checks everything",
 "Aggregating n signatures or keys yields the group sum of all n, with the identity for none. Aggregate verification with per-key messages accepts exactly when numbers of keys and messages agree, all messages are pairwise different (for the form without domain), and the aggregate signature's pairing equals the product over all keys of the pairing with the hash of its own message; with a common message it verifies the sum of all keys.",
 ["inputs","histories"],"all list lengths, all contents and orders, repeated messages at any positions",
 "Tests use up to a few dozen keys with distinct messages; duplicates, mismatched lengths and empty messages or lists are barely tried.",
 ["g1pubs/bls.go","g2pubs/bls.go"],[("AggregateSignatures, AggregatePublicKeys, Aggregate, VerifyAggregate*","g1pubs/bls.go, g2pubs/bls.go")])
p("C23","Hash-to-field absorbs the whole message with exact domain separation",
 "For every message, each field coordinate fed to the curve map is the big-endian integer of two SHA-256 blocks reduced modulo the field order, where each block hashes the digest of (suite byte, message), the counter byte, the coordinate index and the block index in that order, and the two map inputs use counters 0 and 1. Secret-key derivation and the domain variant likewise hash exactly the documented bytes, all of them, and the constructors that make a field element of a given digest use every bit of it.",
 ["inputs"],"all messages of all lengths, all domains",
 "A few fixed vectors exist for one hash; the G1 hash, key derivation and domain hash are compared on one or two inputs or not at all.",
 ["hash.go","g2.go"],[("hp, hp2, HashSecretKey, HashG1, HashG2","hash.go"),("HashG2WithDomain","g2.go")])
p("C24","Hash-to-curve output is always on the curve and cofactor-cleared",
 "For every field input, including the exceptional ones, the curve map returns a finite point satisfying the isogenous curve equation, on the first of its two candidate x-coordinates that has one, with the sign of the input. The isogeny sends every point of that curve to the target curve, the kernel to the identity, and is the documented map. The final step adds the mapped points on the target curve (all coincidences included) and multiplies by one fixed scalar that is a multiple of the cofactor, so the hash of every message is in the order-r subgroup. The older encoding returns a point on the curve for every field element, and the domain variant a cofactor-cleared one.",
 ["inputs"],"all field elements and all messages",
 T+"the exceptional denominators and the non-square branch are reached by few or no test inputs.",
 ["hash.go","g1.go","g2.go"],[("SWU maps","g1.go, g2.go"),("isogeny evaluation and cofactor clearing","hash.go"),("SWEncodeG2, HashG2WithDomain","g2.go")])
p("C25","Key serialization, derivation and random key generation are faithful",
 "Serializing any secret key gives the 32-byte big-endian scalar and deserializing gives back an equal key; public keys and signatures serialize to the compressed encoding of their point and deserialize to an equal one. Random keys, field elements and points come only from the reader supplied, keys and field elements are uniform below the field order, a random point is the cofactor multiple of a curve point at a drawn x, and a reader error is returned instead of a key.",
 ["inputs","fault_sequences"],"all keys, all byte strings below the order, all readers including failing ones",
 "Tests round-trip a few keys and never inject a failing reader.",
 ["g1pubs/bls.go","g2pubs/bls.go","fr.go","fq.go","fq2.go","fq6.go","fq12.go","g1.go","g2.go"],
 [("Serialize/Deserialize*, DeriveSecretKey, RandKey","g1pubs/bls.go, g2pubs/bls.go"),("RandFR, RandFQ*, RandG1, RandG2","fr.go, fq*.go, g1.go, g2.go")])
p("C26","No call changes its inputs or shared constants; results never share storage",
 "Except for the receiver of a method documented to update in place, no operation changes any argument, any element reachable from one, or any package-level constant, whatever the arguments alias. Returned values (other than those of plain constructors wrapping their arguments) never share mutable storage with package-level constants, arguments or internal state, so concurrent use on distinct receivers is free of data races.",
 ["schedules","histories","inputs"],"all call sequences, all aliasing patterns, all interleavings of operations on distinct receivers",
 "A leaked alias only shows when a caller later mutates the result; a race only under the right interleaving. No test does either.",
 ["fq.go","fr.go","fq6.go","fq12.go","g1.go","g2.go","pairing.go","hash.go","g1pubs/bls.go","g2pubs/bls.go"],
 [("copy discipline","Copy methods and constructors in all files")])
p("C27","Untrusted bytes and points never cause a panic",
 "For every byte string, message, list of deserialized keys and signature (including identities, empty lists and nil-free but empty messages), decoding, hashing, verifying and aggregating return normally: no index out of range, nil dereference, failed assertion or explicit panic is reachable.",
 ["inputs"],"all inputs an attacker can supply through the public decoding, verification and hashing calls",
 "A panic needs one specific input (identity signature, malformed length, exceptional map input) that sampling does not hit.",
 ["g1.go","g2.go","hash.go","pairing.go","g1pubs/bls.go","g2pubs/bls.go"],
 [("Decompress*, Deserialize*, Verify*, Pairing, HashG1/G2","all packages")])
p("C28","Domain constants satisfy their defining equations",
 "Every built-in constant is what its role requires: the moduli are the BLS12-381 primes given by the curve parameter, Montgomery and exponent constants match them, generators are the standard ones, on their curves with order r, cofactors give the curve orders, and Frobenius, isogeny, root-of-unity, twist-endomorphism and map constants satisfy the identities that define them.",
 ["inputs","configurations"],"every package-level constant, as initialised by the current source",
 "A wrong coefficient of a rarely used table entry is not read by any test.",
 ["fq.go","fr.go","fq2.go","fq6.go","fq12.go","g1.go","g2.go","hash.go","primitivefuncs_amd64.s"],
 [("package-level constants","all files of the root package")])
p("C29","Assembly routines respect the calling convention and their declared signatures",
 "Every assembly routine reads and writes only its declared argument, result and frame bytes at the declared offsets, sets every result byte on every path, preserves the frame pointer and stack pointer, and keeps no state between calls; every declared body-less function has exactly one implementation in each build.",
 ["inputs","schedules","configurations"],"all calls, including ones interrupted by profiling or stack growth",
 "A clobbered frame pointer or an out-of-frame access is invisible unless the runtime unwinds at that instant.",
 ["primitivefuncs_amd64.s","stub.go"],[("assembly functions","primitivefuncs_amd64.s")])
p("C30","Running time and memory access do not depend on secrets",
 "Signing, key derivation and public-key computation take a number of steps and touch addresses that do not depend on the secret scalar.",
 ["inputs"],"all pairs of secret keys","Timing is not observable by functional tests.",
 ["fq.go","fr.go","g1.go","g2.go"],[("scalar multiplication, inversion, conditional subtraction","fq.go, fr.go, g1.go, g2.go")])
p("C31","Signatures are unforgeable",
 "Without the secret key, no efficient procedure produces a message and signature that verify, even after seeing signatures on other messages of its choice.",
 ["programs"],"all efficient adversaries","Tests cannot quantify over adversaries.",
 ["g1pubs/bls.go","g2pubs/bls.go"],[("Sign, Verify","g1pubs/bls.go, g2pubs/bls.go")])
p("C32","Every operation returns: no loop runs forever",
 "For every input, every exported operation finishes: field inversion ends for every element including zero; exponentiations and scalar multiplications end for every exponent; conversions, codecs, aggregation, verification, the Miller loop and all other loops end after a number of rounds bounded by the sizes of their inputs; no function calls itself without end and nothing waits. The only exceptions are the searches whose length is random (try-and-increment in HashG2WithDomain, sampling in RandG1/RandG2), which C33 is about.",
 ["inputs","configurations"],"all inputs of all exported operations except the rejection searches; both builds",
 "A loop that fails to make progress hangs only on the input that triggers it (zero, a particular size, a particular pair of remainders); tests stop on the sampled inputs only.",
 ["fq.go","fr.go","fqrepr.go","frrepr.go","g1.go","g2.go","pairing.go","g1pubs/bls.go","g2pubs/bls.go"],[("binary extended Euclid","fq.go, fr.go: Inverse"),("shift and scan loops","fqrepr.go, frrepr.go"),("exponentiation and double-and-add loops","Exp, MulBits, Mul, MulFR, MulBig"),("loops over lists and over the Miller schedule","pairing.go, g2.go, g1pubs/bls.go, g2pubs/bls.go")])
p("C33","Rejection searches find a point",
 "Try-and-increment hashing and random point sampling find a usable candidate, and do so after few attempts, for every message, domain and reader.",
 ["inputs"],"all messages, domains and readers","A run of unusable candidates is an event of tiny probability.",
 ["g1.go","g2.go"],[("HashG2WithDomain, RandG1, RandG2","g1.go, g2.go")])
p("C34","Printed forms denote the value exactly",
 "For every value, the printed form determines it: fixed-width integers print all their words in order, most significant first, leading zeros included; prime-field elements print their canonical residue (never the internal Montgomery words); extension elements print all their coefficients in order; a point prints its affine coordinates, whatever its projective representative, and the identity prints a marker of its own; keys and signatures print the scalar or point they hold. Equal values print alike, different values differently, and printing changes nothing.",
 ["inputs","configurations"],"all values of all printable types; both builds",
 "The tests print values only in failure messages; a dropped leading zero, a swapped coefficient or a Montgomery word in a log shows on particular values only.",
 ["fq.go","fr.go","fq2.go","fq6.go","fq12.go","fqrepr.go","frrepr.go","g1.go","g2.go","g1pubs/bls.go","g2pubs/bls.go"],[("String methods","fq.go, fr.go, fq2.go, fq6.go, fq12.go, fqrepr.go, frrepr.go, g1.go, g2.go"),("String of keys and signatures","g1pubs/bls.go, g2pubs/bls.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
