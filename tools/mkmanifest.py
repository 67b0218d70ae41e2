#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below and properties.jsonl.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
AI = "abstract interpretation of SSA in a polynomial/carry domain (value-numbering dataflow, joins at merges)"
FLD = "abstract interpretation of SSA in a field-polynomial domain (value-numbering dataflow, joins at merges)"
GRP = "abstract interpretation of SSA in a free-group / bit-selector domain (trace partitioning by exponent length, joins at merges)"
NOTE = " Every obligation is decided from the current source for all abstract inputs; anything the analysis cannot decide is reported as a violation. Trusted: the analyzer in /verif/analyzer, golang.org/x/tools/go/ssa, its models of the standard-library calls."
checks = {
 "C01": (AI + " plus asm", "Decides the word primitives of both builds (amd64 assembly and portable Go) for all word values: exact sums/products, carries, Montgomery congruence and range."),
 "C02": (AI, "Decides every base-field operation on words, both builds, for all canonical operands: congruence modulo q and canonical range of the result."),
 "C03": (AI, "Decides every scalar-field operation on words, both builds, for all canonical operands: congruence modulo r and canonical range of the result."),
 "C04": ("abstract interpretation of SSA with inductive modular loop invariants found by elimination; fraction identities for the towers", "Decides the binary extended-Euclid loops of both prime fields for every operand (termination is C32), and inversion and division in the extensions as identities of fractions, the zero cases separately."),
 "C05": (AI, "Decides shifts for every count, bit tests, lengths, comparison and all conversions of both fixed-width integer types for all values."),
 "C06": (FLD, "Decides FQ2 arithmetic and structure maps as polynomial identities over the symbolic operand coordinates."),
 "C07": (FLD, "Decides FQ6 and FQ12 arithmetic, conjugation and sparse products as polynomial identities over the symbolic operand coordinates, including aliased operands."),
 "C08": (FLD, "Decides the Frobenius map of every power (by residue class of the power) on FQ2, FQ6 and FQ12 against coefficientwise q-power with the basis constants raised to q."),
 "C09": (GRP, "Decides every exponentiation and integer-multiple routine for every exponent of every bit length up to 384 (256 for scalars, 640 / thorough 1536 for big integers), the base being an arbitrary element of the monoid."),
 "C10": ("abstract interpretation of SSA in a free-monoid domain with field-order relations", "Decides success and the square of the returned root for an arbitrary non-zero square, non-square and zero of each field, and the Legendre symbol likewise (exponentiation and field operations by their contracts C02, C03, C06, C08, C09)."),
 "C11": (FLD, "Decides G1 projective addition, doubling, mixed addition and negation against the chord-tangent law modulo the curve equation, all coincidence cases separately."),
 "C12": (FLD, "Decides G2 projective addition, doubling, mixed addition and negation against the chord-tangent law modulo the curve equation, all coincidence cases separately."),
 "C13": (GRP, "Decides every scalar-multiplication routine for every scalar of every bit length up to the type's width (big integers: 640 bits, thorough 1536), cofactor scaling and the subgroup test, for an arbitrary point, using the group-law contracts of C11/C12."),
 "C14": (FLD, "Decides conversion both ways and equality for all points in all representations, coincidence cases separately, using the inversion contract of C04."),
 "C15": (FLD + " with byte-level integer polynomials", "Decides every byte of the compressed form of every point, and that decoding it gives the point back."),
 "C16": (FLD + " with byte-level integer polynomials", "Decides for every byte string the exact acceptance condition of the four decoders and of the key/signature deserializers, and the point returned."),
 "C17": (FLD + " with byte-level integer polynomials", "Decides every byte of the raw form of every finite point and that loading it gives the point back."),
 "C18": (FLD, "Decides that every prepared line, for every step of the loop over the curve parameter, is a tangent/chord line up to a non-zero factor of a proper subfield and that the running point stays on track, and that the Miller loop over lists of up to 9 pairs (also pairs sharing points or prepared coefficients) multiplies exactly those lines at the right points with the square-and-multiply schedule, for arbitrary points."),
 "C19": (GRP, "Decides the exponent of the final exponentiation for an arbitrary non-zero element (free monoid with inverse, conjugation and Frobenius contracts of C04/C07/C08) and divides it by (q^12-1)/r exactly; zero and unchanged-argument cases separately."),
 "C20": (FLD + " over uninterpreted pairing values", "Decides every identity/non-identity combination of the pairing entry points and of pair lists, the acceptance condition of the comparison and that nothing passed in is written."),
 "C21": (GRP, "Decides for both placements that keys, signatures and the accepted equation are exactly the BLS ones for every key, message (arbitrary length) and domain, over the contract of C13 (scalar multiplication) and, analysed as part of this check, those of the pairing comparison and of what the hashes absorb."),
 "C22": (GRP, "Decides the sums and the exact acceptance condition of every aggregate form for all keys, signatures and messages of arbitrary content and length, list lengths up to 4 with arbitrary messages, and up to 257 with distinct or colliding constant messages (further lengths around every integer constant and array size the code mentions), duplicates and mismatched lengths included."),
 "C23": (AI + " over symbolic byte strings", "Decides which bytes are hashed, in which order, and which integers are made of the digests, for messages of arbitrary content and length; SHA-256 is uninterpreted."),
 "C24": (FLD + "; cofactor clearing over Z[w] multiples of a generic point", "Decides for every field element (exceptional ones separately, both square-root outcomes) that the SWU maps land on the isogenous curves with the right candidate and sign, that the isogenies are rational maps to the target curves of the right degree with the kernel sent to the identity, that the outputs are added on the target curve, and that the clearing steps multiply by one scalar divisible by the cofactor; also the older encoding."),
 "C25": (AI + " over symbolic bytes", "Decides the bytes of every key, that deserializing gives an equal key, that keys and signatures come only from checked decompression, and that random keys and field elements are exactly what is drawn from the reader given, errors included (the encodings themselves are C15/C16; crypto/rand.Int is trusted)."),
 "C26": ("interprocedural points-to and effect analysis over SSA with per-function summaries (Salcianu-Rinard style, flow-sensitive heap)", "Decides for every exported function and method of the three packages, in both builds, which storage it may write and which storage its results and updated receivers may share; library calls by effect models, unknown effects are reported."),
 "C27": (FLD + ", all analyses composed: assume-guarantee over the contracts, plus call-graph coverage", "Decides that no index, nil, assertion, division or explicit-panic condition is feasible in any function reachable from the decoding, hashing, verifying and aggregating calls: each is analysed for every input its contract admits (the analyses of C01-C08, C10-C12, C14-C25, with the exponentiation loops of C09/C13 for every exponent over one abstract element), and every reachable function must be covered; lists have the lengths of C22 and those the code's own constants single out.",),
 "C28": ("abstract interpretation of the package initialisers, then exact evaluation of the defining equations", "Decides every built-in constant: moduli, Montgomery and exponent constants, generators, cofactors, Frobenius tables, isogeny polynomials, roots of unity and map constants, in both builds."),
 "C32": ("termination analysis over SSA: induction variables with loop-invariant bounds; ranking functions over inductive invariants (bounds, coprimality) found by elimination; abstract execution of the remaining loops to the end; call-graph acyclicity", "Decides every loop reachable from the exported functions and methods in both builds: counters by the form of their test and steps (wrap-around included), the extended-Euclid loops of both prime fields for every element by a ranking function, exponent-, schedule- and size-driven loops by following the abstract execution of every input until no state is left at the loop head.  The three rejection searches are excluded (C33); library calls are trusted to return."),
 "C34": (FLD + " and a text domain (formats applied to symbolic numbers)", "Decides the text every String method returns, as a sequence of literal pieces and symbolic numbers in a given base and width, for every value of every printable type in both builds."),
 "C29": ("dataflow over parsed Plan 9 assembly: ABI typestate (argument/frame bounds, initialised reads, SP, BP)", "Decides the calling convention of every assembly routine and its agreement with the Go declaration."),
}
extra = os.path.join(here, "tools", "manifest_checks.json")
na = {
 "C30": "Timing and memory-access independence quantify over micro-architectural run time; the library is deliberately variable-time (binary GCD, branches on scalar bits), so no structural clause holds that a static rule could enforce.",
 "C31": "Unforgeability is a computational-hardness statement about adversaries, not a fact any analysis of this source can decide; the functional clauses it rests on are C16, C21-C24.",
 "C33": "Whether a try-and-increment or sampling search finds a usable candidate depends on the values of SHA-256 and of the random reader at run time; no static argument bounds them.  What each attempt computes and that the first usable one is returned are decided under C23 and C25; the search loops are excluded from C32 by name.",
}
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        checks[k] = tuple(v)
for i in ids:
    if i not in checks and i not in na:
        na[i] = "No check is claimed yet: the analysis that decides it is under construction."
m = {
 "version": 1,
 "setup_cmd": "sh tools/build.sh",
 "checks": [{
   "property": i,
   "quick_cmd": "sh check.sh " + i,
   "thorough_cmd": "VERIF_TIER=thorough sh check.sh " + i,
   "technique": checks[i][0],
   "level": "other",
   "level_note": checks[i][1] + NOTE,
 } for i in ids if i in checks],
 "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na and i not in checks],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
