#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": observe or [], "hook_needed": None}), note))


PUBS = ["g1pubs/bls.go", "g2pubs/bls.go"]
p("C01", "Single signatures: genuine ones verify, anything altered does not",
  "For every secret key in [1, r), every message of any length and, where a domain is used, every 8-byte domain, the signature made with the key verifies under that key's public key, directly as well as after copying or sending key and signature through their byte encodings, and however often it is verified. "
  "It never verifies for a different message, a different domain, a different public key or an altered signature (negated, doubled, shifted, moved by the curve endomorphism, replaced by the identity or by a signature of something else, any bit of an encoding flipped). "
  "A plain signature is not a domain signature or the other way round; all of this holds for both key placements.",
  ["inputs", "histories"], "all secret keys, messages (lengths 0 to tens of kilobytes), domains, alterations of message, key, signature and encoding; both key placements; both builds",
  "the tests sign a handful of fixed or random 16-character messages and check one or two wrong ones",
  PUBS + ["pairing.go", "hash.go", "g1.go", "g2.go"],
  [("sign / verify", "Sign, Verify, SignWithDomain, VerifyWithDomain in g1pubs/bls.go and g2pubs/bls.go"), ("pairing comparison", "CompareTwoPairings in pairing.go")],
  ["results of signing and verification", "decoder results"])
p("C02", "Public keys, signatures and aggregates are exactly the specified bytes",
  "For every secret key and message the public key is the compressed point key times generator, the signature is the compressed point key times the message's hash (optionally with a domain), a derived key is the specified hash of the seed reduced mod r, and an aggregate is the compressed sum, byte for byte as an independent implementation of the same specification computes them. "
  "Signing is deterministic: the same key and message give the same bytes on every call and every supported platform.",
  ["inputs", "configurations"], "all secret keys, messages, domains, seeds, and lists of keys or signatures; both builds",
  "the tests have known-answer vectors for a few keys and messages only; any self-consistent deviation elsewhere (a wrong multiple, another hash branch) passes sign-then-verify tests",
  PUBS + ["hash.go", "g1.go", "g2.go"],
  [("hash then multiply", "Sign and SignWithDomain"), ("generator multiplication", "PrivToPub"), ("hash to curve", "HashG1, HashG2, HashG2WithDomain"), ("compression", "CompressG1, CompressG2")],
  ["serialized keys, signatures, aggregates"])
p("C03", "Aggregate verification over distinct messages accepts exactly what was signed",
  "Verifying an aggregate signature against a list of public keys and a list of messages succeeds exactly when the lists have equal length, the messages are pairwise distinct (including the empty message), and the aggregate is the sum of the signatures of every listed key on its message, in whatever order. "
  "A missing, additional, repeated, exchanged or altered key, message, signature or domain makes it fail, and so does any repeated message, even when all its signers signed it or when a key was crafted to cancel another one. "
  "The variant with a domain accepts genuine aggregates over distinct messages and rejects the same alterations.",
  ["inputs", "histories"], "all lists of signers and messages (sizes 0 to hundreds, messages that are prefixes, paddings or one-bit variations of each other, empty), all single alterations, duplicates at any pair of positions, rogue keys",
  "the tests aggregate two to a few dozen signatures, with one altered message, and one duplicate pattern",
  PUBS + ["pairing.go"],
  [("distinctness check", "VerifyAggregate in both packages"), ("pairing product", "VerifyAggregate, VerifyAggregateWithDomain"), ("multi-pairing", "MillerLoop")],
  ["verification results"])
p("C04", "Aggregation is plain addition over every history of operations",
  "Whatever sequence of aggregating, summing, copying, encoding and decoding is applied to public keys and signatures, in any order and grouping, including with the empty aggregate and with an object aggregated into itself or a copy, each key and signature stays the multiple of its base that ordinary addition predicts, and no operation changes an object other than its target. "
  "Verification of one common message under a list of keys succeeds exactly when the signature is the message's hash times the sum of the listed keys.",
  ["histories", "inputs"], "all operation histories over pools of keys and signatures, all lists for common-message verification, in both packages",
  "the tests aggregate fresh objects once, in one order; they do not interleave aggregation with copies, encodings and reuse",
  PUBS + ["g1.go", "g2.go"],
  [("in-place aggregation", "Aggregate on keys and signatures"), ("batch aggregation", "AggregateSignatures, AggregatePublicKeys"), ("common-message verification", "VerifyAggregateCommon")],
  ["encodings of every live object after each step"])
p("C05", "Decoding accepts exactly the canonical encodings of group elements",
  "A 48- or 96-byte string is accepted as a public key, signature or point exactly when it is the canonical compressed encoding of a member of the prime-order subgroup: compression flag set, coordinates below the field modulus, point on the curve and in the subgroup, infinity only as its single form. "
  "Every accepted string re-encodes to itself and every decoded point is the one the format defines; the unchecked decoders differ only in not requiring the subgroup.",
  ["inputs"], "all 2^384 and 2^768 byte strings: all flag combinations, coordinates at and above the modulus, points outside the subgroup and of small order, off-curve coordinates, malformed infinities, bit flips of valid encodings, random bytes",
  "the tests decode some valid vectors and a few malformed ones",
  ["g1.go", "g2.go"] + PUBS,
  [("decompression and its checks", "DecompressG1, DecompressG2 and the Unchecked variants"), ("key and signature decoders", "DeserializePublicKey, DeserializeSignature")],
  ["acceptance, decoded point, re-encoding"])
p("C06", "Encodings represent the value and survive a round trip",
  "Compressed, raw and textual forms of points, keys and signatures are determined by the value they represent, whatever internal representation it has, and carry exactly its affine coordinates. "
  "Decoding an encoding gives back an equal value, into fresh objects as well as over objects that held another value before, and raw coordinates outside the field are refused for the second group. "
  "Copies and blank aggregates encode like their originals.",
  ["inputs", "histories"], "all points of both curves in all projective representations, all keys and signatures, all destinations for decoding",
  "the tests round-trip a few points; raw forms only through one path, never into a used object or from a non-trivial representation",
  ["g1.go", "g2.go"] + PUBS,
  [("compressed forms", "CompressG1/CompressG2 and decompression"), ("raw forms", "SerializeBytes, SetRawBytes"), ("normalisation", "ToAffine")],
  ["bytes and strings of encodings"])
p("C07", "Hashing to the groups is the specified function of the message",
  "For every message the hash into either group is the point which the specified construction (expansion with the fixed prefix and counters, simplified SWU map, isogeny, cofactor clearing) defines, always a finite point in the prime-order subgroup; the same holds for the hash of a 32-byte message with a domain and for hashing a seed to a scalar. "
  "Hashing reads every byte of its input, depends on nothing else, and leaves the input alone.",
  ["inputs"], "all messages of any length, all message-domain pairs, all seeds",
  "the tests check a few vectors; exceptional branches of the maps, block-length boundaries and sign choices are not sampled",
  ["hash.go", "g2.go"],
  [("hash to curve", "HashG1, HashG2, HashG2WithDomain"), ("cofactor clearing", "ClearH, ScaleByCofactor and the endomorphism route"), ("scalar hash", "HashSecretKey")],
  ["affine coordinates of the hash"])
p("C08", "Point addition, doubling, negation follow the group law without exception",
  "Addition (projective and mixed), doubling, negation and conversion between representations compute the group law of the curve for all pairs of points: equal points, opposite points, points with the same y, infinity on either side in any representation, points outside the prime-order subgroup, arguments that are one and the same object. "
  "The on-curve test accepts exactly the solutions of the curve equation.",
  ["inputs"], "all pairs of points on either curve in all projective representations, including all exceptional pairs",
  "the tests use a few fixed triples; exceptional cases in non-trivial representations are hardly sampled",
  ["g1.go", "g2.go"],
  [("addition formulas", "Add, AddAffine, Double, NegAssign of G1Projective/G2Projective"), ("curve equation", "IsOnCurve")],
  ["affine coordinates of the results"])
p("C09", "Scalar multiplication, cofactor clearing and subgroup test are exact",
  "Multiplying any point by any integer up to 384 bits gives the integer multiple, through every entry point, for scalars at and beyond the group order as well as sparse and extreme bit patterns. "
  "Cofactor multiplication always lands in the prime-order subgroup as the specified multiple; the subgroup test accepts exactly the points of order dividing r, including for points of small order.",
  ["inputs"], "all points of either curve, all scalars below 2^256 (field form) and 2^384 (integer form)",
  "the tests multiply by a few scalars and test membership for random subgroup points",
  ["g1.go", "g2.go", "hash.go"],
  [("double-and-add", "Mul, MulFR, MulBig"), ("cofactors", "ScaleByCofactor, ClearH"), ("subgroup test", "IsInCorrectSubgroupAssumingOnCurve")],
  ["affine coordinates of the multiples", "subgroup test results"])
p("C10", "The pairing is the specified bilinear map; products and comparisons are exact",
  "The pairing of a times the first generator with b times the second is the generators' pairing to the power ab, with the specified value, 1 if either point is infinity, of order r otherwise, and independent of representation. "
  "The product loop over any number of pairs, with infinities, repetitions and shared prepared points anywhere, followed by the final exponentiation, is the product of the pairings; comparing two pairings says exactly whether they are equal. "
  "The final exponentiation is the specified power for every non-zero element, and reports failure for zero.",
  ["inputs", "histories"], "all pairs of subgroup points, all lists of pairs, all elements of the degree-12 field, reuse of prepared points across calls",
  "the tests check one known value and bilinearity for one random pair",
  ["pairing.go", "g2.go", "fq12.go"],
  [("Miller loop", "MillerLoop, G2AffineToPrepared"), ("final exponentiation", "FinalExponentiation"), ("comparison", "CompareTwoPairings")],
  ["coefficients of pairing values", "comparison results"])
p("C11", "Prime-field arithmetic is exact and canonical for both primes",
  "For both prime fields addition, subtraction, multiplication, squaring, doubling, negation, inversion, division, exponentiation, Legendre symbol, square root, multiplication by bits or bytes and hashing agree with integer arithmetic modulo the prime for all operands, with every result in the one canonical form. "
  "Zero has no inverse, non-residues have no root, conversions from integers are injective and leave their argument unchanged, and using one object as both operands changes nothing.",
  ["inputs"], "all operand pairs, in particular those whose internal limbs are 0, all-ones or at the modulus and those that carry across limbs",
  "the tests use random operands, which meet a carry into the last limb with probability 2^-64",
  ["fq.go", "fr.go", "fqrepr.go", "frrepr.go", "primitivefuncs_amd64.s", "stub_fallback.go"],
  [("Montgomery arithmetic", "MulAssign, SquareAssign, reduction in fq.go and fr.go"), ("roots and symbols", "Sqrt, Legendre, Inverse"), ("conversions", "FQReprToFQ, FRReprToFR, ToRepr")],
  ["integer values of the results"])
p("C12", "Extension-field tower arithmetic is exact",
  "In the degree 2, 6 and 12 extensions addition, subtraction, doubling, negation, multiplication, squaring, inversion, division, exponentiation, conjugation, sparse multiplications, multiplication by the non-residues, Frobenius maps of every power, norm, Legendre symbol and square root equal polynomial arithmetic over the prime field for all operands. "
  "This holds through long sequences of in-place operations and for operands that are the same object.",
  ["inputs", "histories"], "all operands including those with zero, equal or opposite coefficients and subfield elements; all Frobenius powers; all sequences of in-place operations",
  "the tests use a few fixed vectors and random commutativity checks",
  ["fq2.go", "fq6.go", "fq12.go"],
  [("tower arithmetic", "methods of FQ2, FQ6, FQ12"), ("Frobenius coefficients", "tables in fq2.go, fq6.go, fq12.go")],
  ["coefficients of the results"])
p("C13", "Fixed-width integers behave as integers modulo their width",
  "The 384-bit and 256-bit integers add, subtract, shift by any amount, halve, double, compare, measure, index bits and convert from and to bytes, text in any base and big integers exactly as integers modulo 2^384 and 2^256. "
  "Values that do not fit, negative values and malformed text are rejected with an error. "
  "Iterating over the bits of a word array yields each bit exactly once, from the most significant down, then ends.",
  ["inputs"], "all integers, shift amounts, bases, texts, word arrays",
  "the tests use a few fixed values and shifts",
  ["fqrepr.go", "frrepr.go", "bititerator.go"],
  [("integer operations", "methods of FQRepr and FRRepr"), ("conversions", "FQReprFromBigInt, FQReprFromString, FQReprFromBytes and the FR ones"), ("bit order", "BitIterator.Next")],
  ["integer values"])
p("C14", "Word and multi-word primitives are exact for every operand",
  "The exported carry, borrow and multiply-accumulate steps, the 384-bit addition, subtraction and multiplication, and the Montgomery reduction compute the exact integer results (reduction: the residue times the inverse of 2^384, within its documented input range) for all operands, in the assembly and in the portable implementation, without touching their operands.",
  ["inputs", "configurations"], "all 64-bit words and 384-bit numbers, in particular every pattern of carry chains across limbs; both implementations",
  "the tests use a few operands and random ones; a dropped carry shows with probability 2^-64 on random operands",
  ["primitivefuncs_amd64.s", "stub.go", "stub_fallback.go", "asm/asm.go"],
  [("assembly primitives", "primitivefuncs_amd64.s"), ("portable primitives", "stub_fallback.go")],
  ["returned words"])
p("C15", "Assembly and portable builds give identical results for every call",
  "Every exported operation gives the same observable outcome for the same inputs on the build that uses assembly and on the portable build for other platforms, whatever the word size, compiler version or optimisation level.",
  ["configurations", "inputs"], "all exported operations, all inputs, all builds",
  "the test suite runs one build at a time and compares nothing across builds",
  ["stub.go", "stub_fallback.go", "primitivefuncs_amd64.s", "fq.go", "fr.go", "fqrepr.go", "frrepr.go", "bititerator.go"],
  [("build-tagged twin implementations", "stub.go + primitivefuncs_amd64.s versus stub_fallback.go")],
  ["outcome of each call in the builds' traces"])
p("C16", "Operations change nothing but their declared target and depend on nothing else",
  "No exported operation changes an argument (including the spare capacity behind a byte slice), an exported package variable or an earlier result; only in-place operations change their own receiver. "
  "Repeating a call with equal or the very same arguments gives the same outcome, whatever calls came in between, and results share no memory with arguments, package variables or other results. "
  "Passing an object as both receiver and argument has the same effect as passing an equal separate one.",
  ["histories", "inputs"], "all exported operations, in any order and any mixture, with any arguments",
  "the tests look at results only, use fresh objects, and cannot see corruption of shared constants that shows in a later call",
  ["fq.go", "fq2.go", "fq6.go", "fq12.go", "fr.go", "fqrepr.go", "frrepr.go", "g1.go", "g2.go", "hash.go", "pairing.go"] + PUBS,
  [("copying before in-place arithmetic", "Copy calls throughout"), ("shared constants", "package variables FQ6One, FQ12One, G1AffineOne, ...")],
  ["arguments, package variables and earlier results before and after each call"])
p("C17", "Concurrent use is free of data races and gives the sequential results",
  "Any number of goroutines may run any operations at the same time, from the very first call in a process on, sharing keys, signatures, messages, points and prepared points that none of them is modifying in place: every call returns what it returns when run alone, no shared object or package variable changes, and no memory is accessed in a race.",
  ["schedules", "histories"], "all interleavings of all exported operations on shared read-only and on private objects",
  "the tests are sequential",
  ["pairing.go", "hash.go", "fq.go", "fq2.go", "fq6.go", "fq12.go", "fr.go", "frrepr.go", "g1.go", "g2.go"] + PUBS,
  [("no mutable package state", "package variables are read only"), ("value receivers and copies", "Copy before in-place arithmetic")],
  ["outcome of every concurrent call", "race detector reports"])
p("C18", "Random values: valid, uniform, determined by the source, errors reported",
  "Random field elements, points and secret keys are valid (reduced, on the curve, in the prime-order subgroup, never the point at infinity), uniformly distributed with independent components, and determined by the bytes that the given source delivers, in whatever pieces it delivers them. "
  "If the source fails before it has delivered what is needed, the failure is reported and no key, point or element is returned.",
  ["inputs", "fault_sequences"], "all byte streams, all ways of cutting them into short reads, a failure after any byte",
  "the tests draw from one working source and look at no distribution and no failing source",
  ["fq.go", "fr.go", "fq2.go", "fq6.go", "fq12.go", "g1.go", "g2.go"] + PUBS,
  [("rejection sampling", "RandFQ, RandFR"), ("random points", "RandG1, RandG2"), ("random keys", "RandKey")],
  ["values, errors and bytes taken from the source"])
p("C19", "Hostile bytes never crash, hang or fool decoding and verification",
  "Decoding arbitrary bytes as key or signature and verifying what decodes, alone or in aggregates, against any message always returns, without a panic, and never reports success for keys and signatures that were not made with the matching secret key (the identity as signature of the identity key aside). "
  "This includes the encodings of infinity, of small-order and off-subgroup points, and lists of any, also unequal, lengths.",
  ["inputs"], "all byte strings as key and signature, all messages, all list shapes",
  "the tests verify well-formed objects",
  PUBS + ["g1.go", "g2.go", "pairing.go"],
  [("decoder checks", "DeserializePublicKey, DeserializeSignature"), ("verification", "Verify, VerifyAggregate, VerifyAggregateCommon and domain variants"), ("infinity in the pairing", "MillerLoop")],
  ["return or panic; verification results"])
p("C20", "Equality, zero tests and ordering are those of the represented values",
  "Two points, keys or field elements compare equal exactly when they represent the same value, whatever their internal representation; equality is reflexive and symmetric and agrees with equality of encodings and of text forms; infinity equals only infinity. "
  "Field elements are ordered as integers (extension elements by their most significant component first), and the parity used for signs is the one this order gives.",
  ["inputs"], "all pairs of values in all representations, in particular pairs that differ in one coordinate, one component, one limb or one bit",
  "the tests compare a few equal and a few random unequal values",
  ["g1.go", "g2.go", "fq.go", "fq2.go", "fq6.go", "fq12.go", "fr.go"] + PUBS,
  [("comparison methods", "Equals, Equal, Cmp, IsZero, Parity")],
  ["comparison results"])
p("C21", "Secret keys: exact import, export and derivation",
  "Importing a secret key from 32 bytes or an integer accepts exactly the values below the group order, keeps the value exactly (so export, text form and field element give it back, and the public key is its multiple of the generator) and refuses all others without returning a key. "
  "Deriving a key from a seed is a function of the 32 seed bytes with the specified value; using a key never changes it.",
  ["inputs", "histories"], "all 2^256 byte strings and integers, in particular around the group order and with leading zeros; all seeds",
  "the tests import a few keys in range",
  PUBS + ["fr.go", "frrepr.go", "hash.go"],
  [("import and export", "DeserializeSecretKey, KeyFromFQRepr, Serialize"), ("derivation", "DeriveSecretKey, HashSecretKey")],
  ["accepted or refused; exported bytes"])
p("C22", "Field-to-curve maps hit the specified point for every field element",
  "Recovering a point from its x-coordinate succeeds exactly when the curve has such a point, and returns the one with the requested sign of y. "
  "The two maps from field elements to the second curve are total, give the specified curve point for every element, zero and exceptional elements included, and change sign with their argument.",
  ["inputs"], "all elements of the base field and of its quadratic extension, both sign choices",
  "the tests map a few fixed elements",
  ["g1.go", "g2.go", "hash.go"],
  [("point from x", "GetG1PointFromX, GetG2PointFromX"), ("maps", "SWEncodeG2, OptimizedSWU2MapHelper")],
  ["coordinates of the result"])
p("C23", "The assembly generator produces exact primitives",
  "The assembly that the generator in asm/ writes when run on this tree assembles, and the library built with it has the specified behaviour: every primitive it implements gives the exact integer result for all operands, without touching its operands or the caller's state, and field arithmetic on top of it is exact.",
  ["inputs", "configurations"], "all 64-bit words and 384-bit numbers as operands of the freshly generated code, in particular every pattern of carry chains",
  "no test runs the generator: the suite only sees the assembly that was generated some time ago and checked in",
  ["asm/asm.go", "primitivefuncs_amd64.s", "stub.go"],
  [("generator", "main in asm/asm.go, muladdc, muladdcConst"), ("modulus and its Montgomery inverse in the generator", "QFieldModulus, montInvFQ in asm/asm.go")],
  ["words returned by the generated code"])

p("C24", "Calls leave nothing behind",
  "However many calls a process makes, with whatever inputs, whether they succeed or fail, what they keep is bounded: reachable memory does not grow with the number of calls, no goroutine and no open file remains after a call has returned, and nothing is written to the standard streams.",
  ["histories", "inputs"], "all histories of calls of exported operations with new inputs each time (new keys, messages, points, encodings; accepted and refused; failing sources)",
  "a test makes a few calls and ends; what accumulates per input shows only over long histories, and what remains after a refused or failing call is not looked at by any test",
  PUBS + ["hash.go", "g1.go", "g2.go", "pairing.go", "fr.go", "fq.go"],
  [("verification and signing", "Sign, Verify, VerifyAggregate and the variants with a domain"), ("hashing", "HashG1, HashG2, HashG2WithDomain, HashSecretKey"), ("decoding", "DecompressG1, DecompressG2"), ("random elements", "RandFQ, RandFR, RandG1, RandG2")],
  ["reachable heap after collection", "number of goroutines", "open files", "standard streams"])

TECH = {
    "C24": "runtime monitor of long histories: reachable heap, goroutines, open files and standard streams before and after",
    "C23": "runtime monitor of the freshly generated assembly: the generator is run, the library built with its output and executed against an independent reference model (math/big)",
    "C15": "differential runtime monitoring: call traces of the builds compared line by line",
    "C16": "runtime purity monitor over every exported operation (snapshots of arguments, globals and earlier results)",
    "C17": "Go race detector plus concurrent-versus-sequential outcome monitor under stress schedules",
    "C18": "runtime monitor with fault-injected entropy sources and distribution statistics",
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for d, _ in P:
        i = d["id"]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, "runtime monitor: executions of the real code, two builds, judged by an independent reference model (math/big)"),
            "level": "exploration",
            "level_note": "held on the executions of this run (counts and samples in the evidence); nothing is claimed about inputs or schedules not run"})
    json.dump({"version": 1, "setup_cmd": "python3 check.py --warm", "checks": checks, "not_applicable": []},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
