#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Modular arithmetic with a general modulus is exact",
  "For every supported modulus (at least 2, at least two spare bits in the word) and every operand in range, reduction of one-, two- and many-word integers and modular addition, subtraction, negation, multiplication, multiplication by a precomputed factor, and powers with any exponent return exactly the canonical residue of the integer result. The lazy forms return a congruent value below twice the modulus, and the value-returning and in-place forms of an operation agree.",
  ["inputs", "configurations"], "all moduli, operands and exponents of the four word sizes",
  "Unit tests draw a handful of random u32/u64 operands for a random modulus; carries and off-by-one corrections show up only for particular modulus/operand pairs.",
  ["algebra/src/modulus/barrett/internal_macros.rs", "algebra/src/modulus/barrett/ops.rs", "algebra/src/modulus/shoup/internal_macros.rs", "algebra/src/reduce/macros.rs"],
  [("Barrett quotient estimate and final correction", "algebra/src/modulus/barrett/internal_macros.rs"), ("Shoup precomputed quotient", "algebra/src/modulus/shoup/internal_macros.rs")])
p("C02", "Modular dot product sums every term at every length",
  "For every supported modulus kind, the modular dot product of two equally long vectors of reduced values is the residue of the sum of all the pairwise products, whatever the length (including zero and lengths that are not a multiple of any block size) and however large the entries.",
  ["inputs", "configurations"], "all vector lengths, all reduced entries, all moduli",
  "Only one length is ever tested, so terms dropped in a partial block or overflow of the accumulator with maximal entries pass unnoticed.",
  ["algebra/src/modulus/barrett/internal_macros.rs", "algebra/src/modulus/powof2/internal_macros.rs"],
  [("blocked accumulation of double-width products", "algebra/src/modulus/barrett/internal_macros.rs (dot_product_reduce)")])
p("C03", "Modular inverse exists exactly for coprime values",
  "For every supported modulus and reduced value, the fallible modular inverse succeeds exactly when the value is coprime with the modulus, and then multiplying by it gives one; the infallible inverse and modular division return the same and never return a wrong number. The gcd of any two integers is exact, and the extended gcd of two positive integers within that range returns it together with integer coefficients that combine them to it.",
  ["inputs", "configurations"], "all moduli and values, all pairs of integers in range",
  "Tests sample a few random prime moduli; composite moduli, zero, one, and sign corrections of the coefficients are not covered.",
  ["algebra/src/utils/gcd.rs", "algebra/src/reduce/macros.rs", "algebra/src/modulus/barrett/ops.rs"],
  [("extended Euclid with sign fix-up", "algebra/src/utils/gcd.rs")])
p("C04", "Special-prime fields stay exact under chains of operations",
  "In the 64-bit prime field with modulus 2^64-2^32+1 and in the 31-bit prime field with modulus 2^31-2^27+1, every finite chain of additions, subtractions, negations, multiplications, powers, inversions, divisions and reductions applied to any starting values yields a value congruent to the exact integer computation, and the two representations of the same residue are never told apart by conversion to an integer.",
  ["inputs", "histories"], "all chains of operations from all starting values",
  "Tests apply a single operation to random canonical operands; results that are not canonical are never fed into a further operation.",
  ["algebra/src/modulus/goldilocks/mod.rs", "algebra/src/modulus/goldilocks/ops.rs", "algebra/src/modulus/baby_bear/mod.rs", "algebra/src/modulus/baby_bear/ops.rs"],
  [("carry/borrow corrections by 2^32-1", "algebra/src/modulus/goldilocks"), ("Montgomery form", "algebra/src/modulus/baby_bear")])
p("C05", "Power-of-two and native-word modular arithmetic is exact",
  "For every power-of-two modulus and for the native word size, reduction, addition, subtraction, negation, multiplication and dot products of arbitrary words, and powers of reduced words with any exponent, return exactly the canonical residue of the integer result, and value-returning and in-place forms agree.",
  ["inputs", "configurations"], "all words, exponents and power-of-two moduli of every word size",
  "Tests use a few random 64-bit operands that are already reduced.",
  ["algebra/src/modulus/powof2/mod.rs", "algebra/src/modulus/powof2/internal_macros.rs", "algebra/src/reduce/macros.rs"],
  [("wrapping operation followed by a mask", "algebra/src/modulus/powof2/internal_macros.rs")])
p("C06", "Double-word helpers, wrapping operations and casts are exact",
  "Widening multiplication, carrying addition, carrying multiplication, borrowing subtraction, the wrapping operations, the bit-count helpers and the numeric casts agree, for every operand and carry, with exact integer arithmetic split into a high and a low word.",
  ["inputs"], "all operands and carry-ins of every word size",
  "Tests do not cover them directly; a lost carry needs specific operands.",
  ["algebra/src/primitive/widening/widening_mul.rs", "algebra/src/primitive/widening/carrying_add.rs", "algebra/src/primitive/widening/carrying_mul.rs", "algebra/src/primitive/widening/borrowing_sub.rs", "algebra/src/primitive/wrapping.rs", "algebra/src/primitive/cast.rs", "algebra/src/primitive/bits.rs"],
  [("native wide types", "algebra/src/primitive/widening")])
p("C07", "The primality test never rejects a prime or accepts a small composite",
  "The primality test answers true for every prime modulus, and answers false for every composite modulus that its number of rounds makes overwhelmingly likely to be recognised, in particular for numbers that fool a single fixed base; its answer for composites must not depend on only the first round.",
  ["inputs", "configurations"], "all moduli, all choices of random witnesses",
  "Tests check a handful of known primes and composites with small factors.",
  ["algebra/src/utils/prime.rs", "algebra_derive/src/prime.rs"],
  [("small-prime trial division followed by Miller-Rabin rounds", "algebra/src/utils/prime.rs")])
p("C08", "Derived fields are prime fields with canonical values",
  "A field type declared with a prime modulus behaves as the integers modulo that prime: every operator in every by-value, by-reference and in-place form, negation, inverse, division, power, fused multiply-add and conversions from machine integers return the exact residue in canonical form, and the fast forms return a congruent value below twice the modulus. Equal residues compare, order, hash, print and serialise equally, constants zero, one, minus one and maximum are right, and deserialisation always yields a canonical value.",
  ["inputs", "programs", "configurations"], "all field elements, all raw integers given to constructors, every declared modulus and word size",
  "Tests do a few random operations on one small field per type.",
  ["algebra_derive/src/field.rs", "algebra_derive/src/ops.rs", "algebra_derive/src/basic.rs", "algebra_derive/src/fhe_field.rs"],
  [("generated operator impls", "algebra_derive/src/ops.rs"), ("canonicalising constructor", "algebra_derive/src/field.rs")])
p("C09", "Gadget decomposition recomposes exactly from bounded digits",
  "For every modulus, every basis width not larger than the modulus and every value, the number of digits is the least that covers the modulus, every digit is below the base, and the digits weighted by successive powers of the base sum to the value. This holds for scalars, for polynomials and for integer words, in the allocating, in-place and digit-by-digit forms, whatever the destination contained before.",
  ["inputs", "configurations", "histories"], "all values, basis widths and moduli, all previous contents of the destination",
  "The tests use one basis with fresh destinations.",
  ["algebra/src/decompose_basis.rs", "algebra_derive/src/decomposable_field.rs", "algebra/src/polynomial/native_polynomial.rs", "lattice/src/utils/decompose_basis.rs"],
  [("mask and shift, least digit first", "algebra_derive/src/decomposable_field.rs")])
p("C10", "The number-theoretic transform is an exact ring isomorphism",
  "For every transform-friendly prime and every supported power-of-two length (including one), the forward transform evaluates the polynomial at the odd powers of the primitive root, the inverse transform recovers exactly the original coefficients, and pointwise products correspond to multiplication modulo X^N+1. In-place, slice and consuming forms agree, outputs are canonical, and inputs in the lazily reduced range accepted by the transform give the same results.",
  ["inputs", "configurations"], "all polynomials, lengths and transform-friendly moduli",
  "Tests compare a few random polynomials at one or two lengths.",
  ["algebra/src/transformation/ntt_table.rs", "algebra/src/transformation/mod.rs", "algebra_derive/src/ntt.rs", "algebra/src/polynomial/native_polynomial.rs", "algebra/src/polynomial/ntt_polynomial.rs"],
  [("lazy butterflies with bit-reversed root tables", "algebra/src/transformation/ntt_table.rs")])
p("C11", "Monomial transforms equal the general transform",
  "For every coefficient and every degree in 0..2N, the dedicated transforms of c*X^d, of X^d and of -X^d give exactly the transform of that monomial modulo X^N+1, regardless of what the output buffer held.",
  ["inputs", "configurations"], "all coefficients, degrees, lengths and previous buffer contents",
  "Tests sample random degrees at one length.",
  ["algebra/src/transformation/ntt_table.rs", "algebra/src/transformation/mod.rs"],
  [("lookup of ordinal roots by index arithmetic", "algebra/src/transformation/ntt_table.rs")])
p("C12", "Roots of unity and transform tables are primitive, minimal, deterministic",
  "A root returned for a power-of-two order is a primitive root of unity of exactly that order, the minimal one is the smallest such field element whatever random choices were made to find it, and an error is returned exactly when no such root exists. Consequently two transform tables generated independently for the same field and length are interchangeable, and what a table lists are the powers of its root and their inverses.",
  ["inputs", "configurations", "histories"], "all moduli and orders, all random choices in the root search",
  "Tests do not compare independently generated tables nor any failing order.",
  ["algebra_derive/src/ntt.rs", "algebra/src/transformation/ntt_table.rs"],
  [("random generator search followed by minimisation over odd powers", "algebra_derive/src/ntt.rs")])
p("C13", "Concurrent use of the shared transform tables is race free",
  "When several threads request or initialise transform tables of the same or different lengths at the same time, in any interleaving, every request returns the right table for its length, no request reads the shared cache while another modifies it, none is lost or deadlocks, and all requests of one length obtain the same table.",
  ["schedules"], "all interleavings of concurrent requests and initialisations",
  "The tests are single threaded with respect to one field type, or hit the races only with vanishing probability.",
  ["algebra_derive/src/ntt.rs"],
  [("process-wide cache of tables guarded by a lock", "algebra_derive/src/ntt.rs")],
  state=[("table cache", "length -> shared table, one per field type", "algebra_derive/src/ntt.rs")])
p("C14", "Unsupported transform lengths are reported and leave no trace",
  "Requesting a transform table for a length the field does not support returns an error, and whatever sequence of supported and unsupported requests and initialisations came before, every later supported request still returns the right table and every unsupported one still returns an error.",
  ["histories", "fault_sequences", "inputs"], "all sequences of valid and invalid requests",
  "Tests only ever request valid lengths.",
  ["algebra_derive/src/ntt.rs"],
  [("validity check of the length and the locked slow path", "algebra_derive/src/ntt.rs")],
  state=[("table cache", "length -> shared table", "algebra_derive/src/ntt.rs")])
p("C15", "Polynomial arithmetic is the negacyclic ring in every form",
  "Polynomials in coefficient form behave as elements of Z_q[X]/(X^N+1): addition, subtraction, negation, scalar multiplication, multiplication, evaluation, resizing and coefficient access give the exact result in every owned, borrowed and in-place form, for any sequence of operations and whatever the destination held before.",
  ["inputs", "programs", "histories"], "all polynomials, all operation sequences, all operator forms",
  "Tests check a few operator forms on random polynomials once each.",
  ["algebra/src/polynomial/native_polynomial.rs", "algebra/src/polynomial/ntt_polynomial.rs"],
  [("operator impls over coefficient slices", "algebra/src/polynomial/native_polynomial.rs")])
p("C16", "Transformed-polynomial arithmetic matches coefficient arithmetic",
  "Every operation on polynomials in transformed form (addition, subtraction, negation, scalar and pointwise multiplication, fused multiply-accumulate in exact and fast variants, inversion-free accumulation into a dirty destination) corresponds to the ring operation on the polynomials it represents, for any sequence of operations.",
  ["inputs", "programs", "histories"], "all operands, all operation sequences, all previous destination contents",
  "Tests cover single random products only.",
  ["algebra/src/polynomial/ntt_polynomial.rs"],
  [("pointwise operator impls and fused helpers", "algebra/src/polynomial/ntt_polynomial.rs")])
p("C17", "LWE ciphertext arithmetic tracks plaintext arithmetic exactly",
  "For LWE ciphertexts over any modulus, adding, subtracting, negating and scaling ciphertexts, component-wise and in place, changes the phase under every secret key exactly as the same operation on the phases, and freshly generated samples have phase equal to the sampled noise.",
  ["inputs", "programs", "histories"], "all ciphertexts, secret keys, scalars and operation sequences",
  "Tests perform each operation once with random operands.",
  ["lattice/src/lwe.rs"],
  [("component-wise modular operations", "lattice/src/lwe.rs")])
p("C18", "RLWE arithmetic, rotation and extraction track the phase exactly",
  "For RLWE ciphertexts, addition, subtraction, multiplication by a polynomial or by any power X^r with r below 2N, conversion to and from the transformed form, and fresh encryptions of zero change the phase exactly as the same ring operation on it, in every form. Extracting an LWE ciphertext (in reversed key order or not, full or truncated to the dimension the key uses) yields an LWE ciphertext whose phase is the constant coefficient of the phase, so that after a rotation it is any coefficient.",
  ["inputs", "programs", "histories"], "all ciphertexts, rotations, coefficient indices and secret keys",
  "Tests perform each operation once with random operands, and rotations and extractions only at some index.",
  ["lattice/src/rlwe.rs", "lattice/src/utils/space.rs"],
  [("sign-flipping rotation and extraction loops", "lattice/src/rlwe.rs")])
p("C19", "Gadget and RGSW products multiply the phase",
  "The product of a gadget encryption of m with a plaintext polynomial has phase m times that polynomial, and the product of an RLWE ciphertext with an RGSW encryption of m has phase m times the original phase, plus exactly the noise contributed by the decomposition digits; all owned, accumulate, in-place, fast and transformed forms agree, whatever the scratch space held.",
  ["inputs", "programs", "histories", "configurations"], "all messages, ciphertexts, secret keys, bases, noises and scratch contents",
  "Tests multiply one random ciphertext at one parameter set and decode the noisy result.",
  ["lattice/src/gadget/rlwe.rs", "lattice/src/rgsw.rs", "lattice/src/rlwe.rs", "lattice/src/utils/space.rs"],
  [("digit by digit accumulation over gadget rows", "lattice/src/gadget/rlwe.rs"), ("rows for -s*m and m", "lattice/src/rgsw.rs")])
p("C20", "Blind rotation multiplies the table by X^phase for every ciphertext",
  "For every LWE ciphertext modulo 2N, every binary or ternary LWE secret key, every binary or ternary ring key and every test polynomial, blind rotation returns an RLWE encryption of the test polynomial multiplied by X raised to minus the phase (equivalently its constant term is the table entry selected by the phase, negated in the second half), with noise within the analytic bound; with noiseless keys it is exact.",
  ["inputs", "configurations", "programs"], "all ciphertexts, secret keys, key types and look-up tables",
  "There are no tests of blind rotation.",
  ["fhe_core/src/blind_rotation/mod.rs", "fhe_core/src/blind_rotation/binary.rs", "fhe_core/src/blind_rotation/ternary.rs"],
  [("accumulator loop over RGSW keys", "fhe_core/src/blind_rotation/binary.rs"), ("pair of RGSW keys per ternary digit", "fhe_core/src/blind_rotation/ternary.rs")])
p("C21", "LWE key switching preserves the phase",
  "For every input ciphertext, key pair, basis and modulus, key switching from the ring-derived LWE key to the small LWE key returns a ciphertext whose phase under the small key equals the original phase under the ring key up to the noise of the key rows used; with noiseless rows it is equal, and it does not depend on anything but the ciphertext and the key.",
  ["inputs", "configurations"], "all ciphertexts, secret keys, key types, bases and dimensions",
  "There are no tests of key switching.",
  ["fhe_core/src/key_switch/lwe.rs", "fhe_core/src/key_switch/mod.rs", "lattice/src/utils/decompose_basis.rs"],
  [("digit decomposition and subtraction of key rows", "fhe_core/src/key_switch/lwe.rs")])
p("C22", "RLWE key switching preserves the phase",
  "For every input ciphertext (RLWE or LWE modulo the ring modulus), key pair, basis and LWE dimension, whether or not it divides the ring dimension, the ring-based key switching returns an LWE ciphertext under the small key whose phase equals the original constant-term phase up to the noise of the key rows; with noiseless rows it is equal.",
  ["inputs", "configurations"], "all ciphertexts, secret keys, key types, bases and pairs of dimensions",
  "There are no tests of key switching.",
  ["fhe_core/src/key_switch/rlwe.rs"],
  [("chunked embedding of the LWE mask into ring elements", "fhe_core/src/key_switch/rlwe.rs")])
p("C23", "Modulus switching rounds every component to the nearest",
  "Switching a ciphertext between moduli maps every component v modulo q to the integer nearest to v*q'/q reduced modulo q', for every component value, ciphertext length and pair of moduli (up to the relative precision of a double where the product of the moduli exceeds 51 bits); the allocating, in-place and same-width forms agree, whatever the destination held, so the phase moves by at most half a unit per secret coefficient plus one half.",
  ["inputs", "configurations", "histories"], "all component values, modulus pairs and word types",
  "There are no tests of modulus switching.",
  ["fhe_core/src/modulus_switch.rs"],
  [("floating-point or integer scaling with rounding", "fhe_core/src/modulus_switch.rs")])
p("C24", "Message encoding and decoding invert each other within the noise margin",
  "For every message space size t and ciphertext modulus q (powers of two with t not above q) and every message type, decoding an encoded message returns the message for every noise of absolute value below half of q/t, in both signs and across the wrap-around, and decoding any value returns a message below t.",
  ["inputs", "configurations"], "all messages, noises, t, q and message types",
  "There are no tests of encoding.",
  ["fhe_core/src/plaintext.rs"],
  [("scaling by q/t and rounding", "fhe_core/src/plaintext.rs")])
p("C25", "Decrypting a fresh encryption returns the message",
  "For every parameter set, secret key, message and outcome of the random generator, decrypting a fresh encryption returns the message when the sampled noise is within the margin, the reported noise is exactly the magnitude of the sampled noise, and encryption and decryption through every public wrapper agree.",
  ["inputs", "configurations"], "all messages, masks, secret keys, key types and noise values",
  "There are no tests of encryption in the core or boolean layers.",
  ["fhe_core/src/secret_key.rs", "bool/src/encrypt.rs", "bool/src/decrypt.rs", "bool/src/key_gen.rs"],
  [("b = <a,s> + encode(m) + e and its inverse", "fhe_core/src/secret_key.rs")])
p("C26", "Every bootstrapped gate computes its truth table",
  "For every way of ordering the bootstrapping steps, every secret key type, every supported parameter set and every combination of input ciphertexts whose noise is within the margin, each gate (not, and, nand, or, nor, xor, xnor, majority, mux) returns a ciphertext that decrypts to the gate's truth table value with noise within the margin again. The plain functions of the same names compute the same truth tables.",
  ["inputs", "configurations"], "all gates, input combinations, input noises, keys, key types, step orders",
  "There are no tests of the gates; an example runs one parameter set with random inputs.",
  ["bool/src/bfhe/evaluate.rs", "fhe_core/src/parameter.rs", "bool/src/bfhe/parameters.rs"],
  [("linear combination, modulus switch, blind rotation, key switch", "bool/src/bfhe/evaluate.rs")])
p("C27", "Circuits of any depth and shape evaluate correctly",
  "Any composition of gates, including feeding outputs of any gate (not included) into any input of any other and reusing a ciphertext several times, decrypts to the boolean evaluation of the circuit, and the noise of every intermediate ciphertext stays within the margin however deep the circuit is.",
  ["programs", "histories"], "all circuits, of any depth",
  "No test composes gates.",
  ["bool/src/bfhe/evaluate.rs"],
  [("noise refresh by bootstrapping every gate", "bool/src/bfhe/evaluate.rs")],
  state=[("ciphertext noise", "distance of the phase from the encoding of its bit", "LWE ciphertext")])
p("C28", "Samplers follow their distributions and stay in range",
  "Uniform sampling hits every residue equally often over the accepted generator outputs, binary sampling gives 0 and 1 equally, ternary sampling gives 0 with one half and 1 and -1 with one quarter each, in scalar and bulk forms alike; the noise samplers return the rounding of a centred noise of magnitude below the stated maximum, represented canonically in the modulus. A sampler that cannot produce a value is refused at construction rather than hanging, and every outcome is a function of the generator outputs only.",
  ["inputs", "configurations", "fault_sequences"], "all outputs of the random generator",
  "Tests can only draw samples and look at a few statistics.",
  ["algebra/src/random.rs", "algebra/src/utils/sample.rs", "lattice/src/utils/sample.rs", "algebra/src/polynomial/native_polynomial.rs"],
  [("rejection sampling", "algebra/src/random.rs"), ("bit slicing of generator words", "lattice/src/utils/sample.rs")])
p("C29", "The pseudo-random stream is AES in counter mode, read consistently",
  "The generator's output is the AES-128 encryption of successive counter values under its seed, the block cipher agrees with the standard for single and batched blocks, and the sequence of bytes delivered is the same stream of 32-bit words whatever mix of bit, byte, word, double-word, block and bulk reads is used, including across buffer boundaries: no word is delivered twice or skipped. Two generators with one seed, or a generator and its clone, deliver identical streams.",
  ["histories", "inputs"], "all interleavings of read operations, all seeds and block values",
  "Tests compare one or two vectors and never mix reads.",
  ["algebra/src/utils/prg.rs", "algebra/src/utils/aes.rs"],
  [("AES-NI key schedule and batched encryption", "algebra/src/utils/aes.rs"), ("buffered block generator with a counter", "algebra/src/utils/prg.rs")],
  state=[("counter and buffer position", "which block is produced and read next", "algebra/src/utils/prg.rs")])
p("C30", "128-bit block operations agree with 128-bit integers",
  "The 128-bit block type agrees with 128-bit integers under every conversion (bytes, pairs of words, slices), every bit operation in its value and assigning forms, equality, hexadecimal printing, and a random block takes every one of its bits from a different bit of the generator; constructing one from a slice of any length other than 16 is refused.",
  ["inputs"], "all block values",
  "Tests compare a few fixed vectors.",
  ["algebra/src/utils/block.rs", "algebra/src/utils/sse2neon.rs"],
  [("SIMD intrinsics", "algebra/src/utils/block.rs")])
p("C31", "Parameter validation accepts exactly the usable parameter sets",
  "Building a parameter set succeeds exactly when the ring dimension N is a power of two, 2N divides the ring modulus minus one and fits the ciphertext word, the plaintext and ciphertext moduli are powers of two with the first not above the second, the basis width does not exceed the width of the modulus, and the order of the bootstrapping steps fits the ring key type and the dimensions. A bad ring dimension, ring modulus, 2N too large for the ciphertext word, or step order is reported by its own error rather than a panic, every other bad input is refused, every accessor of an accepted set returns the value that was given, and key generation from it succeeds.",
  ["configurations", "inputs"], "all combinations of parameter fields",
  "There are no tests of parameter validation.",
  ["fhe_core/src/parameter.rs", "fhe_core/src/error.rs", "bool/src/bfhe/parameters.rs"],
  [("ordered checks in the constructor", "fhe_core/src/parameter.rs")])
p("C32", "Evaluation is a pure function of ciphertexts and keys",
  "Evaluating a gate, a bootstrap or a key switch gives the same ciphertext whenever it is applied to the same ciphertexts with the same key, whatever was evaluated before with that evaluator, in whatever order, and its inputs are not changed.",
  ["histories"], "all histories of earlier evaluations with the same evaluator",
  "No test evaluates twice with one evaluator.",
  ["bool/src/bfhe/evaluate.rs", "lattice/src/utils/space.rs", "fhe_core/src/blind_rotation/mod.rs", "fhe_core/src/key_switch/lwe.rs", "fhe_core/src/key_switch/rlwe.rs"],
  [("scratch space allocated per call", "lattice/src/utils/space.rs")])
p("C33", "Concurrent evaluation equals sequential evaluation",
  "Evaluations with one shared evaluator from several threads, and the parallel branches inside the multiplexer gate, give the same ciphertexts as the same evaluations run one after another, in any interleaving and whichever branch finishes first.",
  ["schedules"], "all interleavings of concurrent evaluations",
  "No test evaluates concurrently.",
  ["bool/src/bfhe/evaluate.rs", "algebra_derive/src/ntt.rs"],
  [("fork-join of two branches", "bool/src/bfhe/evaluate.rs (mux)"), ("shared immutable keys and table cache", "algebra_derive/src/ntt.rs")])
p("C34", "Reversing the low bits of an index is an exact involution",
  "For every word size, value and number of bits below the word size, reversing the low bits of the value returns the number whose low bits are those bits in reverse order and whose other bits are zero; on values of that many bits it is its own inverse and a permutation.",
  ["inputs"], "all values and bit counts of every word size",
  "No test covers it directly.",
  ["algebra/src/utils/reverse.rs"],
  [("word bit reversal and shift", "algebra/src/utils/reverse.rs")])
p("C35", "Key generation yields keys of the declared type and shape",
  "A generated secret key pack has an LWE key of the declared length whose entries are all of the declared kind (0/1, or 0/1/-1 modulo the ciphertext modulus), a ring key of the declared length whose transformed form is its transform and whose entries are of the declared kind unless the bootstrapping order shares one key between the LWE and ring layers, in which case the two represent the same secret; every such key occurs, and the evaluation keys encrypt exactly that secret with noise within the declared distribution.",
  ["inputs", "configurations"], "all outcomes of the random generator, key types and step orders",
  "There are no tests of key generation.",
  ["fhe_core/src/secret_key.rs", "fhe_core/src/blind_rotation/mod.rs", "fhe_core/src/key_switch/mod.rs", "bool/src/bfhe/evaluate.rs"],
  [("key sampling per declared type", "fhe_core/src/secret_key.rs")])
p("C36", "Transform counters count every transform exactly once",
  "With the feature count_ntt, counting starts switched off and with nothing counted. While it is switched on, every number-theoretic transform adds exactly one to the forward counter and every inverse transform exactly one to the inverse counter, whichever form of call, length or thread performs it, and nothing else changes them except their own clearing; while it is switched off they keep their values. What concurrent threads read, and the counters once they have finished, are those of some order of their calls. No transform's result depends on being counted.",
  ["histories", "schedules"], "every sequence of calls, every interleaving of threads that transform, read and clear",
  "No test enables the feature.",
  ["algebra/src/transformation/ntt_table.rs", "bool/examples/count_ntt.rs"],
  [("the counters", "algebra/src/transformation/ntt_table.rs")])
p("C37", "Every ciphertext and key row has fresh randomness from the given generator",
  "Whatever is generated - secret keys, fresh encryptions, samples of every lattice ciphertext, blind rotation and key switching keys - is a function of the parameters, the key and the generator that is passed in: equal generator states give equal results and different ones different results. In every history of calls with one generator, no two ciphertexts or key rows share their mask or their noise, not even up to a constant factor, a sign or a rotation, and the entries of a mask and the noises of one or of consecutive ciphertexts are chosen independently: every combination of two of them occurs, and no stretch of them is used again.",
  ["histories", "inputs", "configurations"], "all histories of generations and encryptions, all outcomes of the generator, all parameter sets",
  "Decryption and evaluation work just as well when a mask or a noise is used twice, so no functional test can notice.",
  ["fhe_core/src/secret_key.rs", "lattice/src/lwe.rs", "lattice/src/rlwe.rs", "lattice/src/gadget/rlwe.rs", "lattice/src/rgsw.rs", "fhe_core/src/blind_rotation/ternary.rs", "fhe_core/src/key_switch/lwe.rs", "fhe_core/src/key_switch/rlwe.rs"],
  [("one zero sample per row", "lattice/src/gadget/rlwe.rs"), ("mask and noise drawn per encryption", "lattice/src/lwe.rs (generate_random_zero_sample)")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
