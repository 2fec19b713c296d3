#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and from which check binaries exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "explicit exhaustive enumeration of inputs of the real code against an exact reference"
SEQ = "explicit-state exploration of operation sequences on the real code against a reference model"
T = {
 # id: (technique, level, note)
 "C01": (ENUM, "exploration", "every operand tuple for all small moduli, plus all boundary operands for boundary moduli of every word width, against 128-bit/bignum arithmetic; values between the boundary classes of the wide words are not enumerated"),
 "C02": (ENUM, "exploration", "every length up to several blocks times all placements of extreme entries, for each modulus kind; exact big-integer oracle"),
 "C03": (ENUM, "exploration", "every (value, modulus) of the 8-bit words and boundary pairs of the wider ones; oracle: coprimality and the defining equations"),
 "C04": (SEQ, "exploration", "every chain of operations up to a depth from all boundary start values, against exact integers modulo the prime; two recorded known findings"),
 "C05": (ENUM, "exploration", "every operand of the 8-bit word and boundary operands of the others, every power-of-two modulus"),
 "C06": (ENUM, "exploration", "every operand of the 8-bit word and all boundary operands of the others against exact integers"),
 "C07": (ENUM, "exploration", "every modulus below a bound against a sieve, under an enumerated set of generator outputs, and all listed strong pseudoprimes with every base script"),
 "C08": (ENUM, "exploration", "every pair of elements for all 8-bit prime fields and several 16-bit ones, boundary pairs for the large ones; every operator form"),
 "C09": (ENUM, "exploration", "every value, every modulus kind and every basis width for the small fields; boundary values for the large ones; every destination content class"),
 "C10": (ENUM, "exploration", "every polynomial for tiny fields, all unit vectors and boundary vectors (the transform is linear) for every supported length of larger ones, direct evaluation as oracle"),
 "C11": (ENUM, "exploration", "every coefficient, degree and length for the small fields; boundary coefficients for the large ones"),
 "C12": (ENUM, "exploration", "every order and many enumerated generator scripts per field, exact multiplicative order as oracle"),
 "C13": ("stateless model checking of the generated code: every interleaving up to the order of independent steps (dynamic partial-order reduction with sleep sets) under a controlled scheduler, plus preemption-bounded families with allocation points, with happens-before watching of every load and store", "model_checking", "the code generated by the NTT derive runs under a scheduler that owns locks, once-cells, atomics, threads and shared maps; sequentially consistent memory; thread counts and bounds stated in the evidence"),
 "C14": (SEQ, "model_checking", "every sequence of requests up to a depth, each in a forked copy of the process so that the global cache is fresh; the model is the set of cached lengths"),
 "C15": (SEQ, "model_checking", "every operation sequence up to a depth over a small ring against the ring definition, all operator forms"),
 "C16": (SEQ, "model_checking", "every operation sequence up to a depth over a small ring against evaluations of the represented polynomials"),
 "C17": (ENUM, "exploration", "every ciphertext pair and key for tiny moduli and dimensions, every modulus kind; phase computed independently"),
 "C18": (ENUM, "exploration", "every ciphertext/key over the tiny ring, every rotation and extraction index; phase computed independently"),
 "C19": (ENUM, "exploration", "every message, polynomial and basis over tiny rings with scripted keys and noise; exact phase including the noise contributed by each digit"),
 "C20": (ENUM, "exploration", "every LWE ciphertext, LWE key and ring key of toy dimensions, with noiseless and with scripted noisy keys; full-size parameters for selected phases"),
 "C21": (ENUM, "exploration", "every input ciphertext of toy dimensions and moduli, every basis and enumerated key pairs; exact phase with noiseless rows"),
 "C22": (ENUM, "exploration", "every input ciphertext of toy dimensions, every LWE dimension (divisor of the ring dimension or not); exact phase with noiseless rows"),
 "C23": (ENUM, "exploration", "every component value for each pair of small moduli, boundary values of the large ones; exact rational rounding"),
 "C24": (ENUM, "exploration", "every message, every noise and every (t, q) pair up to a bound, boundary noises above it"),
 "C25": (ENUM, "exploration", "every message and enumerated generator scripts (every noise value and mask) with enumerated keys"),
 "C26": (ENUM, "exploration", "every gate, every input combination and every admissible input noise for toy parameters of every step order; truth tables at the full-size parameter sets"),
 "C27": (SEQ, "model_checking", "breadth-first search over pools of ciphertexts under all gates up to a depth, against boolean evaluation with the noise margin as an invariant"),
 "C28": (ENUM, "exploration", "every generator output in the deciding bits, exact counting of the outcomes"),
 "C29": (SEQ, "model_checking", "every sequence of reads of every kind up to a depth from every buffer offset, against AES counter mode computed by an independent implementation"),
 "C30": (ENUM, "exploration", "every byte position and boundary value pair, every slice length, against u128"),
 "C31": (ENUM, "exploration", "the full product of boundary choices for every constructor argument against an independently written validity predicate"),
 "C32": (SEQ, "model_checking", "every sequence of evaluations up to a depth on one evaluator, compared with the first evaluation"),
 "C33": ("stateless model checking of the real evaluators: every interleaving of whole evaluations and of the fork-join branches up to the order of independent steps (dynamic partial-order reduction), with happens-before watching of every load and store, conflicting ones becoming scheduling points", "model_checking", "each result is compared with the same evaluation alone in a fresh process; toy parameter sets; two to four threads; sequentially consistent memory"),
 "C34": (ENUM, "exploration", "every value and bit count of the 8- and 16-bit words and all boundary values of the wider ones"),
 "C36": ("explicit-state exploration of call sequences on the real code against a model of three variables, and stateless model checking of concurrent calls: every interleaving up to the order of independent steps under a controlled scheduler, with the outcomes of all orders of the calls as the specification", "model_checking", "the crates are built with the feature count_ntt; two to three threads with up to three calls each; sequentially consistent memory"),
 "C37": (SEQ, "exploration", "every history of generations and encryptions up to a depth, all rows compared pairwise, rows of evaluation keys recovered by probes; value pairs over small moduli"),
 "C35": (ENUM, "exploration", "enumerated generator scripts over toy parameters, every key kind and step order"),
}
checks, na = [], []
for l in open(f"{ROOT}/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    b = i.lower() + ".rs"
    if os.path.exists(f"{ROOT}/harness/src/bin/{b}") or os.path.exists(f"{ROOT}/sched/src/bin/{b}"):
        t, lv, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check has been built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks link the unmodified crates. Randomness is owned by replacing the dependency rand with a copy (shims/rand) whose thread_rng serves chosen outputs; for C13 and C33 std, once_cell and rayon are replaced with controlled copies and the crates are compiled with callbacks at loads and stores."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1); open(f"{ROOT}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
