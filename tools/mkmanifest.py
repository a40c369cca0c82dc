#!/usr/bin/env python3
"""Writes MANIFEST.json: per property, the deciding method and what it does and does not assure."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLC generates scripts from the TLA+ specification, the real library runs them, TLC validates the recorded traces against the specification"
TRUST = ("Trusted: the specification's reading of RFC 7693 (checked against published vectors by spec/FuncTest), TLC and its Bitwise/Json modules, "
         "rustc, the harness that executes and records. Bounded: behaviours outside the generated set are only argued for by the design models.")
NOTES = {
    "C01": (TV + "; digests evaluated bit for bit in TLC",
            "Every length 0..1300, varied contents, and every whole number of blocks up to 4096 (and a byte more or less), powers of two and random lengths to 2^29 bytes, "
            "against BLAKE2s written in TLA+ (long ones through chaining-value witnesses that TLC checks). Features std and no_std, SIMD and portable. "
            "Design: DStream (lazy block buffer, every cutting, small block) against the definition."),
    "C02": (TV + "; digests evaluated bit for bit in TLC",
            "Every bit of every parameter field, every value of small fields, every key length, random combinations, on boundary messages; keyed long messages. "
            "Design: DParams (packing of fields into words, digit by digit)."),
    "C03": (TV + "; design model of the builder checked exhaustively",
            "Every ordered pair and triple of values of a field, every ordered pair of fields, random orders, reuse, clone and change after to_state; digests must be functions of the last accepted values. Design: DParams."),
    "C04": (TV, "All values near limits, values that fit only after truncation, extremes of the type, slices of more than 4 GiB as keys; the builder is observed after each refusal. Design: DParams."),
    "C05": (TV + "; exhaustive cover of the buffering's control graph; Apalache: inductive invariant of its lengths for pieces of any size",
            "One script per transition of the control graph of the block buffer (x keyed, stale bytes, finalized, last-node), through update and every io::Write entry; every whole number of blocks to 4096 cut three ways; long inputs to 2^29 bytes (thorough: beyond 2^32). "
            "Design: DStream checks contents exhaustively for a small block; UStream is inductive for the real block and unbounded lengths (lengths only)."),
    "C06": (TV + "; design models checked exhaustively",
            "Control-graph covers with finalize at every state, singly, in groups of eight and for BLAKE2sp; random histories each compared with itself without finalizes. Design: DStream, DSp, DMulti."),
    "C07": (TV + "; all interleavings of small programs; threads, also under Miri's data-race detector",
            "All interleavings of two three-step programs in every relation of the two objects, random interleavings of four, concurrent calls by eight threads of every entry point; natively and under Miri (data races are reported whether or not they change a result). "
            "Native thread schedules are sampled, not enumerated. Design: DClone, DThreads (all interleavings at the grain of buffer fills and compressions)."),
    "C08": (TV + "; counts required exactly", "Counts after every call of the control-graph covers, keyed and not, of eight-way walks and long inputs. Design: DStream, DClone, DSp, DMulti."),
    "C09": (TV + "; digests evaluated bit for bit in TLC", "Flag set, unset and set again in every control state, in every lane of the multi-way functions, through parameters and hashers. Design: DStream; UStream."),
    "C10": (TV + "; digests evaluated bit for bit in TLC",
            "Every length 0..2300, keys and hash lengths, every whole number of 512-byte groups up to 512, powers of two to 2^29 bytes through witnesses. Design: DSp (contents, exhaustively for small sizes); USp (Apalache, real sizes, any pieces, lengths only)."),
    "C11": (TV + "; exhaustive cover of the double buffer's control graph; Apalache: inductive invariant of its lengths",
            "As C05, for the 1024-byte double buffer. Design: DSp, USp."),
    "C12": (TV + "; design models of the joint loop and of the vector code",
            "Every mix of buffered bytes, lengths, parameters, keys and flags of the generators (pairs of lanes covered), regrouping, single calls in between; every whole number of blocks to 2048; compared with separate hashers of the same history. Design: DMulti (every mix of lengths, exhaustively for small sizes), DSimd (word placement)."),
    "C13": (TV + "; design models; Apalache: inductive invariant of the index arithmetic",
            "Every mix of lengths and parameters of the generators, a key in each lane, same slices, every whole number of blocks to 4096, large inputs; compared with separate hashers. Design: DOnce, DSimd; UOnce."),
    "C14": (TV + "; design models; Apalache: inductive invariant of the index arithmetic",
            "Parameter sets keyed and not, every whole number of blocks to 4096, large inputs. Design: DOnce, DSimd; UOnce."),
    "C15": (TV, "Every odd position with every kind of odd length, equal sums, lengths equal modulo 2^8, 2^16, 2^32 (real slices), empty and ragged groups; valid groups must return. Design: DOnce; UOnce."),
    "C16": (TV + "; each call of each implementation evaluated in TLC",
            "Portable, SSE4.1 and AVX2 routines called directly, lane sets with single bits, carries, extreme counters and flag words that differ between lanes, and through every dispatch of the public API. 2^800 inputs cannot be enumerated: DSimd checks the placement of words in the vector code for opaque contents, which covers all contents if lanewise arithmetic is right; arithmetic is sampled."),
    "C17": (TV + " as a self-composition: the same calls in all configurations, step by step",
            "std/no_std, release/debug, SIMD/portable natively; big-endian (s390x), 32-bit (i686), SSE4.1-only and pre-SSE4.1 x86-64 under Miri, with shorter scripts. Other CPUs are emulated. Design: DSimd."),
    "C18": (TV + "; chaining-value witnesses checked by TLC; Apalache: inductive invariant of the counter",
            "Hashers, groups of eight, hash8, exact functions and BLAKE2sp led across 2^31 and 2^32 bytes (per lane and in all) in many step sizes, by real slices of more than 4 GiB. The standard build also crosses 2^33 in groups whose counters straddle 0, 2^32 and 2^33. Beyond that only the design argument (UStream) and the counter inputs of C16 stand."),
    "C19": (TV + "; design model of hash values checked exhaustively", "All hash lengths, pairs with equal visible and different hidden bytes, prefixes, every position of a difference, slices of every kind. Design: DHash."),
    "C20": (TV + "; design model as a two-run comparison", "Pairs of objects of the same history and different secrets (zeros, ones, patterns, random), printed with {:?} and {:#?} after every call. Design: DSecret."),
    "C21": (TV + ": instruction traces (single-stepping) of comparisons must be functions of the public shape",
            "The sequence of executed instruction addresses of ==, != with hashes and slices, for contents equal, different everywhere, in one byte and in one bit at each place; as built by this rustc for this CPU. Data-dependent timing of single instructions is not observed. Design: DSecret."),
    "C22": (TV + ", run with inputs against guard pages, under AddressSanitizer and under Miri",
            "All generators' scripts, inputs at both ends of mapped pages and at all alignments, read-only; every call must return or panic as specified. Design: DStream, DOnce; UStream, USp, UOnce (no index leaves its slice)."),
    "C23": (TV + ": instruction traces (single-stepping) of whole computations must be functions of the public shape",
            "Pairs and more of secrets (zeros, equal lanes, single bits, patterns, random) for keys and messages through every entry point; as built by this rustc for this CPU; the addresses it accesses are C24's matter. Design: DSecret (branches)."),
    "C24": (TV + ": addresses and divisions (single-stepping, operands decoded) of whole computations and of comparisons must be functions of the public shape",
            "The computations of C23 and the comparisons of C21; the harness decodes each instruction's memory operand (all x86-64 forms that compilers emit, gathers included) before it runs. As built by this rustc for this CPU. Design: DSecret (places touched)."),
}


def main():
    props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
    assert [p["id"] for p in props] == sorted(NOTES)
    checks = [{"property": p["id"], "quick_cmd": "python3 tools/check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p["id"],
               "technique": "TLA+/TLC: " + NOTES[p["id"]][0], "level": "model_checking", "level_note": NOTES[p["id"]][1] + " " + TRUST} for p in props]
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": [],
         "notes": "No hooks: the harness uses the public API (and the doc-hidden benchmarks module) only."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
