#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
L = "src/lib.rs"; SP = "src/blake2sp.rs"; PO = "src/portable.rs"; SS = "src/sse41.rs"; AV = "src/avx2.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Default hashing computes BLAKE2s-256 for every message",
 "For every byte string, the one-shot hash function, and a default hasher fed that byte string in one update, return exactly the 32-byte BLAKE2s digest that RFC 7693 defines for it. This holds for the empty message, for every length relative to the 64-byte block, and for every byte content.",
 ["inputs"], "every message: all lengths (0, non-multiples, exact multiples of 64, very long) and all contents",
 "The vectors stop at 255 bytes of one counting pattern plus a few all-zero inputs; nothing checks other lengths or contents against an independent definition of BLAKE2s.",
 [L, PO, SS], [("blake2s / State::update / State::finalize", L), ("compress", PO), ("compress (SSE4.1)", SS)],
 [("State.h", "chaining value", L), ("State.count", "bytes absorbed", L)], ["return value of blake2s and State::finalize"])

prop("C02", "Every parameter combination yields the digest BLAKE2s defines for it",
 "For every valid choice of hash length, key, salt, personalization, fanout, max depth, max leaf length, node offset (48 bits), node depth, inner hash length and last-node flag, the digest of every message equals the BLAKE2s digest for that parameter block, with a non-empty key hashed as a zero-padded first block. Every parameter influences the digest in its own position and a digest has exactly the configured length.",
 ["inputs", "configurations"], "every valid parameter combination and every message, including keyed empty messages and messages ending on a block boundary",
 "One test sets all parameters at once with one value each; fields are never varied separately, combined, or taken to their extremes.",
 [L], [("Params::make_words", L), ("State::with_params", L)],
 [("Params", "the parameter block", L)], ["State::finalize after Params::to_state"])

prop("C03", "Parameter builders depend only on the last value set for each field",
 "A parameter builder's effect on later hashers is determined only by the most recent accepted value of each field, independent of the order of setter calls and of any earlier, longer or shorter, value. Creating a hasher neither changes the builder nor keeps a link to it: a builder can be reused, cloned or changed afterwards, and existing hashers are unaffected.",
 ["histories"], "every sequence of setter, clone and to_state calls on any number of builders (BLAKE2s and BLAKE2sp)",
 "One test overwrites one key once; no other overwriting, reordering, reuse or cloning of builders is tried.",
 [L, SP], [("Params setters zero-fill before copying", L), ("blake2sp::Params setters", SP)],
 [("Params.key/salt/personal", "fixed arrays that may hold residue of an earlier value", L)], ["digests of states made by to_state"])

prop("C04", "Parameter setters accept exactly the documented ranges",
 "Hash length 1..32, key up to 32 bytes, salt and personalization up to 8 bytes, max depth 1..255, node offset below 2^48, inner hash length 0..32, and any fanout, leaf length, node depth and last-node flag are accepted; every value outside those ranges panics, however large. A rejected call leaves the builder as it was.",
 ["inputs", "histories"], "every setter argument over its whole type, in any builder state, for BLAKE2s and BLAKE2sp",
 "The should_panic tests try one value just outside most ranges; node offset, larger values (such as ones that only fit after truncation), accepted boundary values and the builder after a rejection are not tested.",
 [L, SP], [("assert! in Params setters", L), ("assert! in blake2sp::Params setters", SP)], (), ["panic or return of each setter; digests made afterwards"])

prop("C05", "Streaming: any split of the input gives the one-shot digest",
 "For every message and every way of splitting it into consecutive update or std::io::Write calls, of any sizes including empty ones, the resulting digest is that of the whole message hashed at once. Writing reports every byte as consumed and never fails, and flushing changes nothing.",
 ["inputs", "histories"], "every split of every message into any number of pieces, for every parameter set, through update and through io::Write",
 "Tests use a halves split and byte-at-a-time feeding of all-zero or tiny inputs; leftover bytes in the internal buffer and mixed piece sizes around block boundaries are not reached.",
 [L], [("State::fill_buf / compress_buffer_if_possible / update", L), ("impl Write for State", L)],
 [("State.buf/buflen", "pending partial block, holding up to a full block back", L)], ["State::finalize, Write::write result"])

prop("C06", "Finalizing observes and never disturbs a hasher",
 "Finalizing a hasher, any number of times and at any point, returns the digest of exactly the bytes input so far and leaves the hasher as if it had not been called: repeating it gives the same digest, and further input continues the same message. This holds for BLAKE2s, BLAKE2sp and the eight-way finalize.",
 ["histories"], "every interleaving of updates, finalizes and flag changes on one hasher",
 "One test repeats finalize on the empty input and on 'abc'; finalize between pieces at buffered, full-buffer and post-compression states is not tested.",
 [L, SP], [("State::finalize works on a copy of the chaining value", L), ("finalize8", L), ("blake2sp::State::finalize clones leaves and root", SP)],
 (), ["State::finalize, finalize8, blake2sp::State::finalize"])

prop("C07", "Hashers are independent: clones, other instances and threads never interact",
 "Operations on one hasher or builder never affect any other, whether they are interleaved on one thread or run at the same time on several. A clone starts with exactly the history of its original and from then on the two evolve independently. Hashers, builders and hashes can be moved to, and shared with, other threads.",
 ["histories", "schedules"], "every interleaving of operations on several hashers, their clones and builders, including concurrent threads",
 "Clones appear only as a way to compute expected values before the original moves on; nothing runs hashers in parallel or continues both a clone and its original.",
 [L, SP], [("#[derive(Clone)] State, Params", L), ("no global or shared mutable state", L)], (), ["digests and counts of every instance"])

prop("C08", "count() is exactly the number of input bytes",
 "At every moment, the count reported by a BLAKE2s or BLAKE2sp hasher equals the total number of message bytes input so far through any interface. Keys, finalizing, cloning, flags and buffering do not change it.",
 ["histories", "inputs"], "every history of a hasher, keyed or not, BLAKE2s or BLAKE2sp, single or eight-way",
 "Tests check count for unkeyed hashers in a few feeding patterns only; keyed hashers, eight-way updates and long inputs are unchecked.",
 [L, SP], [("State::count", L), ("blake2sp::State::count", SP)],
 [("State.count", "bytes given to the compression function's counter", L), ("blake2sp::State.buflen", "bytes not yet given to leaves", SP)], ["count()"])

prop("C09", "The last-node flag takes effect exactly as last set, at finalization only",
 "The digest uses the last-node flag as most recently set, whether through the parameters or on the hasher at any time before finalizing, and setting it, also back to false, has no other effect. Setting the flag on the hasher is equivalent to having set it in the parameters.",
 ["histories", "inputs"], "every sequence of flag changes, updates and finalizes, alone and in each lane of the multi-way functions",
 "One test sets the flag once before hashing three bytes; clearing it, setting it late, toggling between finalizes and per-lane combinations are untested.",
 [L], [("State::set_last_node / finalize", L), ("finalize8", L)], [("State.last_node", "flag", L)], ["State::finalize, finalize8"])

prop("C10", "BLAKE2sp computes the eight-way tree hash for every message",
 "For every message, key up to 32 bytes and hash length, BLAKE2sp returns the digest of the BLAKE2sp tree: 64-byte chunks dealt round-robin to eight leaves (each keyed, last leaf flagged last-node) whose full 32-byte digests are hashed by an unkeyed last-node root carrying the same parameters. This holds for the empty message, every length relative to 64, 512 and 1024 bytes, and every content.",
 ["inputs", "configurations"], "every message, key and hash length",
 "Vectors stop at 255 bytes, so no leaf ever gets a second block; the only longer test compares multiples of 64 up to 1280 bytes, unkeyed, with the crate itself as the reference.",
 [SP, L], [("blake2sp::State::with_params", SP), ("blake2sp::State::finalize", SP)], [("blake2sp::State.leaf0..7, root", "tree nodes", SP)], ["blake2sp::blake2sp, blake2sp::State::finalize"])

prop("C11", "BLAKE2sp streaming: any split of the input gives the one-shot digest",
 "For every message and every way of splitting it into update or std::io::Write calls on a BLAKE2sp hasher, with finalizes in between or not, the digest is that of the whole message hashed at once. Writing reports every byte as consumed.",
 ["inputs", "histories"], "every split of every message, for every key and hash length",
 "One test splits off the first byte, for multiples of 64 bytes only; other buffer fill levels, several pieces and the shift of the half-full buffer with partial blocks are untested.",
 [SP], [("blake2sp::State::update double buffering", SP)], [("blake2sp::State.buf/buflen", "double buffer of 1024 bytes", SP)], ["blake2sp::State::finalize"])

prop("C12", "Eight-way update and finalize equal eight separate ones",
 "Updating eight hashers together with eight inputs leaves each one exactly as if it alone had been updated with its own input, and finalizing eight together returns, in order, exactly what finalizing each alone returns. This holds for every mix of input lengths (also empty), parameters, keys, flags and previously buffered bytes, and the hashers can be used singly or in other groups before and after.",
 ["inputs", "histories", "configurations"], "every combination of eight hasher states and eight input lengths and contents, and every sequence of mixed single and eight-way operations",
 "One test uses block-multiple inputs where at most one lane is short; unequal partial lengths, empty lanes, keyed lanes in every position and reuse after finalize8 are not covered.",
 [L, AV, PO], [("update8", L), ("finalize8", L), ("compress8", AV)], [("State.h/count/buf of each lane", "per-lane hash state", L)], ["finalize8, State::finalize, count"])

prop("C13", "hash8 equals eight separate hashes and refuses keys",
 "For every eight parameter sets without keys and every eight inputs of any, also different, lengths, hash8 returns in order the digests of hashing each input alone with its own parameters. If any of the eight parameter sets has a key it panics and returns no digest.",
 ["inputs", "configurations"], "every combination of eight keyless parameter sets and eight inputs; every position of a key",
 "Two tests use lengths 256..263 only; short, empty, mixed-length or exactly equal partial inputs and the refusal of keys are untested.",
 [L, AV, PO], [("hash8", L), ("compress8_vectorized", AV)], (), ["hash8 return value or panic"])

prop("C14", "hash4_exact and hash8_exact equal separate hashes",
 "For every parameter set, keyed or not, and every four or eight equally long non-empty inputs that are a multiple of the block size, the exact multi-way functions return, in order, exactly the digests of hashing each input alone with those parameters.",
 ["inputs", "configurations"], "every parameter set and every valid group of inputs",
 "Each is tested once, with 4-block constant inputs and one unkeyed parameter set; one-block, many-block, keyed and non-constant inputs are untested.",
 [L, SS, AV, PO], [("hash4_exact", SS), ("hash8_exact", AV), ("hash4_exact / hash8_exact", PO)], (), ["hash4_exact / hash8_exact return values"])

prop("C15", "The exact multi-way functions reject every invalid shape",
 "hash4_exact and hash8_exact panic, without returning any digest, whenever the inputs are not all of the same length, are empty, or are not a multiple of 64 bytes, whichever input is the odd one. Valid groups never panic.",
 ["inputs"], "every tuple of input lengths",
 "No test calls these functions with invalid lengths, although the checks are the safety precondition of unchecked pointer reads.",
 [L], [("assert! in hash4_exact / hash8_exact", L)], (), ["panic or return"])

prop("C16", "Every compression implementation is the BLAKE2s compression function",
 "The portable, SSE4.1 and AVX2 compression routines, single and in each lane of the 4-way and 8-way forms, compute exactly the RFC 7693 compression function for every chaining value, message block, 64-bit counter and last-block/last-node flags. Lanes never influence each other.",
 ["inputs", "configurations"], "every (chaining value, block, counter, flags) per lane and every implementation available on the machine",
 "The implementations are compared on one counting block and eight constant blocks with the initial state, a counter of 64 and no last-node flag, so message order, high counter word, per-lane counters and flags are unconstrained.",
 [PO, SS, AV], [("compress, compress8, compress8_vectorized", PO), ("compress, compress4_transposed", SS), ("compress8, compress8_transposed_all, compress8_vectorized", AV)], (), ["outputs of the routines exported in the benchmarks module"])

prop("C17", "Results do not depend on features, CPU path, build profile or byte order",
 "The same sequence of API calls gives the same digests, counts and panics with and without the std feature, on the SIMD and the forced-portable path, in debug and release builds, and on little- and big-endian targets. Switching a hasher to the portable path at any time does not change its results.",
 ["configurations", "histories"], "every API call sequence under every supported configuration",
 "Each test run exercises one configuration against fixed expectations; the forced-portable switch and cross-configuration equality on non-trivial histories are never tested, and CI's big-endian job is not runnable here.",
 [L, PO, SP], [("default_compress_impl", L), ("benchmarks::force_portable, force_portable_blake2sp", L)], [("State.compress_fn", "selected implementation", L)], ["all digests and counts in each configuration"])

prop("C18", "Byte counters stay correct past 4 GiB",
 "For inputs longer than 2^32 bytes, in a single hasher, in the eight-way and exact functions, and in BLAKE2sp, digests and counts remain those of BLAKE2s, whose counter is 64 bits wide. This holds however the long input is split.",
 ["inputs", "histories"], "every message length up to 2^64-1 and every interface",
 "The longest tested input is a few kilobytes, so truncation anywhere in the counter paths (or in the length arithmetic of one huge call) would pass.",
 [L, PO, SS, AV, SP], [("count u64 split into two counter words", PO), ("count_low/count_high", AV), ("hash8 count_high", L)], [("State.count", "64-bit byte counter", L)], ["digests and count() of long inputs"])

prop("C19", "Hash values compare, print and convert by exactly their digest bytes",
 "A hash value exposes exactly its digest bytes at the configured length; its hexadecimal form is their lowercase encoding; it equals another hash or byte slice if and only if lengths and all bytes are equal. Copies behave identically, and nothing beyond the configured length is ever visible or compared.",
 ["inputs"], "every pair of hash values and slices of every length, including ones that differ in a single bit or are prefixes of each other",
 "Equality is only ever used on equal values; inequality, single-bit differences, different lengths and comparison with slices are untested.",
 [L], [("Hash::as_bytes / to_hex / PartialEq / Debug", L)], [("Hash.bytes/len", "32-byte buffer and visible length", L)], ["as_bytes, as_ref, to_hex, ==, Debug"])

prop("C20", "Debug output reveals nothing about keys, messages or internal state",
 "The Debug output of a hasher or BLAKE2sp parameter set depends only on non-secret facts (parameters other than the key's bytes, amount of input, flags): two objects with the same call history that differ only in key bytes and message bytes print the same text. So printing never leaks key material or the chaining value.",
 ["inputs", "histories"], "every pair of histories that differ only in key and message contents",
 "It is a relation between two runs (non-interference); no test looks at Debug output at all.",
 [L, SP], [("impl Debug for State", L), ("impl Debug for blake2sp::State, blake2sp::Params", SP)], (), ["format!(\"{:?}\") of State, blake2sp::State, blake2sp::Params"])

prop("C21", "Hash comparison takes time independent of the bytes compared",
 "Comparing a hash for equality or inequality with another hash or slice of the same length runs the same steps, and so takes the same time, whatever the bytes compared: equal, different everywhere, or different in any one place. The answer is right in every case.",
 ["inputs"], "every pair of equally long hashes, or hash and slice, of every length 1..32, in every build configuration",
 "Functional tests observe the answer of a comparison, never how it was reached; it is a relation between two executions.",
 [L], [("impl PartialEq for Hash", L), ("impl PartialEq<[u8]> for Hash", L)], [("Hash.bytes/len", "digest bytes and visible length", L)],
 ["the instructions executed by ==, != on Hash and [u8]"])

prop("C22", "No API call reads or writes outside the buffers it was given",
 "No sequence of safe API calls makes the library access memory outside its own objects and the slices it was given, or write to an input, for any input length, alignment or position. Every call ends by returning or by one of the documented panics.",
 ["inputs", "histories", "configurations"], "every safe API call with every input length, alignment and placement, on every path (portable, SSE4.1, AVX2; single, 4-way, 8-way)",
 "A stray read returns the right digest and a stray write usually hits slack; ordinary runs do not observe either.",
 [L, SS, AV, SP], [("array_ref! casts and the asserts guarding them", L), ("unaligned loads and stores", SS), ("hash4_exact / hash8_exact loops", AV), ("transposes", AV)], [("input slices", "caller's memory", L), ("State.buf", "64-byte block buffer", L)],
 ["memory accesses of every call"])

prop("C23", "Hashing time does not depend on the bytes of keys and messages",
 "Setting a key, creating a hasher, updating, finalizing and the multi-way functions run the same sequence of instructions for any two computations that differ only in the bytes of keys and messages (with equal lengths, splits and other parameters), for BLAKE2s and BLAKE2sp alike.",
 ["inputs", "configurations"], "every pair of computations of equal public shape (function, key length, hash length, lengths of all pieces) on different secrets",
 "It is a relation between two executions, of something tests do not observe; a shortcut for special contents (zero blocks, zero keys) returns the right digests.",
 [L, PO, SS, AV, SP], [("compress", PO), ("compress (SSE4.1)", SS), ("compress8 (AVX2)", AV), ("Params::key, State::with_params", L)], [("Params.key", "secret key bytes", L), ("State.buf", "secret message bytes", L)],
 ["the instructions executed from parameters to digest"])

prop("C24", "No memory place and no division depends on the bytes of keys and messages",
 "Setting a key, creating a hasher, updating, finalizing, the multi-way functions and comparing hashes access the same sequence of memory addresses, and divide only the same numbers, for any two computations that differ only in the bytes of keys, messages and hashes compared. So neither the data cache nor the divider leaks them: no table is indexed by a secret.",
 ["inputs", "configurations"], "every pair of computations of equal public shape on different secrets, in the same places of memory",
 "It is a relation between two executions, of something tests do not observe; a table lookup returns the right digests.",
 [L, PO, SS, AV, SP], [("compress", PO), ("compress (SSE4.1)", SS), ("compress8 (AVX2)", AV), ("impl PartialEq for Hash", L)], [("Params.key", "secret key bytes", L), ("State.buf", "secret message bytes", L)],
 ["the addresses accessed and numbers divided from parameters to digest, and by == and !="])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
