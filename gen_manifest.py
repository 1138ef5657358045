#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = {
"C01": ("exhaustive enumeration of words per width, real code against a letter-list model", "every width class; all short words, all lengths with bounded deviations from constant words; words outside these shapes are not covered"),
"C02": ("exhaustive enumeration of words and indices, both directions against exact big-integer ranks", "all indices below a bound and around every boundary of every degree of every width class"),
"C03": ("exhaustive enumeration of pairs of words against lexicographic order on letter lists", "all pairs of short words; long words against every one-letter change, exchange, prefix, suffix, extension"),
"C04": ("exhaustive stepping of the enumeration against a counter over letter lists", "long prefixes of the enumeration, every carry pattern of every length, the end of the enumeration"),
"C05": ("exhaustive enumeration of degrees, words, indices and sizes against exact arithmetic", "every degree of every width class, all boundaries"),
"C06": ("explicit-state search over vector states to a fixed point, plus all operation programs to a depth, against a plain map", "complete over F_2 and F_3 with few keys; programs to depth 5 on live objects; sizes to 65537"),
"C07": ("explicit-state search over vector states to a fixed point, plus all operation programs to a depth, against a plain map", "complete over F_2 and F_3 with few keys; programs to depth 5 on live objects; sizes to 65536"),
"C08": ("explicit-state search, wrapper in lock step with the wrapped vector", "complete over F_3 with few keys for seven wrapped types; every operation at all pairs of sizes of a list"),
"C09": ("all operation programs to a depth from every pair of storage kinds and sizes, view in lock step with an owned replica", "programs to the listed depth, buffers checked after every step; borrowed storage is reached through the cfg vp_hooks constructors"),
"C10": ("exhaustive enumeration of operand states, operations and scalars, derived operation against its definition", "complete over F_3 with few keys, F_11 scalars, all pairs of sizes of a list, eight vector types including a minimal one"),
"C11": ("exhaustive enumeration of vector states, keys and scalars against the single-key definition", "complete over F_3 with few keys, all F_11 scalars, all sizes to a bound, eight vector types"),
"C12": ("exhaustive enumeration of operand sizes and truncation degrees with indeterminate coefficients, and of all small tensors, against the splitting definition", "indeterminate coefficients decide the polynomial identity at each shape; shapes to the listed bounds"),
"C13": ("exhaustive enumeration of operand sizes and truncation degrees with indeterminate coefficients, and of all small tensors, against the definition", "as C12, for the accumulating operations, the commutator and caller-supplied functions"),
"C14": ("exhaustive enumeration of operand sizes and truncation degrees with indeterminate coefficients, and of all small tensors, against the out-of-place definition", "as C12, for the in-place and scaled products, constant terms 0 and 1 included"),
"C15": ("exhaustive enumeration of tensor sizes, widths and maximum degrees with exact coefficients against the series", "indeterminate and prime-field coefficients; maximum degrees to the listed bounds"),
"C16": ("exhaustive enumeration of coefficient pairs (thorough: all 2^32 f32 patterns) against IEEE operations", "boundary exponents and mantissas in all pairs; all small integers"),
"C17": ("exhaustive enumeration of widths and degrees against Lyndon word counts", "every degree with width^degree up to 2^61 for every width class; internals reached through cfg vp_hooks"),
"C18": ("exhaustive enumeration of growth histories to a depth against exact tables", "every initial size, every sequence of requests to the depth, every key to a bound; internals reached through cfg vp_hooks"),
"C19": ("exhaustive enumeration of letters and keys per width", "all letters of alphabets to 3000 (thorough all below 2^18); internals reached through cfg vp_hooks"),
"C20": ("stateless exploration of all thread schedules of the real code up to a preemption bound under a controlled scheduler", "all schedules of the two-thread scenarios, bounded preemptions otherwise; sequentially consistent; the code is compiled from a copy of /repo/src whose std::sync, std::thread and lazy_static resolve to the scheduler's"),
"C21": ("exhaustive enumeration of words and vector sizes against a formatting model", "word set of C01, all vector sizes to a bound"),
"C22": ("exhaustive enumeration of invalid and valid construction requests in both build modes", "every position, length and boundary per width class"),
"C23": ("all operation programs to a depth with instrumented coefficients and a guarded allocator, with a panic injected at every coefficient operation", "ledger of coefficient lifetimes, red zones and poisoned memory; reads past red zones of other live objects are only seen through the ledger"),
"C24": ("explicit-state search with dense and sparse vectors in lock step, plus all programs to a depth", "complete over F_2 and F_3 with few keys; programs to depth 5; sizes to 3280"),
"C25": ("exhaustive enumeration of tensor shapes with indeterminate coefficients, and of all small tensors over F_2 and F_3, against the algebra laws", "laws decided as polynomial identities per shape"),
"C26": ("all operation programs to a depth on live objects against a plain array, everything observable looked at after each step; all pairs of sizes", "programs to depth 3 (reduced alphabet 4), sizes to 4097, all ranges of small vectors; borrowed storage is reached through the cfg vp_hooks constructors"),
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --build",
 "hooks": {"guard": "vp_hooks", "enable": "RUSTFLAGS=--cfg vp_hooks (check.py sets it)",
           "source_commits": ["66b052a", "4ccc3f6", "2f07c4c", "ac3c7b8"]},
 "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
             "technique": "model checking: " + t, "level": "model_checking", "level_note": n} for p, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "check.py builds the explorers from /repo's working tree with overflow checks and debug assertions on and off, and runs both. Commit 66b052a is reverted by ac3c7b8.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
