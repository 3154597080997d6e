#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "real code only, on the executions the workload produced; trusts the harness, the compiler and std::vector/std algorithms as reference"
T = {
 "C01": ("model-based history monitor (std::vector oracle) + ASan/UBSan", "every result and the whole contents after random histories equal std::vector's; " + A),
 "C02": ("exhaustive iterator-law monitor per tree shape", "all position/distance pairs of each generated shape, shapes random; " + A),
 "C03": ("positional-access monitor per tree shape", "all indices of each generated shape and a set of out-of-range indices; " + A),
 "C04": ("segment-view monitor per tree shape", "all iterators, runs and in-range counts of each generated shape; " + A),
 "C05": ("returned-iterator chain monitor", "returned iterators compared with fresh ones and used in every way; " + A),
 "C06": ("structure monitor: tree rebuilt from logged pointer accesses", "node occupancies read off the index blocks a checked pointer class sees being visited, segment lengths and allocator ledger otherwise; assumes lookup from the root visits the index path of an element"),
 "C07": ("work-counting monitor (coverage callbacks, byte and allocation counters)", "deterministic work counts at two sizes a factor 64 apart with generous constants, no clocks; " + A),
 "C08": ("element lifetime registry monitor + ASan", "instrumented elements report every construction, assignment and destruction; " + A),
 "C09": ("allocator ledger monitor", "every block and, with construct/destroy hooks, every element's address accounted for; " + A),
 "C10": ("allocator-propagation monitor over random transfer programs", "values, allocator identities and block ownership after every transfer; " + A),
 "C11": ("exhaustive fault injection per operation with state comparison", "every throwing event of every operation instance run is made to throw; instances sampled; " + A),
 "C12": ("fault injection into bulk operations with consistency audit", "every throwing event (late ones sampled) of every operation instance run is made to throw; " + A),
 "C13": ("fault injection into element moves with consistency audit", "every element move of every operation instance run is made to throw; " + A),
 "C14": ("held-iterator monitor across swaps and takeovers", "iterators, pointers and references taken before are used after; " + A),
 "C15": ("identity-carrying algorithm oracle (std::list semantics)", "contents with hidden identities compared with stable references, also when temporary buffers fail; " + A),
 "C16": ("comparison oracle (std::vector)", "six operators on pairs of sequences of different history; " + A),
 "C17": ("self-reference monitor over source/position pairs", "contents after the call with an aliasing argument; " + A),
 "C18": ("model-based history monitor over a configuration matrix", "as C01 over node sizes, element sizes, alignments and size types; over-aligned types run without sort/merge because libstdc++'s temporary buffers misalign them"),
 "C19": ("AddressSanitizer, UBSan, LeakSanitizer, MemorySanitizer, valgrind over all workloads", "sanitizer-detectable undefined behaviour on the executed paths; MemorySanitizer runs a harness of its own that needs no libstdc++.so (uninstrumented)"),
 "C20": ("ThreadSanitizer with value checks", "happens-before races on executed accesses, repeated; monitors are per thread; " + A),
 "C21": ("copy/move/default-construction counting monitor", "counts around every call; also compiles for move-only types; " + A),
 "C22": ("checked fancy-pointer monitor", "every access through the pointer class is checked against live blocks; offset pointers detect byte-copied pointers; " + A),
 "C23": ("logging source-iterator monitor", "each dereference and step of the source recorded; " + A),
 "C24": ("replay and program-output monitor", "the generators' data checked step by step, the repository's own programs built and run; " + A),
 "C25": ("fault-injection monitor", "every allocation and element copy fails during each call that promises not to throw; exceptions, allocations, element operations and contents observed; noexcept read off"),
 "C26": ("differential runtime monitor over builds", "a self-checking program built by gcc and clang in C++11 to C++23, two of the builds under sanitizers or the debug library, compared with std::vector and with each other by digest"),
}
m = {"version": 1, "setup_cmd": "mkdir -p build evidence && python3 -c \"import json; json.load(open('MANIFEST.json'))\"", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the monitors are element types, allocators, pointer classes and iterators the harness passes in, and compiler instrumentation. fix: commits are listed in known_findings.txt."}
for k in sorted(T):
    m["checks"].append({"property": k, "quick_cmd": "VERIF_TIER=quick python3 run.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + k,
                        "technique": T[k][0], "level": "fault_enumeration" if k in ("C11", "C12", "C13") else "exploration", "level_note": T[k][1]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
