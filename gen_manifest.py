#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 "C01": ("fuzzing: random, grammar-mutating and coverage-guided (libFuzzer) texts under ASan/UBSan", "No memory error, trap, output, exit or hang on any generated text; each refusal has a message and leaves a usable context. Texts up to 64 KiB; nested constant loops are skipped (they end late)."),
 "C02": ("property-based fuzzing of programs over extreme operands under ASan/UBSan", "Sanitizer-clean execution over generated programs and states, with guards around registers and unrelated variables. Known finding: very long operator chains exhaust the stack."),
 "C03": ("model-based PBT: reference interpreter written from the documentation", "Result, variables, registers and memory equal the reference interpreter's on random programs and states; programs whose outcome the language leaves open (as two evaluation policies of the model show) are not judged."),
 "C04": ("PBT: precedence-climbing reference parser and full parenthesisation (metamorphic)", "Random operator chains: same grouping as the reference parser, same behaviour as the fully parenthesised text."),
 "C05": ("PBT: independent recogniser against the compiler on mutated token sequences", "Acceptance equals an independent LL recogniser of the documented grammar, with exhaustive arity checks per function."),
 "C06": ("metamorphic PBT: layout, comment, case, parenthesis and empty-statement rewrites", "Each rewrite must behave like the original over random states."),
 "C07": ("PBT: literal spellings against exact decimal-to-binary conversion, across locales", "Value of each literal equals the correctly rounded value, in C, de_DE and tr_TR locales."),
 "C08": ("metamorphic PBT: constants against unfoldable equal-valued expressions", "Constant and unfoldable variants behave the same, and both as the reference interpreter says."),
 "C09": ("model-based PBT with evaluation traces", "Each operand logs its evaluation; the log must be the one the language defines."),
 "C10": ("model-based PBT over loop counts, with traces", "Number of evaluations, limits and state between iterations as the language defines."),
 "C11": ("model-based PBT over lvalue expressions with complete state snapshots", "Only the denoted location changes; references and compound assignments as in the reference model."),
 "C12": ("stateful model-based PBT against a sparse array model", "All access forms over generated histories agree with an array of 2^23 numbers."),
 "C13": ("stateful model-based PBT of fills and moves against an array model", "Slots after each call equal a copy through a temporary, trimmed to the buffer."),
 "C14": ("stateful model-based PBT over several contexts", "Histories over contexts sharing registers and buffers agree with a sharing model."),
 "C15": ("stateful model-based PBT of the name table", "Addresses, values and distinctness of variables over histories agree with a name table, also under foreign locales."),
 "C16": ("stateful PBT with allocator accounting under ASan", "Every generated lifecycle history releases everything and uses nothing released."),
 "C17": ("PBT: planted errors with known position; state snapshots", "Reported line and column equal the place of the planted error as an independent parser finds it; nothing else changes."),
 "C18": ("differential stateful PBT: handle under test against a fresh twin", "Executions in arbitrary histories equal the execution of the same text in a fresh context in the same state, bit for bit."),
 "C19": ("PBT over schedules injected at the host lock callbacks, allocator monitoring, real threads", "Lock discipline on every history; other threads' first accesses injected at every lock event lose nothing."),
 "C20": ("PBT with injected allocation failures against an array model", "With failing block allocations reads, writes, fills and moves degrade as documented and recover."),
 "C21": ("model-based PBT against std::mt19937", "Every value drawn equals the scaled reference stream, over programs, contexts and handles."),
 "C22": ("differential stateful PBT: same history through shim, native API and both mixed", "Observable results, allocations and locks agree step by step."),
 "C23": ("differential PBT over six builds against the reference interpreter", "Same acceptance, positions and results (within the number type's precision) in gcc/clang debug, optimised and 4-byte builds."),
 "C25": ("stateful PBT of concurrent histories under ThreadSanitizer, differential against each thread alone", "Per-thread histories on disjoint objects run together give what each gives alone, without data races in the library's code."),
 "C26": ("stateful PBT with allocator accounting against a model of accessed regions", "Live allocations between calls stay constant over generated histories, except for blocks of regions accessed first."),
 "C24": ("PBT: 80-bit reference for every function and operator", "Results within a few units in the last place over generated arguments of the whole domain. Known finding: int() of negative numbers rounds down."),
}
checks = []
for i, (t, n) in sorted(T.items()):
    checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}", "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n + " Exploration only: no proof of absence."})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. Allocation and locking are observed through symbol renaming in the object files and the host callbacks. Known findings: known-findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
