#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Exit status 0 means the requested output is complete",
 "When skull exits with status 0, the output that was asked for (executable, object, assembly, C or LLVM text, in a file or on stdout) is complete at its documented place and is byte for byte what the same command produces when no system call fails. "
 "When a write, open, close or full disk makes that impossible, skull exits with a nonzero status and at least one message instead, without crashing. "
 "Partial but legal transfers (a write accepting fewer bytes than offered) never change the result.",
 ["fault_sequences", "programs", "configurations"],
 "for every source, every output mode and option combination, and every sequence of failing, short or refused output operations (ENOSPC, EIO, EDQUOT, EACCES, EMFILE, EROFS, EPIPE, failing close) at every position",
 "The test suite only ever writes to a healthy disk; no test makes a write, open or close fail, and none looks at the exit status after one.",
 ["skull/codegen/c/write.c", "skull/codegen/llvm/write.c", "skull/codegen/shared.c", "skull/common/io.c", "skull/real_main.c", "skull/cli.c"],
 [("write_file_c", "skull/codegen/c/write.c"), ("emit_stage_1 / output_llvm_ir / emit_native_binary", "skull/codegen/llvm/write.c"), ("open_file", "skull/common/io.c"), ("error propagation through run_backend, run_pipeline, real_main", "skull/codegen/backend.c, skull/pipeline.c, skull/real_main.c")],
 ["exit status", "output file bytes", "stdout bytes", "stderr"])

prop("C02", "The program compiled is the program on disk, or the compile fails",
 "If any part of the source cannot be read, skull exits nonzero with a message: it never treats a read failure as an empty or shorter program, and only a file that is really empty is reported as empty. "
 "Bytes the file system never delivered for the source never influence the output, whatever happens to the file while it is read (truncated, extended, rewritten, replaced, removed). "
 "Reads that legally deliver fewer bytes than asked never change the result.",
 ["fault_sequences", "schedules", "programs"],
 "for every source and every sequence of read errors, short reads, premature end of file, failing open, seek or stat, and every interleaving with another program that edits the source file",
 "Tests read small healthy files that nobody else touches; a read that fails half way, or a file that shrinks between being measured and being read, is never exercised.",
 ["skull/common/io.c", "skull/real_main.c", "skull/pipeline.c"],
 [("file_to_string", "skull/common/io.c"), ("open_file", "skull/common/io.c"), ("compile_file", "skull/real_main.c")],
 ["exit status", "stderr", "bytes of the produced output compared with a compile of the bytes delivered"])

prop("C03", "Only the documented output files are ever touched",
 "At every instant of every run, including runs that fail or are killed, skull and the tools it starts create, write, rename, change the mode of or delete no file except the documented output of that command and, when an executable is requested, the documented hidden object file. "
 "The source, the modules it imports and every other file keep their bytes, mode and name. "
 "A compile that is rejected because of the program text touches no file at all.",
 ["fault_sequences", "crash_points", "configurations", "programs"],
 "for every mode, option combination and file name (directories, blanks, quotes, shell metacharacters, several dots), every set of files already present, every fault sequence and every kill point",
 "Tests look for the file they expect and never at what else changed, use plain file names only, and never interrupt or fail a run in the middle.",
 ["skull/common/io.c", "skull/codegen/shared.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c"],
 [("gen_filename", "skull/common/io.c"), ("get_new_filename", "skull/codegen/shared.c"), ("get_binary_name, emit_native_binary, remove of the object", "skull/codegen/llvm/write.c")],
 ["every file system mutation", "directory contents"])

prop("C04", "Running out of memory ends the compile cleanly",
 "Whichever single allocation, or whichever series of allocations, made by the compiler fails, skull either finishes with exactly the normal result or exits with a nonzero status and a message on stderr. "
 "It never crashes, never hangs, never exits 0 with a missing, different or misplaced output, and never damages another file.",
 ["fault_sequences", "programs", "configurations"],
 "for every program, every mode and every position (and set of positions) at which an allocation made by the compiler's own code returns no memory",
 "No test ever makes an allocation fail; each of the thousands of allocation points of a compile would have to fail once in each of its contexts.",
 ["skull/common/malloc.c", "skull/common/str.c", "skull/common/vector.c", "skull/common/hashtable.c", "skull/common/errors.c", "skull/cli.c", "skull/codegen/c", "skull/codegen/shared.c", "skull/parse", "skull/semantic"],
 [("Malloc, Calloc, Realloc", "skull/common/malloc.c")],
 ["exit status", "stderr", "output file bytes", "crash signal"])

prop("C05", "The link step's own outcome decides the result",
 "When an executable is requested, skull starts the C compiler once, with the name of the executable and every argument meant for it, on the complete object file, which stays unchanged until that child has ended, and waits for exactly that child. "
 "skull exits 0 only if that child was started and itself exited with status 0: a child that exits with any other status, is killed by any signal, cannot be forked or executed, or whose end cannot be learned makes skull exit nonzero. "
 "Children of the calling program that skull did not start are never reaped or mistaken for the linker, and exactly one copy of the compiler carries on after the fork.",
 ["fault_sequences", "schedules", "configurations"],
 "for every exit status and signal of the linker, every failure of fork, exec and wait, every other child ending at any moment, every inherited signal disposition, and every interleaving of parent and child",
 "Tests link with a working cc only; no test has cc killed by a signal, fork or exec failing, an interrupted wait, or other children around.",
 ["skull/codegen/llvm/write.c"],
 [("sh, shell, emit_native_binary", "skull/codegen/llvm/write.c")],
 ["exit status", "process events", "object file bytes while the child runs"])

prop("C06", "A killed or crashed compile never spoils the next one",
 "Whenever skull (or the linker it started) is killed, or the machine loses power, at any instant and any number of times, running the same command again produces exactly the result of a first run in a clean directory. "
 "The source is intact after every such interruption, and whatever an earlier run left behind (missing, empty, torn or stale output or intermediate files) is neither trusted nor an obstacle.",
 ["crash_points", "histories", "programs"],
 "for every kill point at system-call granularity, every subset and tearing of the unsynced output, every kind of leftover file at the output places, and every command repeated afterwards",
 "Tests delete the outputs between commands and never interrupt one.",
 ["skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/common/io.c"],
 [("truncating opens of outputs", "skull/common/io.c, skull/codegen/llvm/write.c"), ("remove of the object", "skull/codegen/llvm/write.c")],
 ["result of the run after the interruption compared with a clean run"])

prop("C07", "Concurrent compiles of different sources do not interfere",
 "Any number of skull processes compiling different sources at the same time, in the same directory or not, each end with exactly the exit status, messages and output they would have had alone, whatever the interleaving. "
 "A fault or kill that hits one of them changes nothing for the others.",
 ["schedules", "fault_sequences", "configurations"],
 "for every interleaving, at system-call granularity, of two or more compiles (and their linkers) of different sources, in every mix of modes, with faults aimed at one of them",
 "Tests run one compile at a time.",
 ["skull/common/io.c", "skull/codegen/shared.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/semantic/import.c"],
 [("output names derived from the source name", "skull/common/io.c, skull/codegen/shared.c"), ("wait for the linker", "skull/codegen/llvm/write.c")],
 ["per-process exit status, stderr and output compared with a solo run"])

prop("C08", "Several compiles in one process give what each gives alone",
 "A program that uses the compiler as a library and compiles several files, in one request or in successive requests with changing options, gets for each file the same outputs and messages as a fresh process would give for that file. "
 "This holds whatever the earlier compiles were: successful, rejected because of the program text, or failed because of a system call.",
 ["histories", "fault_sequences", "programs", "configurations"],
 "for every sequence of files, options and outcomes, with system-call faults in the earlier compiles",
 "Every test compiles one file per process (the unit tests never reach the writers), so state carried from one compile to the next is never observed.",
 ["skull/real_main.c", "skull/pipeline.c", "skull/common/errors.c", "skull/codegen/llvm/debug.c", "skull/codegen/llvm/write.c", "skull/codegen/shared.c", "skull/semantic/types.c", "skull/build_data.h"],
 [("real_main loop, compile_file", "skull/real_main.c"), ("write_and_free_errors", "skull/common/errors.c"), ("setup and cleanup of backend and semantic state", "skull/codegen/llvm/backend.c, skull/codegen/c/backend.c, skull/semantic/shared.c")],
 ["outputs and stderr per file compared with a fresh process"],
 [("BUILD_DATA", "options and names of the compile in progress", "skull/build_data.c"), ("error_msgs", "pending diagnostics", "skull/common/errors.c"), ("DEBUG_INFO, DI_TYPE_*", "debug info builder", "skull/codegen/llvm/debug.c")])

prop("C09", "The result depends only on the program, its name and the options",
 "Exit status, messages and output bytes of a compile are a function of the source text, the names given and the options. "
 "They do not depend on what uninitialised or recycled memory contains or where it lies, on process ids, descriptor numbers, clocks, random numbers, unrelated environment variables, the kind of device behind stdin, stdout or stderr, or older files at the output places.",
 ["configurations", "programs", "histories"],
 "for every program and option combination and every content and placement of heap and stack memory, process and descriptor numbering, clock, locale and environment, and pre-existing output",
 "A test runs each command once in one environment with whatever memory contents the allocator happens to give (mostly zeros in a young process).",
 ["skull/common/malloc.c", "skull/common/vector.c", "skull/common/hashtable.c", "skull/common/str.c", "skull/common/local.c", "skull/parse", "skull/semantic", "skull/codegen"],
 [("initialisation of every allocated structure", "skull/parse, skull/semantic, skull/codegen"), ("setup_locale", "skull/common/local.c")],
 ["exit status", "stdout", "stderr", "output file bytes over perturbed environments"])

prop("C10", "Every failure is diagnosed; every message appears exactly once",
 "Every run that ends with a nonzero status has written at least one message to stderr, every message of a compile appears exactly once, in order and in full, and stdout carries nothing but the requested output. "
 "Asking for quiet removes the warnings and nothing else: errors are still printed and the exit status is unchanged. "
 "An stderr that fails, is full or accepts a few bytes at a time changes neither exit status nor output.",
 ["fault_sequences", "programs", "configurations", "schedules"],
 "for every program (none to hundreds of diagnostics), every mode, every failing operation and every behaviour of the stderr and stdout devices, including around the fork of the linker",
 "Tests compare one message at a time on a healthy stderr and never combine quiet with an error, a failing stream or a failing system call.",
 ["skull/common/errors.c", "skull/common/errors.h", "skull/real_main.c", "skull/codegen/llvm/write.c", "skull/common/io.c"],
 [("fmt_message, write_and_free_errors", "skull/common/errors.c"), ("sh", "skull/codegen/llvm/write.c")],
 ["stderr bytes", "stdout bytes", "exit status"])

prop("C11", "No descriptors, children or intermediate files are left behind",
 "When a compile ends, successfully, rejected, or after a failed system call, every file it opened is closed again, every child it started has ended and been reaped, and the hidden object file of a link that was attempted or refused is gone. "
 "Descriptors the caller had open are untouched, and the linker inherits none that the compile opened.",
 ["fault_sequences", "histories", "programs", "configurations"],
 "for every program, mode and single or repeated fault, observed when the compile returns to the program that called it as a library, and at the moment the linker starts",
 "Every test ends with the process, which hides leaks, and no test looks at descriptors, zombies or leftovers after a failure.",
 ["skull/real_main.c", "skull/semantic/import.c", "skull/codegen/c/write.c", "skull/codegen/llvm/write.c", "skull/common/io.c"],
 [("fclose after reading", "skull/real_main.c"), ("close of directory and module descriptors", "skull/semantic/import.c"), ("remove of the object", "skull/codegen/llvm/write.c"), ("close-on-exec opens", "skull/common/io.c, skull/semantic/import.c")],
 ["descriptor table before and after", "process table", "directory contents"])

prop("C12", "Every compile ends, whatever fails",
 "Under every sequence of transient or permanent faults, including devices that fail for ever, interrupted calls and a linker that dies, skull ends by itself within a number of system calls bounded by a small multiple of what the fault-free run needs. "
 "It never spins, never waits for something that cannot happen, and never retries a permanent failure without bound.",
 ["fault_sequences", "schedules", "programs"],
 "for every program, mode and fault sequence, with the linker ending after any finite delay",
 "Tests never inject a permanent error, so a retry loop that never gives up or a wait that never returns is not reached.",
 ["skull/common/io.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/semantic/import.c"],
 [("single-shot error handling in io and write code", "skull/common/io.c, skull/codegen/llvm/write.c, skull/codegen/c/write.c")],
 ["number of system calls", "blocked processes"])

prop("C13", "An import is accepted exactly when the module can be opened",
 "A program with imports is accepted only if, for each import, a file with the module's name is found next to the importing source and can be opened for reading at that moment; any other outcome (missing, unreadable, no descriptors left, I/O error, directory gone) rejects the program with a message that names the module and the reason. "
 "The modules are looked up next to the source however its path is written and whatever the current directory is, and a failed or successful import never affects the other imports.",
 ["fault_sequences", "configurations", "schedules", "programs"],
 "for every arrangement of module files and permissions, every path form of the source, every failing open or openat, and modules that appear or vanish while the compile runs",
 "Tests have one import that exists and one that does not, both from the repository root with a healthy file system.",
 ["skull/semantic/import.c"],
 [("validate_stmt_import, current_file_dir, filename_for_module", "skull/semantic/import.c")],
 ["exit status", "stderr", "open calls made for modules"])

prop("C14", "The verdict on a program does not depend on what becomes of its output",
 "Whether a program is accepted, and which errors and warnings are reported about it, in which order, are the same whatever output is asked for (executable, object, assembly, LLVM IR or C), at every optimisation level, with or without debug information or LLVM verification, in whichever order these are asked for within one process, and whether or not the output can then be written or linked. "
 "A failure behind the front end adds its own message and a nonzero status; unless LLVM ends the process on its own, it neither hides nor alters what was found in the program, and it never makes a rejected program accepted.",
 ["fault_sequences", "configurations", "histories", "programs"],
 "for every program, every pair of output kinds, every sequence of requests in one process, and every failure of writing, closing, forking, executing, waiting, removing or linking",
 "Tests look at one kind of output per program, with outputs that can be written.",
 ["skull/pipeline.c", "skull/real_main.c", "skull/codegen/backend.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/common/errors.c"],
 [("run_pipeline, write_and_free_errors, run_backend", "skull/pipeline.c, skull/common/errors.c")],
 ["exit status", "stderr"])

prop("C15", "A request leaves the calling program's own state as it was",
 "A program that compiles through the library finds, after each request, accepted, rejected or failed, everything that belongs to itself unchanged: its current directory, file mode mask, signal dispositions and blocked signals, limits, timers and session, environment and locale (other than LC_CTYPE, which skull sets), its open descriptors with their flags and positions, the argument strings and settings it passed in, and its right to wait for its own children.",
 ["fault_sequences", "histories", "programs", "configurations"],
 "for every program, mode, sequence of requests and fault, and every state the calling program may be in before",
 "Every test is a process that ends after its compile, so nobody looks at what a compile left changed, least of all after a failure in the middle.",
 ["skull/real_main.c", "skull/common/local.c", "skull/semantic/import.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/codegen/shared.c"],
 [("real_main, compile_file", "skull/real_main.c"), ("setup_locale", "skull/common/local.c"), ("sh", "skull/codegen/llvm/write.c"), ("current_file_dir", "skull/semantic/import.c")],
 ["process state before and after each request", "argument strings and settings"])

# pure functions of the program text: not decided by this technique
pure = "Only sampled: each test is one program with one expected output."
prop("N01", "Accepted programs are type sound",
 "A program that skull accepts never applies an operation to a value of the wrong type when it runs, and every program that breaks the documented typing rules is rejected.",
 ["programs"], "for every program text", pure,
 ["skull/semantic", "docs/expressions.md", "docs/variables.md"],
 [("validate_ast_tree and the expression, assignment and function validators", "skull/semantic")])
prop("N02", "Generated code means what the program means",
 "The executable computes the result that the documented evaluation rules (precedence, integer and float arithmetic, control flow, shadowing, short circuit, references) give to the program.",
 ["programs", "inputs"], "for every accepted program", pure,
 ["skull/codegen/llvm", "skull/parse/ast_node.c", "docs/expressions.md", "docs/control_flow.md"],
 [("expression, flow and assignment code generation", "skull/codegen/llvm")])
prop("N03", "Both backends and all optimisation levels agree",
 "The same program behaves identically when it goes through the C backend, through the LLVM backend, and through the LLVM backend at each optimisation level, with or without debug information.",
 ["programs", "configurations"], "for every accepted program and option", pure,
 ["skull/codegen/c", "skull/codegen/llvm"],
 [("backend interface", "skull/codegen/backend.c")])
prop("N04", "No program text crashes the compiler",
 "Every byte sequence given as a source is either compiled or rejected with a diagnostic; none makes the compiler crash, hang or read outside its buffers.",
 ["inputs"], "for every byte sequence, on a system where no call fails", "Tests hold a few hundred hand-written programs.",
 ["skull/parse", "skull/common/str.c", "skull/semantic"],
 [("tokenize, classify_tokens, parse_ast_tree", "skull/parse")])
prop("N05", "Diagnostics point at the offending place",
 "The line and column in each diagnostic are those of the construct that causes it, also after tabs, multi-byte characters, comments and long lines.",
 ["programs"], "for every rejected program", pure,
 ["skull/parse/token.c", "skull/common/errors.c"],
 [("token locations", "skull/parse/token.c")])
prop("N06", "Exported functions follow the C calling convention and names",
 "Every exported or external function can be called from, or implemented in, C with the documented name and type mapping.",
 ["programs"], "for every exported or external signature", "Two documented examples are run.",
 ["skull/codegen/abi.c", "skull/semantic/mangle.c", "docs/c-integration.md"],
 [("name mangling and type mapping", "skull/codegen/abi.c, skull/semantic/mangle.c, skull/codegen/llvm/types.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
