#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
PE="projectm-eval/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=hook)))

prop("C01","Compiling any text is safe: a handle or a clean refusal, nothing else",
 "For every NUL-terminated byte string given as program text, compiling returns either a code handle or NULL in bounded time, without memory errors, traps or process exit, and without writing anything to the process's standard output or error. After a refusal the context stays usable and its next valid program compiles and runs normally.",
 ["inputs"],"all byte strings up to 64 KiB as program text, compiled in fresh and in already used contexts",
 "The suite compiles nine hand-written valid programs; none is malformed, contains a comment, or stresses nesting or token boundaries.",
 [PE+"Scanner.l",PE+"Compiler.y",PE+"CompileContext.c",PE+"CompilerFunctions.c"],
 [("flex rules with catch-all invalid token",PE+"Scanner.l"),("bison error path returning non-zero, result cleared",PE+"CompileContext.c prjm_eval_compile_code"),("compile-time constant evaluation",PE+"CompilerFunctions.c prjm_eval_compiler_create_expression")],
 observe=["projectm_eval_code_compile return value","stdout/stderr of the process","sanitizer reports"])

prop("C02","Executing an accepted program never traps or touches foreign memory",
 "For every accepted program that terminates and every value its variables and memory slots may hold - including infinities, NaN, subnormals and numbers far outside the integer range - compiling and executing it neither traps, crashes nor reads or writes memory outside the objects the program may address. Numbers with no integer representation used where an integer is needed may give an unspecified number but never more than that.",
 ["inputs","programs"],"all programs over all built-in functions and operators; operand values over the whole floating-point range, as literals and as variables",
 "Tests execute a handful of programs on small friendly numbers; division and conversion corner cases, and storage released while referenced, are never reached.",
 [PE+"TreeFunctions.c",PE+"MemoryBuffer.c",PE+"ExpressionTree.c"],
 [("zero-divisor guards",PE+"TreeFunctions.c div/mod/divop/modop"),("index range check",PE+"MemoryBuffer.c prjm_eval_memory_allocate"),("value-pointer convention of node functions",PE+"TreeFunctions.c")],
 observe=["signals","ASan/UBSan reports","guard values around host-owned storage"])

prop("C03","A program computes exactly what the expression language defines",
 "Executing an accepted program returns the value of its last expression and leaves every variable, register and memory slot with the value that evaluating the program by the language rules (arithmetic, comparison, bitwise, boolean, conditional, assignment and built-in function semantics; integer operators drop fractions; division or modulo by zero gives 0; comparisons give exactly 0 or 1) produces. This holds however the program's operators, functions, lists and references are nested and for whatever values its variables hold beforehand.",
 ["programs","inputs"],"all programs generated from the grammar over all operators and deterministic built-ins, with random initial variable values, executed repeatedly",
 "Tests compare fewer than ten results, cover about a tenth of the node functions and combine almost none of them.",
 [PE+"TreeFunctions.c",PE+"CompilerFunctions.c",PE+"Compiler.y",PE+"Scanner.l","docs/Expression-Syntax.md"],
 [("node functions",PE+"TreeFunctions.c"),("intrinsic function table",PE+"TreeFunctions.c"),("grammar actions mapping operators to functions",PE+"Compiler.y")],
 observe=["projectm_eval_code_execute return value","registered variable pointers","memory read back by programs"])

prop("C04","Operators bind and associate in one fixed documented order",
 "Unparenthesised expressions group as their fully parenthesised form under this order, loosest first: '='; '+=' '-='; '*=' '/=' '%='; '^=' '|=' '&='; '?:'; '||'; '&&'; '|'; '&'; '==' '!='; '>' '>='; '<' '<='; '+' '-'; '*' '/'; '%'; '!'; '^'; unary '-' and '+'; subscript. Assignments and '?:' group right to left, all binary operators left to right.",
 ["programs"],"all expressions mixing any number of operators with any operands, parentheses omitted or redundant",
 "Two tests cover three operators; there are over 600 ordered operator pairs and unboundedly many longer mixes.",
 [PE+"Compiler.y",PE+"Compiler.c","docs/Expression-Syntax.md"],
 [("precedence declarations",PE+"Compiler.y"),("%prec NEG/POS",PE+"Compiler.y")],
 observe=["results and variables after executing both forms"])

prop("C05","Exactly the documented syntax is accepted, anything else is refused whole",
 "A text compiles if and only if it is empty or a ';'-separated list of expressions formed by the documented grammar, with every function name followed by a parenthesised argument list of exactly the function's arity and no function name used as a variable. Any other text is refused as a whole: NULL is returned and no part of it can be executed.",
 ["inputs","programs"],"all token sequences: generated valid programs, their mutations (token inserted, dropped, swapped, duplicated, truncated) and arbitrary characters",
 "No test compiles an invalid program, so acceptance of malformed input or refusal of unusual valid input goes unnoticed.",
 [PE+"Compiler.y",PE+"Scanner.l",PE+"CompilerFunctions.c"],
 [("grammar rules",PE+"Compiler.y"),("function/variable classification of names",PE+"Scanner.l"),("argument count check",PE+"CompilerFunctions.c prjm_eval_compiler_create_function")],
 observe=["projectm_eval_code_compile returning NULL or not"])

prop("C06","Layout, comments, letter case and empty statements never change meaning",
 "Inserting or removing white space, line breaks, // comments and /* */ comments between tokens, changing the letter case of names, functions, named and hexadecimal constants, and adding empty statements or redundant parentheses leaves the program's acceptance, result and effects unchanged.",
 ["programs"],"all valid programs and all combinations of such rewrites at any token boundary",
 "No test contains a comment, a line break or an upper-case name.",
 [PE+"Scanner.l",PE+"Compiler.y",PE+"TreeVariables.c",PE+"CompilerFunctions.c"],
 [("comment start states and white-space rule",PE+"Scanner.l"),("case-insensitive lookups",PE+"TreeVariables.c, "+PE+"CompilerFunctions.c")],
 observe=["differential execution of both texts"])

prop("C07","Literals and named constants denote their exact documented value",
 "Decimal literals (with optional fraction and exponent) denote the floating-point number nearest to the written value, hexadecimal literals $X.. their integer value, $'c' the code of the ASCII character c, and $PI, $E and $PHI the values given in the documentation at full working precision. The value does not depend on the host process's locale, on letter case, or on the surrounding expression.",
 ["inputs","configurations"],"all decimal spellings, hexadecimal digit strings up to 2^64-1, all printable ASCII characters; C and comma-decimal host locales",
 "Tests use a dozen short decimal literals in the C locale and compare with float tolerance only.",
 [PE+"Scanner.l",PE+"Scanner.c","docs/Expression-Syntax.md"],
 [("FLOAT, HEX, ORD and named constant rules",PE+"Scanner.l")],
 observe=["return value of a program consisting of the literal"])

prop("C08","Compile-time optimisation is invisible to the program",
 "Constant folding and removal of ineffective expressions never change a program's result or any of its effects: replacing any constants by equal-valued expressions the compiler cannot fold, or making a discarded expression un-removable, yields the same result, variables and memory. In particular an expression that can change state is never removed or evaluated early, and one whose outcome may differ between evaluations is never frozen to a constant.",
 ["programs"],"all programs mixing constant and variable sub-expressions, discarded expressions and nested lists",
 "The three list tests check a single removal pattern each; folding of the ~60 functions and flag propagation through nesting are not compared with unoptimised evaluation.",
 [PE+"CompilerFunctions.c",PE+"TreeFunctions.c","docs/Compiler-Internals.md"],
 [("const and state-changing flags",PE+"TreeFunctions.c intrinsic table"),("folding",PE+"CompilerFunctions.c prjm_eval_compiler_create_expression"),("expression list optimisation",PE+"CompilerFunctions.c prjm_eval_compiler_add_instruction")],
 observe=["differential execution of foldable and unfoldable variants"])

prop("C09","Operands are evaluated exactly when, as often and in the order defined",
 "if() and ?: evaluate the condition once and then only the chosen branch; && and || evaluate the right operand only if the left one does not decide; every other function or operator, including band() and bor(), evaluates each operand exactly once from left to right, and lists evaluate their expressions in order.",
 ["programs"],"all nestings of conditionals, boolean operators, functions and lists whose operands log their evaluation",
 "No test gives an operand of a conditional or boolean operator a side effect.",
 [PE+"TreeFunctions.c",PE+"Compiler.y",PE+"CompilerFunctions.c","docs/Expression-Syntax.md"],
 [("invoke_arg order in node functions",PE+"TreeFunctions.c"),("mapping of && || ?: to lazy functions",PE+"Compiler.y")],
 observe=["evaluation log written to variables and memory"])

prop("C10","Loops run the defined number of times and always end",
 "loop(count, body) evaluates count once and body exactly the integer part of count times, never for counts below 1 and 2^20 times for anything larger; while(body) evaluates body at least once, again as long as its last result is non-zero, and stops after at most 2^20 evaluations. Between iterations nothing changes except through the body's own effects.",
 ["programs","inputs"],"all counts (fractional, negative, huge, computed, changed by the body), all bodies incl. nested loops and bodies returning references or plain values",
 "One test runs a while body once; counts, caps, nesting and reference-valued bodies are unexplored.",
 [PE+"TreeFunctions.c"],
 [("execute_loop / execute_while with iteration limit",PE+"TreeFunctions.c")],
 observe=["counters incremented by loop bodies","CPU time"])

prop("C11","An assignment changes exactly the location its left side refers to",
 "Every assignment operator and assign() stores into precisely the variable, register or memory slot its left operand refers to - including references passed through if(), ?:, exec2/exec3, loop(), parentheses, lists and other assignments - and returns a reference to it; a op= b stores what a = a op b would. Assigning to something that is not a reference, and every non-assigning function or operator, leaves all variables, registers, memory slots and constants unchanged.",
 ["programs","inputs"],"all left-hand sides built from references and values, all assignment operators, all functions as non-assigning contexts",
 "One test checks one plain assignment between two variables.",
 [PE+"TreeFunctions.c","docs/Expression-Syntax.md"],
 [("assign_ret_ref / assign_ret_val convention",PE+"TreeFunctions.c"),("set and compound operators",PE+"TreeFunctions.c")],
 observe=["complete snapshot of variables, registers and memory before and after"])

prop("C12","Memory buffers behave as arrays of 2^23 numbers, zero until written",
 "megabuf and gmegabuf each act as an array with indices 0 to 8388607: a slot reads 0 until written, then the last value written through any of the access forms (function, index[], base[offset], gmem[]), and distinct slots never interfere. A fractional index addresses the slot of its integer part, where an index at most 0.0001 away from the next integer counts as that integer; indices outside the range read as 0 and writes through them are discarded.",
 ["histories","inputs"],"all sequences of reads and writes through all access forms at all indices, incl. block boundaries, negative, fractional and huge ones",
 "Tests write one gmem slot and never read it back.",
 [PE+"MemoryBuffer.c",PE+"TreeFunctions.c",PE+"Compiler.y",PE+"CompilerFunctions.c","docs/Expression-Syntax.md"],
 [("block table and lazy allocation",PE+"MemoryBuffer.c prjm_eval_memory_allocate"),("buffer selection per function",PE+"CompilerFunctions.c prjm_eval_compiler_create_expression")],
 state=[("block table","128 lazily allocated blocks of 65536 numbers",PE+"MemoryBuffer.c")],
 observe=["values read back by programs"])

prop("C13","memset and memcpy act as simultaneous fill and move, trimmed to range",
 "memset(dest, value, count) sets exactly the slots of [dest, dest+count) that lie in the local buffer, and memcpy(dest, src, count) makes every slot dest+i, for each i in [0, count) with both dest+i and src+i in range, hold the value slot src+i had before the call, even when the areas overlap. No other slot changes, for any length and for starts and counts that are negative, beyond the end or larger than any integer, and gmegabuf is never touched.",
 ["inputs","histories"],"all destination, source, count triples incl. block-crossing overlaps in both directions, negative and out-of-range starts, counts up to 1e18",
 "No test calls either function.",
 [PE+"MemoryBuffer.c",PE+"TreeFunctions.c","docs/Expression-Syntax.md"],
 [("prjm_eval_memory_copy / prjm_eval_memory_set",PE+"MemoryBuffer.c")],
 observe=["slots around all range ends and block boundaries read back"])

prop("C14","Contexts share what they were given to share and nothing else",
 "Variables and the local buffer belong to one context; reg00..reg99 are shared by exactly the contexts created with the same register array (or all with none), and the global buffer by exactly those created with the same buffer (or all with none). Freeing a context's local memory or resetting its variables affects neither registers, the global buffer nor other contexts.",
 ["histories","configurations"],"all sequences of context creation with any combination of private/default register arrays and buffers, writes, reads, resets, frees and destruction",
 "Each test uses a single context.",
 [PE+"CompileContext.c",PE+"TreeVariables.c",PE+"MemoryBuffer.c",PE+"api/projectm-eval.c","docs/Memory-Handling.md"],
 [("per-context variable list and memory",PE+"CompilerTypes.h projectm_eval_context"),("register array selection",PE+"TreeVariables.c"),("global buffer selection",PE+"CompileContext.c")],
 observe=["values seen from every context after every step"])

prop("C15","A variable name denotes one stable storage location per context",
 "Registering or using a name, in any letter case, before or after code using it is compiled, always denotes the same storage, whose address stays valid and unchanged until the context is destroyed; different names denote different storage; new variables start at 0; reg followed by exactly two digits denotes that entry of the register array. Resetting a context sets all its variables to 0 in place and leaves the registers unchanged.",
 ["histories","inputs"],"all sequences of registrations, compilations, executions and resets over arbitrary many names of any length, incl. near-collisions with register and function names",
 "Tests register at most three one-letter variables before compiling.",
 [PE+"TreeVariables.c",PE+"api/projectm-eval.c",PE+"api/projectm-eval.h"],
 [("variable list lookup",PE+"TreeVariables.c"),("reset",PE+"CompileContext.c prjm_eval_reset_context_vars")],
 observe=["pointer identity","values through pointers and programs"])

prop("C16","No leaks and no dangling state over any lifecycle history",
 "After any sequence of creating contexts and buffers, compiling valid and invalid code, executing, resetting, freeing and destroying - contexts, code handles and unused buffers in any order, the built-in global buffer repeatedly - every resource is released and no released memory is used. Destroying the built-in global buffer resets it: contexts created afterwards see an empty one.",
 ["histories"],"all legal sequences of API calls, incl. failed compilations of every kind and repeated teardown and re-creation",
 "Fixtures create and destroy one context and buffer; leak checking is off and no compilation fails.",
 [PE+"CompileContext.c",PE+"CompilerFunctions.c",PE+"Compiler.y",PE+"ExpressionTree.c",PE+"MemoryBuffer.c","ReadMe.md"],
 [("context/code/buffer destroy functions",PE+"CompileContext.c, "+PE+"MemoryBuffer.c"),("tree destruction",PE+"ExpressionTree.c"),("parser discard actions",PE+"Compiler.y")],
 state=[("built-in global buffer","process-wide gmegabuf",PE+"MemoryBuffer.c")],
 observe=["allocator statistics","ASan reports"])

prop("C17","Failed compilations report the right error and place, and nothing else changes",
 "When compilation fails, an error message is available together with the line (from 1) and column (from 1, in characters) where the first token that cannot continue the program starts, or where the call with the wrong number of arguments starts; after the next successful compilation there is no error any more. A failed compilation changes no variable or memory value and no previously compiled code.",
 ["inputs","histories"],"all invalid programs with the offending token at any position of multi-line texts, in sequences of failing and succeeding compilations",
 "No test provokes a compile error.",
 [PE+"CompilerFunctions.c",PE+"CompileContext.c",PE+"Scanner.l",PE+"api/projectm-eval.c"],
 [("prjm_eval_error",PE+"CompilerFunctions.c"),("location tracking",PE+"Scanner.l YY_USER_ACTION")],
 observe=["projectm_eval_get_error","behaviour of older handles and variables"])

prop("C18","Execution depends only on the program and the visible state",
 "The result and effects of executing a code handle are a function of its text and the current values of variables, registers and memory (and the random stream if used): repeated runs, other handles, earlier runs on other data, re-compilation of the same text, or failed compilations in between make no difference.",
 ["histories","programs"],"all interleavings of executions, compilations and destructions of several handles with states saved and restored",
 "Every test executes each handle exactly once.",
 [PE+"TreeFunctions.c",PE+"CompileContext.c",PE+"CompilerFunctions.c"],
 [("temporaries reset on entry of node functions",PE+"TreeFunctions.c")],
 observe=["results and state compared with a fresh context"])

prop("C19","Host locking is well-formed and makes first access from threads safe",
 "Buffer storage is obtained and released only between a call of the host lock and the matching unlock; locks are never nested and every lock is released before the API call returns. If another thread runs at any point where this thread waits for or has just left the lock, no value stored by either is lost and contexts relying on the built-in global buffer still share one buffer.",
 ["schedules","histories"],"all interleavings at lock boundaries of concurrent first accesses, block allocations, context creations and memory frees over shared buffers",
 "Tests use empty lock functions and one thread.",
 [PE+"MemoryBuffer.c","docs/Memory-Handling.md"],
 [("check-lock-check allocation",PE+"MemoryBuffer.c prjm_eval_memory_allocate, prjm_eval_memory_global"),("locked release",PE+"MemoryBuffer.c prjm_eval_memory_free")],
 observe=["host lock callbacks","allocator calls","values read back"])

prop("C20","Running out of memory for buffer blocks is harmless",
 "If storage for a memory buffer region cannot be obtained, reading it yields 0, writing to it is discarded, memset and memcpy change nothing outside their destination range, locks are released and nothing crashes. All values stored earlier stay intact, and the same program works once memory is available.",
 ["fault_sequences"],"all sequences of memory accesses with allocation failures injected at any subset of block allocations",
 "No test makes an allocation fail.",
 [PE+"MemoryBuffer.c",PE+"TreeFunctions.c"],
 [("NULL result of block allocation",PE+"MemoryBuffer.c prjm_eval_memory_allocate"),("NULL checks by callers",PE+"TreeFunctions.c mem, "+PE+"MemoryBuffer.c copy/set")],
 observe=["results and slots read back after injected failures"])

prop("C21","rand delivers the Mersenne Twister stream scaled to the requested range",
 "Successive evaluations of rand(m) return successive numbers of one process-wide 32-bit Mersenne Twister (MT19937) stream, started from the fixed Milkdrop seed, scaled linearly to the range from 0 to m inclusive, where m is rounded down and at least 1. Every evaluation draws a new number, never one fixed at compile time, whichever context or handle it is in.",
 ["histories","inputs"],"all sequences of rand evaluations with any arguments across contexts, handles and loops",
 "No test calls rand.",
 [PE+"TreeFunctions.c","docs/Expression-Syntax.md"],
 [("prjm_eval_genrand_int32 and prjm_eval_func_rand",PE+"TreeFunctions.c"),("non-const flag of rand",PE+"TreeFunctions.c intrinsic table")],
 state=[("generator state","process-wide MT19937 state",PE+"TreeFunctions.c")],
 observe=["values returned"])

prop("C22","The ns-eel2 shim behaves exactly like the native API",
 "Every history of calls through the ns-eel2 compatible functions has the same observable results - handles or NULL, variable storage and values, memory sharing, error text, locking through the host's ns-eel mutex functions, released resources - as the same history through the native functions, and handles of both may be mixed.",
 ["histories","inputs"],"all sequences of shim calls (alloc, regvar, compile, execute, reset, freeRAM, SetGRAM, free, error query) mixed with native calls",
 "The shim is compiled but no test links it.",
 ["ns-eel2-shim/ns-eel.c","ns-eel2-shim/ns-eel.h","ns-eel2-shim/ReadMe.md"],
 [("forwarding functions","ns-eel2-shim/ns-eel.c")],
 observe=["parallel native context","host mutex callbacks"])

prop("C23","All supported build configurations implement the same language",
 "Built with 4-byte instead of 8-byte numbers, or with the optimising release flags instead of debug flags, the library accepts the same programs and, for programs whose intermediate results are finite and ordinary, computes the same results up to the precision of the chosen number type.",
 ["configurations","programs"],"debug, release (fast-math) and 4-byte-number builds over generated programs",
 "The suite is built and run in one configuration only (debug, 8-byte).",
 ["CMakeLists.txt","cmake/FastMathOptimizations.cmake",PE+"api/projectm-eval.h",PE+"TreeFunctions.c"],
 [("PRJM_F_SIZE switch",PE+"api/projectm-eval.h"),("size-dependent constants",PE+"TreeFunctions.c")],
 observe=["results of the same program in each build"])

prop("C24","Every built-in function and operator is accurate over its whole domain",
 "Called with literals or with variables, each mathematical function, operator and compound assignment returns the value of the mathematical function it documents, for arguments over its entire finite domain, to working precision (invsqrt to 0.2 percent), and NaN where asin, acos, sqrt, log, log10 or pow is undefined; boolean and comparison results are exactly 0 or 1, and division or modulo by zero is 0.",
 ["inputs"],"all functions and operators x arguments spanning all magnitudes, signs, integers, half-integers and domain edges",
 "Four functions are called in tests, each with one argument, and only discarded or float-compared.",
 [PE+"TreeFunctions.c","docs/Expression-Syntax.md"],
 [("node functions",PE+"TreeFunctions.c"),("function table",PE+"TreeFunctions.c")],
 observe=["return value of f(args) as constants and through variables"])

prop("C25","Threads using contexts of their own do not affect each other",
 "When several threads at once create, compile in, execute, inspect, reset, free and destroy contexts, and no two of them use the same context, register array or global buffer or draw random numbers, every call of every thread has exactly the results and effects it has when its thread runs alone, and the library performs no unsynchronised conflicting memory accesses (data races).",
 ["schedules","histories","programs"],"all sets of per-thread call histories on disjoint objects, under all interleavings",
 "All tests run in one thread.",
 [PE+"MemoryBuffer.c",PE+"TreeFunctions.c",PE+"CompileContext.c",PE+"CompilerFunctions.c",PE+"TreeVariables.c","docs/Memory-Handling.md"],
 [("reentrant scanner and parser",PE+"Scanner.l, "+PE+"Compiler.y"),("state kept per context",PE+"CompilerTypes.h prjm_eval_compiler_context"),("node functions without static state",PE+"TreeFunctions.c")],
 state=[("process-wide state","built-in buffer, default registers, random generator, function table",PE+"MemoryBuffer.c, "+PE+"TreeVariables.c, "+PE+"TreeFunctions.c")],
 observe=["results, values and errors of each thread","ThreadSanitizer reports"])

prop("C26","Storage in use does not grow while code runs",
 "Apart from one block of storage for each region of 65536 slots accessed for the first time since its buffer was created or freed, executing compiled code again and again leaves the storage held by the library unchanged. So do resetting variables, registering known names, reading errors, the whole life of another context, and compiling code - valid, or broken and followed by valid code - and destroying it, once the names it uses are known. Freeing a context's memory gives all its blocks back.",
 ["histories","programs"],"all histories of executions, compilations, look-ups, resets and frees of any length",
 "Tests run each program once or twice and never look at storage.",
 [PE+"MemoryBuffer.c",PE+"ExpressionTree.c",PE+"CompilerFunctions.c",PE+"CompileContext.c",PE+"TreeVariables.c","docs/Memory-Handling.md"],
 [("block allocation on first access",PE+"MemoryBuffer.c prjm_eval_memory_allocate"),("release of expressions, lists and functions",PE+"ExpressionTree.c"),("release of the error message and the previous result",PE+"CompileContext.c prjm_eval_compile_code")],
 observe=["live allocations of the library between calls"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
