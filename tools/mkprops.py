#!/usr/bin/env python3
# Source of properties.jsonl: run `python3 tools/mkprops.py > properties.jsonl` after editing.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every numeric instruction computes the WebAssembly result for all operands",
 "For every integer, float, comparison, conversion, reinterpretation and sign-extension instruction, the value a compiled function produces is exactly the one the WebAssembly specification gives, for every operand value and however the operands were produced (constants, parameters, locals, globals, memory loads, comparison results, other expressions) and however the result is consumed. Where the specification leaves a NaN's payload open any NaN of that width is accepted; operands for which the specification traps (division by zero, out-of-range truncation) are outside the property.",
 ["inputs","programs"],"all numeric opcodes x all operand values x all ways the two operands and the result can be held by the code generator",
 "Tests apply each opcode to a few constants in one operand form; the code generator picks different code per operand form, register state and constant, so the space is combinatorial.",
 ["pwart/opgen_num.c","pwart/extfunc.c","pwart/opgen_utils.c","sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitNativeX86_64.c"],
 [("opgen_GenNumOp and per-class emitters","pwart/opgen_num.c"),("C helpers for clz/ctz/rot/float rounding/conversions","pwart/extfunc.c"),("operand loading/lazy compare flags","pwart/opgen_utils.c")],
 ["function results on the runtime stack"])

p("C02","Constants and immediates are decoded exactly in every legal encoding",
 "A constant instruction or index/length immediate has the value its bytes denote for every legal LEB128 or IEEE encoding, including maximal, minimal, negative and zero-padded ones, in function bodies and in constant expressions.",
 ["inputs","programs"],"every i32/i64/f32/f64 constant and every legal (also non-minimal) LEB128 encoding of every immediate and section/body length",
 "wat2wasm only ever emits minimal encodings and the tests contain a few dozen constants.",
 ["pwart/util.c","pwart/wagen.c","pwart/opgen_misc.c","pwart/modparser.c"],
 [("read_LEB_/read_LEB_signed","pwart/util.c"),("SkipImmediates vs. code generation decoding the same bytes twice","pwart/wagen.c"),("constant expression evaluation","pwart/modparser.c")],
 ["function results, globals, memory image"])

p("C03","Pending operands keep their value until consumed",
 "A value pushed on the operand stack keeps that value until it is popped, whatever executes in between: writes to the local, global or memory it was read from, calls, memory.grow, other arithmetic under any register pressure, and control flow. Results depend only on WebAssembly evaluation order, never on which values were live at the time.",
 ["inputs","programs"],"all expression trees and stack shapes within the operand-stack limit, with arbitrary interleaved side effects",
 "The compiler holds operands lazily (aliases of locals, unmaterialised compares, scratch registers) and spills them on demand; tests exercise a few stack shapes only.",
 ["pwart/opgen_utils.c","pwart/opgen_misc.c","pwart/opgen_num.c","pwart/wagen.c"],
 [("GetFreeReg / SaveOperand / SaveScratchRegisterAll spilling","pwart/opgen_utils.c"),("local.set alias check","pwart/opgen_misc.c")],
 ["function results, memory, globals, host-call log"],[("ModuleCompiler.stack","compile-time operand stack","pwart/def.h")])

p("C04","Structured control flow follows WebAssembly for every nesting and branch",
 "Blocks, loops, if/else, br, br_if, br_table (any number of targets and any index value, including out-of-range ones), return, unreachable code after a branch, and select execute exactly the paths, with exactly the carried values, that WebAssembly prescribes.",
 ["inputs","programs"],"all nestings of control constructs, branch depths, selector values and stack heights at the branch",
 "Tests cover a handful of fixed block shapes with small selectors; block-result placement depends on the static stack, configuration and path.",
 ["pwart/opgen_ctl.c","pwart/wagen.c","pwart/opgen_utils.c"],
 [("GenCtlOp block/else/end/br/br_if/br_table/return","pwart/opgen_ctl.c"),("two-pass scan of the body","pwart/wagen.c")],
 ["function results, host-call log"])

p("C05","Calls pass all arguments and results intact and preserve the caller's state",
 "A direct, indirect or imported call with any number and mix of parameter and result types (multi-value included), at any recursion depth the stack allows, delivers exactly the given arguments, returns exactly the callee's results, and leaves every local and pending operand of the caller unchanged.",
 ["inputs","programs","histories"],"all signatures, call graphs (recursion, mutual recursion, host callbacks), argument values and caller states",
 "Tests use a few small signatures from nearly empty caller frames.",
 ["pwart/opgen_ctl.c","pwart/opgen_utils.c","pwart/wagen.c"],
 [("EmitCallFunc frame layout and saving","pwart/opgen_utils.c"),("EmitFuncReturn","pwart/opgen_utils.c"),("prologue/locals placement","pwart/wagen.c")],
 ["results, host-call log"])

p("C06","Tail calls behave as call-then-return and use constant stack",
 "return_call and return_call_indirect give the results of calling the target with the given arguments and returning its results, whatever those arguments are computed from (including permutations of the caller's own parameters), and an unbounded chain of tail calls consumes a bounded amount of native and runtime stack.",
 ["inputs","programs"],"all tail-call graphs, signatures and argument expressions",
 "One test performs a single tail call with simple arguments.",
 ["pwart/opgen_ctl.c","pwart/opgen_utils.c"],
 [("tail call emission","pwart/opgen_ctl.c / pwart/opgen_utils.c")],["results; survival and stack use of chains of many thousands of calls"])

p("C07","Locals are private to an activation and start as zero",
 "Under the default configuration every declared local (of any type and at any index) reads as zero until first written on the path actually executed, even when the runtime stack and registers hold garbage; afterwards it holds exactly the last value written in that activation, and no other local, activation or operand changes it.",
 ["inputs","programs"],"all local counts/types/access patterns, control paths and prior stack contents",
 "Zero-initialisation is decided by a one-pass textual glance and locals live in registers or memory by rank; tests have few locals and clean stacks.",
 ["pwart/wagen.c","pwart/opgen_misc.c","pwart/opgen_utils.c"],
 [("locals_need_zero scan","pwart/wagen.c"),("register/stack assignment of locals","pwart/wagen.c")],["results with pre-poisoned stacks"])

p("C08","Loads and stores access exactly the addressed bytes, width and sign",
 "Every load and store instruction on any memory (index, static offset, dynamic address, memory kind: fixed, growable, imported, native, 32- or 64-bit indexed) reads or writes exactly the bytes at address+offset, little-endian, with the specified width and extension, and touches no other byte of any memory.",
 ["inputs","programs"],"all load/store opcodes x addresses x offsets x memory kinds x operand forms, for in-bounds accesses",
 "Tests touch a few addresses of one memory with small offsets.",
 ["pwart/opgen_mem.c","pwart/wagen.c"],
 [("GenMemOp load/store emission","pwart/opgen_mem.c"),("cached memory base register","pwart/wagen.c, pwart/opgen_mem.c")],["memory image after every case, results"])

p("C09","memory.size and memory.grow keep an exact, bounded, content-preserving memory",
 "memory.grow either returns the previous size and extends the memory by exactly the requested pages, zero-filled, with all earlier contents intact and every new byte usable through all aliases of that memory, or returns -1 and changes nothing; memory.size always reports the current size, and a memory never exceeds its declared maximum.",
 ["inputs","histories"],"all sequences of grow/size/load/store over all memories of linked modules, all deltas including huge ones",
 "One test grows a memory once by a small delta.",
 ["pwart/opgen_mem.c","pwart/extfunc.c","pwart/modparser.c"],
 [("insn_memorygrow*","pwart/extfunc.c"),("memory allocation at load","pwart/modparser.c")],["grow results, memory size, contents via wasm and via the host's memory structure"])

p("C10","Bulk memory operations and data segments write exactly the specified bytes",
 "memory.copy (also overlapping, also across memories), memory.fill and active data segments change exactly the destination range to exactly the specified bytes, segments being applied in order, and nothing else.",
 ["inputs","programs"],"all ranges, overlaps, lengths (zero included), memory indices, segment layouts and offset expressions",
 "Tests perform a couple of copies and fills without overlap and one or two segments.",
 ["pwart/opgen_mem.c","pwart/extfunc.c","pwart/modparser.c"],
 [("memory.copy/fill helpers","pwart/extfunc.c"),("data section parsing","pwart/modparser.c")],["whole memory image"])

p("C11","Tables and references: every access hits the right entry",
 "table.get/set/size/fill/copy, element segments, ref.func, ref.null, ref.is_null and call_indirect on any table (index, imported or own) read, write or call exactly the designated entries; references keep their identity through locals, globals, tables, calls and the host; other entries do not change.",
 ["inputs","programs","histories"],"all table indices, entry indices, ranges, overlaps, element segments and reference flows",
 "Tests have one table with a few entries and copy it once.",
 ["pwart/opgen_mem.c","pwart/opgen_misc.c","pwart/opgen_ctl.c","pwart/extfunc.c","pwart/modparser.c"],
 [("table base register / GenTableOp","pwart/opgen_mem.c"),("element section","pwart/modparser.c"),("function reference fix-up after code generation","pwart/modparser.c, pwart/wagen.c")],["table entries via host structure, results"])

p("C12","Globals hold exactly their own value, from initialiser to last write",
 "Every global (any type, any index, own, imported or exported) starts with the value of its constant expression (extended constant expressions and references to imported globals included), and after that holds exactly the last value written to it by any module or the host; a write to one global changes no other state.",
 ["inputs","programs","histories"],"all global counts/types/layouts, initialisers, access orders and sharing patterns",
 "Tests have a few globals of limited types.",
 ["pwart/opgen_misc.c","pwart/modparser.c","pwart/wagen.c"],
 [("global get/set","pwart/opgen_misc.c"),("constant-expression evaluation","pwart/wagen.c, pwart/modparser.c"),("globals layout","pwart/modparser.c")],["host view of exported globals, results"])

p("C13","The host/wasm boundary: layout, results and nothing else on the stack",
 "Calling an exported function from the host with arguments placed by the runtime-stack helpers, and a host function called from wasm, see every argument and result at the documented position (packed, or size-aligned when alignment is configured), for all types and counts; a call preserves the host's callee-saved registers, leaves stack memory below the frame untouched and does not write beyond what its frames need.",
 ["inputs","programs","configurations"],"all signatures x values x nesting of host/wasm/host calls x stack base addresses x configurations",
 "Tests read back one or two results and never look at registers or surrounding stack memory.",
 ["pwart/pwart.c","pwart/util.c","pwart/opgen_utils.c","pwart/wagen.c","include/pwart.h"],
 [("pwart_rstack_put/get","pwart/util.c"),("host function wrapping","pwart/pwart.c"),("prologue/epilogue","pwart/wagen.c")],["raw stack bytes, callee-saved registers, canaries"])

p("C14","Linked modules share exactly the imported objects",
 "An import resolves to precisely the named export of the named module (any kind, names of any legal bytes and length, re-exports included); imported functions, memories, tables and globals are the exporter's own objects, so every change is seen by all sharers at once; index spaces put imports first in order; and the start function is the declared one.",
 ["programs","histories"],"all import/export graphs of several modules, kinds, orders and names",
 "Tests link two or three modules through fixed names.",
 ["pwart/modparser.c","pwart/namespace.c","pwart/pwart.c"],
 [("import/export sections","pwart/modparser.c"),("namespace resolver","pwart/namespace.c")],["cross-module effects, identity of exported objects"])

p("C15","A module that cannot be loaded is reported, and only that",
 "Loading a module that is cut short, has a bad header, an unresolvable import, an unsupported instruction or feature, or exceeds a limit returns an error (no module) to the caller: the process keeps running, no memory error or leak occurs, and already loaded modules and later loads work as if the attempt had not been made.",
 ["inputs","fault_sequences","histories"],"every truncation point and every listed defect class of every module, in every load history",
 "Tests only load valid modules.",
 ["pwart/pwart.c","pwart/modparser.c","pwart/wagen.c","pwart/namespace.c","pwart/util.c"],
 [("error returns from load_module/pwart_load_module","pwart/modparser.c, pwart/pwart.c"),("wa_assert and bounds of the reader","pwart/util.c")],["return value and message, sanitizer reports, behaviour of bystander modules"])

p("C16","Every load/free history is memory-safe and leak-free",
 "Any sequence of creating, compiling, using and freeing compilers, module states, namespaces, host modules, wrapped functions and runtime stacks accesses no freed or foreign memory and, once everything is freed, leaves no heap or executable memory behind.",
 ["histories"],"all API histories that respect the documented ownership rules",
 "Tests free little, run once and without a sanitizer.",
 ["pwart/pwart.c","pwart/modparser.c","pwart/namespace.c","pwart/util.c","sljit/sljit_src/sljitExecAllocator.c"],
 [("free_module / free_runtimectx","pwart/modparser.c"),("namespace_delete","pwart/namespace.c")],["AddressSanitizer/LeakSanitizer, heap and executable-mapping balance per cycle"])

p("C17","Compile configuration changes layout and speed, never results",
 "Setting or clearing stack alignment, index extension and (for programs that write locals before reading them) local zero-initialisation, and declaring a memory fixed or growable, changes neither results, memory, globals, tables nor the host-call sequence of any program.",
 ["configurations","programs","inputs"],"all programs x all combinations of configuration flags",
 "Tests run most programs under one configuration.",
 ["pwart/wagen.c","pwart/opgen_utils.c","pwart/opgen_mem.c","pwart/pwart.c"],
 [("stack_flags/misc_flags branches","pwart/opgen_utils.c, pwart/wagen.c, pwart/opgen_mem.c")],["observations of the same program under every configuration"])

p("C18","A namespace is an exact registry of live modules",
 "After any history of define, find, load and remove operations, lookup and import by name yield exactly the module most recently defined and not removed under that name; attach/detach callbacks of a host module each run exactly once per attachment; and names passed in need not outlive the call.",
 ["histories"],"all histories of namespace operations over any set of names",
 "Tests define a couple of modules and never remove or redefine one.",
 ["pwart/namespace.c"],[("define/remove/find/delete","pwart/namespace.c")],["lookup results, callback log, sanitizer reports"])

p("C19","Builtin functions do what their documentation says",
 "Each function importable from pwart_builtin (version, memory_alloc/free, native_index_size, ref_from_index, ref_copy_bytes, ref_string_length, ref/i64 casts, get_self_runtime_context, load_module, unload_module, import, host_definition, fopen/fread/fwrite/fclose/stdio, native_memory) has exactly the documented effect and result for all arguments, whatever is on the caller's operand stack.",
 ["inputs","programs"],"all argument values and calling contexts of all builtin functions",
 "Tests call about half of them once with fixed arguments.",
 ["pwart/extfunc.c","pwart/hostdef.c","pwart/opgen_ctl.c","pwart/opgen_utils.c","pwart/namespace.c"],
 [("insn_* helpers and builtin table","pwart/extfunc.c"),("inline stub generation","pwart/opgen_utils.c")],["results, files, memory"])

p("C20","Independent activities run concurrently without interference",
 "Several threads, each with its own runtime stack, may execute functions of the same or different modules, and load, compile and free their own modules, concurrently: each obtains exactly the results of running alone, and no data race is observable in the library.",
 ["schedules"],"all interleavings of execution and of load/compile/free of unshared modules on several threads",
 "All tests are single-threaded.",
 ["pwart/pwart.c","pwart/extfunc.c","pwart/modparser.c","sljit/sljit_src/sljitExecAllocator.c"],
 [("per-module state only; locked executable allocator","pwart/*, sljit/sljit_src/sljitExecAllocator.c"),("lazily built builtin symbol table","pwart/extfunc.c")],["per-thread results vs. serial run, ThreadSanitizer reports"])

p("C21","The libffi module passes native calls through unchanged in both directions",
 "Through the libffi module a wasm program can call any native function with any supported combination of argument and result types and gets exactly the native result, and a closure made from a wasm function can be called by native code any number of times, each call delivering its arguments and returning the wasm result.",
 ["inputs","programs","histories"],"all call interfaces (argument/result types and counts), values, and numbers of closure calls",
 "No test of it is built here.",
 ["pwart_syslib/libffi.c"],[("wasm__ffi_* wrappers and closure callback","pwart_syslib/libffi.c")],["values seen on both sides, sanitizer reports"])

p("C22","The libuv module gives wasm threads correct threads, locks and conditions",
 "A thread started through the libuv module runs the given wasm function exactly once on its own stack with the given argument and leaves nothing behind when it ends; its mutexes exclude, its condition variables and other primitives wake and block as libuv's do, and every wrapper returns libuv's result code to the caller in the documented position.",
 ["schedules","histories"],"all interleavings of threads and lock/condition operations; all symbols the module exports",
 "No test of it is built here.",
 ["pwart_syslib/libuv.c"],[("wasm__uv_* wrappers, thread entry","pwart_syslib/libuv.c")],["event log of critical sections, results, sanitizer reports"])

p("C23","WASI calls marshal exactly the guest's arguments and results",
 "Each WASI function exported to a guest hands the guest's arguments, in order and with guest pointers translated to the guest's memory, to the host implementation, and returns its error code and output values to the guest in the places WASI prescribes. The wasiexec program gives the module it runs the command line arguments and the module's own memory, runs its start function and then _start, each once, and reports a file it cannot open or load with exit status 1.",
 ["inputs","programs"],"all WASI functions and argument values",
 "No test of it is built here.",
 ["pwart_syslib/libwasi.c","pwart_syslib/wasiexec.c"],[("wasi__* wrappers","pwart_syslib/libwasi.c")],["arguments seen by the host implementation, guest memory"])

p("C24","The code generator library executes its instruction set as documented",
 "Machine code produced through the sljit compiler interface for any well-formed sequence of its operations (moves, integer and float arithmetic, shifts, comparisons and status flags, conditional moves/selects, memory addressing modes, jumps, calls, conversions) computes exactly the documented result and status flags for all operand values, registers, immediates and memory operand forms, leaving saved registers and unrelated memory unchanged.",
 ["inputs","programs"],"all operations x operand forms x registers x values",
 "The bundled tests run fixed sequences with a few values each.",
 ["sljit/sljit_src/sljitLir.c","sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitNativeX86_64.c"],
 [("emit_* functions of the x86-64 back end","sljit/sljit_src/sljitNativeX86_common.c, sljitNativeX86_64.c")],["register and memory state after execution"])

p("C25","Executable memory handed out is disjoint, intact and reclaimed",
 "Every generated function stays at its address with its code intact until it is freed, however many others are generated or freed in between and by however many threads; live blocks never overlap, and memory freed (with unused memory released) is returned.",
 ["histories","schedules"],"all allocate/free orders, sizes and threads",
 "Tests allocate and free in simple order on one thread.",
 ["sljit/sljit_src/sljitExecAllocator.c","sljit/sljit_src/sljitLir.c"],[("first-fit chunk allocator with coalescing","sljit/sljit_src/sljitExecAllocator.c")],["code bytes and results of every live function, address ranges, mappings"])

p("C26","Serialising a compiler and restoring it changes nothing",
 "A code-generation session saved at any point with the serialisation interface and restored, in the same or a fresh compiler, continues to generate a function with exactly the behaviour the unsaved session would have produced, with labels, jumps, constants and patchable sites intact; buffers that were cut short or carry another signature or version are rejected.",
 ["programs","fault_sequences"],"all operation sequences and all save points; all truncations; all other signatures and versions",
 "The bundled test saves a few fixed programs at fixed points.",
 ["sljit/sljit_src/sljitSerialize.c"],[("sljit_serialize_compiler / sljit_deserialize_compiler","sljit/sljit_src/sljitSerialize.c")],["results of both sessions"])

p("C27","The regex matcher finds exactly what the pattern denotes",
 "For every supported pattern and flag combination and every subject, fed whole or in chunks, the compiled matcher reports a match exactly when one exists, with the begin, end and identifier its documented rules select; unsupported or malformed patterns are rejected with an error.",
 ["inputs","programs"],"all patterns, flags, subjects and chunkings",
 "The bundled tests are a fixed list of about four hundred pattern/subject pairs, fed whole.",
 ["sljit/regex_src/regexJIT.c","sljit/regex_src/regexJIT.h"],[("parse/NFA build/code generation and state machine execution","sljit/regex_src/regexJIT.c")],["match begin/end/id"])

p("C28","Growable stacks keep their contents and their limits",
 "A stack from the sljit stack allocator or the runtime stack allocator is usable over its whole promised extent, keeps its contents across every sequence of grow and shrink requests, refuses requests beyond its limits without changing anything, is suitably aligned, and is fully released when freed.",
 ["histories","inputs"],"all sizes and sequences of resize requests",
 "One fixed scenario is tested.",
 ["sljit/sljit_src/sljitUtils.c","pwart/pwart.c"],[("sljit_allocate_stack/sljit_stack_resize","sljit/sljit_src/sljitUtils.c"),("pwart_allocate_stack","pwart/pwart.c")],["contents, return values, mappings"])

if __name__=="__main__":
    for x in P: print(json.dumps(x))
