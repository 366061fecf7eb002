import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=[],hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
VM=["src/vm/vm.c","src/vm/vm.h"]
p("S01","Sandbox containment: bytecode cannot touch host memory or kill the host",
 "Loading and running any bytecode image, well-formed or hostile, reads and writes only the memory that belongs to that VM: its vm_t, the blocks it got from Com_malloc, and (reading only, during VM_Create only) the caller's image buffer. Every store a guest makes lands inside the guest's own data segment and every load it makes is from there. No image and no guest action makes the library raise a fault signal (bad access, arithmetic trap, illegal instruction) in the host process.",
 ["programs","inputs","histories","fault_sequences"],
 "every image byte string, every guest execution, every sequence of VM_Create/VM_Call/VM_Free with any arguments, any callback return values and nested calls, any allocation failure",
 "The repository's tests run two well-behaved programs and a few damaged copies of one; containment must hold for every instruction stream, every stack pointer and every address, in particular ones no compiler emits.",
 VM,[("data mask on guest addresses","src/vm/vm.c:VM_CallInterpreted"),("header and branch validation","src/vm/vm.c:VM_LoadQVM, VM_PrepareInterpreter"),("opcode mask / uint8_t op stack index","src/vm/vm.c")],
 ["every memory access of the library, classified by the simulator","signals","guard zones around each block"],
 [("vm_t.dataBase/dataMask","guest memory window","src/vm/vm.h"),("vm_t.codeBase","expanded instructions","src/vm/vm.h")])
p("S02","A failing guest call ends only that call; VM and host stay usable",
 "When a guest call goes wrong (undefined instruction, wild jump, call or return, division by zero, code without an end) VM_Call reports it through the error callback and returns to the host at the nesting level it was called from. Afterwards the VM can be called again with exactly the program stack it had before, any enclosing call continues correctly, and other VMs are unaffected; no number of failing calls wears the VM out. A VM that is not running can always be freed.",
 ["histories","programs","fault_sequences"],
 "every history of successful and failing calls, at every nesting depth, with the failure at every instruction",
 "The tests make at most one failing call per VM and never use the VM afterwards.",
 VM,[("error returns of the interpreter loop","src/vm/vm.c:VM_CallInterpreted"),("restore of program stack and call level","src/vm/vm.c:VM_Call"),("refusal while running","src/vm/vm.c:VM_Free")],
 ["return of VM_Call","guest-visible stack addresses of later calls","vm_t.callLevel"],
 [("vm_t.programStack","top of the guest's call stack between calls","src/vm/vm.h"),("vm_t.callLevel","nesting","src/vm/vm.h")])
p("S03","Only complete, consistent images load; the caller's buffer is never altered",
 "VM_Create succeeds exactly for images whose header has the magic number and describes sections inside the buffer, whose code section holds the stated number of known instructions with complete operands, and whose branches lead to existing instructions; every truncated, torn or inconsistent image is rejected with -1. It never reads beyond the given length and never modifies the buffer, and a loaded VM no longer needs the buffer.",
 ["inputs","fault_sequences"],
 "every byte string and length offered as an image, including every truncation, torn write and bit flip of valid images, and reuse of the buffer after loading",
 "The tests corrupt a handful of header fields of one image; the accept/reject boundary is a predicate over all byte strings.",
 VM,[("header validation","src/vm/vm.c:VM_LoadQVM"),("instruction scan and branch check","src/vm/vm.c:VM_PrepareInterpreter")],
 ["return value of VM_Create","reads of the image buffer","content of the buffer afterwards"])
p("S04","Every allocation is released exactly once, whatever fails",
 "Over any history of VM_Create, VM_Call and VM_Free in which any allocation may fail, every block obtained from Com_malloc is given back to Com_free exactly once, with the VM and allocation type it was requested with, never while in use and never used afterwards. A failed VM_Create leaves nothing allocated and a vm on which VM_Free is harmless; VM_Free leaves nothing allocated and may be repeated, and a freed VM refuses calls. Freeing a VM from inside its own running call is refused and harmless.",
 ["histories","fault_sequences"],
 "every sequence of create/call/free operations and every subset of failing allocations and rejected images",
 "The tests never fail an allocation and never look at what the library releases on error paths; valgrind sees one successful run.",
 VM,[("cleanup on failure","src/vm/vm.c:VM_Create"),("VM_Free","src/vm/vm.c:VM_Free")],
 ["Com_malloc/Com_free ledger kept by the simulator"])
p("S05","Execution follows the instruction set exactly",
 "For every accepted image and every call, the sequence of system calls with their arguments, the value returned, the error reported, and the complete final contents of guest memory are those prescribed by the documented Q3VM instruction set (arithmetic, comparisons signed/unsigned/float, conversions, memory widths, calls, frames and branches). This holds in every build of the interpreter: with computed gotos, with the plain switch, optimised or not.",
 ["programs","inputs","configurations"],
 "all instruction sequences and operand values, all call arguments, all system call results, both dispatch implementations",
 "The tests run four small compiled functions; most instruction/operand/stack-state combinations are never executed and the switch build is not tested at all.",
 VM+["Quake 3 Virtual Machine (Q3VM) Specifications.html"],[("interpreter loop","src/vm/vm.c:VM_CallInterpreted"),("code expansion","src/vm/vm.c:VM_PrepareInterpreter")],
 ["system call trace","return values","guest memory image"])
p("S06","VMs in one process are isolated from each other",
 "Any number of VMs can live in one process and run interleaved at any point, on different threads of control or nested inside each other's system calls, from the same or different images. Each of them behaves exactly as if it were alone: same system calls, results, errors and memory.",
 ["schedules","histories"],
 "every interleaving of creation, calls and destruction of several VMs, at the granularity of single memory accesses",
 "The tests run one VM at a time on one thread.",
 VM,[("all state in vm_t and on the stack of VM_Call","src/vm/vm.c"),("no mutable globals in the release build","src/vm/vm.c")],
 ["per-VM trace compared with the trace of the same VM run alone"])
p("S07","System call boundary and re-entrancy",
 "A system call hands the host the call number (as -1 minus the guest's function number) followed by the guest's 15 argument words, each sign-extended, and hands its result back to the guest as the value of the call. VM_Call passes its command and up to 12 arguments to the guest unchanged and returns the guest's result. From inside a system call the host may call into the same VM again, to any depth: the nested call gets its own stack area and the interrupted guest resumes with its locals, arguments, pending expression values and return address intact.",
 ["histories","inputs","programs"],
 "all argument and return values, all nesting depths and all call points at which the host re-enters the VM",
 "One test nests one call at one point with two arguments.",
 VM,[("argument marshalling","src/vm/vm.c:VM_CallInterpreted OP_CALL"),("programStack saved for nested entry","src/vm/vm.c"),("VM_Call variadic arguments","src/vm/vm.c:VM_Call")],
 ["arguments seen by the callback","guest locals after nested calls","results"])
p("S08","Errors are always reported, with the right code, and nothing else is",
 "Every failed VM_Create returns -1, calls the error callback at least once, and leaves the code of the failure in the vm's last error; every guest failure and misuse (null vm, not loaded, freeing a running VM, stack imbalance, out-of-range block copy, address range outside the sandbox) calls the error callback with the code documented for it. Operations that succeed never call the error callback.",
 ["inputs","histories","fault_sequences"],
 "all failing and succeeding operations, all causes of failure",
 "The tests look at a few return codes and at neither the callback nor the recorded error in most failure paths.",
 VM+["README.md"],[("Com_Error calls and vm_t.lastError","src/vm/vm.c"),("error codes","src/vm/vm.h:vmErrorCode_t")],
 ["Com_Error history","return values","vm_t.lastError"])
p("S09","Execution is deterministic",
 "What a guest computes depends only on its image, the arguments of the calls made and the results of its system calls. It does not depend on earlier contents of the memory the host allocator or the host stack hands out, on addresses, on other VMs that ran or failed before, or on when the host runs it: repeating a history gives bit-identical system calls, results, errors and guest memory.",
 ["histories","programs","fault_sequences"],
 "all guests (including ones that use uninitialised stack slots, memory or op stack entries), all allocator contents and placements, all preceding histories",
 "A test run observes one allocator state; stale memory happens to be zero in a fresh process.",
 VM,[("zero-filled data segment","src/vm/vm.c:VM_LoadQVM"),("initialised op stack and vm_t","src/vm/vm.c")],
 ["paired executions under different memory poison"])
p("S10","The q3vm tool runs exactly the file it was given or fails cleanly",
 "q3vm loads the whole image file or runs nothing: if the file is missing, empty, unreadable, shrinks while being read, or memory runs out, it exits with a nonzero status without executing any guest code. A loaded image is executed once by calling its main with command 0; guest output appears on stdout (print) and stderr (error) completely and in order, and the exit status is that of the guest's result, or nonzero if the VM reported an error. It closes every file it opened, and when main returns it has released its memory.",
 ["fault_sequences","inputs"],
 "every file content, every I/O error, short read and allocation failure at every call",
 "The tests start the tool on two good files and one damaged one; no I/O or memory error ever occurs.",
 ["src/main.c","src/vm/vm.c"],[("loadImage","src/main.c:loadImage"),("main, systemCalls, Com_Error","src/main.c")],
 ["simulated file system and stdio","exit status","guest output"])
p("S11","q3asm links exactly what the assembly says, or fails",
 "Whenever q3asm exits with status 0 the image it leaves is exactly the translation of the given assembly files: every instruction with its operand, every label, procedure offset, argument slot and symbol (file-local and exported, across files) resolved, data, literal and zero segments laid out with the required alignment, the 64 KiB program stack reserved, and header and (with -m/-v options as given) map file describing it. Otherwise (unknown opcode or symbol, duplicate definition, overflow, I/O or memory error) it terminates with a nonzero status, and under the output name there is no loadable image other than an untouched older file or the complete correct image.",
 ["programs","inputs","fault_sequences"],
 "all sets of assembly files, option combinations, and all failing reads, writes, closes and allocations",
 "The tests link two fixed programs without any fault; wrong or missing links of other programs and lost errors go unnoticed.",
 ["q3asm/q3asm.c","q3asm/cmdlib.c"],[("two pass assembly","q3asm/q3asm.c:Assemble"),("symbol hash and scoping","q3asm/q3asm.c:DefineSymbol, LookupSymbol"),("image writing","q3asm/q3asm.c:WriteVmFile, WriteMapFile")],
 ["image and map bytes in the simulated file system","exit status"])
p("S12","The compiler driver reports success only for complete output",
 "If lcc (driver, preprocessor q3cpp and compiler q3rcc) exits with status 0, its output is the one a fault-free compilation of the same source produces (byte for byte, apart from source lines quoted in comments); if a failing read, write, close, process start or memory allocation in any of the processes keeps it from that, or the source contains an error, the exit status is nonzero, and so it is for q3cpp and q3rcc run on their own. It always terminates.",
 ["fault_sequences","programs"],
 "every source, every single or repeated I/O error, full disk, short read or write, failing fork/exec/allocation at every system call of every process of the pipeline",
 "No test makes an I/O call fail; a truncated .asm file after a full disk still assembles.",
 ["lcc/etc/lcc.c","lcc/etc/bytecodelcc.c","lcc/cpp/cpp.c","lcc/cpp/unix.c","lcc/cpp/cpplex.c","lcc/src/main.c","lcc/src/output.c","lcc/src/input.c"],
 [("callsys and exit statuses","lcc/etc/lcc.c:callsys"),("output buffering","lcc/cpp/unix.c, lcc/cpp/tokens.c, lcc/src/output.c")],
 ["simulated processes, files and exit statuses"])
p("S13","Compiled C programs compute what the C source says",
 "A C program translated by lcc, linked by q3asm and run by the interpreter produces the output and the result that the C language prescribes for it with 32-bit int, long, pointers and float: integer and floating expressions, conversions, control flow, switch, functions and recursion, function pointers, arrays, structs, unions, bit-fields, initialisers, static and global data across several files, strings and preprocessor macros.",
 ["programs","inputs"],
 "all C programs of the supported dialect free of undefined behaviour, and all inputs to them",
 "The tests compile two programs.",
 ["lcc/src/simp.c","lcc/src/enode.c","lcc/src/expr.c","lcc/src/stmt.c","lcc/src/dag.c","lcc/src/init.c","lcc/src/decl.c","lcc/src/types.c","lcc/src/bytecode.c","lcc/src/gen.c","lcc/cpp/macro.c","lcc/cpp/eval.c","q3asm/q3asm.c","src/vm/vm.c"],
 [("front end and constant folding","lcc/src/*.c"),("bytecode back end","lcc/src/bytecode.c"),("preprocessor","lcc/cpp/*.c"),("linker","q3asm/q3asm.c"),("interpreter","src/vm/vm.c")],
 ["guest output and results compared with an independent evaluation of the same source"])
p("S14","Debugging aids never change execution",
 "A VM built with DEBUG_VM behaves like the release build for every guest that does not violate the additional debug checks (program stack overflow and alignment, load alignment): same system calls, results, errors and guest memory, at every VM_Debug level, with profiling, and whether the symbol map file is present, absent, truncated, corrupt, unreadable or cannot be held in memory. A broken map file is never fatal: the VM loads, and everything allocated for symbols is released by VM_Free.",
 ["configurations","fault_sequences","programs"],
 "all guests, map file contents, map file I/O errors, allocation failures and debug levels",
 "The debug build is not tested at all.",
 VM,[("DEBUG_VM sections","src/vm/vm.c"),("symbol loading","src/vm/vm.c:VM_LoadSymbols")],
 ["traces of debug and release build of the same run","allocation ledger"])
p("S15","A crash while linking never leaves a wrong image that loads",
 "If q3asm is killed, or the machine loses power, at any point while it links (with only a prefix of what it wrote reaching the disk), then the file under the output name is afterwards absent, empty, rejected by the VM loader, or a complete correct image; in particular an older, longer or shorter image is never mixed with the new one. Linking again afterwards produces the correct image.",
 ["crash_points","fault_sequences"],
 "every system call of the link as kill point and every prefix of the written data surviving",
 "No test interrupts a link.",
 ["q3asm/q3asm.c","q3asm/cmdlib.c","src/vm/vm.c"],[("old image removed first","q3asm/q3asm.c:WriteVmFile or main"),("lengths in the header checked on load","src/vm/vm.c:VM_LoadQVM")],
 ["surviving file offered to the real loader"])
p("S16","Builds that run at the same time do not disturb each other",
 "Any number of lcc, q3cpp, q3rcc and q3asm processes working at the same time in the same directory and the same temporary directory, on different outputs, produce exactly the results they produce alone, for every interleaving, also when stale temporary files of earlier or killed builds with the same process number are present and the clock jumps.",
 ["schedules","fault_sequences"],
 "all interleavings of the file operations of concurrent builds, stale files and process number reuse",
 "The tests build serially in a clean tree.",
 ["lcc/etc/lcc.c","lcc/cpp/unix.c","q3asm/q3asm.c"],[("temporary names from the process number","lcc/etc/lcc.c:tempname")],
 ["simulated file system and process table"])
p("S17","lcc cleans up its temporary files",
 "When lcc ends, after success, after a failing compilation step, or after an interrupt, termination or hangup signal at any moment, no temporary file it created remains, it has waited for every process it started, and it has removed no file that it did not create. After such a signal its exit status is nonzero.",
 ["crash_points","fault_sequences","schedules"],
 "every point at which a signal or a failure of a sub-process can arrive",
 "No test sends a signal or looks at the temporary directory.",
 ["lcc/etc/lcc.c"],[("rm list and interrupt handler","lcc/etc/lcc.c:main, interrupt, rm")],
 ["simulated file system after exit"])
p("S18","The host's pointer helpers keep system calls inside the sandbox",
 "For every address and length a guest can pass, VM_MemoryRangeValid accepts only ranges that lie completely inside the guest's data memory, and accepts every non-empty range starting above address 0 that ends before the last byte of it; VM_ArgPtr maps address 0 to NULL and every other address to the corresponding byte inside that memory. A string passed by a guest that runs up to the end of its memory is still terminated inside the VM's own allocation, and system calls that use these helpers as documented (such as the q3vm tool's memset, memcpy, print and error calls) never touch other memory.",
 ["inputs","programs"],
 "all addresses, lengths (including negative and huge ones) and guest memory contents and sizes",
 "The tests try a few addresses with small lengths.",
 VM+["src/main.c"],[("VM_ArgPtr, VM_MemoryRangeValid","src/vm/vm.c"),("slack behind the data segment","src/vm/vm.c:VM_LoadQVM"),("systemCalls","src/main.c")],
 ["accesses of the callbacks, classified by the simulator"])
p("S19","The preprocessor computes what the C standard says",
 "If q3cpp exits with status 0, the tokens it has written are those that the C89 translation phases 1 to 4 produce from the source and its headers (trigraphs, spliced lines, comments, conditional inclusion, header search, macro replacement with # and ##, argument prescan and rescanning without endless recursion, #line and the predefined macros), every token is placed at its file and line by the #line markers, adjacent tokens do not merge, and nothing is lost at the ends of its buffers or files. It exits with a nonzero status for a source with a constraint violation in a directive or macro call that is not skipped, and with status 0 for a valid one within its stated limits. This holds for every way the system hands out the file contents, and a header that cannot be opened or read is never replaced by another one or left out silently.",
 ["inputs","programs","fault_sequences"],
 "all sources, header trees, options, read sizes and failing opens, reads, writes and allocations",
 "The tests preprocess a few clean files; macro corner cases, long inputs and read errors never occur.",
 ["lcc/cpp/cpp.c","lcc/cpp/macro.c","lcc/cpp/cpplex.c","lcc/cpp/eval.c","lcc/cpp/include.c","lcc/cpp/tokens.c","lcc/cpp/hideset.c","lcc/cpp/nlist.c","lcc/cpp/unix.c"],
 [("lexer and input buffer","lcc/cpp/cpplex.c:gettokens, fillbuf, foldline, trigraph"),("macro expansion","lcc/cpp/macro.c:expandrow, gatherargs, substargs, doconcat"),("hide sets","lcc/cpp/hideset.c"),("#if","lcc/cpp/eval.c:eval"),("#include and #line","lcc/cpp/include.c:doinclude, genline"),("output","lcc/cpp/tokens.c:puttokens, makespace")],
 ["output tokens and positions compared with an independent preprocessor", "exit status"])
N=[]
p("N01","Computed gotos make the interpreter faster than the switch",
 "The README states that the release build of the interpreter (computed gotos) runs bytecode faster than the plain switch build on the supported compilers.",
 ["configurations"],"all guests on all hosts",
 "The tests do not measure time.",
 VM+["README.md"],[("USE_COMPUTED_GOTOS","src/vm/vm.c")],["wall-clock time"])
p("N02","Images behave identically on big-endian, 32-bit and Windows hosts",
 "The same image gives the same results on hosts with another byte order, word size or operating system.",
 ["configurations"],"all guests on all supported host platforms",
 "The tests run on one host platform.",
 VM+["src/main.c","lcc/etc/lcc.c"],[("LittleEndianToHost","src/vm/vm.c")],["results on other hosts"])
p("N03","lburg generates correct instruction selectors",
 "The instruction selector that lburg generates from a grammar matches every tree at least cost according to that grammar.",
 ["inputs"],"all grammars and trees",
 "No test runs lburg; the bytecode back end does not use it.",
 ["lcc/lburg/lburg.c","lcc/lburg/gram.y"],[("tree grammar compiler","lcc/lburg")],["generated C source"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
