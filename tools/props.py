"""What every check runs and how its evidence is described."""

BACKENDS = {
    "vm": {"exe": "vmsim", "build": "sim/build_vm.sh",
           "sources": ["$REPO/src/**/*.c", "$REPO/src/**/*.h", "$HERE/sim/*"]},
    "tool": {"exe": "toolsim", "build": "sim/build_tools.sh",
             "sources": ["$REPO/src/**/*.c", "$REPO/src/**/*.h", "$REPO/q3asm/**/*.c", "$REPO/q3asm/**/*.h", "$REPO/lcc/**/*.c", "$REPO/lcc/**/*.h", "$HERE/sim/*"]},
}

VM_RULE = ("Run k of a check is generated from a seed derived from VERIF_SEED and k: it draws guest images (structured programs, random "
           "instruction sequences, damaged images), a history of host operations (create, call, free, nested calls and frees from system calls, "
           "helper calls, misuse), the results of system calls and the faults. A run is non-trivial when its recorded history holds more than one "
           "creation or call; it is distinct when the hash of its schedule and its complete history differs from all others.")
VM_REAL = ["src/vm/vm.c (compiled from the working tree: clang -O1 with every load, store and edge instrumented; gcc -O2 computed gotos; gcc -O2 plain switch; gcc -O0; DEBUG_VM build)",
           "systemCalls of src/main.c"]
VM_STUB = ["Com_malloc/Com_free/Com_Error and malloc/free (simulator: guarded arena, seeded placement, contents and failures)",
           "stdio of the DEBUG_VM build (in-memory map file with seeded faults)", "the host application (seeded system call handler)",
           "threads (fibers switched by the seeded scheduler at instrumented edges)"]
VM_OBS = {k: k for k in ("runs", "events", "calls", "nested", "syscalls", "creates", "rejected", "frees", "guestErrors", "errCodes", "helper", "misuse",
                         "toolSys", "freeRefused", "accesses", "stuck", "unmodelled", "poisonPairs", "prof", "maxNest", "stateHashes")}
VM_TIME = {"basic_blocks_executed_in_the_library": "stepGuards", "instructions_executed_by_the_model": "modelSteps", "history_events": "events"}
VM_FAULTS = {"allocation_failures": "allocFails", "images_rejected_truncated_torn_or_damaged": "rejected", "guest_errors": "guestErrors",
             "image_buffer_destroyed_after_load": "imgDestroyed", "image_buffer_write_protected": "imgReadonly", "preemptions": "preemptions",
             "frees_from_inside_a_running_call": "freeRefused", "api_misuse": "misuse", "map_file_absent": "mapAbsent", "map_file_corrupt_or_truncated": "mapCorrupt",
             "map_file_read_errors": "mapReadErr", "map_file_allocation_failures": "mapAllocFail"}
VM_ASSUME = ["little-endian x86-64 host, the compilers of the sandbox",
             "the simulator's reference model follows the specification in doc/ and vm.h",
             "results that C leaves undefined (NaN bit patterns, shift counts above 31, conversions out of range, overlapping block copies) are not compared from the point where they arise",
             "calls that execute more than 400000 basic blocks are cut off and compared up to there"]


def vm(quick, thorough, states="distinct run histories (hash of schedule and all recorded events) and library edges reached", extra=None):
    d = {"backend": "vm", "runs": {"quick": quick, "thorough": thorough}, "cap": {"quick": 150, "thorough": 700}, "rule": VM_RULE, "real": VM_REAL, "stub": VM_STUB,
         "observed": VM_OBS, "time": VM_TIME, "faults": VM_FAULTS, "assumptions": VM_ASSUME, "states": states}
    d.update(extra or {})
    return d


TOOL_RULE = ("Run k of a check is generated from a seed derived from VERIF_SEED and k: it draws input files (images, assembly files, C programs, with and "
             "without defects), command lines, environment, earlier contents of the file system and process numbers, executes the scenario without faults, "
             "compares it with the reference, and executes it again under several fault, crash, signal or schedule plans. Counted as distinct are executions "
             "whose complete history (every system call of every process with result, every switch, every fault, all files at the end) differs from all others.")
TOOL_REAL = ["q3cpp (lcc/cpp), q3rcc (lcc/src), lcc (lcc/etc), q3asm, q3vm (src/main.c, src/vm/vm.c): all sources of the working tree, built twice (clang -O1 with every edge instrumented; gcc as shipped)"]
TOOL_STUB = ["the C library's I/O, memory, process and time functions (sim/tlibc.c: stdio with real buffering on simulated system calls)",
             "the kernel (sim/tkernel.h: files, directories, descriptors, processes, fork, exec, wait, signals, clock, memory, page cache and disk)"]
TOOL_OBS = {k: k for k in ("runs", "execs", "procs", "calls", "forks", "plansOk", "plansFailed", "signalsHandled", "pidReuse", "crashes", "kills", "images", "programs",
                           "sourceErrors", "unmodelled", "asmFiles", "asmErrors", "asmUnsure", "lines", "relinks", "skipped", "programSteps", "linkedInstructions",
                           "flavourPairs", "stateHashes")}
TOOL_TIME = {"system_calls_executed": "calls", "basic_blocks_executed_in_the_tools": "edges", "simulated_seconds": "simSeconds", "instructions_executed_by_the_guests": "programSteps"}
TOOL_FAULTS = dict({"preemptions": "f_switch", "failed_calls": "f_fail", "short_reads_and_writes": "f_short", "signals": "f_signal", "kills": "f_kill", "clock_jumps": "f_clock",
                    "disk_full_from_here_on": "f_disk-full", "memory_exhausted_from_here_on": "f_memory-out", "power_losses": "f_power-loss",
                    "io_errors_from_here_on": "f_io-error-from-here", "files_truncated_while_in_use": "f_truncate"},
                   **{"failed_" + k: "fail_" + k for k in ("open", "create", "close", "read", "write", "lseek", "unlink", "rename", "mkdir", "stat", "access", "dup2", "ftruncate", "fork", "exec", "malloc")})
TOOL_ASSUME = ["little-endian x86-64 host, the compilers of the sandbox",
               "the simulated kernel and C library behave like Linux and glibc where the tools depend on them",
               "after a power loss the directory operations survive in order up to some point and the data written survives up to some byte (ordered journalling)"]


def tool(quick, thorough, states="distinct histories of simulated executions, and edges of the tools' code reached", extra=None):
    d = {"backend": "tool", "runs": {"quick": quick, "thorough": thorough}, "cap": {"quick": 150, "thorough": 700}, "rule": TOOL_RULE, "real": TOOL_REAL, "stub": TOOL_STUB,
         "observed": TOOL_OBS, "time": TOOL_TIME, "faults": TOOL_FAULTS, "assumptions": TOOL_ASSUME, "states": states}
    d.update(extra or {})
    return d


PROPS = {
    "S01": vm(36000, 700000),
    "S02": vm(28000, 450000),
    "S03": vm(40000, 700000),
    "S04": vm(40000, 700000),
    "S05": vm(45000, 900000),
    "S06": vm(12000, 200000, "distinct interleavings (hash of the sequence of actor switches)"),
    "S07": vm(50000, 900000),
    "S08": vm(45000, 800000),
    "S09": vm(28000, 500000),
    "S10": tool(120000, 2600000),
    "S11": tool(20000, 330000),
    "S12": tool(14000, 220000),
    "S13": tool(26000, 440000, extra={"known": True}),
    "S15": tool(11000, 160000),
    "S16": tool(5600, 84000, "distinct interleavings of the processes (hash of the sequence of process switches)"),
    "S17": tool(14000, 240000),
    "S19": tool(200000, 1500000),
    "S14": vm(36000, 600000),
    "S18": vm(45000, 800000),
}
