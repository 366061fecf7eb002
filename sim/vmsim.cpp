// vmsim: deterministic simulation of the q3vm library. See DESIGN.md.
#define SIM_MAIN
#include <fcntl.h>
#include "core.h"
#include "model.h"
#include "imagegen.h"
#include <unordered_set>
extern "C" {
#include "vm.h"
}
#undef Com_Printf
#undef VMA
#undef VMF

// ------------------------------------------------------------------ flavours
struct Flavour {
    std::string name; Object obj; bool inst = false, dbg = false;
    decltype(&VM_Create) create; decltype(&VM_Free) free_; decltype(&VM_Call) call; decltype(&VM_ArgPtr) argptr;
    decltype(&VM_MemoryRangeValid) range; decltype(&VM_Debug) debug; decltype(&VM_VmProfile_f) profile;
    intptr_t (*syscalls)(vm_t*, intptr_t*) = nullptr;
};
static std::vector<Flavour*> flavours;
static Flavour* flavour(const char* n) { for (auto f : flavours) if (f->name == n) return f; fprintf(stderr, "no flavour %s\n", n); exit(3); }
static Flavour* F; // of the running world

// ------------------------------------------------------------------ events
enum EvKind : u8 { EV_CREATE, EV_CALL, EV_RET, EV_SYS, EV_SYSRET, EV_ERR, EV_FREE, EV_MEM, EV_LASTERR, EV_RANGE, EV_PTR, EV_READ, EV_WRITE, EV_MISUSE, EV_STUCK, EV_OUT, EV_END };
static const char* const evName[] = { "create", "call", "return", "syscall", "sysret", "error", "free", "memory", "lasterror", "range", "argptr", "read", "write", "misuse", "stuck", "output", "end" };
struct Event {
    u8 kind = 0, slot = 0, depth = 0, n = 0; i64 v[17];
    Event() {}
    Event(int k, int s, std::initializer_list<i64> l) : kind((u8)k), slot((u8)s) { for (i64 x : l) v[n++] = x; }
    bool same(const Event& o) const { return kind == o.kind && slot == o.slot && depth == o.depth && n == o.n && !memcmp(v, o.v, n * 8); }
    std::string str() const { std::string r = strf("vm%d depth %d %s(", slot, depth, evName[kind]); for (int i = 0; i < n; i++) r += strf(i ? ", %lld" : "%lld", (long long)v[i]); return r + ")"; }
};
typedef std::vector<Event> Trace;

// ------------------------------------------------------------------ run configuration
enum Cmp { CMP_NONE, CMP_MODEL, CMP_SOLO, CMP_PAIR, CMP_DEBUG };
struct Cfg {
    std::string prop;
    std::string flav = "inst";
    int actors = 1; bool preempt = false; Cmp cmp = CMP_MODEL;
    GenCfg gen; int nops = 6, nslots = 2, nimages = 2;
    // weights of operations at the outermost level
    int wCreate = 3, wCall = 10, wFree = 2, wHelper = 2, wMisuse = 1, wDirty = 0;
    // system call behaviour
    int sReturn = 8, sWrite = 3, sRead = 2, sNest = 3, sOther = 1, sFreeSelf = 1, sHelper = 1, sTool = 0;
    int failAllocPct = 0;      // creates with a failing allocation
    int bufMode = -1;          // -1 random
    bool mapFaults = false;
    bool cleanCompare = false; // only compare defined argument words and memory outside the program stack
    int maxDepth = 3;
    bool manyFails = false;
};

// ------------------------------------------------------------------ statistics
struct Stats {
    u64 runs = 0, events = 0, calls = 0, syscalls = 0, creates = 0, rejected = 0, frees = 0, guestErrors = 0, nested = 0, stuck = 0,
        unmodelled = 0, preemptions = 0, modelSteps = 0, allocFails = 0, mutated = 0, truncated = 0, imgDestroyed = 0, imgReadonly = 0,
        guards = 0, accesses = 0, helper = 0, misuse = 0, mapAbsent = 0, mapCorrupt = 0, mapReadErr = 0, mapAllocFail = 0, mapOk = 0,
        poisonPairs = 0, freeRefused = 0, toolSys = 0, prof = 0, errCodes = 0;
    u64 opSeen = 0, branchTaken = 0; u64 maxNest = 0;
} st;
static std::unordered_set<u64> traceHashes, schedHashes, stateHashes;

// ------------------------------------------------------------------ world state
struct Block { u8* p; size_t n; u8* page; size_t plen; vm_t* vm; int type; bool live; bool plain; };
struct VmRec {
    vm_t* vm = nullptr; std::vector<int> blocks; // indices into allBlocks
    u8* img = nullptr; size_t imgLen = 0, imgMap = 0; bool imgValid = false;
};
struct LibFrame { VmRec* r; uintptr_t entry; bool creating; };
struct Actor;
struct Fiber { void* sp = nullptr; u8* stack = nullptr; size_t size = 0; Actor* a = nullptr; bool done = false, lib = false; std::vector<LibFrame> fr; u64 budget = 0; };
static Arena arena;
static std::vector<Block> allBlocks;
static Violation viol;
static void* schedSp; static Fiber* cur; static Streams S; static bool dumpImages = false;
static Cfg cfg; static u64 preemptIn; static u64 schedHash; static bool preemptOn;
static Stream* amb; static u32 poisonPat; static bool poisonZero;
static bool worldAbort;
static u64 stepGuards;
static std::vector<std::string> notes; static bool keepNotes;
static Actor* curActor() ;

static void setViol(const char* kind, const std::string& d) { if (!viol.set()) { viol.kind = kind; viol.detail = d; } worldAbort = true; }
static void fiberYield() { Fiber* f = cur; sim_switch(&f->sp, schedSp); }
[[noreturn]] static void fiberDie() { cur->done = true; fiberYield(); abort(); }

// ------------------------------------------------------------------ access classification
static std::string whereIs(uintptr_t a)
{
    for (size_t i = allBlocks.size(); i-- > 0;) { auto& b = allBlocks[i]; uintptr_t p = (uintptr_t)b.page; if (a + 64 >= p && a < p + b.plen + 64) return strf("near block #%zu (type %d, %zu bytes, %s) offset %lld", i, b.type, b.n, b.live ? "live" : "freed", (long long)(a - (uintptr_t)b.p)); }
    if (cur && a >= (uintptr_t)cur->stack && a < (uintptr_t)cur->stack + cur->size) return "on the host stack above the library";
    return arena.contains(a) ? "in unowned sandbox address space" : "outside of all VM memory";
}
static std::string pcName(uintptr_t pc)
{
    for (auto f : flavours) if (pc >= f->obj.lo && pc < f->obj.hi) { Dl_info i; if (dladdr((void*)pc, &i) && i.dli_sname) return i.dli_sname; return "library"; }
    return "?";
}
static bool allowed(uintptr_t a, size_t n, bool wr)
{
    Fiber* f = cur;
    if (!f || f->fr.empty()) return true;
    LibFrame& l = f->fr.back();
    uintptr_t e = a + n;
    if (a >= (uintptr_t)f->stack && e <= l.entry) return true;
    if (l.r) {
        for (int bi : l.r->blocks) { auto& b = allBlocks[bi]; if (b.live && a >= (uintptr_t)b.p && e <= (uintptr_t)b.p + b.n) return true; }
        if (l.r->vm && a >= (uintptr_t)l.r->vm && e <= (uintptr_t)l.r->vm + sizeof(vm_t)) return true;
        if (!wr && l.creating && l.r->imgValid && a >= (uintptr_t)l.r->img && e <= (uintptr_t)l.r->img + l.r->imgLen) return true;
    }
    if (a >= F->obj.lo && e <= F->obj.hi) return !wr || (a >= F->obj.wlo && e <= F->obj.whi);
    if (!wr) { // constants of the simulator passed to the library (vm names)
        extern char simNames[]; if (a >= (uintptr_t)simNames && e <= (uintptr_t)simNames + 4096) return true;
    }
    return false;
}
char simNames[4096];
static void badAccess(uintptr_t a, size_t n, bool wr, uintptr_t pc, const char* via)
{
    setViol("access", strf("%s of %zu bytes %s, in %s%s%s", wr ? "write" : "read", n, whereIs(a).c_str(), pcName(pc).c_str(), via ? " via " : "", via ? via : ""));
    fiberDie();
}
static inline void maybePreempt(uintptr_t pc)
{
    if (preemptOn && --preemptIn == 0) { schedHash = mix(schedHash, pc - F->obj.lo); fiberYield(); }
}
static void access(uintptr_t a, size_t n, bool wr, uintptr_t pc)
{
    Fiber* f = cur;
    if (!f || !f->lib) return;
    st.accesses++;
    if (!allowed(a, n, wr)) badAccess(a, n, wr, pc, nullptr);
    maybePreempt(pc);
}
static u8 guardHit[65536]; static u32 guardTop = 1;
static void stuckNow(i64);
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(u32* a, u32* b) { for (; a < b; a++) if (!*a) *a = guardTop < 65535 ? guardTop++ : 65535; }
static inline void guardCommon(uintptr_t pc)
{
    Fiber* f = cur;
    if (!f || !f->lib) return;
    stepGuards++;
    if (f->budget-- == 0) stuckNow(0);
    maybePreempt(pc);
}
void __sanitizer_cov_trace_pc_guard(u32* g) { guardHit[*g & 65535] = 1; guardCommon((uintptr_t)__builtin_return_address(0)); }
void __sanitizer_cov_trace_pc(void) { guardCommon((uintptr_t)__builtin_return_address(0)); }
#define LS(n) void __sanitizer_cov_load##n(void* p) { access((uintptr_t)p, n, false, (uintptr_t)__builtin_return_address(0)); } \
              void __sanitizer_cov_store##n(void* p) { access((uintptr_t)p, n, true, (uintptr_t)__builtin_return_address(0)); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}

// ------------------------------------------------------------------ the VM library's environment
static u8* ambAlloc(size_t n, vm_t* vm, int type, bool plain)
{
    Block b; b.n = n; b.vm = vm; b.type = type; b.live = true; b.plain = plain;
    b.plen = Arena::pages(n ? n : 1);
    b.page = arena.map(b.plen, 4096 * amb->choose(3));
    size_t room = b.plen - n;
    u32 mode = amb->choose(4); // where in its pages the block lies
    size_t off = mode == 0 ? 0 : (room & ~(size_t)(mode == 1 ? 15 : 3));
    b.p = b.page + off;
    if (b.plen <= 1u << 20 || !poisonZero) {
        if (!poisonZero) { u32* w = (u32*)b.page; size_t k = b.plen / 4; for (size_t i = 0; i < k; i++) w[i] = poisonPat ^ (u32)(poisonPat & 1 ? i * 2654435761u : 0); }
    }
    allBlocks.push_back(b);
    return b.p;
}
struct HostScope { bool old; Fiber* f; HostScope() : f(cur) { old = f ? f->lib : false; if (f) f->lib = false; } ~HostScope() { if (f) f->lib = old; } };
struct Actor {
    int id = 0; Stream* st = nullptr; Trace trace; Fiber fib;
    std::vector<VmRec> recs; int failAt = 0; bool fired = false; bool failDebug = false; int mallocs = 0;
    std::vector<int> createErrs; bool inCreate = false; int inMisuse = 0;
    std::function<void(int)> onErr; std::function<void()> onStuck;
    std::vector<std::pair<std::string, std::vector<u8>>> files; int openFiles = 0;
    std::string mapData; int mapMode = 0; bool mapMallocFail = false;
};
static Actor* curActor() { return cur ? cur->a : nullptr; }
static VmRec* recOf(vm_t* vm) { Actor* a = curActor(); if (!a) return nullptr; for (auto& r : a->recs) if (r.vm == vm) return &r; return nullptr; }

extern "C" void Com_Error(vmErrorCode_t level, const char* error)
{
    HostScope h;
    Actor* a = curActor();
    if (keepNotes && !error) notes.push_back("Com_Error without text");
    if (!a) return;
    if (a->onErr) a->onErr((int)level);
}
extern "C" void* Com_malloc(size_t size, vm_t* vm, vmMallocType_t type)
{
    HostScope h;
    Actor* a = curActor();
    bool dbgType = type == VM_ALLOC_DEBUG;
    if (!vm && !dbgType) setViol("alloc", strf("Com_malloc of type %d without vm", type));
    VmRec* r = cur->fr.empty() ? nullptr : cur->fr.back().r;
    if (vm && r && r->vm != vm) { setViol("alloc", "Com_malloc for a different vm than the one in use"); }
    if ((int)type < 0 || type >= VM_ALLOC_TYPE_MAX) setViol("alloc", strf("Com_malloc with invalid type %d", type));
    if (dbgType) { if (a->failDebug && S.s[20].choose(3) == 2) { st.mapAllocFail++; return nullptr; } }
    else {
        a->mallocs++;
        if (a->failAt && a->mallocs == a->failAt) { a->fired = true; st.allocFails++; return nullptr; }
    }
    if (size > (64u << 20)) { a->fired = true; return nullptr; } // no real host gives a VM this much
    u8* p = ambAlloc(size, vm, type, false);
    if (r) r->blocks.push_back((int)allBlocks.size() - 1);
    return p;
}
static void freeBlock(void* p, vm_t* vm, int type, bool plain, const char* fn)
{
    if (!p) { if (!plain) setViol("alloc", strf("%s(NULL)", fn)); return; }
    for (size_t i = allBlocks.size(); i-- > 0;) {
        Block& b = allBlocks[i];
        if (b.p != p) continue;
        if (!b.live) { setViol("alloc", strf("%s: block of type %d released twice", fn, b.type)); fiberDie(); }
        if (b.plain != plain) { setViol("alloc", strf("%s: block was not allocated by the matching function", fn)); fiberDie(); }
        if (!plain && b.type != type) setViol("alloc", strf("%s: type %d released as %d", fn, b.type, type));
        if (!plain && b.vm != vm) setViol("alloc", strf("%s: block of type %d released with another vm", fn, b.type));
        b.live = false;
        memset(b.page, 0xDD, std::min<size_t>(b.plen, 4096));
        arena.protect(b.page, b.plen, PROT_NONE);
        return;
    }
    setViol("alloc", strf("%s: pointer that was never allocated", fn)); fiberDie();
}
extern "C" void Com_free(void* p, vm_t* vm, vmMallocType_t type) { HostScope h; freeBlock(p, vm, type, false, "Com_free"); }

// libc calls of the library (linked with --wrap)
static inline bool inLib() { return cur && cur->lib; }
static void span(const void* p, size_t n, bool wr, uintptr_t pc, const char* fn) { if (inLib() && n && !allowed((uintptr_t)p, n, wr)) badAccess((uintptr_t)p, n, wr, pc, fn); if (inLib() && n > (1ull << 40)) badAccess((uintptr_t)p, n, wr, pc, fn); }
static size_t strSpan(const char* s, size_t max, uintptr_t pc, const char* fn)
{
    size_t i = 0;
    for (; i < max; i++) { if (inLib() && !allowed((uintptr_t)s + i, 1, false)) badAccess((uintptr_t)s + i, 1, false, pc, fn); if (!s[i]) break; }
    return i;
}
static void emitOut(int stream, const char* s, size_t n);
#define RA ((uintptr_t)__builtin_return_address(0))
extern "C" {
void* __wrap_memcpy(void* d, const void* s, size_t n) { span(s, n, false, RA, "memcpy"); span(d, n, true, RA, "memcpy"); maybePreempt(RA); return memmove(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { span(s, n, false, RA, "memmove"); span(d, n, true, RA, "memmove"); return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { span(d, n, true, RA, "memset"); return memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { span(a, n, false, RA, "memcmp"); span(b, n, false, RA, "memcmp"); return memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { return strSpan(s, SIZE_MAX, RA, "strlen"); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { strSpan(s, n, RA, "strncpy"); span(d, n, true, RA, "strncpy"); return strncpy(d, s, n); }
char* __wrap_strcpy(char* d, const char* s) { size_t n = strSpan(s, SIZE_MAX, RA, "strcpy"); span(d, n + 1, true, RA, "strcpy"); return strcpy(d, s); }
static int simPrint(int fd, const char* f, va_list ap, uintptr_t pc)
{
    // the formats used here are "%s" with a guest pointer and diagnostics with scalars
    if (inLib()) {
        va_list c; va_copy(c, ap);
        for (const char* p = f; *p; p++) {
            if (*p != '%') continue;
            p++; while (*p && strchr("-+ #0123456789.lhzjt", *p)) p++;
            if (*p == '%' || !*p) continue;
            if (strchr("eEfFgGaA", *p)) { (void)va_arg(c, double); continue; }
            if (*p == 's') { const char* q = va_arg(c, const char*); if (q) strSpan(q, SIZE_MAX, pc, "printf"); continue; }
            (void)va_arg(c, void*);
        }
        va_end(c);
    }
    HostScope h;
    std::string out; char small[512]; va_list c; va_copy(c, ap);
    int n = vsnprintf(small, sizeof small, f, c); va_end(c);
    if (n < (int)sizeof small) { emitOut(fd, small, n > 0 ? n : 0); return n; }
    out.resize(n + 1); vsnprintf(&out[0], n + 1, f, ap); emitOut(fd, out.data(), n);
    return n;
}
int __wrap_printf(const char* f, ...) { va_list a; va_start(a, f); int r = simPrint(1, f, a, RA); va_end(a); return r; }
int __wrap_fprintf(FILE*, const char* f, ...) { va_list a; va_start(a, f); int r = simPrint(2, f, a, RA); va_end(a); return r; }
int __wrap_vprintf(const char* f, va_list a) { return simPrint(1, f, a, RA); }
int __wrap_vfprintf(FILE*, const char* f, va_list a) { return simPrint(2, f, a, RA); }
int __wrap_puts(const char* s) { strSpan(s, SIZE_MAX, RA, "puts"); return 0; }
int __wrap_putchar(int c) { return c; }
int __wrap_fputs(const char* s, FILE*) { strSpan(s, SIZE_MAX, RA, "fputs"); return 0; }
void __wrap_exit(int c) { setViol("exit", strf("library called exit(%d)", c)); fiberDie(); }
void __wrap_abort(void) { setViol("exit", "library called abort"); fiberDie(); }
void* __wrap_malloc(size_t n)
{
    HostScope h; Actor* a = curActor();
    if (!a) return malloc(n);
    if (a->mapMallocFail) { st.mapAllocFail++; return nullptr; }
    u8* p = ambAlloc(n, nullptr, -1, true);
    if (!cur->fr.empty() && cur->fr.back().r) cur->fr.back().r->blocks.push_back((int)allBlocks.size() - 1);
    return p;
}
void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { HostScope h; if (!curActor()) { free(p); return; } freeBlock(p, nullptr, -1, true, "free"); }
// symbol map file of the debug build
struct MapCookie { Actor* a; size_t pos; int reads; };
FILE* __wrap_fopen(const char* name, const char*)
{
    (void)name;
    HostScope h; Actor* a = curActor();
    if (!a || a->mapMode == 0) { st.mapAbsent++; return nullptr; }
    if (a->mapMode >= 2) st.mapCorrupt++; else st.mapOk++;
    MapCookie* c = new MapCookie{ a, 0, 0 };
    cookie_io_functions_t io = {
        [](void* u, char* b, size_t n) -> ssize_t {
            MapCookie* c = (MapCookie*)u; Actor* a = c->a; size_t left = a->mapData.size() > c->pos ? a->mapData.size() - c->pos : 0;
            if (a->mapMode == 4) { st.mapReadErr++; errno = EIO; return -1; }
            if (a->mapMode == 5 && c->reads++ == 0) { st.mapReadErr++; n = std::min(n, left / 2); if (n == 0) return 0; }
            else if (a->mapMode == 5) return 0; // shrank while being read
            n = std::min(n, left); memcpy(b, a->mapData.data() + c->pos, n); c->pos += n; return (ssize_t)n; },
        nullptr,
        [](void* u, off64_t* o, int w) -> int {
            MapCookie* c = (MapCookie*)u; i64 p = w == SEEK_SET ? *o : w == SEEK_CUR ? (i64)c->pos + *o : (i64)c->a->mapData.size() + *o;
            if (p < 0) { errno = EINVAL; return -1; } c->pos = (size_t)p; *o = p; return 0; },
        [](void* u) -> int { MapCookie* c = (MapCookie*)u; c->a->openFiles--; delete c; return 0; } };
    FILE* f = fopencookie(c, "r", io);
    setvbuf(f, nullptr, _IONBF, 0);
    a->openFiles++;
    return f;
}
FILE* sim_stderr(void) { return stderr; }
}

// ------------------------------------------------------------------ signals
static char altStk[65536];
static bool inWorld;
static void onSignal(int sig, siginfo_t* si, void* uc)
{
    ucontext_t* u = (ucontext_t*)uc; uintptr_t pc = (uintptr_t)u->uc_mcontext.gregs[REG_RIP], a = (uintptr_t)si->si_addr;
    if (inWorld && cur && (cur->lib || arena.contains(a))) {
        std::string w = sig == SIGSEGV || sig == SIGBUS ? whereIs(a) : "";
        setViol("signal", strf("%s %s in %s", strsignal(sig), w.c_str(), cur->lib ? (pcName(pc) == "?" ? "a libc call of the library" : pcName(pc).c_str()) : "host code using a pointer the library returned"));
        cur->done = true;
        void* dead; sim_switch(&dead, schedSp);
    }
    fprintf(stderr, "vmsim: internal signal %d at %p pc %p\n", sig, (void*)a, (void*)pc);
    _exit(3);
}

// ------------------------------------------------------------------ the host program of an actor
// The same logic runs on the real library (Real) and on the reference model (Model).
struct Mismatch { std::string kind, detail; };
struct StopCompare {};
struct World;
enum SlotState { SL_NONE, SL_LOADED, SL_EMPTY }; // EMPTY: freed, or creation failed
struct Slot { SlotState state = SL_NONE; int image = -1; size_t memSize = 0; int running = 0; };
struct Logic {
    World* w; Stream& s; std::vector<Slot> slots; std::vector<Image> images; int depth = 0; int sysInOp = 0; bool errInOp = false;
    const Cfg& c; int aid;
    Logic(World* w_, Stream& s_, const Cfg& c_, int aid_) : w(w_), s(s_), c(c_), aid(aid_) {}
    void run(); void op(); void doCreate(int slot); void doCall(int slot); void doFree(int slot); void helper(int slot, bool inSys); void misuse(int slot);
    i32 syscall(int slot, const i64* a); void memEvent(int slot); void makeImages();
    void prologueMap();
};
struct CreateOpts { int failAt = 0; int bufMode = 0; int name = 0; bool nullBytes = false; };
struct World {
    Logic* lg = nullptr; int depthNow = 0;
    virtual void emit(Event e) = 0;
    virtual int create(int slot, Image& im, const CreateOpts& o, size_t& memSize) = 0;
    virtual i64 call(int slot, const i32* args) = 0;
    virtual bool free_(int slot) = 0; // true: released
    virtual u8* ptr(int slot, i64 addr) = 0;
    virtual int range(int slot, i64 addr, u64 len) = 0;
    virtual void misuse(int slot, int what) = 0;
    virtual i64 tool(int slot, const i64* a) = 0; // the q3vm tool's system call handler
    virtual int lastError(int slot) = 0;
    virtual u8* mem(int slot) = 0;
    virtual void dirty(int slot, u32 v) = 0;
    virtual ~World() {}
};
static void pushEv(World* w, Event e, int depth) { e.depth = (u8)depth; w->emit(e); }
#define EMIT(k, slot, ...) pushEv(w, Event(k, slot, { __VA_ARGS__ }), depth)

void Logic::makeImages()
{
    for (int i = 0; i < c.nimages; i++) {
        images.push_back(genImage(s, c.gen, i ? &images[0] : nullptr));
        if (dumpImages) printf("actor %d image %d%s\n%s", aid, i, images.back().note.c_str(), disasm(images.back().bytes.data(), (i64)images.back().bytes.size()).c_str());
    }
}
void Logic::memEvent(int slot)
{
    Slot& sl = slots[slot];
    if (sl.state != SL_LOADED) return;
    size_t n = sl.memSize;
    if (c.cleanCompare) n = n > 0x10000 ? n - 0x10000 : 0;
    EMIT(EV_MEM, slot, (i64)hash_bytes(w->mem(slot), n));
}
void Logic::doCreate(int slot)
{
    Slot& sl = slots[slot];
    if (sl.state == SL_LOADED) return;
    CreateOpts o;
    int im = (int)s.choose((u32)images.size());
    if (c.failAllocPct && (int)s.choose(100) >= 100 - c.failAllocPct) o.failAt = 1 + (int)s.choose(4);
    o.bufMode = c.bufMode >= 0 ? c.bufMode : (int)s.choose(4);
    o.name = (int)s.choose(5);
    size_t ms = 0;
    int r = w->create(slot, images[im], o, ms);
    sl.image = im; sl.memSize = ms;
    sl.state = r == 0 ? SL_LOADED : SL_EMPTY;
    EMIT(EV_CREATE, slot, r, im);
    if (r == 0) { memEvent(slot); EMIT(EV_LASTERR, slot, w->lastError(slot)); }
}
void Logic::doCall(int slot)
{
    Slot& sl = slots[slot];
    if (sl.state == SL_NONE) return;
    i32 a[13];
    a[0] = (i32)s.choose(4);
    if (s.choose(6) == 5) a[0] = genInt(s);
    for (int i = 1; i < 13; i++) a[i] = i < 4 || c.prop == "S07" ? genInt(s) : (i32)(0x1000 * i + i);
    Event e(EV_CALL, slot, {}); for (int i = 0; i < 13; i++) e.v[e.n++] = a[i]; pushEv(w, e, depth);
    depth++; sl.running++;
    if (depth > 1) st.nested++;
    i64 r = w->call(slot, a);
    sl.running--; depth--;
    EMIT(EV_RET, slot, r);
    if (depth == 0) { memEvent(slot); if (errInOp && !slots[slot].running) EMIT(EV_LASTERR, slot, w->lastError(slot)); }
}
void Logic::doFree(int slot)
{
    Slot& sl = slots[slot];
    if (sl.state == SL_NONE) return;
    bool ok = w->free_(slot);
    EMIT(EV_FREE, slot, ok ? 1 : 0);
    if (ok) sl.state = SL_EMPTY;
}
static i64 genAddr(Stream& s, size_t mem)
{
    switch (s.choose(8)) {
    case 0: return 0;
    case 1: return (i64)s.choose(64);
    case 2: return (i64)mem - (i64)s.choose(16);
    case 3: return (i64)mem + (i64)s.choose(70000);
    case 4: return -(i64)s.choose(70000);
    case 5: return (i32)s.raw();
    case 6: return genInt(s);
    default: return (i64)s.choose((u32)(mem ? mem : 1));
    }
}
static i64 genLen(Stream& s, size_t mem, i64 addr)
{
    switch (s.choose(8)) {
    case 0: return (i64)s.choose(64);
    case 1: return (i64)mem - addr - (i64)s.choose(4) + 1;
    case 2: return (i64)mem;
    case 3: return -(i64)s.choose(70000) - 1;
    case 4: return -addr + (i64)s.choose(16);
    case 5: return genInt(s);
    case 6: return (i64)0x100000000ll - addr + (i64)s.choose(100);
    default: return (i64)s.choose((u32)(mem ? mem : 1));
    }
}
void Logic::helper(int slot, bool inSys)
{
    Slot& sl = slots[slot];
    if (sl.state != SL_LOADED) return;
    (void)inSys;
    st.helper++;
    i64 a = genAddr(s, sl.memSize), l = genLen(s, sl.memSize, a);
    if (s.choose(3) == 0) {
        u8* p = w->ptr(slot, a);
        EMIT(EV_PTR, slot, a, p ? (i64)(p - w->mem(slot)) : -1);
    } else {
        int r = w->range(slot, a, (u64)l);
        EMIT(EV_RANGE, slot, a, l, r);
        if (r == 0) { // the range was granted: use all of it
            u8* p = w->ptr(slot, a);
            if (s.choose(2)) { EMIT(EV_READ, slot, a, l, p ? (i64)hash_bytes(p, (size_t)l) : 0); }
            else if (p && (u64)l <= 4096) { u8 v = (u8)s.choose(256); memset(p, v, (size_t)l); EMIT(EV_WRITE, slot, a, l); }
        }
    }
}
void Logic::misuse(int slot) { int what = (int)s.choose(7); st.misuse++; w->misuse(slot, what); }
i32 Logic::syscall(int slot, const i64* a)
{
    Slot& sl = slots[slot];
    st.syscalls++;
    Event e(EV_SYS, slot, {});
    int n = 16;
    if (c.cleanCompare) { n = 1 + (int)(a[0] & 15); if (a[0] < 0 || n > 13) n = 1; }
    for (int i = 0; i < n; i++) e.v[e.n++] = a[i];
    pushEv(w, e, depth);
    i32 ret;
    if (++sysInOp > 40) { ret = (i32)(a[0] * 3 + 1); EMIT(EV_SYSRET, slot, ret); return ret; }
    int tot = c.sReturn + c.sWrite + c.sRead + c.sNest + c.sOther + c.sFreeSelf + c.sHelper + c.sTool;
    int k = (int)s.choose((u32)tot);
    ret = 0;
    if ((k -= c.sReturn) < 0) {
        switch (s.choose(3)) { case 0: ret = (i32)s.choose(3); break; case 1: ret = genInt(s); break; default: ret = c.cleanCompare && n < 2 ? 5 : (i32)a[1]; }
    } else if ((k -= c.sWrite) < 0) {
        i64 ad = c.cleanCompare ? 8 : s.choose(2) ? a[1] : (i64)s.choose((u32)(sl.memSize ? sl.memSize : 1)); u64 l = 1 + s.choose(32);
        if (w->range(slot, ad, l) == 0) { u8* p = w->ptr(slot, ad); for (u64 i = 0; i < l; i++) p[i] = (u8)s.choose(256); ret = (i32)l; }
        EMIT(EV_WRITE, slot, ad, ret);
    } else if ((k -= c.sRead) < 0) {
        i64 ad = c.cleanCompare ? 8 : a[1]; u64 l = 1 + s.choose(64);
        if (w->range(slot, ad, l) == 0) ret = (i32)hash_bytes(w->ptr(slot, ad), (size_t)l);
        EMIT(EV_READ, slot, ad, ret);
    } else if ((k -= c.sNest) < 0) {
        if (depth < c.maxDepth) { doCall(slot); ret = (i32)s.choose(5); }
    } else if ((k -= c.sOther) < 0) {
        int o = (int)s.choose((u32)slots.size());
        if (o != slot && depth < c.maxDepth) {
            if (slots[o].state != SL_LOADED) doCreate(o); else if (s.choose(3) && !slots[o].running) doCall(o); else if (!slots[o].running) doFree(o);
        }
    } else if ((k -= c.sFreeSelf) < 0) { st.freeRefused++; doFree(slot); }
    else if ((k -= c.sHelper) < 0) helper(slot, true);
    else {
        // hand the call to the q3vm tool's own handler: memset, memcpy, print, error with chosen arguments
        i64 b[16]; for (int i = 0; i < 16; i++) b[i] = a[i];
        b[0] = (i64)s.choose(5);
        for (int i = 1; i < 4; i++) { u32 how = s.choose(4); if (how == 1) b[i] = (i32)genAddr(s, sl.memSize); else if (how == 2) b[i] = (i32)genLen(s, sl.memSize, b[1]); else if (how == 3) b[i] = (i64)(s.choose((u32)sl.memSize)); }
        if (sl.memSize > 64 && s.choose(4) == 0) { // an unterminated string up to the end of guest memory
            u64 l = 1 + s.choose(60); u8* m = w->mem(slot); for (u64 i = 0; i < l; i++) m[sl.memSize - 1 - i] = 'x'; b[1] = (i64)(sl.memSize - l + s.choose((u32)l)); EMIT(EV_WRITE, slot, b[1], (i64)l); }
        st.toolSys++;
        ret = (i32)w->tool(slot, b);
    }
    EMIT(EV_SYSRET, slot, ret);
    return ret;
}
void Logic::op()
{
    sysInOp = 0; errInOp = false;
    int slot = (int)s.choose((u32)slots.size());
    int tot = c.wCreate + c.wCall + c.wFree + c.wHelper + c.wMisuse + c.wDirty;
    int k = (int)s.choose((u32)tot);
    if (slots[slot].state != SL_LOADED && k < c.wCall && s.choose(4)) { doCreate(slot); return; }
    if ((k -= c.wCall) < 0) doCall(slot);
    else if ((k -= c.wCreate) < 0) doCreate(slot);
    else if ((k -= c.wFree) < 0) doFree(slot);
    else if ((k -= c.wHelper) < 0) helper(slot, false);
    else if ((k -= c.wMisuse) < 0) misuse(slot);
    else w->dirty(slot, s.choose(8));
}
void Logic::run()
{
    slots.resize(c.nslots);
    makeImages();
    doCreate(0);
    int n = 1 + (int)s.choose((u32)c.nops);
    if (c.manyFails) n = c.nops;
    for (int i = 0; i < n; i++) op();
    sysInOp = 0; errInOp = false;
    for (int i = 0; i < (int)slots.size(); i++) {
        if (slots[i].state == SL_LOADED) { errInOp = false; doCall(i); }
        doFree(i);
        if (s.choose(4) == 0) doFree(i);
    }
    EMIT(EV_END, 0, 0);
}

// ------------------------------------------------------------------ real world
static u64 budgetScale = 1;
static const u64 BUDGET = 400000; // basic blocks per outermost operation
static const u64 MODEL_LIMIT = 20000;  // instructions the model may execute and still expect the real VM to finish
struct Real;
static intptr_t realSyscall(vm_t* vm, intptr_t* args);
struct Real : World {
    Actor* a; int dumpIdx = -1; std::vector<u8> dump;
    explicit Real(Actor* a_) : a(a_) {}
    void emit(Event e) override
    {
        if (e.kind == EV_MEM && (int)a->trace.size() == dumpIdx) dump.assign(mem(e.slot), mem(e.slot) + lg->slots[e.slot].memSize);
        a->trace.push_back(e); st.events++;
        if (a->trace.size() >= 20000) stuckNow(1);
    }
    VmRec& rec(int slot) { return a->recs[slot]; }
    void enter(VmRec* r, bool creating, uintptr_t entry) { cur->fr.push_back({ r, entry, creating }); cur->lib = true; }
    void leave() { cur->lib = false; cur->fr.pop_back(); }
    static void __attribute__((noinline)) scrub()
    {
        volatile u32 buf[6144]; u32 p = poisonPat; bool z = poisonZero;
        for (int i = 0; i < 6144; i++) buf[i] = z ? 0 : p ^ (u32)(i * 40503u * (p & 1));
    }
    void resetBudget() { if (lg->depth == 0 || cur->fr.empty()) cur->budget = BUDGET * budgetScale; }
    u8* mem(int slot) override
    {
        VmRec& r = rec(slot);
        for (int bi : r.blocks) if (allBlocks[bi].live && allBlocks[bi].type == VM_ALLOC_DATA_SEC) return allBlocks[bi].p;
        setViol("helper", "loaded vm has no data memory"); fiberDie();
    }
    int lastError(int slot) override { return (int)rec(slot).vm->lastError; }
    size_t liveBlocks(VmRec& r) { size_t n = 0; for (int bi : r.blocks) n += allBlocks[bi].live; return n; }
    int create(int slot, Image& im, const CreateOpts& o, size_t& memSize) override
    {
        VmRec& r = rec(slot); st.creates++;
        if (im.bad().size()) st.rejected++;
        if (!r.vm) { size_t sz = sizeof(vm_t); u8* p = arena.map(sz); r.vm = (vm_t*)(p + ((Arena::pages(sz) - sz) & ~15ull)); }
        memset((void*)r.vm, poisonZero ? 0 : (int)(poisonPat & 255), sizeof(vm_t));
        r.blocks.clear();
        // the caller's image buffer: ends at an inaccessible page
        i64 len = im.length; size_t have = im.bytes.size();
        size_t n = len < 0 || (size_t)len > have ? have : (size_t)len;
        u8* pg = arena.map(n ? n : 1); size_t pl = Arena::pages(n ? n : 1);
        if (!poisonZero) memset(pg, (int)(poisonPat >> 8 & 255), pl);
        u8* img = pg + (pl - n); if (o.bufMode == 3) img = pg;
        memcpy(img, im.bytes.data(), n);
        r.img = img; r.imgLen = n; r.imgValid = true;
        bool ro = o.bufMode == 1;
        if (ro) { arena.protect(pg, pl, PROT_READ); st.imgReadonly++; }
        a->mallocs = 0; a->failAt = o.failAt; a->fired = false; a->createErrs.clear(); a->inCreate = true; a->openFiles = 0;
        static const char* const nm[] = { "test.qvm", "a", "", "x23456789012345678901234567890123456789012345678901234567890123456789012345678901234567890.qvm", nullptr };
        const char* name = nm[o.name] ? strcpy(simNames + 256 * (o.name + 1), nm[o.name]) : nullptr;
        if (F->dbg && !name) name = strcpy(simNames, "n");
        u64 oldBudget = cur->budget; cur->budget = 100000000; // loading ends in any case
        scrub();
        volatile char mark; enter(&r, true, (uintptr_t)&mark);
        int res = F->create(r.vm, name, img, (int)len, realSyscall);
        leave();
        cur->budget = oldBudget;
        a->inCreate = false; a->failAt = 0;
        // the buffer
        if (memcmp(img, im.bytes.data(), n)) setViol("image", "the caller's image buffer was modified");
        r.imgValid = false;
        if (o.bufMode != 3) { arena.protect(pg, pl, PROT_NONE); st.imgDestroyed++; }
        else { arena.protect(pg, pl, PROT_READ | PROT_WRITE); memset(pg, 0x5A, pl); }
        auto& bad = im.bad();
        bool expectOk = bad.empty() && !a->fired;
        if (bad.empty() && a->fired && res == 0) setViol("create", "creation succeeded although an allocation failed");
        else if (expectOk && res != 0) setViol("create", strf("well-formed image rejected (%d), lastError %d; %s", res, (int)r.vm->lastError, im.note.c_str()));
        else if (!bad.empty() && res == 0) setViol("create", strf("image with defect %d accepted; %s", *bad.begin(), im.note.c_str()));
        else if (res != 0 && res != -1) setViol("create", strf("VM_Create returned %d", res));
        if (res != 0) {
            int le = (int)r.vm->lastError; bool ok = bad.count(le) || (a->fired && (le == E_MALLOC || le == E_LOAD));
            if (a->createErrs.empty()) setViol("report", strf("creation failed without calling the error callback; %s", im.note.c_str()));
            else if (!ok) setViol("report", strf("creation failed with lastError %d; %s", le, im.note.c_str()));
            else if (std::find(a->createErrs.begin(), a->createErrs.end(), le) == a->createErrs.end()) setViol("report", strf("lastError %d was not passed to the error callback", le));
            if (a->fired && bad.empty() && std::find(a->createErrs.begin(), a->createErrs.end(), E_MALLOC) == a->createErrs.end()) setViol("report", "failed allocation not reported as such");
            if (liveBlocks(r)) setViol("alloc", strf("failed creation left %zu blocks allocated", liveBlocks(r)));
        } else {
            if (!a->createErrs.empty()) { bool dbgOnly = a->failDebug; if (!dbgOnly) setViol("report", strf("successful creation called the error callback with %d", a->createErrs[0])); }
            Header h = parseHeader(im.bytes.data()); u32 need = (u32)h.dataLen + h.litLen + h.bssLen, sz = 1; while (sz < need) sz *= 2; memSize = sz;
            bool have2 = false; for (int bi : r.blocks) if (allBlocks[bi].live && allBlocks[bi].type == VM_ALLOC_DATA_SEC && allBlocks[bi].n >= sz) have2 = true;
            if (!have2) setViol("alloc", strf("data memory is smaller than the image requires (%u)", sz));
        }
        if (a->openFiles) setViol("alloc", "VM_Create left a file open");
        for (int bi : r.blocks) if (allBlocks[bi].live && allBlocks[bi].plain) setViol("alloc", "VM_Create left a temporary buffer allocated");
        if (viol.set()) fiberDie();
        return res;
    }
    i64 call(int slot, const i32* v) override
    {
        VmRec& r = rec(slot); st.calls++;
        if (F->dbg && cfg.mapFaults && !r.vm->callLevel && S.s[20].choose(4) == 3) profile(r);
        int level = r.vm->callLevel;
        resetBudget();
        scrub();
        volatile char mark; enter(&r, false, (uintptr_t)&mark);
        i64 res = F->call(r.vm, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]);
        leave();
        if (r.vm->callLevel != level) { setViol("level", strf("nesting level %d before, %d after the call", level, r.vm->callLevel)); fiberDie(); }
        return res;
    }
    bool inProfile = false;
    void profile(VmRec& r) { st.prof++; inProfile = true; volatile char mark; enter(&r, false, (uintptr_t)&mark); F->profile(r.vm); leave(); inProfile = false; }
    bool free_(int slot) override
    {
        VmRec& r = rec(slot); st.frees++;
        bool running = lg->slots[slot].running > 0;
        size_t before = liveBlocks(r);
        if (F->dbg && !running && lg->slots[slot].state == SL_LOADED) profile(r);
        resetBudget(); scrub();
        volatile char mark; enter(&r, false, (uintptr_t)&mark);
        F->free_(r.vm);
        leave();
        if (running) { if (liveBlocks(r) != before) { setViol("alloc", "VM_Free of a running vm released memory"); fiberDie(); } return false; }
        if (liveBlocks(r)) { setViol("alloc", strf("%zu blocks still allocated after VM_Free", liveBlocks(r))); fiberDie(); }
        return true;
    }
    u8* ptr(int slot, i64 addr) override
    {
        VmRec& r = rec(slot);
        volatile char mark; enter(&r, false, (uintptr_t)&mark);
        u8* p = (u8*)F->argptr(addr, r.vm);
        leave();
        if (p) { u8* m = mem(slot); if (p < m || p >= m + lg->slots[slot].memSize) { setViol("helper", strf("VM_ArgPtr(%lld) is outside of the guest's memory", (long long)addr)); fiberDie(); } }
        return p;
    }
    int range(int slot, i64 addr, u64 len) override
    {
        VmRec& r = rec(slot);
        volatile char mark; enter(&r, false, (uintptr_t)&mark);
        int v = F->range(addr, len, r.vm);
        leave();
        if (v == 0) { u64 ms = lg->slots[slot].memSize; u64 ad = (u32)addr; if (!ad || ad >= ms || len > ms || ad + len > ms) { setViol("helper", strf("VM_MemoryRangeValid(%lld, %llu) accepted, memory is %llu bytes", (long long)addr, (unsigned long long)len, (unsigned long long)ms)); fiberDie(); } }
        return v;
    }
    void misuse(int slot, int what) override
    {
        VmRec& r = rec(slot); std::vector<int> errs; auto old = a->onErr; a->onErr = [&](int l) { errs.push_back(l); };
        VmRec none; i64 res = 0; int expect = 0; bool check = true; static u8 zeroImg[64];
        volatile char mark;
        resetBudget(); scrub();
        switch (what) {
        case 0: enter(&none, true, (uintptr_t)&mark); res = F->create(nullptr, simNames, zeroImg, 64, realSyscall); leave(); expect = E_PTR; break;
        case 1: enter(&none, false, (uintptr_t)&mark); res = F->call(nullptr, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); leave(); expect = E_PTR; break;
        case 2: enter(&none, false, (uintptr_t)&mark); F->free_(nullptr); leave(); check = false; if (!errs.empty()) setViol("report", "VM_Free(NULL) reported an error"); break;
        case 3: enter(&none, false, (uintptr_t)&mark); res = F->argptr(16, nullptr) ? 0 : -1; leave(); expect = E_PTR; break;
        case 4: enter(&none, false, (uintptr_t)&mark); res = F->range(16, 4, nullptr); leave(); check = false; if (res != -1) setViol("helper", "VM_MemoryRangeValid accepts a null vm"); break;
        case 5: case 6: // no system call handler / no bytecode
            if (lg->slots[slot].state != SL_LOADED) {
                if (!r.vm) { size_t sz = sizeof(vm_t); u8* p = arena.map(sz); r.vm = (vm_t*)(p + ((Arena::pages(sz) - sz) & ~15ull)); }
                memset((void*)r.vm, poisonZero ? 0 : (int)(poisonPat & 255), sizeof(vm_t)); r.blocks.clear();
                Image& im = lg->images[0];
                bool useImg = what == 5 && im.length > 0;
                u8* img = nullptr; if (useImg) { img = arena.map(im.bytes.size()); memcpy(img, im.bytes.data(), im.bytes.size()); r.img = img; r.imgLen = im.bytes.size(); r.imgValid = true; }
                enter(&r, true, (uintptr_t)&mark);
                res = F->create(r.vm, strcpy(simNames, "m"), img, useImg ? (int)im.length : 100, what == 5 ? nullptr : realSyscall);
                leave(); r.imgValid = false;
                expect = what == 5 ? E_NOSYS : E_LOAD;
                if ((int)r.vm->lastError != expect) setViol("report", strf("lastError is %d, not %d", (int)r.vm->lastError, expect));
                if (liveBlocks(r)) setViol("alloc", "failed creation left memory allocated");
                lg->slots[slot].state = SL_EMPTY;
            } else check = false;
            break;
        }
        if (check) {
            if (res != -1) setViol("report", strf("misuse %d returned %lld", what, (long long)res));
            if (std::find(errs.begin(), errs.end(), expect) == errs.end()) setViol("report", strf("misuse %d did not report error %d", what, expect));
        }
        a->onErr = old;
        if (viol.set()) fiberDie();
        emit(Event(EV_MISUSE, slot, { what, res, check }));
    }
    i64 tool(int slot, const i64* v) override
    {
        VmRec& r = rec(slot); intptr_t b[16]; for (int i = 0; i < 16; i++) b[i] = (intptr_t)v[i];
        if (!F->syscalls) return 0;
        // the argument words are host memory the handler may read
        LibFrame save = cur->fr.back(); (void)save;
        resetBudget();
        toolOut.clear(); toolCapture = true;
        struct { intptr_t b[16]; volatile char mark; } x; memcpy(x.b, b, sizeof b);
        enter(&r, false, (uintptr_t)(&x + 1));
        i64 res = F->syscalls(r.vm, x.b);
        leave(); toolCapture = false;
        emit(Event(EV_OUT, slot, { (i64)hash_bytes(toolOut.data(), toolOut.size()), (i64)toolOut.size() }));
        return res;
    }
    std::string toolOut; bool toolCapture = false;
    void dirty(int slot, u32) override { (void)slot; }
    void onErr(int level)
    {
        st.errCodes++;
        if (inProfile && level == -13 && a->failDebug) return; // the profile list could not be allocated
        if (a->inCreate) { a->createErrs.push_back(level); return; }
        lg->errInOp = lg->errInOp || level != E_RANGE; st.guestErrors++;
        int slot = 255; if (!cur->fr.empty() && cur->fr.back().r) for (size_t i = 0; i < a->recs.size(); i++) if (&a->recs[i] == cur->fr.back().r) slot = (int)i;
        Event e(EV_ERR, slot, { level }); e.depth = (u8)lg->depth; emit(e);
    }
};
static Real* realOf(Actor* a);
static std::vector<Real*> reals;
static Real* realOf(Actor* a) { for (auto r : reals) if (r->a == a) return r; return nullptr; }
static void emitOut(int, const char* s, size_t n) { Actor* a = curActor(); if (!a) return; Real* r = realOf(a); if (r && r->toolCapture) r->toolOut.append(s, n); }
static intptr_t realSyscall(vm_t* vm, intptr_t* args)
{
    HostScope h; Actor* a = curActor(); Real* w = realOf(a);
    int slot = -1; for (size_t i = 0; i < a->recs.size(); i++) if (a->recs[i].vm == vm) slot = (int)i;
    if (slot < 0 || cur->fr.empty() || cur->fr.back().r != &a->recs[slot]) { setViol("syscall", "system call with a wrong vm pointer"); fiberDie(); }
    i64 v[16];
    for (int i = 0; i < 16; i++) {
        if (!allowed((uintptr_t)&args[i], sizeof(intptr_t), false)) { setViol("syscall", strf("argument word %d is not readable memory of the call", i)); fiberDie(); }
        v[i] = args[i];
    }
    i32 r = w->lg->syscall(slot, v);
    // whatever ran meanwhile (nested calls, other VMs), these are still the arguments of this system call
    for (int i = 0; i < 16; i++) if (!allowed((uintptr_t)&args[i], sizeof(intptr_t), false) || args[i] != v[i]) {
        setViol("syscall", strf("argument word %d changed from %lld while the system call was running", i, (long long)v[i])); fiberDie(); }
    // the upper half of the result must not matter
    return (intptr_t)(i64)r;
}
static void stuckNow(i64 why)
{
    Actor* a = curActor(); st.stuck++;
    a->trace.push_back(Event(EV_STUCK, 0, { why })); // 1: trace as long as anybody wants to look at
    a->fib.done = true; cur->lib = false;
    fiberYield(); abort();
}

// ------------------------------------------------------------------ model world
struct Model : World, ModelVM::Env {
    const Trace& ref; size_t pos = 0; std::vector<ModelVM> vms; std::vector<int> lastErr; u64 opStart = 0; const Cfg& c; u64 total = 0;
    std::vector<int> slotStack; bool unmodelled = false;
    Model(const Trace& t, const Cfg& c_) : ref(t), c(c_) { vms.resize(8); lastErr.assign(8, 0); }
    size_t dbgBadAt = SIZE_MAX;
    u64 steps() { u64 n = 0; for (auto& v : vms) n += v.steps; return n; }
    bool tainted() { for (auto& v : vms) if (v.taint) return true; return false; }
    void emit(Event e) override
    {
        if (dbgBadAt == SIZE_MAX) for (auto& v : vms) if (v.dbgBad) dbgBadAt = pos;
        if (tainted()) { unmodelled = true; throw StopCompare(); }
        if (pos >= ref.size()) throw Mismatch{ "model", "the real run ended early: expected " + e.str() };
        const Event& r = ref[pos];
        if (r.kind == EV_STUCK) {
            if (r.v[0] == 0 && steps() - opStart <= MODEL_LIMIT) throw Mismatch{ "hang", strf("the library does not come to an end; expected after %llu instructions: ", (unsigned long long)(steps() - opStart)) + e.str() };
            throw StopCompare();
        }
        if (!r.same(e)) {
            const char* kind = "model";
            throw Mismatch{ kind, strf("event %zu: expected %s, got %s", pos, e.str().c_str(), r.str().c_str()) };
        }
        pos++;
        if (e.depth == 0 && (e.kind == EV_RET || e.kind == EV_CALL)) opStart = steps();
    }
    const Event& peek() { if (pos >= ref.size()) throw Mismatch{ "model", "the real run ended early" }; return ref[pos]; }
    bool stepLimit(ModelVM&) override { if (tainted()) { unmodelled = true; throw StopCompare(); } return steps() - opStart > 3000000; }
    int create(int slot, Image& im, const CreateOpts&, size_t& memSize) override
    {
        if (lg->depth == 0) opStart = steps();
        const Event& e = peek();
        if (e.kind != EV_CREATE) { if (e.kind == EV_STUCK) throw Mismatch{ "hang", "VM_Create does not come to an end" }; throw Mismatch{ "model", "expected create, got " + e.str() }; }
        int r = (int)e.v[0];
        u64 old = vms[slot].steps;
        if (r == 0) { vms[slot].load(im.bytes.data()); memSize = vms[slot].mask + 1; lastErr[slot] = 0; }
        else vms[slot].loaded = false;
        vms[slot].steps = old;
        return r;
    }
    i64 call(int slot, const i32* a) override
    {
        ModelVM& m = vms[slot];
        if (!m.loaded) { err(slot, E_NOTLOADED); return -1; }
        slotStack.push_back(slot);
        i64 r = m.call(a, *this);
        slotStack.pop_back();
        return r;
    }
    void err(int slot, int code)
    {
        if (code != E_RANGE) { lastErr[slot] = code; lg->errInOp = true; }
        Event e(EV_ERR, slot, { code }); e.depth = (u8)lg->depth; emit(e);
    }
    i32 syscall(ModelVM& m, const i64* a) override { (void)m; return lg->syscall(slotStack.back(), a); }
    void error(ModelVM&, int code) override { err(slotStack.back(), code); }
    bool free_(int slot) override
    {
        if (lg->slots[slot].running) { err(slot, E_FREERUN); return false; }
        vms[slot].loaded = false; return true;
    }
    u8* ptr(int slot, i64 addr) override { if (!addr) return nullptr; return &vms[slot].mem[(u64)addr & vms[slot].mask]; }
    int range(int slot, i64 addr, u64 len) override
    {
        if (!addr) return -1;
        u64 a = (u32)addr, m = vms[slot].mask;
        if (a > m || len > m || a + len > m) { // at the very end implementations may be stricter or not
            err(slot, E_RANGE); return -1; }
        return 0;
    }
    void misuse(int slot, int what) override
    {
        // results were checked where they happened
        const Event& e = peek();
        if ((what == 5 || what == 6) && lg->slots[slot].state != SL_LOADED) { lg->slots[slot].state = SL_EMPTY; vms[slot].loaded = false; lastErr[slot] = what == 5 ? E_NOSYS : E_LOAD; }
        Event x = e; x.kind = EV_MISUSE; emit(x);
    }
    i64 tool(int slot, const i64* v) override
    {
        ModelVM& m = vms[slot]; std::string out; i64 res = 0;
        int id = (int)v[0];
        auto str = [&](i64 a) -> std::string { if (!a) return "(null)"; std::string o; u64 i = (u64)a & m.mask; while (i < m.mem.size() && m.mem[i]) o += (char)m.mem[i++]; return o; };
        auto rangeQ = [&](i64 a, i64 l) { return range(slot, a, (u64)l) == 0; };
        switch (id) {
        case 0: case 1: out = str(v[1]); res = (i64)out.size(); break;
        case 2: if (rangeQ(v[1], v[3])) memset(ptr(slot, v[1]), (int)v[2], (size_t)v[3]); res = v[1]; break;
        case 3: if (rangeQ(v[1], v[3]) && rangeQ(v[2], v[3])) {
                    u64 a = (u64)v[1] & m.mask, b = (u64)v[2] & m.mask, l = (u64)v[3];
                    memmove(&m.mem[a], &m.mem[b], l); if (a != b && a < b + l && b < a + l) { m.taint = true; } }
                res = v[1]; break;
        default: out = strf("Bad system call: %d\n", -1 - id); res = 0;
        }
        emit(Event(EV_OUT, slot, { (i64)hash_bytes(out.data(), out.size()), (i64)out.size() }));
        return res;
    }
    int lastError(int slot) override { return lastErr[slot]; }
    u8* mem(int slot) override { return vms[slot].mem.data(); }
    void dirty(int, u32) override {}
};

// ------------------------------------------------------------------ execution of one world
static std::vector<Actor*> actors; static Actor* bootActor; static Logic* bootLogic;
static void fiberMain()
{
    Fiber* f = cur;
    Real* w = realOf(f->a);
    w->lg->run();
    f->done = true;
    fiberYield();
    abort();
}
static void buildMap(Actor* a, Stream& s);
// runs the given actors (real library) to the end; interleaved if cfg.preempt
static void runReal(Flavour* fl, const std::vector<int>& ids, bool preempt, Stream* ambient, int schedStream, std::vector<Trace>& out, int dumpActor = -1, int dumpIdx = -1, std::vector<u8>* dump = nullptr, const Cfg* override_ = nullptr)
{
    const Cfg& rc = override_ ? *override_ : cfg;
    arena.reset(); allBlocks.clear(); fl->obj.restore(); F = fl; amb = ambient; worldAbort = false; schedHash = 0;
    u32 pk = amb->choose(4); poisonZero = pk == 0; poisonPat = pk == 1 ? 0xFFFFFFFF : amb->raw();
    amb->choose(2);
    arena.cur += 4096 * amb->choose(64);
    std::vector<Actor*> as; std::vector<Logic*> ls;
    for (int id : ids) {
        Actor* a = new Actor; a->id = id; a->st = &S.s[4 + id]; a->recs.resize(rc.nslots);
        Real* w = new Real(a); Logic* l = new Logic(w, *a->st, rc, id); w->lg = l; reals.push_back(w);
        if (id == dumpActor) w->dumpIdx = dumpIdx;
        a->onErr = [w](int lv) { w->onErr(lv); };
        a->fib.a = a; a->fib.size = 512 << 10; a->fib.stack = arena.map(a->fib.size); a->fib.budget = BUDGET;
        memset(a->fib.stack, poisonZero ? 0 : (int)(poisonPat & 255), a->fib.size);
        void** sp = (void**)(a->fib.stack + a->fib.size - 64);
        *--sp = nullptr; *--sp = (void*)fiberMain; for (int i = 0; i < 6; i++) *--sp = nullptr;
        a->fib.sp = sp;
        if (rc.mapFaults) buildMap(a, S.s[20]);
        as.push_back(a); ls.push_back(l);
    }
    if (fl->dbg && rc.mapFaults) { u32 lv = S.s[20].choose(4); fl->debug(lv == 3 ? 2 : (int)lv); }
    preemptOn = preempt && as.size() > 1; inWorld = true;
    Stream& sc = S.s[schedStream]; size_t turn = 0;
    while (!worldAbort) {
        std::vector<Actor*> ready; for (auto a : as) if (!a->fib.done) ready.push_back(a);
        if (ready.empty()) break;
        Actor* a = preemptOn ? ready[sc.choose((u32)ready.size())] : ready[0];
        if (preemptOn) { switch (sc.choose(4)) { case 0: preemptIn = 1 + sc.choose(8); break; case 1: preemptIn = 1 + sc.choose(60); break; case 2: preemptIn = 1 + sc.choose(600); break; default: preemptIn = 1 + sc.choose(5000); } st.preemptions++; }
        schedHash = mix(schedHash, (u64)a->id);
        cur = &a->fib;
        sim_switch(&schedSp, a->fib.sp);
        cur = nullptr;
        if (++turn > 3000000) { setViol("harness", "too many turns"); break; }
    }
    inWorld = false; preemptOn = false;
    if (schedHash && preempt) schedHashes.insert(schedHash);
    for (size_t i = 0; i < as.size(); i++) {
        out.push_back(as[i]->trace);
        if (as[i]->id == dumpActor && dump) *dump = realOf(as[i])->dump;
        for (auto& r : as[i]->recs) (void)r;
    }
    for (size_t i = 0; i < as.size(); i++) { delete realOf(as[i]); reals.erase(std::find_if(reals.begin(), reals.end(), [&](Real* r) { return r->a == as[i]; })); delete ls[i]; delete as[i]; }
}
static void buildMap(Actor* a, Stream& s)
{
    a->mapMode = (int)s.choose(6); a->mapMallocFail = a->mapMode && s.choose(8) == 7; a->failDebug = a->mapMode && s.choose(4) == 3;
    std::string m; int n = (int)s.choose(12);
    for (int i = 0; i < n; i++) m += strf("%d %8x %s%d\n", (int)s.choose(8) == 7 ? (int)s.choose(5) : 0, (int)s.choose(s.choose(4) ? 100 : 100000), s.choose(10) == 9 ? std::string(1100, 'z').c_str() : "sym", i);
    if (a->mapMode == 2) m.resize(s.choose((u32)m.size() + 1));
    if (a->mapMode == 3) { int k = 1 + (int)s.choose(6); for (int i = 0; i < k && !m.empty(); i++) { static const char t[] = "\"/*\n\0 \xff-z7"; m[s.choose((u32)m.size())] = t[s.choose(10)]; } if (s.choose(3) == 2) m += s.choose(2) ? "/* never closed" : "0 5 \"quote"; }
    a->mapData = m;
}

// ------------------------------------------------------------------ comparison
static std::string around(const Trace& t, size_t i)
{
    std::string r; for (size_t k = i > 3 ? i - 3 : 0; k < t.size() && k < i + 2; k++) r += strf("\n    [%zu] ", k) + t[k].str();
    return r;
}
static void modelCheck(int id, const Trace& tr, Flavour* fl, int ambStream, bool preempt, const std::vector<int>& ids)
{
    Stream& s = S.s[4 + id]; s.pos = 0;
    Model m(tr, cfg); Logic l(&m, s, cfg, id); m.lg = &l;
    try { l.run(); if (m.pos != tr.size()) throw Mismatch{ "model", "additional events: " + tr[m.pos].str() }; }
    catch (StopCompare&) { if (m.unmodelled) st.unmodelled++; }
    catch (ModelVM::GiveUp&) { if (!tr.empty() && tr.back().kind != EV_STUCK) setViol("model", "the library ended a call that must not end within 3000000 instructions"); }
    catch (Mismatch& x) {
        std::string d = x.detail + around(tr, m.pos);
        if (m.pos < tr.size() && tr[m.pos].kind == EV_MEM && l.slots[tr[m.pos].slot].state == SL_LOADED) {
            // same run once more to see which bytes differ
            size_t pos = m.pos; int slot = tr[pos].slot; std::vector<u8> ref(m.mem(slot), m.mem(slot) + l.slots[slot].memSize), dump; std::vector<Trace> out;
            S.rewind(S.s[0].replay); Violation keep = viol; viol = Violation();
            runReal(fl, ids, preempt, &S.s[ambStream], 3, out, id, (int)pos, &dump);
            viol = keep;
            for (size_t i = 0; i < ref.size() && i < dump.size(); i++) if (ref[i] != dump[i]) { d += strf("\n    first different byte: address 0x%zx, expected %02x, got %02x", i, ref[i], dump[i]); break; }
        }
        setViol(x.kind.c_str(), d);
    }
    for (auto& v : m.vms) { st.modelSteps += v.steps; st.opSeen |= v.opSeen; st.branchTaken |= v.branchTaken; st.maxNest = std::max<u64>(st.maxNest, v.maxNest); stateHashes.insert(mix(v.opSeen, v.branchTaken)); }
}
static bool debugCheckDue(int id, const Trace& rel, size_t at) // does the guest violate a debug check between events at-1 and at?
{
    Stream& s = S.s[4 + id]; s.pos = 0;
    Model m(rel, cfg); Logic l(&m, s, cfg, id); m.lg = &l;
    try { l.run(); } catch (StopCompare&) {} catch (ModelVM::GiveUp&) {} catch (Mismatch&) {}
    if (m.dbgBadAt == SIZE_MAX) for (auto& v : m.vms) if (v.dbgBad) m.dbgBadAt = m.pos;
    return m.dbgBadAt == at || (m.unmodelled && m.pos <= at);
}
static void sameTrace(const char* kind, const Trace& a, const Trace& b, const char* what)
{
    for (size_t i = 0; i < a.size() || i < b.size(); i++) {
        if (i < a.size() && i < b.size() && a[i].kind == EV_STUCK && b[i].kind == EV_STUCK) return;
        bool sa = i < a.size() && a[i].kind == EV_STUCK, sb = i < b.size() && b[i].kind == EV_STUCK;
        if (sa && sb) return;
        if (i >= a.size() || i >= b.size() || !a[i].same(b[i])) {
            if (!strcmp(kind, "debug") && i < b.size() && b[i].kind == EV_ERR && b[i].v[0] <= -8 && b[i].v[0] >= -10 && debugCheckDue(0, a, i)) return;
            setViol(kind, strf("%s: event %zu is %s in one and %s in the other", what, i, i < a.size() ? a[i].str().c_str() : "missing", i < b.size() ? b[i].str().c_str() : "missing") + around(a, i));
            return;
        }
    }
}

// ------------------------------------------------------------------ the check of each property
static void configure(const std::string& p, Stream& c)
{
    cfg = Cfg(); cfg.prop = p;
    u32 f = c.choose(12);
    auto flav = [&](std::initializer_list<const char*> l) { auto it = l.begin(); std::advance(it, f % l.size()); cfg.flav = *it; };
    if (p == "S01") {
        flav({ "inst", "inst", "inst", "rel", "sw", "dbg" }); cfg.cmp = CMP_NONE; cfg.gen.wildPct = 85; cfg.gen.mutatePct = 30; cfg.gen.bigBss = true; cfg.failAllocPct = 8; cfg.nimages = 3;
        cfg.sHelper = 2; cfg.mapFaults = cfg.flav == "dbg";
    } else if (p == "S02") {
        flav({ "inst", "rel", "sw" }); cfg.gen.wildPct = 60; cfg.nops = 14; cfg.manyFails = true; cfg.wCreate = 1; cfg.wFree = 1; cfg.wHelper = 0; cfg.wMisuse = 0; cfg.wCall = 20; cfg.sNest = 6; cfg.nslots = 2; cfg.sOther = 2;
    } else if (p == "S03") {
        flav({ "inst", "inst", "rel", "sw" }); cfg.gen.wildPct = 60; cfg.gen.mutatePct = 75; cfg.gen.bigBss = true; cfg.nimages = 5; cfg.nops = 10; cfg.wCreate = 12; cfg.wCall = 6; cfg.wFree = 8; cfg.wHelper = 1;
    } else if (p == "S04") {
        flav({ "inst", "rel", "sw" }); cfg.gen.wildPct = 50; cfg.gen.mutatePct = 20; cfg.failAllocPct = 45; cfg.nops = 14; cfg.wCreate = 10; cfg.wFree = 8; cfg.wCall = 6; cfg.wMisuse = 3; cfg.sFreeSelf = 4; cfg.sOther = 4; cfg.nslots = 3; cfg.nimages = 3;
    } else if (p == "S05") {
        flav({ "rel", "sw", "inst", "o0" }); cfg.gen.wildPct = 40; cfg.nimages = 2; cfg.wMisuse = 0; cfg.wHelper = 0; cfg.wCall = 20; cfg.wCreate = 2; cfg.wFree = 2;
    } else if (p == "S06") {
        flav({ "inst", "inst", "rel", "sw" }); cfg.cmp = CMP_SOLO; cfg.actors = 2 + (int)c.choose(3); cfg.preempt = true; cfg.gen.wildPct = 35; cfg.gen.mutatePct = 5; cfg.nops = 5; cfg.failAllocPct = 4; cfg.sOther = 2;
    } else if (p == "S07") {
        flav({ "rel", "sw", "inst", "o0" }); cfg.gen.wildPct = 25; cfg.sNest = 12; cfg.sOther = 3; cfg.sReturn = 8; cfg.wMisuse = 0; cfg.wHelper = 0; cfg.maxDepth = 4; cfg.sFreeSelf = 1;
    } else if (p == "S08") {
        flav({ "inst", "rel", "sw" }); cfg.gen.wildPct = 70; cfg.gen.mutatePct = 25; cfg.failAllocPct = 20; cfg.wMisuse = 6; cfg.wHelper = 4; cfg.sFreeSelf = 3; cfg.sHelper = 3; cfg.nops = 12; cfg.wCreate = 6; cfg.nimages = 4; cfg.wFree = 4;
    } else if (p == "S09") {
        flav({ "rel", "inst", "sw", "o0" }); cfg.cmp = CMP_PAIR; cfg.gen.wildPct = 75; cfg.gen.mutatePct = 10; cfg.failAllocPct = 4;
    } else if (p == "S14") {
        cfg.flav = f % 2 ? "rel" : "sw"; cfg.cmp = CMP_DEBUG; cfg.gen.cleanLocals = true; cfg.gen.wildPct = 0; cfg.mapFaults = true; cfg.cleanCompare = true; cfg.wMisuse = 0; cfg.wHelper = 0; cfg.sHelper = 0; cfg.gen.noErrors = c.choose(2);
        cfg.maxDepth = 2;
    } else if (p == "S18") {
        flav({ "inst", "inst", "rel", "sw" }); cfg.gen.wildPct = 45; cfg.wHelper = 12; cfg.sHelper = 6; cfg.sTool = 12; cfg.sNest = 1; cfg.sReturn = 2; cfg.wMisuse = 1;
    } else { fprintf(stderr, "unknown property %s\n", p.c_str()); exit(3); }
}
static u64 lastHash;
static void oneRun(const std::string& prop)
{
    viol = Violation();
    configure(prop, S.s[0]);
    std::vector<int> ids; for (int i = 0; i < cfg.actors; i++) ids.push_back(i);
    std::vector<Trace> out;
    Flavour* fl = flavour(cfg.flav.c_str());
    bool rp = S.s[0].replay;
    runReal(fl, ids, cfg.preempt, &S.s[1], 3, out);
    st.runs++;
    u64 h = hash_bytes(&schedHash, 8);
    for (auto& t : out) for (auto& e : t) { h = hash_bytes(&e, 4 + 0, h); h = hash_bytes(e.v, e.n * 8, h); }
    if (!viol.set()) {
        if (cfg.cmp == CMP_MODEL) { for (int i : ids) { if (viol.set()) break; modelCheck(i, out[i], fl, 1, cfg.preempt, ids); } }
        else if (cfg.cmp == CMP_SOLO) {
            for (int i : ids) {
                std::vector<Trace> solo; S.s[4 + i].pos = 0;
                runReal(fl, { i }, false, &S.s[2], 3, solo);
                if (viol.set()) break;
                sameTrace("isolation", solo[0], out[i], strf("actor %d alone and interleaved", i).c_str());
                if (viol.set()) break;
            }
        } else if (cfg.cmp == CMP_PAIR) {
            std::vector<Trace> second; S.s[4].pos = 0; st.poisonPairs++;
            runReal(fl, { 8, 0 }, false, &S.s[2], 3, second);
            if (!viol.set()) sameTrace("determinism", out[0], second[1], "two executions in different surroundings");
        } else if (cfg.cmp == CMP_DEBUG) {
            std::vector<Trace> second; S.s[4].pos = 0;
            bool relStuck = !out[0].empty() && out[0].back().kind == EV_STUCK;
            budgetScale = relStuck ? 1 : 100; // the debug build does more work per instruction
            runReal(flavour("dbg"), { 0 }, false, &S.s[2], 3, second);
            budgetScale = 1;
            if (relStuck) { // no end in sight: compare what both did until they were stopped
                out[0].pop_back(); if (!second[0].empty() && second[0].back().kind == EV_STUCK) second[0].pop_back();
                size_t n = std::min(out[0].size(), second[0].size());
                out[0].resize(n); second[0].resize(n);
            }
            if (!viol.set()) sameTrace("debug", out[0], second[0], "release and DEBUG_VM build");
        }
    }
    if (viol.set()) h = hash_bytes(viol.kind.data(), viol.kind.size(), h);
    size_t calls = 0; for (auto& t : out) for (auto& e : t) calls += e.kind == EV_CALL || e.kind == EV_CREATE;
    if (calls > 1) traceHashes.insert(h);
    lastHash = h;
    (void)rp;
}

// ------------------------------------------------------------------ replay files
static std::string replayJson(const std::string& prop, u64 seed, u64 run)
{
    std::string o = "{\n \"tool\": \"vmsim\",\n \"property\": " + jesc(prop) + strf(",\n \"seed\": %llu,\n \"run\": %llu,\n", (unsigned long long)seed, (unsigned long long)run);
    o += " \"violation\": {\"kind\": " + jesc(viol.kind) + ", \"detail\": " + jesc(viol.detail) + "},\n";
    o += " \"flavour\": " + jesc(cfg.flav) + strf(",\n \"hash\": \"%016llx\",\n", (unsigned long long)lastHash);
    o += " \"streams\": {";
    bool first = true;
    for (int i = 0; i < MAXSTREAM; i++) {
        if (S.s[i].rec.empty()) continue;
        o += strf("%s\n  \"%d\": [", first ? "" : ",", i); first = false;
        for (size_t k = 0; k < S.s[i].rec.size(); k++) o += strf(k ? ",%u" : "%u", S.s[i].rec[k]);
        o += "]";
    }
    o += "\n }\n}\n";
    return o;
}
static void loadReplay(const char* path, std::string& prop)
{
    FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    size_t p = t.find("\"property\": \""); prop = t.substr(p + 13, t.find('"', p + 13) - p - 13);
    for (auto& x : S.s) x = Stream();
    p = t.find("\"streams\""); p = t.find('{', p) + 1;
    while (true) {
        size_t q = t.find_first_of("\"}", p); if (q == std::string::npos || t[q] == '}') break;
        int id = atoi(&t[q + 1]); p = t.find('[', q) + 1;
        while (t[p] != ']') { while (t[p] == ',' || t[p] == ' ') p++; if (t[p] == ']') break; S.s[id].rec.push_back((u32)strtoul(&t[p], nullptr, 10)); while (t[p] >= '0' && t[p] <= '9') p++; }
        p++;
    }
    S.rewind(true);
}
static void minimise(const std::string& prop, double limit)
{
    // keep every reduction after which the run still ends in a violation of the same kind
    double end = now_s() + limit;
    std::string kind = viol.kind;
    auto attempt = [&](Streams& cand) -> bool {
        Streams keep = S; S = cand; S.rewind(true); oneRun(prop);
        bool ok = viol.set() && viol.kind == kind;
        if (!ok) S = keep;
        return ok;
    };
    bool progress = true;
    for (auto& x : S.s) if (x.rec.size() > x.pos) {}
    while (progress && now_s() < end) {
        progress = false;
        for (int i = 0; i < MAXSTREAM && now_s() < end; i++) {
            for (size_t cut = S.s[i].rec.size(); cut >= 1 && now_s() < end; cut /= 2) { // truncate
                while (S.s[i].rec.size() >= cut) { Streams c = S; c.s[i].rec.resize(c.s[i].rec.size() - cut); if (!attempt(c)) break; progress = true; }
            }
            for (size_t len = 32; len >= 1 && now_s() < end; len /= 2) {
                for (size_t k = 0; k + len <= S.s[i].rec.size() && now_s() < end;) { // delete
                    Streams c = S; c.s[i].rec.erase(c.s[i].rec.begin() + k, c.s[i].rec.begin() + k + len);
                    if (attempt(c)) progress = true; else k += len;
                }
                for (size_t k = 0; k + len <= S.s[i].rec.size() && now_s() < end; k += len) { // zero
                    Streams c = S; bool ch = false; for (size_t j = k; j < k + len; j++) { ch |= c.s[i].rec[j] != 0; c.s[i].rec[j] = 0; }
                    if (ch && attempt(c)) progress = true;
                }
            }
        }
    }
    S.rewind(true); oneRun(prop);
}

// ------------------------------------------------------------------ main
static void writeStats(const char* path, double wall, u64 runsDone)
{
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    u64 g = 0; for (u32 i = 1; i < guardTop; i++) g += guardHit[i];
    fprintf(f, "{\"wall\": %.3f, \"done\": %llu", wall, (unsigned long long)runsDone);
#define P(x) fprintf(f, ", \"%s\": %llu", #x, (unsigned long long)st.x);
    P(runs) P(events) P(calls) P(syscalls) P(creates) P(rejected) P(frees) P(guestErrors) P(nested) P(stuck) P(unmodelled) P(preemptions) P(modelSteps) P(allocFails)
    P(imgDestroyed) P(imgReadonly) P(accesses) P(helper) P(misuse) P(mapAbsent) P(mapCorrupt) P(mapReadErr) P(mapAllocFail) P(mapOk) P(poisonPairs) P(freeRefused) P(toolSys) P(prof) P(errCodes) P(maxNest) P(opSeen) P(branchTaken)
    fprintf(f, ", \"guardsHit\": %llu, \"guardsTotal\": %u, \"stepGuards\": %llu, \"stateHashes\": %zu}\n", (unsigned long long)g, guardTop - 1, (unsigned long long)stepGuards, stateHashes.size());
    fclose(f);
    auto dump = [&](std::string p, std::unordered_set<u64>& s) { FILE* o = fopen(p.c_str(), "wb"); for (u64 x : s) fwrite(&x, 8, 1, o); fclose(o); };
    dump(std::string(path) + ".traces", traceHashes); dump(std::string(path) + ".scheds", schedHashes);
    f = fopen((std::string(path) + ".guards").c_str(), "wb"); fwrite(guardHit, 1, guardTop, f); fclose(f);
}
int main(int argc, char** argv)
{
    std::map<std::string, std::string> o;
    for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); } }
    arena.init();
    stack_t ss = {}; ss.ss_sp = altStk; ss.ss_size = sizeof altStk; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP }) sigaction(s, &sa, nullptr);
    std::string dir = o["--build"]; if (dir.empty()) dir = "build";
    for (const char* n : { "inst", "rel", "sw", "o0", "dbg" }) {
        Flavour* f = new Flavour; f->name = n; if (!f->obj.load(dir + "/libvm_" + n + ".so")) return 3;
        f->inst = !strcmp(n, "inst"); f->dbg = !strcmp(n, "dbg");
#define SYM(m, s) f->m = (decltype(f->m))f->obj.sym(s); if (!f->m) { fprintf(stderr, "missing %s\n", s); return 3; }
        SYM(create, "VM_Create") SYM(free_, "VM_Free") SYM(call, "VM_Call") SYM(argptr, "VM_ArgPtr") SYM(range, "VM_MemoryRangeValid") SYM(debug, "VM_Debug") SYM(profile, "VM_VmProfile_f")
        f->syscalls = (decltype(f->syscalls))f->obj.sym("systemCalls");
        flavours.push_back(f);
    }
    std::string prop = o["--prop"]; u64 seed = strtoull(o["--seed"].c_str(), nullptr, 10);
    if (o.count("--replay")) {
        keepNotes = true;
        loadReplay(o["--replay"].c_str(), prop); oneRun(prop);
        printf("hash %016llx\n", (unsigned long long)lastHash);
        if (o.count("--verbose")) {
            std::vector<Trace> out; std::vector<int> ids; for (int i = 0; i < cfg.actors; i++) ids.push_back(i);
            Violation v = viol; u64 h = lastHash; S.rewind(true); viol = Violation(); S.s[0].pos = 0; configure(prop, S.s[0]); dumpImages = true; runReal(flavour(cfg.flav.c_str()), ids, cfg.preempt, &S.s[1], 3, out);
            for (size_t i = 0; i < out.size(); i++) for (auto& e : out[i]) printf("actor %zu: %s\n", i, e.str().c_str());
            Logic* l = nullptr; (void)l; viol = v; lastHash = h;
        }
        if (viol.set()) { printf("violation %s: %s\n", viol.kind.c_str(), viol.detail.c_str()); return 1; }
        printf("no violation\n"); return 0;
    }
    if (o.count("--minimise")) {
        loadReplay(o["--minimise"].c_str(), prop); oneRun(prop);
        if (!viol.set()) { fprintf(stderr, "replay does not fail\n"); return 3; }
        minimise(prop, atof(o["--limit"].c_str()));
        FILE* f = fopen(o["--out"].c_str(), "w"); std::string j = replayJson(prop, seed, strtoull(o["--run"].c_str(), nullptr, 10)); fwrite(j.data(), 1, j.size(), f); fclose(f);
        return 0;
    }
    u64 from = strtoull(o["--from"].c_str(), nullptr, 10), to = strtoull(o["--to"].c_str(), nullptr, 10), step = strtoull(o["--step"].c_str(), nullptr, 10);
    double cap = o.count("--cap") ? atof(o["--cap"].c_str()) : 1e9, t0 = now_s();
    FILE* hf = o.count("--hashes") ? fopen(o["--hashes"].c_str(), "w") : nullptr;
    u64 done = 0; int rc = 0;
    if (o.count("--show")) { // one run, written out
        u64 r = from; S.seed(mix(seed * 1000003 + 17, r)); oneRun(prop); Violation v = viol;
        std::vector<Trace> out; std::vector<int> ids; for (int i = 0; i < cfg.actors; i++) ids.push_back(i);
        S.seed(mix(seed * 1000003 + 17, r)); viol = Violation(); configure(prop, S.s[0]); runReal(flavour(cfg.flav.c_str()), ids, cfg.preempt, &S.s[1], 3, out);
        size_t lim = strtoull(o["--show"].c_str(), nullptr, 10), n = 0;
        printf("run %llu flavour %s actors %d%s\n", (unsigned long long)r, cfg.flav.c_str(), cfg.actors, cfg.preempt ? " preempted" : "");
        for (size_t i = 0; i < out.size(); i++) { size_t k = 0; for (auto& e : out[i]) { if (k++ >= lim / out.size()) { printf("actor %zu: ... %zu events\n", i, out[i].size()); break; } printf("actor %zu: %s\n", i, e.str().c_str()); } }
        (void)n; printf("%s\n", v.set() ? v.kind.c_str() : "held");
        return 0;
    }
    volatile u64* progress = nullptr;
    if (o.count("--progress")) {
        int fd = open(o["--progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, 4096)) { perror("progress"); return 3; }
        progress = (volatile u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (progress == MAP_FAILED) return 3;
    }
    for (u64 r = from; r < to; r += step) {
        if (now_s() - t0 > cap) break;
        S.seed(mix(seed * 1000003 + 17, r));
        if (progress) progress[0] = r + 1;
        oneRun(prop); done++;
        if (hf) fprintf(hf, "%llu %016llx\n", (unsigned long long)r, (unsigned long long)lastHash);
        if (viol.set()) {
            if (viol.kind == "harness") { fprintf(stderr, "run %llu: %s\n", (unsigned long long)r, viol.detail.c_str()); return 3; }
            FILE* f = fopen(o["--fail"].c_str(), "w"); std::string j = replayJson(prop, seed, r); fwrite(j.data(), 1, j.size(), f); fclose(f);
            fprintf(stderr, "run %llu: %s: %s\n", (unsigned long long)r, viol.kind.c_str(), viol.detail.c_str());
            rc = 10; break;
        }
    }
    if (hf) fclose(hf);
    if (o.count("--stats")) writeStats(o["--stats"].c_str(), now_s() - t0, done);
    return rc;
}
