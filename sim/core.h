// Core of the simulators: seeded choice streams, fibers, guarded arena, trace and reports.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <link.h>
#include <dlfcn.h>
#include <time.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;

static inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- PRNG and hash
struct Rng {
    u64 s;
    explicit Rng(u64 x = 1) : s(x) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};
static inline u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull)); r.next(); return r.next(); }
static inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull)
{
    const u8* b = (const u8*)p;
    while (n >= 8) { u64 w; memcpy(&w, b, 8); h = (h ^ w) * 0x9FB21C651E98DF25ull; h ^= h >> 29; b += 8; n -= 8; }
    while (n--) { h = (h ^ *b++) * 0x100000001b3ull; }
    return h ^ (h >> 32);
}

// ---------------------------------------------------------------- choice streams
// A run is a pure function of the values these streams hand out. In search mode they come
// from a PRNG and are recorded; in replay mode they come from the recording (0 after its end).
struct Stream {
    std::vector<u32> rec; size_t pos = 0; Rng rng; bool replay = false;
    u32 choose(u32 n)
    {
        if (n <= 1) return 0;
        u32 v;
        if (pos < rec.size()) v = rec[pos] % n;
        else if (replay) v = 0;
        else { v = (u32)((rng.next() >> 16) % n); rec.push_back(v); }
        pos++;
        return v;
    }
    u32 raw() { u32 lo = choose(65536); u32 hi = choose(65536); return lo | hi << 16; }
    bool chance(u32 num, u32 den) { return choose(den) >= den - num; } // 0 means "no"
    i32 range(i32 a, i32 b) { return a + (i32)choose((u32)(b - a + 1)); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[choose((u32)v.size())]; }
};
enum { MAXSTREAM = 24 };
struct Streams {
    Stream s[MAXSTREAM];
    void seed(u64 x) { for (int i = 0; i < MAXSTREAM; i++) { s[i] = Stream(); s[i].rng = Rng(mix(x, i + 1)); } }
    void rewind(bool replay) { for (auto& x : s) { x.pos = 0; x.replay = replay; } }
};

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void** save, void* load);
#ifdef SIM_MAIN
asm(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
#endif

// ---------------------------------------------------------------- guarded arena
// 48 GiB of inaccessible address space at a fixed address. Blocks are mapped in the middle with
// at least one inaccessible page on both sides; a freed block becomes inaccessible.
struct Arena {
    static constexpr uintptr_t BASE = 0x100000000000ull;
    static constexpr size_t SIZE = 48ull << 30, FIRST = 16ull << 30;
    uintptr_t cur = 0, top = 0;
    void init()
    {
        void* p = mmap((void*)BASE, SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)BASE) { fprintf(stderr, "arena: cannot map\n"); exit(3); }
        cur = top = BASE + FIRST;
    }
    static size_t pages(size_t n) { return (n + 4095) & ~(size_t)4095; }
    // returns page aligned memory of pages(n) bytes with guards
    u8* map(size_t n, size_t gap = 4096)
    {
        cur += 4096 + pages(gap);
        u8* p = (u8*)cur;
        size_t len = pages(n ? n : 1);
        if (mprotect(p, len, PROT_READ | PROT_WRITE)) { perror("arena mprotect"); exit(3); }
        cur += len + 4096;
        if (cur > top) top = cur;
        if (cur > BASE + SIZE - (8ull << 30)) { fprintf(stderr, "arena full\n"); exit(3); }
        return p;
    }
    void protect(u8* p, size_t n, int prot) { if (mprotect(p, pages(n ? n : 1), prot)) { perror("mprotect"); exit(3); } }
    void reset()
    {
        uintptr_t a = BASE + FIRST;
        if (cur > a) {
            // one fresh inaccessible mapping replaces everything used by the run
            if (mmap((void*)a, cur - a, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("arena reset"); exit(3); }
        }
        cur = a;
    }
    bool contains(uintptr_t a) const { return a >= BASE && a < BASE + SIZE; }
};

// ---------------------------------------------------------------- loaded objects
// Writable data of a dlopened object, so that a run (or a simulated process) can start from
// the state right after loading.
struct Object {
    void* h = nullptr; std::string path;
    uintptr_t lo = 0, hi = 0, wlo = 0, whi = 0;
    std::vector<u8> pristine;
    bool load(const std::string& p)
    {
        path = p;
        h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
        struct link_map* lm = nullptr;
        dlinfo(h, RTLD_DI_LINKMAP, &lm);
        struct Ctx { Object* o; uintptr_t base; } c = { this, lm->l_addr };
        dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* u) -> int {
            Ctx* c = (Ctx*)u;
            if (i->dlpi_addr != c->base) return 0;
            for (int k = 0; k < i->dlpi_phnum; k++) {
                auto& ph = i->dlpi_phdr[k];
                if (ph.p_type != PT_LOAD) continue;
                uintptr_t a = i->dlpi_addr + ph.p_vaddr, b = a + ph.p_memsz;
                if (!c->o->lo || a < c->o->lo) c->o->lo = a;
                if (b > c->o->hi) c->o->hi = b;
                if (ph.p_flags & PF_W) { if (!c->o->wlo || a < c->o->wlo) c->o->wlo = a; if (b > c->o->whi) c->o->whi = b; }
            }
            return 1;
        }, &c);
        if (wlo) pristine.assign((u8*)wlo, (u8*)whi);
        return true;
    }
    void restore() { if (wlo) memcpy((void*)wlo, pristine.data(), pristine.size()); }
    void* sym(const char* n) const { return dlsym(h, n); }
};

// ---------------------------------------------------------------- small helpers
static inline std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));
static inline std::string strf(const char* f, ...)
{
    char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
static inline std::string jesc(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += (char)c; }
    return o + "\"";
}

// ---------------------------------------------------------------- violation of a run
struct Violation { std::string kind, detail; bool set() const { return !kind.empty(); } };
