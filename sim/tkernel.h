// A simulated Unix kernel inside one process: files, descriptors, processes, signals, clock,
// memory. The tools of the repository run on it as fibers in slots (copies of their shared
// objects); every call they make into the system is a numbered event of their process, at
// which the plan of the run may switch to another process, inject a fault, send a signal,
// kill the process, move the clock or cut the power.
#pragma once
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <ucontext.h>
#include <unordered_map>
#include <unordered_set>

enum Tool { T_CPP, T_RCC, T_LCC, T_ASM, T_VM, NTOOL };
static const char* const toolName[NTOOL] = { "cpp", "rcc", "lcc", "q3asm", "q3vm" };
static const char* const toolPath[NTOOL] = { "/bin/q3cpp", "/bin/q3rcc", "/bin/lcc", "/bin/q3asm", "/bin/q3vm" };
static const int slotsPerTool[NTOOL] = { 6, 6, 5, 5, 3 };

enum Op { O_OPEN, O_CREATE, O_CLOSE, O_READ, O_WRITE, O_LSEEK, O_UNLINK, O_RENAME, O_MKDIR, O_STAT, O_ACCESS, O_DUP, O_FTRUNC, O_FORK, O_EXEC, O_WAIT, O_KILL, O_SIGNAL, O_TIME, O_ALLOC, O_EXIT, O_MISC, NKOP };
static const char* const kopName[NKOP] = { "open", "create", "close", "read", "write", "lseek", "unlink", "rename", "mkdir", "stat", "access", "dup2", "ftruncate", "fork", "exec", "wait", "kill", "signal", "time", "malloc", "exit", "misc" };

enum ActKind { A_SWITCH, A_FAIL, A_SHORT, A_SIG, A_KILL, A_CLOCK, A_FULL, A_MEM, A_CRASH, A_IOERR, A_TRUNC, A_CLOSEALL, NACT };
static const char* const actName[NACT] = { "switch", "fail", "short", "signal", "kill", "clock", "disk-full", "memory-out", "power-loss", "io-error-from-here", "truncate", "?" };
struct Act { int job, nth; u64 at; int edge, kind; i32 a, b; };
static inline u64 actKey(int job, int nth, u64 at) { return (u64)job << 56 | (u64)nth << 48 | at; }

// ---------------------------------------------------------------- file system
struct Inode { bool dir = false, tty = false, special = false; std::string data; u32 mode = 0644; i64 mtime = 0; std::map<std::string, int> ents; u64 writer = 0; };
struct JEnt { enum K { LINK, UNLINK, TRUNC, WRITE } k; int dir, ino; std::string name; u64 off; std::string data; };
struct Fs {
    std::vector<Inode> ino; std::vector<JEnt> journal; bool journalOn = false; int root = 0; i64 now = 0;
    i64 spare = -1; // bytes that may still be written, -1: unlimited
    Fs() { ino.emplace_back(); ino[0].dir = true; ino[0].mode = 0755; }
    int resolve(const std::string& cwd, const char* path, int* parent, std::string* last, int* err) const
    {
        std::string p = path[0] == '/' ? path : cwd + "/" + path;
        std::vector<int> st = { root }; size_t i = 0; int cur = root; *err = 0;
        if (parent) *parent = -1;
        if (!*path) { *err = ENOENT; return -1; }
        if (strlen(path) > 4000) { *err = ENAMETOOLONG; return -1; }
        while (i < p.size()) {
            while (i < p.size() && p[i] == '/') i++;
            size_t j = i; while (j < p.size() && p[j] != '/') j++;
            if (j == i) break;
            std::string c = p.substr(i, j - i); bool lastc = p.find_first_not_of('/', j) == std::string::npos;
            if (c.size() > 255) { *err = ENAMETOOLONG; return -1; }
            if (!ino[cur].dir) { *err = ENOTDIR; return -1; }
            if (c == ".") { i = j; continue; }
            if (c == "..") { if (st.size() > 1) st.pop_back(); cur = st.back(); i = j; continue; }
            if (lastc && parent) { *parent = cur; *last = c; }
            auto it = ino[cur].ents.find(c);
            if (it == ino[cur].ents.end()) { *err = ENOENT; if (!lastc && parent) *parent = -1; return -1; }
            cur = it->second; st.push_back(cur); i = j;
        }
        if (p.size() > 1 && p.back() == '/' && !ino[cur].dir) { *err = ENOTDIR; return -1; }
        return cur;
    }
    void jr(JEnt::K k, int dir, int in, const std::string& name, u64 off = 0, std::string data = "") { if (journalOn) journal.push_back({ k, dir, in, name, off, data }); }
    int mknode(int dir, const std::string& name, bool isdir, u32 mode) { ino.emplace_back(); int n = (int)ino.size() - 1; ino[n].dir = isdir; ino[n].mode = mode; ino[n].mtime = now; ino[dir].ents[name] = n; jr(JEnt::LINK, dir, n, name); return n; }
    // host side helpers
    int lookup(const std::string& path) const { int e; return resolve("/", path.c_str(), nullptr, nullptr, &e); }
    bool exists(const std::string& p) const { return lookup(p) >= 0; }
    std::string get(const std::string& p) const { int n = lookup(p); return n < 0 ? "" : ino[n].data; }
    void mkdirs(const std::string& p) { size_t i = 1; while (i <= p.size()) { size_t j = p.find('/', i); std::string d = p.substr(0, j == std::string::npos ? p.size() : j); int e, par; std::string l; if (resolve("/", d.c_str(), &par, &l, &e) < 0) mknode(par, l, true, 0755); if (j == std::string::npos) break; i = j + 1; } }
    void put(const std::string& p, const std::string& data, u32 mode = 0644)
    {
        int e, par; std::string l; int n = resolve("/", p.c_str(), &par, &l, &e);
        if (n < 0) n = mknode(par, l, false, mode);
        ino[n].data = data; ino[n].mode = mode;
    }
    void list(int d, const std::string& pre, std::map<std::string, int>& out) const { for (auto& e : ino[d].ents) { if (ino[e.second].dir) list(e.second, pre + "/" + e.first, out); else out[pre + "/" + e.first] = e.second; } }
    std::map<std::string, int> files() const { std::map<std::string, int> m; list(root, "", m); return m; }
};

// ---------------------------------------------------------------- slots and processes
struct Proc;
struct Slot {
    Tool tool; Object obj; u8* heap = nullptr; size_t heapSize = 0; u8* stack = nullptr; size_t stackSize = 0;
    int (*main_)(int, char**) = nullptr; void (*exit_)(int) = nullptr; void (*init)(char*, size_t, unsigned char) = nullptr; char* (*heapTop)(void) = nullptr; long (*live)(void) = nullptr; int (*heapCheck)(void) = nullptr;
    Proc* owner = nullptr; int users = 0; size_t heapDirty = 0; std::string scratch; u32 guardBase = 0, guardN = 0; size_t dataUsed = 0; // dataUsed: bytes of pristine data that come from the file
};
struct Ofd { int ino; u64 off = 0; int flags = 0; int refs = 1; };
struct Disp { void* h = nullptr; int restart = 1; }; // h: nullptr default, (void*)1 ignore
struct ProcImg { std::vector<u8> data, heap, stack; u8* stackLo = nullptr; };
enum PState { P_READY, P_WAIT, P_ZOMBIE, P_GONE };
struct Proc {
    int pid = 0, ppid = 0, job = 0, nth = 0; Tool tool = T_CPP; Slot* slot = nullptr; PState state = P_READY;
    std::map<int, int> fds; std::string cwd; std::vector<std::string> argv; std::map<std::string, std::string> env;
    Disp disp[32]; u32 mask = 0, pending = 0; bool smashed = false; int status = 0; void* sp = nullptr; int err = 0; u64 ops = 0, edges = 0, edgeNext = ~0ull;
    ProcImg img; bool swapped = false; int forkRet = 0; bool forkReq = false; Proc* forkChild = nullptr; bool memOut = false, started = false; int ioErrIno = -1; bool got[32] = {};
    int unreaped = 0; bool parentGone = false; bool execed = false; bool crashed = false; long liveAtExit = 0; int openAtExit = 0; bool normalExit = false, mainReturned = false; bool everSignalled = false;
};
struct Job { Tool tool; std::vector<std::string> argv; std::map<std::string, std::string> env; std::string cwd = "/w"; u32 ignored = 0; int startAfter = -1; // starts when that job has ended
    int pid = 0; bool started = false, done = false; int status = -1; int outIno = -1, errIno = -1, inIno = -1; std::string in; bool closedOut = false; std::string outPath; /* standard output goes to this file */ };
struct Ev { Proc* p; int op; std::string path; long res; int pid, job, nth; Tool tool; u64 at; };
struct OpRec { u8 op; bool file; };

static Arena arena;
struct Kernel {
    Fs fs; std::vector<Ofd> ofds; std::vector<Proc*> procs; std::vector<Job> jobs; Proc* cur = nullptr; void* sched = nullptr;
    std::unordered_map<u64, std::vector<Act>> acts, edgeActs; int pidNext = 100, pidLo = 100, pidHi = 32000, pidStep = 1, pidCount = 0; i64 clock = 1700000000; u64 usec = 0; u8 poison = 0xA5; u64 switches = 0, totalOps = 0; u64 th = 0, sh = 0; int lastRun = -1;
    bool crashed = false, recording = false, stop = false; std::string hang, harness; std::vector<Ev> evs; bool keepEvs = false; std::map<std::pair<int, int>, std::vector<OpRec>> rec; std::map<std::pair<int, int>, u64> recEdges;
    u64 opLimit = 3000000, edgeLimit = 60000000; u64 faults[NACT] = {}, faultOps[NKOP] = {}; int nthOf[16] = {}; int switchTo = -1; u64 maxProcs = 0, forks = 0, sigDelivered = 0; std::vector<std::string> trace; bool keepTrace = false; i64 simStart = 0; u64 fired = 0;
    std::vector<int> jobFaults; u64 sigSeen = 0; u64 edgesRun = 0; std::set<int> pidsUsed; u64 pidReuse = 0;
};
static Kernel* K;
static std::vector<Slot*> slots; // all slots of all flavours
struct ToolSet { std::string name; std::vector<Slot*> s[NTOOL]; };
static std::vector<ToolSet*> toolsets; static ToolSet* TS;
static u32 guardTop = 1; static u8 guardHit[1 << 17]; static std::map<std::string, u32> guardBaseOf; static std::string loadingTool;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(u32* a, u32* b)
{
    if (a == b || *a) return;
    static std::map<std::string, u32> off; u32 base;
    size_t n = (size_t)(b - a);
    auto it = guardBaseOf.find(loadingTool);
    if (it == guardBaseOf.end()) { base = guardTop; guardTop += (u32)n; guardBaseOf[loadingTool] = base; if (guardTop >= sizeof guardHit) { fprintf(stderr, "too many guards\n"); exit(3); } }
    else base = it->second;
    u32 i = 0; for (u32* p = a; p < b; p++) *p = base + i++;
}
}
static void deliver();
static void edgeEvent();
extern "C" void __sanitizer_cov_trace_pc_guard(u32* g)
{
    guardHit[*g] = 1;
    Proc* p = K ? K->cur : nullptr;
    if (p && ++p->edges >= p->edgeNext) edgeEvent();
}

static void toSched() { Proc* p = K->cur; sim_switch(&p->sp, K->sched); }
static void thash(u64 x) { K->th = (K->th ^ x) * 0x9FB21C651E98DF25ull; K->th ^= K->th >> 31; }
static void note(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void note(const char* f, ...)
{
    if (!K->keepTrace) return;
    char b[1200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    K->trace.emplace_back(b);
}
static std::string pname(Proc* p) { return strf("job %d.%d %s[%d]", p->job, p->nth, toolName[p->tool], p->pid); }

static void nextEdge(Proc* p)
{
    u64 n = K->edgeLimit;
    for (auto& e : K->edgeActs) { auto& v = e.second; if (!v.empty() && v[0].job == p->job && v[0].nth == p->nth && v[0].at > p->edges && v[0].at < n) n = v[0].at; }
    p->edgeNext = n;
}

// ---------------------------------------------------------------- ending
static void closeFd(Proc* p, int fd)
{
    auto it = p->fds.find(fd); if (it == p->fds.end()) return;
    K->ofds[it->second].refs--; p->fds.erase(it);
}
static Proc* byPid(int pid) { for (Proc* p : K->procs) if (p->pid == pid && p->state != P_GONE) return p; return nullptr; }
static void finish(Proc* p, int status)
{
    p->status = status;
    p->openAtExit = 0; for (auto& f : p->fds) if (f.first > 2) p->openAtExit++;
    if (p->slot->owner == p && !p->crashed) { p->liveAtExit = p->slot->live(); p->smashed = p->slot->heapCheck() != 0; }
    while (!p->fds.empty()) closeFd(p, p->fds.begin()->first);
    p->slot->users--; if (p->slot->owner == p) p->slot->owner = nullptr;
    for (Proc* c : K->procs) if (c->ppid == p->pid && c->state != P_GONE && c != p) { c->ppid = 1; c->parentGone = true; if (c->state == P_ZOMBIE) c->state = P_GONE; p->unreaped++; }
    note("%s ends with status %#x", pname(p).c_str(), status);
    Job& j = K->jobs[p->job];
    if (p->pid == j.pid && p->nth == 0) { j.done = true; j.status = status; }
    if (p->ppid == 1) p->state = P_GONE;
    else {
        p->state = P_ZOMBIE;
        Proc* q = byPid(p->ppid); if (q && q->state == P_WAIT) q->state = P_READY;
    }
    K->edgesRun += p->edges;
}
static void die(int sig) __attribute__((noreturn));
static void die(int sig) { Proc* p = K->cur; p->crashed = true; finish(p, sig & 127); sim_switch(&p->sp, K->sched); abort(); }

// ---------------------------------------------------------------- signals
static void post(Proc* p, int sig)
{
    if (p->state == P_ZOMBIE || p->state == P_GONE) return;
    if (p->disp[sig].h == (void*)1 && sig != SIGKILL) { note("%s ignores signal %d", pname(p).c_str(), sig); return; }
    if (!p->disp[sig].h && (sig == SIGCHLD || sig == SIGCONT || sig == SIGWINCH)) return;
    p->pending |= 1u << sig; p->everSignalled = true;
    if (p->state == P_WAIT) p->state = P_READY;
}
static bool g_interrupted;
static void deliver()
{
    Proc* p = K->cur; g_interrupted = false;
    bool intr = false;
    while (p->pending & ~p->mask) {
        int s = __builtin_ctz(p->pending & ~p->mask);
        p->pending &= ~(1u << s);
        Disp d = p->disp[s];
        if (s == SIGKILL || !d.h) { note("%s dies of signal %d", pname(p).c_str(), s); die(s); }
        if (d.h == (void*)1) continue;
        K->sigDelivered++; note("%s runs its handler for signal %d", pname(p).c_str(), s);
        u32 old = p->mask; p->mask |= 1u << s; p->got[s] = true;
        int e = p->err; errno = e;
        ((void (*)(int))d.h)(s);
        p = K->cur; p->err = e; p->mask = old;
        if (!d.restart) intr = true;
    }
    g_interrupted = intr;
}
static void doSig(Proc* p, const Act& a)
{
    K->faults[A_SIG]++; K->fired++;
    if (a.b == 0) post(p, a.a);
    else if (a.b == 1) { for (Proc* q : K->procs) if (q->job == p->job) post(q, a.a); }
    else { for (Proc* q : K->procs) if (q->job == p->job && q->nth == 0) post(q, a.a); }
    note("signal %d to %s of job %d at %s %llu", a.a, a.b == 0 ? "the current process" : a.b == 1 ? "all processes" : "the first process", p->job, a.edge ? "edge" : "call", (unsigned long long)a.at);
}
static void edgeEvent()
{
    Proc* p = K->cur;
    if (p->edges >= K->edgeLimit) { if (K->hang.empty()) K->hang = pname(p) + " does not end (edge limit)"; die(SIGXCPU); }
    auto it = K->edgeActs.find(actKey(p->job, p->nth, p->edges));
    nextEdge(p);
    if (it == K->edgeActs.end()) return;
    int e = errno; p->err = e;
    for (auto& a : it->second) {
        if (a.kind == A_SIG) doSig(p, a);
        else if (a.kind == A_SWITCH) { K->switchTo = a.a; K->faults[A_SWITCH]++; K->fired++; toSched(); }
        else if (a.kind == A_KILL) { K->faults[A_KILL]++; K->fired++; die(SIGKILL); }
    }
    deliver();
    errno = e;
}

// ---------------------------------------------------------------- events
struct Inj { int fail = 0; int shorten = -1; };
static Inj event(int op, const char* path = nullptr, int ino = -1, bool filey = true)
{
    Proc* p = K->cur; p->err = errno;
    u64 at = p->ops++; K->totalOps++;
    if (K->recording) K->rec[{ p->job, p->nth }].push_back({ (u8)op, filey });
    if (p->ops > K->opLimit) { if (K->hang.empty()) K->hang = pname(p) + " does not end (system call limit)"; die(SIGXCPU); }
    Inj r;
    auto it = K->acts.find(actKey(p->job, p->nth, at));
    if (it != K->acts.end()) {
        for (auto& a : it->second) {
            switch (a.kind) {
            case A_SWITCH: K->switchTo = a.a; K->faults[A_SWITCH]++; K->fired++; toSched(); p = K->cur; break;
            case A_FAIL: if (op != O_EXIT) { r.fail = a.a; K->faults[A_FAIL]++; K->faultOps[op]++; K->fired++; note("%s: %s(%s) fails with %s (call %llu)", pname(p).c_str(), kopName[op], path ? path : "", strerror(a.a), (unsigned long long)at); } break;
            case A_SHORT: if (op == O_READ || op == O_WRITE) { r.shorten = a.a; K->faults[A_SHORT]++; K->faultOps[op]++; K->fired++; note("%s: short %s (call %llu)", pname(p).c_str(), kopName[op], (unsigned long long)at); } break;
            case A_SIG: doSig(p, a); break;
            case A_KILL: K->faults[A_KILL]++; K->fired++; note("%s is killed at call %llu (%s)", pname(p).c_str(), (unsigned long long)at, kopName[op]); die(SIGKILL);
            case A_CLOCK: K->clock += a.a; K->faults[A_CLOCK]++; K->fired++; note("clock moves by %d s", a.a); break;
            case A_FULL: K->fs.spare = a.a; K->faults[A_FULL]++; K->fired++; note("disk full but for %d bytes from call %llu of %s", a.a, (unsigned long long)at, pname(p).c_str()); break;
            case A_MEM: p->memOut = true; K->faults[A_MEM]++; K->fired++; note("no memory from call %llu of %s", (unsigned long long)at, pname(p).c_str()); break;
            case A_CRASH: K->crashed = true; K->stop = true; K->faults[A_CRASH]++; K->fired++; note("power loss at call %llu of %s", (unsigned long long)at, pname(p).c_str()); sim_switch(&p->sp, K->sched); abort();
            case A_IOERR: if (ino >= 0) p->ioErrIno = ino; r.fail = EIO; K->faults[A_IOERR]++; K->faultOps[op]++; K->fired++; note("%s: %s(%s) and all later accesses to the file fail (call %llu)", pname(p).c_str(), kopName[op], path ? path : "", (unsigned long long)at); break;
            case A_TRUNC: if (ino >= 0 && !K->fs.ino[ino].dir) { auto& d = K->fs.ino[ino].data; d.resize(d.size() * (size_t)a.a / 1000); K->faults[A_TRUNC]++; K->fired++; note("%s: the file shrinks to %zu bytes (call %llu)", pname(p).c_str(), d.size(), (unsigned long long)at); } break;
            }
        }
    }
    if (ino >= 0 && ino == p->ioErrIno && (op == O_READ || op == O_WRITE)) r.fail = EIO;
    if (p->pending & ~p->mask) deliver();
    if (K->clock && (at & 15) == 0) { K->usec += 137; if (K->usec >= 1000000) { K->usec -= 1000000; K->clock++; } }
    K->fs.now = K->clock;
    return r;
}
static long leave(int op, const std::string& path, long res)
{
    Proc* p = K->cur;
    thash((u64)p->job << 40 | (u64)p->nth << 32 | (u64)op << 24); thash((u64)res);
    if (!path.empty()) thash(hash_bytes(path.data(), path.size()));
    if (K->keepEvs) K->evs.push_back({ p, op, path, res, p->pid, p->job, p->nth, p->tool, p->ops - 1 });
    if (K->keepTrace) note("%s #%llu %s%s%s = %ld", pname(p).c_str(), (unsigned long long)p->ops - 1, kopName[op], path.empty() ? "" : " ", path.c_str(), res);
    errno = p->err;
    return res;
}
static std::string absPath(Proc* p, const char* path)
{
    std::string s = path[0] == '/' ? path : p->cwd + "/" + path, o; std::vector<std::string> c;
    size_t i = 0; while (i < s.size()) { size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string e = s.substr(i, j - i); if (e == "..") { if (!c.empty()) c.pop_back(); } else if (!e.empty() && e != ".") c.push_back(e); i = j + 1; }
    for (auto& e : c) o += "/" + e;
    return o.empty() ? "/" : o;
}
static int newFd(Proc* p, int ofd) { int fd = 0; while (p->fds.count(fd)) fd++; p->fds[fd] = ofd; return fd; }
static Ofd* ofdOf(Proc* p, int fd) { auto it = p->fds.find(fd); return it == p->fds.end() ? nullptr : &K->ofds[it->second]; }

extern "C" {
long k_open(const char* path, int flags, int mode)
{
    Proc* p = K->cur; std::string ap = absPath(p, path); int op = flags & (O_CREAT | O_TRUNC) ? O_CREATE : O_OPEN;
    int e, par; std::string last; int n = K->fs.resolve(p->cwd, path, &par, &last, &e);
    Inj j = event(op, path, n); p = K->cur;
    n = K->fs.resolve(p->cwd, path, &par, &last, &e);
    if (j.fail) return leave(op, ap, -j.fail);
    if (n < 0) {
        if (e != ENOENT || par < 0 || !(flags & O_CREAT)) return leave(op, ap, -e);
        if (!(K->fs.ino[par].mode & 0200)) return leave(op, ap, -EACCES);
        if (K->fs.spare == 0) return leave(op, ap, -ENOSPC);
        n = K->fs.mknode(par, last, false, (u32)mode & 0777);
    } else {
        Inode& in = K->fs.ino[n];
        if (flags & O_EXCL && flags & O_CREAT) return leave(op, ap, -EEXIST);
        if (in.dir && ((flags & 3) != O_RDONLY || flags & O_CREAT)) return leave(op, ap, -EISDIR);
        if ((flags & 3) != O_WRONLY && !(in.mode & 0400)) return leave(op, ap, -EACCES);
        if ((flags & 3) != O_RDONLY && !(in.mode & 0200)) return leave(op, ap, -EACCES);
        if (flags & O_TRUNC && !in.dir) { in.data.clear(); in.mtime = K->fs.now; K->fs.jr(JEnt::TRUNC, -1, n, "", 0); }
    }
    K->ofds.push_back({}); K->ofds.back().ino = n; K->ofds.back().flags = flags;
    return leave(op, ap, newFd(p, (int)K->ofds.size() - 1));
}
long k_close(int fd)
{
    Ofd* o = ofdOf(K->cur, fd); Inj j = event(O_CLOSE, nullptr, o ? o->ino : -1, o && !K->fs.ino[o->ino].tty && (o->flags & 3) != O_RDONLY); Proc* p = K->cur;
    if (!p->fds.count(fd)) return leave(O_CLOSE, "", -EBADF);
    closeFd(p, fd);
    return leave(O_CLOSE, "", j.fail ? -j.fail : 0);
}
long k_read(int fd, void* b, size_t n)
{
    Ofd* o = ofdOf(K->cur, fd); Inj j = event(O_READ, nullptr, o ? o->ino : -1, o && !K->fs.ino[o->ino].tty); Proc* p = K->cur; o = ofdOf(p, fd);
    if (!o || (o->flags & 3) == O_WRONLY) return leave(O_READ, "", -EBADF);
    if (j.fail) return leave(O_READ, "", -j.fail);
    Inode& in = K->fs.ino[o->ino];
    if (in.dir) return leave(O_READ, "", -EISDIR);
    size_t have = o->off < in.data.size() ? in.data.size() - o->off : 0;
    if (n > have) n = have;
    if (j.shorten >= 0 && n) { size_t m = n * (size_t)j.shorten / 1000; n = m ? m : 1; }
    memcpy(b, in.data.data() + o->off, n); o->off += n;
    thash(hash_bytes(b, n));
    return leave(O_READ, "", (long)n);
}
long k_write(int fd, const void* b, size_t n)
{
    Ofd* o = ofdOf(K->cur, fd); Inj j = event(O_WRITE, nullptr, o ? o->ino : -1, o && !K->fs.ino[o->ino].tty); Proc* p = K->cur; o = ofdOf(p, fd);
    if (!o || (o->flags & 3) == O_RDONLY) return leave(O_WRITE, "", -EBADF);
    if (j.fail) return leave(O_WRITE, "", -j.fail);
    Inode& in = K->fs.ino[o->ino];
    if (j.shorten >= 0 && n) { size_t m = n * (size_t)j.shorten / 1000; n = m ? m : 1; }
    if (!in.tty && K->fs.spare >= 0) { if ((i64)n > K->fs.spare) n = (size_t)K->fs.spare; K->fs.spare -= (i64)n; if (!n) return leave(O_WRITE, "", -ENOSPC); }
    if (o->flags & O_APPEND || in.tty) o->off = in.data.size();
    if (o->off + n > (64u << 20)) return leave(O_WRITE, "", -EFBIG);
    if (o->off + n > in.data.size()) in.data.resize(o->off + n);
    memcpy(&in.data[0] + o->off, b, n);
    if (!in.tty) K->fs.jr(JEnt::WRITE, -1, o->ino, "", o->off, std::string((const char*)b, n));
    o->off += n; in.mtime = K->fs.now; in.writer |= 1ull << p->job;
    thash(hash_bytes(b, n));
    return leave(O_WRITE, "", (long)n);
}
long k_lseek(int fd, long off, int w)
{
    Ofd* o = ofdOf(K->cur, fd); Inj j = event(O_LSEEK, nullptr, o ? o->ino : -1, o && !K->fs.ino[o->ino].tty); Proc* p = K->cur; o = ofdOf(p, fd);
    if (!o) return leave(O_LSEEK, "", -EBADF);
    if (j.fail) return leave(O_LSEEK, "", -j.fail);
    i64 base = w == 0 ? 0 : w == 1 ? (i64)o->off : (i64)K->fs.ino[o->ino].data.size();
    if (base + off < 0) return leave(O_LSEEK, "", -EINVAL);
    o->off = (u64)(base + off);
    return leave(O_LSEEK, "", (long)o->off);
}
static void unlinkEnt(int par, const std::string& last, int n) { K->fs.ino[par].ents.erase(last); K->fs.jr(JEnt::UNLINK, par, n, last); }
long k_unlink(const char* path)
{
    std::string ap = absPath(K->cur, path); Inj j = event(O_UNLINK, path); Proc* p = K->cur; int e, par; std::string last;
    if (j.fail) return leave(O_UNLINK, ap, -j.fail);
    int n = K->fs.resolve(p->cwd, path, &par, &last, &e);
    if (n < 0) return leave(O_UNLINK, ap, -e);
    if (K->fs.ino[n].dir) return leave(O_UNLINK, ap, -EISDIR);
    if (!(K->fs.ino[par].mode & 0200)) return leave(O_UNLINK, ap, -EACCES);
    unlinkEnt(par, last, n);
    return leave(O_UNLINK, ap, 0);
}
long k_rmdir(const char* path)
{
    std::string ap = absPath(K->cur, path); Inj j = event(O_UNLINK, path); Proc* p = K->cur; int e, par; std::string last;
    if (j.fail) return leave(O_UNLINK, ap, -j.fail);
    int n = K->fs.resolve(p->cwd, path, &par, &last, &e);
    if (n < 0) return leave(O_UNLINK, ap, -e);
    if (!K->fs.ino[n].dir) return leave(O_UNLINK, ap, -ENOTDIR);
    if (par < 0 || !K->fs.ino[n].ents.empty()) return leave(O_UNLINK, ap, -ENOTEMPTY);
    unlinkEnt(par, last, n);
    return leave(O_UNLINK, ap, 0);
}
long k_rename(const char* a, const char* b)
{
    std::string ap = absPath(K->cur, a), bp = absPath(K->cur, b); Inj j = event(O_RENAME, a); Proc* p = K->cur; int e, pa, pb; std::string la, lb;
    if (j.fail) return leave(O_RENAME, bp, -j.fail);
    int n = K->fs.resolve(p->cwd, a, &pa, &la, &e); if (n < 0) return leave(O_RENAME, bp, -e);
    int m = K->fs.resolve(p->cwd, b, &pb, &lb, &e);
    if (m < 0 && (e != ENOENT || pb < 0)) return leave(O_RENAME, bp, -e);
    if (m >= 0 && K->fs.ino[m].dir) return leave(O_RENAME, bp, -EISDIR);
    if (m == n) return leave(O_RENAME, bp, 0);
    K->fs.ino[pa].ents.erase(la); K->fs.ino[pb].ents[lb] = n;
    K->fs.jr(JEnt::LINK, pb, n, lb); if (K->fs.journalOn) { JEnt u{ JEnt::UNLINK, pa, n, la, 1, "" }; K->fs.journal.push_back(u); } // off 1: same instant as the entry before
    return leave(O_RENAME, bp, 0);
}
long k_mkdir(const char* path, int mode)
{
    std::string ap = absPath(K->cur, path); Inj j = event(O_MKDIR, path); Proc* p = K->cur; int e, par; std::string last;
    if (j.fail) return leave(O_MKDIR, ap, -j.fail);
    int n = K->fs.resolve(p->cwd, path, &par, &last, &e);
    if (n >= 0) return leave(O_MKDIR, ap, -EEXIST);
    if (e != ENOENT || par < 0) return leave(O_MKDIR, ap, -e);
    K->fs.mknode(par, last, true, (u32)mode & 0777 & ~022u);
    return leave(O_MKDIR, ap, 0);
}
static void statOf(int n, long* v) { Inode& in = K->fs.ino[n]; v[0] = n + 1; v[1] = (long)in.mode | (in.dir ? 0040000 : in.tty ? 0020000 : 0100000); v[2] = (long)in.data.size(); v[3] = in.mtime; }
long k_stat(const char* path, long* v)
{
    std::string ap = absPath(K->cur, path); Inj j = event(O_STAT, path); Proc* p = K->cur; int e;
    if (j.fail) return leave(O_STAT, ap, -j.fail);
    int n = K->fs.resolve(p->cwd, path, nullptr, nullptr, &e); if (n < 0) return leave(O_STAT, ap, -e);
    statOf(n, v); return leave(O_STAT, ap, 0);
}
long k_fstat(int fd, long* v) { Inj j = event(O_STAT); Ofd* o = ofdOf(K->cur, fd); if (j.fail) return leave(O_STAT, "", -j.fail); if (!o) return leave(O_STAT, "", -EBADF); statOf(o->ino, v); return leave(O_STAT, "", 0); }
long k_access(const char* path, int m)
{
    std::string ap = absPath(K->cur, path); Inj j = event(O_ACCESS, path); Proc* p = K->cur; int e;
    if (j.fail) return leave(O_ACCESS, ap, -j.fail);
    int n = K->fs.resolve(p->cwd, path, nullptr, nullptr, &e); if (n < 0) return leave(O_ACCESS, ap, -e);
    if (((u32)m << 6 & K->fs.ino[n].mode) != ((u32)m << 6)) return leave(O_ACCESS, ap, -EACCES);
    return leave(O_ACCESS, ap, 0);
}
long k_dup(int fd) { Inj j = event(O_DUP); Proc* p = K->cur; if (!p->fds.count(fd)) return leave(O_DUP, "", -EBADF); if (j.fail) return leave(O_DUP, "", -j.fail); K->ofds[p->fds[fd]].refs++; return leave(O_DUP, "", newFd(p, p->fds[fd])); }
long k_dup2(int a, int b)
{
    Inj j = event(O_DUP); Proc* p = K->cur;
    if (!p->fds.count(a)) return leave(O_DUP, "", -EBADF);
    if (j.fail) return leave(O_DUP, "", -j.fail);
    if (a != b) { int o = p->fds[a]; K->ofds[o].refs++; closeFd(p, b); p->fds[b] = o; }
    return leave(O_DUP, "", b);
}
long k_ftruncate(int fd, long n)
{
    Inj j = event(O_FTRUNC); Proc* p = K->cur; Ofd* o = ofdOf(p, fd);
    if (!o) return leave(O_FTRUNC, "", -EBADF);
    if (j.fail) return leave(O_FTRUNC, "", -j.fail);
    K->fs.ino[o->ino].data.resize((size_t)n); K->fs.jr(JEnt::TRUNC, -1, o->ino, "", (u64)n);
    return leave(O_FTRUNC, "", 0);
}
long k_fsync(int fd) { Inj j = event(O_MISC); if (j.fail) return leave(O_MISC, "", -j.fail); (void)fd; return leave(O_MISC, "", 0); }
long k_isatty(int) { return 0; }
long k_pipe(int*) { event(O_MISC); return leave(O_MISC, "", -EMFILE); }
long k_getcwd(char* b, size_t n) { Inj j = event(O_MISC, nullptr, -1, false); Proc* p = K->cur; (void)j; if (p->cwd.size() + 1 > n) return leave(O_MISC, "", -ERANGE); memcpy(b, p->cwd.c_str(), p->cwd.size() + 1); return leave(O_MISC, "", (long)p->cwd.size() + 1); }
long k_chdir(const char* path) { event(O_MISC, nullptr, -1, false); Proc* p = K->cur; int e; int n = K->fs.resolve(p->cwd, path, nullptr, nullptr, &e); if (n < 0) return leave(O_MISC, "", -e); if (!K->fs.ino[n].dir) return leave(O_MISC, "", -ENOTDIR); p->cwd = absPath(p, path); return leave(O_MISC, "", 0); }
const char* k_getenv(const char* n) { Proc* p = K->cur; auto it = p->env.find(n); return it == p->env.end() ? nullptr : it->second.c_str(); }
int k_alloc(size_t n) { Inj j = event(O_ALLOC); Proc* p = K->cur; int r = j.fail || p->memOut || n > (40u << 20); leave(O_ALLOC, "", r); return r; }
void k_freed(size_t) {}
long k_getpid(void) { event(O_MISC, nullptr, -1, false); return leave(O_MISC, "", K->cur->pid); }
long k_getppid(void) { event(O_MISC, nullptr, -1, false); return leave(O_MISC, "", K->cur->ppid); }
long k_time(long* us) { event(O_TIME, nullptr, -1, false); if (us) *us = (long)K->usec; errno = K->cur->err; return K->clock; }
long k_signal(int s, void* h, int restart)
{
    event(O_SIGNAL, nullptr, -1, false); Proc* p = K->cur;
    if (s < 1 || s > 31 || ((s == SIGKILL || s == SIGSTOP) && h != (void*)-3)) return leave(O_SIGNAL, "", -EINVAL);
    void* o = p->disp[s].h;
    if (h != (void*)-3) { p->disp[s].h = h; p->disp[s].restart = restart; }
    leave(O_SIGNAL, "", s);
    return (long)o;
}
long k_sigmask(int how, unsigned long m, unsigned long* old)
{
    event(O_SIGNAL, nullptr, -1, false); Proc* p = K->cur; if (old) *old = (unsigned long)(p->mask >> 1); u32 b = (u32)(m << 1) & ~(1u << SIGKILL);
    if (how == 0) p->mask |= b; else if (how == 1) p->mask &= ~b; else if (how == 2) p->mask = b;
    if (p->pending & ~p->mask) deliver();
    return leave(O_SIGNAL, "", 0);
}
long k_kill(int pid, int sig)
{
    event(O_KILL, nullptr, -1, false); Proc* p = K->cur;
    if (sig < 0 || sig > 31) return leave(O_KILL, "", -EINVAL);
    if (pid == 0 || pid == -1 || pid < -1) { for (Proc* q : K->procs) if (q->job == p->job) post(q, sig); if (p->pending & ~p->mask) deliver(); return leave(O_KILL, "", 0); }
    Proc* q = byPid(pid); if (!q) return leave(O_KILL, "", -ESRCH);
    if (sig) post(q, sig);
    if (p->pending & ~p->mask) deliver();
    return leave(O_KILL, "", 0);
}
void k_raise_abort(void) { note("%s aborts", pname(K->cur).c_str()); die(SIGABRT); }
void* k_scratch(size_t n) { Slot* s = K->cur->slot; if (s->scratch.size() < n) s->scratch.resize(n * 2); return &s->scratch[0]; }
void k_exit(int st)
{
    event(O_EXIT, nullptr, -1, false); Proc* p = K->cur; p->normalExit = true;
    leave(O_EXIT, "", st & 255);
    finish(p, (st & 255) << 8);
    sim_switch(&p->sp, K->sched); abort();
}
long k_wait(int pid, int* st, int opt)
{
    event(O_WAIT, nullptr, -1, false);
    while (true) {
        Proc* p = K->cur; bool any = false;
        for (Proc* c : K->procs) {
            if (c->ppid != p->pid || c->state == P_GONE || (pid > 0 && c->pid != pid)) continue;
            any = true;
            if (c->state == P_ZOMBIE) { c->state = P_GONE; if (st) *st = c->status; return leave(O_WAIT, "", c->pid); }
        }
        if (!any) return leave(O_WAIT, "", -ECHILD);
        if (opt & 1) return leave(O_WAIT, "", 0);
        p->state = P_WAIT; toSched();
        if (K->cur->pending & ~K->cur->mask) { deliver(); if (g_interrupted) return leave(O_WAIT, "", -EINTR); }
    }
}
static int freshPid()
{
    for (int i = 0; i < 100000; i++) {
        int q = K->pidNext; K->pidCount++;
        if (K->pidStep > 0) K->pidNext += K->pidStep; // 0: each number continues the digits of the one before
        else K->pidNext = q < 400000 ? q * 10 + K->pidCount % 4 : K->pidLo + K->pidCount;
        if (K->pidNext > K->pidHi) K->pidNext = K->pidLo + (K->pidStep > 1 ? K->pidCount % K->pidStep : 0);
        if (byPid(q)) continue;
        if (!K->pidsUsed.insert(q).second) K->pidReuse++;
        return q;
    }
    fprintf(stderr, "no pid\n"); exit(3);
}
long k_fork(void)
{
    Inj j = event(O_FORK); Proc* p = K->cur;
    if (j.fail) return leave(O_FORK, "", -j.fail);
    p->forkReq = true; K->forks++;
    toSched(); // the scheduler copies the process
    p = K->cur;
    if (p->pending & ~p->mask) deliver();
    p = K->cur;
    return leave(O_FORK, "", p->forkRet);
}
static void startImage(Proc* p, Tool t, std::vector<std::string> argv);
long k_exec(const char* path, char* const* v)
{
    std::string ap = absPath(K->cur, path); Inj j = event(O_EXEC, path); Proc* p = K->cur; int e;
    if (j.fail) return leave(O_EXEC, ap, -j.fail);
    int n = K->fs.resolve(p->cwd, path, nullptr, nullptr, &e); if (n < 0) return leave(O_EXEC, ap, -e);
    if (!K->fs.ino[n].special || !(K->fs.ino[n].mode & 0100)) return leave(O_EXEC, ap, -EACCES);
    std::vector<std::string> argv; for (int i = 0; v[i]; i++) argv.push_back(v[i]);
    leave(O_EXEC, ap, 0);
    Tool t = (Tool)(K->fs.ino[n].data[0] - 'A');
    p->slot->users--; if (p->slot->owner == p) p->slot->owner = nullptr;
    p->execed = true;
    for (int s = 1; s < 32; s++) if (p->disp[s].h != (void*)1) p->disp[s] = Disp();
    startImage(p, t, argv);
    static void* nowhere; sim_switch(&nowhere, K->sched); // never returns: startImage has set the new stack
    abort();
}
static void procEntry()
{
    Proc* p = K->cur; Slot* s = p->slot;
    char** av = (char**)(s->stack + s->stackSize - 65536);
    errno = 0;
    if (p->pending & ~p->mask) deliver();
    int r = s->main_((int)p->argv.size(), av);
    K->cur->mainReturned = true; s->exit_(r);
    abort();
}
}
static void startImage(Proc* p, Tool t, std::vector<std::string> argv)
{
    Slot* s = nullptr; for (Slot* x : TS->s[t]) if (!x->users) { s = x; break; }
    if (!s) { fprintf(stderr, "no slot for %s\n", toolName[t]); exit(3); }
    s->users = 1; s->owner = p; p->slot = s; p->tool = t; p->swapped = false; p->argv = argv; p->state = P_READY; p->memOut = false; p->ioErrIno = -1;
    // pristine data, empty heap, filled stack
    u8* top0 = (u8*)s->heapTop(); if (top0 && top0 > s->heap + 65536) madvise(s->heap, s->heapSize, MADV_DONTNEED);
    memcpy((void*)s->obj.wlo, s->obj.pristine.data(), s->dataUsed);
    if (s->obj.whi - s->obj.wlo > s->dataUsed) {
        uintptr_t a = (s->obj.wlo + s->dataUsed + 4095) & ~(uintptr_t)4095, b = s->obj.whi & ~(uintptr_t)4095;
        if (b > a + (1 << 16)) { memset((void*)(s->obj.wlo + s->dataUsed), 0, a - (s->obj.wlo + s->dataUsed)); madvise((void*)a, b - a, MADV_DONTNEED); memset((void*)b, 0, s->obj.whi - b); }
        else memset((void*)(s->obj.wlo + s->dataUsed), 0, s->obj.whi - s->obj.wlo - s->dataUsed);
    }
    s->init((char*)s->heap, s->heapSize, K->poison);
    madvise(s->stack, s->stackSize - 65536 - 131072, MADV_DONTNEED); memset(s->stack + s->stackSize - 65536 - 131072, K->poison, 131072);
    char** av = (char**)(s->stack + s->stackSize - 65536); char* str = (char*)(av + argv.size() + 1); char* end = (char*)(s->stack + s->stackSize);
    for (size_t i = 0; i < argv.size(); i++) { size_t n = argv[i].size() + 1; if (str + n > end) { fprintf(stderr, "arguments too long\n"); exit(3); } memcpy(str, argv[i].c_str(), n); av[i] = str; str += n; }
    av[argv.size()] = nullptr;
    u64* top = (u64*)(s->stack + s->stackSize - 65536 - 64); top = (u64*)((uintptr_t)top & ~15ull);
    *--top = 0; *--top = (u64)(void*)procEntry; for (int i = 0; i < 6; i++) *--top = 0;
    p->sp = top;
    p->edges = 0; nextEdge(p);
}
static Proc* newProc(int job, int ppid)
{
    Proc* p = new Proc; p->pid = freshPid(); p->ppid = ppid; p->job = job; p->nth = K->nthOf[job]++; K->procs.push_back(p);
    return p;
}
static void swapIn(Proc* p)
{
    Slot* s = p->slot;
    if (s->owner == p) return;
    if (s->owner) { // save the other process that lives in this slot
        Proc* o = s->owner; o->img.data.assign((u8*)s->obj.wlo, (u8*)s->obj.whi);
        o->img.heap.assign(s->heap, (u8*)s->heapTop()); o->img.stackLo = (u8*)o->sp; o->img.stack.assign((u8*)o->sp, s->stack + s->stackSize); o->swapped = true;
    }
    if (p->swapped) {
        memcpy((void*)s->obj.wlo, p->img.data.data(), p->img.data.size()); memcpy(s->heap, p->img.heap.data(), p->img.heap.size());
        memcpy(p->img.stackLo, p->img.stack.data(), p->img.stack.size()); p->swapped = false;
        p->img = ProcImg();
    }
    s->owner = p;
}
static void doFork(Proc* p)
{
    p->forkReq = false; swapIn(p);
    Proc* c = new Proc(*p); // everything but identity
    c->pid = freshPid(); c->ppid = p->pid; c->nth = K->nthOf[p->job]++; c->ops = 0; c->edges = 0; c->pending = 0; c->unreaped = 0; c->everSignalled = false; K->procs.push_back(c);
    for (auto& f : c->fds) K->ofds[f.second].refs++;
    Slot* s = p->slot; s->users++;
    c->img.data.assign((u8*)s->obj.wlo, (u8*)s->obj.whi); c->img.heap.assign(s->heap, (u8*)s->heapTop()); c->img.stackLo = (u8*)p->sp; c->img.stack.assign((u8*)p->sp, s->stack + s->stackSize); c->swapped = true;
    c->forkRet = 0; p->forkRet = c->pid; c->memOut = false; memset(c->got, 0, sizeof c->got); nextEdge(c);
    note("%s forks %d", pname(p).c_str(), c->pid);
}

// ---------------------------------------------------------------- running jobs
static u8 faultStk[1 << 16] __attribute__((aligned(16))); static u8 altStk[1 << 16];
static int faultSig;
static void onFault2() { die(faultSig); }
static void onSignal(int sig, siginfo_t* si, void* uc_)
{
    ucontext_t* uc = (ucontext_t*)uc_; uintptr_t ip = (uintptr_t)uc->uc_mcontext.gregs[REG_RIP];
    Proc* p = K ? K->cur : nullptr;
    if (!p) { signal(sig, SIG_DFL); raise(sig); return; }
    Slot* s = p->slot; bool inTool = ip >= s->obj.lo && ip < s->obj.hi;
    uintptr_t a = (uintptr_t)si->si_addr;
    // inside the C library on behalf of the tool (strcpy and friends), or a wild jump: also the tool's fault
    note("%s: fatal signal %d at %p, address %p%s", pname(p).c_str(), sig, (void*)ip, (void*)a, inTool ? "" : " (library)");
    faultSig = sig;
    uc->uc_mcontext.gregs[REG_RIP] = (greg_t)(void*)onFault2; uc->uc_mcontext.gregs[REG_RSP] = (greg_t)((uintptr_t)(faultStk + sizeof faultStk) - 64 - 8);
}
static void startJob(int j)
{
    Job& J = K->jobs[j]; J.started = true;
    Proc* p = newProc(j, 1); J.pid = p->pid; p->cwd = J.cwd; p->env = J.env;
    for (int s = 1; s < 32; s++) if (J.ignored >> s & 1) p->disp[s].h = (void*)1;
    int* ids[3] = { &J.inIno, &J.outIno, &J.errIno };
    for (int i = 0; i < 3; i++) { K->fs.ino.emplace_back(); *ids[i] = (int)K->fs.ino.size() - 1; K->fs.ino.back().tty = true; if (i == 0) K->fs.ino.back().data = J.in; if (i == 1 && J.closedOut) continue; if (i == 1 && !J.outPath.empty()) { K->fs.put(J.outPath, ""); *ids[i] = K->fs.lookup(J.outPath); } K->ofds.push_back({}); K->ofds.back().ino = *ids[i]; K->ofds.back().flags = i ? O_WRONLY : O_RDONLY; p->fds[i] = (int)K->ofds.size() - 1; }
    startImage(p, J.tool, J.argv);
    note("start %s: %s", pname(p).c_str(), [&] { std::string s; for (auto& a : J.argv) s += a + " "; return s; }().c_str());
}
// runs all jobs that are not done; returns when every process has ended (or the power went out)
static void runJobs()
{
    K->stop = false;
    for (size_t j = 0; j < K->jobs.size(); j++) if (!K->jobs[j].started && K->jobs[j].startAfter < 0) startJob((int)j);
    Proc* last = nullptr;
    while (!K->stop) {
        for (size_t j = 0; j < K->jobs.size(); j++) if (!K->jobs[j].started && K->jobs[j].startAfter >= 0 && K->jobs[K->jobs[j].startAfter].done) startJob((int)j);
        std::vector<Proc*> ready; for (Proc* p : K->procs) if (p->state == P_READY) ready.push_back(p);
        K->maxProcs = std::max<u64>(K->maxProcs, ready.size());
        if (ready.empty()) {
            bool waiting = false; for (Proc* p : K->procs) waiting |= p->state == P_WAIT;
            if (waiting && K->hang.empty()) K->hang = "a process waits for ever";
            break;
        }
        Proc* n = nullptr;
        if (K->switchTo >= 0) n = ready[(size_t)K->switchTo % ready.size()];
        else { for (Proc* p : ready) if (p == last) n = p; if (!n) n = ready.back(); }
        K->switchTo = -1;
        if (n != last) { K->switches++; K->sh = mix(K->sh, (u64)n->job << 40 | (u64)n->nth << 32 | (last ? last->ops : 0)); note("-> %s", pname(n).c_str()); }
        last = n;
        swapIn(n);
        K->cur = n; errno = n->err;
        sim_switch(&K->sched, n->sp);
        Proc* was = K->cur; K->cur = nullptr;
        if (was->forkReq) doFork(was);
    }
    for (Proc* p : K->procs) if (p->state == P_READY || p->state == P_WAIT) { p->slot->users--; if (p->slot->owner == p) p->slot->owner = nullptr; p->state = P_GONE; }
}
static void setPlan(const std::vector<Act>& plan)
{
    K->acts.clear(); K->edgeActs.clear();
    for (auto& a : plan) (a.edge ? K->edgeActs : K->acts)[actKey(a.job, a.nth, a.at)].push_back(a);
}
static void freeProcs() { for (Proc* p : K->procs) delete p; K->procs.clear(); }

// ---------------------------------------------------------------- loading
static bool loadTools(const std::string& dir, const std::string& flav)
{
    ToolSet* ts = new ToolSet; ts->name = flav; toolsets.push_back(ts);
    for (int t = 0; t < NTOOL; t++) for (int k = 0; k < slotsPerTool[t]; k++) {
        Slot* s = new Slot; s->tool = (Tool)t; loadingTool = flav + toolName[t];
        if (!s->obj.load(strf("%s/%s_%s.%d.so", dir.c_str(), toolName[t], flav.c_str(), k))) return false;
        s->main_ = (int (*)(int, char**))s->obj.sym("sim_tool_main"); s->exit_ = (void (*)(int))s->obj.sym("sim_exit"); s->init = (void (*)(char*, size_t, unsigned char))s->obj.sym("sim_tlibc_init");
        s->heapTop = (char* (*)(void))s->obj.sym("sim_heap_top"); s->live = (long (*)(void))s->obj.sym("sim_heap_live"); s->heapCheck = (int (*)(void))s->obj.sym("sim_heap_check");
        if (!s->main_ || !s->exit_ || !s->init || !s->heapTop || !s->live || !s->heapCheck) { fprintf(stderr, "%s: symbols missing\n", s->obj.path.c_str()); return false; }
        size_t n = s->obj.pristine.size(); while (n && !s->obj.pristine[n - 1]) n--;
        n = std::min((n + 4095) & ~(size_t)4095, s->obj.pristine.size()); s->dataUsed = n; s->obj.pristine.resize(n); s->obj.pristine.shrink_to_fit();
        s->heapSize = 96u << 20; s->heap = (u8*)mmap(nullptr, s->heapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        s->stackSize = (2u << 20); u8* st = (u8*)mmap(nullptr, s->stackSize + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (s->heap == MAP_FAILED || st == MAP_FAILED) return false;
        mprotect(st, 65536, PROT_NONE); s->stack = st + 65536;
        slots.push_back(s); ts->s[t].push_back(s);
    }
    return true;
}
