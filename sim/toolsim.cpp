// Simulator for the tools: q3cpp, q3rcc, lcc, q3asm and q3vm run as processes on a simulated
// kernel (tkernel.h, tlibc.c). A run draws a scenario, executes it without faults, checks the
// result against the reference, then executes it again under a number of fault plans.
#define SIM_MAIN
#include <sstream>
#include "core.h"
#include "tkernel.h"
#include "imagegen.h"
#include "asmref.h"
#include "cgen.h"
#include "cppref.h"

static Streams S; static Violation viol; static u64 lastHash; static bool verbose;
static std::unordered_set<u64> traceHashes, schedHashes, stateHashes;
static bool replaying; static std::vector<Act> fixedPlan; static std::vector<Act> failPlan; static std::vector<std::string> failTrace; static std::string scenarioNote;
static struct { u64 runs = 0, execs = 0, procs = 0, calls = 0, edges = 0, switches = 0, simSeconds = 0, forks = 0, plansOk = 0, plansFailed = 0, plansUntouched = 0, signalsHandled = 0, pidReuse = 0, crashes = 0, kills = 0, images = 0, programs = 0, sourceErrors = 0, unmodelled = 0, asmFiles = 0, asmErrors = 0, asmUnsure = 0, lines = 0, relinks = 0, maxProcs = 0, skipped = 0, programSteps = 0, linkedInstructions = 0, flavourPairs = 0; u64 f[NACT] = {}, fo[NKOP] = {}; } st;

static void setViol(const std::string& kind, const std::string& detail) { if (!viol.set()) { viol.kind = kind; viol.detail = detail.substr(0, 1500); } }

// ------------------------------------------------------------------ worlds
struct World { Fs fs; std::vector<Job> jobs; int pidNext = 100, pidLo = 100, pidHi = 32000, pidStep = 1; i64 clock = 1700000000; bool journal = false, keepEvs = false; u8 poison = 0xA5; int ts = 0; };
static std::vector<Kernel*> kernels;
static void freeKernels() { for (Kernel* k : kernels) { for (Proc* p : k->procs) delete p; delete k; } kernels.clear(); K = nullptr; }
static World baseWorld(Stream& s)
{
    World w; for (const char* d : { "/w", "/tmp", "/bin" }) w.fs.mkdirs(d);
    for (int t = 0; t < NTOOL; t++) { w.fs.put(toolPath[t], std::string(1, (char)('A' + t)), 0755); w.fs.ino[w.fs.lookup(toolPath[t])].special = true; }
    w.pidNext = w.pidLo = 100 + (int)s.choose(3000); w.clock = 1700000000 + (i64)s.choose(100000000); w.poison = (u8)s.choose(256);
    return w;
}
static Job mkJob(Tool t, std::vector<std::string> args) { Job j; j.tool = t; args.insert(args.begin(), toolPath[t]); j.argv = args; return j; }
static bool wantTrace; std::vector<std::string> showTrace;
static int cur_ts;
static void dumpWorld(Kernel* k, const char* dir) // for a person at work on a failure: the files and streams of the last execution
{
    for (auto& fe : k->fs.files()) { const std::string& f = fe.first; std::string n = f; for (char& c : n) if (c == '/') c = '_'; if (FILE* o = fopen((std::string(dir) + "/" + n).c_str(), "wb")) { std::string d = k->fs.get(f); fwrite(d.data(), 1, d.size(), o); fclose(o); } }
    for (size_t j = 0; j < k->jobs.size(); j++) { auto& J = k->jobs[j]; if (FILE* o = fopen(strf("%s/job%zu", dir, j).c_str(), "wb")) { for (auto& a : J.argv) fprintf(o, "%s ", a.c_str()); fprintf(o, "\nstatus %d\n", J.status); if (J.outIno >= 0) fprintf(o, "--- out\n%s\n", k->fs.ino[J.outIno].data.c_str()); if (J.errIno >= 0) fprintf(o, "--- err\n%s\n", k->fs.ino[J.errIno].data.c_str()); fclose(o); } }
}
static bool hangOk = false; // an exponential amount of work is what the source asks for
static Kernel* execute(const World& w, const std::vector<Act>& plan, bool rec = false)
{
    Kernel* k = new Kernel; kernels.push_back(k); K = k; TS = toolsets[w.ts]; cur_ts = w.ts;
    k->fs = w.fs; k->jobs = w.jobs; k->pidNext = w.pidNext; k->pidLo = w.pidLo; k->pidStep = w.pidStep; k->pidHi = w.pidHi; k->clock = w.clock; k->fs.now = w.clock; k->poison = w.poison; k->recording = rec; k->keepEvs = w.keepEvs; k->keepTrace = wantTrace;
    k->fs.journalOn = w.journal; k->fs.journal.clear();
    setPlan(plan); runJobs();
    st.execs++; st.procs += k->procs.size(); st.calls += k->totalOps; st.edges += k->edgesRun; st.switches += k->switches; st.simSeconds += (u64)std::max<i64>(0, k->clock - w.clock); st.forks += k->forks; st.signalsHandled += k->sigDelivered; st.pidReuse += k->pidReuse; st.maxProcs = std::max(st.maxProcs, k->maxProcs);
    for (int i = 0; i < NACT; i++) st.f[i] += k->faults[i];
    for (int i = 0; i < NKOP; i++) st.fo[i] += k->faultOps[i];
    lastHash = mix(lastHash, k->th); for (auto& j : k->jobs) lastHash = mix(lastHash, (u64)(u32)j.status);
    schedHashes.insert(mix(k->sh, k->switches)); traceHashes.insert(mix(k->th, k->sh));
    if (!k->hang.empty() && !hangOk) setViol("hang", k->hang);
    if (const char* d = getenv("TS_DUMP")) dumpWorld(k, d);
    if (wantTrace && !k->trace.empty() && (showTrace.empty() || !plan.empty())) { static int shown = 0; if (shown++ < 2) { for (auto& l : k->trace) showTrace.push_back(l); } }
    return k;
}
static std::string outOf(Kernel* k, int j) { int n = k->jobs[j].outIno; return n < 0 ? "" : k->fs.ino[n].data; }
static std::string errOf(Kernel* k, int j) { int n = k->jobs[j].errIno; return n < 0 ? "" : k->fs.ino[n].data; }
static bool ok0(Kernel* k, int j) { return k->jobs[j].done && k->jobs[j].status == 0; }
static std::string statusStr(int s) { return s < 0 ? "never ended" : s & 127 ? strf("died of signal %d", s & 127) : strf("status %d", s >> 8 & 255); }
static bool fatalSig(int s) { int g = s & 127; return g == SIGSEGV || g == SIGBUS || g == SIGFPE || g == SIGILL || g == SIGABRT || g == SIGTRAP; }
// a tool that dies of a memory fault or trap without any fault injected
static void noCrash(Kernel* k, const char* what) { for (Proc* p : k->procs) if (p->smashed) setViol("memory", strf("%s: %s of job %d wrote behind the end of a block of its heap", what, toolName[p->tool], p->job)); for (Proc* p : k->procs) if (p->crashed && fatalSig(p->status)) setViol("crash", strf("%s: %s of job %d died of signal %d without any injected fault", what, toolName[p->tool], p->job, p->status & 127)); }
static std::string firstDiff(const std::string& a, const std::string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; auto cut = [&](const std::string& s) { size_t from = i > 20 ? i - 20 : 0; return s.substr(from, 60); }; return strf("%zu and %zu bytes, first difference at %zu: ", a.size(), b.size(), i) + "\"" + cut(a) + "\" / \"" + cut(b) + "\""; }
static std::string str(const std::vector<u8>& v) { return std::string((const char*)v.data(), v.size()); }
static std::vector<u8> vec(const std::string& s) { return std::vector<u8>(s.begin(), s.end()); }

// ------------------------------------------------------------------ fault plans
struct PlanCfg { u64 ops = ~0ull; std::vector<int> tools; bool allowShortOnly = true; };
static const u64 FAULTABLE = 1ull << O_OPEN | 1ull << O_CREATE | 1ull << O_CLOSE | 1ull << O_READ | 1ull << O_WRITE | 1ull << O_LSEEK | 1ull << O_UNLINK | 1ull << O_RENAME | 1ull << O_MKDIR | 1ull << O_STAT | 1ull << O_ACCESS | 1ull << O_DUP | 1ull << O_FTRUNC | 1ull << O_FORK | 1ull << O_EXEC | 1ull << O_ALLOC;
static Act faultAt(Stream& s, int job, int nth, u64 at, int op)
{
    Act a{ job, nth, at, 0, A_FAIL, EIO, 0 };
    auto err = [&](std::initializer_list<int> l) { std::vector<int> v(l); a.a = v[s.choose((u32)v.size())]; };
    switch (op) {
    case O_OPEN: err({ EACCES, ENOENT, EMFILE, EIO, ENFILE }); break;
    case O_CREATE: err({ EACCES, ENOSPC, EIO, EMFILE, EROFS }); break;
    case O_CLOSE: err({ EIO, ENOSPC, EDQUOT }); break;
    case O_READ: switch (s.choose(5)) { case 0: case 1: err({ EIO, ESTALE }); break; case 2: a.kind = A_SHORT; a.a = (i32)s.choose(1000); break; case 3: a.kind = A_TRUNC; a.a = (i32)s.choose(1000); break; default: a.kind = A_IOERR; break; } break;
    case O_WRITE: switch (s.choose(6)) { case 0: case 1: err({ ENOSPC, EIO, EDQUOT }); break; case 2: case 3: a.kind = A_SHORT; a.a = (i32)s.choose(1000); break; case 4: a.kind = A_FULL; a.a = s.choose(2) ? 0 : (i32)s.choose(6000); break; default: a.kind = A_IOERR; break; } break;
    case O_UNLINK: err({ EACCES, EIO, EPERM }); break;
    case O_RENAME: err({ EACCES, EIO, ENOSPC }); break;
    case O_MKDIR: err({ ENOSPC, EACCES, EIO }); break;
    case O_STAT: case O_ACCESS: err({ EACCES, EIO }); break;
    case O_DUP: err({ EMFILE, EBUSY, EINTR }); break;
    case O_FORK: err({ EAGAIN, ENOMEM }); break;
    case O_EXEC: err({ ENOENT, EACCES, ENOMEM, E2BIG }); break;
    case O_ALLOC: if (s.choose(2)) a.kind = A_MEM; else a.a = ENOMEM; break;
    default: err({ EIO, EINVAL }); break;
    }
    return a;
}
static bool pickEvent(Stream& s, Kernel* ref, u64 mask, int& job, int& nth, u64& at, int& op)
{
    std::vector<std::pair<int, int>> ps; for (auto& r : ref->rec) { for (auto& o : r.second) if (o.file && mask >> o.op & 1) { ps.push_back(r.first); break; } }
    if (ps.empty()) return false;
    auto p = ps[s.choose((u32)ps.size())]; auto& v = ref->rec[p];
    std::vector<int> kinds; for (int k = 0; k < NKOP; k++) if (mask >> k & 1) for (auto& o : v) if (o.op == k && o.file) { kinds.push_back(k); break; }
    op = kinds[s.choose((u32)kinds.size())];
    std::vector<u64> occ; for (u64 i = 0; i < v.size(); i++) if (v[i].op == op && v[i].file) occ.push_back(i);
    u32 how = s.choose(4); at = how == 0 ? occ.back() : how == 1 ? occ[s.choose((u32)std::min<size_t>(occ.size(), 4))] : occ[s.choose((u32)occ.size())];
    job = p.first; nth = p.second; return true;
}
static std::vector<Act> genFaults(Stream& s, Kernel* ref, u64 mask = FAULTABLE)
{
    std::vector<Act> plan; int n = s.choose(4) ? 1 : 2 + (int)s.choose(2);
    for (int i = 0; i < n; i++) { int j, nth, op; u64 at; if (pickEvent(s, ref, mask, j, nth, at, op)) plan.push_back(faultAt(s, j, nth, at, op)); }
    return plan;
}
static u64 edgesOf(Kernel* ref, int job, int nth) { for (Proc* p : ref->procs) if (p->job == job && p->nth == nth) return p->edges; return 0; }
// a point in the life of one of the processes: a call, or an edge of its code
static Act pointAct(Stream& s, Kernel* ref, int kind)
{
    std::vector<std::pair<int, int>> ps; for (auto& r : ref->rec) ps.push_back(r.first);
    auto p = ps[s.choose((u32)ps.size())]; Act a{ p.first, p.second, 0, 0, kind, 0, 0 };
    u64 e = edgesOf(ref, p.first, p.second);
    if (e > 2 && s.choose(3) == 0) { a.edge = 1; a.at = 1 + s.raw() % e; }
    else a.at = s.choose((u32)ref->rec[p].size());
    return a;
}
static void addPlan(std::vector<Act> plan, const std::function<void(const std::vector<Act>&)>& body)
{
    if (viol.set() || plan.empty()) return;
    failPlan = plan; body(plan);
    if (!viol.set()) failPlan.clear();
}
// runs the body under n generated plans, or under the plan of the replay file
static void plans(int n, const std::function<std::vector<Act>()>& gen, const std::function<void(const std::vector<Act>&)>& body)
{
    if (replaying) { addPlan(fixedPlan, body); return; }
    for (int i = 0; i < n && !viol.set(); i++) addPlan(gen(), body);
}
static bool onlyHarmless(const std::vector<Act>& plan) { for (auto& a : plan) if (!(a.kind == A_SHORT || a.kind == A_SWITCH || a.kind == A_CLOCK)) return false; return true; }

// ------------------------------------------------------------------ the interpreter tool
struct VmExpect { std::string out, err; int status = 0; bool error = false; std::set<int> codes; bool loaded = false, unsure = false; u64 steps = 0; };
struct ToolEnv : ModelVM::Env {
    VmExpect& e; const char* null = "(null)"; struct Done { int code; }; // null: what the host's printf makes of a NULL string is not ours to say
    explicit ToolEnv(VmExpect& x) : e(x) {}
    std::string cstr(ModelVM& vm, i64 a) { std::string s; u64 i = (u32)a & vm.mask; for (; i < vm.mem.size() && vm.mem[i]; i++) s += (char)vm.mem[i]; vm.rd((u32)a & vm.mask, i + 1 - ((u32)a & vm.mask)); return s; }
    int range(ModelVM& vm, i64 a, i64 n) { if (!a) return -1; u32 d = (u32)a; if (d > vm.mask || (u64)n > vm.mask || d + (u64)n > vm.mask) { error(vm, E_RANGE); return -1; } return 0; }
    i32 syscall(ModelVM& vm, const i64* a) override
    {
        i32 id = (i32)(-1 - a[0]); int used = id == -1 || id == -2 ? 1 : id == -3 || id == -4 ? 3 : 0; for (int i = 1; i <= used; i++) vm.undefRead |= vm.argUndef[i];
        switch (id) {
        case -1: { std::string s = a[1] ? cstr(vm, a[1]) : null; e.out += s; return (i32)s.size(); }
        case -2: { std::string s = a[1] ? cstr(vm, a[1]) : null; e.err += s; return (i32)s.size(); }
        case -3: if (range(vm, a[1], a[3]) == 0) vm.wr((u32)a[1], (u64)a[3]), memset(&vm.mem[(u32)a[1]], (int)a[2], (size_t)a[3]); return (i32)a[1];
        case -4: if (range(vm, a[1], a[3]) == 0 && range(vm, a[2], a[3]) == 0) { if (a[3] && a[1] != a[2] && a[1] < a[2] + a[3] && a[2] < a[1] + a[3]) { vm.taint = true; } vm.rd((u32)a[2], (u64)a[3]); vm.wr((u32)a[1], (u64)a[3]); memmove(&vm.mem[(u32)a[1]], &vm.mem[(u32)a[2]], (size_t)a[3]); } return (i32)a[1];
        }
        e.err += strf("Bad system call: %i\n", id); return 0;
    }
    void error(ModelVM&, int code) override { throw Done{ code }; }
    bool stepLimit(ModelVM& vm) override { return vm.steps > 60000; }
};
// what the function's arguments beyond the command are -- main() passes none, so nobody knows
static VmExpect expectVm1(const std::vector<u8>& file, const char* null)
{
    VmExpect e; auto d = imageDefects(file.data(), (i64)file.size());
    if (file.empty()) { e.status = 255; return e; }
    if (!d.empty()) { e.error = true; e.codes = d; return e; }
    e.loaded = true; ModelVM vm; vm.load(file.data()); ToolEnv env(e); env.null = null; i32 args[13] = { 0 }; vm.undef.assign(vm.mem.size(), 0); vm.firstUndefArg = 1;
    try {
        i64 r = 0; vm.level++; r = vm.run(args, env); e.status = (int)(r & 255);
    } catch (ToolEnv::Done& x) { e.error = true; e.codes = { x.code }; }
    catch (ModelVM::GiveUp&) { e.unsure = true; }
    if (vm.taint || vm.undefRead) e.unsure = true;
    e.steps = vm.steps;
    return e;
}
static VmExpect expectVm(const std::vector<u8>& file)
{
    VmExpect e = expectVm1(file, "(null)");
    if (e.loaded && !e.unsure) {
        VmExpect f = expectVm1(file, "");
        if (f.unsure || f.out != e.out || f.err != e.err || f.status != e.status || f.error != e.error || f.codes != e.codes) e.unsure = true;
    }
    return e;
}
// what the interpreter itself prints before the program runs: measured with a program that prints nothing
static std::string chatter(const std::string& arg, int ts)
{
    static std::string around[2][2]; static bool known[2];
    if (!known[ts]) {
        ar::Result r = ar::assemble({ "code\nproc vmMain 0 0\nCNSTI4 0\nRETI4\nendproc vmMain 0 0\n" });
        World w; for (const char* d : { "/w", "/tmp", "/bin" }) w.fs.mkdirs(d);
        for (int t = 0; t < NTOOL; t++) { w.fs.put(toolPath[t], "x", 0755); w.fs.ino[w.fs.lookup(toolPath[t])].special = true; }
        w.ts = ts; w.fs.put("/w/@NAME@", str(r.img)); w.jobs.push_back(mkJob(T_VM, { "@NAME@" }));
        auto keep = st; u64 h = lastHash; Kernel* k = execute(w, {}); st = keep; lastHash = h;
        std::string o = outOf(k, 0); size_t p = o.find("@NAME@"); if (p == std::string::npos) { around[ts][0] = o; around[ts][1] = ""; } else { around[ts][0] = o.substr(0, p); around[ts][1] = o.substr(p); }
        known[ts] = true;
    }
    return around[ts][0] + (around[ts][1].empty() ? "" : arg + around[ts][1].substr(6));
}
// does what the tool did match? args beyond the command are not defined by the property
static std::string vmMismatch(Kernel* k, int j, const VmExpect& e)
{
    std::string out = outOf(k, j), err = errOf(k, j); int s = k->jobs[j].status;
    if (!e.loaded && e.error) { if (!out.empty() && out.back() != '\n') return "standard output of a refused image: " + out.substr(0, 60); out.clear(); }
    else if (e.loaded) { std::string pre = chatter(k->jobs[j].argv[1], cur_ts); if (out.compare(0, pre.size(), pre)) return "standard output does not begin as it should: " + firstDiff(out, pre); out.erase(0, pre.size()); }
    if (out != e.out) return "standard output: " + firstDiff(out, e.out);
    if (err.compare(0, e.err.size(), e.err) != 0 || err.size() < e.err.size()) return "standard error: " + firstDiff(err, e.err);
    std::string rest = err.substr(e.err.size());
    if (s < 0 || s & 127) return "the tool " + statusStr(s);
    int code = s >> 8 & 255;
    if (e.error) {
        bool okc = false; for (int c : e.codes) okc |= code == (c & 255);
        if (!okc) return strf("exit status %d after an error of code %d", code, *e.codes.begin());
        if (rest.find('\n') == std::string::npos) return "the error is not reported on standard error";
    } else {
        if (code != e.status) return strf("exit status %d, expected %d", code, e.status);
        if (e.loaded && !rest.empty()) return "unexpected standard error: " + rest.substr(0, 80);
    }
    return "";
}
static void vmResources(Kernel* k, int j)
{
    for (Proc* p : k->procs) if (p->job == j) {
        if (p->openAtExit) setViol("leak", strf("%d files still open when the tool ends", p->openAtExit));
        if (p->normalExit && p->mainReturned && p->liveAtExit) setViol("leak", strf("%ld memory blocks not released", p->liveAtExit));
    }
}
static void runS10()
{
    Stream& s = S.s[0]; World w = baseWorld(s); w.ts = 0;
    GenCfg gc; gc.wildPct = 20; gc.mutatePct = 15; Image im = genImage(s, gc); st.images++;
    std::string bytes = str(im.bytes);
    // strings for the guest to print
    if (im.sane && s.choose(2)) { Image o = genImage(s, gc); (void)o; }
    int how = (int)s.choose(16); std::string name = "prog.qvm"; bool exists = true;
    std::vector<std::string> args = { name };
    if (how == 0) bytes.clear();
    else if (how == 1) exists = false;
    else if (how == 2) { args.clear(); }
    else if (how == 3) { args.push_back("more"); args.push_back("-x"); }
    else if (how == 4) { bytes.resize(bytes.size() * s.choose(1000) / 1000); }
    else if (how == 5) { bytes += std::string(4200000 - (size_t)s.choose(20000), 'z'); }
    std::string dir = s.choose(3) ? "/w" : "/w/some dir/x"; w.fs.mkdirs(dir);
    if (dir != "/w" && !args.empty()) args[0] = s.choose(2) ? "some dir/x/" + name : dir + "/" + name;
    if (how == 6 && !args.empty()) { exists = false; args[0] = s.choose(2) ? "/w" : "prog.qvm/x"; }
    if (exists) w.fs.put(dir + "/" + name, bytes, how == 7 ? 0200 : 0644);
    w.jobs.push_back(mkJob(T_VM, args));
    if (s.choose(3) == 0) { w.jobs[0].in = "input\n"; }
    VmExpect e; if (args.empty() || !exists || how == 7) { e.status = 255; } else e = expectVm(vec(bytes));
    scenarioNote = strf("q3vm %s: %s image of %zu bytes, case %d", args.empty() ? "" : args[0].c_str(), im.note.c_str(), bytes.size(), how);
    if (e.unsure) { st.unmodelled++; return; }
    st.programSteps += e.steps;
    auto check = [&](Kernel* k, const char* what, bool faulty) {
        if (viol.set()) return;
        bool noOut = args.empty();
        std::string m = noOut ? (outOf(k, 0).find("Bad") != std::string::npos ? "?" : "") : vmMismatch(k, 0, e);
        if (noOut && k->jobs[0].status != 255 << 8) m = "status without an argument: " + statusStr(k->jobs[0].status);
        if (!m.empty() && faulty) { int s_ = k->jobs[0].status; bool clean = s_ >= 0 && !(s_ & 127) && s_ >> 8 != 0 && (!e.loaded || outOf(k, 0).size() <= chatter(args[0], 0).size()); if (clean) { m.clear(); st.plansFailed++; } else m += " (neither a clean failure nor the complete result)"; }
        else if (faulty) st.plansOk++;
        if (!m.empty()) setViol("wrong-result", strf("%s: ", what) + m);
        vmResources(k, 0);
    };
    Kernel* ref = execute(w, {}, true); check(ref, "without faults", false); noCrash(ref, "q3vm");
    if (viol.set()) return;
    if (toolsets.size() > 1 && s.choose(4) == 0) { World w2 = w; w2.ts = 1; w2.poison = (u8)~w.poison; st.flavourPairs++; Kernel* k = execute(w2, {}); check(k, "without faults, -O2 build", false); noCrash(k, "q3vm -O2"); }
    plans(6, [&] { return genFaults(S.s[1], ref, FAULTABLE & ~(1ull << O_WRITE)); }, [&](const std::vector<Act>& plan) { Kernel* k = execute(w, plan); check(k, "with faults", k->fired && !onlyHarmless(plan)); });
}

// ------------------------------------------------------------------ the assembler
struct AsmScene { World w; std::vector<std::string> texts, names; std::string image, mapName; ar::Result ref; bool map = false, verbose = false; bool listErr = false; };
static std::string sub(const std::string& cwd, const std::string& p) { return p[0] == '/' ? p : cwd + "/" + p; }
static std::string withExt(std::string o, const char* ext) { size_t d = o.rfind('.'), sl = o.rfind('/'); if (d != std::string::npos && d > 0 && (sl == std::string::npos || d > sl)) o.resize(d); return o + ext; }
static void damageAsm(Stream& s, std::vector<std::string>& t)
{
    std::string& x = t[s.choose((u32)t.size())]; std::vector<std::string> l; size_t p = 0; while (p < x.size()) { size_t e = x.find('\n', p); if (e == std::string::npos) e = x.size(); l.push_back(x.substr(p, e - p)); p = e + 1; }
    if (l.empty()) l.push_back("");
    auto at = [&] { return l.begin() + s.choose((u32)l.size()); };
    switch (s.choose(15)) {
    case 0: l.insert(at(), "NOSUCHOP 3"); break;
    case 1: l.insert(at(), "ADDRGP4 no_such_symbol"); break;
    case 2: { auto i = at(); std::string c = *i; l.insert(at(), c); break; }
    case 3: l.erase(at()); break;
    case 4: { int n = s.choose(3) ? 128 * s.range(1, 3) : s.range(100, 600); auto i = at(); l.insert(i, (size_t)n, "bogus"); break; }
    case 5: l.insert(at(), "LABELV " + std::string((size_t)s.range(1000, 1100), 'x')); break;
    case 6: l.insert(at(), "; " + std::string((size_t)s.range(1000, 1100), 'c')); break;
    case 7: l.insert(at(), "CVII4 3"); break;
    case 8: l.insert(at(), "byte 2 77"); break;
    case 9: l.insert(at(), "LOADI4"); break;
    case 10: { std::swap(*at(), *at()); break; }
    case 11: { auto i = at(); if (!i->empty()) i->erase(s.choose((u32)i->size()), 1); break; }
    case 12: { l.insert(l.end(), { "data", "align 4", "LABELV huge_a", "byte 4 1", strf("skip %d", s.range(4000000, 4300000)) }); break; }
    case 13: { l.insert(l.end(), { "lit", "align 1", "LABELV huge_b", "byte 1 1", strf("skip %d", 4194304 - s.range(0, 64)), "byte 1 2", "byte 1 3", "byte 1 4" }); break; }
    default: { l.insert(l.end(), { "code", "proc big_frame " + strf("%d 0", s.range(32700, 32800)), "RETV", "endproc big_frame 4 4" }); break; }
    }
    x.clear(); for (auto& y : l) x += y + "\n";
    if (s.choose(6) == 0 && !x.empty()) x.pop_back();
    if (s.choose(12) == 0 && x.size() > 3) x.insert(s.choose((u32)x.size()), 1, '\0');
}
static AsmScene asmScene(Stream& s, bool loadable, bool damage, int maxFiles = 4, bool plain = false)
{
    AsmScene a; a.w = baseWorld(s); World& w = a.w; Job j; j.tool = T_ASM; std::vector<std::string> args;
    int n = 1 + (int)s.choose((u32)maxFiles); bool many = maxFiles > 3 && s.choose(8) == 0; if (many) n = s.range(5, 40); ar::Gen g(s, n, loadable, many ? 8 : s.choose(4) ? 25 : 120); g.edges = !loadable && s.choose(10) == 0; g.make(); a.texts = g.files;
    if (damage) damageAsm(s, a.texts);
    bool useList = !plain && s.choose(4) == 0; std::vector<std::string> shown;
    for (int i = 0; i < n; i++) {
        static const char* dirs[] = { "", "", "", "src/", "/w/deep/er/", "a.dir/", "./" };
        std::string base = s.choose(8) ? strf("f%d", i) : strf("long_%s_%d", std::string((size_t)s.range(10, 180), 'n').c_str(), i), d = plain ? "" : dirs[s.choose(7)], ext = s.choose(3) ? ".asm" : "", file = d + base;
        shown.push_back(file + ext); w.fs.mkdirs(d.empty() ? "/w" : withExt(sub("/w", d), "").size() ? sub("/w", d.substr(0, d.size() - 1)) : "/w"); w.fs.put(sub("/w", file + ".asm"), a.texts[i]); a.names.push_back(sub("/w", file + ".asm"));
    }
    std::string out;
    switch (plain ? 0 : s.choose(8)) { case 0: case 1: out = "out"; break; case 2: out = "out.qvm"; break; case 3: out = "build/res.x"; break; case 4: out = "new/dir/o"; break; case 5: out = "/w/abs.d/o"; break; case 6: out = "../w/up.bin"; break; default: out = ""; }
    if (s.choose(3)) w.fs.mkdirs("/w/build");
    if (s.choose(2)) w.fs.mkdirs("/w/abs.d");
    if (out == "/w/abs.d/o") w.fs.mkdirs("/w/abs.d");
    std::vector<std::vector<std::string>> opts;
    bool listOut = useList && s.choose(2);
    if (!out.empty() && !listOut) opts.push_back({ "-o", out });
    if (s.choose(3) == 0) { opts.push_back({ "-m" }); a.map = true; }
    if (s.choose(3) == 0) { opts.push_back({ "-v" }); a.verbose = true; }
    if (s.choose(6) == 0) opts.push_back({ "-vq3" });
    if (s.choose(6) == 0) opts.push_back({ "-b", strf("%d", s.choose(3) ? s.range(1, 5000) : s.range(1, 3)) });
    for (size_t i = opts.size(); i > 1; i--) std::swap(opts[i - 1], opts[s.choose((u32)i)]);
    if (useList) {
        std::string t; auto q = [&](const std::string& x) { return s.choose(3) == 0 ? "\"" + x + "\"" : x; };
        if (listOut) t += "-o " + q(out.empty() ? "out" : out) + "\n";
        if (listOut && out.empty()) out = "out";
        if (s.choose(3) == 0) t += "// list of files\n";
        int inList = s.choose(3) ? n : (int)s.choose((u32)n + 1);
        for (int i = 0; i < inList; i++) t += q(shown[i]) + (s.choose(4) ? "\n" : s.choose(2) ? " " : "\r\n\t");
        if (s.choose(4) == 0 && !t.empty()) t.pop_back();
        w.fs.put("/w/list.q3asm", t); opts.insert(opts.begin(), { "-f", s.choose(2) ? "list" : "list.q3asm" });
        shown.erase(shown.begin(), shown.begin() + inList);
    }
    for (auto& o : opts) for (auto& x : o) args.push_back(x);
    for (auto& x : shown) args.push_back(x);
    if (out.empty()) out = "q3asm";
    a.image = sub("/w", withExt(out, ".qvm")); a.mapName = sub("/w", withExt(out, ".map"));
    w.jobs.push_back(mkJob(T_ASM, args));
    a.ref = ar::assemble(a.texts); st.asmFiles += a.texts.size(); for (auto& t : a.texts) st.lines += (u64)std::count(t.begin(), t.end(), '\n'); st.linkedInstructions += (u64)a.ref.icount;
    if (a.ref.err) st.asmErrors++;
    if (a.ref.unsure) st.asmUnsure++;
    return a;
}
static std::string norm(const std::string& p) { std::vector<std::string> c; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); std::string e = p.substr(i, j - i); if (e == "..") { if (!c.empty()) c.pop_back(); } else if (!e.empty() && e != ".") c.push_back(e); i = j + 1; } std::string o; for (auto& e : c) o += "/" + e; return o; }
static void checkAsm(Kernel* k, int j, const AsmScene& a, bool faulty, const char* what, const std::string& old)
{
    if (viol.set()) return;
    std::string img = k->fs.get(a.image), want = str(a.ref.img); bool exists = k->fs.exists(a.image), good = ok0(k, j);
    if (good) {
        if (a.ref.unsure) return;
        if (a.ref.err) { setViol("error-not-reported", strf("%s: exit status 0, but the input is wrong: ", what) + a.ref.why); return; }
        if (!exists) { setViol("no-image", strf("%s: exit status 0, but no image at ", what) + a.image); return; }
        if (img != want) { setViol("wrong-image", strf("%s: exit status 0, but the image is wrong: ", what) + firstDiff(img, want)); return; }
        if (a.map) { std::string m = ar::checkMap(a.ref, k->fs.get(a.mapName)); if (!m.empty()) setViol("wrong-map", strf("%s: ", what) + m); }
        return;
    }
    if (!faulty && !a.ref.err && !a.ref.mayErr && !a.ref.unsure) { setViol("refused", strf("%s: the input is correct but the assembler ends with %s: ", what, statusStr(k->jobs[j].status).c_str()) + errOf(k, j).substr(0, 300) + outOf(k, j).substr(0, 200)); return; }
    if (a.ref.unsure) return;
    if (exists && img != want && img != old) { auto d = imageDefects((const u8*)img.data(), (i64)img.size()); if (d.empty()) setViol("loadable-leftover", strf("%s: the assembler failed (%s) but left a loadable, wrong image of %zu bytes", what, statusStr(k->jobs[j].status).c_str(), img.size())); }
    if (exists && a.ref.err && img != old) { auto d = imageDefects((const u8*)img.data(), (i64)img.size()); if (d.empty()) setViol("loadable-leftover", strf("%s: erroneous input left a loadable image", what)); }
}
static std::string oldImage(Stream& s, const AsmScene& a)
{
    GenCfg gc; gc.wildPct = 0;
    if (s.choose(3) == 0 && !a.ref.img.empty()) { std::string o = str(a.ref.img); if (s.choose(2)) o += std::string(s.choose(5000), 'x'); for (int i = 0; i < 4; i++) if (o.size() > 40) o[32 + s.choose((u32)o.size() - 32)] ^= 1; return o; }
    return str(genImage(s, gc).bytes);
}
static std::string putOld(Stream& s, AsmScene& a)
{
    if (s.choose(2)) return "";
    std::string o = oldImage(s, a), p = norm(a.image); size_t sl = p.rfind('/'); a.w.fs.mkdirs(p.substr(0, sl)); a.w.fs.put(p, o);
    if (s.choose(2)) { std::string m = norm(a.mapName); a.w.fs.put(m, "0 00000000 old_symbol\n" + std::string(s.choose(9000), 'o') + "\n"); }
    return o;
}
static void runS11()
{
    Stream& s = S.s[0]; AsmScene a = asmScene(s, false, s.choose(3) == 0); std::string old = putOld(s, a);
    scenarioNote = "q3asm:"; for (auto& x : a.w.jobs[0].argv) scenarioNote += " " + x.substr(0, 40);
    scenarioNote += strf(" -> %s, %s", a.image.c_str(), a.ref.err ? ("wrong input: " + a.ref.why.substr(0, 60)).c_str() : a.ref.unsure ? ("outside the reference: " + a.ref.why.substr(0, 60)).c_str() : strf("%zu bytes", a.ref.img.size()).c_str());
    Kernel* ref = execute(a.w, {}, true); checkAsm(ref, 0, a, false, "without faults", old); noCrash(ref, "q3asm");
    if (viol.set()) return;
    if (toolsets.size() > 1 && s.choose(4) == 0) { World w2 = a.w; w2.ts = 1; w2.poison = (u8)~a.w.poison; st.flavourPairs++; Kernel* k = execute(w2, {}); checkAsm(k, 0, a, false, "without faults, -O2 build", old); noCrash(k, "q3asm -O2"); }
    plans(a.ref.err ? 2 : 6, [&] { return genFaults(S.s[1], ref); }, [&](const std::vector<Act>& plan) {
        Kernel* k = execute(a.w, plan); bool faulty = k->fired && !onlyHarmless(plan);
        (ok0(k, 0) ? st.plansOk : st.plansFailed)++; checkAsm(k, 0, a, faulty, "with faults", old); });
}

// ------------------------------------------------------------------ the compiler
static const char* const SYS_ASM = "code\n\nequ trap_Printf -1\nequ trap_Error -2\nequ memset -3\nequ memcpy -4\n";
struct Bug { const char* text; int where; }; // where: 0 end of a file, 1 start, 2 anywhere a line ends outside of functions is not known, so only these
static const Bug srcBugs[] = {
    { "int f_bad(void) { return undeclared_q; }\n", 0 }, { "int f_bad(void) { return 1 +; }\n", 0 }, { "#error stop here\n", 1 }, { "#include \"nosuch.h\"\n", 1 }, { "#include <nosuch.h>\n", 0 },
    { "#if 1\nint open_if;\n", 0 }, { "char *f_s = \"abc\n;\n", 0 }, { "int g_dup; float g_dup;\n", 0 }, { "void f_bad(void) { goto nowhere; }\n", 0 }, { "void f_bad(void) { break; }\n", 0 }, { "void f_bad(void) { continue; }\n", 0 },
    { "void f_bad(int x) { switch (x) { case 1: case 1: ; } }\n", 0 }, { "int f_p(int, int); int f_bad(void) { return f_p(1); }\n", 0 }, { "int f_p(int); int f_bad(void) { return f_p(1, 2); }\n", 0 }, { "void f_bad(void) { 3 = 4; }\n", 0 }, { "void f_bad(void) { int x; x.y = 1; }\n", 0 }, { "void f_bad(int *p) { p = 3.5; }\n", 0 },
    { "void f_bad(void) {\n", 0 }, { "#define M_two(a, b) a\nint f_x = M_two(1);\n", 0 }, { "#if (\n#endif\n", 0 }, { "struct S_inc s_incomplete; int f_x = sizeof(struct S_inc);\n", 0 }, { "int f_x x;\n", 0 }, { "int f_x = ;\n", 0 }, { "int f_a[2] = { 1, 2, 3 };\n", 0 },
    { "int f_v; int f_bad(void) { return f_v(); }\n", 0 }, { "void f_bad(void) { case 1: ; }\n", 0 }, { "void f_bad(float x) { switch (x) { case 1: ; } }\n", 0 }, { "void f_bad(void) { const int c = 1; c = 2; }\n", 0 }, { "int f_d(void) { return 1; }\nint f_d(void) { return 2; }\n", 0 }, { "void f_bad(void) { lab: ; lab: ; }\n", 0 },
    { "static int f_undef(void); int f_bad(void) { return f_undef(); }\n", 0 }, { "}\n", 0 }, { ")\n", 0 }, { "int f_bad(void) { struct { int a; } s; return s + 1; }\n", 0 }, { "int f_x = 'ab\n';\n", 0 }, { "#else\n", 1 }, { "#endif\n", 1 }, { "void f_bad(void) { int x; *x = 1; }\n", 0 }, { "typedef int f_t; int f_bad(void) { return f_t; }\n", 0 },
    { "void f_bad(void) { int q = \"abc\"; }\n", 0 }, { "int f_bad(void) { return (struct nope)1; }\n", 0 }, { "void f_bad(void) { float f; f %= 2; }\n", 0 }, { "void f_bad(void) { float f; f << 2; }\n", 0 }, { "void f_bad(int a, int a) { }\n", 0 }, { "struct f_s { int a; int a; };\n", 0 }, { "enum f_e { A_Q, A_Q };\n", 0 }, { "register int f_r;\n", 0 }, { "extern static int f_r;\n", 0 },
};
static const int NBUGS = sizeof srcBugs / sizeof *srcBugs;
static int bugCount[64];
struct CScene { World w; std::vector<std::string> outs; std::string bug; int bugNo = -1; bool stdoutMatters = false; std::string tmp = "/tmp"; bool gcomments = false; cg::Program* prog = nullptr; bool valid = false; };
static std::vector<cg::Program*> progs;
static cg::Program* genProgram(Stream& s, bool big)
{
    cg::Cfg c; c.files = 1 + (int)s.choose(3); c.mixedInit = s.choose(4) != 0;
    u32 f = s.choose(4);
    if (f == 1) { c.floats = false; c.unions = false; } else if (f == 2) { c.structs = false; c.bits = false; c.strct_args = false; } else if (f == 3) { c.macros = false; c.gotos = false; c.fnptr = false; }
    if (big) { c.fns = 2 + (int)s.choose(7); c.stmts = 4 + (int)s.choose(12); c.depth = 2 + (int)s.choose(3); }
    else { c.fns = 1 + (int)s.choose(2); c.stmts = 2 + (int)s.choose(4); c.depth = 2; }
    cg::Program* p = new cg::Program(s, c); progs.push_back(p); st.programs++;
    if (!p->build()) { st.skipped++; return nullptr; }
    for (auto& x : p->files) st.lines += (u64)std::count(x.second.begin(), x.second.end(), '\n');
    return p;
}
static void freeProgs() { for (auto p : progs) delete p; progs.clear(); }
// one or several lcc commands (or q3cpp / q3rcc commands) over a small program
static bool lccScene(Stream& s, CScene& c, bool allowBug, bool onlyLcc)
{
    c.w = baseWorld(s); World& w = c.w; c.prog = genProgram(s, s.choose(5) == 0); if (!c.prog) return false;
    auto files = c.prog->files; int n = (int)files.size() - 1;
    std::string src = s.choose(3) ? "" : "src/", incDir; if (!src.empty()) w.fs.mkdirs("/w/src");
    std::vector<std::string> base = { "-DQ3_VM", "-S", "-Wf-target=bytecode" };
    if (s.choose(2)) { base.push_back("-Wf-g"); c.gcomments = true; }
    if (s.choose(3) == 0) { incDir = s.choose(2) ? "inc" : "/w/include/h"; if (incDir == "inc") w.fs.mkdirs("/w/" + src + "inc"); else w.fs.mkdirs(incDir); base.push_back("-I" + incDir); }
    if (s.choose(4) == 0) { base.push_back(s.choose(2) ? "-DEXTRA=3" : "-DEXTRA"); files["t0.c"] += "int extra_v = EXTRA +1;\n"; }
    if (s.choose(6) == 0) { base.push_back("-UQ3_VM"); files["t0.c"] += "#ifdef Q3_VM\nint still_defined;\n#else\nint undefined_now;\n#endif\n"; }
    if (s.choose(8) == 0) base.push_back("-g");
    if (s.choose(6) == 0) base.push_back("-v");
    std::map<std::string, std::string> env;
    switch (s.choose(8)) { case 0: env["TMP"] = "/w/tmp.d"; c.tmp = "/w/tmp.d"; break; case 1: env["TMPDIR"] = "/scratch/"; c.tmp = "/scratch"; break; case 2: base.push_back("-tempdir=/w/t e"); c.tmp = "/w/t e"; break; }
    w.fs.mkdirs(c.tmp);
    int mode = (int)s.choose(10); bool E = mode == 0; std::vector<std::string> srcs;
    if (allowBug && s.choose(3) == 0) { c.bugNo = (int)s.choose(NBUGS); c.bug = srcBugs[c.bugNo].text; std::string victim = s.choose(4) ? strf("t%d.c", (int)s.choose((u32)n)) : "t.h"; if (srcBugs[c.bugNo].where || (victim == "t.h" && s.choose(2))) files[victim].insert(0, c.bug); else files[victim] += c.bug; st.sourceErrors++; }
    if (s.choose(12) == 0) { std::string big = "/*"; if (s.choose(2)) big += std::string((size_t)s.range(3000, 12000), '*'); else for (int i = s.range(50, 900); i > 0; i--) big += std::string((size_t)s.range(0, 90), '*') + "\n"; files["t0.c"] += big + "*/\nint after_big;\n"; }
    if (s.choose(12) == 0) { std::string l = "int long_line[] = { 0"; int k = s.range(50, 600); for (int i = 0; i < k; i++) l += strf(", %d", i); files["t0.c"] += l + " };\n"; }
    if (s.choose(10) == 0) { auto& t = files["t0.c"]; if (!t.empty() && t.back() == '\n') t.pop_back(); }
    for (auto& f : files) { std::string where = f.first == "t.h" && !incDir.empty() ? (incDir[0] == '/' ? incDir : "/w/" + src + incDir) : "/w/" + src; if (where.back() != '/') where += '/'; w.fs.put(where + f.first, f.second); }
    for (int i = 0; i < n; i++) srcs.push_back(src + strf("t%d.c", i));
    c.valid = c.bug.empty();
    scenarioNote = "";
    auto addJob = [&](Job j, std::vector<std::string> outs) { j.env = env; if (!w.jobs.empty() && s.choose(2)) j.startAfter = (int)w.jobs.size() - 1; else if (!w.jobs.empty()) j.startAfter = (int)w.jobs.size() - 1; w.jobs.push_back(j); for (auto& o : outs) c.outs.push_back(sub("/w", o)); for (auto& a : j.argv) scenarioNote += a + " "; scenarioNote += "; "; };
    if (E) { auto a = base; a.push_back("-E"); for (auto& x : srcs) a.push_back(x); Job j = mkJob(T_LCC, a); std::vector<std::string> o; if (s.choose(2)) { j.outPath = "/w/pre.txt"; o.push_back("/w/pre.txt"); } c.stdoutMatters = true; if (c.bugNo >= 0 && c.bug[0] != '#' && c.bug[0] != '/') c.bugNo = -2; addJob(j, o); }
    else if (mode == 1 && !onlyLcc) { // preprocessor and compiler by hand
        for (int i = 0; i < n; i++) {
            std::string pi = strf("p%d.i", i), po = strf("p%d.asm", i); std::vector<std::string> a = { "-D__STDC__=1", "-DQ3_VM" }; for (auto& b : base) if (b.compare(0, 2, "-I") == 0 || b.compare(0, 7, "-DEXTRA") == 0) a.push_back(b);
            Job j; if (s.choose(2)) { a.push_back(srcs[i]); a.push_back(pi); j = mkJob(T_CPP, a); } else { a.push_back(srcs[i]); j = mkJob(T_CPP, a); j.outPath = "/w/" + pi; }
            addJob(j, { pi }); std::vector<std::string> b = { "-target=bytecode" }; if (c.gcomments) b.push_back("-g"); b.push_back(pi); Job k; if (s.choose(2)) { b.push_back(po); k = mkJob(T_RCC, b); } else { k = mkJob(T_RCC, b); k.outPath = "/w/" + po; }
            addJob(k, { po });
        }
        c.bugNo = c.bugNo >= 0 ? -3 : c.bugNo; // judged per job
    }
    else if (mode <= 4 || n == 1) { for (int i = 0; i < n; i++) { auto a = base; std::string o = s.choose(2) ? strf("o%d.asm", i) : strf("obj/o%d.asm", i); w.fs.mkdirs("/w/obj"); std::vector<std::string> x = { "-o", o }; if (s.choose(2)) a.insert(a.begin(), x.begin(), x.end()), a.push_back(srcs[i]); else { a.push_back(srcs[i]); a.insert(a.end(), x.begin(), x.end()); } addJob(mkJob(T_LCC, a), { o }); } }
    else { auto a = base; std::vector<std::string> o; for (int i = 0; i < n; i++) { a.push_back(srcs[i]); o.push_back(strf("t%d.asm", i)); } addJob(mkJob(T_LCC, a), o); }
    // what an earlier build left
    if (s.choose(3) == 0) for (auto& o : c.outs) if (s.choose(2) && (w.jobs.back().outPath.empty())) { w.fs.put(o, "; old output\n" + std::string(s.choose(20000), ' ') + "\n"); }
    return true;
}
static std::string stripComments(const std::string& t) { std::string o; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); e = e == std::string::npos ? t.size() : e + 1; if (t[p] != ';') o.append(t, p, e - p); p = e; } return o; }
// what counts in an output: not the source lines quoted in comments, nor how often "./" stands before the name of an included file
static std::string essence(const std::string& t) { std::string u = stripComments(t), o; for (size_t i = 0; i < u.size(); i++) if (u[i] == '.' && i + 1 < u.size() && u[i + 1] == '/' && (i == 0 || u[i - 1] != '.')) i++; else o += u[i]; return o; }
static bool allOk(Kernel* k) { for (size_t j = 0; j < k->jobs.size(); j++) if (!ok0(k, (int)j)) return false; return true; }
// names of temporary files that builds with the process numbers of this world use (whatever their format is)
static std::vector<std::string> staleNamesFor(const World& w, const std::string& tmp, Stream& s, int n)
{
    World v = w; v.keepEvs = true; Kernel* k = execute(v, {}); std::vector<std::pair<std::string, int>> seen; std::vector<std::string> r; std::string pre = norm(tmp) + "/";
    for (auto& e : k->evs) if (e.op == O_CREATE && e.res >= 0 && e.path.compare(0, pre.size(), pre) == 0) for (Proc* p : k->procs) if (p->tool == T_LCC && e.path.find(strf("%d", p->pid), pre.size()) != std::string::npos) { seen.push_back({ e.path, p->pid }); break; }
    for (int i = 0; i < n && !seen.empty(); i++) { auto x = seen[s.choose((u32)seen.size())]; if (s.choose(2)) { std::string d = strf("%d", x.second); size_t at = x.first.find(d, pre.size()); x.first.replace(at, d.size(), strf("%d", w.pidLo + (int)s.choose(12))); } r.push_back(x.first); }
    return r;
}
static void runS12()
{
    Stream& s = S.s[0]; CScene c; if (!lccScene(s, c, true, false)) return;
    if (s.choose(6) == 0) for (auto& n : staleNamesFor(c.w, c.tmp, s, 3)) c.w.fs.put(n, "stale @ garbage\n" + std::string(s.choose(9000), '#'));
    Kernel* ref = execute(c.w, {}, true);
    // (after an error was reported, rcc may die of what is left of the program)
    bool told = false; for (size_t j = 0; j < ref->jobs.size(); j++) { std::istringstream in(errOf(ref, (int)j)); std::string l; while (std::getline(in, l)) told |= l.find(':') != std::string::npos && l.find("warning") == std::string::npos && l.find("/bin/") == std::string::npos; }
    if (c.valid || !told) noCrash(ref, "compiler"); if (viol.set()) return;
    if (c.valid) { if (!allOk(ref)) { int j = 0; while (ok0(ref, j)) j++; setViol("refused", strf("valid source, but job %d (%s) ends with %s: ", j, ref->jobs[j].argv[0].c_str(), statusStr(ref->jobs[j].status).c_str()) + errOf(ref, j).substr(0, 400)); return; } }
    else if (c.bugNo != -2 && allOk(ref)) { setViol("error-not-reported", "the source contains an error, but every status is 0: " + c.bug); return; }
    if (c.bugNo >= 0) bugCount[c.bugNo]++;
    if (toolsets.size() > 1 && s.choose(4) == 0) {
        World w2 = c.w; w2.ts = 1; w2.poison = (u8)~c.w.poison; w2.pidNext += 17; st.flavourPairs++; Kernel* k = execute(w2, {}); if (c.valid || !told) noCrash(k, "compiler, gcc build");
        for (size_t j = 0; j < k->jobs.size(); j++) if ((k->jobs[j].status == 0) != (ref->jobs[j].status == 0) || (c.valid && k->jobs[j].status != ref->jobs[j].status)) setViol("determinism", strf("job %zu: %s and %s in different surroundings", j, statusStr(ref->jobs[j].status).c_str(), statusStr(k->jobs[j].status).c_str()));
        for (auto& o : c.outs) if (allOk(ref) && k->fs.get(o) != ref->fs.get(o)) setViol("determinism", "the output " + o + " differs in different surroundings: " + firstDiff(ref->fs.get(o), k->fs.get(o)));
    }
    std::vector<std::string> want; for (auto& o : c.outs) want.push_back(essence(ref->fs.get(o)));
    plans(6, [&] { auto p = genFaults(S.s[1], ref); for (auto& a : p) if (a.kind == A_TRUNC) a.kind = A_IOERR; if (S.s[1].choose(5) == 0) p.assign(1, pointAct(S.s[1], ref, A_KILL)); return p; }, [&](const std::vector<Act>& plan) { // (a source that got shorter is another source)
        Kernel* k = execute(c.w, plan); if (viol.set()) return;
        size_t o = 0; bool any = false; (void)any;
        if (allOk(k)) {
            st.plansOk++;
            if (!allOk(ref)) { setViol("error-not-reported", "with the fault every status is 0, without it the source is refused: " + c.bug); return; }
            for (o = 0; o < c.outs.size(); o++) { std::string got = essence(k->fs.get(c.outs[o])); if (got != want[o]) { setViol("wrong-output", "every status is 0, but " + c.outs[o] + " is not what a fault-free compilation writes: " + firstDiff(got, want[o])); return; } }
            if (c.stdoutMatters) for (size_t j = 0; j < k->jobs.size(); j++) if (essence(outOf(k, (int)j)) != essence(outOf(ref, (int)j))) setViol("wrong-output", "status 0, but the preprocessed text is wrong: " + firstDiff(outOf(k, (int)j), outOf(ref, (int)j)));
        } else {
            st.plansFailed++;
            if (onlyHarmless(plan) && allOk(ref)) { int j = 0; while (ok0(k, j)) j++; setViol("refused", strf("job %d fails (%s) although the system only delivered data in pieces: ", j, statusStr(k->jobs[j].status).c_str()) + errOf(k, j).substr(0, 300)); return; }
            // each command on its own: status 0 of one of several commands still vouches for its output
            if (c.outs.size() == c.w.jobs.size() && allOk(ref)) for (size_t j = 0; j < k->jobs.size(); j++) if (ok0(k, (int)j) && essence(k->fs.get(c.outs[j])) != want[j]) {
                bool earlier = false; for (size_t i = 0; i < j; i++) earlier |= !ok0(k, (int)i);
                if (!earlier || c.w.jobs[j].tool == T_LCC) setViol("wrong-output", strf("status 0 of command %zu, but ", j) + c.outs[j] + " is not what a fault-free compilation writes: " + firstDiff(essence(k->fs.get(c.outs[j])), want[j]));
            }
        } });
}

// ------------------------------------------------------------------ the whole pipeline
static std::string sansWarn(const std::string& t) { std::istringstream in(t); std::string o, l; while (std::getline(in, l)) if (l.find("warning:") == std::string::npos) o += l + "\n"; return o; }
template <class M> static size_t longestLine(const M& files) { size_t m = 0; for (auto& f : files) { size_t b = 0; for (size_t i = 0; i <= f.second.size(); i++) if (i == f.second.size() || f.second[i] == '\n') { m = std::max(m, i - b); b = i + 1; } } return m; }
static void runS13()
{
    Stream& s = S.s[0]; World w = baseWorld(s); cg::Program* p = genProgram(s, s.choose(4) != 0); if (!p) return;
    w.ts = toolsets.size() > 1 && s.choose(3) == 0 ? 1 : 0;
    for (auto& f : p->files) w.fs.put("/w/" + f.first, f.second);
    w.fs.put("/w/sys.asm", SYS_ASM); std::vector<std::string> link = { "-o", "prog" }; int n = (int)p->files.size() - 1, last = -1;
    if (s.choose(3) == 0) link.push_back("-v");
    std::vector<std::string> asmNames;
    for (int i = 0; i < n; i++) { std::vector<std::string> a = { "-DQ3_VM", "-S", "-Wf-target=bytecode" }; if (s.choose(2)) a.push_back("-Wf-g"); a.insert(a.end(), { "-o", strf("t%d.asm", i), strf("t%d.c", i) }); Job j = mkJob(T_LCC, a); j.startAfter = last; last = (int)w.jobs.size(); w.jobs.push_back(j); link.push_back(strf("t%d", i)); asmNames.push_back(strf("/w/t%d.asm", i)); }
    link.push_back("sys"); asmNames.push_back("/w/sys.asm"); Job l = mkJob(T_ASM, link); l.startAfter = last; last = (int)w.jobs.size(); w.jobs.push_back(l); Job r = mkJob(T_VM, { "prog.qvm" }); r.startAfter = last; w.jobs.push_back(r); int vm = last + 1;
    scenarioNote = strf("%d source files, %zu bytes, expected result %d, expected output %zu bytes", n, [&] { size_t t = 0; for (auto& f : p->files) t += f.second.size(); return t; }(), p->status, p->expected.size());
    st.programSteps += p->steps;
    Kernel* k = execute(w, {}, false); noCrash(k, "pipeline"); if (viol.set()) return;
    for (int j = 0; j < vm; j++) if (!ok0(k, j) && longestLine(p->files) > 4000 && errOf(k, j).find("Input buffer overflow") != std::string::npos) { st.skipped++; return; } // the preprocessor's documented limit
    for (int j = 0; j < vm; j++) if (!ok0(k, j)) { setViol("refused", strf("step %d ends with %s: ", j, statusStr(k->jobs[j].status).c_str()) + sansWarn(errOf(k, j)).substr(0, 500) + outOf(k, j).substr(0, 200)); return; }
    std::string out = outOf(k, vm), pre = chatter("prog.qvm", w.ts); if (out.compare(0, pre.size(), pre) == 0) out.erase(0, pre.size());
    if (out != p->expected) { setViol("wrong-result", "the program's output: " + firstDiff(out, p->expected)); return; }
    if (k->jobs[vm].status != (p->status & 255) << 8) { setViol("wrong-result", strf("%s, expected %d: ", statusStr(k->jobs[vm].status).c_str(), p->status & 255) + errOf(k, vm).substr(0, 200)); return; }
    std::vector<std::string> texts; for (auto& a : asmNames) texts.push_back(k->fs.get(a));
    ar::Result ref = ar::assemble(texts);
    if (ref.unsure) { st.asmUnsure++; return; }
    if (ref.err) setViol("wrong-image", "the linker accepts what is not correct assembly: " + ref.why);
    else if (str(ref.img) != k->fs.get("/w/prog.qvm")) setViol("wrong-image", "the image is not the translation of the compiler's output: " + firstDiff(k->fs.get("/w/prog.qvm"), str(ref.img)));
}

// ------------------------------------------------------------------ the preprocessor against its reference
static void runS19()
{
    Stream& s = S.s[0]; World w = baseWorld(s); w.ts = toolsets.size() > 1 && s.choose(3) == 0 ? 1 : 0; cr::Gen g(s); g.build();
    cr::Pre p; p.files = g.files; p.dirs = g.dirs; size_t sl = g.main.rfind('/'); p.mainDir = sl == std::string::npos ? "/w" : "/w/" + g.main.substr(0, sl);
    { time_t t = (time_t)w.clock; struct tm x; gmtime_r(&t, &x); char b[64]; strftime(b, sizeof b, "%b %e %Y", &x); p.date = b; strftime(b, sizeof b, "%H:%M:%S", &x); p.time_ = b; }
    for (auto& c : g.cmd) { if (c[0] == '-') p.mac.erase(c.substr(1)); else p.cmdDefine(c); }
    w.fs.mkdirs(p.mainDir); for (auto& d : g.dirs) w.fs.mkdirs(d); for (auto& f : g.files) { w.fs.mkdirs(f.first.substr(0, f.first.rfind('/'))); w.fs.put(f.first, f.second); st.lines += (u64)std::count(f.second.begin(), f.second.end(), '\n'); }
    auto a = g.args; a.push_back(g.main); bool toFile = s.choose(2); if (toFile) a.push_back("t.i"); Job j = mkJob(T_CPP, a); if (!toFile && s.choose(2)) j.outPath = "/w/t.i"; w.jobs.push_back(j); bool file = toFile || !j.outPath.empty();
    if (file && s.choose(3) == 0) w.fs.put("/w/t.i", std::string(s.choose(9000), '@'));
    p.source("/w/" + g.main, g.main, 0); if (p.badHash) p.dunno("# without a parameter"); if (p.deep) p.dunno("include depth"); st.programs++;
    scenarioNote = strf("%zu files, main file of %zu bytes; reference: ", g.files.size(), g.files["/w/" + g.main].size()) + (p.unsure ? "not sure, " + p.why : p.err ? "error, " + p.why : strf("%zu tokens, %llu expansions, %llu headers", p.out.size(), (unsigned long long)p.expansions, (unsigned long long)p.included));
    if (getenv("TS_NOTE")) fprintf(stderr, "%s\n", scenarioNote.c_str());
    if (p.unsure) st.asmUnsure++; else if (p.err) st.sourceErrors++; else { st.asmFiles += 1; st.linkedInstructions += p.out.size(); st.programSteps += p.expansions; }
    struct Reset { ~Reset() { hangOk = false; } } reset; hangOk = (p.err && (!p.errAtEnd || p.why == "wrong number of arguments")) || p.unsure || p.out.size() > 20000;
    Kernel* ref = execute(w, {}, true); if (!ref->hang.empty()) { st.skipped++; return; } noCrash(ref, "preprocessor"); if (viol.set()) return;
    auto output = [&](Kernel* k) { return file ? k->fs.get("/w/t.i") : outOf(k, 0); };
    bool ok = ok0(ref, 0);
    auto limit = [&](Kernel* k) { return p.longest > 3500 && errOf(k, 0).find("Input buffer overflow") != std::string::npos; }; // a documented limit
    if (!ok && limit(ref)) { st.skipped++; return; }
    auto judge = [&](Kernel* k, const char* when) {
        if (p.unsure) return;
        if (p.err) { if (ok0(k, 0)) setViol("error-not-reported", std::string(when) + "status 0 for a source with an error: " + p.why); return; }
        if (!ok0(k, 0)) { setViol("refused", std::string(when) + "a valid source is refused, " + statusStr(k->jobs[0].status) + ": " + errOf(k, 0).substr(0, 300)); return; }
        std::string d = cr::compare(p, output(k)); if (!d.empty()) setViol("wrong-tokens", std::string(when) + d);
    };
    judge(ref, ""); if (viol.set()) return;
    std::string want = output(ref);
    plans(3, [&] { Stream& f = S.s[1]; auto v = genFaults(f, ref); for (auto& x : v) { if (x.kind == A_TRUNC) x.kind = A_IOERR; if (x.kind == A_FAIL && x.a == ENOENT) x.a = EIO; } if (f.choose(3) == 0) { v.clear(); auto& r = ref->rec.begin()->second; u32 n = 1 + f.choose(12); for (u64 i = 0; i < r.size() && v.size() < n; i++) if (r[i].op == O_READ && f.choose(3)) { Act x{ 0, 0, i, 0, A_SHORT, (i32)f.choose(1000), 0 }; v.push_back(x); } } return v; }, [&](const std::vector<Act>& plan) {
        Kernel* k = execute(w, plan); if (viol.set()) return;
        if (ok0(k, 0)) { st.plansOk++; if (!ok) { setViol("error-not-reported", "with the fault the status is 0, without it the source is refused"); return; } judge(k, "with the fault: "); if (!viol.set() && p.unsure && output(k) != want) { std::string o = output(k); std::vector<cr::Got> x, y; std::string e; cr::readOutput(o, x, e); cr::readOutput(want, y, e); bool same = x.size() == y.size(); for (size_t i = 0; same && i < x.size(); i++) same = x[i].t.t == y[i].t.t && x[i].line == y[i].line && cr::normPath(p.cwd, x[i].file) == cr::normPath(p.cwd, y[i].file); if (!same) setViol("wrong-tokens", "status 0, but the output is not that of a run without the fault: " + firstDiff(o, want)); } }
        else { st.plansFailed++; if (onlyHarmless(plan) && ok && !limit(k)) setViol("refused", "refused although the system only delivered data in pieces: " + errOf(k, 0).substr(0, 300)); }
    });
}

// Known findings: a fixed program each, run through the real tools. Prints the name if the tree still shows the defect.
static void knownFindings(const std::string& prop)
{
    if (prop != "S13") return;
    Stream s; s.rng = Rng(1); World w = baseWorld(s); w.ts = 0;
    w.fs.put("/w/t.c", "void trap_Printf(const char *s);\nstruct { unsigned b : 4; } g;\nint vmMain(int c)\n{\n\tg.b = 3;\n\tif (g.b - 5 < 0) trap_Printf(\"int\\n\"); else trap_Printf(\"unsigned\\n\");\n\treturn 0;\n}\n");
    w.fs.put("/w/sys.asm", SYS_ASM);
    auto add = [&](Tool t, std::vector<std::string> a) { Job j = mkJob(t, a); j.startAfter = (int)w.jobs.size() - 1; w.jobs.push_back(j); };
    add(T_LCC, { "-DQ3_VM", "-S", "-Wf-target=bytecode", "-o", "t.asm", "t.c" }); add(T_ASM, { "-o", "p", "t", "sys" }); add(T_VM, { "p.qvm" });
    Kernel* k = execute(w, {}); std::string o = outOf(k, 2);
    if (o.size() >= 9 && o.compare(o.size() - 9, 9, "unsigned\n") == 0) printf("bit-field-promotion\n");
    World w2 = baseWorld(s); w2.ts = 0; w2.fs.put("/w/a.c", "void trap_Printf(const char *s);\nstatic int v = 1;\nint other(void);\nint vmMain(int c)\n{\n\tif (v + other() == 3) trap_Printf(\"three\\n\");\n\treturn 0;\n}\n"); w2.fs.put("/w/b.c", "static int v = 2;\nint other(void)\n{\n\treturn v;\n}\n"); w2.fs.put("/w/sys.asm", SYS_ASM);
    auto add2 = [&](Tool t, std::vector<std::string> a) { Job j = mkJob(t, a); j.startAfter = (int)w2.jobs.size() - 1; w2.jobs.push_back(j); };
    for (const char* n : { "a", "b" }) add2(T_LCC, { "-DQ3_VM", "-S", "-Wf-target=bytecode", "-o", std::string(n) + ".asm", std::string(n) + ".c" }); add2(T_ASM, { "-o", "p", "a", "b", "sys" });
    k = execute(w2, {}); if (ok0(k, 0) && ok0(k, 1) && !ok0(k, 2) && (errOf(k, 2) + outOf(k, 2)).find("Multiple definitions for v") != std::string::npos) printf("static-names\n");
    World w3 = baseWorld(s); w3.ts = 0; w3.fs.put("/w/a.c", "struct { int b : 4; } g;\nint n = sizeof ((int)g.b);\n"); w3.jobs.push_back(mkJob(T_LCC, { "-DQ3_VM", "-S", "-Wf-target=bytecode", "-o", "a.asm", "a.c" }));
    k = execute(w3, {}); if (!ok0(k, 0) && errOf(k, 0).find("applied to a bit field") != std::string::npos) printf("sizeof-bit-field\n");
    freeKernels();
}

// ------------------------------------------------------------------ crashes while linking
static Fs afterPowerLoss(const World& w, Kernel* k, i64 m, i64 d, const std::string& old, const std::string& img)
{
    Fs f = w.fs; f.journalOn = false; (void)old; (void)img;
    while (f.ino.size() < k->fs.ino.size()) { f.ino.emplace_back(); Inode& n = f.ino.back(); const Inode& o = k->fs.ino[f.ino.size() - 1]; n.dir = o.dir; n.mode = o.mode; n.tty = o.tty; n.special = o.special; }
    i64 data = 0, idx = 0;
    for (auto& e : k->fs.journal) {
        if (e.k == JEnt::LINK) { if (idx < m) f.ino[e.dir].ents[e.name] = e.ino; }
        else if (e.k == JEnt::UNLINK) { if (idx < m || (e.off == 1 && idx - 1 < m)) { auto it = f.ino[e.dir].ents.find(e.name); if (it != f.ino[e.dir].ents.end() && it->second == e.ino) f.ino[e.dir].ents.erase(it); } }
        else if (e.k == JEnt::TRUNC) { if (data <= d && idx < m) f.ino[e.ino].data.resize((size_t)e.off); }
        else if (idx < m) { i64 room = d - data, n = std::min<i64>(room, (i64)e.data.size()); if (n > 0) { std::string& t = f.ino[e.ino].data; if (t.size() < e.off + (u64)n) t.resize((size_t)e.off + (size_t)n); memcpy(&t[e.off], e.data.data(), (size_t)n); } data += (i64)e.data.size(); }
        idx++;
    }
    return f;
}
static void runS15()
{
    Stream& s = S.s[0]; AsmScene a = asmScene(s, true, false, 3); if (a.ref.err || a.ref.unsure) { st.skipped++; return; }
    std::string old = putOld(s, a), want = str(a.ref.img); a.w.journal = true;
    scenarioNote = strf("q3asm links %zu files to %s (%zu bytes, older image: %zu bytes)", a.texts.size(), a.image.c_str(), want.size(), old.size());
    Kernel* ref = execute(a.w, {}, true); checkAsm(ref, 0, a, false, "undisturbed", old); if (viol.set()) return;
    auto gen = [&] {
        Stream& q = S.s[1]; std::vector<Act> plan;
        if (q.choose(6) == 0) { auto f = genFaults(q, ref, 1ull << O_UNLINK | 1ull << O_CREATE | 1ull << O_WRITE | 1ull << O_MKDIR | 1ull << O_RENAME); if (!f.empty()) plan.push_back(f[0]); }
        Act x;
        if (q.choose(3) == 0) x = pointAct(q, ref, A_KILL);
        else { // most of the interesting moments are between the last calls
            auto& v = ref->rec[{ 0, 0 }]; u64 first = 0; for (u64 i = 0; i < v.size(); i++) if (v[i].op == O_UNLINK) { first = i; break; }
            x = { 0, 0, q.choose(4) ? first + q.choose((u32)(v.size() - first)) : q.choose((u32)v.size()), 0, q.choose(3) ? A_CRASH : A_KILL, 0, 0 };
            if (x.kind == A_CRASH) { x.a = q.choose(3) ? 1000 : (i32)q.choose(1001); x.b = q.choose(3) == 0 ? 1000 : (i32)q.choose(1001); }
        }
        plan.push_back(x); return plan; };
    plans(8, gen, [&](const std::vector<Act>& plan) {
        Kernel* k = execute(a.w, plan); if (viol.set()) return;
        Fs after = k->fs; std::string how = "killed";
        if (k->crashed) {
            st.crashes++; how = "power loss";
            const Act* c = nullptr; for (auto& x : plan) if (x.kind == A_CRASH) c = &x;
            i64 tot = 0, idx = 0; i64 m = (i64)k->fs.journal.size() * c->a / 1000; for (auto& e : k->fs.journal) { if (e.k == JEnt::WRITE && idx < m) tot += (i64)e.data.size(); idx++; }
            after = afterPowerLoss(a.w, k, m, tot * c->b / 1000, old, want);
        } else st.kills += k->faults[A_KILL];
        after.spare = -1; after.journalOn = false; after.journal.clear();
        std::string p = norm(a.image), got = after.get(p); bool exists = after.exists(p);
        World v; v = a.w; v.fs = after; v.journal = false; v.jobs.clear(); v.jobs.push_back(mkJob(T_VM, { p })); v.pidNext = v.pidLo = 500;
        if (exists && got != want && got != old) {
            if (imageDefects((const u8*)got.data(), (i64)got.size()).empty()) { setViol("wrong-image-loads", strf("after %s the file under the output name (%zu bytes) is neither the old nor the new image, but loads: ", how.c_str(), got.size()) + firstDiff(got, want)); return; }
            Kernel* r = execute(v, {}); if (viol.set()) return;
            if (r->jobs[0].status == 0) { setViol("wrong-image-loads", strf("after %s the interpreter accepts the file under the output name", how.c_str())); return; }
        }
        if (ok0(k, 0) && !k->crashed && got != want) { setViol("wrong-image", "status 0, but the image is wrong"); return; }
        World again = a.w; again.fs = after; again.journal = false; again.pidNext = again.pidLo = 700; st.relinks++;
        Kernel* r = execute(again, {}); if (viol.set()) return;
        checkAsm(r, 0, a, false, ("linking again after " + how).c_str(), ""); });
}

// ------------------------------------------------------------------ concurrent builds
static void runS16()
{
    Stream& s = S.s[0]; World w = baseWorld(s); int lanes = 2 + (int)s.choose(3); struct Lane { std::vector<int> jobs; std::vector<std::string> outs; }; std::vector<Lane> L;
    cg::Program* shared = nullptr; scenarioNote = "";
    std::map<std::string, std::string> env; std::string tmp = "/tmp"; if (s.choose(4) == 0) { env["TMPDIR"] = tmp = "/w"; }
    for (int i = 0; i < lanes; i++) {
        Lane l; int last = -1; auto add = [&](Job j) { j.env = env; j.startAfter = last; last = (int)w.jobs.size(); l.jobs.push_back(last); w.jobs.push_back(j); };
        if (s.choose(4) == 0) { // link only
            ar::Gen g(s, 1 + (int)s.choose(2), true, 15); g.make(); std::vector<std::string> a = { "-o", strf("l%d", i) }; if (s.choose(2)) a.push_back("-m"); for (size_t f = 0; f < g.files.size(); f++) { std::string nm = strf("l%d_%zu", i, f); w.fs.put("/w/" + nm + ".asm", g.files[f]); a.push_back(nm); }
            add(mkJob(T_ASM, a)); l.outs.push_back(strf("/w/l%d.qvm", i)); l.outs.push_back(strf("/w/l%d.map", i));
        } else {
            bool several = s.choose(5) == 0; // all files in one command
            bool same = shared && s.choose(3) == 0; cg::Program* p = same ? shared : genProgram(s, false); if (!p) return; if (!shared) shared = p;
            std::string d = p == shared ? "s" : strf("p%d", i); w.fs.mkdirs("/w/" + d); for (auto& f : p->files) w.fs.put("/w/" + d + "/" + f.first, f.second);
            if (several) {
                std::vector<std::string> a = { "-DQ3_VM", "-Wf-target=bytecode" }; if (s.choose(2)) a.push_back("-S"); int na = (int)s.choose(3);
                for (size_t f = 0; f + 1 < p->files.size(); f++) { std::string nm = strf("m%d_%zu", i, f); w.fs.put("/w/" + d + "/" + nm + ".c", p->files[strf("t%zu.c", f)]); a.push_back(d + "/" + nm + ".c"); l.outs.push_back("/w/" + nm + ".asm"); if (na > 0 && s.choose(2)) { w.fs.put("/w/" + d + "/x.asm", "code\n"); a.push_back(d + "/x.asm"); } }
                add(mkJob(T_LCC, a)); L.push_back(l); if (w.jobs.size() >= 13) break; continue;
            }
            int n = (int)p->files.size() - 1; std::vector<std::string> link = { "-o", strf("q%d", i) }; bool bad = s.choose(6) == 0;
            if (bad) { w.fs.put(strf("/w/%s/bad%d.c", d.c_str(), i), "#include \"t.h\"\nint f(void) { return nope; }\n"); }
            for (int f = 0; f < n; f++) { std::string o = strf("q%d_%d.asm", i, f); std::vector<std::string> a = { "-DQ3_VM", "-S", "-Wf-target=bytecode" }; if (s.choose(3) == 0) a.push_back("-Wf-g"); a.insert(a.end(), { "-o", o, d + "/" + (bad && f == n - 1 ? strf("bad%d.c", i) : strf("t%d.c", f)) }); add(mkJob(T_LCC, a)); l.outs.push_back("/w/" + o); link.push_back(o); if (w.jobs.size() >= 13) break; }
            if (s.choose(2) && w.jobs.size() < 14) { w.fs.put("/w/sys.asm", SYS_ASM); link.push_back("sys"); add(mkJob(T_ASM, link)); l.outs.push_back(strf("/w/q%d.qvm", i)); }
        }
        L.push_back(l); if (w.jobs.size() >= 13) break;
    }
    if (L.size() < 2) { st.skipped++; return; }
    // the process numbers are soon used again, and earlier builds that were killed left their temporary files behind
    bool reuse = s.choose(2); w.pidLo = w.pidNext; w.pidHi = reuse ? w.pidLo + 3 * (int)L.size() + (int)s.choose(6) : 32000;
    if (s.choose(3) == 0) { w.pidHi = 4000000; static const int steps[] = { 0, 0, 10, 100, 128, 256, 500, 1000, 1024, 4096, 10000, 32768, 65536 }; w.pidStep = steps[s.choose(13)]; if (w.pidStep == 0) w.pidNext = w.pidLo = 10 + (int)s.choose(40); }
    std::set<std::string> staleNames; if (s.choose(4) > 0) for (auto& p : staleNamesFor(w, tmp, s, 1 + (int)s.choose(3))) { w.fs.put(p, "stale @ garbage $\n" + std::string(s.choose(9000), '#')); staleNames.insert(p); }
    w.fs.put(tmp + "/other.i", "other\n");
    for (size_t i = 0; i < L.size(); i++) { scenarioNote += strf("lane %zu:", i); for (int j : L[i].jobs) { for (auto& a : w.jobs[j].argv) scenarioNote += " " + a; scenarioNote += ";"; } scenarioNote += " "; }
    struct Res { std::map<std::string, std::string> f; std::vector<int> st; std::vector<std::string> out, err; };
    auto clean = [&](std::string e) { std::string o; for (size_t i = 0; i < e.size(); i++) { o += e[i]; if (o.size() >= 3 && o.compare(o.size() - 3, 3, "lcc") == 0) while (i + 1 < e.size() && isdigit((unsigned char)e[i + 1])) i++; } return o; };
    auto take = [&](Kernel* k, const Lane& l, const std::vector<int>& js) { Res r; for (auto& o : l.outs) if (k->fs.exists(o)) r.f[o] = k->fs.get(o); for (int j : js) { r.st.push_back(k->jobs[j].status); r.out.push_back(clean(outOf(k, j))); r.err.push_back(clean(errOf(k, j))); } return r; };
    std::vector<Res> solo;
    for (auto& l : L) { World v = w; v.jobs.clear(); std::vector<int> js; for (size_t i = 0; i < l.jobs.size(); i++) { Job j = w.jobs[l.jobs[i]]; j.startAfter = (int)i - 1; v.jobs.push_back(j); js.push_back((int)i); } v.pidHi = 32000; v.pidStep = 1; for (auto& x : staleNames) { int e, par; std::string nm; int n = v.fs.resolve("/", x.c_str(), &par, &nm, &e); if (n >= 0) v.fs.ino[par].ents.erase(nm); } Kernel* k = execute(v, {}); noCrash(k, "alone"); if (viol.set()) return; solo.push_back(take(k, l, js)); }
    auto check = [&](Kernel* k, const char* what) {
        if (viol.set()) return;
        for (size_t i = 0; i < L.size(); i++) {
            Res r = take(k, L[i], L[i].jobs);
            for (size_t j = 0; j < r.st.size(); j++) if (r.st[j] != solo[i].st[j]) { setViol("interference", strf("%s: lane %zu step %zu: %s, alone %s: ", what, i, j, statusStr(r.st[j]).c_str(), statusStr(solo[i].st[j]).c_str()) + r.err[j].substr(0, 300)); return; }
            if (r.f != solo[i].f) { for (auto& o : L[i].outs) { auto a = r.f.find(o), b = solo[i].f.find(o); std::string x = a == r.f.end() ? "(absent)" : a->second, y = b == solo[i].f.end() ? "(absent)" : b->second; if (x != y) { setViol("interference", strf("%s: the output ", what) + o + " differs from what the build alone produces: " + firstDiff(x, y)); return; } } }
            if (r.out != solo[i].out) { setViol("interference", strf("%s: lane %zu prints something else than alone", what, i)); return; }
            if (r.err != solo[i].err) { setViol("interference", strf("%s: lane %zu prints other messages than alone", what, i)); return; }
        }
        std::set<std::string> allowed; for (auto& l : L) for (auto& o : l.outs) allowed.insert(o);
        for (auto& f : w.fs.files()) { if (allowed.count(f.first)) continue; bool st_ = staleNames.count(f.first); if (!k->fs.exists(f.first)) { if (!st_) setViol("interference", strf("%s: %s disappeared", what, f.first.c_str())); } else if (k->fs.get(f.first) != w.fs.ino[f.second].data) setViol("interference", strf("%s: %s was changed", what, f.first.c_str())); }
        for (auto& f : k->fs.files()) if (!allowed.count(f.first) && w.fs.lookup(f.first) < 0) setViol("leftover", strf("%s: %s is left behind", what, f.first.c_str()));
    };
    Kernel* ref = execute(w, {}, true); check(ref, "one after the other"); noCrash(ref, "concurrent"); if (viol.set()) return;
    auto gen = [&] {
        Stream& q = S.s[1]; std::vector<Act> plan; int n = q.choose(3) ? q.range(2, 12) : q.range(12, 60); std::set<u64> seen;
        for (int i = 0; i < n; i++) { Act a = pointAct(q, ref, A_SWITCH); a.a = (i32)q.choose(64); if (seen.insert(actKey(a.job, a.nth, a.at) ^ (u64)a.edge << 63).second) plan.push_back(a); }
        if (q.choose(3) == 0) { int j, nth, op; u64 at; if (pickEvent(q, ref, ~0ull, j, nth, at, op)) { Act a{ j, nth, at, 0, A_CLOCK, q.choose(2) ? -(i32)q.choose(100000) : (i32)q.choose(100000), 0 }; plan.push_back(a); } }
        if (q.choose(4) == 0) { int j, nth, op; u64 at; if (pickEvent(q, ref, 1ull << O_READ | 1ull << O_WRITE, j, nth, at, op)) { Act a{ j, nth, at, 0, A_SHORT, (i32)q.choose(1000), 0 }; plan.push_back(a); } }
        return plan; };
    plans(4, gen, [&](const std::vector<Act>& plan) { Kernel* k = execute(w, plan); noCrash(k, "interleaved"); check(k, "interleaved"); });
}

// ------------------------------------------------------------------ temporary files and signals
static void runS17()
{
    Stream& s = S.s[0]; CScene c; if (!lccScene(s, c, true, true)) return;
    World& w = c.w; if (s.choose(5) == 0) for (auto& n : staleNamesFor(w, c.tmp, s, 2)) w.fs.put(n, "stale @ garbage\n"); w.keepEvs = true; if (s.choose(5) == 0) for (auto& j : w.jobs) j.ignored = 1u << (s.choose(2) ? SIGHUP : SIGINT);
    w.fs.put(c.tmp + "/lcc7770.i", "somebody else's\n"); w.fs.put(c.tmp + "/lcc.i", "x\n"); std::map<std::string, std::string> before; for (auto& f : w.fs.files()) before[f.first] = w.fs.ino[f.second].data;
    std::set<std::string> outs; for (auto& o : c.outs) outs.insert(norm(o));
    for (auto& j : w.jobs) if (!j.outPath.empty()) outs.insert(j.outPath);
    auto check = [&](Kernel* k, const std::vector<Act>& plan) {
        if (viol.set()) return;
        std::set<std::string> own; // what the processes of these builds created
        std::set<int> pids; for (Proc* p : k->procs) pids.insert(p->pid);
        auto isTempOf = [&](const std::string& p) { size_t sl = p.rfind('/'); std::string b = p.substr(sl + 1); if (p.substr(0, sl) != norm(c.tmp)) return false; for (int pid : pids) if (b.find(strf("%d", pid)) != std::string::npos) return true; return false; };
        std::set<std::string> undeletable; // lcc tried, but the system refused
        for (auto& e : k->evs) {
            if (e.op == O_UNLINK && e.res < 0) undeletable.insert(e.path);
            if (e.op == O_CREATE && e.res >= 0) own.insert(e.path);
            if (e.op == O_UNLINK && e.res >= 0 && !own.count(e.path) && !isTempOf(e.path)) setViol("foreign-file-removed", strf("%s[%d] removes %s, which it did not create", toolName[e.tool], e.pid, e.path.c_str()));
            if (e.op == O_UNLINK && e.res >= 0 && outs.count(e.path) && before.count(e.path) && !own.count(e.path)) setViol("foreign-file-removed", "removes " + e.path);
        }
        for (auto& f : k->fs.files()) {
            auto b = before.find(f.first);
            if (b == before.end()) { if (!outs.count(f.first) && !undeletable.count(f.first)) setViol("temporary-file-left", strf("%s remains after all processes have ended", f.first.c_str())); }
            else if (!outs.count(f.first) && k->fs.ino[f.second].data != b->second) { if (!isTempOf(f.first)) setViol("foreign-file-changed", f.first + " was changed"); else if (b->second.find("stale") == std::string::npos) setViol("foreign-file-changed", f.first + " was changed"); }
        }
        for (auto& f : before) if (!k->fs.exists(f.first) && !isTempOf(f.first) && !outs.count(f.first)) setViol("foreign-file-removed", f.first + " disappeared");
        for (Proc* p : k->procs) if (p->tool == T_LCC && p->nth == 0) {
            if (p->unreaped) setViol("child-not-waited-for", strf("lcc ended without waiting for %d of its processes", p->unreaped));
            int stt = k->jobs[p->job].status; bool bad = p->everSignalled; for (Proc* q : k->procs) if (q->job == p->job && q != p && q->status & 127) bad = true;
            if (bad && stt == 0) setViol("signal-not-reported", strf("job %d: a signal ended the compilation, but the exit status is 0", p->job));
        }
        bool anySig = false; for (auto& a : plan) anySig |= a.kind == A_SIG; bool counted = false; for (Proc* p : k->procs) counted |= p->everSignalled;
        bool onlySig = true; for (auto& a : plan) onlySig &= a.kind == A_SIG;
        if (anySig && onlySig && !counted && c.valid && !allOk(k)) setViol("ignored-signal-disturbs", "a signal that is ignored makes the compilation fail");
    };
    Kernel* ref = execute(w, {}, true); check(ref, {}); noCrash(ref, "lcc"); if (viol.set()) return;
    auto gen = [&] {
        Stream& q = S.s[1]; std::vector<Act> plan; static const int sg[] = { SIGINT, SIGTERM, SIGHUP };
        int ns = q.choose(5) == 0 ? 0 : 1 + (int)(q.choose(4) == 0);
        for (int i = 0; i < ns; i++) { Act a = pointAct(q, ref, A_SIG); a.a = sg[q.choose(3)]; a.b = (i32)q.choose(3); plan.push_back(a); }
        if (!ns || q.choose(6) == 0) { auto f = genFaults(q, ref, FAULTABLE & ~(1ull << O_UNLINK)); for (auto& x : f) { if (x.kind == A_TRUNC) x.kind = A_IOERR; plan.push_back(x); } }
        if (q.choose(3) == 0) { int n = q.range(1, 4); for (int i = 0; i < n; i++) { Act a = pointAct(q, ref, A_SWITCH); a.a = (i32)q.choose(16); plan.push_back(a); } }
        return plan; };
    plans(8, gen, [&](const std::vector<Act>& plan) { Kernel* k = execute(w, plan); for (Proc* p : k->procs) if (p->crashed && p->status == SIGABRT) return; (allOk(k) ? st.plansOk : st.plansFailed)++; check(k, plan); });
}

// ------------------------------------------------------------------ runs, replay, reduction
static void oneRun(const std::string& prop)
{
    viol = Violation(); lastHash = 0; failPlan.clear(); failTrace.clear(); scenarioNote.clear(); st.runs++;
    if (prop == "S10") runS10(); else if (prop == "S11") runS11(); else if (prop == "S12") runS12(); else if (prop == "S13") runS13();
    else if (prop == "S15") runS15(); else if (prop == "S16") runS16(); else if (prop == "S17") runS17(); else if (prop == "S19") runS19();
    else { fprintf(stderr, "unknown property %s\n", prop.c_str()); exit(3); }
    if (viol.set() && K) failTrace = K->trace;
    if (viol.set()) lastHash = hash_bytes(viol.kind.data(), viol.kind.size(), lastHash);
    stateHashes.insert(lastHash);
    freeKernels(); freeProgs();
}
static std::string actJson(const Act& a) { return strf("{\"job\":%d,\"process\":%d,\"%s\":%llu,\"kind\":%d,\"a\":%d,\"b\":%d,\"what\":\"%s\"}", a.job, a.nth, a.edge ? "edge" : "call", (unsigned long long)a.at, a.kind, a.a, a.b, actName[a.kind]); }
static std::string replayJson(const std::string& prop, u64 seed, u64 run)
{
    std::string o = "{\n \"tool\": \"toolsim\",\n \"property\": " + jesc(prop) + strf(",\n \"seed\": %llu,\n \"run\": %llu,\n", (unsigned long long)seed, (unsigned long long)run);
    o += " \"violation\": {\"kind\": " + jesc(viol.kind) + ", \"detail\": " + jesc(viol.detail) + "},\n \"scenario\": " + jesc(scenarioNote) + strf(",\n \"hash\": \"%016llx\",\n", (unsigned long long)lastHash);
    o += " \"plan\": ["; for (size_t i = 0; i < failPlan.size(); i++) o += (i ? ",\n  " : "\n  ") + actJson(failPlan[i]); o += "\n ],\n \"streams\": {\n  \"0\": [";
    for (size_t k = 0; k < S.s[0].rec.size(); k++) o += strf(k ? ",%u" : "%u", S.s[0].rec[k]);
    return o + "]\n }\n}\n";
}
static void loadReplay(const char* path, std::string& prop)
{
    FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    size_t p = t.find("\"property\": \""); prop = t.substr(p + 13, t.find('"', p + 13) - p - 13);
    for (auto& x : S.s) x = Stream();
    fixedPlan.clear(); p = t.find("\"plan\": ["); size_t e = t.find("\n ]", p);
    while ((p = t.find("{\"job\":", p)) != std::string::npos && p < e) {
        Act a{}; unsigned long long at; char w[8]; if (sscanf(&t[p], "{\"job\":%d,\"process\":%d,\"%4[a-z]\":%llu,\"kind\":%d,\"a\":%d,\"b\":%d", &a.job, &a.nth, w, &at, &a.kind, &a.a, &a.b) != 7) { fprintf(stderr, "bad plan\n"); exit(3); }
        a.at = at; a.edge = !strcmp(w, "edge"); fixedPlan.push_back(a); p++;
    }
    p = t.find("\"0\": [", e) + 6; while (t[p] != ']') { while (t[p] == ',' || t[p] == ' ') p++; if (t[p] == ']') break; S.s[0].rec.push_back((u32)strtoul(&t[p], nullptr, 10)); while (t[p] >= '0' && t[p] <= '9') p++; }
    S.rewind(true); replaying = true;
}
static std::string bestJson, bestPath;
static void onAlarm(int) { int fd = open(bestPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); bool ok = fd >= 0 && write(fd, bestJson.data(), bestJson.size()) == (ssize_t)bestJson.size(); _exit(ok ? 0 : 3); } // a candidate does not end (an endless loop without system calls in the uninstrumented build)
static void minimise(const std::string& prop, double limit, const std::function<std::string()>& json)
{
    signal(SIGALRM, onAlarm); failPlan = fixedPlan; bestJson = json(); alarm((unsigned)limit + 10);
    double end = now_s() + limit; std::string kind = viol.kind; replaying = true;
    auto attempt = [&](Streams cand, std::vector<Act> plan) -> bool {
        Streams keep = S; auto kp = fixedPlan; S = cand; fixedPlan = plan; S.rewind(true); oneRun(prop);
        bool ok = viol.set() && viol.kind == kind; if (!ok) { S = keep; fixedPlan = kp; } else { failPlan = fixedPlan; auto j = json(); sigset_t b, o; sigemptyset(&b); sigaddset(&b, SIGALRM); sigprocmask(SIG_BLOCK, &b, &o); bestJson.swap(j); sigprocmask(SIG_SETMASK, &o, nullptr); } return ok; };
    auto plansSmaller = [&] { bool pr = false; for (size_t len = std::max<size_t>(1, fixedPlan.size() / 2); len >= 1 && now_s() < end; len /= 2) for (size_t k = 0; k + len <= fixedPlan.size() && now_s() < end;) { auto p = fixedPlan; p.erase(p.begin() + k, p.begin() + k + len); if (attempt(S, p)) pr = true; else k += len; } return pr; };
    if (S.s[0].pos < S.s[0].rec.size()) S.s[0].rec.resize(S.s[0].pos);
    bool progress = true;
    while (progress && now_s() < end) {
        progress = plansSmaller(); auto& rec = S.s[0].rec;
        for (size_t cut = rec.size(); cut >= 1 && now_s() < end; cut /= 2) while (rec.size() >= cut && now_s() < end) { Streams c = S; c.s[0].rec.resize(c.s[0].rec.size() - cut); if (!attempt(c, fixedPlan)) break; progress = true; }
        for (size_t len = 256; len >= 1 && now_s() < end; len /= 2) {
            for (size_t k = 0; k + len <= rec.size() && now_s() < end;) { Streams c = S; c.s[0].rec.erase(c.s[0].rec.begin() + k, c.s[0].rec.begin() + k + len); if (attempt(c, fixedPlan)) progress = true; else k += len; }
            for (size_t k = 0; k + len <= rec.size() && now_s() < end; k += len) { Streams c = S; bool ch = false; for (size_t j = k; j < k + len; j++) { ch |= c.s[0].rec[j] != 0; c.s[0].rec[j] = 0; } if (ch && attempt(c, fixedPlan)) progress = true; }
        }
    }
    S.rewind(true); oneRun(prop); failPlan = fixedPlan;
}
static void writeStats(const char* path, double wall, u64 done)
{
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    u64 g = 0; for (u32 i = 1; i < guardTop; i++) g += guardHit[i];
    fprintf(f, "{\"wall\": %.3f, \"done\": %llu", wall, (unsigned long long)done);
#define P(x) fprintf(f, ", \"%s\": %llu", #x, (unsigned long long)st.x);
    P(runs) P(execs) P(procs) P(calls) P(edges) P(switches) P(simSeconds) P(forks) P(plansOk) P(plansFailed) P(signalsHandled) P(pidReuse) P(crashes) P(kills) P(images) P(programs) P(sourceErrors) P(unmodelled) P(asmFiles) P(asmErrors) P(asmUnsure) P(lines) P(relinks) P(skipped) P(programSteps) P(linkedInstructions) P(flavourPairs)
    for (int i = 0; i < NACT - 1; i++) fprintf(f, ", \"f_%s\": %llu", actName[i], (unsigned long long)st.f[i]);
    for (int i = 0; i < NKOP; i++) if (FAULTABLE >> i & 1) fprintf(f, ", \"fail_%s\": %llu", kopName[i], (unsigned long long)st.fo[i]);
    fprintf(f, ", \"guardsHit\": %llu, \"guardsTotal\": %u, \"stateHashes\": %zu}\n", (unsigned long long)g, guardTop - 1, stateHashes.size());
    fclose(f);
    auto dump = [&](std::string p, std::unordered_set<u64>& s) { FILE* o = fopen(p.c_str(), "wb"); for (u64 x : s) fwrite(&x, 8, 1, o); fclose(o); };
    dump(std::string(path) + ".traces", traceHashes); dump(std::string(path) + ".scheds", schedHashes);
    f = fopen((std::string(path) + ".guards").c_str(), "wb"); fwrite(guardHit, 1, guardTop, f); fclose(f);
}
int main(int argc, char** argv)
{
    std::map<std::string, std::string> o;
    for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); } }
    stack_t ss = {}; ss.ss_sp = altStk; ss.ss_size = sizeof altStk; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP }) sigaction(s, &sa, nullptr);
    std::string dir = o["--build"]; if (dir.empty()) dir = "build";
    if (dir[0] != '/') { char b[4096]; if (!getcwd(b, sizeof b)) return 3; dir = std::string(b) + "/" + dir; }
    for (const char* fl : { "inst", "rel" }) if (!loadTools(dir, fl)) return 3;
    std::string prop = o["--prop"]; u64 seed = strtoull(o["--seed"].c_str(), nullptr, 10);
    if (o.count("--known")) { knownFindings(o["--known"]); return 0; }
    if (o.count("--replay")) {
        wantTrace = o.count("--verbose"); loadReplay(o["--replay"].c_str(), prop); oneRun(prop);
        printf("hash %016llx\n", (unsigned long long)lastHash);
        if (wantTrace) { printf("scenario: %s\n", scenarioNote.c_str()); for (auto& l : failTrace) printf("%s\n", l.c_str()); }
        if (viol.set()) { printf("violation %s: %s\n", viol.kind.c_str(), viol.detail.c_str()); return 1; }
        printf("no violation\n"); return 0;
    }
    if (o.count("--minimise")) {
        loadReplay(o["--minimise"].c_str(), prop); oneRun(prop);
        if (!viol.set()) { fprintf(stderr, "replay does not fail\n"); return 3; }
        bestPath = o["--out"]; u64 run = strtoull(o["--run"].c_str(), nullptr, 10);
        minimise(prop, atof(o["--limit"].c_str()), [&] { return replayJson(prop, seed, run); }); alarm(0);
        FILE* f = fopen(o["--out"].c_str(), "w"); std::string j = replayJson(prop, seed, run); fwrite(j.data(), 1, j.size(), f); fclose(f);
        return 0;
    }
    u64 from = strtoull(o["--from"].c_str(), nullptr, 10), to = strtoull(o["--to"].c_str(), nullptr, 10), step = strtoull(o["--step"].c_str(), nullptr, 10); if (!step) step = 1;
    double cap = o.count("--cap") ? atof(o["--cap"].c_str()) : 1e9, t0 = now_s();
    FILE* hf = o.count("--hashes") ? fopen(o["--hashes"].c_str(), "w") : nullptr;
    u64 done = 0; int rc = 0;
    if (o.count("--show")) { // one run, written out
        wantTrace = true; S.seed(mix(seed * 1000003 + 17, from)); oneRun(prop);
        size_t lim = strtoull(o["--show"].c_str(), nullptr, 10); printf("run %llu: %s\n", (unsigned long long)from, scenarioNote.c_str());
        printf("%llu simulated executions, %llu processes, %llu calls\n", (unsigned long long)st.execs, (unsigned long long)st.procs, (unsigned long long)st.calls); (void)lim;
        for (size_t i = 0; i < showTrace.size() && i < lim; i++) printf("%s\n", showTrace[i].c_str());
        printf("%s\n", viol.set() ? (viol.kind + ": " + viol.detail).c_str() : "held"); return 0;
    }
    volatile u64* progress = nullptr;
    if (o.count("--progress")) {
        int fd = open(o["--progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, 4096)) { perror("progress"); return 3; }
        progress = (volatile u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (progress == MAP_FAILED) return 3;
    }
    for (u64 r = from; r < to; r += step) {
        if (now_s() - t0 > cap) break;
        S.seed(mix(seed * 1000003 + 17, r));
        if (progress) progress[0] = r + 1;
        oneRun(prop); done++;
        if (hf) fprintf(hf, "%llu %016llx\n", (unsigned long long)r, (unsigned long long)lastHash);
        if (viol.set()) {
            if (viol.kind == "harness") { fprintf(stderr, "run %llu: %s\n", (unsigned long long)r, viol.detail.c_str()); return 3; }
            FILE* f = fopen(o["--fail"].c_str(), "w"); std::string j = replayJson(prop, seed, r); fwrite(j.data(), 1, j.size(), f); fclose(f);
            fprintf(stderr, "run %llu: %s: %s\n", (unsigned long long)r, viol.kind.c_str(), viol.detail.c_str());
            rc = 10; break;
        }
    }
    if (hf) fclose(hf);
    if (o.count("--stats")) writeStats(o["--stats"].c_str(), now_s() - t0, done);
    return rc;
}
