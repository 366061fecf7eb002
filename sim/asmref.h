// Reference assembler, written from the assembly language that lcc's bytecode target emits and
// the image format the interpreter documents, and a generator of random assembly programs.
#pragma once
#include "core.h"
#include "model.h"

namespace ar {
enum { MAXIMG = 0x400000, STACK = 0x10000 };
struct Result { bool err = false, mayErr = false, unsure = false; std::string why; std::vector<u8> img; std::vector<std::vector<std::pair<i32, std::string>>> map = std::vector<std::vector<std::pair<i32, std::string>>>(4); int icount = 0; };

// the instruction an lcc operator stands for: -1 not an operator, -2 nothing is emitted, -3 not supported
static inline int opcodeOf(const std::string& t)
{
    static std::map<std::string, int> m;
    if (m.empty()) {
        auto add = [&](const char* base, const char* types, int op) { for (const char* p = types; *p;) { std::string s = base; while (*p && *p != ' ') s += *p++; while (*p == ' ') p++; m[s] = op; } };
        m["BREAK"] = BREAK;
        add("CNST", "F4 I4 P4 U4 I2 U2 I1 U1", CONST); add("ADDRG", "P4", CONST);
        add("ASGN", "F4 I4 P4 U4", STORE4); add("ASGN", "I2 U2", STORE2); add("ASGN", "I1 U1", STORE1); m["ASGNB"] = BLOCK_COPY;
        add("INDIR", "F4 I4 P4 U4", LOAD4); add("INDIR", "I2 U2", LOAD2); add("INDIR", "I1 U1", LOAD1); m["INDIRB"] = -2;
        m["CVFI4"] = CVFI; m["CVIF4"] = CVIF; m["CVII4"] = SEX8; for (const char* s : { "CVII1", "CVII2", "CVIU4", "CVPU4", "CVUI4", "CVUP4", "CVUU4" }) m[s] = -2;
        add("NEG", "F4", NEGF); add("NEG", "I4", NEGI); m["CALLV"] = CALL; m["JUMPV"] = JUMP;
        add("ADD", "F4", ADDF); add("ADD", "I4 P4 P U4", ADD); add("SUB", "F4", SUBF); add("SUB", "I4 P4 U4", SUB); add("LSH", "I4 U4", LSH); add("MOD", "I4", MODI); add("MOD", "U4", MODU); add("RSH", "I4", RSHI); add("RSH", "U4", RSHU);
        add("BAND", "I4 U4", BAND); add("BCOM", "I4 U4", BCOM); add("BOR", "I4 U4", BOR); add("BXOR", "I4 U4", BXOR); add("DIV", "F4", DIVF); add("DIV", "I4", DIVI); add("DIV", "U4", DIVU); add("MUL", "F4", MULF); add("MUL", "I4", MULI); add("MUL", "U4", MULU);
        add("EQ", "F4", EQF); add("EQ", "I4 U4", EQ); add("NE", "F4", NEF); add("NE", "I4 U4", NE);
        add("GE", "F4", GEF); add("GE", "I4", GEI); add("GE", "U4", GEU); add("GT", "F4", GTF); add("GT", "I4", GTI); add("GT", "U4", GTU);
        add("LE", "F4", LEF); add("LE", "I4", LEI); add("LE", "U4", LEU); add("LT", "F4", LTF); add("LT", "I4", LTI); add("LT", "U4", LTU);
        for (const char* s : { "CVFF4", "LOADB4", "LOADF4", "LOADI4", "LOADP4", "LOADU4" }) m[s] = -3;
    }
    auto it = m.find(t); return it == m.end() ? -1 : it->second;
}
static inline bool takesOperand(int op) { return op == CONST || op == BLOCK_COPY || opBranch(op); }
static inline bool pre(const std::string& t, const char* p) { return t.compare(0, strlen(p), p) == 0; }
static inline bool number(const std::string& s, i64& v) { size_t i = s.size() && s[0] == '-' ? 1 : 0; if (i >= s.size() || s.size() > 18) return false; for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false; v = strtoll(s.c_str(), nullptr, 10); return true; }

struct Asm {
    enum Seg { CODE_, DATA_, LIT_, BSS_, NS };
    struct Sym { Seg seg; i64 v; };
    struct Fix { Seg seg; i64 at; std::string expr; int file; };
    std::vector<u8> mem[NS]; i64 used[NS] = { 0, 4, 0, 0 }; std::map<std::string, Sym> syms; std::vector<Fix> fixes; Result R;
    Seg cur = CODE_; bool haveSeg = false; int icount = 0; i64 locals = 0, args = 0, argOff = 0; Sym* open = nullptr; bool fresh = false; i64 lastAlign = 1; bool inObject = false, haveProc = false;
    void bad(const std::string& w) { if (!R.err) { R.err = true; R.why = w; } }
    void doubt(const std::string& w) { if (!R.unsure) { R.unsure = true; if (R.why.empty()) R.why = w; } }
    void put(Seg s, int b) { if (s == BSS_) { doubt("bytes in bss"); return; } if (used[s] >= MAXIMG - 4) R.mayErr = true; if (used[s] >= MAXIMG) { bad("segment overflow"); return; } if ((i64)mem[s].size() < used[s] + 1) mem[s].resize((size_t)used[s] + 1); mem[s][(size_t)used[s]] = (u8)b; used[s]++; }
    void put4(Seg s, i64 v) { for (int i = 0; i < 4; i++) put(s, (int)(v >> (8 * i)) & 255); }
    void ins(int op) { put(CODE_, op); icount++; }
    std::string key(const std::string& n, int file) { return n[0] == '$' ? n + strf("/%d", file) : n; }
    void define(const std::string& n, int file, Seg seg, i64 v)
    {
        if (n.empty()) { doubt("empty name"); return; }
        std::string k = key(n, file);
        if (syms.count(k)) { bad("duplicate " + n); open = nullptr; return; }
        syms[k] = { seg, v }; open = &syms[k]; fresh = true;
    }
    void expr(Seg s, const std::string& e, int file) { if (e.empty()) doubt("no operand"); fixes.push_back({ s, used[s], e, file }); put4(s, 0); }
    i64 value(const Fix& f)
    {
        const std::string& e = f.expr; size_t i = e[0] == '-' ? 1 : 0; while (i < e.size() && e[i] != '+' && e[i] != '-') i++;
        std::string a = e.substr(0, i); i64 v = 0;
        if (a[0] == '-' || (a[0] >= '0' && a[0] <= '9')) { if (!number(a, v)) doubt("number " + a); }
        else { auto it = syms.find(key(a, f.file)); if (it == syms.end()) bad("undefined " + a); else v = it->second.v + base(it->second.seg); }
        while (i < e.size()) { size_t j = i + 1; while (j < e.size() && e[j] != '+' && e[j] != '-') j++; i64 w = 0; if (!number(e.substr(i + 1, j - i - 1), w)) doubt("number in " + e); v += e[i] == '+' ? w : -w; i = j; }
        return v;
    }
    i64 base(Seg s) { i64 d = (used[DATA_] + 3) & ~3ll, l = (used[LIT_] + 3) & ~3ll; return s == LIT_ ? d : s == BSS_ ? d + l : 0; }
    // an object lives in one piece: 8 bit objects (strings) in the literal segment, others in the data segment
    void object(Seg want)
    {
        if (cur == want || cur == CODE_) { if (cur == CODE_) { if (want != cur) doubt("data in the code segment"); } return; }
        if (inObject) return;
        if (!fresh || !open) { doubt("data without a label"); }
        cur = want; if (lastAlign > 1) used[cur] = (used[cur] + lastAlign - 1) & ~(lastAlign - 1);
        if (open) { open->seg = cur; open->v = used[cur]; }
    }
    void line(const std::vector<std::string>& t, int file)
    {
        auto arg = [&](size_t i) { return i < t.size() ? t[i] : std::string(); };
        auto num = [&](size_t i) { i64 v = 0; if (!number(arg(i), v)) doubt("number expected: " + arg(i)); return v; };
        const std::string& o = t[0]; int op = opcodeOf(o);
        if (o == "CVUU1" || o == "CVUU2") { if (!haveSeg) doubt("no segment"); ins(CONST); put4(CODE_, o == "CVUU1" ? 0xff : 0xffff); ins(BAND); return; }
        if (op == -2) return;
        if (op == -3) { bad("unsupported operator " + o); return; }
        if (op >= 0) {
            if (!haveSeg) doubt("no segment");
            if (op == SEX8) { std::string a = arg(1); if (a.empty() || (a[0] != '1' && a[0] != '2')) { bad("bad extension"); return; } if (t.size() > 2) doubt("extra operand"); ins(a[0] == '1' ? SEX8 : SEX16); return; }
            if (op == CVIF || op == CVFI) { ins(op); return; }
            if (takesOperand(op) != (t.size() > 1)) doubt("operand of " + o);
            if (op == CALL) argOff = 0; ins(op); if (t.size() > 1) expr(CODE_, t[1], file);
            return;
        }
        if ((pre(o, "ADDRL") || pre(o, "ADDRF") || pre(o, "RET") || o == "endproc") && !haveProc) doubt("no procedure");
        if (pre(o, "ADDRL")) { i64 v = 0; std::string e = arg(1); Fix f{ CODE_, 0, e, file }; if (e.empty()) doubt("ADDRL"); else { Asm* s = this; v = s->value(f); } ins(LOCAL); put4(CODE_, 8 + args + v); return; }
        if (pre(o, "ADDRF")) { i64 v = 0; std::string e = arg(1); Fix f{ CODE_, 0, e, file }; if (e.empty()) doubt("ADDRF"); else v = value(f); ins(LOCAL); put4(CODE_, 16 + args + locals + v); return; }
        if (o == "byte") {
            i64 n = num(1), v = num(2); if (n == 2) { bad("16 bit data"); return; } if (n != 1 && n != 4) { doubt("byte size"); return; }
            object(n == 1 ? LIT_ : DATA_); for (int i = 0; i < n; i++) put(cur, (int)(v >> (8 * i)) & 255); fresh = false; inObject = true; return;
        }
        if (o == "line" || o == "file" || o == "import" || o == "export") return;
        if (pre(o, "ARG")) { ins(ARG); if (8 + argOff >= 256) { bad("too many arguments"); return; } put(CODE_, (int)(8 + argOff)); argOff += 4; return; }
        if (pre(o, "LABEL")) { if (!haveSeg) doubt("no segment"); define(arg(1), file, cur, cur == CODE_ ? icount : used[cur]); inObject = false; return; }
        if (pre(o, "CALL")) { ins(CALL); argOff = 0; return; }
        if (pre(o, "pop")) { ins(POP); return; }
        if (pre(o, "RET")) { ins(LEAVE); put4(CODE_, 8 + locals + args); return; }
        if (o == "align") { i64 v = num(1); if (v != 1 && v != 2 && v != 4) doubt("alignment"); else { used[cur] = (used[cur] + v - 1) & ~(v - 1); lastAlign = v; } return; }
        if (o == "proc") {
            haveProc = true;
            if (argOff) doubt("arguments without a call");
            if (cur != CODE_ || !haveSeg) doubt("proc outside code");
            define(arg(1), file, cur, icount); i64 l = (num(2) + 3) & ~3ll, a = (num(3) + 3) & ~3ll; if (l < 0 || a < 0) doubt("negative frame"); locals = l; args = a;
            if (8 + l + a >= 32767) bad("frame too large"); ins(ENTER); put4(CODE_, 8 + l + a); return;
        }
        if (o == "endproc") { ins(PUSH); ins(LEAVE); put4(CODE_, 8 + locals + args); return; }
        if (o == "address") { object(DATA_); expr(cur, arg(1), file); fresh = false; inObject = true; return; }
        if (o == "skip") { i64 v = num(1); if (v < 0 || cur == CODE_) { doubt("skip"); return; } used[cur] += v; if (cur != BSS_ && used[cur] > MAXIMG) bad("segment overflow"); if (used[cur] > 0x7fff0000) bad("segment overflow"); fresh = false; inObject = true; return; }
        if (o == "equ") { if (cur != CODE_ && cur != DATA_) doubt("equ outside code"); define(arg(1), file, cur, (i32)num(2)); fresh = false; return; }
        if (o == "code" || o == "data" || o == "lit" || o == "bss") { cur = o == "code" ? CODE_ : o == "data" ? DATA_ : o == "lit" ? LIT_ : BSS_; haveSeg = true; fresh = false; open = nullptr; inObject = false; return; }
        bad("unknown token " + o);
    }
    Result run(const std::vector<std::string>& files)
    {
        for (size_t f = 0; f < files.size(); f++) {
            std::string text = files[f].substr(0, files[f].find('\0')); size_t p = 0;
            while (p < text.size()) {
                size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size();
                std::string l = text.substr(p, e - p); p = e + 1;
                if (l.size() >= 1024) { size_t b = 0; while (b < l.size() && (signed char)l[b] <= ' ') { if ((signed char)l[b] < 0) doubt("bytes above 127"); b++; } if (b < l.size() && l[b] != ';') bad("line too long"); if (b == l.size()) doubt("long blank line"); continue; }
                std::vector<std::string> t; size_t i = 0;
                while (i < l.size()) {
                    while (i < l.size() && (signed char)l[i] <= ' ') { if ((signed char)l[i] < 0) doubt("bytes above 127"); i++; }
                    if (i >= l.size() || l[i] == ';') break;
                    size_t j = i; while (j < l.size() && (signed char)l[j] > ' ') j++;
                    t.push_back(l.substr(i, j - i)); i = j;
                }
                if (!t.empty()) line(t, (int)f);
            }
        }
        if (argOff) doubt("arguments without a call");
        for (auto& f : fixes) { i64 v = value(f); for (int i = 0; i < 4; i++) if (f.at + i < (i64)mem[f.seg].size()) mem[f.seg][(size_t)f.at + i] = (u8)(v >> (8 * i)); }
        if (R.err || R.unsure) return R;
        i64 bssUser = used[BSS_], bss = ((used[BSS_] + 3) & ~3ll);
        for (int s = 0; s < 3; s++) { used[s] = (used[s] + 3) & ~3ll; mem[s].resize((size_t)used[s]); }
        (void)bssUser;
        for (auto& s : syms) { std::string n = s.first; if (n[0] == '$') continue; R.map[s.second.seg].push_back({ (i32)s.second.v, n }); }
        R.map[BSS_].push_back({ (i32)bss, "_stackStart" }); R.map[BSS_].push_back({ (i32)(bss + STACK), "_stackEnd" });
        std::vector<u8>& o = R.img; o.resize(32); i32 h[8] = { 0x12721444, icount, 32, (i32)used[CODE_], 32 + (i32)used[CODE_], (i32)used[DATA_], (i32)used[LIT_], (i32)(bss + STACK) };
        for (int i = 0; i < 8; i++) put32(&o[4 * i], h[i]);
        for (int s = 0; s < 3; s++) o.insert(o.end(), mem[s].begin(), mem[s].end());
        R.icount = icount;
        return R;
    }
};
static inline Result assemble(const std::vector<std::string>& files) { Asm a; a.mem[Asm::DATA_].resize(4); return a.run(files); }

// the map file must list the same symbols, segment by segment, by rising value
static inline std::string checkMap(const Result& r, const std::string& text)
{
    std::vector<std::vector<std::pair<i32, std::string>>> got(4); size_t p = 0; int lastSeg = 0;
    while (p < text.size()) {
        size_t e = text.find('\n', p); if (e == std::string::npos) return "map file: no newline at its end";
        std::string l = text.substr(p, e - p); p = e + 1; int seg; unsigned v; int n = 0;
        if (sscanf(l.c_str(), "%d %x %n", &seg, &v, &n) < 2 || !n || seg < 0 || seg > 3) return "map file: bad line " + l.substr(0, 80);
        if (seg < lastSeg) return "map file: segments out of order"; lastSeg = seg;
        if (!got[seg].empty() && (i32)v < got[seg].back().first) return "map file: values out of order at " + l.substr(0, 80);
        got[seg].push_back({ (i32)v, l.substr((size_t)n) });
    }
    for (int s = 0; s < 4; s++) { auto a = got[s], b = r.map[s]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) { for (size_t i = 0; i < std::max(a.size(), b.size()); i++) { std::string x = i < a.size() ? strf("%x ", a[i].first) + a[i].second : "(nothing)", y = i < b.size() ? strf("%x ", b[i].first) + b[i].second : "(nothing)"; if (x != y) return strf("map file, segment %d: has %s, expected %s", s, x.substr(0, 60).c_str(), y.substr(0, 60).c_str()); } } }
    return "";
}

// ---------------------------------------------------------------- random assembly
struct Gen {
    Stream& S; int nfiles; std::vector<std::string> files; std::vector<std::string> exported; bool loadable; int size; std::string fault; bool longNames, edges = false, alike = false;
    struct F { std::string o; std::vector<std::string> loc; int nlab = 0; };
    Gen(Stream& s, int n, bool ld, int sz) : S(s), nfiles(n), loadable(ld), size(sz) {}
    std::string name()
    {
        static const char* st[] = { "g", "foo", "bar_", "Sym", "a", "_x", "vmData", "z9", "ui_long_name_", "CG_" };
        // pairs of names that a weak hash function takes for the same, and names that begin alike
        static const char* same[] = { "lfa", "HR2", "lf0", "HRC", "mq_s", "t5r3", "nytk", "v3bhv", "be_5", "j1u8", "dbvs", "nr8p", "_a28", "d3r9", "lnqw", "uevy", "s4rq", "tqsp", "ab", "ba", "abc", "acb", "cab", "A0", "0A_" };
        if (alike && S.choose(3)) return same[S.choose(24)];
        std::string n = st[S.choose(10)] + strf("%d", (int)S.choose(400));
        if (longNames && S.choose(4) == 0) n += std::string((size_t)S.range(50, 900), 'q');
        return n;
    }
    std::string num() { switch (S.choose(6)) { case 0: return strf("%d", S.range(-8, 40)); case 1: return strf("%u", S.raw()); case 2: return strf("%d", (i32)S.raw()); case 3: return "4294967295"; case 4: return "-2147483648"; default: return strf("%d", S.range(0, 100000)); } }
    std::string ws() { switch (S.choose(12)) { case 0: return "\t"; case 1: return "  "; case 2: return " \t "; default: return " "; } }
    void L(F& f, const std::string& a, const std::string& b = "", const std::string& c = "", const std::string& d = "")
    {
        std::string l; if (S.choose(20) == 0) l += "\t"; l += a; if (!b.empty()) l += ws() + b; if (!c.empty()) l += ws() + c; if (!d.empty()) l += ws() + d;
        switch (S.choose(30)) { case 0: l += " ; comment"; break; case 1: l += "\r"; break; case 2: l += "  "; break; case 3: l += "\n\n; 'quoted \" comment\n"; break; }
        if (S.choose(400) == 0 && l.size() < 1000 && l.find('\n') == std::string::npos) { size_t want = (size_t)S.range(1015, edges ? 1030 : 1023); bool c = S.choose(2); l += c ? " ;" : "  "; while (l.size() < want) l += c && S.choose(2) ? "x" : " "; }
        f.o += l + "\n";
    }
    std::string off() { if (S.choose(4)) return ""; std::string o; do o += S.choose(2) ? strf("+%d", S.range(0, 300)) : strf("-%d", S.range(0, 64)); while (S.choose(6) == 0); return o; }
    std::string lab(int k) { if (alike) { if (k == 0) return "$13681"; if (k == 1) return "$35901"; } return strf("$%d", k); }
    void proc(F& f, const std::string& nm, std::vector<std::string>& dataSyms, std::vector<std::string>& codeSyms)
    {
        int loc = S.range(0, 60) * (S.choose(3) ? 4 : 1), args = S.range(0, 12) * 4; if (S.choose(20) == 0) loc = S.choose(3) ? 20000 + (int)S.choose(12000) : 32767 - 8 - args - S.range(edges ? -4 : 4, 12);
        std::string a = strf("%d", loc), b = strf("%d", args);
        L(f, S.choose(2) ? "export" : "import", nm); L(f, "proc", nm, a, b);
        int base = f.nlab, labs = S.range(1, 6), n = S.range(3, size); f.nlab += labs; std::vector<int> at(labs); for (int& x : at) x = S.range(0, n - 1);
        auto lab = [&] { return this->lab(base + (int)S.choose((u32)labs)); };
        static const char* alu[] = { "ADDI4", "ADDP4", "ADDU4", "SUBI4", "SUBP4", "SUBU4", "ADDF4", "SUBF4", "MULF4", "DIVF4", "MULI4", "MULU4", "DIVI4", "DIVU4", "MODI4", "MODU4", "BANDI4", "BANDU4", "BORI4", "BORU4", "BXORI4", "BXORU4", "LSHI4", "LSHU4", "RSHI4", "RSHU4", "NEGI4", "NEGF4", "BCOMI4", "BCOMU4", "INDIRI4", "INDIRU4", "INDIRP4", "INDIRF4", "INDIRI2", "INDIRU2", "INDIRI1", "INDIRU1", "ASGNI4", "ASGNU4", "ASGNP4", "ASGNF4", "ASGNI2", "ASGNU2", "ASGNI1", "ASGNU1", "CVIU4", "CVUI4", "CVPU4", "CVUP4", "CVUU1", "CVII1", "CVII2", "INDIRB", "CVUU4", "ADDP" };
        static const char* br[] = { "EQI4", "EQU4", "NEI4", "NEU4", "LTI4", "LTU4", "LEI4", "LEU4", "GTI4", "GTU4", "GEI4", "GEU4", "EQF4", "NEF4", "LTF4", "LEF4", "GTF4", "GEF4" };
        static const char* cn[] = { "CNSTI4", "CNSTU4", "CNSTP4", "CNSTF4", "CNSTI1", "CNSTU1", "CNSTI2", "CNSTU2" };
        int depthArgs = 0;
        for (int i = 0; i < n; i++) {
            for (int k = 0; k < labs; k++) if (at[k] == i) L(f, "LABELV", this->lab(base + k));
            switch (S.choose(14)) {
            case 0: L(f, cn[S.choose(8)], num()); break;
            case 1: L(f, "ADDRLP4", strf("%d", S.range(0, loc)) + off()); break;
            case 2: L(f, "ADDRFP4", strf("%d", S.range(0, 40)) + off()); break;
            case 3: case 4: { std::vector<std::string>& v = S.choose(2) && !dataSyms.empty() ? dataSyms : codeSyms; if (!v.empty()) L(f, "ADDRGP4", S.pick(v) + off()); break; }
            case 5: L(f, br[S.choose(18)], lab()); break;
            case 6: L(f, "ADDRGP4", lab()); L(f, "JUMPV"); break;
            case 7: L(f, S.choose(2) ? "ARGI4" : S.choose(2) ? "ARGP4" : "ARGF4"); if (++depthArgs > 50) { L(f, "CALLI4"); depthArgs = 0; } break;
            case 8: L(f, S.choose(2) ? "CALLI4" : S.choose(2) ? "CALLV" : "CALLF4"); depthArgs = 0; if (S.choose(2)) L(f, "pop"); break;
            case 9: L(f, "ASGNB", strf("%d", S.range(0, 70))); break;
            case 10: L(f, "CVII4", S.choose(2) ? "1" : "2"); break;
            case 11: L(f, S.choose(2) ? "CVIF4" : "CVFI4", "4"); break;
            case 12: L(f, S.choose(3) ? "RETI4" : S.choose(2) ? "RETP4" : "RETV"); break;
            default: L(f, alu[S.choose(sizeof alu / sizeof *alu)]); break;
            }
            if (S.choose(100) == 0) { if (depthArgs) { L(f, "CALLV"); depthArgs = 0; } for (int k = S.range(40, edges ? 65 : 62); k > 0; k--) L(f, "ARGI4"); L(f, "CALLI4"); } // up to and beyond the limit
            if (S.choose(25) == 0) { L(f, "line", strf("%d", i)); }
        }
        if (depthArgs) L(f, "CALLV");
        L(f, "endproc", nm, a, b);
    }
    void data(F& f, const std::string& nm, const std::vector<std::string>& dataSyms, const std::vector<std::string>& codeSyms, int seg)
    {
        static const char* sn[] = { "data", "lit", "bss" };
        if (seg == 2) { L(f, "align", S.choose(2) ? "4" : "1"); L(f, "LABELV", nm); L(f, "skip", strf("%d", S.choose(10) ? S.range(0, 300) : S.range(0, loadable ? 200000 : 3000000))); return; }
        (void)sn;
        L(f, "align", strf("%d", 1 << S.choose(3))); L(f, S.choose(2) ? "LABELV" : "LABEL", nm);
        int kind = (int)S.choose(5), n = S.choose(8) ? S.range(1, 12) : S.range(100, 4000);
        if (n > 20 && size < 20) n = 30;
        for (int i = 0; i < n; i++) {
            int k = kind == 4 ? (int)S.choose(4) : kind;
            if (k == 0) L(f, "byte", "1", strf("%d", S.range(-128, 255)));
            else if (k == 1) L(f, "byte", "4", num());
            else if (k == 2) { const std::vector<std::string>& v = S.choose(2) && !dataSyms.empty() ? dataSyms : codeSyms; if (!v.empty()) L(f, "address", S.pick(v) + off()); }
            else { if (i == 0) L(f, "byte", "4", "7"); L(f, "skip", strf("%d", S.range(0, 9))); }
        }
        if (S.choose(20) == 0) L(f, "skip", strf("%d", S.range(1000, 200000)));
    }
    void make()
    {
        longNames = S.choose(6) == 0; alike = S.choose(5) == 0;
        std::vector<std::vector<std::string>> code(nfiles), dat(nfiles); std::vector<std::string> allCode, allData, equs; std::set<std::string> used;
        auto fresh = [&] { std::string n; do n = name(); while (!used.insert(n).second); return n; };
        for (int i = 0; i < nfiles; i++) { int c = S.range(i == 0 ? 1 : 0, 4), d = S.range(0, 5); for (int k = 0; k < c; k++) { code[i].push_back(fresh()); allCode.push_back(code[i].back()); } for (int k = 0; k < d; k++) { dat[i].push_back(fresh()); allData.push_back(dat[i].back()); } }
        int ne = S.range(0, 3); for (int i = 0; i < ne; i++) { equs.push_back(fresh()); allCode.push_back(equs.back()); }
        for (int i = 0; i < nfiles; i++) {
            F f; std::vector<std::string> ds = allData, cs = allCode; std::vector<std::string> locals; int nl = S.range(0, 3); for (int k = 0; k < nl; k++) { locals.push_back(strf("$%d", 900 + k)); ds.push_back(locals.back()); }
            if (S.choose(4) == 0) f.o += strf("; file %d\n", i);
            size_t ci = 0, di = 0, li = 0;
            if (i == nfiles - 1 && ne) { L(f, "code"); for (size_t k = 0; k < equs.size(); k++) L(f, "equ", equs[k], strf("%d", -1 - (int)k)); }
            std::vector<int> jumps; int nextJ = 2000;
            while (ci < code[i].size() || di < dat[i].size() || li < locals.size()) {
                u32 c = S.choose(3);
                if (c == 0 && ci < code[i].size()) { L(f, "code"); int before = f.nlab; proc(f, code[i][ci++], ds, cs); for (int k = before; k < f.nlab; k++) jumps.push_back(k); }
                else if (c == 1 && di < dat[i].size()) { int seg = (int)S.choose(3); static const char* sn[] = { "data", "lit", "bss" }; L(f, sn[seg]); if (S.choose(2)) L(f, "export", dat[i][di]); data(f, dat[i][di++], ds, cs, seg); }
                else if (c == 2 && li < locals.size()) { int seg = (int)S.choose(3); static const char* sn[] = { "data", "lit", "bss" }; L(f, sn[seg]); data(f, locals[li++], ds, cs, seg); }
                if (!jumps.empty() && S.choose(3) == 0) { L(f, "lit"); L(f, "align", "4"); std::string t = strf("$%d", nextJ++); L(f, "LABELV", t); ds.push_back(t); int n = S.range(1, 6); for (int k = 0; k < n; k++) L(f, "address", strf("$%d", S.pick(jumps))); }
            }
            files.push_back(f.o);
        }
    }
};
} // namespace ar
