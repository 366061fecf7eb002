// Reference preprocessor (C90 with // comments) and generator of preprocessor inputs.
// Where the standard leaves the result open, the reference says so ("unsure") and the run is not compared.
#pragma once
#include <set>
#include "core.h"
#include <deque>
namespace cr {
enum Kind { NAME, NUM, STR, CHR, OP, OTHER };
struct Tok { Kind k = OP; std::string t; bool ws = false, paste = false; u64 hs = 0, mhs = 0; int path = 0; }; // path: 1 a file name, 2 text that holds one; mhs: names that may or may not be hidden
typedef std::vector<Tok> Toks;
struct Out { Tok t; std::string file; int lo, hi; };
struct Got { Tok t; std::string file; int line; bool alone = false; };
struct Text { std::string c; std::vector<int> line; };
static inline bool idc(unsigned char c) { return isalnum(c) || c == '_'; }
static Text phases(const std::string& f) // trigraphs, then line splices
{
    Text x; std::vector<std::pair<char, int>> a; int line = 1; static const char tg[] = "=#(/)'<!>-", to[] = "#[\\]^{|}~";
    for (size_t i = 0; i < f.size(); i++) {
        char c = f[i];
        if (c == '?' && i + 2 < f.size() && f[i + 1] == '?') { static const char from[] = "=(/)'<!>-"; if (const char* p = strchr(from, f[i + 2])) if (f[i + 2]) { c = to[p - from]; i += 2; } }
        a.push_back({ c, line }); if (c == '\n') line++;
    }
    (void)tg;
    for (size_t i = 0; i < a.size(); i++) { if (a[i].first == '\\' && i + 1 < a.size() && a[i + 1].first == '\n') { i++; continue; } x.c += a[i].first; x.line.push_back(a[i].second); }
    return x;
}
struct Line { Toks t; int lo = 0, hi = 0; bool bad = false, nl = false; bool dir() const { return !t.empty() && t[0].k == OP && t[0].t == "#"; } };
// one token at i (no white space there); output = text that is tokenised as a compiler would
static bool lexOne(const std::string& c, size_t& i, Tok& o)
{
    size_t b = i, n = c.size(); auto at = [&](size_t k) -> char { return k < n ? c[k] : '\0'; };
    if (isdigit((unsigned char)c[i]) || (c[i] == '.' && isdigit((unsigned char)at(i + 1)))) { i++; while (i < n && (idc((unsigned char)c[i]) || c[i] == '.' || ((c[i] == '+' || c[i] == '-') && (c[i - 1] == 'e' || c[i - 1] == 'E')))) i++; o.k = NUM; }
    else if (c[i] == '"' || c[i] == '\'' || (c[i] == 'L' && (at(i + 1) == '"' || at(i + 1) == '\''))) {
        if (c[i] == 'L') i++; char q = c[i++]; while (i < n && c[i] != q) { if (c[i] == '\n') return false; if (c[i] == '\\') i++; if (i >= n || c[i] == '\n') return false; i++; } if (i >= n) return false; i++; o.k = q == '"' ? STR : CHR;
    } else if (idc((unsigned char)c[i])) { while (i < n && idc((unsigned char)c[i])) i++; o.k = NAME; }
    else {
        static const char* const ops[] = { "...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##", nullptr };
        o.k = OTHER; for (int k = 0; ops[k]; k++) { size_t l = strlen(ops[k]); if (c.compare(i, l, ops[k]) == 0) { o.k = OP; i += l; break; } }
        if (o.k == OTHER) { if (strchr("[](){}.&*+-~!/%<>^|?:;=,#", c[i]) && c[i]) o.k = OP; i++; }
    }
    o.t = c.substr(b, i - b); return true;
}
static bool lexLine(const Text& x, size_t& i, Line& l)
{
    l = Line(); size_t n = x.c.size(); if (i >= n) return false;
    l.lo = i ? x.line[i - 1] + 1 : 1; l.hi = x.line[i]; bool ws = false;
    for (;;) {
        if (i >= n) break;
        char c = x.c[i]; l.hi = x.line[i];
        if (c == '\n') { i++; l.nl = true; break; }
        if (c == ' ' || c == '\t' || c == '\v') { i++; ws = true; continue; }
        if (c == '/' && i + 1 < n && x.c[i + 1] == '*') { size_t e = x.c.find("*/", i + 2); if (e == std::string::npos) { l.bad = true; i = n; break; } i = e + 2; l.hi = x.line[e + 1]; ws = true; continue; }
        if (c == '/' && i + 1 < n && x.c[i + 1] == '/') { while (i < n && x.c[i] != '\n') i++; ws = true; continue; }
        Tok t; t.ws = ws; size_t b = i; if (!lexOne(x.c, i, t)) { l.bad = true; while (i < n && x.c[i] != '\n') i++; (void)b; continue; }
        l.t.push_back(t); ws = false;
    }
    return true;
}
static std::string normPath(const std::string& cwd, const std::string& p0) { std::string p = !p0.empty() && p0[0] == '/' ? p0 : cwd + "/" + p0, o; std::vector<std::string> v; size_t i = 0; while (i < p.size()) { size_t e = p.find('/', i); if (e == std::string::npos) e = p.size(); std::string d = p.substr(i, e - i); i = e + 1; if (d.empty() || d == ".") continue; if (d == "..") { if (!v.empty()) v.pop_back(); } else v.push_back(d); } for (auto& d : v) o += "/" + d; return o; }

struct Pre {
    std::map<std::string, std::string> files; // absolute names
    std::string cwd = "/w"; std::vector<std::string> dirs; std::string mainDir; // absolute directories
    std::string date, time_;
    struct Macro { bool fn = false; std::vector<std::string> par; Toks body; };
    std::map<std::string, Macro> mac; std::map<std::string, int> ids; std::vector<Out> out;
    bool err = false, unsure = false; bool inCond = false, badHash = false, deep = false; std::string why; u64 expansions = 0, taken = 0, included = 0; size_t work = 0, longest = 0;
    bool errAtEnd = false; // nothing follows the error that could expand further
    void error(const std::string& w) { if (!err) errAtEnd = cur && cur->depth == 0 && cur->i + 60 >= cur->x.c.size(); if (!err && !unsure) { err = true; why = w; } }
    void dunno(const std::string& w) { if (!unsure && !err) { unsure = true; why = w; } }
    bool stop() const { return err || unsure; }
    std::set<std::pair<std::string, int>> nulls; struct Src { Text x; size_t i = 0; std::string real, name; int delta = 0; int depth = 0; }; Src* cur = nullptr; int rowLo = 0, rowHi = 0; bool lineOk = true;
    struct Cond { bool taken, active, els; }; std::vector<Cond> conds;
    bool skipping() const { for (auto& c : conds) if (!c.active) return true; return false; }
    int idOf(const std::string& n) { auto it = ids.find(n); if (it != ids.end()) return it->second; int id = (int)ids.size(); if (id >= 62) { dunno("too many macros"); return 61; } return ids[n] = id; }
    static bool special(const std::string& n) { return n == "__LINE__" || n == "__FILE__" || n == "__DATE__" || n == "__TIME__"; }
    typedef std::function<bool(bool)> More;

    Tok stringify(const Toks& a)
    {
        std::string r = "\""; Tok o; o.k = STR; bool first = true;
        for (auto& t : a) { if (t.ws && !first) r += ' '; first = false; if (t.path == 3) o.path = o.path == 2 ? 2 : 3; else if (t.path) o.path = 2; bool q = t.k == STR || t.k == CHR; for (char c : t.t) { if (q && (c == '"' || c == '\\')) r += '\\'; r += c; } }
        r += '"'; size_t i = 0; Tok chk; if (!lexOne(r, i, chk) || i != r.size()) dunno("# makes no string");
        if (r.size() > 380) dunno("long string"); // a documented limit of the preprocessor
        if (lostSpace && !o.path) o.path = 3;
        o.t = r; return o;
    }
    void expandArg(const Toks& a, Toks& r) { std::deque<Tok> in(a.begin(), a.end()); expand(in, nullptr, r, true); }
    Toks subst(const Macro& m, const std::vector<Toks>& args)
    {
        Toks l; auto par = [&](const Tok& t) { if (m.fn && t.k == NAME) for (size_t p = 0; p < m.par.size(); p++) if (m.par[p] == t.t) return (int)p; return -1; };
        auto isPaste = [&](size_t i) { return i < m.body.size() && m.body[i].k == OP && m.body[i].t == "##"; };
        std::vector<Toks> ex(args.size()); std::vector<bool> have(args.size());
        for (size_t i = 0; i < m.body.size() && !stop(); i++) {
            const Tok& t = m.body[i]; int p;
            if (m.fn && t.k == OP && t.t == "#") { if (i + 1 >= m.body.size() || (p = par(m.body[i + 1])) < 0) { error("# not followed by a parameter"); break; } if (isPaste(i + 2) || (i && isPaste(i - 1))) dunno("# and ## in one"); Tok s = stringify(args[p]); s.ws = t.ws; l.push_back(s); i++; continue; }
            if (isPaste(i)) { Tok q = t; q.paste = true; l.push_back(q); continue; }
            if ((p = par(t)) >= 0) {
                if (isPaste(i + 1) || (i && isPaste(i - 1))) { if (args[p].empty()) dunno("## with an empty argument"); size_t at = l.size(); l.insert(l.end(), args[p].begin(), args[p].end()); if (at < l.size()) l[at].ws = t.ws; }
                else { if (!have[p]) { expandArg(args[p], ex[p]); have[p] = true; } size_t at = l.size(); l.insert(l.end(), ex[p].begin(), ex[p].end()); if (at < l.size()) l[at].ws = t.ws; else lostSpace = true; }
                continue;
            }
            l.push_back(t);
        }
        Toks r;
        for (size_t i = 0; i < l.size() && !stop(); i++) {
            if (!l[i].paste) { r.push_back(l[i]); continue; }
            if (r.empty() || i + 1 >= l.size()) { error("## at the border"); break; }
            Tok a = r.back(), b = l[++i]; if (b.paste) { dunno("## ##"); break; } std::string text = a.t + b.t; size_t k = 0; Tok n; bool comment = text.compare(0, 2, "//") == 0 || text.compare(0, 2, "/*") == 0;
            if (comment || !lexOne(text, k, n) || k != text.size() || n.k == OTHER || a.path || b.path) { dunno("## makes no token"); break; }
            n.ws = a.ws; n.hs = a.hs & b.hs; n.mhs = a.mhs | b.mhs; r.back() = n;
        }
        return r;
    }
    bool lostSpace = false; // something was replaced by nothing: what becomes of the white space around it in a later # is not clear
    void expand(std::deque<Tok>& in, const More& more, Toks& o, bool isolated)
    {
        while (!in.empty() && !stop()) {
            if (++work > 60000 || in.size() > 20000) { dunno("too much work"); return; }
            Tok t = in.front(); in.pop_front();
            if (t.k != NAME) { o.push_back(t); continue; }
            if (special(t.t)) {
                Tok n; n.ws = t.ws;
                if (t.t == "__LINE__") { if (rowLo != rowHi) dunno("__LINE__ in a line that spans several"); n.k = NUM; n.t = strf("%d", rowLo + cur->delta); }
                else if (t.t == "__FILE__") { n.k = STR; n.path = 1; n.t = "\"" + cur->name + "\""; }
                else { n.k = STR; n.t = "\"" + (t.t == "__DATE__" ? date : time_) + "\""; }
                o.push_back(n); continue;
            }
            auto it = mac.find(t.t); if (it == mac.end()) { o.push_back(t); continue; }
            u64 bit = 1ull << idOf(t.t); if (t.hs & bit) { o.push_back(t); continue; }
            if (t.mhs & bit) { dunno("nested or not: " + t.t); return; }
            const Macro& m = it->second; std::vector<Toks> args; u64 hs = t.hs, mhs = t.mhs;
            if (m.fn) {
                while (in.empty() && more && more(false)) {}
                if (stop()) return;
                if (in.empty() || in[0].t != "(" || in[0].k != OP) { o.push_back(t); continue; }
                in.pop_front(); int depth = 0; Toks a; Tok rp; bool closed = false;
                while (!stop()) {
                    while (in.empty()) { if (isolated) { dunno("arguments go beyond an argument"); return; } if (!more || !more(true)) { error("end of file in arguments"); return; } }
                    Tok x = in.front(); in.pop_front();
                    if (x.k == OP && x.t == "(") depth++;
                    if (x.k == OP && x.t == ")" && depth-- == 0) { rp = x; closed = true; break; }
                    if (x.k == OP && x.t == "," && depth == 0) { args.push_back(a); a.clear(); continue; }
                    a.push_back(x);
                }
                if (!closed) return;
                if (!(m.par.empty() && args.empty() && a.empty())) args.push_back(a);
                if (args.size() == 1 && a.empty() && !m.par.empty()) dunno("empty argument"); // (may also count as none)
                if (args.size() != m.par.size()) { error("wrong number of arguments"); return; }
                if (args.size() > 31) { dunno("31 arguments"); return; }
                hs &= rp.hs;
            }
            if (inCond) for (auto& b : m.body) if (b.k == NAME && b.t == "defined") { dunno("defined from a macro"); return; }
            expansions++; Toks r = subst(m, args); if (stop()) return;
            hs |= bit; mhs |= bit; for (auto& x : r) { x.hs |= hs; x.mhs |= mhs | x.hs; }
            if (!r.empty()) r[0].ws = t.ws; else { lostSpace = true; if (!in.empty() && t.ws) in[0].ws = true; }
            in.insert(in.begin(), r.begin(), r.end());
        }
    }
    // ---------------------------------------------------------------- #if
    struct Val { i64 v = 0; bool u = false, bad = false; };
    struct Ev {
        const Toks& t; size_t i = 0; int w; bool fail = false, soft = false;
        Ev(const Toks& t, int w) : t(t), w(w) {}
        bool is(const char* o) { return i < t.size() && t[i].k == OP && t[i].t == o; }
        i64 wrap(i64 v, bool u) { return w == 64 ? v : u ? (i64)(u32)v : (i64)(i32)v; }
        Val mk(__int128 v, bool u) { Val r; r.u = u; if (u) r.v = w == 64 ? (i64)(u64)v : (i64)(u32)v; else { __int128 lo = w == 64 ? (__int128)INT64_MIN : INT32_MIN, hi = w == 64 ? (__int128)INT64_MAX : INT32_MAX; if (v < lo || v > hi) r.bad = true; r.v = (i64)v; } return r; }
        __int128 num(const Val& v) { return v.u ? (__int128)(u64)(w == 64 ? v.v : (i64)(u32)v.v) : (__int128)v.v; }
        Val prim()
        {
            Val r; if (i >= t.size()) { fail = true; return r; }
            if (is("(")) { i++; r = tern(); if (!is(")")) { fail = true; return r; } i++; return r; }
            for (const char* o : { "-", "+", "!", "~" }) if (is(o)) { i++; Val a = prim(); if (a.bad) return a; switch (*o) { case '-': return mk(-num(a), a.u); case '+': return a; case '!': return mk(num(a) == 0, false); default: return a.u ? mk(~num(a), true) : mk(~a.v, false); } }
            const Tok& x = t[i++];
            if (x.k == NAME) return mk(0, false);
            if (x.k == NUM) { const char* p = x.t.c_str(); char* e; errno = 0; u64 v = strtoull(p, &e, 0); bool u = false; bool dec = x.t[0] != '0'; while (*e == 'u' || *e == 'U' || *e == 'l' || *e == 'L') { u |= *e == 'u' || *e == 'U'; e++; } if (*e || errno) { fail = true; soft = x.t.find_first_not_of("0123456789abcdefABCDEFxXuUlL") == std::string::npos; return r; } if (w == 32) { if (v > 0xffffffffull) { r.bad = true; return r; } if (v > 0x7fffffff) u = true; } else if (v > 0x7fffffffffffffffull || (!dec && v > 0x7fffffff)) u = true; return mk(v, u); }
            if (x.k == CHR) {
                std::string s = x.t; if (s == "''") { fail = true; return r; } if (s[0] == 'L') { fail = soft = true; return r; } int c = 0; size_t k = 1; if (s[k] == '\\') { k++; static const char* esc = "bfnrtv'\"?\\"; static const char val[] = "\b\f\n\r\t\v'\"?\\"; if (s[k] >= '0' && s[k] <= '7') { int n = 0; while (n < 3 && s[k] >= '0' && s[k] <= '7') { c = c * 8 + s[k++] - '0'; n++; } } else if (s[k] == 'x') { k++; while (isxdigit((unsigned char)s[k])) { c = c * 16 + (isdigit((unsigned char)s[k]) ? s[k] - '0' : (s[k] | 32) - 'a' + 10); k++; if (c > 255) { fail = soft = true; return r; } } } else if (const char* p = strchr(esc, s[k])) { c = val[p - esc]; k++; } else { fail = soft = true; return r; } } else c = (unsigned char)s[k++];
                if (s[k] != '\'' || c > 127) { fail = soft = true; return r; } return mk(c, false);
            }
            fail = true; return r;
        }
        Val bin(int prec)
        {
            static const std::vector<std::vector<const char*>> lv = { { "||" }, { "&&" }, { "|" }, { "^" }, { "&" }, { "==", "!=" }, { "<", ">", "<=", ">=" }, { "<<", ">>" }, { "+", "-" }, { "*", "/", "%" } };
            if (prec == (int)lv.size()) return prim();
            Val a = bin(prec + 1);
            for (;;) {
                std::string o; for (auto x : lv[prec]) if (is(x)) { o = x; break; }
                if (o.empty() || fail) return a; i++;
                Val b = bin(prec + 1);
                if (o == "||") { if (a.bad) continue; if (num(a)) { a = mk(1, false); continue; } if (b.bad) { a.bad = true; continue; } a = mk(num(b) != 0, false); continue; }
                if (o == "&&") { if (a.bad) continue; if (!num(a)) { a = mk(0, false); continue; } if (b.bad) { a.bad = true; continue; } a = mk(num(b) != 0, false); continue; }
                if (a.bad || b.bad) { a.bad = true; continue; }
                if (o == "<<" || o == ">>") { __int128 c = num(b); if (c < 0 || c >= w || (!a.u && a.v < 0)) { a.bad = true; continue; } a = o == "<<" ? (a.u ? mk((u64)a.v << (int)c, true) : mk((__int128)a.v << (int)c, false)) : mk(num(a) >> (int)c, a.u); continue; }
                bool u = a.u || b.u; Val x = a, y = b; if (u) { x.u = y.u = true; } __int128 p = num(x), q = num(y);
                if (o == "==") a = mk(p == q, false); else if (o == "!=") a = mk(p != q, false); else if (o == "<") a = mk(p < q, false); else if (o == ">") a = mk(p > q, false); else if (o == "<=") a = mk(p <= q, false); else if (o == ">=") a = mk(p >= q, false);
                else if (o == "|") a = mk(p | q, u); else if (o == "^") a = mk(p ^ q, u); else if (o == "&") a = mk(p & q, u);
                else if (o == "+") a = mk(p + q, u); else if (o == "-") a = mk(p - q, u); else if (o == "*") a = mk(p * q, u);
                else { if (q == 0 || (!u && (p < 0 || q < 0) && (p % q != 0))) { a.bad = true; if (q == 0) a.u = u; continue; } a = o == "/" ? mk(p / q, u) : mk(p % q, u); }
            }
        }
        Val tern()
        {
            Val c = bin(0); if (!is("?")) return c; i++; Val a = tern(); if (!is(":")) { fail = true; return c; } i++; Val b = tern();
            if (c.bad) { return c; } Val r = num(c) ? a : b; if (r.bad) return r; bool u = a.u || b.u; if (u && !r.u) { r.u = true; r.v = w == 64 ? r.v : (i64)(u32)r.v; } return r;
        }
    };
    bool condition(Toks t)
    {
        Toks a; for (size_t i = 0; i < t.size(); i++) {
            if (t[i].k == NAME && t[i].t == "defined") {
                size_t p = i + 1; bool par = p < t.size() && t[p].t == "("; if (par) p++; if (p >= t.size() || t[p].k != NAME) { dunno("defined"); return false; }
                Tok n; n.k = NUM; n.t = mac.count(t[p].t) || special(t[p].t) ? "1" : "0"; n.ws = true; if (par) { p++; if (p >= t.size() || t[p].t != ")") { dunno("defined"); return false; } } a.push_back(n); i = p; continue;
            }
            a.push_back(t[i]);
        }
        std::deque<Tok> in(a.begin(), a.end()); Toks r; inCond = true; expand(in, nullptr, r, true); inCond = false; if (stop()) return false;
        for (auto& x : r) if (x.k == NAME && x.t == "defined") { dunno("defined from a macro"); return false; }
        if (r.size() > 90) { dunno("long expression"); return false; }
        bool v[2]; for (int k = 0; k < 2; k++) { Ev e(r, k ? 64 : 32); Val x = e.tern(); if (e.soft) { dunno("odd constant"); return false; } if (e.fail || e.i != r.size()) { if (r.size() < 30) error("malformed condition"); else dunno("long malformed condition"); return false; } if (x.bad) { dunno("undefined condition"); return false; } v[k] = x.v != 0; }
        if (v[0] != v[1]) { dunno("condition depends on the width of long"); return false; }
        return v[0];
    }
    // ---------------------------------------------------------------- directives
    void define(const Toks& t, size_t i)
    {
        if (i >= t.size() || t[i].k != NAME) { error("#define"); return; }
        std::string n = t[i].t; if (special(n) || n == "defined" || n == "__STDC__") { error("#define of a fixed name"); return; } Macro m; i++;
        if (i < t.size() && t[i].t == "(" && !t[i].ws) {
            m.fn = true; i++; if (i < t.size() && t[i].t == ")") i++;
            else for (;;) { if (i >= t.size() || t[i].k != NAME) { error("parameters"); return; } for (auto& p : m.par) if (p == t[i].t) { error("duplicate parameter"); return; } m.par.push_back(t[i].t); i++; if (i < t.size() && t[i].t == ")") { i++; break; } if (i >= t.size() || t[i].t != ",") { error("parameters"); return; } i++; }
        } else if (i < t.size() && !t[i].ws) { dunno("no space behind the name"); return; }
        m.body.assign(t.begin() + (long)i, t.end()); if (!m.body.empty()) m.body[0].ws = false;
        if (!m.body.empty() && ((m.body[0].t == "##" && m.body[0].k == OP) || (m.body.back().t == "##" && m.body.back().k == OP))) { dunno("## at the border"); return; }
        if (m.fn) for (size_t k = 0; k < m.body.size(); k++) if (m.body[k].k == OP && m.body[k].t == "#") { bool ok = false; if (k + 1 < m.body.size()) for (auto& p : m.par) ok |= p == m.body[k + 1].t; if (!ok) badHash = true; }
        auto it = mac.find(n);
        if (it != mac.end()) { const Macro& o = it->second; bool same = o.fn == m.fn && o.par == m.par && o.body.size() == m.body.size(); for (size_t k = 0; same && k < m.body.size(); k++) same = o.body[k].t == m.body[k].t && o.body[k].ws == m.body[k].ws; if (!same) { error("redefinition"); return; } }
        idOf(n); mac[n] = m;
    }
    void doInclude(const Toks& t0, const Line& l)
    {
        Toks t(t0.begin() + 2, t0.end());
        if (!t.empty() && t[0].k == NAME) { std::deque<Tok> in(t.begin(), t.end()); Toks r; expand(in, nullptr, r, true); if (stop()) return; t = r; }
        if (t.empty()) { error("#include"); return; }
        std::string n; bool ang = false;
        if (t[0].k == STR && t[0].t[0] == '"' && t.size() == 1) n = t[0].t.substr(1, t[0].t.size() - 2);
        else if (t[0].t == "<") { ang = true; size_t i = 1; while (i < t.size() && t[i].t != ">") { n += t[i].t; i++; } if (i + 1 != t.size()) { dunno("#include <"); return; } }
        else { error("#include"); return; }
        std::string path; if (n.empty()) { error("#include"); return; }
        if (n[0] == '/') { if (files.count(normPath("/", n))) path = normPath("/", n); }
        else {
            std::vector<std::string> d; if (!ang) d.push_back(mainDir); d.insert(d.end(), dirs.begin(), dirs.end());
            for (auto& x : d) { std::string p = normPath(x, n); if (files.count(p)) { path = p; break; } }
            std::string own = cur->real.substr(0, cur->real.rfind('/')), p = normPath(own, n); if (files.count(p) && p != path && !ang) { dunno("two headers could be meant"); return; }
        }
        size_t sl = n.rfind('/'); std::string bd = sl == std::string::npos ? mainDir : normPath(mainDir, n.substr(0, sl)); if (std::find(dirs.begin(), dirs.end(), bd) == dirs.end()) dirs.push_back(bd); // its directory is searched from now on
        if (path.empty()) { for (auto& x : dirs) if (files.count(normPath(x, n))) { dunno("found in the header's own directory"); return; } error("header not found: " + n); return; }
        if (cur->depth >= 9) deep = true; if (cur->depth >= 100) { error("#include nested without end"); return; } if (included > 3000) { dunno("very many headers"); return; }
        included++; (void)l; source(path, path, cur->depth + 1);
    }
    void directive(const Line& l)
    {
        const Toks& t = l.t; if (t.size() == 1) { nulls.insert({ normPath(cwd, cur->name), l.lo + cur->delta }); return; }
        if (t[1].k == NUM) { if (!skipping()) dunno("# number"); return; }
        std::string d = t[1].t; if (t[1].k != NAME) { if (skipping()) { dunno("# without a name in a skipped group"); return; } error("# without a name"); return; }
        if (d == "if" || d == "ifdef" || d == "ifndef") {
            if (conds.size() >= 30) { dunno("nesting"); return; }
            if (skipping()) { conds.push_back({ true, false, false }); return; }
            bool v; if (d == "if") v = condition(Toks(t.begin() + 2, t.end())); else { if (t.size() != 3 || t[2].k != NAME) { error("#ifdef"); return; } v = (d == "ifdef") == (mac.count(t[2].t) || special(t[2].t)); }
            conds.push_back({ v, v, false }); taken += v; return;
        }
        if (d == "elif" || d == "else" || d == "endif") {
            if ((int)conds.size() <= condBase) { error("#" + d + " without #if"); return; }
            Cond& c = conds.back(); bool outer = false; for (size_t k = 0; k + 1 < conds.size(); k++) outer |= !conds[k].active;
            if (d == "endif") { if (t.size() > 2 && !outer) dunno("text behind #endif"); conds.pop_back(); return; }
            if (c.els && !outer) { error("#" + d + " after #else"); return; }
            if (d == "else") { if (t.size() > 2 && !outer) { error("text behind #else"); return; } c.active = !c.taken; c.taken = true; c.els = true; return; }
            if (c.taken || outer) { c.active = false; return; }
            c.active = true; bool v = condition(Toks(t.begin() + 2, t.end())); c.active = c.taken = v; return;
        }
        if (skipping()) return;
        if (d == "define") define(t, 2);
        else if (d == "undef") { if (t.size() != 3 || t[2].k != NAME) error("#undef"); else if (special(t[2].t) || t[2].t == "defined" || t[2].t == "__STDC__") dunno("#undef of a fixed name"); else mac.erase(t[2].t); }
        else if (d == "include") doInclude(t, l);
        else if (d == "line") {
            Toks a(t.begin() + 2, t.end()); std::deque<Tok> in(a.begin(), a.end()); Toks r; expand(in, nullptr, r, true); if (stop()) return;
            if (r.empty() || r[0].k != NUM || r.size() > 2 || (r.size() == 2 && (r[1].k != STR || r[1].t[0] == 'L'))) { error("#line"); return; }
            for (char c : r[0].t) if (!isdigit((unsigned char)c)) { dunno("#line"); return; }
            int n = atoi(r[0].t.c_str()); if (n < 1 || n > 32767) { dunno("#line range"); return; }
            if (l.lo != l.hi) lineOk = true;
            cur->delta = n - (l.hi + 1); if (r.size() == 2) { cur->name = r[1].t.substr(1, r[1].t.size() - 2); if (r[1].path) dunno("#line with a file name from the system"); }
        } else if (d == "error") error("#error");
        else if (d == "pragma") { for (auto& x : t) out.push_back({ x, cur->name, l.lo + cur->delta, l.lo + cur->delta }); }
        else if (d == "warning") {}
        else dunno("unknown directive");
    }
    int condBase = 0;
    void source(const std::string& path, const std::string& shown, int depth)
    {
        Src me; me.x = phases(files[path]); me.real = path; me.name = shown; me.depth = depth; Src* up = cur; cur = &me; int base = condBase; condBase = (int)conds.size(); Line l; if (!me.x.c.empty() && me.x.c.back() == '\\') dunno("\\ at the end");
        for (size_t from = 0; !stop() && (longest = std::max(longest, me.i - from), from = me.i, lexLine(me.x, me.i, l));) {
            if (l.bad) { dunno("unterminated literal or comment"); break; }
            rowLo = l.lo; rowHi = l.hi; lostSpace = false;
            if (l.dir()) { directive(l); continue; }
            if (skipping()) continue;
            std::deque<Tok> in(l.t.begin(), l.t.end()); bool atEnd = false;
            More more = [&](bool args) -> bool {
                size_t save = me.i; Line n; if (!lexLine(me.x, me.i, n)) { atEnd = true; if (depth && !args) dunno("name at the end of a header"); return false; }
                if (n.bad) { dunno("unterminated literal or comment"); return false; }
                if (n.dir()) { if (args) dunno("directive in arguments"); me.i = save; return false; }
                if (!n.t.empty()) n.t[0].ws = true; rowHi = n.hi; in.insert(in.end(), n.t.begin(), n.t.end()); return true;
            };
            Toks r; expand(in, more, r, false); (void)atEnd; if (stop()) break;
            if (!r.empty() && r[0].k == OP && (r[0].t == "#" || r[0].t == "##")) { dunno("a line that starts with #"); break; }
            for (auto& x : r) out.push_back({ x, me.name, rowLo + me.delta, rowHi + me.delta });
        }
        if (!stop() && (int)conds.size() != condBase) error("unterminated #if");
        condBase = base; cur = up;
    }
    void cmdDefine(const std::string& d) // NAME, NAME=text
    {
        size_t e = d.find('='); std::string n = d.substr(0, e), b = e == std::string::npos ? "1" : d.substr(e + 1); Text x = phases(b); size_t i = 0; Line l; lexLine(x, i, l); Macro m; m.body = l.t; if (!m.body.empty()) m.body[0].ws = false; idOf(n); mac[n] = m;
    }
};
// ---------------------------------------------------------------- the output of the real preprocessor
static bool readOutput(const std::string& o, std::vector<Got>& r, std::string& why)
{
    Text x; x.c = o; int line = 1; for (char c : o) { x.line.push_back(line); if (c == '\n') line++; }
    size_t i = 0; Line l; std::string file; int delta = 0;
    while (lexLine(x, i, l)) {
        if (l.bad) { why = strf("line %d of the output is not made of tokens", l.lo); return false; }
        if (l.dir() && l.t.size() >= 3 && l.t[1].t == "line" && l.t[2].k == NUM) { delta = atoi(l.t[2].t.c_str()) - (l.lo + 1); if (l.t.size() > 3 && l.t[3].k == STR) file = l.t[3].t.substr(1, l.t[3].t.size() - 2); continue; }
        if (l.lo != l.hi) { why = strf("a comment in line %d of the output", l.lo); return false; }
        for (auto& t : l.t) r.push_back({ t, file, l.lo + delta, l.t.size() == 1 });
    }
    return true;
}
static std::string squeeze(const std::string& t) { std::string r; for (char c : t) if (c != ' ') r += c; return r; }
static std::string compare(const Pre& p, const std::string& output)
{
    std::vector<Got> g; std::string why; if (!readOutput(output, g, why)) return why;
    // a line with only a # is no directive and means nothing; the tool may print it
    { size_t k = 0; for (auto& x : g) if (!(x.alone && x.t.t == "#" && p.nulls.count({ normPath(p.cwd, x.file), x.line }))) g[k++] = x; g.resize(k); }
    for (size_t i = 0; i < p.out.size() || i < g.size(); i++) {
        if (i >= g.size()) return strf("%zu tokens instead of %zu, missing: ", g.size(), p.out.size()) + p.out[i].t.t + strf(" (%s line %d)", p.out[i].file.c_str(), p.out[i].lo);
        if (i >= p.out.size()) return strf("%zu tokens instead of %zu, too much: ", g.size(), p.out.size()) + g[i].t.t + strf(" (%s line %d)", g[i].file.c_str(), g[i].line);
        const Out& e = p.out[i]; bool same = e.t.path == 3 ? g[i].t.k == STR && squeeze(g[i].t.t) == squeeze(e.t.t) : e.t.path == 2 ? g[i].t.k == STR : e.t.path == 1 ? g[i].t.k == STR && normPath(p.cwd, g[i].t.t.substr(1, g[i].t.t.size() - 2)) == normPath(p.cwd, e.t.t.substr(1, e.t.t.size() - 2)) : g[i].t.t == e.t.t;
        if (!same) return strf("token %zu is %s instead of %s (%s line %d)", i, g[i].t.t.c_str(), e.t.t.c_str(), e.file.c_str(), e.lo);
        if (normPath(p.cwd, g[i].file) != normPath(p.cwd, e.file)) return strf("token %zu (%s) is placed in %s instead of %s", i, e.t.t.c_str(), g[i].file.c_str(), e.file.c_str());
        if (g[i].line < e.lo || g[i].line > e.hi) return strf("token %zu (%s) is placed in line %d instead of %d to %d of %s", i, e.t.t.c_str(), g[i].line, e.lo, e.hi, e.file.c_str());
    }
    return "";
}
// ---------------------------------------------------------------- generator
struct Gen {
    Stream& s; std::map<std::string, std::string> files; std::vector<std::string> args; std::string main; std::vector<std::string> dirs; // files relative to /w or absolute
    struct M { std::string n; int par; }; std::vector<M> known; std::vector<std::string> plain, nums; int counter = 0, budget = 0; bool mess = true;
    Gen(Stream& s) : s(s) {}
    bool one(u32 n) { return s.choose(n) == 0; }
    std::string pickPlain() { static const char* const w[] = { "x", "y", "z", "abc", "int", "if", "define", "_1", "L", "u", "e5", "line", "A", "B1", "long_identifier_that_goes_on_and_on", "defined_not" }; return w[s.choose(16)]; }
    std::string lit()
    {
        static const char* const n[] = { "0", "1", "42", "0x1F", "1.5e+3", ".5", "1e-2f", "08", "1_a", "0xe+1", "3..4", "7UL", "1ee+5", "2.e.x", "9e", "1e+", "123456789" };
        static const char* const q[] = { "\"\"", "\"a b\"", "\"q\\\"q\"", "\"/* no */\"", "\"// no\"", "\"\\\\\"", "\"a  \\t b\"", "L\"w\"", "\"'\"", "\"#x ## y\"", "\"\\n\"", "\"m0\"", "\"?\\?/\"" };
        static const char* const c[] = { "'a'", "'\\''", "'\"'", "'\\\\'", "L'w'", "'\\n'", "'\\0'", "'ab'", "'#'", "'\\x41'" };
        switch (s.choose(4)) { case 0: case 1: return n[s.choose(17)]; case 2: return q[s.choose(13)]; default: return c[s.choose(10)]; }
    }
    std::string op(bool noComma) { static const char* const o[] = { "+", "-", "*", "/", "%", "=", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "&", "&&", "|", "||", "^", "~", "!", "?", ":", ";", ".", "->", "++", "--", "+=", "-=", "*=", "/=", "<<=", ">>=", "...", "[", "]", "{", "}", "&=", "|=", "^=", "%=", "@", "`", "$" }; if (!noComma && one(12)) return ","; return o[s.choose(46)]; }
    // joins pieces; two pieces may touch when that cannot start a comment
    void add(std::string& l, const std::string& t, bool line = false)
    {
        char a = l.empty() ? ' ' : l.back(), b = t.empty() ? ' ' : t[0]; bool touch = !(a == '/' || a == '*' || b == '/' || b == '*' || a == '\\');
        switch (s.choose(mess ? 16 : 4)) { case 0: case 1: case 2: if (touch) break; // fall through
            default: l += ' '; break; case 4: l += "  "; break; case 5: l += '\t'; break; case 6: l += " /* c */ "; break; case 7: l += "/**/"; break; case 8: l += " \t "; break; case 9: if (line && one(4)) { l += "/* more\n than a line * */"; break; } l += ' '; break; case 10: if (one(3)) { l += " /*'\"//*/"; break; } l += ' '; break; }
        l += t;
    }
    std::string soup(int depth, int n, const std::vector<std::string>& params, bool inArgs, bool line)
    {
        std::string l;
        for (int i = 0; i < n && budget > 0; i++) {
            budget--; u32 k = s.choose(20);
            if (!params.empty() && k < 6) add(l, s.pick(params), line);
            else if (k < 10 && !known.empty()) call(l, depth, line, params);
            else if (k < 13) add(l, !frag.empty() && one(3) ? s.pick(frag) : pickPlain(), line);
            else if (inArgs && one(12)) { static const char* const o[] = { "##", "# ", "a ## b", "#x", "## m1", "( # )" }; add(l, o[s.choose(6)], false); }
            else if (k < 16) add(l, lit(), line);
            else if (k < 18) add(l, op(inArgs), line);
            else if (k == 18) { add(l, "(", line); l += soup(depth - 1, s.range(0, 2), params, false, line); add(l, ")", line); }
            else { static const char* const b[] = { "__LINE__", "__FILE__", "__DATE__", "__TIME__" }; add(l, b[s.choose(4)], line); }
        }
        return l;
    }
    void call(std::string& l, int depth, bool line, const std::vector<std::string>& params = {})
    {
        if (known.empty()) return; const M m = s.pick(known); add(l, m.n, line); if (m.par < 0) return;
        if (one(8)) return; // only the name
        if (line && one(12)) l += "\n"; else if (one(4)) l += ' ';
        l += '(';
        int n = m.par; if (one(60)) n += one(2) ? 1 : -1;
        for (int i = 0; i < n; i++) { if (i) { l += ','; if (one(2)) l += ' '; } if (one(20) && m.par > 1) continue; std::string a = depth > 0 ? soup(depth - 1, s.range(1, 3), params, true, line) : ""; if (a.empty()) a = one(2) ? pickPlain() : lit(); if (line && one(10)) a += one(2) ? "\n" : "\n  "; if (one(6)) a = " " + a; if (one(6)) a += ' '; l += a; }
        if (one(4)) l += ' ';
        l += ')';
    }
    std::string newName() { static const char* const w[] = { "m", "M", "f", "mac_", "Q", "include", "x_" }; if (one(40)) { static const char* const odd[] = { "if", "else", "foo", "error", "L", "pragma", "e5", "A" }; return odd[s.choose(8)]; } return strf("%s%d", w[s.choose(7)], (int)s.choose(14)); }
    std::string defLine()
    {
        std::string n = newName(); int par = one(2) ? -1 : (int)s.choose(4); if (one(40)) par = s.range(5, 30);
        std::vector<std::string> P; static const char* const pn[] = { "a", "b", "c", "x", "arg", "y1" }; for (int i = 0; i < par; i++) P.push_back(i < 6 ? pn[i] : strf("p%d", i));
        std::string l = one(8) ? "# define" : one(8) ? "#define\t" : "#define"; l += one(8) ? "  " : " "; l += n;
        if (par >= 0) { l += '('; for (int i = 0; i < par; i++) { if (i) l += ','; if (one(3)) l += ' '; l += P[i]; if (one(6)) l += ' '; } l += ')'; }
        l += ' '; std::string b; int items = s.range(0, 5);
        for (int i = 0; i < items; i++) {
            if (par >= 0 && one(150)) { add(b, one(2) ? "# zz" : "# 5"); continue; }
            if (par > 0 && one(5)) { std::string x = "#"; if (one(4)) x += ' '; x += s.pick(P); add(b, x); }
            else if (one(par > 0 ? 5 : 10)) { // a chain of ##
                if (par < 0 && one(8)) { b += one(2) ? " # ## #" : " x # ## # y"; continue; }
                if (!known.empty() && one(3)) { splitName(b, P); continue; } int k = s.range(2, 3); std::string c; for (int j = 0; j < k; j++) { if (j) c += one(2) ? "##" : " ## "; c += par > 0 && s.choose(4) ? s.pick(P) : one(3) ? strf("%d", s.choose(30)) : one(2) ? pickPlain() : one(30) ? op(true) : strf("m%d", s.choose(4)); } b += ' '; b += c;
            } else b += soup(1, 1, P, par >= 0, false);
        }
        // references that make recursion
        if (one(3)) { std::string x; call(x, 1, false, one(4) ? std::vector<std::string>() : P); b += x; }
        if (one(6)) { b += ' '; b += n; if (par >= 0 && s.choose(3)) { b += "("; for (int i = 0; i < par; i++) { if (i) b += ","; b += P[i]; } b += ")"; } }
        if (one(30)) b += par >= 0 ? " (" : " )";
        for (auto it = known.begin(); it != known.end(); ++it) if (it->n == n) { known.erase(it); break; }
        known.push_back({ n, par }); lastBody = b;
        std::string pre; if (s.choose(5)) pre = "#undef " + n + "\n";
        if (one(8)) return pre + l + b + "\n" + (one(2) ? l + b : l + " " + b + " "); // defined again, the same
        return pre + l + b;
    }
    // the name of a macro made by ##
    void splitName(std::string& b, const std::vector<std::string>& P)
    {
        const M m = s.pick(known); if (m.n.size() < 2) { b += ' ' + m.n; return; } size_t at = 1 + s.choose((u32)m.n.size() - 1); std::string l = m.n.substr(0, at), r = m.n.substr(at); b += ' ';
        if (!P.empty() && one(3)) b += s.pick(P) + (one(2) ? "##" : " ## ") + r; else if (!P.empty() && one(3)) b += l + (one(2) ? "##" : " ## ") + s.pick(P); else b += l + (one(2) ? "##" : " ## ") + r;
        if (m.par >= 0 && s.choose(4)) { b += '('; for (int i = 0; i < m.par; i++) { if (i) b += ", "; b += !P.empty() && one(2) ? s.pick(P) : one(2) ? pickPlain() : lit(); } b += ')'; }
        frag.push_back(l); frag.push_back(r);
    }
    std::vector<std::string> frag; std::string lastBody;
    std::string expr(int d)
    {
        u32 k = s.choose(d > 0 ? 18 : 5);
        if (d >= 2 && one(40)) { // many operands or operators waiting at the same time
            int n = s.range(20, 230); std::string a, b; switch (s.choose(6)) {
            case 0: return std::string((size_t)n, '(') + "1" + std::string((size_t)n, ')');
            case 1: return std::string((size_t)n, one(2) ? '!' : '~') + "1";
            case 2: for (int i = 0; i < n / 2; i++) { a += "1+("; b += ')'; } return a + "1" + b;
            case 3: for (int i = 0; i < n / 3; i++) { a += one(2) ? "1 ? 0 : " : "0 ? 7 : "; } return a + "5";
            case 4: for (int i = 0; i < n; i++) a += one(2) ? "1 + " : "2 | "; return a + "1";
            default: return std::string("(-") + (one(2) ? "9223372036854775807" : "2147483647") + (one(2) ? "L" : "") + " - 1) " + (one(2) ? "/" : "%") + " -1"; }
        }
        switch (k) {
        case 0: case 1: return strf("%d", (int)s.choose(6));
        case 2: { static const char* const n[] = { "0x10", "1u", "'a'", "077", "2L", "'\\n'", "65535", "2147483647", "0u", "3UL", "'\\0'", "0xFFFFu", "-1", "'\\101'" }; return n[s.choose(14)]; }
        case 3: if (!nums.empty()) { std::string n = s.pick(nums); if (n[0] == 'F') return n + "(" + expr(d - 1) + ")"; return n; } return "undefined_name";
        case 4: { std::string n = one(2) && !known.empty() ? s.pick(known).n : one(3) ? "__LINE__" : pickPlain(); return one(2) ? "defined " + n : one(2) ? "defined(" + n + ")" : "defined ( " + n + " )"; }
        case 5: case 6: { static const char* const u[] = { "-", "+", "!", "~", "- ", "! " }; return std::string(u[s.choose(6)]) + " " + expr(d - 1); }
        case 7: return "(" + expr(d - 1) + ")";
        case 15: { // priorities of neighbours
            static const char* const o[] = { "*", "/", "%", "+", "-", "<<", ">>", "<", ">=", "==", "!=", "&", "^", "|", "&&", "||" }; std::string a = strf("%d", (int)s.choose(9)); int n = s.range(2, 4);
            u32 c = s.choose(14); for (int i = 0; i < n; i++) { a += std::string(" ") + o[std::min<u32>(15, c + s.choose(5))] + " "; if (one(4)) a += "-~!+"[s.choose(4)]; a += strf("%d", (int)s.choose(9)); } return one(2) ? "(" + a + ") == " + strf("%d", (int)s.choose(9)) : a; }
        case 16: { // constants with a definite value
            std::string c; int v = (int)s.choose(128); switch (s.choose(6)) {
            case 0: c = strf("'\\%o'", v); break; case 1: c = strf("'\\%03o'", v); break; case 2: c = strf(one(2) ? "'\\x%x'" : "'\\x%X'", v); break; case 3: c = strf(one(2) ? "0x%x" : "0X%X", v); break; case 4: c = strf("0%o", v); break;
            default: { static const struct { const char* t; int v; } e[] = { { "'\\a'", -1 }, { "'\\b'", 8 }, { "'\\f'", 12 }, { "'\\n'", 10 }, { "'\\r'", 13 }, { "'\\t'", 9 }, { "'\\v'", 11 }, { "'\\''", 39 }, { "'\\\"'", 34 }, { "'\\?'", 63 }, { "'\\\\'", 92 }, { "'~'", 126 }, { "'\"'", 34 }, { "0xAbCd", 0xabcd }, { "0xfF1u", 0xff1 }, { "1234567l", 1234567 }, { "''", 0 }, { "'\\8'", 0 } }; u32 k = s.choose(one(12) ? 18 : 16); if (e[k].v < 0) { c = "'z'"; v = 'z'; } else { c = e[k].t; v = e[k].v; } } }
            static const char* const o[] = { "==", "!=", "<", ">", "-", "^" }; return c + " " + o[s.choose(6)] + " " + strf("%d", v + (one(3) ? 1 : 0)); }
        case 17: { // unsigned values at the upper end, the same for every width of long
            static const char* const big[] = { "(0u - %d)", "(~0u - %d)", "(-1 + 0u - %d)", "(%d - 100000u)", "-(%d + 1u)" }; auto B = [&] { return strf(big[s.choose(5)], (int)s.choose(50)); }; int n = s.range(1, 9); const char* cmp[] = { "<", ">", "<=", ">=", "!=" }; const char* c = cmp[s.choose(5)];
            switch (s.choose(5)) { case 0: return strf("(%s >> %d) %s %s", B().c_str(), n, c, B().c_str()); case 1: return strf("%s / %d %s %s", B().c_str(), n + 1, c, B().c_str()); case 2: return strf("%s %% %d %s %s", B().c_str(), 10000, c, B().c_str()); case 3: return strf("(%s << %d) + 100000 %s 50", B().c_str(), n, c); default: return strf("%s * %d + %d %s 3u", B().c_str(), n, 60 * n, c); } }
        case 14: { // signed and unsigned operands meet
            static const char* const v[] = { "-1", "-5", "0u", "1u", "7U", "-2147483647", "(-2147483647 - 1)", "0xFFFFFFFFu", "2147483648u", "-1u", "~0", "~0u", "0", "1", "3" }; static const char* const o[] = { "<", ">", "<=", ">=", "/", "%", ">>", "+", "-", "*", "==", "!=" };
            auto x = [&] { std::string a = v[s.choose(15)]; switch (s.choose(5)) { case 0: return "(" + std::string(one(2) ? "1" : "0") + " ? " + a + " : " + v[s.choose(15)] + ")"; case 1: return "(" + a + " " + o[s.choose(6)] + " " + v[s.choose(15)] + ")"; case 2: return "(" + std::string(1, "-~+"[s.choose(3)]) + " " + a + ")"; default: return a; } };
            std::string a = x(), p = o[s.choose(12)]; if (p == ">>") return a + " >> " + strf("%d", (int)s.choose(8)) + " " + o[s.choose(4)] + " " + x(); if (p == "/" || p == "%") return a + " " + p + " " + (one(2) ? "3" : one(2) ? "2u" : "-7") + " " + o[s.choose(4)] + " " + x(); return a + " " + p + " " + x(); }
        case 8: return expr(d - 1) + " ? " + expr(d - 1) + " : " + expr(d - 1);
        default: { static const char* const o[] = { "+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||", "-", "&&", "||" }; std::string x = o[s.choose(21)]; return expr(d - 1) + (one(3) && x != "/" && x != "-" && x != "+" && x != "&" ? x : " " + x + " ") + expr(d - 1); }
        }
    }
    std::string garbage() { static const char* const g[] = { "#unknown thing", "#foo", "#m0 x", "#M1", "any text ( here", "#error not reached", "#include \"nowhere.h\"", "#define", "#if", "#line x", "}{ @ #", "# /* nothing */", "#undef", "#pragma x", "#elif_not", "#f2(" , "#Q3", "#x_1" }; std::string t = g[s.choose(18)]; if (t == "#if") return "#if 1/0 garbage\n#else\n#elif\n#endif"; return t; }
    std::string body(int lines, int depth, int level)
    {
        std::string o;
        for (int i = 0; i < lines && budget > 0; i++) {
            std::string l; budget--;
            switch (s.choose(22)) {
            case 0: case 1: case 2: case 3: case 4: l = defLine(); break;
            case 5: l = "#undef " + (known.empty() || one(4) ? std::string("never_defined") : s.pick(known).n); break;
            case 6: case 7: if (depth > 0) {
                l = one(3) ? (one(2) ? "#ifdef " : "#ifndef ") + (known.empty() ? std::string("zz") : s.pick(known).n) : (one(5) ? "# if " : "#if ") + expr(3);
                l += "\n" + body(s.range(0, 3), depth - 1, level); while (one(3)) { l += "#elif " + expr(2) + "\n" + (one(3) ? "" : body(s.range(0, 2), depth - 1, level)); }
                if (one(2)) { l += one(4) ? "#\telse /* other */\n" : "#else\n"; l += body(s.range(0, 2), depth - 1, level); }
                l += one(5) ? "# endif // end" : "#endif"; } else l = soup(2, 3, {}, false, true); break;
            case 8: l = "#if 0\n"; for (int k = s.range(0, 4); k > 0; k--) l += garbage() + "\n"; if (one(2)) { l += one(2) ? "#else\n" : "#elif 1\n"; l += body(s.range(0, 2), 0, level); } l += "#endif"; break;
            case 9: { int k = (int)nums.size(); if (one(2) || k == 0) { std::string n = strf("N%d", k); l = "#define " + n + " " + expr(2); nums.push_back(n); known.push_back({ n, -1 }); } else { std::string n = strf("F%d", k); l = "#define " + n + "(v) " + (one(2) ? "((v) + 1)" : "v * 2 - 1"); nums.push_back(n); } break; }
            case 10: if (level < 4 && headers[level + 1].size()) { std::string h = s.pick(headers[level + 1]); l = include(h); } else l = soup(2, 4, {}, false, true); break;
            case 11: if (one(8)) { // macros nested deeply, the last one refers to an earlier one
                int n = s.range(5, 60), pre = (int)s.choose(1000); bool fn = one(2); int back = one(2) ? 0 : (int)s.choose((u32)n), dbl = 2;
                for (int k = 0; k < n; k++) { l += strf("#define c%d_%d", pre, k); if (fn) l += "(x)"; l += strf(" %sc%d_%d", one(3) ? "- " : "", pre, k + 1 < n ? k + 1 : back); if (fn) l += one(5) && dbl-- > 0 ? "(x + x)" : "(x)"; if (one(6)) l += " " + pickPlain(); l += '\n'; if (fn && k > 6) fn = false, l += strf("#define c%d_%d %d\n", pre, k + 1, k), n = 0; }
                l += strf("c%d_0", pre); if (l.find("_0(x)") != std::string::npos) l += one(2) ? "(1)" : " (a)"; break; }
                l = one(3) ? "#pragma " + soup(0, 3, {}, false, false) : one(2) ? "#" : " # "; if (l == "#pragma ") l += "once"; break;
            case 12: if (one(2)) { l = strf("#line %d", s.range(1, 30000)); if (one(2)) l += strf(" \"gen%d.y\"", s.choose(3)); } else l = ""; break;
            case 13: l = one(2) ? "// a comment with 'quotes \" and m0" : "/* a comment\n * over *\n lines **/ " + soup(1, 1, {}, false, false); break;
            case 14: { l = soup(2, 2, {}, false, true); if (!known.empty()) { const M& m = s.pick(known); if (m.par >= 0) { l += " " + m.n; if (one(2)) l += " "; } } break; } // ends with the name of a macro
            default: l = soup(3, s.range(1, 7), {}, false, true); break;
            }
            o += l; o += '\n';
        }
        return o;
    }
    std::vector<std::string> headers[6];
    std::map<std::string, std::string> how; // name -> text of the #include line
    std::string include(const std::string& h) { std::string q = how[h]; if (one(6)) { std::string n = strf("H%d", counter++ % 6); return "#undef " + n + "\n#define " + n + " " + q + "\n#include " + n; } return (one(6) ? "# include " : "#include ") + q; }
    std::string uglify(const std::string& t) // splices and trigraphs anywhere
    {
        std::string o; u32 sp = s.choose(3) ? 0 : (u32)s.range(20, 400), tg = s.choose(4) ? 0 : (u32)s.range(2, 20); static const char from[] = "#[\\]^{|}~", to[] = "=(/)'<!>-";
        for (size_t i = 0; i < t.size(); i++) { char c = t[i]; const char* p; if (tg && c != '?' && (p = strchr(from, c)) && *p && s.choose(tg) == 0) { o += "??"; o += to[p - from]; } else o += c; if (sp && s.choose(sp) == 0) o += tg && one(4) ? "?" "?/\n" : "\\\n"; }
        return o;
    }
    std::string filler(int bytes) { std::string o; int n = 0; while ((int)o.size() < bytes) { std::string l; switch (s.choose(4)) { case 0: l = strf("filler line %d ;", n++); break; case 1: l = "/* " + std::string((size_t)s.range(0, 70), '-') + " */"; break; case 2: l = "/*"; for (int k = one(40) ? s.range(200, 1000) : one(6) ? s.range(60, 260) : s.range(1, 30); k > 0; k--) l += std::string((size_t)s.range(0, 60), "*x "[s.choose(3)]) + "\n"; l += "*/"; break; default: l = std::string((size_t)s.range(0, 12), ' ') + strf("f%d = %d;", n, n * 7); n++; break; } o += l + "\n"; } return o; }
    void build()
    {
        mess = s.choose(4) != 0; budget = s.range(20, 260); std::string dir = one(3) ? "src/" : ""; main = dir + "t.c";
        std::vector<std::string> inc; int nd = (int)s.choose(3); for (int i = 0; i < nd; i++) { static const char* const dn[] = { "i", "in", "inc", "inc/s", "s", "sub1", "i.c" }; std::string d = one(3) ? strf("/w/inc%d", i) : one(2) ? strf("i%d", i) : one(4) ? std::string("/w/") + dn[s.choose(7)] : dn[s.choose(7)]; { std::string full = d[0] == '/' ? d : "/w/" + dir + d; if (std::find(inc.begin(), inc.end(), full) != inc.end()) continue; } inc.push_back(d[0] == '/' ? d : "/w/" + dir + d); args.push_back("-I" + d); }
        dirs = inc; int nh = (int)s.choose(one(4) ? 7 : 4); bool nest = one(60); if (nest) nh = 0;
        for (int i = 0; i < nh; i++) { std::string n = strf("h%d.h", i), p; int level = s.range(1, 4); u32 k = s.choose(6); std::string q = "\"" + n + "\""; if (k <= 1 || (k == 2 && inc.empty())) p = "/w/" + dir + n; else if (k == 2) { size_t at = s.choose((u32)inc.size()); p = inc[at] + "/" + n; if (one(2)) { q = "<" + n + ">"; if (one(3)) files["/w/" + dir + n] = "not that one\n"; } if (one(3) && at + 1 < inc.size()) files[inc[at + 1] + "/" + n] = "the wrong one\n"; } else if (k != 4) { static const char* const sn[] = { "sub", "su", "subdir", "s", "sub/deep", "sub1", "inc" }; std::string sd = sn[s.choose(7)]; p = "/w/" + dir + sd + "/" + n; q = "\"" + sd + "/" + n + "\""; if (one(2)) beside.insert(n); } else { p = "/w/abs/" + n; q = "\"" + p + "\""; } files[p] = ""; how[n] = q; headers[level].push_back(n); place[n] = p; lev[n] = level; }
        for (int k = (int)s.choose(4); k > 0; k--) { std::string n = strf("%s%d", one(2) ? "m" : "D", (int)s.choose(4)); u32 f = s.choose(4); cmd.push_back(f == 0 ? n : f == 1 ? n + "=" : n + "=" + (one(2) ? "1" : "x + y1")); args.push_back("-D" + cmd.back()); if (one(4)) { args.push_back("-U" + n); cmd.push_back("-" + n); } else known.push_back({ n, -1 }); }
        for (int level = 4; level >= 1; level--) for (auto& n : headers[level]) { std::string b = body(s.range(1, 6), 1, level); if (one(2)) b = strf("#ifndef G_%s\n#define G_%s\n", n.substr(0, 2).c_str(), n.substr(0, 2).c_str()) + b + "#endif\n"; b = uglify(b); if (one(4) && !b.empty() && b.back() == '\n' && (b.size() < 2 || (b[b.size() - 2] != '\\' && b[b.size() - 2] != '/'))) b.pop_back(); if (beside.count(n)) { std::string d = place[n].substr(0, place[n].rfind('/') + 1); files[d + "by_" + n] = "beside_" + n.substr(0, 2) + "\n"; b = "#include \"by_" + n + "\"\n" + b; } files[place[n]] = b; }
        std::string b; int lines = s.range(3, 30); if (one(3)) { static const int at[] = { 4096, 8192, 24576, 28672, 32768, 36864, 49152, 57344 }; int z = at[s.choose(8)] - s.range(0, 300); b = filler(z); }
        b += body(lines, 2, 0); if (one(3) && b.size() < 9000) { b += filler(at4(b.size())); b += body(s.range(1, 6), 1, 0); }
        b = uglify(b); if (one(6) && !b.empty() && b.back() == '\n') { b.pop_back(); if (!b.empty() && (b.back() == '\\' || b.back() == '/')) b += '\n'; }
        if (nest) { int n = s.range(2, 9); for (int i = 0; i < n; i++) files[strf("/w/%sn%d.h", dir.c_str(), i)] = strf("before%d\n", i) + (i + 1 < n ? strf("#include \"n%d.h\"\n", i + 1) : "innermost __LINE__\n") + strf("after%d __LINE__\n", i); b += "#include \"n0.h\"\n__LINE__\n"; }
        files["/w/" + main] = b;
        if (one(10)) breakIt();
    }
    int at4(size_t n) { int r = 4096 - (int)(n % 4096) - s.range(-40, 200); return r < 0 ? 0 : r; }
    std::set<std::string> beside; std::map<std::string, std::string> place; std::map<std::string, int> lev; std::vector<std::string> cmd; bool broken = false;
    void breakIt() { static const char* const b[] = { "#error stop", "#include \"missing.h\"", "#if 1", "#endif", "#else", "#if 1\n#else\n#else\n#endif", "#define two(a,b) a b\ntwo(1)", "#define two_(a,b) a b\ntwo_(1,2,3)", "#define twice 1\n#define twice 2", "#define", "#define 3 x", "#define f_(a,a) a", "#define f_(a", "#undef", "#include", "#ifdef", "#elif 1", "#define one_(a) a\none_(1", "#line x", "#include <sys/missing.h>", "#define f_(a b) a", "#define __LINE__ 3", "#define defined", "#undef a b", "#define h_(a) # b\nh_(1)", "#define h_(a) a #\nh_(1)", "#define h_(a) # 5 a\nx h_(m)", "#include \"t.c\"" }; broken = true; std::string& t = files["/w/" + main]; if (!t.empty() && t.back() != '\n') t += '\n'; if (one(4)) { t += "#if " + spoil(expr(2)) + "\n#endif"; } else t += b[s.choose(28)]; t += "\n"; }
    std::string spoil(std::string e)
    {
        static const char* const w[] = { ";", "=", "\"s\"", ",", "++", "->", ".", "#", "##", "[", "+=", "...", "?", ":", "''", ")", "(", "1", "zz", "+", "*", "!", "<<=", "&=", "]", "{", "--", "<", "&&", "1.5", "07x", "5z", "@" }; std::string x = w[s.choose(33)];
        if (e.size() > 120) e = "1 + 2 * 3"; std::vector<size_t> sp; for (size_t i = 0; i < e.size(); i++) if (e[i] == ' ') sp.push_back(i);
        u32 k = s.choose(5); if (k == 0) return e + " " + x; if (k == 1) return x + " " + e; if (k == 2 || sp.empty()) return one(2) ? "" : x; size_t at = s.pick(sp); if (k == 3) return e.substr(0, at) + " " + x + e.substr(at); return e.substr(0, at);
    }
};
}
