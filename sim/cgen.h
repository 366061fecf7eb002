// Random C programs with a known meaning: a generator of typed syntax trees, an evaluator of
// those trees with C89 semantics for 32-bit int/long/pointers and 32-bit float/double, and an
// emitter that writes them as C source in several files. The evaluator shares nothing with the
// compiler; a construct it finds undefined, implementation-dependent or inexact is replaced by
// a constant and the program is evaluated again.
#pragma once
#include "core.h"
#include <cmath>

namespace cg {
enum TK { VOID, CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, FLOAT, DOUBLE, PTR, ARR, STRUCT, FUNC };
struct Ty; struct Expr; struct Fn; struct Var;
struct Member { std::string name; Ty* t; int off = 0; int bits = -1, bitOff = 0; };
struct Ty {
    TK k; Ty* e = nullptr; int n = 0; std::vector<Member> m; int size = 0, align = 1; std::string name; bool isUnion = false, hasBits = false; std::vector<Ty*> par; // FUNC: e result, par parameters
    bool isInt() const { return k >= CHAR && k <= ULONG; } bool isFlt() const { return k == FLOAT || k == DOUBLE; } bool arith() const { return isInt() || isFlt(); } bool scalar() const { return arith() || k == PTR; }
    bool uns() const { return k == UCHAR || k == USHORT || k == UINT || k == ULONG; }
};
struct Types {
    std::vector<Ty*> all; Ty* b[11]; std::map<Ty*, Ty*> ptrs; std::map<std::pair<Ty*, int>, Ty*> arrs;
    Types()
    {
        const char* nm[] = { "void", "char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "float", "double" }; int sz[] = { 0, 1, 1, 2, 2, 4, 4, 4, 4, 4, 4 };
        for (int i = 0; i <= DOUBLE; i++) { Ty* t = new Ty; t->k = (TK)i; t->name = nm[i]; t->size = sz[i]; t->align = sz[i] ? sz[i] : 1; b[i] = t; all.push_back(t); }
    }
    ~Types() { for (Ty* t : all) delete t; }
    Types(const Types&) = delete;
    Ty* ptr(Ty* e) { Ty*& p = ptrs[e]; if (!p) { p = new Ty; p->k = PTR; p->e = e; p->size = p->align = 4; all.push_back(p); } return p; }
    Ty* arr(Ty* e, int n) { Ty*& p = arrs[{ e, n }]; if (!p) { p = new Ty; p->k = ARR; p->e = e; p->n = n; p->size = e->size * n; p->align = e->align; all.push_back(p); } return p; }
    Ty* mk(TK k) { Ty* t = new Ty; t->k = k; all.push_back(t); return t; }
};
static inline void layout(Ty* t)
{
    int off = 0, bit = 0, unit = -1; t->align = 4; t->size = 0; // lcc's bytecode target aligns every structure to 4
    for (auto& m : t->m) {
        if (m.bits >= 0) { // only self-consistency matters
            t->hasBits = true;
            if (unit < 0 || bit + m.bits > 32) { off = (off + 3) & ~3; unit = off; off += 4; bit = 0; }
            m.off = unit; m.bitOff = bit; bit += m.bits; if (t->isUnion) { m.off = 0; m.bitOff = 0; }
        } else { unit = -1; off = (off + m.t->align - 1) / m.t->align * m.t->align; m.off = t->isUnion ? 0 : off; if (!t->isUnion) off += m.t->size; }
        t->size = std::max(t->size, m.off + (m.bits >= 0 ? 4 : m.t->size));
    }
    t->size = (t->size + 3) & ~3; if (!t->size) t->size = 4;
}

enum EK { E_INT, E_FLT, E_STR, E_VAR, E_FN, E_UN, E_BIN, E_ASG, E_INC, E_COND, E_COMMA, E_CAST, E_INDEX, E_MEMBER, E_ARROW, E_DEREF, E_ADDR, E_CALL, E_SIZEOF, E_MACRO, E_MARG, E_OUT };
enum BO { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR, LT, GT, LE, GE, EQ, NE, LAND, LOR, NBO };
static const char* const boName[NBO] = { "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||" };
struct Macro { std::string name; int nargs = 0; Expr* body = nullptr; Ty* t = nullptr; bool objectLike = false; int form = 0; };
struct Expr {
    EK k; Ty* t = nullptr; Expr *a = nullptr, *b = nullptr, *c = nullptr; int op = 0; i64 i = 0; double f = 0; std::string s; Var* v = nullptr; Fn* fn = nullptr; const Member* mem = nullptr; Macro* mac = nullptr; std::vector<Expr*> args; Ty* ty2 = nullptr; int spell = 0; u32 strAddr = 0;
    bool repaired = false;
};
enum SK { S_EXPR, S_IF, S_FOR, S_WHILE, S_DO, S_SWITCH, S_RETURN, S_BREAK, S_CONT, S_BLOCK, S_GOTO, S_LABEL, S_OUT, S_NOP };
struct Case { std::vector<i64> vals; bool dflt = false; std::vector<struct Stmt*> body; bool fall = false; };
struct Stmt { SK k; Expr *e = nullptr, *e2 = nullptr, *e3 = nullptr; std::vector<Stmt*> body, els; std::vector<Var*> decls; std::vector<Case> cases; std::string label; Var* v = nullptr; int n = 0, form = 0, start = 0; bool brace = true; };
struct Init { bool list = false; std::vector<Init*> sub; Expr* e = nullptr; bool present = true; bool isStr = false; std::string s; int braces = 1; bool full = true; };
struct Var { std::string name; Ty* t; bool global = false, stat = false, ro = false, isParam = false, isReg = false, isConst = false, isVolatile = false; int file = 0; Init* init = nullptr; u32 addr = 0; std::vector<u32> addrs; bool loopVar = false, fstat = false; bool noAddr = false; };
struct Fn { std::string name; Ty* ret; std::vector<Var*> par; std::vector<Stmt*> body; int file = 0; bool stat = false; bool builtin = false; u32 addr = 0; int level = 0; Ty* ty = nullptr; bool oldStyle = false; bool recursive = false; };

struct Cfg { int files = 2; bool floats = true, structs = true, bits = true, unions = true, ptrs = true, fnptr = true, sw = true, gotos = true, macros = true, strct_args = true, mixedInit = false; int fns = 5, stmts = 10, depth = 3; };

struct Val { Ty* t = nullptr; i64 i = 0; double f = 0; std::string bytes; };
struct Bad { Expr* e; const char* why; };
struct Budget {};
struct ReturnX {}; 

struct Program {
    Types T; Stream& S; Cfg C; std::vector<Expr*> exprs; std::vector<Stmt*> stmts; std::vector<Var*> vars; std::vector<Fn*> fns; std::vector<Init*> inits; std::vector<Macro*> macros; std::vector<Ty*> structs; std::vector<Var*> globals; int uid = 0;
    std::vector<std::pair<std::string, i64>> enums; std::vector<std::vector<Fn*>> tables; std::vector<Var*> tableVars; Ty* binFn = nullptr; std::vector<std::string> ppLines; std::vector<std::pair<std::string, i64>> ppConsts;
    std::map<std::string, std::string> files; std::string expected; int status = 0; int repairs = 0; bool ok = false; u64 steps = 0; std::string failWhy; std::map<std::string, int> whyCount; std::map<std::string, int> feat;
    Program(Stream& s, const Cfg& c) : S(s), C(c) {}
    ~Program() { for (auto x : exprs) delete x; for (auto x : stmts) delete x; for (auto x : vars) delete x; for (auto x : fns) delete x; for (auto x : inits) delete x; for (auto x : macros) delete x; }

    // ------------------------------------------------------------ construction helpers
    Expr* X(EK k, Ty* t) { Expr* e = new Expr; e->k = k; e->t = t; exprs.push_back(e); return e; }
    Stmt* ST(SK k) { Stmt* s = new Stmt; s->k = k; stmts.push_back(s); return s; }
    Expr* cint(i64 v, Ty* t = nullptr) { Expr* e = X(E_INT, t ? t : T.b[INT]); e->i = v; e->spell = (int)S.choose(4); return e; }
    Expr* bin(int op, Expr* a, Expr* b) { Expr* e = X(E_BIN, nullptr); e->op = op; e->a = a; e->b = b; typeBin(e); return e; }
    Ty* promote(Ty* t) { if (t->k == CHAR || t->k == UCHAR || t->k == SHORT || t->k == USHORT) return T.b[INT]; return t; }
    Ty* usual(Ty* a, Ty* b)
    {
        if (a->k == DOUBLE || b->k == DOUBLE) return T.b[DOUBLE]; if (a->k == FLOAT || b->k == FLOAT) return T.b[FLOAT];
        a = promote(a); b = promote(b); bool lng = a->k == LONG || a->k == ULONG || b->k == LONG || b->k == ULONG, u = a->uns() || b->uns();
        return T.b[lng ? (u ? ULONG : LONG) : u ? UINT : INT];
    }
    static bool narrowUns(Expr* e) { return (e->k == E_MEMBER || e->k == E_ARROW) && e->mem->bits >= 0 && e->mem->bits < 32 && e->t->k == UINT; }
    Ty* vt(Expr* e) { return narrowUns(e) || ((e->k == E_ASG || e->k == E_INC) && narrowUns(e->a)) ? T.b[INT] : e->t; } // the type of its value
    static Ty* decay(Program& P, Ty* t) { return t->k == ARR ? P.T.ptr(t->e) : t->k == FUNC ? P.T.ptr(t) : t; }
    void typeBin(Expr* e)
    {
        Ty *l = decay(*this, vt(e->a)), *r = decay(*this, vt(e->b));
        switch (e->op) {
        case LT: case GT: case LE: case GE: case EQ: case NE: case LAND: case LOR: e->t = T.b[INT]; break;
        case SHL: case SHR: e->t = promote(l); break;
        default: if (l->k == PTR && r->k == PTR) e->t = T.b[INT]; else if (l->k == PTR) e->t = l; else if (r->k == PTR) e->t = r; else e->t = usual(l, r);
        }
    }
    std::string fresh(const char* p) { return strf("%s%d", p, uid++); }

    // ------------------------------------------------------------ generation: types
    Ty* intType() { static const TK k[] = { INT, INT, INT, UINT, CHAR, UCHAR, SHORT, USHORT, LONG, ULONG, UINT, INT }; return T.b[k[S.choose(12)]]; }
    Ty* arithType() { if (C.floats && S.chance(1, 6)) return T.b[S.choose(2) ? FLOAT : DOUBLE]; return intType(); }
    void genStructs()
    {
        int n = C.structs ? 1 + (int)S.choose(3) : 0;
        for (int i = 0; i < n; i++) {
            Ty* t = T.mk(STRUCT); t->isUnion = C.unions && S.chance(1, 5); t->name = strf("%s%d", t->isUnion ? "U" : "S", i); int nm = 1 + (int)S.choose(5);
            for (int j = 0; j < nm; j++) {
                Member m; m.name = strf("m%d", j);
                if (C.bits && !t->isUnion && S.chance(1, 4)) { m.t = T.b[S.choose(2) ? UINT : INT]; m.bits = 1 + (int)S.choose(31); if (m.t->k == INT && m.bits < 2) m.bits = 2; }
                else if (S.chance(1, 5)) { m.t = T.arr(S.chance(1, 3) && C.structs && !structs.empty() && !structs.back()->isUnion ? structs.back() : intType(), 1 + (int)S.choose(5)); if (S.chance(1, 3)) m.t = T.arr(m.t, 2); }
                else if (S.chance(1, 7) && !structs.empty()) m.t = S.pick(structs);
                else if (C.ptrs && S.chance(1, 8)) m.t = T.ptr(T.b[INT]);
                else m.t = arithType();
                t->m.push_back(m);
            }
            layout(t); structs.push_back(t);
        }
    }
    Ty* varType(bool agg = true)
    {
        u32 r = S.choose(20);
        if (!agg || r < 9) return arithType();
        if (r < 13) { Ty* e = S.chance(1, 5) && !structs.empty() ? S.pick(structs) : arithType(); static const int pw[] = { 2, 4, 8 }; Ty* a = T.arr(e, pw[S.choose(3)]); if (S.chance(1, 4)) a = T.arr(a, pw[S.choose(2)]); return a; }
        if (r < 16 && !structs.empty()) return S.pick(structs);
        if (r < 18 && C.ptrs) return T.ptr(S.chance(1, 4) && !structs.empty() ? S.pick(structs) : arithType());
        return intType();
    }

    // ------------------------------------------------------------ generation: expressions
    struct Scope { std::vector<Var*> v; Fn* fn = nullptr; int loop = 0; bool inSwitch = false; int maxFn = 0; Expr** margs = nullptr; std::vector<Ty*>* mtypes = nullptr; bool pure = false; bool constOnly = false; };
    i64 interesting(Ty* t)
    {
        static const i64 v[] = { 0, 1, 2, 3, 5, 7, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x12345678, -1, -2, -7, -128, -129, -32768, -100 };
        i64 x; u32 r = S.choose(10);
        if (r < 5) x = S.choose(20); else if (r < 8) x = v[S.choose(34)]; else x = (i64)S.raw();
        return conv(x, t);
    }
    static i64 conv(i64 x, Ty* t) { switch (t->k) { case CHAR: return (signed char)x; case UCHAR: return (u8)x; case SHORT: return (short)x; case USHORT: return (u16)x; case INT: case LONG: return (i32)x; case UINT: case ULONG: case PTR: return (u32)x; default: return x; } }
    Expr* constant(Ty* t)
    {
        if (t->isFlt()) { Expr* e = X(E_FLT, t); e->f = (double)S.range(-64, 64) / (double)(1 << S.choose(4)); if (e->f == 0) e->f = 0.0; e->spell = (int)S.choose(3); return e; }
        Ty* lt = promote(t); // a literal has at least the type int
        if (C.macros && !enums.empty() && lt->k == INT && S.chance(1, 12)) { auto& en = enums[S.choose((u32)enums.size())]; Expr* e = X(E_INT, T.b[INT]); e->i = en.second; e->s = en.first; return castTo(e, t); }
        if (C.macros && !ppConsts.empty() && lt->k == INT && S.chance(1, 10)) { auto& en = ppConsts[S.choose((u32)ppConsts.size())]; Expr* e = X(E_INT, T.b[INT]); e->i = en.second; e->s = en.first; return castTo(e, t); }
        Expr* e = cint(interesting(lt), lt);
        return e;
    }
    Expr* castTo(Expr* e, Ty* t) { if (e->t == t || (e->t->arith() && t->arith() && S.chance(1, 2))) return e; Expr* c = X(E_CAST, t); c->a = e; return c; }
    Expr* hardCast(Expr* e, Ty* t) { Expr* c = X(E_CAST, t); c->a = e; return c; }
    Expr* varRef(Var* v) { Expr* e = X(E_VAR, v->t); e->v = v; return e; }
    Expr* indexOf(Expr* base, int n, Scope& sc, int d)
    { // an index that stays in range whatever its operand is
        Ty* bt = base->t; Expr* e = X(E_INDEX, bt->e); e->a = base; int m = n, p = 1; while (p * 2 <= m) p *= 2;
        if (d <= 0 || S.chance(1, 3)) e->b = cint((i64)S.choose((u32)n)); else { Expr* i = expr(T.b[INT], sc, d - 1); if (!i->t->isInt()) i = hardCast(i, T.b[INT]); e->b = bin(AND, i, cint(p - 1)); }
        e->op = S.chance(1, 6) ? 1 + (int)S.choose(3) : 0; // written as *(a + i), i[a] or *(i + a)
        return e;
    }
    // walks from an aggregate to something of a scalar type; write: must be assignable
    Expr* scalarPath(Expr* e, Scope& sc, int d)
    {
        for (int g = 0; g < 6; g++) {
            Ty* t = e->t;
            if (t->k == ARR) e = indexOf(e, t->n, sc, d);
            else if (t->k == STRUCT) { const Member* m = &t->m[S.choose((u32)t->m.size())]; if (t->isUnion) m = &t->m[0]; Expr* x = X(E_MEMBER, m->t); x->a = e; x->mem = m; e = x; }
            else break;
        }
        return e;
    }
    Expr* derefPtr(Var* v, Scope& sc, int d)
    { // pointers of the generated programs always point to the first of at least one object
        Expr* b = varRef(v); Ty* et = v->t->e; Expr* e;
        if (et->k == STRUCT && S.chance(2, 3)) { const Member* m = &et->m[et->isUnion ? 0 : S.choose((u32)et->m.size())]; e = X(E_ARROW, m->t); e->a = b; e->mem = m; }
        else if (S.chance(1, 4)) { e = X(E_INDEX, et); e->a = b; e->b = cint(0); }
        else { e = X(E_DEREF, et); e->a = b; }
        return scalarPath(e, sc, d);
    }
    Expr* lvalue(Scope& sc, int d, bool wr, Ty* want = nullptr)
    {
        std::vector<Var*> c;
        for (Var* v : sc.v) { if (wr && (v->ro || v->isConst)) continue; if (v->t->k == FUNC) continue; if (v->t->k == PTR && (v->t->e->k == FUNC || v->t->e->k == VOID)) continue; c.push_back(v); }
        if (c.empty()) return nullptr;
        for (int g = 0; g < 4; g++) {
            Var* v = c[S.choose((u32)c.size())]; Expr* e;
            if (v->t->k == PTR) { if (v->t->e->k == PTR) continue; e = derefPtr(v, sc, d); }
            else e = scalarPath(varRef(v), sc, d);
            if (!e->t->arith()) continue;
            if (want && want->isFlt() != e->t->isFlt() && g < 3) continue;
            return e;
        }
        return nullptr;
    }
    Expr* callExpr(Scope& sc, int d, Ty* want)
    {
        if (C.fnptr && !tableVars.empty() && S.chance(1, 4) && !(want && want->isFlt()) && sc.maxFn > 0) {
            int ti = (int)S.choose((u32)tableVars.size()); bool okk = true; for (Fn* f : tables[ti]) if (f->level >= sc.maxFn) okk = false;
            if (okk) {
                Expr* idx = indexOf(varRef(tableVars[ti]), tableVars[ti]->t->n, sc, d - 1); Expr* e = X(E_CALL, T.b[INT]); e->a = idx; e->op = 1 + (int)S.choose(2);
                for (int i = 0; i < 2; i++) e->args.push_back(coerce(expr(T.b[INT], sc, d - 1), T.b[INT])); feat["fnptr-call"]++; return e;
            }
        }
        std::vector<Fn*> c; for (Fn* f : fns) if (!f->builtin && f->level < sc.maxFn && f->ret->k != STRUCT && f->ret->k != VOID && f->ret->k != PTR) c.push_back(f);
        if (c.empty()) return nullptr;
        return callFn(c[S.choose((u32)c.size())], sc, d);
    }
    Expr* coerce(Expr* e, Ty* t) { if (t->arith() && e->t->arith()) return e->t == t || S.chance(2, 3) ? e : hardCast(e, t); return e; }
    Expr* callFn(Fn* f, Scope& sc, int d)
    {
        Expr* e = X(E_CALL, f->ret); e->fn = f;
        for (Var* p : f->par) e->args.push_back(argFor(p->t, sc, d, f->oldStyle, f->recursive && p == f->par[0]));
        feat["call"]++;
        return e;
    }
    Expr* argFor(Ty* t, Scope& sc, int d, bool old, bool small)
    {
        if (small) return cint((i64)S.choose(6));
        if (t->k == PTR) return pointerTo(t->e, sc);
        if (t->k == STRUCT) return structVal(t, sc);
        Expr* e = expr(t, sc, d - 1);
        return hardCastIf(e, t, old);
    }
    Expr* hardCastIf(Expr* e, Ty* t, bool must) { if (must && e->t != t) return hardCast(e, t); return coerce(e, t); }
    int structNest = 0;
    Expr* structVal(Ty* t, Scope& sc)
    {
        std::vector<Expr*> c; for (Var* v : sc.v) { if (v->t == t) c.push_back(varRef(v)); else if (v->t->k == ARR && v->t->e == t) c.push_back(indexOf(varRef(v), v->t->n, sc, 1)); else if (v->t->k == PTR && v->t->e == t) { Expr* e = X(E_DEREF, t); e->a = varRef(v); c.push_back(e); } }
        if (structNest < 2) { structNest++; for (Fn* f : fns) if (f->ret == t && f->level < sc.maxFn && S.chance(1, 2)) c.push_back(callFn(f, sc, 1)); structNest--; }
        if (c.empty()) { Var* v = structGlobal(t); c.push_back(varRef(v)); }
        return c[S.choose((u32)c.size())];
    }
    std::map<Ty*, Var*> sg;
    Var* structGlobal(Ty* t) { Var*& v = sg[t]; if (!v) { v = new Var; v->name = fresh("sg"); v->t = t; v->global = true; vars.push_back(v); globals.push_back(v); } return v; }
    std::map<Ty*, Var*> pg;
    Expr* pointerTo(Ty* et, Scope& sc)
    {
        std::vector<Expr*> c;
        for (Var* v : sc.v) {
            if (v->isReg || v->noAddr || v->ro || v->isConst || v->isVolatile || v->loopVar) continue;
            if (v->t == et) { Expr* e = X(E_ADDR, T.ptr(et)); e->a = varRef(v); c.push_back(e); }
            else if (v->t->k == ARR && v->t->e == et) { if (S.chance(1, 2)) { Expr* e = X(E_ADDR, T.ptr(et)); e->a = indexOf(varRef(v), v->t->n, sc, 1); c.push_back(e); } else c.push_back(varRef(v)); }
            else if (v->t->k == PTR && v->t->e == et) c.push_back(varRef(v));
            else if (v->t->k == STRUCT && !v->t->isUnion) for (auto& m : v->t->m) if (m.t == et && m.bits < 0) { Expr* x = X(E_MEMBER, et); x->a = varRef(v); x->mem = &m; Expr* e = X(E_ADDR, T.ptr(et)); e->a = x; c.push_back(e); }
        }
        if (c.empty()) { Var*& v = pg[et]; if (!v) { v = new Var; v->name = fresh("pg"); v->t = et; v->global = true; vars.push_back(v); globals.push_back(v); } Expr* e = X(E_ADDR, T.ptr(et)); e->a = varRef(v); c.push_back(e); }
        return c[S.choose((u32)c.size())];
    }
    Expr* expr(Ty* want, Scope& sc, int d)
    {
        bool fl = want && want->isFlt();
        if (d <= 0 || S.chance(1, 8)) {
            if (sc.margs && S.chance(2, 3)) { int i = (int)S.choose((u32)sc.mtypes->size()); Expr* e = X(E_MARG, (*sc.mtypes)[i]); e->i = i; return e; }
            if (!sc.constOnly && S.chance(3, 4)) { Expr* e = lvalue(sc, d, false, want); if (e) return e; }
            return constant(want && want->arith() ? want : T.b[INT]);
        }
        switch (S.choose(sc.constOnly ? 8 : 21)) {
        case 0: case 1: case 2: case 3: { // arithmetic
            static const int ops[] = { ADD, SUB, MUL, ADD, SUB, AND, OR, XOR, DIV, MOD, SHL, SHR }; int op = fl ? ops[S.choose(5)] : ops[S.choose(12)];
            if (fl && S.chance(1, 8)) op = DIV;
            Expr *a = expr(want, sc, d - 1), *b = expr(fl && S.chance(2, 3) ? want : fl ? T.b[INT] : want, sc, d - 1);
            if (op >= MOD && op <= XOR) { if (!a->t->isInt()) a = hardCast(a, T.b[INT]); if (!b->t->isInt()) b = hardCast(b, T.b[INT]); }
            if (op == SHL || op == SHR) { b = bin(AND, b, cint(S.choose(2) ? 31 : 7)); if (op == SHL && S.chance(3, 4)) a = hardCast(a, T.b[UINT]); }
            if ((op == DIV || op == MOD) && b->t->isInt() && (sc.constOnly || S.chance(3, 4))) b = bin(OR, sc.constOnly ? bin(AND, b, cint(127)) : b, cint(1)); // (constant: also where it is not executed)
            if (!fl && S.chance(1, 12)) { // an operation with a power of two on an operand of a limited form
                static const int po[] = { DIV, MOD, MUL, DIV, AND, SHR }; int o2 = po[S.choose(6)]; i64 k = 1ll << S.choose(12); if (!a->t->isInt()) a = hardCast(a, T.b[INT]); Ty* ct = S.choose(3) ? T.b[INT] : S.choose(2) ? T.b[UINT] : T.b[LONG];
                switch (S.choose(5)) { case 0: a = bin(AND, a, cint(-k)); break; case 1: a = bin(AND, a, cint(interesting(T.b[INT]))); break; case 2: a = hardCast(a, intType()); break; case 3: a = bin(OR, a, cint(-k)); break; }
                if (o2 == SHR) k = (i64)S.choose(31); if (o2 == AND) k -= S.choose(2); if (o2 == MUL && k > 64) k = 4; if ((o2 == DIV || o2 == MOD) && ct->k != UINT && S.chance(1, 5)) k = -k; return bin(o2, a, cint(k, ct));
            }
            return bin(op, a, b);
        }
        case 4: { static const int ops[] = { LT, GT, LE, GE, EQ, NE }; Ty* t = arithType(); Expr *a = expr(t, sc, d - 1), *b = expr(S.chance(3, 4) ? t : arithType(), sc, d - 1); return bin(ops[S.choose(6)], a, b); }
        case 5: { Expr* e = X(E_UN, nullptr); static const char op[] = { '-', '~', '!', '+' }; e->op = op[S.choose(4)]; e->a = expr(want, sc, d - 1); if (e->op == '~' && !e->a->t->isInt()) e->a = hardCast(e->a, T.b[INT]); e->t = e->op == '!' ? T.b[INT] : e->a->t->isFlt() ? e->a->t : promote(vt(e->a)); return e; }
        case 6: { Ty* t = arithType(); return hardCast(expr(t, sc, d - 1), S.choose(2) && want && want->arith() ? want : arithType()); }
        case 7: { if (S.chance(1, 3)) { Expr* e = X(E_SIZEOF, T.b[UINT]); if (!sc.margs && S.chance(1, 2)) { Expr* o = sc.constOnly ? constant(arithType()) : S.chance(1, 3) && !sc.v.empty() ? varRef(S.pick(sc.v)) : expr(arithType(), sc, d - 1); if (o->t->k != FUNC && o->t->k != VOID && o->k != E_MACRO && o->k != E_MARG && !bitf(o) && !(o->k == E_INT && o->t->k != INT && o->t->size < 4) && !anyBits(o->t)) { e->a = o; e->ty2 = o->t; feat["sizeof-expr"]++; return e; } } e->ty2 = S.chance(1, 3) && !structs.empty() ? S.pick(structs) : varTypeNoBits(); if (anyBits(e->ty2)) e->ty2 = T.b[INT]; return e; } return bin(S.choose(2) ? LAND : LOR, expr(arithType(), sc, d - 1), expr(arithType(), sc, d - 1)); }
        case 8: case 9: { Expr* e = X(E_COND, nullptr); e->a = expr(arithType(), sc, d - 1); e->b = expr(want, sc, d - 1); e->c = expr(want, sc, d - 1); e->t = usual(vt(e->b), vt(e->c)); return e; }
        case 10: case 11: if (!sc.pure) { Expr* e = callExpr(sc, d, want); if (e) return e; } break;
        case 12: if (!sc.pure) { Expr* l = lvalue(sc, d - 1, true, want); if (l) { Expr* e = X(E_ASG, l->t); e->a = l; e->op = -1; if (S.chance(1, 2)) e->op = l->t->isFlt() ? (int)S.choose(3) : ADD + (int)S.choose(10); e->b = expr(l->t, sc, d - 1); fixAsg(e); return e; } } break;
        case 13: if (!sc.pure) { Expr* l = lvalue(sc, d - 1, true, T.b[INT]); if (l) { Expr* e = X(E_INC, l->t); e->a = l; e->op = (int)S.choose(4); return e; } } break;
        case 14: if (!sc.pure) { Expr* e = X(E_COMMA, nullptr); e->a = expr(arithType(), sc, d - 1); e->b = expr(want, sc, d - 1); e->t = vt(e->b); return e; } break;
        case 15: if (C.macros && !macros.empty() && !sc.margs) { Macro* m = macros[S.choose((u32)macros.size())]; Expr* e = X(E_MACRO, m->t); e->mac = m; bool sv = sc.pure; sc.pure = true; for (int i = 0; i < m->nargs; i++) e->args.push_back(hardCast(expr(T.b[INT], sc, d - 1), T.b[INT])); sc.pure = sv; feat["macro"]++; return e; } break;
        case 16: { // pointer comparison or difference inside one array
            for (Var* v : sc.v) if (v->t->k == ARR && v->t->e->scalar() && !v->isReg && S.chance(1, 2)) {
                Expr *a = X(E_ADDR, T.ptr(v->t->e)), *b = X(E_ADDR, T.ptr(v->t->e)); a->a = indexOf(varRef(v), v->t->n, sc, d - 1); b->a = indexOf(varRef(v), v->t->n, sc, d - 1); static const int ops[] = { SUB, LT, GE, EQ, NE, GT, LE, SUB }; feat["ptr-compare"]++;
                return bin(ops[S.choose(8)], a, b);
            }
            break;
        }
        case 17: { // read through pointer arithmetic: *(a + i)
            for (Var* v : sc.v) if (v->t->k == ARR && v->t->e->arith() && S.chance(1, 2)) { Expr* i = bin(AND, coerceInt(expr(T.b[INT], sc, d - 1)), cint(v->t->n - 1)); Expr* e = X(E_DEREF, v->t->e); e->a = S.choose(2) ? bin(ADD, varRef(v), i) : bin(SUB, bin(ADD, varRef(v), cint(v->t->n - 1)), i); return e; }
            break;
        }
        case 20: { // a byte of an object
            Expr* l = lvalue(sc, d - 1, false); if (!l || bitf(l) || inReg(l)) break; Expr* ad = X(E_ADDR, T.ptr(l->t)); ad->a = l; Ty* bt = T.b[S.choose(2) ? UCHAR : CHAR]; Expr* c = hardCast(ad, T.ptr(bt)); feat["byte-of"]++;
            Expr* i = S.choose(2) ? cint((i64)S.choose((u32)l->t->size)) : bin(AND, coerceInt(expr(T.b[INT], sc, d - 2)), cint(l->t->size - 1)); Expr* e; if (S.choose(2)) { e = X(E_INDEX, bt); e->a = c; e->b = i; } else { e = X(E_DEREF, bt); e->a = bin(ADD, c, i); } return e;
        }
        case 18: { // member of a returned structure
            for (Fn* f : fns) if (f->ret->k == STRUCT && f->level < sc.maxFn && !sc.pure && !f->ret->isUnion && S.chance(1, 2)) { Expr* c = callFn(f, sc, d - 1); const Member* m = &f->ret->m[0]; if (!m->t->arith()) break; Expr* e = X(E_MEMBER, m->t); e->a = c; e->mem = m; feat["struct-return-member"]++; return e; }
            break;
        }
        case 19: { // a character of a string literal
            Expr* s = X(E_STR, T.ptr(T.b[CHAR])); s->s = text(); feat["string"]++; Expr* e = X(E_INDEX, T.b[CHAR]); e->a = s; e->b = cint((i64)S.choose((u32)s->s.size() + 1)); return e;
        }
        }
        Expr* e = sc.constOnly ? nullptr : lvalue(sc, d, false, want);
        return e ? e : constant(want && want->arith() ? want : T.b[INT]);
    }
    std::string text(size_t max = 40)
    {
        static const char* lit[] = { "abc", "hello, world", "\001\377x", "tab\there", "q\"uo\\te", "?", "0123456789abcdef", "", "a", "xyz", "\377\001", "hi there", "longer text", "?\?(!?\?/?", "/* no */ // comment" };
        std::string s; if (S.chance(1, 2)) s = lit[S.choose(15)]; else { int n = (int)S.choose(9); for (int i = 0; i < n; i++) s += (char)(S.choose(3) == 0 ? '0' + S.choose(10) : S.choose(3) == 0 ? 1 + S.choose(255) : S.choose(2) ? 'a' + S.choose(26) : 1 + S.choose(31)); }
        if (s.size() > max) s.resize(max); return s;
    }
    static bool inReg(Expr* e) { while (e->k == E_MEMBER || e->k == E_INDEX) e = e->a; return e->k != E_VAR || e->v->isReg || e->v->isVolatile; }
    static bool bitf(Expr* e)
    { // a bit-field, or a value rcc still takes for one (known finding sizeof-bit-field)
        if (!e) return false; switch (e->k) { case E_ASG: case E_INC: case E_CAST: return bitf(e->a); case E_UN: return e->op == '+' && bitf(e->a); case E_COMMA: return bitf(e->b); case E_COND: return bitf(e->b) || bitf(e->c); case E_MEMBER: case E_ARROW: return e->mem->bits >= 0; case E_BIN: return bitf(e->a) || bitf(e->b); default: return false; }
    }
    static bool anyBits(Ty* t) { while (t->k == ARR) t = t->e; if (t->k != STRUCT) return false; if (t->hasBits) return true; for (auto& m : t->m) if (anyBits(m.t)) return true; return false; }
    Ty* varTypeNoBits() { Ty* t = varType(); return t; }
    Expr* coerceInt(Expr* e) { return e->t->isInt() ? e : hardCast(e, T.b[INT]); }
    void fixAsg(Expr* e)
    {
        if (e->op < 0) return;
        if (e->op >= MOD && e->op <= XOR) { if (!e->a->t->isInt()) e->op = -1; else e->b = coerceInt(e->b); }
        if (e->op == SHL || e->op == SHR) e->b = bin(AND, coerceInt(e->b), cint(7));
        if ((e->op == DIV || e->op == MOD) && e->b->t->isInt()) e->b = bin(OR, e->b, cint(1));
    }

    // ------------------------------------------------------------ generation: initialisers
    Init* IN() { Init* i = new Init; inits.push_back(i); return i; }
    static void leaves(Ty* t, int& sizes) { if (t->k == ARR) leaves(t->e, sizes); else if (t->k == STRUCT) { for (auto& m : t->m) { if (m.bits >= 0) sizes |= 16; else leaves(m.t, sizes); } } else sizes |= t->size; }
    bool initable(Ty* t, bool stat)
    { // what the assembler can lay out: no 16-bit data, and (unless allowed) no mixture of 8 and 32-bit data in one object
        int s = 0; leaves(t, s);
        bool agg = t->k == ARR || t->k == STRUCT;
        if (!stat && !agg) return true;
        if (s & 2) return false;
        if (s & 16 && (s & 15)) { if (!C.mixedInit) return (s & 15) == 4; }
        if ((s & 5) == 5 && !C.mixedInit) return false;
        return true;
    }
    Init* genInit(Ty* t, bool stat, Scope& sc, bool top = true)
    {
        Init* in = IN(); struct Done { Init* in; Ty* t; ~Done() { if (!in->list) return; size_t n = t->k == ARR ? (size_t)t->n : t->isUnion ? 1 : t->m.size(); in->full = in->sub.size() == n; for (Init* x : in->sub) in->full &= x->full; } } done{ in, t };
        if (t->k == ARR) {
            if (t->e->k == CHAR && t->n >= 2 && S.chance(1, 2)) { in->isStr = true; in->s = text((size_t)t->n - S.choose(2)); return in; }
            in->list = true; int k = S.chance(1, 4) ? 1 + (int)S.choose((u32)t->n) : t->n; for (int i = 0; i < k; i++) in->sub.push_back(genInit(t->e, stat, sc, false));
        } else if (t->k == STRUCT) {
            in->list = true; int k = t->isUnion ? 1 : S.chance(1, 4) ? 1 + (int)S.choose((u32)t->m.size()) : (int)t->m.size(); for (int i = 0; i < k; i++) in->sub.push_back(genInit(t->m[i].t, stat, sc, false));
        } else if (t->k == PTR) { in->e = ptrInit(t, stat, sc); }
        else { Scope c2; c2.constOnly = true; c2.pure = true; bool agg = !top; in->e = stat || agg ? expr(t, c2, (int)S.choose(3)) : expr(t, sc, 2); }
        return in;
    }
    Expr* ptrInit(Ty* t, bool stat, Scope& sc)
    {
        if (t->e->k == FUNC) return nullptr;
        if (!stat) return pointerTo(t->e, sc);
        Scope g; for (Var* v : globals) if (!v->isConst) g.v.push_back(v);
        // address constants only: fixed indices
        std::vector<Expr*> c; for (Var* v : g.v) { if (v->isConst || v->isVolatile) continue; if (v->t == t->e) { Expr* e = X(E_ADDR, t); e->a = varRef(v); c.push_back(e); } else if (v->t->k == ARR && v->t->e == t->e) { Expr* i = X(E_INDEX, t->e); i->a = varRef(v); i->b = cint((i64)S.choose((u32)v->t->n)); Expr* e = X(E_ADDR, t); e->a = i; c.push_back(e); c.push_back(bin(ADD, varRef(v), cint((i64)S.choose((u32)v->t->n)))); } }
        if (c.empty()) { Var*& v = pg[t->e]; if (!v) { v = new Var; v->name = fresh("pg"); v->t = t->e; v->global = true; vars.push_back(v); globals.push_back(v); } Expr* e = X(E_ADDR, t); e->a = varRef(v); c.push_back(e); }
        return c[S.choose((u32)c.size())];
    }
    Var* newVar(const char* p, Ty* t) { Var* v = new Var; v->name = fresh(p); v->t = t; vars.push_back(v); return v; }

    // ------------------------------------------------------------ generation: statements
    Stmt* outStmt(Scope& sc, int d) { Stmt* s = ST(S_OUT); s->n = uid++; if (C.floats && S.chance(1, 6)) { Expr* e = expr(T.b[FLOAT], sc, d); if (e->t->arith()) { s->e = e->t->isFlt() ? e : hardCast(e, T.b[FLOAT]); return s; } } Expr* e = expr(intType(), sc, d); s->e = e->t->isFlt() ? hardCast(e, T.b[FLOAT]) : e; return s; }
    std::vector<Stmt*> block(Scope sc, int n, int nest, std::vector<Var*>& decls)
    {
        int nd = S.chance(1, 2) ? (int)S.choose(3) : 0;
        for (int i = 0; i < nd; i++) declLocal(sc, decls);
        if (S.chance(1, 4) && sc.v.size() > 4) {
            std::vector<Var*> k, all = sc.v; Var* p = nullptr; for (Var* v : all) if (v->t->k == PTR && v->t->e->k != FUNC && (!p || S.choose(2))) p = v;
            if (p) { k.push_back(p); for (Var* v : all) if (v->t == p->t->e && S.choose(2)) k.push_back(v); } while (k.size() < 3) k.push_back(S.pick(all));
            if (p) for (Var* v : all) if (v->ro || v->isConst) k.push_back(v); sc.v = k; feat["focus"]++; n += 2;
            if (p && !p->ro && p->t->e->arith() && !p->isParam && !p->stat && !p->global) { Scope g; g.v = k; Expr* x = pointerTo(p->t->e, g); Stmt* s = ST(S_EXPR); Expr* e = X(E_ASG, p->t); e->a = varRef(p); e->op = -1; e->b = x; s->e = e; std::vector<Stmt*> r; r.push_back(s); for (int i = 0; i < n; i++) stmt(sc, nest, r); return r; }
        }
        std::vector<Stmt*> r; for (int i = 0; i < n; i++) stmt(sc, nest, r);
        return r;
    }
    void declLocal(Scope& sc, std::vector<Var*>& decls)
    {
        Ty* t = varType(); Var* v = newVar("v", t);
        v->stat = S.chance(1, 6); v->isReg = !v->stat && t->arith() && S.chance(1, 8); v->isVolatile = t->arith() && S.chance(1, 12); v->isConst = t->isInt() && S.chance(1, 10);
        if (t->k == PTR) v->ro = false;
        if (initable(t, v->stat) && !(t->k == PTR && t->e->k == FUNC)) v->init = genInit(t, v->stat, sc);
        else if (!v->stat) { // memory without an initialiser is filled by assignments to its parts before use: make it static instead
            v->stat = true; v->isReg = false;
            int sz = 0; leaves(t, sz); if (t->k == PTR || hasPtr(t)) { v->t = T.b[INT]; v->stat = false; v->init = genInit(v->t, false, sc); }
        }
        if (v->stat && hasPtr(v->t) && v->t->k != PTR) { v->t = T.b[INT]; v->init = genInit(v->t, true, sc); v->isConst = false; } // null pointers inside
        if (!v->stat && hasPtr(v->t) && v->t->k != PTR) { v->t = T.b[UINT]; v->init = genInit(v->t, false, sc); }
        decls.push_back(v); sc.v.push_back(v);
    }
    static bool hasPtr(Ty* t) { if (t->k == PTR) return true; if (t->k == ARR) return hasPtr(t->e); if (t->k == STRUCT) { for (auto& m : t->m) if (hasPtr(m.t)) return true; } return false; }
    Stmt* loopStmt(Scope sc, int nest, std::vector<Stmt*>& out)
    {
        Var* v = newVar("i", T.b[S.choose(4) ? INT : UINT]); v->ro = true; v->loopVar = true; sc.v.push_back(v);
        int kind = (int)S.choose(3); Stmt* s = ST(kind == 0 ? S_FOR : kind == 1 ? S_WHILE : S_DO); s->v = v; s->n = S.chance(1, 10) ? 0 : 1 + (int)S.choose(nest > 1 ? 3 : 7); s->form = kind == 0 && S.chance(1, 4) ? 1 + (int)S.choose(2) : 0; s->start = (int)S.range(-2, 9); if (S.chance(1, 6)) s->e2 = expr(arithType(), sc, 2); s->e = cint(S.choose(4)); s->e->spell = (int)S.choose(6); // count up or down, condition form
        if (kind == 2 && s->e->spell == 3) {}
        sc.loop++; sc.inSwitch = false; int m = 1 + (int)S.choose(4); std::vector<Var*> dl; s->body = block(sc, m, nest + 1, dl); s->decls = dl; feat[kind == 0 ? "for" : kind == 1 ? "while" : "do"]++;
        (void)out; return s;
    }
    void stmt(Scope& sc, int nest, std::vector<Stmt*>& out)
    {
        u32 r = S.choose(30);
        if (r < 9) { // assignment
            Expr* l = lvalue(sc, 2, true);
            if (l) { Stmt* s = ST(S_EXPR); Expr* e = X(E_ASG, l->t); e->a = l; e->op = S.chance(1, 3) ? (l->t->isFlt() ? (int)S.choose(3) : (int)S.choose(10)) : -1; e->b = expr(l->t, sc, C.depth); fixAsg(e); s->e = e; out.push_back(s); return; }
        }
        if (r < 13) { out.push_back(outStmt(sc, C.depth)); return; }
        if (r < 15 && nest < 4) { Stmt* s = ST(S_IF); s->e = expr(arithType(), sc, C.depth); std::vector<Var*> d1, d2; Stmt* b = ST(S_BLOCK); b->body = block(sc, 1 + (int)S.choose(3), nest + 1, d1); b->decls = d1; s->body.push_back(b); if (S.choose(2)) { Stmt* b2 = ST(S_BLOCK); b2->body = block(sc, 1 + (int)S.choose(3), nest + 1, d2); b2->decls = d2; s->els.push_back(b2); } out.push_back(s); return; }
        if (r < 18 && nest < 3) { out.push_back(loopStmt(sc, nest, out)); return; }
        if (r < 20 && C.sw && nest < 3) {
            Stmt* s = ST(S_SWITCH); Expr* e = coerceInt(expr(intType(), sc, 2)); int form = (int)S.choose(3); i64 base = form == 0 ? 0 : form == 1 ? S.range(-20, 20) : interesting(T.b[INT]) & 0x3fffffff;
            bool huge = nest == 1 && S.chance(1, 40); if (huge) feat["huge-switch"]++; int nc = huge ? (int)S.range(200, 1100) : 2 + (int)S.choose(8); i64 stride = form == 2 ? 1 + (i64)S.choose(1000) : 1; s->e = S.chance(3, 4) ? bin(ADD, bin(MUL, bin(AND, e, cint(huge ? 1023 : 7)), cint(stride)), cint(base)) : e; std::set<i64> seen;
            for (int i = 0; i < nc; i++) { Case c; int nv = 1 + (int)S.choose(2); for (int k = 0; k < nv; k++) { i64 x = conv(base + stride * (i64)S.choose(huge ? 2000 : 12), T.b[INT]); if (seen.insert(x).second) c.vals.push_back(x); } if (c.vals.empty()) continue; if (huge && !S.chance(1, 20)) { Stmt* o = ST(S_OUT); o->n = uid++; o->e = cint(i); c.body.push_back(o); s->cases.push_back(c); continue; } Scope s2 = sc; s2.inSwitch = true; int nb = (int)S.choose(3); for (int k = 0; k < nb; k++) stmt(s2, nest + 2, c.body); c.fall = S.chance(1, 3); s->cases.push_back(c); }
            if (S.chance(2, 3)) { Case c; c.dflt = true; Scope s2 = sc; s2.inSwitch = true; stmt(s2, nest + 2, c.body); size_t at = S.choose((u32)s->cases.size() + 1); c.fall = S.chance(1, 4); s->cases.insert(s->cases.begin() + at, c); }
            feat["switch"]++; out.push_back(s); return;
        }
        if (r < 21 && sc.loop && !sc.inSwitch) { Stmt* s = ST(S_IF); s->e = expr(arithType(), sc, 2); s->body.push_back(ST(S.choose(2) ? S_BREAK : S_CONT)); out.push_back(s); return; }
        if (r < 22 && C.gotos && nest < 3) { Stmt* g = ST(S_IF); g->e = expr(arithType(), sc, 2); Stmt* j = ST(S_GOTO); j->label = fresh("L"); g->body.push_back(j); out.push_back(g); int n = 1 + (int)S.choose(2); for (int i = 0; i < n; i++) stmt(sc, nest + 1, out); Stmt* l = ST(S_LABEL); l->label = j->label; out.push_back(l); feat["goto"]++; return; }
        if (r < 23 && nest < 3) { Stmt* s = ST(S_BLOCK); std::vector<Var*> d; s->body = block(sc, 1 + (int)S.choose(3), nest + 1, d); s->decls = d; out.push_back(s); return; }
        if (r < 25 && !structs.empty()) { // structure assignment
            std::vector<Expr*> l; for (Var* v : sc.v) if (v->t->k == STRUCT && !v->isConst && !v->ro) l.push_back(varRef(v));
            if (!l.empty()) { Expr* d = l[S.choose((u32)l.size())]; Stmt* s = ST(S_EXPR); Expr* e = X(E_ASG, d->t); e->a = d; e->op = -1; e->b = structVal(d->t, sc); s->e = e; out.push_back(s); feat["struct-assign"]++; return; }
        }
        if (r < 26 && C.ptrs) { // pointer assignment
            for (Var* v : sc.v) if (v->t->k == PTR && v->t->e->k != FUNC && !v->ro && !v->isParam && S.chance(1, 2)) { Expr* src = v->stat || v->global ? globalPtr(v->t->e) : pointerTo(v->t->e, sc); if (!src) break; Stmt* s = ST(S_EXPR); Expr* e = X(E_ASG, v->t); e->a = varRef(v); e->op = -1; e->b = src; s->e = e; out.push_back(s); feat["ptr-assign"]++; return; }
        }
        if (r == 26 && S.chance(1, 2) && nest < 3) { // a pointer that walks over an array
            std::vector<Var*> c; for (Var* v : sc.v) if (v->t->k == ARR && v->t->e->arith() && !v->isReg && !v->isVolatile) c.push_back(v);
            if (!c.empty()) {
                Var* a = S.pick(c); bool wr = !a->isConst && !a->ro && S.choose(2), down = S.choose(2), pre = S.choose(2); Var* q = newVar("q", T.ptr(a->t->e)); q->ro = true; int first = pre ? (down ? a->t->n : -1) : (down ? a->t->n - 1 : 0); if (first < 0) { first = 0; pre = false; } if (pre && !down) pre = false;
                int steps = pre || down ? (pre ? a->t->n : a->t->n - 1) : a->t->n; if (steps < 1) steps = 1; if (down && !pre && a->t->n < 2) down = false;
                q->init = IN(); if (first >= a->t->n || S.choose(2)) q->init->e = bin(ADD, varRef(a), cint(first)); else { Expr* x = X(E_INDEX, a->t->e); x->a = varRef(a); x->b = cint(first); Expr* e = X(E_ADDR, q->t); e->a = x; q->init->e = e; }
                Stmt* b = ST(S_BLOCK); b->decls.push_back(q); Stmt* l = ST(S_FOR); Var* i = newVar("i", T.b[INT]); i->ro = i->loopVar = true; l->v = i; l->n = 1 + (int)S.choose((u32)std::min(steps, 7)); l->e = cint(S.choose(4)); l->e->spell = (int)S.choose(6); Scope s2 = sc; s2.v.push_back(i); s2.loop++;
                Expr* inc = X(E_INC, q->t); inc->a = varRef(q); inc->op = (down ? 1 : 0) | (pre ? 0 : 2); Expr* de = X(E_DEREF, a->t->e); de->a = inc; Stmt* st;
                if (wr) { st = ST(S_EXPR); Expr* e = X(E_ASG, de->t); e->a = de; e->op = S.choose(2) ? -1 : (int)S.choose(3); e->b = expr(de->t, s2, 2); fixAsg(e); st->e = e; }
                else { Expr* lv = lvalue(s2, 1, true, de->t); if (lv && S.choose(2)) { st = ST(S_EXPR); Expr* e = X(E_ASG, lv->t); e->a = lv; e->op = S.choose(2) ? -1 : 0; e->b = de; st->e = e; } else { st = ST(S_OUT); st->n = uid++; st->e = de->t->isFlt() ? hardCast(de, T.b[FLOAT]) : de; } }
                l->body.push_back(st); b->body.push_back(l); if (S.choose(2)) { Stmt* o = ST(S_OUT); o->n = uid++; o->e = bin(SUB, varRef(q), varRef(a)); b->body.push_back(o); } feat["pointer-walk"]++; out.push_back(b); return;
            }
        }
        if (r < 27 && !sc.pure) { std::vector<Fn*> c; for (Fn* f : fns) if (!f->builtin && f->level < sc.maxFn) c.push_back(f); if (!c.empty()) { Stmt* s = ST(S_EXPR); s->e = callFn(c[S.choose((u32)c.size())], sc, 2); out.push_back(s); return; } }
        if (r < 28) { Stmt* s = ST(S_EXPR); s->e = expr(arithType(), sc, C.depth); out.push_back(s); return; }
        out.push_back(outStmt(sc, C.depth));
    }
    Expr* globalPtr(Ty* et) { Scope g; for (Var* v : globals) g.v.push_back(v); return pointerTo(et, g); }

    // ------------------------------------------------------------ generation: program
    void generate()
    {
        genStructs();
        { int v = (int)S.range(-5, 5); int n = (int)S.choose(4); for (int i = 0; i < n; i++) { v += (int)S.choose(9); enums.push_back({ fresh("EN"), v }); v++; } }
        if (C.macros) { int n = (int)S.choose(4); for (int i = 0; i < n; i++) { Scope c; c.constOnly = true; i64 v = interesting(T.b[INT]); if (S.choose(3)) v = S.range(-50, 300); ppConsts.push_back({ fresh("K"), v }); } }
        if (C.macros) { int n = (int)S.choose(4); for (int i = 0; i < n; i++) { Macro* m = new Macro; m->name = fresh("MAC"); m->nargs = 1 + (int)S.choose(3); m->form = (int)S.choose(4); std::vector<Ty*> mt(m->nargs, T.b[INT]); Scope sc; sc.pure = true; sc.margs = (Expr**)1; sc.mtypes = &mt; sc.constOnly = true; m->body = expr(T.b[INT], sc, 1 + (int)S.choose(2)); m->t = m->body->t; macros.push_back(m); } }
        int ng = 1 + (int)S.choose(6);
        for (int i = 0; i < ng; i++) {
            Ty* t = varType(); if (hasPtr(t) && t->k != PTR) t = arithType();
            Var* v = newVar("g", t); v->global = true; v->file = (int)S.choose((u32)C.files); Scope sc; sc.constOnly = true;
            if (t->k == PTR || (initable(t, true) && S.chance(2, 3))) v->init = genInit(t, true, sc);
            if (t->isInt() && v->init && S.chance(1, 8)) v->isConst = true;
            globals.push_back(v);
        }
        binFn = T.mk(FUNC); binFn->e = T.b[INT]; binFn->par = { T.b[INT], T.b[INT] };
        int nf = 1 + (int)S.choose((u32)C.fns);
        for (int i = 0; i < nf; i++) genFn(i);
        genMain(nf);
    }
    void genFn(int i)
    {
        Fn* f = new Fn; fns.push_back(f); f->name = fresh("f"); f->level = i; f->file = (int)S.choose((u32)C.files);
        bool bf = C.fnptr && S.chance(1, 2), rec = !bf && S.chance(1, 5);
        f->oldStyle = !bf && S.chance(1, 8);
        if (bf) { f->ret = T.b[INT]; for (int k = 0; k < 2; k++) { Var* v = newVar("p", T.b[INT]); v->isParam = true; f->par.push_back(v); } }
        else {
            f->ret = S.chance(1, 6) && !structs.empty() && C.strct_args ? S.pick(structs) : S.chance(1, 8) ? T.b[VOID] : arithType(); if (f->ret->k == STRUCT && hasPtr(f->ret)) f->ret = T.b[INT];
            int np = (int)S.choose(5); if (rec) { Var* v = newVar("n", T.b[INT]); v->isParam = true; v->ro = true; f->par.push_back(v); f->recursive = true; f->oldStyle = false; }
            for (int k = 0; k < np; k++) { Ty* t = S.chance(1, 5) && C.ptrs ? T.ptr(S.chance(1, 4) && !structs.empty() ? S.pick(structs) : arithType()) : S.chance(1, 7) && !structs.empty() && C.strct_args ? S.pick(structs) : arithType(); if ((t->k == STRUCT && hasPtr(t)) || (t->k == PTR && hasPtr(t->e))) t = T.b[INT]; if (f->oldStyle && (t->k == FLOAT || t->k == STRUCT)) t = T.b[INT]; Var* v = newVar("p", t); v->isParam = true; f->par.push_back(v); }
        }
        f->ty = T.mk(FUNC); f->ty->e = f->ret; for (Var* v : f->par) f->ty->par.push_back(v->t);
        Scope sc; for (Var* v : globals) sc.v.push_back(v); for (Var* v : f->par) sc.v.push_back(v); sc.fn = f; sc.maxFn = rec ? 0 : i;
        f->stat = S.chance(1, 6);
        Stmt* b = ST(S_BLOCK); f->body.push_back(b);
        std::vector<Var*> dl; int n0 = (int)S.choose(3); for (int k = 0; k < n0; k++) declLocal(sc, dl); b->decls = dl;
        if (rec) { // if (n <= 0) return ...; out; x = f(n - 1, ...)
            Stmt* s = ST(S_IF); s->e = bin(LE, varRef(f->par[0]), cint(0)); s->body.push_back(retStmt(f, sc)); b->body.push_back(s);
            int n = (int)S.choose(3); for (int k = 0; k < n; k++) stmt(sc, 2, b->body);
            Expr* c = X(E_CALL, f->ret); c->fn = f; c->args.push_back(bin(SUB, varRef(f->par[0]), cint(1))); for (size_t k = 1; k < f->par.size(); k++) c->args.push_back(argFor(f->par[k]->t, sc, 1, false, false));
            Stmt* s2 = ST(S_EXPR); s2->e = c; if (f->ret->arith()) { if (S.choose(2)) { Stmt* o = ST(S_OUT); o->n = uid++; o->e = c->t->isFlt() ? hardCast(c, T.b[FLOAT]) : c; s2 = o; } else { Stmt* rt = ST(S_RETURN); rt->e = bin(ADD, c, expr(f->ret, sc, 1)); s2 = rt; } }
            b->body.push_back(s2); feat["recursion"]++;
        } else { int n = 1 + (int)S.choose((u32)C.stmts); for (int k = 0; k < n; k++) stmt(sc, 1, b->body); }
        b->body.push_back(retStmt(f, sc));
        if (bf && C.fnptr && S.chance(1, 2)) {
            std::vector<Fn*> c; for (Fn* g : fns) if (g->ty && g->ty->par.size() == 2 && g->ret == T.b[INT] && g->par[0]->t == T.b[INT] && g->par[1]->t == T.b[INT] && !g->oldStyle && !g->recursive) c.push_back(g);
            std::vector<Fn*> tb; int n = 2 << S.choose(2); for (int k = 0; k < n; k++) tb.push_back(c[S.choose((u32)c.size())]);
            for (Fn* g : tb) g->stat = false;
            Var* v = newVar("tab", T.arr(T.ptr(binFn), n)); v->global = true; v->ro = true; v->isConst = true; v->file = (int)S.choose((u32)C.files); tables.push_back(tb); tableVars.push_back(v);
        }
    }
    Stmt* retStmt(Fn* f, Scope& sc) { Stmt* s = ST(S_RETURN); if (f->ret->k == VOID) return s; if (f->ret->k == STRUCT) { s->e = structValNoCall(f->ret, sc); return s; } s->e = coerce(expr(f->ret, sc, 2), f->ret); return s; }
    Expr* structValNoCall(Ty* t, Scope& sc) { int m = sc.maxFn; sc.maxFn = 0; Expr* e = structVal(t, sc); sc.maxFn = m; return e; }
    Fn* mainFn = nullptr;
    void genMain(int nf)
    {
        Fn* f = new Fn; fns.push_back(f); mainFn = f; f->name = "vmMain"; f->level = nf; f->ret = T.b[INT]; f->file = 0; Var* v = newVar("command", T.b[INT]); v->isParam = true; f->par.push_back(v);
        Scope sc; for (Var* g : globals) sc.v.push_back(g); sc.fn = f; sc.maxFn = nf;
        Stmt* b = ST(S_BLOCK); f->body.push_back(b); std::vector<Var*> dl; int n0 = (int)S.choose(4); for (int k = 0; k < n0; k++) declLocal(sc, dl); b->decls = dl;
        int n = 3 + (int)S.choose((u32)C.stmts * 2); for (int k = 0; k < n; k++) stmt(sc, 1, b->body);
        // the final state of everything global
        for (size_t k = 0; k < globals.size(); k++) dumpVar(varRef(globals[k]), b->body, 0);
        Stmt* s = ST(S_RETURN); s->e = expr(T.b[INT], sc, 2); b->body.push_back(s);
    }
    void dumpVar(Expr* e, std::vector<Stmt*>& out, int d)
    {
        Ty* t = e->t;
        if (t->k == ARR) { for (int i = 0; i < t->n && i < 6; i++) { Expr* x = X(E_INDEX, t->e); x->a = e; x->b = cint(i); dumpVar(x, out, d + 1); } }
        else if (t->k == STRUCT) { for (auto& m : t->m) { Expr* x = X(E_MEMBER, m.t); x->a = e; x->mem = &m; dumpVar(x, out, d + 1); if (t->isUnion) break; } }
        else if (t->arith()) { Stmt* s = ST(S_OUT); s->n = uid++; s->e = t->isFlt() ? hardCast(e, T.b[FLOAT]) : e; out.push_back(s); }
    }

    // ------------------------------------------------------------ evaluation
    struct Obj { u32 size; std::string d; };
    std::map<u32, Obj> mem; u32 nextAddr = 0x1000; struct Acc { u32 a, n; bool w; }; std::vector<Acc> log; int depth = 0, fullDepth = 0; std::string outText; std::map<u32, Fn*> fnAt; std::map<std::string, u32> strAt; std::vector<std::vector<Val>> margStack; u64 budget = 0; u32 stackUse = 0;
    enum Flow { FL_NONE, FL_BREAK, FL_CONT, FL_RET, FL_GOTO }; std::string gotoLabel; Val retVal; Fn* curFn = nullptr;
    u32 alloc(u32 n) { u32 a = nextAddr; nextAddr = (nextAddr + n + 64 + 15) & ~15u; mem[a] = { n, std::string(n, 0) }; return a; }
    std::map<u32, Obj>::iterator objOf(u32 a) { auto it = mem.upper_bound(a); if (it == mem.begin()) return mem.end(); --it; return a <= it->first + it->second.size ? it : mem.end(); }
    char* at(u32 a, u32 n, Expr* e) { auto it = mem.upper_bound(a); if (it == mem.begin()) throw Bad{ e, "bad address" }; --it; if (a < it->first || a + n > it->first + it->second.size) throw Bad{ e, "bad address" }; return &it->second.d[a - it->first]; }
    void logA(u32 a, u32 n, bool w, Expr* e) { if (log.size() > 60000) throw Bad{ e, "too many accesses in one expression" }; log.push_back({ a, n, w }); }
    bool conflict(size_t a, size_t b, size_t c)
    { // between [a,b) and [b,c)
        bool w = false; for (size_t i = a; i < c && !w; i++) w = log[i].w; if (!w || a == b || b == c) return false;
        std::vector<Acc> x(log.begin() + a, log.begin() + b), y(log.begin() + b, log.begin() + c);
        auto lt = [](const Acc& p, const Acc& q) { return p.a < q.a || (p.a == q.a && p.n < q.n); };
        std::sort(x.begin(), x.end(), lt); std::sort(y.begin(), y.end(), lt);
        auto scan = [](std::vector<Acc>& p, std::vector<Acc>& q) { size_t j = 0; for (auto& e : p) { while (j < q.size() && q[j].a + 64 < e.a) j++; for (size_t k = j; k < q.size() && q[k].a < e.a + e.n; k++) if (q[k].a + q[k].n > e.a && (q[k].w || e.w)) return true; } return false; };
        return scan(x, y) || scan(y, x);
    }
    static bool isConstInit(Expr*) { return true; }
    Val load(u32 a, Ty* t, const Member* bf, Expr* e)
    {
        Val v; v.t = t; logA(a, bf && bf->bits >= 0 ? 4 : (u32)t->size, false, e);
        if (bf && bf->bits >= 0) { u32 w; memcpy(&w, at(a, 4, e), 4); u32 x = w >> bf->bitOff; if (bf->bits < 32) x &= (1u << bf->bits) - 1; if (t->k == INT && bf->bits < 32 && x >> (bf->bits - 1)) x |= ~((1u << bf->bits) - 1); v.i = t->k == INT ? (i64)(i32)x : (i64)x; if (t->k == UINT && bf->bits < 32) v.t = T.b[INT]; return v; }
        char* p = at(a, (u32)t->size, e);
        switch (t->k) {
        case CHAR: v.i = *(signed char*)p; break; case UCHAR: v.i = *(u8*)p; break; case SHORT: { short s; memcpy(&s, p, 2); v.i = s; break; } case USHORT: { u16 s; memcpy(&s, p, 2); v.i = s; break; }
        case INT: case LONG: { i32 s; memcpy(&s, p, 4); v.i = s; break; } case UINT: case ULONG: case PTR: { u32 s; memcpy(&s, p, 4); v.i = s; break; }
        case FLOAT: case DOUBLE: { float f; memcpy(&f, p, 4); v.f = f; if (!std::isfinite(v.f)) throw Bad{ e, "float" }; break; }
        case STRUCT: v.bytes.assign(p, t->size); break;
        default: throw Bad{ e, "load" };
        }
        return v;
    }
    void store(u32 a, Ty* t, const Member* bf, const Val& v, Expr* e)
    {
        logA(a, bf && bf->bits >= 0 ? 4 : (u32)t->size, true, e);
        if (bf && bf->bits >= 0) { u32 w; char* p = at(a, 4, e); memcpy(&w, p, 4); u32 m = (bf->bits < 32 ? (1u << bf->bits) - 1 : ~0u); w = (w & ~(m << bf->bitOff)) | (((u32)v.i & m) << bf->bitOff); memcpy(p, &w, 4); return; }
        char* p = at(a, (u32)t->size, e); i64 i = v.i;
        switch (t->size * (t->k != STRUCT)) { case 1: *p = (char)i; break; case 2: { u16 s = (u16)i; memcpy(p, &s, 2); break; } case 4: if (t->isFlt()) { float f = (float)v.f; memcpy(p, &f, 4); } else { u32 s = (u32)i; memcpy(p, &s, 4); } break; default: if (t->k == STRUCT) memcpy(p, v.bytes.data(), t->size); else throw Bad{ e, "store" }; }
    }
    Val convert(Val v, Ty* t, Expr* e)
    {
        Val r; r.t = t;
        if (t->k == VOID) return r;
        if (t->k == STRUCT) { r.bytes = v.bytes; return r; }
        if (t->isFlt()) { double d = v.t->isFlt() ? v.f : (double)v.i; if ((double)(float)d != d || (d == 0 && std::signbit(d))) throw Bad{ e, "inexact" }; r.f = d; return r; }
        if (v.t->isFlt()) { if (v.f != v.f || v.f >= 2147483520.0 || v.f <= -2147483520.0) throw Bad{ e, "float range" }; double tr = std::trunc(v.f); if (t->uns() && tr < 0) throw Bad{ e, "float range" }; r.i = (i64)tr; i64 c = conv(r.i, t); if (c != r.i) throw Bad{ e, "float range" }; return r; }
        r.i = conv(v.i, t); return r;
    }
    bool truth(const Val& v) { return v.t->isFlt() ? v.f != 0 : v.i != 0; }
    Val arith(int op, Val a, Val b, Expr* e)
    {
        Val r;
        if (op == SHL || op == SHR) {
            Ty* t = promote(a.t); a = convert(a, t, e); r.t = t; if (b.i < 0 || b.i > 31) throw Bad{ e, "shift" };
            if (op == SHL) { if (!t->uns()) { if (a.i < 0 || (a.i << b.i) > 0x7fffffffll) throw Bad{ e, "shift" }; } r.i = conv(a.i << b.i, t); }
            else r.i = t->uns() ? (i64)((u32)a.i >> b.i) : (i64)((i32)a.i >> b.i);
            return r;
        }
        Ty* t = usual(a.t, b.t); a = convert(a, t, e); b = convert(b, t, e); r.t = t;
        if (op >= LT && op <= NE) {
            int c; if (t->isFlt()) c = a.f < b.f ? -1 : a.f > b.f; else c = a.i < b.i ? -1 : a.i > b.i;
            bool x = op == LT ? c < 0 : op == GT ? c > 0 : op == LE ? c <= 0 : op == GE ? c >= 0 : op == EQ ? c == 0 : c != 0; r.t = T.b[INT]; r.i = x; return r;
        }
        if (t->isFlt()) {
            double x; switch (op) { case ADD: x = a.f + b.f; break; case SUB: x = a.f - b.f; break; case MUL: x = a.f * b.f; break; case DIV: if (b.f == 0) throw Bad{ e, "float division" }; x = a.f / b.f; if (x * b.f != a.f) throw Bad{ e, "inexact" }; break; default: throw Bad{ e, "float op" }; }
            if ((double)(float)x != x || std::fabs(x) > 1e9 || (x == 0 && std::signbit(x)) || (x != 0 && std::fabs(x) < 1e-6)) throw Bad{ e, "inexact" };
            r.f = x; return r;
        }
        i64 x;
        switch (op) {
        case ADD: x = a.i + b.i; break; case SUB: x = a.i - b.i; break; case MUL: x = t->uns() ? (i64)(u32)((u32)a.i * (u32)b.i) : a.i * b.i; break;
        case DIV: case MOD: if (b.i == 0 || (!t->uns() && a.i == -2147483648ll && b.i == -1)) throw Bad{ e, "division" }; x = op == DIV ? a.i / b.i : a.i % b.i; break;
        case AND: x = a.i & b.i; break; case OR: x = a.i | b.i; break; case XOR: x = a.i ^ b.i; break; default: throw Bad{ e, "op" };
        }
        if (!t->uns() && (x > 0x7fffffffll || x < -0x80000000ll)) throw Bad{ e, "overflow" };
        r.i = conv(x, t); return r;
    }
    struct LV { u32 a; Ty* t; const Member* bf; };
    LV lval(Expr* e)
    {
        tick();
        switch (e->k) {
        case E_VAR: return { e->v->addr, e->v->t, nullptr };
        case E_STR: { u32& a = strAt[e->s]; if (!a) { a = alloc((u32)e->s.size() + 1); memcpy(at(a, (u32)e->s.size(), e), e->s.data(), e->s.size()); } return { a, T.arr(T.b[CHAR], (int)e->s.size() + 1), nullptr }; }
        case E_INDEX: { size_t m0 = log.size(); Val b = rval(e->a); size_t m1 = log.size(); Val i = rval(e->b); if (conflict(m0, m1, log.size())) throw Bad{ e, "order" }; return { (u32)(b.i + i.i * e->t->size), e->t, nullptr }; }
        case E_DEREF: { Val b = rval(e->a); return { (u32)b.i, e->t, nullptr }; }
        case E_MEMBER: { if (e->a->k == E_CALL || e->a->k == E_ASG || e->a->k == E_COND) throw Bad{ e, "member of value" }; LV l = lval(e->a); return { l.a + (u32)e->mem->off, e->t, e->mem->bits >= 0 ? e->mem : nullptr }; }
        case E_ARROW: { Val b = rval(e->a); return { (u32)b.i + (u32)e->mem->off, e->t, e->mem->bits >= 0 ? e->mem : nullptr }; }
        default: throw Bad{ e, "lvalue" };
        }
    }
    void tick() { if (++steps > budget) throw Budget(); }
    bool fake(Val& v) { (void)v; return false; }
    Val rval(Expr* e)
    {
        tick(); Val r; r.t = e->t;
        switch (e->k) {
        case E_INT: r.i = e->i; return r;
        case E_FLT: r.f = e->f; return r;
        case E_STR: { LV l = lval(e); r.i = l.a; return r; }
        case E_FN: r.i = e->fn->addr; return r;
        case E_VAR: case E_INDEX: case E_DEREF: case E_ARROW: case E_MEMBER: {
            if (e->k == E_MEMBER && e->a->k == E_CALL) { Val s = rval(e->a); u32 tmp = alloc((u32)e->a->t->size); size_t keep = log.size(); store(tmp, e->a->t, nullptr, s, e); Val x = load(tmp + (u32)e->mem->off, e->t, e->mem->bits >= 0 ? e->mem : nullptr, e); log.resize(keep); return x; }
            LV l = lval(e); if (l.t->k == ARR) { r.t = T.ptr(l.t->e); r.i = l.a; return r; } return load(l.a, l.t, l.bf, e);
        }
        case E_ADDR: { LV l = lval(e->a); at(l.a, (u32)l.t->size, e); r.i = l.a; return r; }
        case E_UN: { Val a = rval(e->a); if (e->op == '!') { r.t = T.b[INT]; r.i = !truth(a); return r; } if (a.t->isFlt()) { r.t = a.t; r.f = e->op == '-' ? -a.f : a.f; if (r.f == 0 && std::signbit(r.f)) throw Bad{ e, "negative zero" }; return r; } Ty* t = promote(a.t); a = convert(a, t, e); r.t = t; i64 x = e->op == '-' ? -a.i : e->op == '~' ? ~a.i : a.i; if (!t->uns() && (x > 0x7fffffffll || x < -0x80000000ll)) throw Bad{ e, "overflow" }; r.i = conv(x, t); return r; }
        case E_BIN: {
            if (e->op == LAND || e->op == LOR) { bool a = truth(rval(e->a)); r.t = T.b[INT]; if (e->op == LAND ? !a : a) { r.i = a; return r; } r.i = truth(rval(e->b)); return r; }
            size_t m0 = log.size(); Val a = rval(e->a); size_t m1 = log.size(); Val b = rval(e->b); if (conflict(m0, m1, log.size())) throw Bad{ e, "order" };
            if (a.t->k == PTR || b.t->k == PTR) {
                if (a.t->k == PTR && b.t->k == PTR) {
                    std::map<u32, Obj>::iterator oa = objOf((u32)a.i), ob = objOf((u32)b.i); // a pointer to an object that is gone compares with nothing, and one past the end with nothing else
                    if ((a.i && oa == mem.end()) || (b.i && ob == mem.end()) || ((e->op != EQ && e->op != NE) && (!a.i || !b.i || oa != ob))) throw Bad{ e, "pointer comparison" };
                    if (a.i && b.i && oa != ob && ((u32)a.i == oa->first + oa->second.size || (u32)b.i == ob->first + ob->second.size)) throw Bad{ e, "pointer comparison" };
                    if (e->op == SUB) { r.t = T.b[INT]; r.i = ((i64)a.i - (i64)b.i) / a.t->e->size; return r; }
                    i64 c = a.i - b.i; bool x = e->op == LT ? c < 0 : e->op == GT ? c > 0 : e->op == LE ? c <= 0 : e->op == GE ? c >= 0 : e->op == EQ ? c == 0 : c != 0; r.t = T.b[INT]; r.i = x; return r;
                }
                if (b.t->k == PTR) std::swap(a, b); r.t = a.t; r.i = e->op == ADD ? a.i + b.i * a.t->e->size : a.i - b.i * a.t->e->size; return r;
            }
            return arith(e->op, a, b, e);
        }
        case E_ASG: {
            size_t m0 = log.size(); LV l = lval(e->a); size_t m1 = log.size(); Val v = rval(e->b); if (conflict(m0, m1, log.size())) throw Bad{ e, "order" };
            if (e->op >= 0) { Val o = load(l.a, l.t, l.bf, e); if (l.bf && l.t->k == UINT && l.bf->bits < 32 && !v.t->isFlt() && v.i < 0) throw Bad{ e, "unpromoted bit-field" }; v = arith(e->op, o, v, e); }
            v = convert(v, l.t, e); size_t m2 = log.size();
            for (size_t i = m0; i < m2; i++) if (log[i].w && log[i].a < l.a + (u32)std::max(4, l.t->size) && log[i].a + log[i].n > l.a) throw Bad{ e, "order" };
            if (l.t->k == STRUCT) { // overlapping copies
                for (size_t i = m1; i < m2; i++) if (!log[i].w && log[i].n == (u32)l.t->size && log[i].a != l.a && log[i].a < l.a + log[i].n && log[i].a + log[i].n > l.a) throw Bad{ e, "overlap" };
            }
            store(l.a, l.t, l.bf, v, e); if (l.bf) { size_t k = log.size(); v = load(l.a, l.t, l.bf, e); log.resize(k); v.t = l.t; Val q = v; q.t = promoteBf(l); return q; }
            v.t = l.t; return v;
        }
        case E_INC: {
            size_t m0 = log.size(); LV l = lval(e->a); Val o = load(l.a, l.t, l.bf, e); Val one; one.t = T.b[INT]; one.i = 1; for (size_t i = m0; i < log.size(); i++) if (log[i].w && log[i].a < l.a + 4 && log[i].a + log[i].n > l.a) throw Bad{ e, "order" };
            Val n; if (l.t->k == PTR) { n = o; n.i += e->op & 1 ? -l.t->e->size : l.t->e->size; auto ob = objOf((u32)n.i); if (ob == mem.end() || objOf((u32)o.i) != ob) throw Bad{ e, "pointer arithmetic" }; } else n = convert(arith(e->op & 1 ? SUB : ADD, o, one, e), l.t, e); store(l.a, l.t, l.bf, n, e); if (l.bf) { size_t k = log.size(); n = load(l.a, l.t, l.bf, e); log.resize(k); }
            return e->op & 2 ? o : n;
        }
        case E_COND: { bool c = truth(rval(e->a)); Val v = rval(c ? e->b : e->c); return convert(v, e->t, e); }
        case E_COMMA: rval(e->a); return rval(e->b);
        case E_CAST: return convert(rval(e->a), e->t, e);
        case E_SIZEOF: r.i = e->ty2->size; return r;
        case E_MACRO: { std::vector<Val> av; size_t m0 = log.size(); for (Expr* x : e->args) { av.push_back(rval(x)); } for (size_t i = m0; i < log.size(); i++) if (log[i].w) throw Bad{ e, "side effect in macro argument" }; margStack.push_back(av); try { r = rval(e->mac->body); } catch (Bad& b) { margStack.pop_back(); throw Bad{ e, b.why }; } margStack.pop_back(); r.t = e->t; return r; }
        case E_MARG: r = margStack.back()[e->i]; return r;
        case E_CALL: {
            size_t m0 = log.size(); Fn* f = e->fn; if (e->a) { Val p = rval(e->a); auto it = fnAt.find((u32)p.i); if (it == fnAt.end()) throw Bad{ e, "function pointer" }; f = it->second; }
            std::vector<Val> av; for (size_t i = 0; i < e->args.size(); i++) { size_t m1 = log.size(); Val v = rval(e->args[i]); if (conflict(m0, m1, log.size())) throw Bad{ e, "order" }; av.push_back(convert(v, f->par[i]->t, e)); }
            return call(f, av, e);
        }
        default: throw Bad{ e, "expression" };
        }
    }
    Ty* promoteBf(LV& l) { return l.t->k == UINT && l.bf->bits < 32 ? T.b[INT] : l.t; }
    Val call(Fn* f, std::vector<Val>& av, Expr* e)
    {
        if (++depth > 24) { depth--; throw Bad{ e, "recursion" }; }
        std::vector<u32> save; for (Var* v : f->par) save.push_back(v->addr);
        std::vector<std::pair<Var*, u32>> saveL; u32 lo = nextAddr; (void)lo;
        for (size_t i = 0; i < f->par.size(); i++) { f->par[i]->addr = alloc((u32)f->par[i]->t->size); store(f->par[i]->addr, f->par[i]->t, nullptr, av[i], e); }
        Fn* sf = curFn; curFn = f; Val keep = retVal; retVal = Val(); retVal.t = f->ret; bool threw = true; Flow fl = FL_NONE;
        struct Restore { Program* p; Fn* f; std::vector<u32>& s; Fn* sf; ~Restore() { for (size_t i = 0; i < s.size(); i++) { p->mem.erase(f->par[i]->addr); f->par[i]->addr = s[i]; } p->curFn = sf; p->depth--; } } rs{ this, f, save, sf }; (void)threw;
        fl = runList(f->body); (void)fl;
        Val r = retVal; retVal = keep; if (f->ret->k != VOID && fl != FL_RET) throw Bad{ e, "no return" };
        r.t = f->ret; return r;
    }
    void initMem(u32 a, Ty* t, Init* in, const Member* bf = nullptr)
    {
        if (in->isStr) { memcpy(at(a, (u32)t->size, nullptr), in->s.data(), std::min(in->s.size(), (size_t)t->size)); return; }
        if (t->k == ARR) { for (size_t i = 0; i < in->sub.size(); i++) initMem(a + (u32)i * (u32)t->e->size, t->e, in->sub[i]); return; }
        if (t->k == STRUCT && in->list) { for (size_t i = 0; i < in->sub.size(); i++) initMem(a + (u32)t->m[i].off, t->m[i].t, in->sub[i], t->m[i].bits >= 0 ? &t->m[i] : nullptr); return; }
        if (!in->e) return;
        Val v = convert(rval(in->e), t, in->e); store(a, t, bf, v, in->e);
    }
    void enter(std::vector<Var*>& decls, std::vector<u32>& save)
    {
        for (Var* v : decls) { save.push_back(v->addr); if (v->stat) continue; v->addr = alloc((u32)v->t->size); if (v->init) { initMem(v->addr, v->t, v->init); endFull(); } else { std::string& d = mem[v->addr].d; std::fill(d.begin(), d.end(), 0); } }
    }
    void leave(std::vector<Var*>& decls, std::vector<u32>& save) { for (size_t i = 0; i < decls.size(); i++) if (!decls[i]->stat) { mem.erase(decls[i]->addr); decls[i]->addr = save[i]; } }
    void endFull() { if (depth <= 1) log.clear(); }
    void full(Expr* e) { rval(e); endFull(); }
    Flow runList(std::vector<Stmt*>& b)
    {
        for (size_t i = 0; i < b.size(); i++) {
            Flow f = run(b[i]);
            if (f == FL_GOTO) { bool found = false; for (size_t j = i + 1; j < b.size(); j++) if (b[j]->k == S_LABEL && b[j]->label == gotoLabel) { i = j; found = true; break; } if (found) continue; return f; }
            if (f != FL_NONE) return f;
        }
        return FL_NONE;
    }
    Flow run(Stmt* s)
    {
        tick();
        switch (s->k) {
        case S_NOP: case S_LABEL: return FL_NONE;
        case S_EXPR: full(s->e); return FL_NONE;
        case S_OUT: { Val v = rval(s->e); logA(1, 1, true, s->e); endFull(); u32 w; if (v.t->isFlt()) { float f = (float)v.f; memcpy(&w, &f, 4); } else w = (u32)v.i; outText += strf("%d:%08x\n", s->n, w); if (outText.size() > 20000) throw Budget(); return FL_NONE; }
        case S_IF: { bool c = truth(rval(s->e)); endFull(); return c ? runList(s->body) : runList(s->els); }
        case S_BLOCK: { std::vector<u32> sv; enter(s->decls, sv); Flow f = runList(s->body); leave(s->decls, sv); return f; }
        case S_FOR: case S_WHILE: case S_DO: {
            u32 sv0 = s->v->addr; s->v->addr = alloc(4); setInt(s->v, 0); bool down = s->e->i & 1; Flow res = FL_NONE; i64 i = down ? s->n : 0;
            // for: the body sees i; while: i has been stepped before the body; do: before the body as well
            while (true) {
                if (s->k == S_FOR) { setInt(s->v, s->form ? s->start : i); if (down ? i <= 0 : i >= s->n) break; if (!cond2(s)) break; }
                else if (s->k == S_WHILE) { bool end = down ? i-- <= 0 : i++ >= s->n; if (end || !cond2(s)) { setInt(s->v, i); break; } setInt(s->v, i); }
                else { down ? i-- : i++; setInt(s->v, i); }
                std::vector<u32> sv; enter(s->decls, sv); Flow f = runList(s->body); leave(s->decls, sv);
                if (f == FL_BREAK) break; if (f == FL_RET || f == FL_GOTO) { res = f; break; }
                if (s->k == S_FOR) down ? i-- : i++;
                if (s->k == S_DO && ((down ? i <= 0 : i >= s->n) || !cond2(s))) break;
                tick();
            }
            s->v->addr = sv0; return res;
        }
        case S_SWITCH: {
            Val v = rval(s->e); endFull(); v = convert(v, promote(v.t), s->e); int at_ = -1, df = -1;
            for (size_t i = 0; i < s->cases.size(); i++) { if (s->cases[i].dflt) df = (int)i; for (i64 x : s->cases[i].vals) if (conv(x, v.t) == v.i) at_ = (int)i; }
            if (at_ < 0) at_ = df; if (at_ < 0) return FL_NONE;
            for (size_t i = (size_t)at_; i < s->cases.size(); i++) { Flow f = runList(s->cases[i].body); if (f == FL_BREAK) return FL_NONE; if (f != FL_NONE) return f; if (!s->cases[i].fall) return FL_NONE; }
            return FL_NONE;
        }
        case S_RETURN: if (s->e) { Val v = rval(s->e); retVal = convert(v, curFn->ret, s->e); endFull(); } return FL_RET;
        case S_BREAK: return FL_BREAK; case S_CONT: return FL_CONT;
        case S_GOTO: gotoLabel = s->label; return FL_GOTO;
        }
        return FL_NONE;
    }
    bool cond2(Stmt* s) { if (!s->e2) return true; bool c = truth(rval(s->e2)); endFull(); return c; }
    void setInt(Var* v, i64 i) { Val x; x.t = v->t; x.i = conv(i, v->t); size_t k = log.size(); store(v->addr, v->t, nullptr, x, nullptr); log.resize(k); }
    void collectStatics(std::vector<Stmt*>& b, std::vector<Var*>& out) { for (Stmt* s : b) { for (Var* v : s->decls) if (v->stat) out.push_back(v); collectStatics(s->body, out); collectStatics(s->els, out); for (auto& c : s->cases) collectStatics(c.body, out); } }
    void evaluate()
    {
        mem.clear(); nextAddr = 0x1000; log.clear(); depth = 0; outText.clear(); fnAt.clear(); strAt.clear(); margStack.clear(); steps = 0; curFn = nullptr; retVal = Val();
        for (Fn* f : fns) { f->addr = alloc(4); fnAt[f->addr] = f; }
        std::vector<Var*> st = globals; for (Var* v : tableVars) st.push_back(v); for (Fn* f : fns) collectStatics(f->body, st);
        for (Var* v : st) v->addr = alloc((u32)v->t->size);
        for (size_t i = 0; i < tableVars.size(); i++) for (size_t k = 0; k < tables[i].size(); k++) { u32 a = tables[i][k]->addr; memcpy(at(tableVars[i]->addr + 4 * (u32)k, 4, nullptr), &a, 4); }
        for (Var* v : st) if (v->init) { initMem(v->addr, v->t, v->init); log.clear(); }
        std::vector<Val> av(1); av[0].t = T.b[INT]; Val r = call(mainFn, av, nullptr);
        expected = outText + "end\n"; status = (int)(r.i & 255);
    }
    void replaceByConst(Expr* e)
    {
        Ty* t = e->t = vt(e); Expr* keepA = e->a; int k = e->k; repairs++; e->repaired = true;
        if (t->isFlt()) { e->k = E_FLT; e->f = 1.5; return; }
        if (t->isInt()) { if (k == E_CAST && keepA && keepA->k == E_INT) {} e->k = E_INT; e->i = 1; e->s.clear(); e->spell = 0; return; }
        throw Budget();
    }
    bool settle(u64 maxSteps = 150000)
    {
        for (int round = 0; round < 400; round++) {
            budget = maxSteps;
            try { evaluate(); ok = true; return true; }
            catch (Bad& b) {
                whyCount[b.why]++; Expr* e = b.e; if (!e) { failWhy = b.why; return false; }
                if (!e->t || !e->t->arith() || e->repaired) { // take away the statement's effect instead
                    Stmt* s = owner(e); if (!s) { failWhy = b.why; return false; }
                    if (s->k == S_EXPR) { s->k = S_NOP; s->e = nullptr; repairs++; continue; }
                    if (s->e) { s->e = s->k == S_RETURN && curFn && 0 ? s->e : cint(1); repairs++; continue; }
                    failWhy = b.why; return false;
                }
                if (isLvalueUse(e)) { Stmt* s = owner(e); if (s && s->k == S_EXPR) { s->k = S_NOP; s->e = nullptr; repairs++; continue; } failWhy = b.why; return false; }
                try { replaceByConst(e); } catch (Budget&) { failWhy = "cannot repair"; return false; }
            }
            catch (Budget&) {
                // too long: fewer iterations everywhere
                bool any = false; for (Stmt* s : stmts) if ((s->k == S_FOR || s->k == S_WHILE || s->k == S_DO) && s->n > 1) { s->n = 1; any = true; }
                if (!any) { failWhy = "too long"; return false; }
            }
        }
        failWhy = "does not settle"; return false;
    }
    bool has(Expr* r, Expr* e) { if (!r) return false; if (r == e) return true; if (has(r->a, e) || has(r->b, e) || has(r->c, e)) return true; for (Expr* x : r->args) if (has(x, e)) return true; return false; }
    Stmt* owner(Expr* e) { for (Stmt* s : stmts) if (has(s->e, e) || has(s->e2, e) || has(s->e3, e)) return s; return nullptr; }
    bool isLvalueUse(Expr* e) { for (Expr* x : exprs) if (!x->repaired && (x->k == E_ASG || x->k == E_INC || x->k == E_ADDR) && x->a == e) return true; return false; }

    // ------------------------------------------------------------ source text
    std::map<Ty*, std::string> td; // typedef names known so far
    std::string decl(Ty* t, std::string n)
    {
        while (true) {
            if (!td.empty()) { auto it = td.find(t); if (it != td.end() && S.choose(2)) return n.empty() ? it->second : it->second + " " + n; }
            if (t->k == PTR) { if (t->e->k == FUNC || t->e->k == ARR) n = "(*" + n + ")"; else n = "*" + n; t = t->e; }
            else if (t->k == ARR) { n += "[" + (S.chance(1, 6) ? constForm(t->n) : strf("%d", t->n)) + "]"; t = t->e; }
            else if (t->k == FUNC) { n += "("; for (size_t i = 0; i < t->par.size(); i++) n += (i ? ", " : "") + decl(t->par[i], ""); if (t->par.empty()) n += "void"; n += ")"; t = t->e; }
            else break;
        }
        std::string b = t->k == STRUCT ? (t->isUnion ? "union " : "struct ") + t->name : t->name;
        return n.empty() ? b : b + " " + n;
    }
    std::string cstr(const std::string& s)
    {
        std::string o = "\""; bool hex = false; u32 style = S.choose(3);
        for (size_t i = 0; i < s.size(); i++) {
            unsigned char c = (unsigned char)s[i]; int nx = i + 1 < s.size() ? (unsigned char)s[i + 1] : -1; if (i && style == 1 && S.chance(1, 12)) { o += S.choose(2) ? "\" \"" : "\"\n\t\""; hex = false; }
            if (hex && isxdigit(c)) o += "\" \""; hex = false;
            auto num = [&] { if (style == 2 && S.choose(2)) { o += strf(S.choose(2) ? "\\x%x" : "\\x%02X", c); hex = true; } else o += strf(nx >= '0' && nx <= '7' ? "\\%03o" : S.choose(2) ? "\\%o" : "\\%03o", c); };
            if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '?') o += S.choose(2) ? "\\?" : o.back() == '?' ? "\\?" : "?"; else if (c >= 7 && c <= 13 && S.choose(3)) { o += '\\'; o += "abtnvfr"[c - 7]; } else if (c < 32 || c > 126 || (style == 2 && S.chance(1, 10))) num(); else o += (char)c;
        }
        return o + "\"";
    }
    static std::string intLit(i64 v, Ty* t, int spell)
    {
        std::string suf = t->k == UINT ? "u" : t->k == LONG ? "L" : t->k == ULONG ? "UL" : "";
        if (!t->uns()) { if (v == -2147483648ll) return "(-2147483647" + suf + " - 1)"; if (v < 0) return strf("(-%lld%s)", (long long)-v, suf.c_str()); }
        if (t->k == INT && spell == 1 && v >= 32 && v < 127 && v != '\'' && v != '\\') return strf("'%c'", (char)v);
        if (t->k == INT && spell == 2 && v >= 0 && v < 128) return v == 10 ? "'\\n'" : v == 9 ? "'\\t'" : v == 0 ? "'\\0'" : v == 39 ? "'\\''" : strf("'\\%llo'", (unsigned long long)v);
        if (spell == 3) return strf("0x%llx%s", (unsigned long long)v, suf.c_str());
        if (spell == 2 && v > 0) return strf("0%llo%s", (unsigned long long)v, suf.c_str());
        if (t->k == UINT && v > 0x7fffffffll) return strf("%lluU", (unsigned long long)v);
        return strf("%lld%s", (long long)v, suf.c_str());
    }
    std::string constForm(i64 v, bool cpp = false)
    { // an integer constant expression with the value v
        std::string l = intLit(v, T.b[INT], (int)S.choose(4)); if (v < -1000000 || v > 1000000) return l;
        switch (S.choose(12)) {
        case 0: { int k = (int)S.range(-50, 50); return intLit(v - k, T.b[INT], 0) + (k < 0 ? " - " : " + ") + intLit(k < 0 ? -k : k, T.b[INT], (int)S.choose(4)); }
        case 1: return "~~" + l;
        case 2: return S.choose(2) ? "2 > 1 ? " + l + " : 7" : "(0 ? 9 : " + l + ")";
        case 3: { int k = 1 + (int)S.choose(9); return strf("%lld * %d + %s", (long long)(v / k), k, intLit(v % k, T.b[INT], 0).c_str()); }
        case 4: return "(int)" + l;
        case 5: return "- - " + l;
        case 6: { int k = (int)S.choose(6); return "(" + strf("%lld", (long long)((i64)((u64)(v < 0 ? -v : v) << k))) + strf(" >> %d)", k) + (v < 0 ? " * -1" : ""); }
        case 7: return "(" + l + strf(" ^ %u) ^ %u", 77u, 77u);
        case 8: return cpp || v < 0 ? l : strf("(int)sizeof(int) * %lld + %lld", (long long)(v / 4), (long long)(v % 4));
        default: return l;
        }
    }
    // rcc does not promote an unsigned bit-field narrower than int to int (a deviation with a demonstration of its own), so its values are converted
    enum { P_COMMA = 1, P_ASG, P_COND, P_LOR, P_LAND, P_OR, P_XOR, P_AND, P_EQ, P_REL, P_SHIFT, P_ADD, P_MUL, P_UN, P_POST, P_PRIM };
    int parens = 0; // 0 all, 1 only those needed, 2 some more
    std::string wrap(const std::string& t, int prec, int need) { return prec < need || (parens == 2 ? S.chance(1, 4) : parens == 0 && prec < P_POST) ? "(" + t + ")" : t; }
    std::string ex(Expr* e, std::vector<std::string>* margs = nullptr, int need = P_COMMA)
    {
        if (vt(e) != e->t) return wrap("(int)" + exl(e, margs, P_UN), P_UN, need);
        return exl(e, margs, need);
    }
    std::string exl(Expr* e, std::vector<std::string>* margs, int need) { int p = P_PRIM; std::string t = ex0(e, margs, p); return wrap(t, p, need); }
    std::string ex0(Expr* e, std::vector<std::string>* margs, int& p)
    {
        static const int bp[NBO] = { P_ADD, P_ADD, P_MUL, P_MUL, P_MUL, P_SHIFT, P_SHIFT, P_AND, P_OR, P_XOR, P_REL, P_REL, P_REL, P_REL, P_EQ, P_EQ, P_LAND, P_LOR };
        auto P = [&](Expr* x, int need) { return ex(x, margs, need); };
        auto PL = [&](Expr* x) { return exl(x, margs, P_UN); };
        switch (e->k) {
        case E_INT: return !e->s.empty() ? e->s : intLit(e->i, e->t, e->spell);
        case E_FLT: { double d = std::fabs(e->f); std::string s = e->spell == 1 ? strf("%.6e", d) : strf("%.6f", d); if (e->t->k == FLOAT) s += e->spell == 2 ? "F" : "f"; return e->f < 0 ? "(-" + s + ")" : s; }
        case E_STR: return cstr(e->s);
        case E_VAR: return e->v->name;
        case E_FN: return e->fn->name;
        case E_UN: p = P_UN; return std::string() + (char)e->op + " " + P(e->a, P_UN);
        case E_BIN: { p = bp[e->op]; bool as = false; std::string l = P(e->a, p), r = P(e->b, p + 1); (void)as; return l + " " + boName[e->op] + " " + r; }
        case E_ASG: p = P_ASG; { std::string l = PL(e->a); return l + " " + (e->op >= 0 ? boName[e->op] : "") + "= " + P(e->b, P_ASG); }
        case E_INC: if (e->op & 2) { p = P_POST; return exl(e->a, margs, P_POST) + (e->op & 1 ? "--" : "++"); } p = P_UN; return std::string(e->op & 1 ? "-- " : "++ ") + PL(e->a);
        case E_COND: { p = P_COND; std::string c = P(e->a, P_LOR), x = P(e->b, P_COMMA), y = P(e->c, P_COND); return c + " ? " + x + " : " + y; }
        case E_COMMA: { p = P_COMMA; std::string x = P(e->a, P_COMMA); return x + " , " + P(e->b, P_ASG); }
        case E_CAST: p = P_UN; { std::string ty = decl(e->t, ""); return "(" + ty + ")" + P(e->a, P_UN); }
        case E_INDEX: { p = P_POST; bool star = e->op & 1, swapped = e->op & 2; std::string x, y; if (star) { x = P(e->a, P_ADD); y = P(e->b, P_MUL); p = P_UN; return swapped ? "*(" + y + " + " + P(e->a, P_MUL) + ")" : "*(" + x + " + " + y + ")"; } if (swapped) { x = P(e->b, P_POST); return x + "[" + P(e->a, P_COMMA) + "]"; } x = P(e->a, P_POST); return x + "[" + P(e->b, P_COMMA) + "]"; }
        case E_MEMBER: p = P_POST; return P(e->a, P_POST) + "." + e->mem->name;
        case E_ARROW: p = P_POST; return P(e->a, P_POST) + "->" + e->mem->name;
        case E_DEREF: p = P_UN; return "* " + P(e->a, P_UN);
        case E_ADDR: p = P_UN; return "& " + P(e->a, P_UN);
        case E_SIZEOF: p = P_UN; if (e->a) return "sizeof " + (e->a->k == E_CAST ? "(" + P(e->a, P_COMMA) + ")" : exl(e->a, margs, P_UN)); return "sizeof(" + decl(e->ty2, "") + ")";
        case E_MARG: return margs ? (*margs)[e->i] : strf("(a%d)", (int)e->i);
        case E_MACRO: { std::string s = e->mac->name + "("; for (size_t i = 0; i < e->args.size(); i++) { if (i) s += ", "; s += P(e->args[i], P_ASG); } return s + ")"; }
        case E_CALL: { p = P_POST; std::string s = e->a ? (e->op == 1 ? P(e->a, P_POST) : "(*" + P(e->a, P_UN) + ")") : e->fn->name; s += "("; for (size_t i = 0; i < e->args.size(); i++) { if (i) s += ", "; s += P(e->args[i], P_ASG); } return s + ")"; }
        default: return "0";
        }
    }
    std::string initStr(Init* in, bool top = true)
    {
        if (in->isStr) { std::string t = cstr(in->s); return S.chance(1, 8) ? "{ " + t + " }" : t; }
        if (in->list) { std::string s; for (size_t i = 0; i < in->sub.size(); i++) s += (i ? ", " : "") + initStr(in->sub[i], false); if (!top && in->full && elide && s[0] != '{') return s; return "{ " + s + (S.chance(1, 8) ? ", }" : " }"); }
        std::string t = in->e ? ex(in->e, nullptr, P_ASG) : "0"; return top && S.chance(1, 12) ? "{ " + t + " }" : t;
    }
    bool elide = false;
    std::string varDecl(Var* v, bool ext)
    {
        std::string s; if (ext) s += "extern "; else if (v->stat || v->fstat) s += "static "; else if (v->isReg) s += "register ";
        if (v->isConst && v->t->k != ARR) s += "const "; if (v->isVolatile) s += "volatile ";
        s += decl(v->t, v->name); if (!ext && v->init) s += " = " + initStr(v->init);
        return s + ";";
    }
    void decls(std::vector<Var*>& dl, int d, std::string& o)
    {
        for (size_t i = 0; i < dl.size(); i++) {
            if (S.chance(1, 12)) { std::vector<Var*> c; for (Var* g : globals) if (!g->fstat && !g->stat && !shadowed.count(g->name)) c.push_back(g); if (!c.empty()) { Var* g = S.pick(c); if (!externHere.count(g)) { o += ind(d) + varDecl(g, true) + "\n"; externHere.insert(g); } } }
            std::string t = varDecl(dl[i], false), a = prefix(dl[i], t);
            while (i + 1 < dl.size() && !a.empty() && S.choose(2)) { std::string u = varDecl(dl[i + 1], false), b = prefix(dl[i + 1], u); if (a != b) break; t.pop_back(); t += (S.choose(2) ? ", " : ",\n" + ind(d + 1)) + u.substr(b.size()); i++; }
            o += ind(d) + t + "\n";
        }
        externHere.clear();
    }
    std::set<Var*> externHere; std::set<std::string> shadowed;
    std::string prefix(Var* v, const std::string& t) { size_t at = t.find(v->name); if (at == std::string::npos) return ""; while (at > 0 && (t[at - 1] == '*' || t[at - 1] == '(')) at--; return t.substr(0, at); }
    std::string ind(int n) { return std::string((size_t)n, '\t'); }
    void emitStmts(std::vector<Stmt*>& b, int d, std::string& o) { for (Stmt* s : b) emitStmt(s, d, o); }
    void emitStmt(Stmt* s, int d, std::string& o)
    {
        auto body = [&](std::vector<Var*>& dl, std::vector<Stmt*>& b, int dd) { decls(dl, dd, o); emitStmts(b, dd, o); };
        switch (s->k) {
        case S_NOP: o += ind(d) + ";\n"; break;
        case S_EXPR: o += ind(d) + ex(s->e) + ";\n"; break;
        case S_OUT: o += ind(d) + (s->e->t->isFlt() ? "outf" : "out") + strf("(%d, ", s->n) + (s->e->t->isFlt() || s->e->t->uns() ? "" : "(unsigned)") + ex(s->e, nullptr, s->e->t->isFlt() || s->e->t->uns() ? P_ASG : P_UN) + ");\n"; break;
        case S_IF: o += ind(d) + "if (" + ex(s->e) + ")"; if (s->body.size() == 1 && s->body[0]->k == S_BLOCK && !s->els.empty()) {} { bool nb = bare(s->body); o += nb ? "\n" : " {\n"; emitStmts(s->body, d + 1, o); if (!nb) o += ind(d) + "}"; if (!s->els.empty()) { bool n2 = bare(s->els); if (nb) o += ind(d); else o += " "; o += n2 ? "else\n" : "else {\n"; emitStmts(s->els, d + 1, o); if (!n2) o += ind(d) + "}\n"; } else if (!nb) o += "\n"; break; }
        case S_BLOCK: o += ind(d) + "{\n"; body(s->decls, s->body, d + 1); o += ind(d) + "}\n"; break;
        case S_FOR: {
            bool down = s->e->i & 1; std::string n = s->v->name, c2 = s->e2 ? " && " + ex(s->e2, nullptr, P_OR) : ""; o += ind(d) + "{ " + decl(s->v->t, n) + ";\n" + ind(d);
            std::string init = n + strf(" = %d", s->start); if (s->form) { std::string c = "c" + n; o += (S.choose(2) ? decl(s->v->t, c) : "int " + c) + strf(" = %d;\n", down ? s->n : 0) + ind(d); if (s->form == 2) { o += init + ";\n" + ind(d); init = ""; } n = c; } else init = n + (down ? strf(" = %d", s->n) : " = 0");
            std::string head = "(" + init + "; " + n + (down ? (s->e->i & 2 ? " != 0" : " > 0") : strf(s->e->i & 2 ? " != %d" : " < %d", s->n)) + c2 + "; " + (s->e->spell & 1 ? n + (down ? "--" : "++") : n + (down ? " -= 1" : " += 1")) + ") {\n"; o += "for " + head; body(s->decls, s->body, d + 1); o += ind(d) + "} }\n"; break; }
        case S_WHILE: { bool down = s->e->i & 1; const std::string& n = s->v->name; std::string lim = strf("%d", s->n), c2 = s->e2 ? " && " + ex(s->e2, nullptr, P_OR) : ""; o += ind(d) + "{ int c" + n + " = " + (down ? lim : "0") + "; " + decl(s->v->t, n) + (s->e2 ? " = 0" : "") + ";\n" + ind(d) + "while (" + (down ? "c" + n + "-- > 0" : "c" + n + "++ < " + lim) + c2 + ") {\n"; body_while(s, d, o, n); o += ind(d) + "} }\n"; break; }
        case S_DO: { bool down = s->e->i & 1; const std::string& n = s->v->name; std::string lim = strf("%d", s->n), c2 = s->e2 ? " && " + ex(s->e2, nullptr, P_OR) : ""; o += ind(d) + "{ int c" + n + " = " + (down ? lim : "0") + "; " + decl(s->v->t, n) + ";\n" + ind(d) + "do {\n" + ind(d + 1) + n + " = " + (down ? "-- " : "++ ") + "c" + n + ";\n" + ind(d + 1) + "{\n"; body(s->decls, s->body, d + 2); o += ind(d + 1) + "}\n" + ind(d) + "} while (c" + n + (down ? " > 0" : " < " + lim) + c2 + "); }\n"; break; }
        case S_SWITCH: o += ind(d) + "switch (" + ex(s->e) + ") {\n"; for (auto& c : s->cases) { for (i64 v : c.vals) o += ind(d) + "case " + (c.vals.size() + s->cases.size() < 40 ? constForm(v) : intLit(v, T.b[INT], 0)) + ":\n"; if (c.dflt) o += ind(d) + "default:\n"; emitStmts(c.body, d + 1, o); if (!c.fall) o += ind(d + 1) + "break;\n"; else o += ind(d + 1) + ";\n"; } o += ind(d) + "}\n"; break;
        case S_RETURN: o += ind(d) + "return" + (s->e ? " " + ex(s->e) : "") + ";\n"; break;
        case S_BREAK: o += ind(d) + "break;\n"; break;
        case S_CONT: o += ind(d) + "continue;\n"; break;
        case S_GOTO: o += ind(d) + "goto " + s->label + ";\n"; break;
        case S_LABEL: o += ind(d > 0 ? d - 1 : 0) + s->label + ":;\n"; break;
        }
    }
    bool bare(std::vector<Stmt*>& b) { if (b.size() != 1) return false; SK k = b[0]->k; return (k == S_EXPR || k == S_OUT || k == S_RETURN || k == S_BREAK || k == S_CONT || k == S_GOTO || k == S_NOP || k == S_BLOCK) && S.choose(2); }
    void body_while(Stmt* s, int d, std::string& o, const std::string& n) { o += ind(d + 1) + n + " = c" + n + ";\n" + ind(d + 1) + "{\n"; decls(s->decls, d + 2, o); emitStmts(s->body, d + 2, o); o += ind(d + 1) + "}\n"; }
    std::string proto(Fn* f) { std::string s = f->name + "("; for (size_t i = 0; i < f->par.size(); i++) s += (i ? ", " : "") + decl(f->par[i]->t, f->oldStyle ? "" : f->par[i]->name); if (f->par.empty()) s += "void"; return s + ")"; }
    std::string fnHead(Fn* f, bool def)
    {
        std::string st = f->stat ? "static " : "";
        if (f->oldStyle) { if (!def) return st + decl(f->ret, f->name + "()"); std::string s = st + decl(f->ret, f->name + "("), q; // K&R definition
            std::string args; for (size_t i = 0; i < f->par.size(); i++) args += (i ? ", " : "") + f->par[i]->name; s = st + decl(f->ret, f->name + "(" + args + ")"); for (Var* p : f->par) q += " " + decl(p->t, p->name) + ";"; return s + q; }
        return st + decl(f->ret, proto(f));
    }
    // preprocessor: a macro whose value must be found by the preprocessor's own arithmetic
    std::string header()
    {
        std::string h = "#ifndef T_H\n#define T_H 1\n";
        for (auto& c : ppConsts) {
            u32 form = S.choose(7); std::string n = c.first; std::string lit = intLit(c.second, T.b[INT], (int)S.choose(4));
            switch (form) {
            case 0: h += "#define " + n + " " + lit + "\n"; break;
            case 1: { int a = S.range(-9, 9), b = S.range(1, 9); bool t = (a * 3 + b) / b > 2 && !(a == b); h += strf("#if ((%d) * 3 + %d) / %d > 2 && !(%d == %d)\n#define %s %s\n#else\n#define %s %s\n#endif\n", a, b, b, a, b, n.c_str(), t ? lit.c_str() : "999", n.c_str(), t ? "999" : lit.c_str()); break; }
            case 2: h += "#define " + n + "_a " + lit + "\n#define " + n + " " + n + "_b\n#define " + n + "_b " + n + "_a\n"; break;
            case 3: h += "#define " + n + " wrong\n#undef " + n + "\n#ifdef " + n + "\nerror here\n#endif\n#ifndef " + n + "\n#define " + n + " /* a comment */ \\\n  " + lit + " // tail\n#endif\n"; break;
            case 4: h += "#define CAT_" + n + "(x, y) x ## y\n#define " + n + "_val " + lit + "\n#define " + n + " CAT_" + n + "(" + n + ", _val)\n"; break;
            case 5: { int k = (int)S.choose(4); h += strf("#define SEL %d\n", k); for (int i = 0; i < 3; i++) h += strf("#%s SEL == %d\n#define %s %s\n", i ? "elif" : "if", i, n.c_str(), i == k ? lit.c_str() : "777"); h += strf("#else\n#define %s %s\n#endif\n#undef SEL\n", n.c_str(), k == 3 ? lit.c_str() : "778"); break; }
            case 6: { int a = S.range(0, 6), b = S.range(1, 7); bool t = ((a << 2 | b) & 5) % 3 != 1; h += strf("#define %s_x %d\n#if defined(%s_x) && ((%s_x << 2 | %d) & 5) %% 3 != 1\n# define %s %s\n#else\n# define %s %s\n#endif\n", n.c_str(), a, n.c_str(), n.c_str(), b, n.c_str(), t ? lit.c_str() : "55", n.c_str(), t ? "55" : lit.c_str()); break; }
            }
        }
        for (Macro* m : macros) { std::string a; for (int i = 0; i < m->nargs; i++) a += strf(i ? ", a%d" : "a%d", i); std::string b = "(" + ex(m->body) + ")"; h += "#define " + m->name + "(" + a + ") " + (m->form == 1 ? "\\\n\t" : "") + b + "\n"; }
        if (!enums.empty()) { h += "enum { "; i64 next = 0; for (size_t i = 0; i < enums.size(); i++) { h += (i ? ", " : "") + enums[i].first; if (i == 0 || enums[i].second != next || S.choose(3) == 0) h += " = " + constForm(enums[i].second); next = enums[i].second + 1; } h += " };\n"; }
        for (Ty* t : structs) { h += (t->isUnion ? "union " : "struct ") + t->name + " {\n"; for (auto& m : t->m) h += "\t" + decl(m.t, m.name) + (m.bits >= 0 ? " : " + constForm(m.bits) : "") + ";\n"; h += "}"; if (S.chance(1, 4)) { std::string n = fresh("TS"); h += ";\ntypedef " + decl(t, n) + ";\n"; td[t] = n; } else h += ";\n"; }
        if (S.chance(1, 2)) { std::vector<Ty*> c; for (Ty* t : T.all) if (t->k != STRUCT && t->k != VOID && t->size + (t->k == FUNC)) c.push_back(t); int n = (int)S.choose(5); for (int i = 0; i < n; i++) { Ty* t = S.pick(c); if (td.count(t)) continue; std::string nm = fresh("TD"); h += "typedef " + decl(t, nm) + ";\n"; td[t] = nm; } }
        for (Var* v : globals) if (!v->fstat) h += varDecl(v, true) + "\n";
        for (Var* v : tableVars) if (!v->fstat) h += "extern " + decl(v->t, v->name) + ";\n";
        for (Fn* f : fns) if (!f->stat) h += fnHead(f, false) + ";\n";
        h += "void trap_Printf(const char *s);\nvoid out(int tag, unsigned v);\nvoid outf(int tag, float f);\n#endif\n";
        return h;
    }
    void emit()
    {
        files.clear(); files["t.h"] = header();
        for (int i = 0; i < C.files; i++) {
            std::string o = S.choose(2) ? "#include \"t.h\"\n" : "/* file */\n#include \"t.h\"\n#include \"t.h\"\n";
            // static functions must be in the file that uses them: all of them are declared in every file that defines them
            std::vector<Fn*> here; for (Fn* f : fns) if (f->file == i) here.push_back(f);
            for (Fn* f : here) if (f->stat) o += fnHead(f, false) + ";\n";
            for (Var* v : globals) if (v->file == i && v->fstat) { Init* in = v->init; v->init = nullptr; o += varDecl(v, false) + "\n"; v->init = in; }
            for (Var* v : tableVars) if (v->file == i && v->fstat) o += "static " + decl(v->t, v->name) + ";\n";
            if (i == 0) { o += fnHead(mainFn, true) + "\n{\n"; Stmt* b = mainFn->body[0]; std::string tmp; decls(b->decls, 1, tmp); for (size_t k = 0; k + 1 < b->body.size(); k++) emitStmt(b->body[k], 1, tmp); Stmt* r = b->body.back(); tmp += ind(1) + "{ int result = " + ex(r->e, nullptr, P_ASG) + ";\n\ttrap_Printf(\"end\\n\");\n\treturn result; }\n"; o += tmp + "}\n"; }
            for (Var* v : globals) if (v->file == i) o += varDecl(v, false) + "\n";
            for (size_t k = 0; k < tableVars.size(); k++) if (tableVars[k]->file == i) { o += (tableVars[k]->fstat ? "static " : "") + decl(tableVars[k]->t, tableVars[k]->name) + " = { "; for (size_t q = 0; q < tables[k].size(); q++) o += (q ? ", " : "") + tables[k][q]->name; o += " };\n"; }
            for (Fn* f : here) if (f != mainFn) { o += fnHead(f, true) + "\n"; emitStmt(f->body[0], 0, o); }
            if (i == C.files - 1) o += "static char obuf[32];\nvoid out(int tag, unsigned v)\n{\n\tint n = 0, i; char t[12]; int k = 0;\n\tif (tag == 0) t[k++] = '0';\n\twhile (tag > 0) { t[k++] = '0' + tag % 10; tag /= 10; }\n\twhile (k > 0) obuf[n++] = t[--k];\n\tobuf[n++] = ':';\n\tfor (i = 28; i >= 0; i -= 4) obuf[n++] = \"0123456789abcdef\"[(v >> i) & 15];\n\tobuf[n++] = '\\n'; obuf[n] = 0;\n\ttrap_Printf(obuf);\n}\nvoid outf(int tag, float f) { out(tag, *(unsigned *)&f); }\n";
            files[strf("t%d.c", i)] = o;
        }
    }
    // static functions may only be called from their own file
    void fixStatics()
    {
        std::map<Fn*, std::set<int>> use; for (Fn* f : fns) walkStmts(f->body, f->file, use);
        for (Fn* f : fns) if (f->stat) { for (int u : use[f]) if (u != f->file) f->stat = false; if (use[f].empty()) f->stat = false; }
    }
    void walkE(Expr* e, int file, std::map<Fn*, std::set<int>>& u) { if (!e) return; if (e->k == E_CALL && e->fn) u[e->fn].insert(file); walkE(e->a, file, u); walkE(e->b, file, u); walkE(e->c, file, u); for (Expr* x : e->args) walkE(x, file, u); }
    void walkI(Init* i, int file, std::map<Fn*, std::set<int>>& u) { if (!i) return; walkE(i->e, file, u); for (Init* s : i->sub) walkI(s, file, u); }
    void walkStmts(std::vector<Stmt*>& b, int file, std::map<Fn*, std::set<int>>& u) { for (Stmt* s : b) { walkE(s->e, file, u); walkE(s->e2, file, u); walkE(s->e3, file, u); for (Var* v : s->decls) walkI(v->init, file, u); walkStmts(s->body, file, u); walkStmts(s->els, file, u); for (auto& c : s->cases) walkStmts(c.body, file, u); } }

    typedef std::set<Var*> VS;
    void refsE(Expr* e, VS& r) { if (!e) return; if (e->v && e->k == E_VAR) r.insert(e->v); refsE(e->a, r); refsE(e->b, r); refsE(e->c, r); for (Expr* x : e->args) refsE(x, r); }
    void refsI(Init* i, VS& r) { if (!i) return; refsE(i->e, r); for (Init* s : i->sub) refsI(s, r); }
    void refsS(std::vector<Stmt*>& b, VS& r) { for (Stmt* s : b) { refsE(s->e, r); refsE(s->e2, r); refsE(s->e3, r); if (s->v) r.insert(s->v); for (Var* v : s->decls) { r.insert(v); refsI(v->init, r); } refsS(s->body, r); refsS(s->els, r); for (auto& c : s->cases) refsS(c.body, r); } }
    void hide(std::vector<Var*>& decls, std::vector<Stmt*>& body, std::vector<Var*> outer, std::vector<Var*>& fixed)
    { // a variable declared here takes the name of one that is visible but not used here
        if (!decls.empty() && S.chance(1, 3)) {
            VS r; refsS(body, r); for (Var* v : decls) { r.insert(v); refsI(v->init, r); } std::set<std::string> used; for (Var* v : r) used.insert(v->name); for (Var* v : fixed) used.insert(v->name);
            for (Var* v : decls) { std::vector<Var*> c; for (Var* g : outer) if (!used.count(g->name)) c.push_back(g); if (c.empty() || S.choose(2)) continue; Var* g = S.pick(c); v->name = g->name; used.insert(v->name); shadowed.insert(v->name); feat["hidden-name"]++; }
        }
        outer.insert(outer.end(), decls.begin(), decls.end()); std::vector<Var*> none; for (Stmt* s : body) hideIn(s, outer);
    }
    void hideIn(Stmt* s, std::vector<Var*>& outer)
    {
        std::vector<Var*> none;
        if (s->k == S_BLOCK || s->k == S_FOR || s->k == S_WHILE || s->k == S_DO) { std::vector<Var*> o = outer; if (s->v) o.push_back(s->v); hide(s->decls, s->body, o, none); return; }
        for (Stmt* x : s->body) hideIn(x, outer); for (Stmt* x : s->els) hideIn(x, outer); for (auto& c : s->cases) for (Stmt* x : c.body) hideIn(x, outer);
    }
    void rename()
    {
        // variables of one file only may be static; (the names stay different from file to file: known finding static-names)
        std::map<Var*, std::set<int>> use; for (Fn* f : fns) { VS r; refsS(f->body, r); for (Var* v : r) if (v->global) use[v].insert(f->file); }
        for (Var* v : globals) { VS r; refsI(v->init, r); for (Var* x : r) if (x->global) use[x].insert(v->file); }
        bool st = S.choose(2);
        auto one = [&](Var* v) { for (int f : use[v]) if (f != v->file) return; if (st && S.choose(3) == 0) { v->fstat = true; feat["file-static"]++; } };
        for (Var* v : globals) one(v); for (Var* v : tableVars) one(v);
        if (S.choose(2)) for (Fn* f : fns) {
            std::vector<Var*> outer; for (Var* v : globals) outer.push_back(v); for (Var* v : tableVars) outer.push_back(v);
            std::vector<Var*> all = f->par; Stmt* b = f->body[0]; std::vector<Stmt*> body = { b };
            if (!f->par.empty()) { // parameters hide globals
                VS r; refsS(body, r); std::set<std::string> used; for (Var* v : r) used.insert(v->name); for (Var* v : f->par) used.insert(v->name);
                for (Var* v : f->par) { std::vector<Var*> c; for (Var* g : outer) if (!used.count(g->name)) c.push_back(g); if (c.empty() || S.choose(4)) continue; v->name = S.pick(c)->name; used.insert(v->name); shadowed.insert(v->name); feat["hidden-name"]++; }
            }
            hide(b->decls, b->body, outer, f->par);
        }
    }
    bool build() { generate(); if (!settle()) return false; fixStatics(); rename(); parens = (int)S.choose(3); elide = S.chance(1, 2); emit(); return true; }
};
} // namespace cg
