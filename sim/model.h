// Independent reference model: image predicate and instruction set of the Q3VM.
// Written from the specification (Q3VM Specifications.html, vm.h, README.md), not from vm.c.
#pragma once
#include "core.h"
#include <cmath>

enum : int { // instruction numbers of the specification
    UNDEF, IGNORE, BREAK, ENTER, LEAVE, CALL, PUSH, POP, CONST, LOCAL, JUMP,
    EQ, NE, LTI, LEI, GTI, GEI, LTU, LEU, GTU, GEU, EQF, NEF, LTF, LEF, GTF, GEF,
    LOAD1, LOAD2, LOAD4, STORE1, STORE2, STORE4, ARG, BLOCK_COPY,
    SEX8, SEX16, NEGI, ADD, SUB, DIVI, DIVU, MODI, MODU, MULI, MULU,
    BAND, BOR, BXOR, BCOM, LSH, RSHI, RSHU, NEGF, ADDF, SUBF, DIVF, MULF, CVIF, CVFI, NOPS
};
static const char* const opName[NOPS] = {
    "UNDEF","IGNORE","BREAK","ENTER","LEAVE","CALL","PUSH","POP","CONST","LOCAL","JUMP",
    "EQ","NE","LTI","LEI","GTI","GEI","LTU","LEU","GTU","GEU","EQF","NEF","LTF","LEF","GTF","GEF",
    "LOAD1","LOAD2","LOAD4","STORE1","STORE2","STORE4","ARG","BLOCK_COPY",
    "SEX8","SEX16","NEGI","ADD","SUB","DIVI","DIVU","MODI","MODU","MULI","MULU",
    "BAND","BOR","BXOR","BCOM","LSH","RSHI","RSHU","NEGF","ADDF","SUBF","DIVF","MULF","CVIF","CVFI" };
static inline bool opBranch(int o) { return o >= EQ && o <= GEF; }
static inline int opBytes(int o) // operand bytes
{
    if (opBranch(o) || o == ENTER || o == LEAVE || o == CONST || o == LOCAL || o == BLOCK_COPY) return 4;
    return o == ARG ? 1 : 0;
}
// error codes (vm.h)
enum { E_OK = 0, E_PTR = -1, E_LOAD = -2, E_NOSYS = -3, E_FREERUN = -4, E_BLOCK = -5, E_PC = -6, E_JUMPINS = -7,
       E_STACKOVF = -8, E_MISALIGN = -9, E_LOAD4MIS = -10, E_STACK = -11, E_RANGE = -12, E_MALLOC = -13, E_BADINS = -14,
       E_NOTLOADED = -15, E_DIV0 = -16 };

struct Header { i32 magic, icount, codeOff, codeLen, dataOff, dataLen, litLen, bssLen; };
static inline i32 le32(const u8* p) { return (i32)(p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24); }
static inline void put32(u8* p, i32 v) { u32 u = (u32)v; p[0] = u; p[1] = u >> 8; p[2] = u >> 16; p[3] = u >> 24; }
static inline Header parseHeader(const u8* p) { Header h; i32* f = &h.magic; for (int i = 0; i < 8; i++) f[i] = le32(p + 4 * i); return h; }

static inline std::string disasm(const u8* b, i64 len)
{
    std::string o; if (len < 32) return "  (no header)\n";
    Header h = parseHeader(b);
    o += strf("  magic %08x instructions %d code %d+%d data %d+%d lit %d bss %d, %lld bytes\n", h.magic, h.icount, h.codeOff, h.codeLen, h.dataOff, h.dataLen, h.litLen, h.bssLen, (long long)len);
    i64 pc = h.codeOff, end = (i64)h.codeOff + h.codeLen;
    for (i32 i = 0; i < h.icount && pc >= 0 && pc < len && pc < end; i++) {
        int op = b[pc++], k = op < NOPS ? opBytes(op) : 0;
        o += strf("  %5d %s", i, op < NOPS ? opName[op] : strf("?%d", op).c_str());
        if (k == 4 && pc + 4 <= len) o += strf(" %d", le32(b + pc)); else if (k == 1 && pc < len) o += strf(" %d", b[pc]);
        pc += k; o += "\n";
    }
    return o;
}

// The acceptance predicate. Empty set: the image is well-formed; otherwise the codes of its defects.
static inline std::set<int> imageDefects(const u8* b, i64 len)
{
    std::set<int> d;
    if (!b || len <= 32 || len > 0x400000) return { E_LOAD };
    Header h = parseHeader(b);
    i64 L = len;
    bool bad = h.magic != 0x12721444 || h.icount <= 0 || h.codeLen <= 0 || h.codeOff < 0 || h.dataOff < 0 || h.dataLen < 0 ||
               h.litLen < 0 || h.bssLen < 0 || h.bssLen > 10485760 || (i64)h.codeOff + h.codeLen > L ||
               (i64)h.dataOff + h.dataLen + h.litLen > L;
    if (bad) return { E_LOAD };
    if (h.icount > h.codeLen) d.insert(E_LOAD), d.insert(E_PC); // fewer bytes than instructions
    const u8* c = b + h.codeOff;
    i64 pc = 0;
    std::vector<i32> targets;
    for (i32 n = 0; n < h.icount; n++) {
        if (pc >= h.codeLen) { d.insert(E_PC); break; }
        int op = c[pc++];
        if (op >= NOPS) { d.insert(E_BADINS); break; }
        int k = opBytes(op);
        if (pc + k > h.codeLen) { d.insert(E_PC); break; }
        if (opBranch(op)) targets.push_back(le32(c + pc));
        pc += k;
    }
    for (i32 t : targets) if (t < 0 || t >= h.icount) d.insert(E_JUMPINS);
    return d;
}

struct ModelVM {
    bool loaded = false;
    std::vector<i32> words; std::vector<i32> iptr; i32 icount = 0;
    std::vector<u8> mem; u32 mask = 0; // mem has 4 bytes beyond mask
    i32 programStack = 0; int level = 0;
    i32 breaks = 0;
    bool taint = false; const char* taintWhy = "";
    u64 steps = 0; bool argUndef[16] = {};
    std::vector<u8> undef; int firstUndefArg = 13; mutable bool undefRead = false; // optional: a byte per byte of mem, 1 where nobody knows what is in it; set when such a byte was read
    void rd(u64 a, u64 n) const { if (undef.empty()) return; for (u64 i = 0; i < n && a + i < undef.size(); i++) if (undef[a + i]) { undefRead = true; return; } }
    void wr(u64 a, u64 n) { if (undef.empty()) return; for (u64 i = 0; i < n && a + i < undef.size(); i++) undef[a + i] = 0; }
    u64 opSeen = 0, branchTaken = 0; // coverage
    u32 maxNest = 0;
    bool dbgBad = false; // one of the additional checks of the debug build would have failed

    void load(const u8* b)
    {
        Header h = parseHeader(b);
        icount = h.icount;
        u32 need = (u32)h.dataLen + h.litLen + h.bssLen, sz = 1;
        while (sz < need) sz *= 2;
        mask = sz - 1;
        mem.assign(sz + 4, 0);
        memcpy(mem.data(), b + h.dataOff, (size_t)h.dataLen + h.litLen);
        words.clear(); iptr.clear();
        const u8* c = b + h.codeOff; size_t pc = 0;
        for (i32 n = 0; n < icount; n++) {
            iptr.push_back((i32)words.size());
            int op = c[pc++]; words.push_back(op);
            int k = opBytes(op);
            if (k == 4) words.push_back(le32(c + pc));
            else if (k == 1) words.push_back(c[pc]);
            pc += k;
        }
        for (i32 n = 0; n < icount; n++) if (opBranch(words[iptr[n]])) words[iptr[n] + 1] = iptr[words[iptr[n] + 1]];
        words.resize((size_t)h.codeLen + 2, 0);
        programStack = (i32)sz; loaded = true; taint = false; level = 0; steps = 0; breaks = 0;
    }
    i32 ld4(u32 a) const { i32 v; rd(a & mask, 4); memcpy(&v, &mem[a & mask], 4); return v; }
    void st4(u32 a, i32 v) { wr(a & mask, 4); memcpy(&mem[a & mask], &v, 4); }

    struct Env { // what the world around the guest provides
        virtual i32 syscall(ModelVM& vm, const i64* args) = 0;
        virtual void error(ModelVM& vm, int code) = 0;
        virtual bool stepLimit(ModelVM& vm) = 0; // true: give up
        virtual ~Env() {}
    };
    struct GiveUp {};

    static float asF(i32 v) { float f; memcpy(&f, &v, 4); return f; }
    i32 fres(float f) { if (f != f) { taint = true; taintWhy = "NaN"; } i32 v; memcpy(&v, &f, 4); return v; }

    i64 call(const i32* args /*13*/, Env& env)
    {
        i32 saved = programStack; level++;
        if ((u32)level > maxNest) maxNest = level;
        i64 r = run(args, env);
        level--; programStack = saved;
        return r;
    }
    i64 run(const i32* args, Env& env)
    {
        i32 st[256]; memset(st, 0, sizeof st);
        u8 sp = 0;
        st[0] = 0x0000BEEF;
        i32 ps = (i32)((u32)programStack - (8 + 4 * 13));
        for (int i = 0; i < 13; i++) { st4((u32)ps + 8 + 4 * i, args[i]); if (!undef.empty() && i >= firstUndefArg) { u32 x = ((u32)ps + 8 + 4 * i) & mask; for (int b = 0; b < 4; b++) undef[x + b] = 1; } }
        st4((u32)ps + 4, 0);
        st4((u32)ps, -1);
        i32 pc = 0;
        for (;;) {
            steps++;
            if ((steps & 255) == 0 && env.stepLimit(*this)) throw GiveUp();
            i32 op = words[pc++];
            if (ps <= (i32)(mask + 1 - 0x10000) || (ps & 3) || (op == LOAD4 && (st[sp] & 3))) dbgBad = true;
            i32 r0 = st[sp], r1 = st[(u8)(sp - 1)];
            opSeen |= 1ull << op;
            u32 u0 = (u32)r0, u1 = (u32)r1;
            switch (op) {
            default: case UNDEF: env.error(*this, E_BADINS); return -1;
            case IGNORE: break;
            case BREAK: breaks++; break;
            case CONST: st[++sp] = words[pc++]; break;
            case LOCAL: st[++sp] = (i32)((u32)words[pc++] + (u32)ps); break;
            case LOAD4: st[sp] = ld4(u0); break;
            case LOAD2: { u16 v; rd(u0 & mask, 2); memcpy(&v, &mem[u0 & mask], 2); st[sp] = v; break; }
            case LOAD1: rd(u0 & mask, 1); st[sp] = mem[u0 & mask]; break;
            case STORE4: st4(u1, r0); sp -= 2; break;
            case STORE2: { u16 v = (u16)u0; wr(u1 & mask, 2); memcpy(&mem[u1 & mask], &v, 2); sp -= 2; break; }
            case STORE1: wr(u1 & mask, 1); mem[u1 & mask] = (u8)u0; sp -= 2; break;
            case ARG: st4((u32)words[pc++] + (u32)ps, r0); sp--; break;
            case BLOCK_COPY: {
                i64 n = words[pc++], d = u1, s = u0; // unsigned addresses, signed length
                if (n < 0 || d > mask || s > mask || d + n > mask || s + n > mask) env.error(*this, E_BLOCK);
                else {
                    if (d != s && d < s + n && s < d + n && n) { taint = true; taintWhy = "overlapping block copy"; }
                    rd((u64)s, (u64)n); wr((u64)d, (u64)n); memmove(&mem[d], &mem[s], (size_t)n);
                }
                sp -= 2; break; }
            case CALL:
                st4((u32)ps, pc);
                sp--;
                if (r0 < 0) {
                    programStack = ps - 4;
                    st4((u32)ps + 4, -1 - r0);
                    i64 a[16];
                    bool before = undefRead; for (int i = 0; i < 16; i++) { undefRead = false; a[i] = ld4((u32)ps + 4 + 4 * i); argUndef[i] = undefRead; } undefRead = before;
                    i32 r = env.syscall(*this, a);
                    st[++sp] = r;
                } else if (r0 >= icount) { env.error(*this, E_PC); return -1; }
                else pc = iptr[r0];
                break;
            case PUSH: sp++; break;
            case POP: sp--; break;
            case ENTER: ps = (i32)((u32)ps - (u32)words[pc++]); break;
            case LEAVE: {
                ps = (i32)((u32)ps + (u32)words[pc]);
                i32 ret = ld4((u32)ps);
                if (ret == -1) {
                    if (sp != 1 || st[0] != 0x0000BEEF) env.error(*this, E_STACK);
                    return st[sp];
                }
                if (ret < 1 || (size_t)ret >= words.size() || words[ret - 1] != CALL) { env.error(*this, E_PC); return -1; }
                pc = ret; break; }
            case JUMP: if (r0 < 0 || r0 >= icount) { env.error(*this, E_PC); return -1; } pc = iptr[r0]; sp--; break;
#define BR(o, c) case o: sp -= 2; if (c) { pc = words[pc]; branchTaken |= 1ull << (o - EQ); } else pc++; break;
            BR(EQ, r1 == r0) BR(NE, r1 != r0) BR(LTI, r1 < r0) BR(LEI, r1 <= r0) BR(GTI, r1 > r0) BR(GEI, r1 >= r0)
            BR(LTU, u1 < u0) BR(LEU, u1 <= u0) BR(GTU, u1 > u0) BR(GEU, u1 >= u0)
            BR(EQF, asF(r1) == asF(r0)) BR(NEF, asF(r1) != asF(r0)) BR(LTF, asF(r1) < asF(r0)) BR(LEF, asF(r1) <= asF(r0))
            BR(GTF, asF(r1) > asF(r0)) BR(GEF, asF(r1) >= asF(r0))
#undef BR
            case NEGI: st[sp] = (i32)(0u - u0); break;
#define BIN(o, e) case o: sp--; st[sp] = (i32)(e); break;
            BIN(ADD, u1 + u0) BIN(SUB, u1 - u0) BIN(MULI, u1 * u0) BIN(MULU, u1 * u0)
            BIN(BAND, u1 & u0) BIN(BOR, u1 | u0) BIN(BXOR, u1 ^ u0)
            case DIVI: case MODI: case DIVU: case MODU:
                if (r0 == 0) { env.error(*this, E_DIV0); return -1; }
                sp--;
                if (op == DIVU) st[sp] = (i32)(u1 / u0);
                else if (op == MODU) st[sp] = (i32)(u1 % u0);
                else { i64 a = r1, b = r0; st[sp] = (i32)(op == DIVI ? a / b : a % b); }
                break;
            case BCOM: st[sp] = ~r0; break;
            case LSH: case RSHI: case RSHU: {
                u32 k = u0 & 31; if (u0 > 31) { taint = true; taintWhy = "shift count"; }
                sp--;
                st[sp] = op == LSH ? (i32)(u1 << k) : op == RSHU ? (i32)(u1 >> k) : (i32)(((i64)r1) >> k);
                break; }
            case NEGF: st[sp] = fres(-asF(r0)); break;
            case ADDF: sp--; st[sp] = fres(asF(r1) + asF(r0)); break;
            case SUBF: sp--; st[sp] = fres(asF(r1) - asF(r0)); break;
            case MULF: sp--; st[sp] = fres(asF(r1) * asF(r0)); break;
            case DIVF: sp--; st[sp] = fres(asF(r1) / asF(r0)); break;
            case CVIF: st[sp] = fres((float)r0); break;
            case CVFI: {
                float f = asF(r0);
                if (!(f > -2147483904.0f && f < 2147483648.0f)) { taint = true; taintWhy = "float to int out of range"; st[sp] = 0; }
                else st[sp] = (i32)f;
                break; }
            case SEX8: st[sp] = (i8)u0; break;
            case SEX16: st[sp] = (int16_t)u0; break;
            }
        }
    }
    typedef signed char i8;
};
