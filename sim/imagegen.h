// Workload: bytecode images drawn from a choice stream.
#pragma once
#include "model.h"

struct Ins { int op; i32 arg; bool label; };
struct Image {
    std::vector<u8> bytes; i64 length = 0;   // length passed to VM_Create (<= bytes.size())
    std::string note; bool sane = false;
    std::vector<int> funcs;                   // instruction index of functions (sane images)
    std::set<int> defects; bool defectsKnown = false;
    const std::set<int>& bad() { if (!defectsKnown) { defects = length < 0 ? std::set<int>{ E_LOAD } : imageDefects(bytes.data(), length); defectsKnown = true; } return defects; }
};

struct GenCfg {
    bool cleanLocals = false;  // initialise everything before use, no frame-linkage reads, aligned (debug build safe)
    bool noErrors = false;     // avoid guest errors
    int  wildPct = 30;         // how often images are unstructured
    int  mutatePct = 0;        // how often an image is damaged afterwards
    bool bigBss = false;
};

static inline i32 genInt(Stream& s)
{
    switch (s.choose(8)) {
    case 0: return s.range(-4, 16);
    case 1: return s.range(-300, 300);
    case 2: { static const i32 t[] = { 0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, INT32_MAX, INT32_MIN, INT32_MIN + 1, 0x55555555, (i32)0xAAAAAAAA, 0x01020304, (i32)0x80FF7F01, 0xBEEF, 5 }; return t[s.choose(sizeof t / sizeof *t)]; }
    case 3: return (i32)(1u << s.choose(32));
    case 4: return (i32)((1u << s.choose(32)) - 1);
    case 5: return (i32)s.raw();
    case 6: return (i32)(0u - (1u << s.choose(32)));
    default: return s.range(0, 4);
    }
}
static inline i32 genFloatBits(Stream& s)
{
    static const float t[] = { 0.f, 1.f, -1.f, 0.5f, -2.5f, 3.14159f, 1e6f, -1e-6f, 123456.78f, 16777216.f, 1e-30f, 1e30f, -0.f, 2147483520.f, -2147483648.f, 255.75f };
    float f;
    if (s.choose(3)) f = t[s.choose(16)];
    else f = (float)s.range(-100000, 100000) / (float)s.range(1, 1000);
    i32 v; memcpy(&v, &f, 4); return v;
}

struct ImgBuilder {
    Stream& s; const GenCfg& cfg;
    std::vector<Ins> code; std::vector<i32> labels; // label -> instruction index
    std::vector<u8> data; std::vector<u8> lit; i32 bss = 0; i32 globalsLo = 8, globalsHi = 0;
    std::vector<int> flabel; std::vector<int> fparams;
    std::vector<std::pair<int,int>> jumpTables; // data word offset, label
    i32 fuelAddr = 4;
    int nlocals = 0, nparams = 0, frame = 0; int budget = 0;
    ImgBuilder(Stream& st, const GenCfg& c) : s(st), cfg(c) {}

    void E(int op, i32 a = 0) { code.push_back({ op, a, false }); }
    void EL(int op, int label) { code.push_back({ op, label, true }); }
    int newLabel() { labels.push_back(-1); return (int)labels.size() - 1; }
    void place(int l) { labels[l] = (i32)code.size(); }
    i32 localOff(int i) { return 8 + 4 * 13 + 4 * i; }
    i32 paramOff(int i) { return frame + 8 + 4 * i; }
    i32 globalAddr(int align) { i32 n = (globalsHi - globalsLo - 4) / align; if (n < 1) n = 1; return ((globalsLo + align - 1) / align + (i32)s.choose((u32)n)) * align; }

    void loadVar()
    {
        switch (s.choose(4)) {
        case 0: if (nlocals) { E(LOCAL, localOff((int)s.choose(nlocals))); E(LOAD4); return; } // fall through
        case 1: if (nparams) { E(LOCAL, paramOff((int)s.choose(nparams))); E(LOAD4); return; } // fall through
        case 2: E(CONST, globalAddr(4)); E(LOAD4); return;
        default: {
            int w = (int)s.choose(3);
            E(CONST, globalAddr(w == 2 ? 4 : w == 1 ? 2 : 1));
            E(w == 2 ? LOAD4 : w == 1 ? LOAD2 : LOAD1);
            if (s.choose(2) && w < 2) E(w ? SEX16 : SEX8);
        }
        }
    }
    void callArgs(int n, int depth) { for (int i = 0; i < n; i++) { expr(depth - 1); E(ARG, 8 + 4 * i); } }
    void sysCall(int depth)
    {
        int n = (int)s.choose(6);
        if (s.choose(12) == 0) n = 12;
        callArgs(n, depth);
        if (s.choose(4) == 0 && n) { E(LOCAL, nlocals ? localOff(0) : 8); E(ARG, 8); }
        int id = -1 - (int)s.choose(9);
        if (s.choose(20) == 0) id = s.choose(2) ? INT32_MIN : -1000000;
        // in clean mode the number of argument words is part of the call number
        if (cfg.cleanLocals) id = -1 - (int)(s.choose(9) * 16 + n);
        E(CONST, id); E(CALL);
    }
    void expr(int depth)
    {
        if (budget-- <= 0) depth = 0;
        if (depth <= 0) {
            if (s.choose(2)) E(CONST, genInt(s)); else loadVar();
            return;
        }
        switch (s.choose(16)) {
        case 0: E(CONST, genInt(s)); return;
        case 1: loadVar(); return;
        case 2: case 3: case 4: { // integer binary
            static const int ops[] = { ADD, SUB, MULI, MULU, BAND, BOR, BXOR };
            int o = ops[s.choose(7)];
            expr(depth - 1); expr(depth - 1); E(o); return; }
        case 5: { // shift
            static const int ops[] = { LSH, RSHI, RSHU };
            int o = ops[s.choose(3)];
            expr(depth - 1);
            if (s.choose(2)) E(CONST, (i32)s.choose(32)); else { expr(depth - 1); E(CONST, 31); E(BAND); }
            E(o); return; }
        case 6: { // division
            static const int ops[] = { DIVI, DIVU, MODI, MODU };
            int o = ops[s.choose(4)];
            expr(depth - 1); expr(depth - 1);
            if (cfg.noErrors || s.choose(16)) { E(CONST, 1); E(BOR); }
            E(o); return; }
        case 7: { static const int ops[] = { NEGI, BCOM, SEX8, SEX16 }; int o = ops[s.choose(4)]; expr(depth - 1); E(o); return; }
        case 8: fexpr(depth - 1); E(CVFI_guard()); return;
        case 9: { // comparison as value
            expr(depth - 1); expr(depth - 1);
            int l1 = newLabel(), l2 = newLabel();
            EL(EQ + (int)s.choose(10), l1);
            E(CONST, 0); EL(CONST, l2); E(JUMP);
            place(l1); E(CONST, genInt(s)); place(l2);
            return; }
        case 10: case 11: sysCall(depth); return;
        case 12: if (!flabel.empty()) { int f = (int)s.choose((u32)flabel.size()); callArgs(fparams[f], depth); EL(CONST, flabel[f]); E(CALL); return; } // fall through
        case 13: E(CONST, globalAddr(1)); expr(depth - 1); E(CONST, (1 << s.choose(4)) - 1); E(BAND); E(ADD);
                 if (cfg.cleanLocals) { E(LOAD1); } else E(s.choose(2) ? LOAD1 : s.choose(2) ? LOAD2 : LOAD4); return;
        case 14: { // float comparison
            fexpr(depth - 1); fexpr(depth - 1);
            int l1 = newLabel(), l2 = newLabel();
            EL(EQF + (int)s.choose(6), l1);
            E(CONST, 3); EL(CONST, l2); E(JUMP);
            place(l1); E(CONST, 4); place(l2);
            return; }
        default: if (s.choose(2) && !cfg.cleanLocals) { E(CONST, 1); E(PUSH); E(POP); E(POP); } expr(depth - 1); return;
        }
    }
    int CVFI_guard() { return CVFI; }
    void fleaf() { if (s.choose(3)) E(CONST, genFloatBits(s)); else { expr(0); E(CONST, 0xffff); E(BAND); E(CVIF); } }
    void fexpr(int depth)
    {
        if (depth <= 0 || s.choose(3) == 0) { fleaf(); return; }
        static const int ops[] = { ADDF, SUBF, MULF, DIVF, NEGF };
        int o = ops[s.choose(5)];
        fexpr(depth - 1);
        if (o != NEGF) fexpr(depth - 1);
        E(o);
    }
    void stmt(int depth)
    {
        if (budget-- <= 0) return;
        switch (s.choose(12)) {
        case 0: case 1: if (nlocals) { E(LOCAL, localOff((int)s.choose(nlocals))); expr(depth); E(STORE4); return; } // fall through
        case 2: { int w = (int)s.choose(3); E(CONST, globalAddr(w == 2 ? 4 : w == 1 ? 2 : 1)); expr(depth); E(w == 2 ? STORE4 : w == 1 ? STORE2 : STORE1); return; }
        case 3: { // indexed store, unaligned in general
            E(CONST, globalAddr(1)); expr(1); E(CONST, 15); E(BAND); E(ADD); expr(depth); E(cfg.cleanLocals ? STORE1 : STORE1 - (int)0 + (int)s.choose(3)); return; }
        case 4: { // block copy
            i32 n = (i32)s.choose(5) * 4;
            i32 a = globalAddr(4), b = globalAddr(4);
            E(CONST, a); E(CONST, b); 
            if (!cfg.noErrors && s.choose(10) == 0) n = cfg.cleanLocals ? (s.choose(2) ? -1 - (i32)s.choose(1000) : INT32_MAX - (i32)s.choose(5)) : genInt(s);
            E(BLOCK_COPY, n); return; }
        case 5: case 6: { // if / else
            static const int nint = 10;
            int l1 = newLabel(), l2 = newLabel();
            expr(depth - 1); expr(depth - 1); EL(EQ + (int)s.choose(nint), l1);
            stmt(depth - 1);
            if (s.choose(2)) { EL(CONST, l2); E(JUMP); place(l1); stmt(depth - 1); place(l2); }
            else { place(l1); labels[l2] = (i32)code.size(); }
            return; }
        case 7: if (nlocals) { // bounded loop
            int v = (int)s.choose(nlocals), top = newLabel(), out = newLabel();
            E(LOCAL, localOff(v)); E(CONST, 0); E(STORE4);
            place(top);
            E(LOCAL, localOff(v)); E(LOAD4); E(CONST, (i32)s.range(1, 6)); EL(GEI, out);
            int save = nlocals; // the body must not change the counter
            if (v == nlocals - 1) nlocals--; else nlocals = v;
            stmt(depth - 1); stmt(depth - 1);
            nlocals = save;
            E(LOCAL, localOff(v)); E(LOCAL, localOff(v)); E(LOAD4); E(CONST, 1); E(ADD); E(STORE4);
            EL(CONST, top); E(JUMP); place(out);
            return; } // fall through
        case 8: sysCall(depth); E(POP); return;
        case 9: if (!flabel.empty()) { int f = (int)s.choose((u32)flabel.size()); callArgs(fparams[f], depth); EL(CONST, flabel[f]); E(CALL); E(POP); return; } // fall through
        case 10: { // switch through a jump table in the data segment
            int n = 1 << s.choose(3), out = newLabel();
            i32 base = (i32)data.size(); data.resize(data.size() + 4 * n);
            std::vector<int> ls; for (int i = 0; i < n; i++) { ls.push_back(newLabel()); jumpTables.push_back({ base + 4 * i, ls[i] }); }
            expr(depth - 1); E(CONST, n - 1); E(BAND); E(CONST, 2); E(LSH); E(CONST, base); E(ADD); E(LOAD4); E(JUMP);
            for (int i = 0; i < n; i++) { place(ls[i]); stmt(depth - 2); EL(CONST, out); E(JUMP); }
            place(out);
            return; }
        default: E(s.choose(2) ? IGNORE : BREAK); expr(depth); E(POP); return;
        }
    }
    void function(int idx)
    {
        nparams = fparams[idx]; nlocals = (int)s.choose(5) + 1;
        frame = 8 + 4 * 13 + 4 * nlocals + 4 * (int)s.choose(4);
        place(flabel[idx]);
        E(ENTER, frame);
        if (cfg.cleanLocals) for (int i = 0; i < nlocals; i++) { E(LOCAL, localOff(i)); E(CONST, genInt(s)); E(STORE4); }
        // every activation uses up fuel, so recursion ends
        int go = newLabel();
        E(CONST, fuelAddr); E(CONST, fuelAddr); E(LOAD4); E(CONST, 1); E(SUB); E(STORE4);
        E(CONST, fuelAddr); E(LOAD4); E(CONST, 0); EL(GTI, go);
        E(CONST, genInt(s)); E(LEAVE, frame);
        place(go);
        int n = (int)s.choose(6) + 1;
        for (int i = 0; i < n; i++) stmt(3);
        expr(3);
        E(LEAVE, frame);
    }
    // entry: sets the fuel, calls a function with the arguments, or handles a few commands
    void structured()
    {
        int nf = 1 + (int)s.choose(4);
        i32 words = 2 + (i32)s.choose(40);
        data.assign(8 + 4 * words, 0);
        for (i32 i = 0; i < words; i++) put32(&data[8 + 4 * i], s.choose(4) ? genInt(s) : genFloatBits(s));
        globalsHi = (i32)data.size();
        data.resize(data.size() + 32); // indexed stores may go 15 bytes past the globals, never into a jump table
        for (int i = 0; i < nf; i++) { flabel.push_back(newLabel()); fparams.push_back(i == 0 ? 6 : (int)s.choose(4)); }
        // vmMain is the first function of the image; the fuel is only refilled at the outermost entry
        nparams = 6; nlocals = 2; frame = 8 + 4 * 13 + 8;
        E(ENTER, frame);
        if (cfg.cleanLocals) for (int i = 0; i < nlocals; i++) { E(LOCAL, localOff(i)); E(CONST, i); E(STORE4); }
        int skip = newLabel();
        E(CONST, fuelAddr); E(LOAD4); E(CONST, 0); EL(GTI, skip);
        E(CONST, fuelAddr); E(CONST, s.range(3, 25)); E(STORE4);
        place(skip);
        budget = 30;
        if (s.choose(2)) stmt(2);
        for (int i = 0; i < 6; i++) { E(LOCAL, paramOff(i)); E(LOAD4); E(ARG, 8 + 4 * i); }
        if (s.choose(2)) EL(CONST, flabel[0]);
        else { // function chosen by the command
            int n = nf > 3 ? 4 : nf > 1 ? 2 : 1;
            i32 base = (i32)data.size(); data.resize(data.size() + 4 * n);
            for (int i = 0; i < n; i++) jumpTables.push_back({ base + 4 * i, flabel[i] });
            E(LOCAL, paramOff(0)); E(LOAD4); E(CONST, n - 1); E(BAND); E(CONST, 2); E(LSH); E(CONST, base); E(ADD); E(LOAD4);
        }
        E(CALL);
        E(LEAVE, frame);
        for (int i = 0; i < nf; i++) { budget = 60; function(i); }
        if (s.choose(3)) { int n = (int)s.choose(40); lit.resize(n); for (auto& b : lit) b = (u8)(s.choose(4) ? 'a' + s.choose(26) : s.choose(256)); }
        bss = 0x10000 + 4 * (i32)s.choose(64) + (i32)(s.choose(5) == 0 ? s.choose(0x8000) : 0);
        if (cfg.bigBss && s.choose(40) == 0) bss = 10485760 - (i32)s.choose(2);
    }
    i32 wildOperand(int op, int n)
    {
        if (opBranch(op)) return (i32)s.choose((u32)n);
        switch (op) {
        case ENTER: case LEAVE: switch (s.choose(6)) { case 0: return genInt(s); case 1: return (i32)s.choose(64); case 2: return (i32)0x10000 - (i32)s.choose(64); default: return 4 * (i32)s.choose(40); }
        case ARG: return (i32)s.choose(256);
        case LOCAL: return s.choose(3) ? 4 * (i32)s.choose(40) : genInt(s);
        case BLOCK_COPY: return s.choose(2) ? (i32)s.choose(64) : genInt(s);
        default: switch (s.choose(8)) { case 0: return (i32)s.choose((u32)n); case 1: return -1 - (i32)s.choose(8); case 2: return genFloatBits(s); case 3: return (i32)s.choose(512); case 4: return (i32)s.choose(0x20000); default: return genInt(s); }
        }
    }
    void wild()
    {
        int n = 2 + (int)s.choose(s.choose(3) ? 40 : 200);
        i32 dl = 4 * (i32)s.choose(40);
        data.resize(dl); for (i32 i = 0; i + 4 <= dl; i += 4) put32(&data[i], s.choose(2) ? genInt(s) : (i32)s.choose((u32)n));
        switch (s.choose(6)) { case 0: bss = (i32)s.choose(70); break; case 1: bss = (i32)s.choose(5000); break; case 2: bss = 0x10000 - (i32)s.choose(200); break; default: bss = 0x10000 + (i32)s.choose(300); }
        if (cfg.bigBss && s.choose(100) == 0) bss = 10485760 - (i32)s.choose(2);
        if (s.choose(8) == 0) lit.assign(s.choose(50), (u8)'A');
        int style = (int)s.choose(4); // 0: uniform, 1: arithmetic-heavy, 2: memory/stack heavy, 3: control heavy
        static const std::vector<int> mem = { LOCAL, LOAD1, LOAD2, LOAD4, STORE1, STORE2, STORE4, ARG, BLOCK_COPY, CONST, CONST, LOCAL, ENTER, LEAVE, PUSH, POP };
        static const std::vector<int> ctl = { CALL, JUMP, CONST, CONST, CONST, EQ, NE, LTI, GEU, LTU, ENTER, LEAVE, PUSH, LEAVE, CALL, CONST, POP, EQF, GEF };
        if (s.choose(2)) E(ENTER, s.choose(3) ? 100 + 4 * (i32)s.choose(30) : wildOperand(ENTER, n));
        if (s.choose(30) == 0) { int k = (int)s.choose(600); for (int i = 0; i < k; i++) E(s.choose(3) ? PUSH : CONST, 7); }
        while ((int)code.size() < n) {
            int r = (int)s.choose(10);
            if (r == 0) { E(CONST, -1 - (i32)s.choose(8)); E(CALL); continue; }                       // system call
            if (r == 1) { E(CONST, (i32)s.choose((u32)n)); E(s.choose(2) ? CALL : JUMP); continue; }   // call, jump
            if (r == 2) { E(LOCAL, 4 * (i32)s.choose(40)); E(CONST, wildOperand(CONST, n)); E(STORE4); continue; }
            if (r == 3 && s.choose(3) == 0) { E(CONST, genInt(s)); E(CONST, genInt(s)); E(DIVI + (int)s.choose(4)); continue; }
            int op;
            if (r < 6 || style == 0) op = (int)s.choose(NOPS);
            else if (style == 1) op = SEX8 + (int)s.choose(NOPS - SEX8);
            else op = s.pick(style == 2 ? mem : ctl);
            if (op == UNDEF && s.choose(8)) op = CONST;
            E(op, wildOperand(op, n));
        }
        if (s.choose(4)) E(LEAVE, s.choose(2) ? 100 : wildOperand(LEAVE, n));
        for (auto& i : code) if (opBranch(i.op) && !i.label && i.arg >= (i32)code.size()) i.arg = (i32)code.size() - 1;
    }
    Image finish(const char* note, bool sane)
    {
        Image im; im.note = note; im.sane = sane;
        for (auto& j : jumpTables) put32(&data[j.first], labels[j.second]);
        std::vector<u8> c;
        for (auto& i : code) {
            c.push_back((u8)i.op);
            i32 a = i.label ? labels[i.arg] : i.arg;
            int k = opBytes(i.op);
            if (k == 4) { u8 b[4]; put32(b, a); c.insert(c.end(), b, b + 4); }
            else if (k == 1) c.push_back((u8)a);
        }
        for (int f : flabel) im.funcs.push_back(labels[f]);
        if (sane || s.choose(3)) while (c.size() & 3) c.push_back(0);
        Header h; h.magic = 0x12721444; h.icount = (i32)code.size(); h.codeLen = (i32)c.size();
        h.dataLen = (i32)data.size(); h.litLen = (i32)lit.size(); h.bssLen = bss;
        i32 gap1 = 0, gap2 = 0;
        if (!sane && s.choose(4) == 0) { gap1 = (i32)s.choose(9); gap2 = (i32)s.choose(9); }
        h.codeOff = 32 + gap1; h.dataOff = h.codeOff + h.codeLen + gap2;
        bool swapped = !sane && s.choose(6) == 0;
        if (swapped) { h.dataOff = 32 + gap1; h.codeOff = h.dataOff + h.dataLen + h.litLen + gap2; }
        size_t total = (size_t)std::max(h.codeOff + h.codeLen, h.dataOff + h.dataLen + h.litLen);
        if (!sane && s.choose(6) == 0) total += s.choose(20);
        im.bytes.assign(total, 0xCD);
        const i32* f = &h.magic; for (int i = 0; i < 8; i++) put32(&im.bytes[4 * i], f[i]);
        memcpy(&im.bytes[h.codeOff], c.data(), c.size());
        if (!data.empty()) memcpy(&im.bytes[h.dataOff], data.data(), data.size());
        if (!lit.empty()) memcpy(&im.bytes[h.dataOff + h.dataLen], lit.data(), lit.size());
        im.length = (i64)im.bytes.size();
        return im;
    }
};

static inline void mutateImage(Stream& s, Image& im, const Image* other)
{
    int n = 1 + (int)s.choose(s.choose(4) ? 1 : 4);
    for (int k = 0; k < n; k++) {
        if (im.bytes.size() < 2) break;
        Header h = im.bytes.size() >= 32 ? parseHeader(im.bytes.data()) : Header();
        switch (s.choose(9)) {
        case 0: { // truncated file
            size_t to;
            switch (s.choose(4)) { case 0: to = s.choose((u32)im.bytes.size()); break; case 1: to = im.bytes.size() - 1 - s.choose(8) % im.bytes.size(); break; case 2: to = 28 + s.choose(10); break; default: to = h.codeOff > 0 && (size_t)h.codeOff < im.bytes.size() ? h.codeOff + s.choose((u32)(im.bytes.size() - h.codeOff)) : 33; }
            if (to < im.bytes.size()) im.bytes.resize(to);
            im.note += strf(" truncated to %zu", to); break; }
        case 1: { // header field
            if (im.bytes.size() < 32) break;
            int fi = (int)s.choose(8); i32 v = le32(&im.bytes[4 * fi]), o = v;
            switch (s.choose(8)) {
            case 0: v = v + 1; break; case 1: v = v - 1; break; case 2: v = genInt(s); break;
            case 3: v = INT32_MAX - (i32)s.choose(40); break; case 4: v = (i32)im.bytes.size() - (i32)s.choose(5) + 2; break;
            case 5: v = -v; break; case 6: v = (i32)(0x80000000u - (u32)v + s.choose(3) - 1); break;
            default: { i32 w = le32(&im.bytes[4 * s.choose(8)]); v = (i32)(0u - (u32)w + s.choose((u32)im.bytes.size())); }
            }
            put32(&im.bytes[4 * fi], v); im.note += strf(" header[%d] %d->%d", fi, o, v); break; }
        case 2: { size_t a = s.choose((u32)im.bytes.size()); int b = (int)s.choose(8); im.bytes[a] ^= (u8)(1 << b); im.note += strf(" bit %zu.%d", a, b); break; }
        case 3: { // damaged code byte
            if (h.codeLen > 0 && h.codeOff > 0 && (i64)h.codeOff + h.codeLen <= (i64)im.bytes.size()) {
                size_t a = h.codeOff + s.choose((u32)h.codeLen); u8 v = (u8)(s.choose(2) ? s.choose(70) : s.choose(256));
                im.bytes[a] = v; im.note += strf(" code byte %zu=%u", a - h.codeOff, v); }
            break; }
        case 4: { // torn write: tail is zero, old, or garbage
            size_t a = s.choose((u32)im.bytes.size()); int kind = (int)s.choose(3);
            if (s.choose(2)) a &= ~(size_t)511;
            for (size_t i = a; i < im.bytes.size(); i++) im.bytes[i] = kind == 0 ? 0 : kind == 1 && other && i < other->bytes.size() ? other->bytes[i] : (u8)s.choose(256);
            im.note += strf(" torn at %zu kind %d", a, kind); break; }
        case 5: { // truncated/extended last instruction, instruction count
            if (im.bytes.size() >= 32) { i32 v = le32(&im.bytes[4]) + (i32)s.choose(5) - 2; put32(&im.bytes[4], v); im.note += strf(" icount=%d", v); } break; }
        case 6: { // branch targets near the limit
            if (h.icount > 0 && h.codeOff > 0 && h.codeLen > 0 && (i64)h.codeOff + h.codeLen <= (i64)im.bytes.size()) {
                std::vector<i64> br; i64 pc = 0; const u8* c = &im.bytes[h.codeOff];
                for (i32 i = 0; i < h.icount && pc < h.codeLen; i++) { int op = c[pc++]; if (op >= NOPS) break; if (opBranch(op) && pc + 4 <= h.codeLen) br.push_back(pc); pc += opBytes(op); }
                if (!br.empty()) { i64 a = s.pick(br); i32 v = s.choose(3) ? h.icount - 1 + (i32)s.choose(3) : genInt(s); put32(&im.bytes[h.codeOff + a], v); im.note += strf(" branch@%lld->%d of %d", (long long)a, v, h.icount); }
            } break; }
        case 7: { // code length shortened so that an operand is cut
            if (h.codeLen > 8) { i32 v = h.codeLen - 1 - (i32)s.choose(8); put32(&im.bytes[12], v); im.note += strf(" codeLength=%d", v); } break; }
        default: { // bss limits
            static const i32 t[] = { 10485760, 10485761, 0, -1, INT32_MIN };
            i32 v = t[s.choose(s.choose(8) ? 5 : 2) % 5]; if (v == 10485760 && s.choose(4)) v = 10485761;
            if (im.bytes.size() >= 32) put32(&im.bytes[28], v);
            im.note += strf(" bss=%d", v); }
        }
    }
    im.length = (i64)im.bytes.size();
    switch (s.choose(12)) {
    case 0: im.length = std::min(im.length, (i64)s.choose((u32)im.bytes.size() + 1)); break;
    case 1: im.length = -1 - (i64)s.choose(100); break;
    default: break;
    }
    im.defectsKnown = false; im.sane = false;
}

static inline Image genImage(Stream& s, const GenCfg& cfg, const Image* other = nullptr)
{
    ImgBuilder b(s, cfg);
    Image im;
    if ((int)s.choose(100) < 100 - cfg.wildPct) { b.structured(); im = b.finish("structured", true); }
    else { b.wild(); im = b.finish("wild", false); }
    if (cfg.mutatePct && (int)s.choose(100) >= 100 - cfg.mutatePct) mutateImage(s, im, other);
    return im;
}
