// Generators of bytecode images.
#pragma once
#include "ref.hpp"
#include <algorithm>
#include <map>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint32_t u32() { return (uint32_t)(next() >> 16); }
    int below(int n) { return n <= 0 ? 0 : (int)(u32() % (uint32_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool p(int percent) { return below(100) < percent; }
};

static const int32_t EDGE_I[] = {0, 1, -1, 2, -2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, -127, -128, -129, 255, 256, 257,
    -255, -256, 32767, 32768, 32769, -32767, -32768, -32769, 65535, 65536, 65537, 0x7fffffff, 0x7ffffffe, (int32_t)0x80000000,
    (int32_t)0x80000001, (int32_t)0xfffffffe, (int32_t)0xffff0000, 0x00ff00ff, 0x12345678, (int32_t)0x89abcdef, 0x55555555,
    (int32_t)0xaaaaaaaa, 1000003, -1000003, 46340, 46341, 0x01000000, 0x01000001, 0x00ffffff};
static const int NEDGE_I = sizeof(EDGE_I) / sizeof(EDGE_I[0]);
static const uint32_t EDGE_F[] = {0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x40000000, 0x3f000000, 0x40490fdb, 0x4b000000,
    0x4b800000, 0x4b800001, 0xcb800000, 0x4effffff, 0x4f000000, 0xcf000000, 0x00000001, 0x807fffff, 0x00800000, 0x7f7fffff, 0xff7fffff,
    0x7f800000, 0xff800000, 0x3f7fffff, 0x3f800001, 0x42c80000, 0xc2c80000, 0x3eaaaaab, 0x447a0000, 0xbdcccccd, 0x49742400,
    0x7fc00000, 0xffc00001, 0x7f800001};
static const int NEDGE_F = sizeof(EDGE_F) / sizeof(EDGE_F[0]);

static inline int32_t edgeInt(Rng& r)
{
    int k = r.below(10);
    if (k < 6) return EDGE_I[r.below(NEDGE_I)];
    if (k < 8) return (int32_t)r.range(-200, 200);
    if (k < 9) return (int32_t)(1u << r.below(32));
    return (int32_t)r.u32();
}
static inline int32_t edgeFlt(Rng& r)
{
    int k = r.below(10);
    if (k < 5) return (int32_t)EDGE_F[r.below(NEDGE_F)];
    if (k < 9) return f2i((float)r.range(-3000, 3000) / (float)(1 << r.below(6)));
    return (int32_t)r.u32();
}

struct Image {
    std::vector<Ins> code;
    std::vector<uint8_t> data, lit;
    int32_t bss = 0x10000;
    // layout choices
    int codeOffset = 32, gap = 0, codePad = 0, tail = 0;
    bool dataFirst = false;
    int32_t icDelta = 0;

    static void w32(std::vector<uint8_t>& o, uint32_t v)
    {
        for (int i = 0; i < 4; i++) o.push_back((uint8_t)(v >> (8 * i)));
    }
    static void p32(std::vector<uint8_t>& o, size_t at, uint32_t v)
    {
        for (int i = 0; i < 4; i++) o[at + i] = (uint8_t)(v >> (8 * i));
    }
    std::vector<uint8_t> encode() const
    {
        std::vector<uint8_t> c;
        for (auto& i : code)
        {
            c.push_back((uint8_t)i.op);
            int n = opOperand(i.op);
            if (n == 4) w32(c, (uint32_t)i.v);
            if (n == 1) c.push_back((uint8_t)i.v);
        }
        for (int i = 0; i < codePad; i++) c.push_back(0);
        std::vector<uint8_t> o(32, 0);
        auto pad = [&]() { for (int i = 0; i < gap; i++) o.push_back(0xEE); };
        int co, dof;
        if (dataFirst)
        {
            pad();
            dof = (int)o.size();
            o.insert(o.end(), data.begin(), data.end());
            o.insert(o.end(), lit.begin(), lit.end());
            pad();
            co = (int)o.size();
            o.insert(o.end(), c.begin(), c.end());
        }
        else
        {
            pad();
            co = (int)o.size();
            o.insert(o.end(), c.begin(), c.end());
            pad();
            dof = (int)o.size();
            o.insert(o.end(), data.begin(), data.end());
            o.insert(o.end(), lit.begin(), lit.end());
        }
        for (int i = 0; i < tail; i++) o.push_back(0x3b);
        p32(o, 0, 0x12721444);
        p32(o, 4, (uint32_t)((int32_t)code.size() + icDelta));
        p32(o, 8, (uint32_t)co);
        p32(o, 12, (uint32_t)c.size());
        p32(o, 16, (uint32_t)dof);
        p32(o, 20, (uint32_t)data.size());
        p32(o, 24, (uint32_t)lit.size());
        p32(o, 28, (uint32_t)bss);
        return o;
    }
};

// number of host functions the harness knows
enum { SYS_HASH = 0, SYS_POKE, SYS_PEEK, SYS_CALL, SYS_FLOAT, SYS_FREE, SYS_RANGE, SYS_OTHER, SYS_WIDE, SYS_ARGS, SYS_FILL, SYS_N };

struct GenOpt {
    int sysPct = 10;      // weight of system calls
    int callPct = 12;     // weight of calls
    int floatPct = 30;    // share of float expressions
    int blockPct = 5;
    bool recursion = true;
    bool nested = true;   // recursive VM_Call
    bool faults = false;  // now and then a specified error
    bool deep = false;    // deep recursion until the stack ends
    bool others = false;
    int stmts = 8;
    int funcs = 4;
    bool smallData = false;
    bool bigCode = false;
};

// Structured, well-formed programs, the shape a compiler generates.
struct Gen {
    Rng& r;
    GenOpt o;
    Image im;
    std::vector<Ins>& c;
    std::vector<std::pair<int, int>> fix; // instruction, label
    std::vector<int> labels;
    int nfunc = 0;
    std::vector<int> funcLabel, funcArgs, funcRec;
    std::vector<int> calls; // CONST instructions that hold a function
    int cur = 0, frame = 0, nlocals = 0, outArgs = 0;
    int loopDepth = 0;
    int localBase = 0;
    int tempDepth = 0;
    int size = 0;
    std::vector<std::pair<int, int>> jumpTables; // data offset, label
    std::vector<int> loopVars;
    int budget = 0;

    Gen(Rng& rr, GenOpt opt) : r(rr), o(opt), c(im.code) {}
    int emit(int op, int32_t v = 0) { c.push_back({op, v}); return (int)c.size() - 1; }
    int newLabel() { labels.push_back(-1); return (int)labels.size() - 1; }
    void place(int l) { labels[l] = (int)c.size(); }
    void emitL(int op, int l) { fix.push_back({emit(op, 0), l}); }

    // globals: [16, gEnd)
    int gEnd = 0, gStart = 16;
    int localAddr(int k) { return localBase + 4 * k; }
    int argAddr(int k) { return frame + 8 + 4 * k; }
    int globAddr(int align)
    {
        int span = (gEnd - gStart) / align;
        return gStart + align * r.below(span);
    }
    static int pow2(int v) { int p = 1; while (p * 2 <= v) p *= 2; return p; }

    // push an address that is safe to load n bytes from / store to
    void genAddr(int n, bool store)
    {
        int k = r.below(100);
        if (k < 35 && nlocals > 0)
        {
            int l = r.below(nlocals);
            if (store && isLoopVar(l)) l = -1;
            if (l >= 0)
            {
                emit(LOCAL, localAddr(l) + (n < 4 ? n * r.below(4 / n) : 0));
                return;
            }
        }
        if (k < 45 && funcArgs[cur] > 0)
        {
            int a = r.below(funcArgs[cur]);
            if (!(store && funcRec[cur] && a == 0))
            {
                emit(LOCAL, argAddr(a));
                return;
            }
        }
        if (k < 65 || tempDepth > 3) { emit(CONST, globAddr(n)); return; }
        // computed: base + (index & mask) * n
        int cells = pow2(std::max(1, (gEnd - gStart - 8) / 2 / n));
        int base = gStart + n * r.below(std::max(1, (gEnd - gStart) / n - cells));
        base -= base % n;
        tempDepth++;
        genInt(2);
        tempDepth--;
        emit(CONST, cells - 1);
        emit(BAND);
        if (n > 1) { emit(CONST, n == 2 ? 1 : 2); emit(LSH); }
        emit(CONST, base);
        emit(ADD);
        if (r.p(8))
        { // the address wraps around the mask: upper bits are ignored
            emit(CONST, (int32_t)(size * (uint32_t)r.range(1, 7)));
            emit(r.p(50) ? ADD : SUB);
        }
    }
    bool isLoopVar(int l) { return std::find(loopVars.begin(), loopVars.end(), l) != loopVars.end(); }

    void genFlt(int d)
    {
        budget--;
        int k = r.below(100);
        if (d <= 0 || budget < 0 || k < 25) { emit(CONST, edgeFlt(r)); return; }
        if (k < 40) { genAddr(4, false); emit(LOAD4); return; }
        if (k < 52) { genInt(d - 1); emit(CVIF); return; }
        if (k < 58) { genFlt(d - 1); emit(NEGF); return; }
        if (k < 60) { genInt(d - 1); return; }
        genFlt(d - 1);
        genFlt(d - 1);
        static const int ops[] = {ADDF, SUBF, MULF, DIVF, ADDF, SUBF, MULF};
        emit(ops[r.below(7)]);
    }
    void genInt(int d)
    {
        budget--;
        int k = r.below(100);
        if (d <= 0 || budget < 0 || k < 18) { emit(CONST, edgeInt(r)); return; }
        if (k < 36)
        {
            int n = r.below(5);
            if (n == 0) { genAddr(1, false); emit(LOAD1); if (r.p(60)) emit(SEX8); }
            else if (n == 1) { genAddr(2, false); emit(LOAD2); if (r.p(60)) emit(SEX16); }
            else { genAddr(4, false); emit(LOAD4); }
            return;
        }
        if (k < 46)
        {
            genInt(d - 1);
            static const int un[] = {NEGI, BCOM, SEX8, SEX16, NEGI, BCOM};
            emit(un[r.below(6)]);
            if (r.p(5)) emit(IGNORE);
            return;
        }
        if (k < 51)
        {
            genFlt(d - 1);
            // keep it in range most of the time
            if (r.p(80)) { emit(CONST, f2i(r.p(50) ? 0.001f : 1e-30f)); emit(MULF); }
            emit(CVFI);
            return;
        }
        if (k < 51 + o.callPct && tempDepth < 2) { genCall(); return; }
        if (k < 51 + o.callPct + o.sysPct && tempDepth < 2) { genSys(); return; }
        if (k < 62 + o.callPct) { genBool(d - 1); return; }
        genInt(d - 1);
        static const int ops[] = {ADD, SUB, MULI, MULU, BAND, BOR, BXOR, ADD, SUB, LSH, RSHI, RSHU, DIVI, DIVU, MODI, MODU};
        int op = ops[r.below(16)];
        if (op == LSH || op == RSHI || op == RSHU)
        {
            if (r.p(60)) emit(CONST, r.below(32));
            else { genInt(d - 1); emit(CONST, 31); emit(BAND); }
        }
        else if (op >= DIVI && op <= MODU)
        {
            if (r.p(55))
            {
                int32_t v = edgeInt(r);
                emit(CONST, v == 0 || v == -1 ? (r.p(50) ? 3 : -7) : v);
            }
            else if (o.faults && r.p(30)) genInt(d - 1);
            else { genInt(d - 1); emit(CONST, 0x7fff); emit(BAND); emit(CONST, 1); emit(BOR); }
        }
        else genInt(d - 1);
        emit(op);
    }
    // comparison as a value
    void genBool(int d)
    {
        int lt = newLabel(), le = newLabel();
        genCond(d, lt);
        emit(CONST, 0);
        emitL(CONST, le);
        emit(JUMP);
        place(lt);
        emit(CONST, 1);
        place(le);
    }
    void genCond(int d, int target)
    {
        if (r.below(100) < o.floatPct)
        {
            genFlt(d);
            if (r.p(15)) { Ins last = c.back(); if (last.op == CONST) emit(CONST, last.v); else genFlt(d); }
            else genFlt(d);
            emitL(r.range(EQF, GEF), target);
        }
        else
        {
            genInt(d);
            Ins last = c.back();
            if (r.p(15) && last.op == CONST) emit(CONST, r.p(50) ? last.v : (int32_t)((uint32_t)last.v + (r.p(50) ? 1u : (uint32_t)-1)));
            else genInt(d);
            emitL(r.range(EQ, GEU), target);
        }
    }
    void genCall()
    {
        // call graph is acyclic (higher numbers), besides counted recursion
        int callee = -1;
        bool rec = false;
        if (o.recursion && funcRec[cur] && r.p(40)) { callee = cur; rec = true; }
        else if (cur + 1 < nfunc) callee = r.range(cur + 1, nfunc - 1);
        if (callee < 0) { emit(CONST, edgeInt(r)); return; }
        tempDepth += 2;
        int skip = -1, done = -1;
        if (rec)
        { // if (arg0 <= 0) value = const
            skip = newLabel();
            done = newLabel();
            emit(LOCAL, argAddr(0));
            emit(LOAD4);
            emit(CONST, 0);
            emitL(LEI, skip);
        }
        int n = funcArgs[callee];
        for (int i = 0; i < n; i++)
        {
            if (rec && i == 0) { emit(LOCAL, argAddr(0)); emit(LOAD4); emit(CONST, 1); emit(SUB); }
            else if (funcRec[callee] && i == 0) emit(CONST, r.range(0, 6));
            else if (r.below(100) < o.floatPct) genFlt(2);
            else genInt(2);
            emit(ARG, 8 + 4 * i);
        }
        outArgs = std::max(outArgs, n);
        emitL(CONST, funcLabel[callee]);
        emit(CALL);
        if (rec)
        {
            emitL(CONST, done);
            emit(JUMP);
            place(skip);
            emit(CONST, edgeInt(r));
            place(done);
        }
        tempDepth -= 2;
    }
    void genSys()
    {
        int id = r.below(SYS_N);
        if (id == SYS_CALL && !o.nested) id = SYS_HASH;
        if (id == SYS_OTHER && !o.others) id = SYS_ARGS;
        tempDepth += 2;
        int n = 0;
        auto arg = [&](int i) { emit(ARG, 8 + 4 * i); n = std::max(n, i + 1); };
        switch (id)
        {
        case SYS_HASH: { int k = r.range(0, 4); for (int i = 0; i < k; i++) { genInt(2); arg(i); } break; }
        case SYS_ARGS: for (int i = 0; i < 15; i++) { if (r.p(20)) genInt(1); else emit(CONST, edgeInt(r)); arg(i); } break;
        case SYS_POKE: emit(CONST, globAddr(4)); arg(0); genInt(2); arg(1); break;
        case SYS_PEEK: emit(CONST, globAddr(4)); arg(0); break;
        case SYS_CALL: for (int i = 0; i < 3; i++) { genInt(1); arg(i); } break;
        case SYS_FLOAT: genFlt(2); arg(0); genFlt(1); arg(1); break;
        case SYS_FREE: break;
        case SYS_RANGE: emit(CONST, r.p(50) ? globAddr(1) : edgeInt(r)); arg(0); emit(CONST, edgeInt(r)); arg(1); break;
        case SYS_OTHER: genInt(1); arg(0); break;
        case SYS_WIDE: genInt(1); arg(0); break;
        case SYS_FILL: emit(CONST, globAddr(4)); arg(0); genInt(1); arg(1); emit(CONST, r.below(24)); arg(2); break;
        }
        outArgs = 15; // the host sees 15 argument words
        emit(CONST, -1 - id);
        emit(CALL);
        tempDepth -= 2;
    }
    void stmt(int d)
    {
        budget = 40;
        int k = r.below(100);
        if (k < 42)
        {
            int n = r.below(6);
            int sz = n == 0 ? 1 : n == 1 ? 2 : 4;
            genAddr(sz, true);
            if (sz == 4 && r.below(100) < o.floatPct) genFlt(3);
            else genInt(4);
            emit(sz == 1 ? STORE1 : sz == 2 ? STORE2 : STORE4);
        }
        else if (k < 52 && d > 0)
        {
            int le = newLabel(), lend = newLabel();
            genCond(3, le);
            block(d - 1, r.range(1, 2));
            if (r.p(50)) { emitL(CONST, lend); emit(JUMP); place(le); block(d - 1, 1); place(lend); }
            else { place(le); place(lend); }
        }
        else if (k < 60 && d > 0 && loopDepth < 2 && nlocals > 2)
        {
            int v = -1;
            for (int t = 0; t < 4 && v < 0; t++) { int x = r.below(nlocals); if (!isLoopVar(x)) v = x; }
            if (v < 0) return;
            int n = r.range(1, loopDepth ? 3 : 6);
            loopVars.push_back(v);
            loopDepth++;
            emit(LOCAL, localAddr(v)); emit(CONST, 0); emit(STORE4);
            int top = newLabel();
            place(top);
            block(d - 1, r.range(1, 2));
            emit(LOCAL, localAddr(v));
            emit(LOCAL, localAddr(v)); emit(LOAD4); emit(CONST, 1); emit(ADD);
            emit(STORE4);
            emit(LOCAL, localAddr(v)); emit(LOAD4); emit(CONST, n);
            static const int cmp[] = {LTI, LTU, NE};
            emitL(cmp[r.below(3)], top);
            loopDepth--;
            loopVars.pop_back();
        }
        else if (k < 60 + o.blockPct)
        {
            int n = 4 * r.range(1, 5);
            if (r.p(20)) n = r.range(0, 23);
            int half = (gEnd - gStart) / 2;
            if (half < n + 8) return;
            int a = gStart + 4 * r.below(std::max(1, (half - n) / 4)), b = gStart + half + 4 * r.below(std::max(1, (half - n) / 4));
            if (r.p(50)) std::swap(a, b);
            if (r.p(10)) b = a;
            emit(CONST, a);
            emit(CONST, b);
            emit(BLOCK_COPY, n);
        }
        else if (k < 73)
        {
            if (r.p(50)) genCall(); else genSys();
            emit(POP);
        }
        else if (k < 77 && d > 0)
        { // switch via jump table in the data segment
            int n = pow2(r.range(2, 4));
            int base = tableNext;
            if (base + 4 * n > tableEnd) return;
            tableNext += 4 * n;
            int lend = newLabel();
            genInt(2);
            emit(CONST, n - 1); emit(BAND);
            emit(CONST, 2); emit(LSH);
            emit(CONST, base); emit(ADD);
            emit(LOAD4);
            emit(JUMP);
            for (int i = 0; i < n; i++)
            {
                int l = newLabel();
                jumpTables.push_back({base + 4 * i, l});
                place(l);
                block(d - 1, 1);
                if (r.p(70)) { emitL(CONST, lend); emit(JUMP); }
            }
            place(lend);
        }
        else if (k < 79) { emit(r.p(50) ? BREAK : IGNORE); }
        else if (k < 81 && d < 2 && r.p(50)) { genInt(2); epilogue(); }
        else if (o.faults && k < 85 && r.p(40)) fault();
        else
        {
            int l = r.below(nlocals);
            if (isLoopVar(l)) return;
            emit(LOCAL, localAddr(l));
            genInt(3);
            emit(STORE4);
        }
    }
    int tableNext = 0, tableEnd = 0;
    void fault()
    {
        int k = r.below(7);
        // conditional, so that it does not end every run
        int skip = newLabel();
        genCond(2, skip);
        switch (k)
        {
        case 0: emit(CONST, (int32_t)(r.p(50) ? 0x7fffffff : 100000 + r.below(1000))); emit(CALL); emit(POP); break;
        case 1: emit(CONST, r.p(50) ? -1 - r.below(5) : 100000); emit(JUMP); break;
        case 2: emit(UNDEF); break;
        case 3: emit(CONST, 7); emit(CONST, 0); emit(DIVI + r.below(4)); emit(POP); break;
        case 4: emit(CONST, r.p(50) ? 16 : size - 4); emit(CONST, r.p(50) ? size - 8 : -4); emit(BLOCK_COPY, 64); break;
        case 5: emit(CONST, 1); epilogueRaw(); break; // not balanced
        case 6: emit(CONST, 5); emit(CONST, (int)1); emit(CONST, 0); emit(MODI + (r.p(50) ? 1 : 0)); epilogue(); break;
        }
        place(skip);
    }
    std::vector<int> leaves;
    void epilogueRaw() { emit(CONST, 3); epilogue(); }
    void epilogue() { leaves.push_back(emit(LEAVE, 0)); }
    void block(int d, int n) { for (int i = 0; i < n; i++) stmt(d); }

    Image build()
    {
        nfunc = r.range(1, o.funcs);
        for (int i = 0; i < nfunc; i++)
        {
            funcLabel.push_back(newLabel());
            funcArgs.push_back(i == 0 ? 13 : r.range(0, 6));
            funcRec.push_back(i > 0 && funcArgs[i] > 0 && o.recursion && r.p(40));
        }
        int nd = 4 * r.range(8, 40), nl = r.range(0, 40);
        int extra = r.range(0, 600);
        im.data.resize(nd + 64);
        tableNext = nd;
        tableEnd = nd + 64;
        for (auto& b : im.data) b = (uint8_t)r.u32();
        for (int i = 0; i + 4 <= nd; i += 4)
            if (r.p(70)) Image::p32(im.data, i, (uint32_t)(r.p(30) ? edgeFlt(r) : edgeInt(r)));
        im.lit.resize(nl);
        for (auto& b : im.lit) b = (uint8_t)r.u32();
        int total = (int)im.data.size() + nl;
        if (o.smallData) im.bss = extra + r.range(600, 4000);
        else im.bss = extra + 0x10000 + (r.p(10) ? r.below(200000) : 0);
        size = 1;
        while (size < total + im.bss) size <<= 1;
        gEnd = nd; // the data segment, without the jump tables
        if (r.p(30))
        { // a window somewhere else: lit or bss
            gStart = total & ~3;
            gEnd = gStart + std::min(extra & ~3, 400);
            if (gEnd - gStart < 64) { gStart = 16; gEnd = nd; }
        }
        for (cur = 0; cur < nfunc; cur++)
        {
            if (o.bigCode && cur == 1)
            { // instruction and byte numbers beyond 16 bits
                int n = r.range(0, 2) * 20000 + 33000 + r.below(600);
                for (int i = 0; i < n; i++) emit(i % 3 == 1 ? CONST : IGNORE, i);
            }
            place(funcLabel[cur]);
            nlocals = r.range(3, 8);
            outArgs = 15;
            localBase = 8 + 4 * 15;
            frame = localBase + 4 * nlocals;
            if (o.deep && r.p(50)) frame += 4 * r.below(400);
            loopVars.clear();
            loopDepth = 0;
            emit(ENTER, frame);
            size_t mark = leaves.size();
            // initialise the locals mostly
            for (int i = 0; i < nlocals; i++)
                if (r.p(85)) { emit(LOCAL, localAddr(i)); emit(CONST, r.p(30) ? edgeFlt(r) : edgeInt(r)); emit(STORE4); }
            block(2, r.range(1, o.stmts));
            budget = 40;
            if (r.p(5)) emit(PUSH);
            else if (r.below(100) < o.floatPct) genFlt(4);
            else genInt(5);
            epilogue();
            for (size_t i = mark; i < leaves.size(); i++) c[leaves[i]].v = frame;
            if (r.p(30)) { emit(PUSH); emit(LEAVE, frame); }
        }
        for (auto& f : fix) c[f.first].v = labels[f.second];
        for (auto& f : fix)
            if (c[f.first].v >= (int)c.size()) { emit(PUSH); emit(LEAVE, 68); break; }
        for (auto& j : jumpTables) Image::p32(im.data, j.first, (uint32_t)labels[j.second]);
        // layout variety
        im.gap = r.p(30) ? r.range(1, 9) : 0;
        im.tail = r.p(30) ? r.range(1, 9) : 0;
        im.codePad = r.p(50) ? r.range(0, 3) : 0;
        im.dataFirst = r.p(30);
        return im;
    }
};

// Hostile code: opcode soup with a statically tracked operand stack depth (mostly), edge addresses.
static inline Image genSoup(Rng& r, bool wild)
{
    Image im;
    int n = r.range(4, 60);
    int total;
    im.data.resize(4 * r.range(0, 20));
    for (auto& b : im.data) b = (uint8_t)r.u32();
    im.lit.resize(r.range(0, 9));
    int sz = r.below(6);
    if (sz == 0) im.bss = r.range(0, 200);
    else if (sz == 1) im.bss = r.range(200, 5000);
    else im.bss = 0x10000 + r.below(300);
    if (sz == 5 && r.p(20)) im.bss = 10485760 - r.below(2);
    total = (int)im.data.size() + (int)im.lit.size() + im.bss;
    int size = 1;
    while (size < total) size <<= 1;
    auto addr = [&]() -> int32_t {
        switch (r.below(9))
        {
        case 0: return size - r.range(0, 8);
        case 1: return size + r.range(-8, 8);
        case 2: return -r.range(1, 16);
        case 3: return (int32_t)(0x80000000u + (uint32_t)r.range(-8, 8));
        case 4: return r.range(0, 16);
        case 5: return edgeInt(r);
        case 6: return size - 60 - r.range(0, 80);
        default: return r.below(size);
        }
    };
    auto& c = im.code;
    int depth = 0;
    if (r.p(70)) c.push_back({ENTER, r.p(80) ? 8 + 4 * r.below(30) : r.range(0, 3) * 4});
    int fr = c.empty() ? 0 : c[0].v;
    while ((int)c.size() < n)
    {
        int op = r.below(NOPS);
        int k = r.below(100);
        if (k < 22) op = CONST;
        else if (k < 28) op = LOCAL;
        else if (k < 34) op = r.range(LOAD1, BLOCK_COPY);
        if (op == UNDEF && r.p(70)) continue;
        int need = 0, delta = 0;
        if (op >= EQ && op <= GEF) { need = 2; delta = -2; }
        else switch (op)
        {
        case CONST: case LOCAL: case PUSH: delta = 1; break;
        case POP: case JUMP: case ARG: need = 1; delta = -1; break;
        case CALL: need = 1; break;
        case LOAD1: case LOAD2: case LOAD4: case SEX8: case SEX16: case NEGI: case BCOM: case NEGF: case CVIF: case CVFI: need = 1; break;
        case STORE1: case STORE2: case STORE4: case BLOCK_COPY: need = 2; delta = -2; break;
        case UNDEF: case IGNORE: case BREAK: case ENTER: case LEAVE: break;
        default: need = 2; delta = -1; break;
        }
        if (depth < need && !(wild && r.p(15))) { 
            c.push_back({CONST, r.p(60) ? addr() : edgeInt(r)}); depth++; continue; }
        int32_t v = 0;
        switch (op)
        {
        case CONST: v = r.p(50) ? addr() : r.p(50) ? edgeInt(r) : edgeFlt(r); break;
        case LOCAL: v = r.p(70) ? r.range(0, 80) : addr(); break;
        case ENTER:
            if (!wild || r.p(60)) { if (r.p(80)) continue; v = 4 * r.below(40); }
            else switch (r.below(6)) { case 0: v = size; break; case 1: v = -4 * r.below(100); break; case 2: v = edgeInt(r); break; case 3: v = 0x10000; break; case 4: v = 0xffb0 + r.range(-80, 80); break; default: v = r.range(-70, 70); }
            break;
        case LEAVE:
            if (!wild || r.p(60)) { if (r.p(80)) continue; v = fr; }
            else switch (r.below(5)) { case 0: v = size; break; case 1: v = -4 * r.below(100); break; case 2: v = edgeInt(r); break; case 3: v = fr + r.range(-16, 16); break; default: v = r.range(-70, 70); }
            break;
        case ARG: v = r.p(80) ? 8 + 4 * r.below(20) : r.below(256); break;
        case BLOCK_COPY: v = r.p(70) ? r.range(0, 40) : r.p(50) ? addr() : (int32_t)(0u - (uint32_t)r.range(0, 70000)); break;
        case JUMP: case CALL:
            // give it a sensible target most of the time
            if (r.p(75))
            {
                int t = r.p(75) ? (int)c.size() + 2 + r.below(6) : r.below(n + 3);
                if (op == CALL && r.p(60)) t = -1 - r.below(SYS_N + 1);
                c.push_back({CONST, t});
                depth++;
            }
            break;
        default:
            if (op >= EQ && op <= GEF) v = r.p(80) ? std::min(n - 1, (int)c.size() + 1 + r.below(6)) : r.below(n);
        }
        c.push_back({op, v});
        depth += delta;
        if (depth < 0) depth = 0;
    }
    if (r.p(85))
    {
        if (depth == 0) { c.push_back({CONST, edgeInt(r)}); depth = 1; }
        while (depth > 1) { c.push_back({POP, 0}); depth--; }
        c.push_back({LEAVE, fr});
    }
    // branch targets have to exist
    for (auto& i : c)
        if (i.op >= EQ && i.op <= GEF && i.v >= (int)c.size()) i.v = (int)c.size() - 1;
    im.gap = r.p(20) ? r.range(1, 9) : 0;
    im.dataFirst = r.p(30);
    return im;
}

static inline std::string disasm(const std::vector<Ins>& c, size_t max = 400)
{
    std::string s;
    char b[64];
    for (size_t i = 0; i < c.size() && i < max; i++)
    {
        if (opOperand(c[i].op)) snprintf(b, sizeof b, "%zu:%s %d; ", i, OPN[c[i].op], c[i].v);
        else snprintf(b, sizeof b, "%zu:%s; ", i, OPN[c[i].op]);
        s += b;
    }
    return s;
}
