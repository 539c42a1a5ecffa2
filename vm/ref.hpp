// Reference model of the Q3VM machine, written from the instruction set
// specification and vm.h, independent of vm.c.  Tracks, besides values, which
// bytes/values are *specified*: everything the specification leaves to the
// implementation (return-address encoding, value pushed by PUSH, NaN payload,
// shift counts >= 32, out-of-range float->int, ...) is "undefined" here and is
// never compared.  A run whose *course* depends on something unspecified ends
// as UNSPEC: the real machine then only has to stay safe and deterministic.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <string>
#include <vector>

enum Op {
    UNDEF, IGNORE, BREAK, ENTER, LEAVE, CALL, PUSH, POP, CONST, LOCAL, JUMP,
    EQ, NE, LTI, LEI, GTI, GEI, LTU, LEU, GTU, GEU, EQF, NEF, LTF, LEF, GTF, GEF,
    LOAD1, LOAD2, LOAD4, STORE1, STORE2, STORE4, ARG, BLOCK_COPY,
    SEX8, SEX16, NEGI, ADD, SUB, DIVI, DIVU, MODI, MODU, MULI, MULU,
    BAND, BOR, BXOR, BCOM, LSH, RSHI, RSHU, NEGF, ADDF, SUBF, DIVF, MULF, CVIF, CVFI,
    NOPS
};
static const char* const OPN[] = {
    "UNDEF", "IGNORE", "BREAK", "ENTER", "LEAVE", "CALL", "PUSH", "POP", "CONST", "LOCAL", "JUMP",
    "EQ", "NE", "LTI", "LEI", "GTI", "GEI", "LTU", "LEU", "GTU", "GEU", "EQF", "NEF", "LTF", "LEF", "GTF", "GEF",
    "LOAD1", "LOAD2", "LOAD4", "STORE1", "STORE2", "STORE4", "ARG", "BLOCK_COPY",
    "SEX8", "SEX16", "NEGI", "ADD", "SUB", "DIVI", "DIVU", "MODI", "MODU", "MULI", "MULU",
    "BAND", "BOR", "BXOR", "BCOM", "LSH", "RSHI", "RSHU", "NEGF", "ADDF", "SUBF", "DIVF", "MULF", "CVIF", "CVFI"};

static inline int opOperand(int op)
{ // operand size in bytes
    if (op == ARG) return 1;
    if (op == ENTER || op == LEAVE || op == CONST || op == LOCAL || op == BLOCK_COPY) return 4;
    if (op >= EQ && op <= GEF) return 4;
    return 0;
}

struct Ins { int op; int32_t v; };

struct Val { int32_t v; bool def; };

static inline float i2f(int32_t i) { float f; memcpy(&f, &i, 4); return f; }
static inline int32_t f2i(float f) { int32_t i; memcpy(&i, &f, 4); return i; }

enum Outcome {
    R_DONE,      // returned normally
    R_ERR,     // a specified error has to be reported and -1 returned
    R_UNSPEC,  // behaviour not specified from some point on
    R_STEPS    // step budget used up
};

// error codes of vm.h (public API)
enum { E_BLOCKCOPY = -5, E_PC = -6, E_JUMPINV = -7, E_STACKOVF = -8, E_STACK = -11, E_BADINS = -14 };
static const uint32_t ANYERR = 0xffffffffu;
static inline uint32_t ebit(int code) { return 1u << (-code); }

struct RefVM;
// syscall handler of the model: returns the value for the VM
typedef std::function<Val(RefVM&, int id, const Val* args)> RefSys;

static const int FRAME0 = 60; // entry frame: 8 + 4 * 13 arguments

// what a debugger would want to know
struct Tracer {
    virtual void ins(int64_t, int, size_t) {}   // about to execute
    virtual void enter(int64_t, size_t) {}      // function entered
    virtual void leave(int64_t, size_t) {}      // returns to
    virtual void sysEnter(int, size_t) {}
    virtual void sysLeave(int64_t, size_t) {}
    virtual ~Tracer() {}
};

struct RefVM {
    Tracer* tracer = nullptr;
    // loaded program
    std::vector<Ins> code;
    std::vector<int> wordIdx; // index of the instruction in expanded words
    int codeLength = 0;
    uint32_t size = 0; // data size (power of two)
    std::vector<uint8_t> mem;
    std::vector<uint8_t> st;   // 0 defined, 1 undefined
    std::vector<uint32_t> tok; // return-address tokens (0: none)
    std::vector<int32_t> tokRet;
    int sp = 0, bottom = 0;
    int64_t steps = 0, budget = 100000;
    RefSys sys;
    // outcome of the current top-level call
    bool dbgUnspec = false; // DEBUG_VM's additional checks may fire
    std::string why;
    uint32_t errMask = 0;
    std::vector<uint32_t> errs; // sets of allowed codes, in order
    int depth = 0;
    // coverage
    uint64_t opCount[NOPS] = {0};
    uint64_t nSys = 0, nBranch = 0, nTaken = 0;
    uint64_t cover = 0; // set of visited behaviours (bits)
    int maxDepth = 0;

    static int32_t rd32(const uint8_t* p)
    {
        return (int32_t)((uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24);
    }

    // true: has to be accepted, false: has to be rejected
    bool load(const uint8_t* b, int64_t len, std::string* reason = nullptr)
    {
        auto no = [&](const char* r) { if (reason) *reason = r; return false; };
        if (!b || len <= 32) return no("short");
        if (len > 0x400000) return no("toolong");
        if (rd32(b) != 0x12721444) return no("magic");
        int64_t ic = rd32(b + 4), co = rd32(b + 8), cl = rd32(b + 12), dof = rd32(b + 16), dl = rd32(b + 20),
                ll = rd32(b + 24), bl = rd32(b + 28);
        if (bl < 0 || dl < 0 || ll < 0 || cl <= 0 || co < 0 || dof < 0 || ic <= 0) return no("negative");
        if (bl > 10485760) return no("bss");
        if (co + cl > len) return no("coderange");
        if (dof + dl + ll > len) return no("datarange");
        code.clear();
        wordIdx.clear();
        int64_t pc = 0;
        int w = 0;
        const uint8_t* c = b + co;
        for (int64_t i = 0; i < ic; i++)
        {
            if (pc >= cl) return no("codeend");
            int op = c[pc++];
            if (op >= NOPS) return no("opcode");
            int n = opOperand(op);
            int32_t v = 0;
            if (n && cl - pc < n) return no("operandend");
            if (n == 4) v = rd32(c + pc);
            else if (n == 1) v = c[pc];
            pc += n;
            wordIdx.push_back(w);
            w += n ? 2 : 1;
            code.push_back({op, v});
        }
        for (auto& i : code)
            if (i.op >= EQ && i.op <= GEF && (i.v < 0 || i.v >= ic)) return no("branch");
        codeLength = (int)cl;
        uint32_t tot = (uint32_t)(dl + ll + bl);
        size = 1;
        while (size < tot) size <<= 1;
        mem.assign(size + 4, 0);
        memcpy(mem.data(), b + dof, dl + ll);
        st.assign(size + 4, 0);
        tok.assign(size + 4, 0);
        tokRet.assign(1, 0);
        sp = (int)size;
        bottom = sp - 0x10000;
        if (bottom < 0) bottom = 0;
        return true;
    }

    void mark(int64_t a, int n, uint8_t s)
    {
        for (int i = 0; i < n; i++)
            if (a + i >= 0 && a + i < (int64_t)mem.size()) { st[a + i] = s; tok[a + i] = 0; }
    }
    void putTok(uint32_t a, int32_t ret)
    {
        tokRet.push_back(ret);
        uint32_t id = (uint32_t)tokRet.size() - 1;
        for (int i = 0; i < 4; i++) { st[a + i] = 1; tok[a + i] = id * 4 + i; mem[a + i] = 0; }
    }
    bool getTok(uint32_t a, int32_t& ret)
    {
        uint32_t id = tok[a] / 4;
        if (!id) return false;
        for (uint32_t i = 0; i < 4; i++)
            if (tok[a + i] != id * 4 + i) return false;
        ret = tokRet[id];
        return true;
    }
    Val ld(uint32_t a, int n)
    { // a is masked
        Val r{0, true};
        uint32_t v = 0;
        for (int i = 0; i < n; i++)
        {
            if (a + i >= size) r.def = false; // beyond the end: not specified
            if (st[a + i]) r.def = false;
            v |= (uint32_t)mem[a + i] << (8 * i);
        }
        r.v = (int32_t)v;
        if (a + n > size) cover |= 1ull << 40;
        return r;
    }
    void stv(uint32_t a, int n, Val v)
    {
        for (int i = 0; i < n; i++)
        {
            mem[a + i] = (uint8_t)((uint32_t)v.v >> (8 * i));
            st[a + i] = (v.def && a + i < size) ? 0 : 1;
            tok[a + i] = 0;
        }
        if (a + n > size) cover |= 1ull << 41;
    }

    Outcome unspec(const char* w) { why = w; return R_UNSPEC; }
    Outcome err(uint32_t m, const char* w) { why = w; errMask = m; return R_ERR; }

    // one VM_Call. All 13 arguments are given.
    Outcome call(const Val* args, Val& ret)
    {
        int spEntry = sp;
        depth++;
        if (depth > maxDepth) maxDepth = depth;
        Outcome o = run(args, ret);
        if (o == R_ERR) errs.push_back(errMask);
        depth--;
        sp = spEntry;
        return o;
    }

    Outcome run(const Val* args, Val& ret)
    {
        std::vector<Val> os; // operand stack, without the sentinel
        ret = {-1, true};
        int64_t p = (int64_t)sp - FRAME0;
        const int64_t top = p;
        if (p < bottom) return err(ebit(E_STACKOVF), "entry stack overflow");
        for (int i = 0; i < 13; i++) stv((uint32_t)(p + 8 + 4 * i), 4, args[i]);
        putTok((uint32_t)p, -1);
        mark(p + 4, 4, 1);
        const uint32_t mask = size - 1;
        int64_t pc = 0;
        if (p <= bottom || (p & 3)) dbgUnspec = true;
        auto need = [&](size_t n) { return os.size() >= n; };
        for (;;)
        {
            if (++steps > budget) return R_STEPS;
            if (pc >= (int64_t)code.size()) return err(ebit(E_BADINS) | ebit(E_PC), "ran off the end of the code");
            if (wordIdx[pc] + 1 >= codeLength) dbgUnspec = true;
            const Ins in = code[pc];
            const int op = in.op;
            opCount[op]++;
            if (tracer) tracer->ins(pc, op, os.size());
            pc++;
            if (os.size() > 250) return unspec("operand stack overflow");
            if (op >= EQ && op <= GEF)
            {
                if (!need(2)) return unspec("operand stack underflow");
                Val b = os.back(); os.pop_back();
                Val a = os.back(); os.pop_back();
                if (!a.def || !b.def) return unspec("branch on unspecified value");
                int32_t x = a.v, y = b.v;
                uint32_t ux = (uint32_t)x, uy = (uint32_t)y;
                float fx = i2f(x), fy = i2f(y);
                bool t = false;
                switch (op)
                {
                case EQ: t = x == y; break;
                case NE: t = x != y; break;
                case LTI: t = x < y; break;
                case LEI: t = x <= y; break;
                case GTI: t = x > y; break;
                case GEI: t = x >= y; break;
                case LTU: t = ux < uy; break;
                case LEU: t = ux <= uy; break;
                case GTU: t = ux > uy; break;
                case GEU: t = ux >= uy; break;
                case EQF: t = fx == fy; break;
                case NEF: t = fx != fy; break;
                case LTF: t = fx < fy; break;
                case LEF: t = fx <= fy; break;
                case GTF: t = fx > fy; break;
                case GEF: t = fx >= fy; break;
                }
                nBranch++;
                if (t) { pc = in.v; nTaken++; }
                continue;
            }
            switch (op)
            {
            case UNDEF: return err(ebit(E_BADINS), "OP_UNDEF");
            case IGNORE:
            case BREAK: break;
            case ENTER:
            {
                int64_t np = (int64_t)(int32_t)((uint32_t)p - (uint32_t)in.v);
                if (np > top) return unspec("stack raised by ENTER");
                if (np < bottom) return err(ebit(E_STACKOVF), "stack overflow");
                if (np == bottom) dbgUnspec = true;
                if (np & 3) dbgUnspec = true;
                p = np;
                mark(p + 4, 4, 1);
                if (tracer) tracer->enter(pc - 1, os.size());
                break;
            }
            case LEAVE:
            {
                int64_t np = (int64_t)(int32_t)((uint32_t)p + (uint32_t)in.v);
                if (np > top || np < bottom) return unspec("stack raised by LEAVE");
                p = np;
                if (p & 3) dbgUnspec = true;
                int32_t r;
                if (!getTok((uint32_t)p, r)) return unspec("return address overwritten");
                if (tracer) tracer->leave(r, os.size());
                if (r == -1)
                {
                    if (p != top) return unspec("left from another frame");
                    if (os.size() != 1)
                    {
                        ret = {0, false};
                        return err(ebit(E_STACK), "operand stack not balanced");
                    }
                    ret = os.back();
                    return R_DONE;
                }
                pc = r;
                break;
            }
            case CALL:
            {
                if (!need(1)) return unspec("operand stack underflow");
                Val t = os.back();
                os.pop_back();
                if (!t.def) return unspec("call of unspecified value");
                putTok((uint32_t)p, (int32_t)pc);
                if (t.v < 0)
                {
                    if (p + 68 > (int64_t)size) return unspec("system call without frame");
                    nSys++;
                    int id = -1 - t.v;
                    mark(p + 4, 4, 1);
                    Val a[15];
                    for (int i = 0; i < 15; i++) a[i] = ld((uint32_t)(p + 8 + 4 * i), 4);
                    int save = sp;
                    sp = (int)(p - 4);
                    sysFail = R_DONE;
                    if (tracer) tracer->sysEnter(id, os.size());
                    Val r = sys(*this, id, a);
                    sp = save;
                    if (sysFail != R_DONE) return sysFail;
                    os.push_back(r);
                    int32_t rr;
                    if (!getTok((uint32_t)p, rr)) return unspec("return address overwritten");
                    if (tracer) tracer->sysLeave(rr, os.size());
                    break;
                }
                if (t.v >= (int64_t)code.size()) return err(ebit(E_PC), "call out of range");
                pc = t.v;
                break;
            }
            case PUSH: os.push_back({0, false}); break;
            case POP:
                if (!need(1)) return unspec("operand stack underflow");
                os.pop_back();
                break;
            case CONST: os.push_back({in.v, true}); break;
            case LOCAL: os.push_back({(int32_t)((uint32_t)in.v + (uint32_t)p), true}); break;
            case JUMP:
            {
                if (!need(1)) return unspec("operand stack underflow");
                Val t = os.back();
                os.pop_back();
                if (!t.def) return unspec("jump to unspecified value");
                if (t.v < 0 || t.v >= (int64_t)code.size()) return err(ebit(E_PC), "jump out of range");
                pc = t.v;
                break;
            }
            case LOAD1:
            case LOAD2:
            case LOAD4:
            {
                if (!need(1)) return unspec("operand stack underflow");
                Val& t = os.back();
                if (!t.def) return unspec("load from unspecified address");
                if (op == LOAD4 && (t.v & 3)) dbgUnspec = true;
                t = ld((uint32_t)t.v & mask, op == LOAD1 ? 1 : op == LOAD2 ? 2 : 4);
                break;
            }
            case STORE1:
            case STORE2:
            case STORE4:
            {
                if (!need(2)) return unspec("operand stack underflow");
                Val v = os.back(); os.pop_back();
                Val a = os.back(); os.pop_back();
                if (!a.def) return unspec("store to unspecified address");
                stv((uint32_t)a.v & mask, op == STORE1 ? 1 : op == STORE2 ? 2 : 4, v);
                break;
            }
            case ARG:
            {
                if (!need(1)) return unspec("operand stack underflow");
                Val v = os.back(); os.pop_back();
                stv((uint32_t)((int64_t)in.v + p) & mask, 4, v);
                break;
            }
            case BLOCK_COPY:
            {
                if (!need(2)) return unspec("operand stack underflow");
                Val s = os.back(); os.pop_back();
                Val d = os.back(); os.pop_back();
                if (!s.def || !d.def) return unspec("block copy with unspecified address");
                uint64_t sa = (uint32_t)s.v, da = (uint32_t)d.v;
                uint64_t n = in.v < 0 ? ~0ull : (uint64_t)in.v;
                bool bad = sa >= size || da >= size || n > size - sa || n > size - da;
                if (!bad && (n == size - sa || n == size - da)) return unspec("block copy up to the last byte");
                if (bad)
                {
                    errMask = ebit(E_BLOCKCOPY);
                    why = "block copy out of range";
                    blockErr = true;
                    return R_UNSPEC;
                }
                if (sa != da && n && sa < da + n && da < sa + n) return unspec("block copy with overlap");
                for (uint64_t i = 0; i < n; i++)
                {
                    uint8_t m = mem[sa + i], z = st[sa + i];
                    mem[da + i] = m;
                    st[da + i] = z;
                    tok[da + i] = sa == da ? tok[da + i] : 0;
                }
                break;
            }
            case SEX8: case SEX16: case NEGI: case BCOM: case NEGF: case CVIF: case CVFI:
            {
                if (!need(1)) return unspec("operand stack underflow");
                Val& t = os.back();
                switch (op)
                {
                case SEX8: t.v = (t.v & 0x80) ? (int32_t)(0xffffff00u | ((uint32_t)t.v & 0xff)) : (t.v & 0xff); break;
                case SEX16: t.v = (t.v & 0x8000) ? (int32_t)(0xffff0000u | ((uint32_t)t.v & 0xffff)) : (t.v & 0xffff); break;
                case NEGI: t.v = (int32_t)(0u - (uint32_t)t.v); break;
                case BCOM: t.v = ~t.v; break;
                case NEGF:
                    if (std::isnan(i2f(t.v))) t.def = false;
                    t.v = (int32_t)((uint32_t)t.v ^ 0x80000000u);
                    break;
                case CVIF: t.v = f2i((float)t.v); break;
                case CVFI:
                {
                    float f = i2f(t.v);
                    if (!(f > -2147483904.0f && f < 2147483648.0f)) { t.def = false; t.v = 0; }
                    else t.v = (int32_t)f;
                    break;
                }
                }
                break;
            }
            default:
            {
                if (!need(2)) return unspec("operand stack underflow");
                Val b = os.back(); os.pop_back();
                Val& a = os.back();
                uint32_t x = (uint32_t)a.v, y = (uint32_t)b.v;
                int32_t sx = a.v, sy = b.v;
                bool def = a.def && b.def;
                uint32_t r = 0;
                if (op >= DIVI && op <= MODU)
                {
                    if (!b.def) return unspec("division by unspecified value");
                    if (y == 0) return err(ANYERR, "division by zero");
                    if ((op == DIVI || op == MODI) && sy == -1 && (!a.def || sx == INT32_MIN)) { a = {0, false}; break; }
                }
                switch (op)
                {
                case ADD: r = x + y; break;
                case SUB: r = x - y; break;
                case DIVI: r = (uint32_t)(int32_t)((int64_t)sx / sy); break;
                case DIVU: r = x / y; break;
                case MODI: r = (uint32_t)(int32_t)((int64_t)sx % sy); break;
                case MODU: r = x % y; break;
                case MULI: case MULU: r = (uint32_t)((uint64_t)x * y); break;
                case BAND: r = x & y; break;
                case BOR: r = x | y; break;
                case BXOR: r = x ^ y; break;
                case LSH: if (y > 31) def = false; else r = x << y; break;
                case RSHU: if (y > 31) def = false; else r = x >> y; break;
                case RSHI:
                    if (y > 31) def = false;
                    else r = (uint32_t)((int64_t)sx >> y);
                    break;
                case ADDF: case SUBF: case DIVF: case MULF:
                {
                    volatile float f = i2f(sx), g = i2f(sy), h = 0;
                    if (op == ADDF) h = f + g;
                    if (op == SUBF) h = f - g;
                    if (op == DIVF) h = f / g;
                    if (op == MULF) h = f * g;
                    if (std::isnan((float)h)) def = false;
                    r = (uint32_t)f2i(h);
                    break;
                }
                default: return unspec("internal");
                }
                a = {(int32_t)r, def};
            }
            }
        }
    }
    Outcome sysFail = R_DONE; // set by the handler if a nested call did not end normally
    bool blockErr = false;
};
