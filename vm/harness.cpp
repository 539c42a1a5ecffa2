// Runs generated bytecode on the real interpreter (vm.c, linked in) under
// monitors, next to the reference model.  See DESIGN.md.
//
//   vmh MODE SEED START COUNT OUT.jsonl PROGRESS [key=value ...]
//
// OUT.jsonl gets one line per violation and one line of statistics.
// PROGRESS (8 bytes) always holds the index of the current case, so that the
// driver can attribute a crash.
#include "gen.hpp"
extern "C" {
#include "vm.h"
}
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <memory>
#include <sstream>

typedef std::vector<uint8_t> Bytes;

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif

// Bookkeeping fields of vm_t that the monitors look at if they exist.
#define FIELD(name, missing) \
    template <class T> static auto f_##name(const T* v, int) -> decltype((intptr_t)v->name) { return (intptr_t)v->name; } \
    template <class T> static intptr_t f_##name(const T*, long) { return missing; }
FIELD(callLevel, -1)
FIELD(programStack, 0)
FIELD(currentlyInterpreting, 0)
FIELD(codeBase, 0)
FIELD(instructionPointers, 0)
FIELD(stackBottom, 0)
FIELD(codeLength, 0)
FIELD(instructionCount, 0)
FIELD(systemCall, 0)

// ---------------------------------------------------------------- monitors
struct Alloc { uint8_t* raw; uint8_t* p; size_t n; int type; vm_t* vm; };
static const size_t RZ = 64;

struct SysRec { int64_t id; int64_t a[15]; uint8_t def[15]; };

struct Ctx {
    std::vector<int> errs;
    std::vector<SysRec> log;
    std::vector<Alloc> live;
    std::vector<std::string> bad; // monitor violations
    int fill = 0;
    int failAt = -1; // malloc number that fails
    int nAlloc = 0, nFree = 0;
    bool failed = false;
    std::vector<int> rangeErrs;
    bool inRange = false;
    int depth = 0;
    vm_t* other = nullptr;
    int32_t otherCalls = 0;
    size_t logCap = 20000;
    uint64_t argPtrChecks = 0, rangeChecks = 0;
    uint64_t allocTypes[8] = {0};
    int lastReported = 0;
    bool threads = false;
};
static thread_local Ctx* cx = nullptr;

static void monitor(const char* fmt, ...)
{
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (cx && cx->bad.size() < 5) cx->bad.push_back(b);
}

extern "C" void Com_Error(vmErrorCode_t level, const char* error)
{
    if (!error || !error[0]) monitor("Com_Error(%d) without text", (int)level);
    else if (strlen(error) > 4000) monitor("Com_Error text");
    if (!cx) return;
    if (cx->inRange) { cx->rangeErrs.push_back(level); return; }
    if (cx->errs.size() < 200000) cx->errs.push_back(level);
}

extern "C" void* Com_malloc(size_t size, vm_t* vm, vmMallocType_t type)
{
    Ctx* c = cx;
    int n = c->nAlloc++;
    if (size == 0) monitor("Com_malloc of 0 bytes");
    if (size > (1u << 30)) { monitor("Com_malloc of %zu bytes", size); return NULL; }
    if ((int)type < 0 || type >= VM_ALLOC_TYPE_MAX) monitor("Com_malloc with type %d", (int)type);
    else c->allocTypes[type]++;
    if (n == c->failAt) { c->failed = true; c->nAlloc--; return NULL; }
    Alloc a;
    a.n = size;
    a.type = type;
    a.vm = vm;
#ifdef HAVE_ASAN
    a.raw = a.p = (uint8_t*)malloc(size);
    memset(a.p, c->fill, size);
#else
    a.raw = (uint8_t*)malloc(size + 2 * RZ);
    a.p = a.raw + RZ;
    memset(a.raw, 0xC7, RZ);
    memset(a.p, c->fill, size);
    memset(a.p + size, 0xC7, RZ);
#endif
    if (type != VM_ALLOC_DEBUG)
        for (auto& l : c->live)
            if (l.type == type && l.vm == vm) monitor("second live allocation of type %d for one VM", (int)type);
    c->live.push_back(a);
    return a.p;
}

static void checkRedzones(const Alloc& a)
{
#ifndef HAVE_ASAN
    for (size_t i = 0; i < RZ; i++)
    {
        if (a.raw[i] != 0xC7) { monitor("byte %zu before a block of type %d overwritten", RZ - i, a.type); break; }
        if (a.p[a.n + i] != 0xC7) { monitor("byte %zu behind a block of type %d overwritten", i, a.type); break; }
    }
#else
    (void)a;
#endif
}

extern "C" void Com_free(void* p, vm_t* vm, vmMallocType_t type)
{
    Ctx* c = cx;
    for (size_t i = 0; i < c->live.size(); i++)
        if (c->live[i].p == p)
        {
            Alloc a = c->live[i];
            if (a.type != (int)type) monitor("Com_free with type %d, allocated as %d", (int)type, a.type);
            if (a.vm != vm) monitor("Com_free for another VM");
            checkRedzones(a);
            c->live.erase(c->live.begin() + i);
            free(a.raw);
            c->nFree++;
            return;
        }
    monitor("Com_free of a pointer that is not live (type %d)", (int)type);
}

// ------------------------------------------------- host functions, both sides
static uint32_t mix(uint32_t h, uint32_t v)
{
    h ^= v + 0x9e3779b9u + (h << 6) + (h >> 2);
    return h * 0x85ebca6bu;
}

struct RefEnv {
    RefVM& v;
    const Val* a;
    Ctx& log; // log of the model
    Val arg(int i) { return a[i]; }
    bool needDef(const Val& x)
    {
        if (!x.def && v.sysFail == R_DONE) { v.sysFail = v.unspec("host function with unspecified argument"); }
        return x.def;
    }
    Val peek(int32_t addr, int n)
    {
        Val r{0, true};
        for (int i = 0; i < n; i++)
        {
            uint32_t ad = ((uint32_t)addr + i) & (v.size - 1);
            r.v = (int32_t)((uint32_t)r.v | (uint32_t)v.mem[ad] << (8 * i));
            if (v.st[ad]) r.def = false;
        }
        return r;
    }
    void poke(int32_t addr, int n, Val x)
    {
        for (int i = 0; i < n; i++)
        {
            uint32_t ad = ((uint32_t)addr + i) & (v.size - 1);
            v.mem[ad] = (uint8_t)((uint32_t)x.v >> (8 * i));
            v.st[ad] = x.def ? 0 : 1;
            v.tok[ad] = 0;
        }
    }
    Val callVM(const Val* args)
    {
        Val r{0, true};
        Outcome o = v.call(args, r);
        if (o == R_UNSPEC || o == R_STEPS) v.sysFail = o;
        else if (o == R_ERR && !(v.errMask & ~ebit(E_STACK))) r.def = false;
        else if (o == R_ERR) r = {-1, true};
        return r;
    }
    void freeVM() { v.errs.push_back(ebit(-4)); }
    Val range(int32_t addr, int32_t len)
    {
        if (addr == 0) return {0, true};
        uint64_t d = (uint32_t)addr, n = (uint64_t)(int64_t)len;
        if (addr < 0 || d >= v.size || n > v.size - d) return {0, true};
        if (n == v.size - d) return {0, false};
        return {1, true};
    }
    int32_t otherCalls() { return log.otherCalls; }
    Val callOther(Val x)
    {
        log.otherCalls++;
        return {(int32_t)((uint32_t)x.v * 3u + (uint32_t)log.otherCalls), x.def};
    }
    Val wide(Val x) { return x; }
    int& depth() { return log.depth; }
};

struct RealEnv {
    vm_t* vm;
    intptr_t* args;
    intptr_t wideRet = 0;
    bool isWide = false;
    Val arg(int i) { return {(int32_t)args[i + 1], true}; }
    bool needDef(const Val&) { return true; }
    uint8_t* at(int32_t addr)
    {
        uint32_t ad = (uint32_t)addr & (uint32_t)vm->dataMask;
        if (addr == 0) return vm->dataBase; // VM_ArgPtr(0) is NULL
        uint8_t* p = (uint8_t*)VM_ArgPtr(addr, vm);
        cx->argPtrChecks++;
        if (p != vm->dataBase + ad) { monitor("VM_ArgPtr(%d): outside or wrong address", addr); return vm->dataBase; }
        return p;
    }
    Val peek(int32_t addr, int n)
    {
        uint32_t r = 0;
        for (int i = 0; i < n; i++) r |= (uint32_t)*at((int32_t)((uint32_t)addr + i)) << (8 * i);
        return {(int32_t)r, true};
    }
    void poke(int32_t addr, int n, Val x)
    {
        for (int i = 0; i < n; i++) *at((int32_t)((uint32_t)addr + i)) = (uint8_t)((uint32_t)x.v >> (8 * i));
    }
    Val callVM(const Val* a)
    {
        int32_t t[13];
        for (int i = 0; i < 13; i++) t[i] = a[i].v;
        intptr_t r = VM_Call(vm, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12]);
        if (r != (int32_t)r) monitor("nested VM_Call returned %lld", (long long)r);
        return {(int32_t)r, true};
    }
    void freeVM()
    {
        uint8_t* d = vm->dataBase;
        size_t n = cx->live.size();
        VM_Free(vm);
        if (vm->dataBase != d || cx->live.size() != n) { monitor("VM_Free released a running VM"); }
    }
    Val range(int32_t addr, int32_t len)
    {
        cx->inRange = true;
        cx->rangeErrs.clear();
        int v = VM_MemoryRangeValid(addr, (size_t)(intptr_t)len, vm);
        cx->inRange = false;
        cx->rangeChecks++;
        if (v != 0 && v != -1) monitor("VM_MemoryRangeValid returned %d", v);
        if (v == 0 && !cx->rangeErrs.empty()) monitor("VM_MemoryRangeValid: valid, but reported error");
        if (v != 0 && addr != 0 && (cx->rangeErrs.size() != 1 || cx->rangeErrs[0] != VM_DATA_OUT_OF_RANGE))
            monitor("VM_MemoryRangeValid: invalid range not reported as VM_DATA_OUT_OF_RANGE");
        return {v == 0 ? 1 : 0, true};
    }
    Val callOther(Val x)
    {
        intptr_t r = VM_Call(cx->other, x.v, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
        return {(int32_t)r, true};
    }
    Val wide(Val x)
    {
        isWide = true;
        wideRet = (intptr_t)(0x5a5a5a5a00000000ull | (uint32_t)x.v);
        return x;
    }
    int& depth() { return cx->depth; }
};

template <class E> static Val sysImpl(E& e, int64_t id)
{
    switch (id)
    {
    case SYS_HASH:
    {
        Val x = e.arg(0);
        return {(int32_t)mix(17, (uint32_t)x.v), x.def};
    }
    case SYS_ARGS:
    {
        uint32_t h = 1;
        bool d = true;
        for (int i = 0; i < 15; i++) { Val x = e.arg(i); h = mix(h, (uint32_t)x.v); d = d && x.def; }
        return {(int32_t)h, d};
    }
    case SYS_POKE:
    {
        Val ad = e.arg(0), x = e.arg(1);
        if (!e.needDef(ad)) return {0, false};
        e.poke(ad.v, 4, x);
        return {ad.v, true};
    }
    case SYS_PEEK:
    {
        Val ad = e.arg(0);
        if (!e.needDef(ad)) return {0, false};
        return e.peek(ad.v, 4);
    }
    case SYS_CALL:
    {
        Val a[13];
        for (int i = 0; i < 3; i++) a[i] = e.arg(i);
        for (int i = 3; i < 13; i++) a[i] = {i * 1000 - 5000, true};
        if (e.depth() >= 3) return {-77, true};
        e.depth()++;
        Val r = e.callVM(a);
        e.depth()--;
        return r;
    }
    case SYS_FLOAT:
    {
        Val x = e.arg(0), y = e.arg(1);
        // bit patterns have to survive the conversions
        int32_t bx = VM_FloatToInt(VM_IntToFloat(x.v)), by = (int32_t)((uint32_t)f2i(VM_IntToFloat(y.v)) << 1);
        return {bx ^ by, x.def && y.def};
    }
    case SYS_FREE: e.freeVM(); return {4, true};
    case SYS_RANGE:
    {
        Val ad = e.arg(0), n = e.arg(1);
        if (!e.needDef(ad) || !e.needDef(n)) return {0, false};
        return e.range(ad.v, n.v);
    }
    case SYS_OTHER: { Val x = e.arg(0); if (!e.needDef(x)) return {0, false}; return e.callOther(x); }
    case SYS_WIDE: return e.wide(e.arg(0));
    case SYS_FILL:
    {
        Val ad = e.arg(0), x = e.arg(1), n = e.arg(2);
        if (!e.needDef(ad) || !e.needDef(n)) return {0, false};
        if (n.v < 0 || n.v > 64) return {-1, true};
        for (int i = 0; i < n.v; i++) e.poke((int32_t)((uint32_t)ad.v + i), 1, {x.v & 255, x.def});
        return {n.v, true};
    }
    default: return {(int32_t)(id * 7 + 1), true};
    }
}

static intptr_t realSys(vm_t* vm, intptr_t* args)
{
    SysRec rec;
    rec.id = args[0];
    for (int i = 0; i < 15; i++) { rec.a[i] = args[i + 1]; rec.def[i] = 1; }
    if (cx->log.size() < cx->logCap) cx->log.push_back(rec);
    if (f_callLevel(vm, 0) == 0) monitor("callLevel 0 inside of a system call");
    RealEnv e{vm, args};
    // "other" needs a second VM
    if (args[0] == SYS_OTHER && !cx->other) return 0;
    Val r = sysImpl(e, args[0]);
    if (e.isWide) return e.wideRet;
    return (intptr_t)r.v;
}

static void bindRef(RefVM& m, Ctx& log, bool hasOther)
{
    m.sys = [&log, hasOther](RefVM& v, int id, const Val* a) -> Val {
        SysRec rec;
        rec.id = id;
        for (int i = 0; i < 15; i++) { rec.a[i] = a[i].v; rec.def[i] = a[i].def; }
        if (log.log.size() < log.logCap) log.log.push_back(rec);
        if (id == SYS_OTHER && !hasOther) return {0, true};
        RefEnv e{v, a, log};
        return sysImpl(e, id);
    };
}

// ------------------------------------------------------------- image memory
// The host's image: read-only, at the end of a page (ro) or the exact heap size.
struct HostImage {
    uint8_t* map = nullptr;
    size_t mapLen = 0;
    uint8_t* p = nullptr;
    bool heap;
    HostImage(const Bytes& b, bool useHeap) : heap(useHeap)
    {
        if (heap)
        {
            p = (uint8_t*)malloc(b.size() ? b.size() : 1);
            memcpy(p, b.data(), b.size());
            return;
        }
        size_t pg = 4096, n = (b.size() + pg - 1) / pg * pg;
        mapLen = n + pg;
        map = (uint8_t*)mmap(NULL, mapLen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        p = map + n - b.size();
        memcpy(p, b.data(), b.size());
        mprotect(map, n ? n : pg, PROT_READ);
        mprotect(map + n, pg, PROT_NONE);
    }
    ~HostImage()
    {
        if (heap) free(p);
        else munmap(map, mapLen);
    }
    HostImage(const HostImage&) = delete;
};

// ------------------------------------------------------------------ timeout
// A run that takes too long is ended by replacing its code with OP_UNDEF: the
// interpreter then returns by itself.
static uint8_t* volatile cutCode = nullptr;
static volatile size_t cutLen = 0;
static volatile sig_atomic_t cutOff = 0;
static void onAlarm(int)
{
    if (cutCode)
    {
        cutOff = 1;
        memset(cutCode, 0, cutLen);
    }
}
static void arm(int ms)
{
    struct itimerval t = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}};
    setitimer(ITIMER_VIRTUAL, &t, NULL);
}

// scribble on the stack below us, so that uninitialised host memory differs
static __attribute__((noinline)) void scribble(int v)
{
    volatile uint8_t b[6000];
    for (size_t i = 0; i < sizeof b; i++) b[i] = (uint8_t)v;
}

// -------------------------------------------------------------------- cases
struct Viol { std::string kind, detail; };

struct Case {
    Bytes img;
    std::vector<std::vector<int32_t>> calls; // 13 arguments each
    bool other = false;
    std::string text;
};

static Bytes otherImage()
{ // counter in data[4]; returns arg * 3 + ++counter
    Image im;
    im.data.assign(8, 0);
    auto& c = im.code;
    c = {{ENTER, 16}, {CONST, 4}, {CONST, 4}, {LOAD4, 0}, {CONST, 1}, {ADD, 0}, {STORE4, 0},
         {LOCAL, 24}, {LOAD4, 0}, {CONST, 3}, {MULI, 0}, {CONST, 4}, {LOAD4, 0}, {ADD, 0}, {LEAVE, 16}};
    return im.encode();
}

struct CallRes { Outcome o; Val ret; size_t nErr, nLog; std::string why; };

struct RefRun {
    RefVM m;
    Ctx log;
    bool accepted = false;
    std::vector<CallRes> res;
    // state after each call (only the last needed, but errors do not end the VM)
    std::vector<std::vector<uint8_t>> mem, st;
};

static void runRef(const Case& c, RefRun& R, int64_t budget, bool keepMem)
{
    R.accepted = R.m.load(c.img.data(), (int64_t)c.img.size());
    if (!R.accepted) return;
    bindRef(R.m, R.log, c.other);
    R.m.budget = budget;
    for (auto& a : c.calls)
    {
        Val args[13], ret;
        for (int i = 0; i < 13; i++) args[i] = {a[i], true};
        R.m.steps = 0;
        R.m.sysFail = R_DONE;
        R.log.depth = 0;
        Outcome o = R.m.call(args, ret);
        R.res.push_back({o, ret, R.m.errs.size(), R.log.log.size(), o == R_DONE ? "" : R.m.why});
        if (keepMem) { R.mem.push_back(R.m.mem); R.st.push_back(R.m.st); }
        if (o == R_UNSPEC || o == R_STEPS) break;
    }
}

struct RealRun {
    int created = -2;
    std::vector<int64_t> ret;
    std::vector<size_t> nErr, nLog;
    std::vector<int> lastErr;
    std::vector<std::vector<uint8_t>> mem;
    std::vector<uint8_t> initMem;
    bool timeout = false;
    uint32_t mask = 0;
    Ctx ctx;
};

// the real machine; nCalls: how many of the calls
static void runReal(const Case& c, size_t nCalls, int fill, bool heapImage, int ms, RealRun& X, bool keepMem)
{
    cx = &X.ctx;
    cx->fill = fill;
    HostImage hi(c.img, heapImage);
    std::unique_ptr<HostImage> ohi;
    static Bytes oi = otherImage();
    vm_t* vm = (vm_t*)malloc(sizeof(vm_t));
    memset(vm, fill ^ 0x5a, sizeof *vm);
    vm_t* ovm = nullptr;
    scribble(fill);
    X.created = VM_Create(vm, "case.qvm", hi.p, (int)c.img.size(), realSys);
    if (X.created != 0)
    {
        if (X.created != -1) monitor("VM_Create returned %d", X.created);
        if (!cx->live.empty()) monitor("%zu allocations left after a failed VM_Create", cx->live.size());
        if (cx->errs.empty()) monitor("VM_Create failed without Com_Error");
        else
        {
            bool known = false;
            for (int e : cx->errs) known = known || e == (int)vm->lastError;
            if (!known || vm->lastError == VM_NO_ERROR)
                monitor("lastError is %d after a failed VM_Create that reported %d", (int)vm->lastError, cx->errs.back());
        }
        // the VM is not loaded: a call has to be refused
        size_t n = cx->errs.size();
        intptr_t r = VM_Call(vm, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
        if (r != -1 || cx->errs.size() != n + 1 || cx->errs.back() != VM_NOT_LOADED)
            monitor("VM_Call on a VM that was not loaded returned %lld", (long long)r);
        VM_Free(vm);
        VM_Free(vm);
        if (!cx->live.empty()) monitor("allocations left");
        free(vm);
        cx = nullptr;
        return;
    }
    if (!cx->errs.empty()) monitor("VM_Create succeeded, but reported error %d", cx->errs[0]);
    if (c.other)
    {
        ohi.reset(new HostImage(oi, false));
        ovm = (vm_t*)malloc(sizeof(vm_t));
        if (VM_Create(ovm, "other", ohi->p, (int)oi.size(), realSys) != 0) monitor("second VM not created");
        cx->other = ovm;
    }
    X.mask = (uint32_t)vm->dataMask;
    X.initMem.assign(vm->dataBase, vm->dataBase + (size_t)X.mask + 4);
    // objects of the host that the bytecode must not change
    std::vector<std::pair<Alloc, Bytes>> snap;
    uint8_t* codeMem = nullptr;
    size_t codeLen = 0;
    for (auto& a : cx->live)
        if (a.type == VM_ALLOC_CODE_SEC && a.vm == vm) { codeMem = a.p; codeLen = a.n; }
    for (auto& a : cx->live)
        if (a.type != VM_ALLOC_DATA_SEC && a.type != VM_ALLOC_DEBUG && a.vm == vm) snap.push_back({a, Bytes(a.p, a.p + a.n)});
    const vm_t before = *vm;
    for (size_t k = 0; k < nCalls; k++)
    {
        const auto& a = c.calls[k];
        scribble(fill);
        cutLen = codeLen;
        cutOff = 0;
        cutCode = codeMem;
        arm(ms);
        intptr_t r = VM_Call(vm, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
        arm(0);
        cutCode = nullptr;
        if (cutOff)
        {
            X.timeout = true;
            break;
        }
        if (r != (intptr_t)(int32_t)r) monitor("VM_Call returned %lld, not a 32-bit value", (long long)r);
        X.ret.push_back(r);
        X.nErr.push_back(cx->errs.size());
        X.nLog.push_back(cx->log.size());
        X.lastErr.push_back((int)vm->lastError);
        if (keepMem || k + 1 == nCalls) X.mem.push_back(Bytes(vm->dataBase, vm->dataBase + (size_t)X.mask + 4));
        if (f_callLevel(vm, 0) > 0) monitor("callLevel %d after VM_Call", (int)f_callLevel(vm, 0));
        if (f_currentlyInterpreting(vm, 0) != f_currentlyInterpreting(&before, 0)) monitor("VM is still marked as running after VM_Call");
        if (f_programStack(vm, 0) != f_programStack(&before, 0)) monitor("program stack is %d after VM_Call, was %d", (int)f_programStack(vm, 0), (int)f_programStack(&before, 0));
#define SAME(name) (f_##name(vm, 0) == f_##name(&before, 0))
        if (vm->dataBase != before.dataBase || vm->dataMask != before.dataMask || !SAME(codeBase) || !SAME(instructionPointers) ||
            !SAME(systemCall) || !SAME(stackBottom) || !SAME(codeLength) || !SAME(instructionCount))
            monitor("vm_t changed by the bytecode");
        if (vm->dataBase[(size_t)X.mask + 4]) monitor("the zero byte behind the VM memory was overwritten");
        for (auto& s : snap)
            if (memcmp(s.first.p, s.second.data(), s.first.n)) monitor("bytecode changed host memory of type %d", s.first.type);
        for (auto& l : cx->live) checkRedzones(l);
        if (memcmp(hi.p, c.img.data(), c.img.size())) monitor("image of the host changed");
    }
    VM_Free(vm);
    if (ovm) VM_Free(ovm);
    if (!cx->live.empty()) monitor("%zu allocations left after VM_Free", cx->live.size());
    if (vm->dataBase || f_codeBase(vm, 0) || f_instructionPointers(vm, 0)) monitor("dangling pointers after VM_Free");
    size_t nf = cx->nFree;
    VM_Free(vm);
    if ((size_t)cx->nFree != nf) monitor("second VM_Free released something");
    free(vm);
    free(ovm);
    cx = nullptr;
}

static std::string fmt(const char* f, ...)
{
    char b[1000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// compare; returns "" or the difference
static Viol compare(const Case& c, const RefRun& R, const RealRun& X)
{
    if (!X.ctx.bad.empty()) return {"monitor", X.ctx.bad[0]};
    if (!R.accepted)
    {
        if (X.created == 0) return {"loader-accepted", "malformed image was accepted"};
        return {};
    }
    if (X.created != 0) return {"loader-rejected", fmt("well-formed image was rejected with error %d", X.ctx.errs.empty() ? 0 : X.ctx.errs.back())};
    if (X.mask + 1 != R.m.size) return {"data-size", fmt("data size %u, expected %u", X.mask + 1, R.m.size)};
    size_t le = 0, ll = 0;
    for (size_t k = 0; k < R.res.size(); k++)
    {
        const CallRes& q = R.res[k];
        if (q.o == R_STEPS) return {};
        bool last = q.o == R_UNSPEC;
        if (X.timeout && k >= X.ret.size())
        {
            if (last) return {};
            return {"hang", fmt("call %zu does not return; the model needs %lld steps", k, (long long)R.m.steps)};
        }
        if (k >= X.ret.size()) return {"internal", "missing call"};
        // host function calls
        size_t n = q.nLog;
        for (size_t i = ll; i < n && i < R.log.log.size(); i++)
        {
            if (i >= X.nLog[k]) return {"syscall-missing", fmt("call %zu: system call %zu (id %lld) did not happen", k, i, (long long)R.log.log[i].id)};
            const SysRec &a = R.log.log[i], &b = X.ctx.log[i];
            if (a.id != b.id) return {"syscall-id", fmt("call %zu: system call %zu has id %lld, expected %lld", k, i, (long long)b.id, (long long)a.id)};
            for (int j = 0; j < 15; j++)
                if (a.def[j] && a.a[j] != b.a[j])
                    return {"syscall-arg", fmt("call %zu: system call %zu (id %lld): argument %d is %lld, expected %lld", k, i, (long long)a.id, j, (long long)b.a[j], (long long)a.a[j])};
        }
        if (!last && X.nLog[k] != n) return {"syscall-extra", fmt("call %zu: %zu system calls, expected %zu", k, X.nLog[k], n)};
        // errors
        for (size_t i = le; i < q.nErr; i++)
        {
            if (i >= X.nErr[k]) return {"error-missing", fmt("call %zu: expected error (%s) was not reported", k, q.why.c_str())};
            if (!(R.m.errs[i] & ebit(X.ctx.errs[i]))) return {"error-code", fmt("call %zu: error %d reported, allowed set %x (%s)", k, X.ctx.errs[i], R.m.errs[i], q.why.c_str())};
        }
        if (last)
        {
            if (R.m.blockErr && (X.nErr[k] <= q.nErr || X.ctx.errs[q.nErr] != E_BLOCKCOPY))
                return {"blockcopy", "block copy out of range was not reported"};
            return {};
        }
        if (X.nErr[k] != q.nErr) return {"error-extra", fmt("call %zu: unexpected error %d", k, X.ctx.errs[q.nErr])};
        if (q.nErr && X.lastErr[k] != X.ctx.errs[q.nErr - 1]) return {"lasterror", fmt("call %zu: lastError is %d, reported was %d", k, X.lastErr[k], X.ctx.errs[q.nErr - 1])};
        if (!q.nErr && X.lastErr[k] != 0) return {"lasterror", fmt("call %zu: lastError is %d without an error", k, X.lastErr[k])};
        // return value
        if (q.ret.def && X.ret[k] != q.ret.v) return {"return", fmt("call %zu returned %lld, expected %d", k, (long long)X.ret[k], q.ret.v)};
        le = q.nErr;
        ll = n;
        if (k < R.mem.size() && k < X.mem.size())
        {
            const auto &rm = R.mem[k], &rs = R.st[k], &xm = X.mem[k];
            if (memcmp(rm.data(), xm.data(), R.m.size) != 0)
                for (uint32_t i = 0; i < R.m.size; i++)
                    if (!rs[i] && rm[i] != xm[i])
                        return {"memory", fmt("after call %zu: byte %u of the VM memory (size %u, stack pointer %d) is %02x, expected %02x", k, i, R.m.size, R.m.sp, xm[i], rm[i])};
        }
    }
    return {};
}

static Viol compareRuns(const RealRun& A, const RealRun& B)
{
    if (A.timeout || B.timeout) return {};
    if (A.created != B.created) return {"nondeterministic", "VM_Create"};
    if (A.ret != B.ret)
        for (size_t i = 0; i < A.ret.size() && i < B.ret.size(); i++)
            if (A.ret[i] != B.ret[i]) return {"nondeterministic", fmt("return value of call %zu: %lld or %lld, depending on host memory", i, (long long)A.ret[i], (long long)B.ret[i])};
    if (A.ctx.errs != B.ctx.errs) return {"nondeterministic", "reported errors depend on host memory"};
    if (A.ctx.log.size() != B.ctx.log.size()) return {"nondeterministic", "number of system calls depends on host memory"};
    for (size_t i = 0; i < A.ctx.log.size(); i++)
        if (A.ctx.log[i].id != B.ctx.log[i].id || memcmp(A.ctx.log[i].a, B.ctx.log[i].a, sizeof A.ctx.log[i].a))
            return {"nondeterministic", fmt("system call %zu depends on host memory", i)};
    if (A.initMem != B.initMem) return {"nondeterministic", "initial VM memory depends on host memory"};
    for (size_t k = 0; k < A.mem.size() && k < B.mem.size(); k++)
        if (A.mem[k] != B.mem[k]) return {"nondeterministic", fmt("VM memory after call %zu depends on host memory", k)};
    return {};
}

// ------------------------------------------------------------------- modes
static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

struct Stats {
    uint64_t evaluations = 0, spec = 0, unspec = 0, steps = 0, rejected = 0, errRuns = 0, skipped = 0, timeouts = 0;
    uint64_t instr = 0, syscalls = 0, branches = 0, taken = 0, calls = 0, nested = 0, argPtr = 0, ranges = 0;
    uint64_t ops[NOPS] = {0};
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> why;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> extra;
};
static Stats S;
static std::string MODE;
static std::map<std::string, std::string> OPT;
static int opti(const char* k, int d) { auto i = OPT.find(k); return i == OPT.end() ? d : atoi(i->second.c_str()); }

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

static std::vector<int32_t> randArgs(Rng& r)
{
    std::vector<int32_t> a(13);
    for (auto& x : a) x = r.p(30) ? edgeFlt(r) : edgeInt(r);
    return a;
}

// overflow-prone, lying or damaged headers
static void damageHeader(Rng& r, Bytes& b)
{
    if (b.size() < 32) return;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++)
    {
        int f = r.below(8);
        if (f == 0 && r.p(80)) f = 1 + r.below(7);
        int32_t old = RefVM::rd32(&b[4 * f]);
        int32_t len = (int32_t)b.size();
        int32_t v = 0;
        switch (r.below(10))
        {
        case 0: v = (int32_t)((uint32_t)old + (uint32_t)r.range(-5, 5)); break;
        case 1: v = edgeInt(r); break;
        case 2: v = len + r.range(-3, 3); break;
        case 3: v = 0x7fffffff - r.below(100); break;
        case 4: v = (int32_t)(0x80000000u + (uint32_t)r.below(100)); break;
        case 5: v = (int32_t)(0x7fffffffu - (uint32_t)RefVM::rd32(&b[4 * r.range(1, 7)]) + (uint32_t)r.range(-2, 3)); break;
        case 6: v = (int32_t)(0u - (uint32_t)old); break;
        case 7: v = (int32_t)((uint32_t)len - (uint32_t)RefVM::rd32(&b[4 * r.range(1, 7)]) + (uint32_t)r.range(-2, 2)); break;
        case 8: v = (int32_t)((uint32_t)old ^ (1u << r.below(32))); break;
        case 9: v = 10485760 + r.range(-1, 2); break;
        }
        for (int k = 0; k < 4; k++) b[4 * f + k] = (uint8_t)((uint32_t)v >> (8 * k));
    }
}

static GenOpt profile(const std::string& mode, Rng& r)
{
    GenOpt o;
    if (mode == "sem") { o.floatPct = r.range(0, 60); o.sysPct = 4; o.funcs = 3; o.stmts = 10; }
    else if (mode == "ctl") { o.callPct = 25; o.faults = r.p(50); o.funcs = 7; o.stmts = 7; o.floatPct = 15; }
    else if (mode == "sys") { o.sysPct = 40; o.stmts = 8; o.others = r.p(30); }
    else if (mode == "call") { o.sysPct = 25; o.others = r.p(60); o.funcs = 5; o.callPct = 20; }
    else if (mode == "err") { o.faults = true; o.stmts = 12; o.sysPct = 15; }
    else if (mode == "range") { o.sysPct = 20; o.blockPct = 12; }
    else { o.faults = r.p(40); o.others = r.p(20); o.smallData = r.p(20); o.deep = r.p(10); o.floatPct = r.range(0, 60); }
    if (r.p(8)) o.deep = true;
    if (r.p(8)) o.smallData = true;
    if (r.below(60) == 0) o.bigCode = true;
    return o;
}

// deep recursion through the end of the program stack
static Image genDeep(Rng& r)
{
    Image im;
    im.data.assign(64, 1);
    im.bss = 0x10000 + r.below(200000);
    int frame = r.p(50) ? 8 + 4 * r.below(20) : 4 * r.range(2, 5000);
    if (r.p(5)) frame = 0x10000 + 4 * r.range(-20, 20);
    int n = r.p(70) ? 1000000 : r.range(1, 3000);
    auto& c = im.code;
    c = {{ENTER, 76}, {CONST, n}, {ARG, 8}, {CONST, 6}, {CALL, 0}, {LEAVE, 76},
         // f(n): if (n <= 0) return 7; g[16] = n; return f(n - 1) + 1
         {ENTER, frame}, {LOCAL, frame + 8}, {LOAD4, 0}, {CONST, 0}, {GTI, 13}, {CONST, 7}, {LEAVE, frame},
         {CONST, 16}, {LOCAL, frame + 8}, {LOAD4, 0}, {STORE4, 0}};
    int k = r.below(4);
    if (frame < 12 && k < 3) { c[6].v = c[12].v = frame = 12; c[7].v = c[14].v = 20; }
    if (k < 3)
    {
        std::vector<Ins> t = {{LOCAL, frame + 8}, {LOAD4, 0}, {CONST, 1}, {SUB, 0}, {ARG, 8}, {CONST, 6}, {CALL, 0}, {CONST, 1}, {ADD, 0}, {LEAVE, frame}};
        c.insert(c.end(), t.begin(), t.end());
    }
    else
    { // recursion without arguments: endless
        std::vector<Ins> t = {{CONST, 6}, {CALL, 0}, {LEAVE, frame}};
        c[10].v = 11;
        c[11] = {IGNORE, 0};
        c[12] = {IGNORE, 0};
        c.insert(c.end(), t.begin(), t.end());
    }
    return im;
}

static Case makeCase(const std::string& mode, uint64_t seed, uint64_t idx, std::vector<Ins>* code)
{
    Rng r(seed * 0x100000001b3ull ^ idx * 0x9e3779b97f4a7c15ull ^ fnv(mode.data(), mode.size()));
    Case c;
    Image im;
    int kind = r.below(100);
    int soup = mode == "confine" ? 65 : mode == "loader" ? 30 : mode == "det" ? 40 : mode == "ctl" ? 20 : mode == "err" ? 25 : mode == "cfg" ? 20 : mode == "range" ? 15 : 5;
    if (mode == "ctl" || mode == "err" || mode == "confine" || mode == "cfg")
    {
        if (kind >= 95) { im = genDeep(r); c.text = "deep recursion"; goto done; }
    }
    if (kind < soup) { im = genSoup(r, mode != "sem" && r.p(60)); c.text = "instruction soup"; }
    else
    {
        GenOpt o = profile(mode, r);
        Gen g(r, o);
        im = g.build();
        c.other = o.others;
        c.text = "structured program";
    }
    if ((mode == "confine" || mode == "det" || mode == "err") && r.p(30))
    { // a few damaged instructions
        int n = r.range(1, 4);
        for (int i = 0; i < n && !im.code.empty(); i++)
        {
            Ins& x = im.code[r.below((int)im.code.size())];
            if (r.p(50)) x.op = r.below(NOPS);
            else if (opOperand(x.op) == 4) x.v = r.p(50) ? edgeInt(r) : (int32_t)((uint32_t)x.v + (uint32_t)r.range(-4, 4));
            if (x.op >= EQ && x.op <= GEF) x.v = r.below((int)im.code.size());
        }
        c.text += ", damaged";
    }
done:
    if (code) *code = im.code;
    if (mode == "loader" && r.p(20)) im.icDelta = r.range(-3, 3);
    c.img = im.encode();
    if (mode == "loader")
    {
        int k = r.below(10);
        if (k < 4) damageHeader(r, c.img);
        else if (k < 6) c.img.resize(r.below((int)c.img.size() + 1));
        else if (k < 8) for (int i = r.range(1, 6); i > 0; i--) c.img[r.below((int)c.img.size())] = (uint8_t)r.u32();
        else if (k == 8) { size_t n = c.img.size(); c.img.resize(n + r.below(40), (uint8_t)r.u32()); damageHeader(r, c.img); }
        if (r.p(2)) c.img.resize(r.below(40));
        if (r.p(1) && c.img.size() > 40) c.img.resize(0x400000 + r.range(-1, 2), 0);
        c.text += ", damaged image";
    }
    int n = mode == "loader" ? 1 : r.range(1, 3);
    if (mode == "call" || mode == "err") n = r.range(2, 4);
    for (int i = 0; i < n; i++) c.calls.push_back(randArgs(r));
    return c;
}

static void account(const Case& c, const RefRun& R)
{
    S.evaluations++;
    if (!R.accepted) { S.rejected++; }
    else
    {
        Outcome o = R.res.empty() ? R_DONE : R.res.back().o;
        if (o == R_STEPS) S.steps++;
        else if (o == R_UNSPEC) { S.unspec++; S.why[R.m.why]++; }
        else S.spec++;
        for (auto& q : R.res) if (q.o == R_ERR) { S.errRuns++; S.why["error: " + q.why]++; }
        for (int i = 0; i < NOPS; i++) { S.ops[i] += R.m.opCount[i]; S.instr += R.m.opCount[i]; }
        S.syscalls += R.m.nSys;
        S.branches += R.m.nBranch;
        S.taken += R.m.nTaken;
        S.calls += R.res.size();
        if (R.m.maxDepth > 1) S.nested++;
    }
    S.distinct.insert(fnv(c.img.data(), c.img.size()));
}

static std::string describe(const Case& c, const std::vector<Ins>& code)
{
    std::string s = c.text + fmt(", %zu bytes, %zu calls, first arguments %d %d: ", c.img.size(), c.calls.size(), c.calls[0][0], c.calls[0][1]);
    return s + disasm(code, 60);
}

static FILE* digestFile = nullptr;

static Viol doCase(uint64_t seed, uint64_t idx)
{
    std::vector<Ins> code;
    Case c = makeCase(MODE, seed, idx, &code);
    RefRun R;
    runRef(c, R, opti("budget", 30000), MODE != "det");
    account(c, R);
    if (S.samples.size() < 3 && R.accepted && !R.res.empty() && R.res.back().o == R_DONE && S.evaluations % 7 == 3)
        S.samples.push_back(describe(c, code));
    bool isSteps = !R.res.empty() && R.res.back().o == R_STEPS;
    bool isUn = !R.res.empty() && R.res.back().o == R_UNSPEC;
    bool dbg = opti("debugvm", 0);
    size_t nCalls = c.calls.size();
    if (R.accepted) nCalls = R.res.size();
    if (isSteps && MODE != "confine" && MODE != "det") nCalls--; // the model did not end: no oracle for this call
    if (isSteps && nCalls < R.res.size()) R.res.resize(nCalls);
    if (digestFile)
    {
        // reproducible summary of everything that is specified
        RealRun X;
        bool skip = isUn || isSteps;
        if (R.accepted && skip) { fprintf(digestFile, "%llu -\n", (unsigned long long)idx); return {}; }
        if (dbg && R.m.dbgUnspec) { fprintf(digestFile, "%llu -\n", (unsigned long long)idx); return {}; }
        runReal(c, nCalls, 0xA5, false, 20000, X, true);
        uint64_t h = fnv(&X.created, sizeof X.created);
        if (X.created == 0)
        {
            for (size_t k = 0; k < X.ret.size(); k++)
            {
                if (R.res[k].ret.def) h = fnv(&X.ret[k], sizeof X.ret[k], h);
                h = fnv(&X.lastErr[k], sizeof(int), h);
            }
            for (int e : X.ctx.errs) h = fnv(&e, sizeof e, h);
            for (size_t i = 0; i < X.ctx.log.size() && i < R.log.log.size(); i++)
                for (int j = 0; j < 15; j++)
                    if (R.log.log[i].def[j]) h = fnv(&X.ctx.log[i].a[j], 8, h);
            for (size_t k = 0; k < X.mem.size(); k++)
                for (uint32_t i = 0; i < R.m.size && i < X.mem[k].size(); i++)
                    if (!R.st[k][i]) h = (h ^ X.mem[k][i]) * 1099511628211ull;
        }
        if (!X.ctx.bad.empty()) return {"monitor", X.ctx.bad[0]};
        fprintf(digestFile, "%llu %016llx\n", (unsigned long long)idx, (unsigned long long)h);
        return {};
    }
    if (dbg && R.m.dbgUnspec) { S.skipped++; return {}; }
    int ms = (isUn || isSteps) ? opti("unspecms", 25) : 20000;
    RealRun A;
    runReal(c, nCalls, 0x00, idx & 1, ms, A, MODE != "det");
    S.argPtr += A.ctx.argPtrChecks;
    S.ranges += A.ctx.rangeChecks;
    if (A.timeout) S.timeouts++;
    Viol v = compare(c, R, A);
    if (!v.kind.empty()) return v;
    if (MODE == "det" || idx % 4 == 0)
    {
        RealRun B;
        runReal(c, nCalls, 0xA5, !(idx & 1), ms, B, MODE != "det");
        Viol w = compareRuns(A, B);
        if (!w.kind.empty()) return w;
        w = compare(c, R, B);
        if (!w.kind.empty()) return w;
        if (MODE == "det")
        {
            RealRun C;
            runReal(c, nCalls, 0x5F, idx & 1, ms, C, false);
            w = compareRuns(A, C);
            if (!w.kind.empty()) return w;
            S.extra["pairs of runs compared"] += 2;
        }
        else S.extra["pairs of runs compared"]++;
    }
    return {};
}

// ------------------------------------------------------------ op matrix
// Every arithmetic/compare/conversion/memory instruction on edge operands,
// one batch of operand pairs per case.
static Viol doOps(uint64_t seed, uint64_t idx)
{
    Rng r(seed ^ idx * 0x9e3779b97f4a7c15ull ^ 0x1234);
    static std::vector<int> ops;
    if (ops.empty()) { for (int o = EQ; o <= GEF; o++) ops.push_back(o); for (int o = SEX8; o <= CVFI; o++) ops.push_back(o); }
    int op = ops[idx % ops.size()];
    uint64_t round = idx / ops.size();
    Image im;
    auto& c = im.code;
    im.data.assign(4, 0);
    im.bss = 0x10000 + 4096;
    c.push_back({ENTER, 68});
    int at = 64;
    bool fl = (op >= EQF && op <= GEF) || (op >= NEGF && op <= MULF) || op == CVFI;
    bool un = op == SEX8 || op == SEX16 || op == NEGI || op == BCOM || op == NEGF || op == CVIF || op == CVFI;
    int n = fl ? NEDGE_F : NEDGE_I;
    std::string desc;
    for (int k = 0; k < 200; k++)
    {
        int32_t a, b;
        uint64_t lin = round * 200 + k;
        bool sys = lin < (uint64_t)(un ? n : n * n);
        if (sys)
        { // systematic over the edge values first
            a = fl ? (int32_t)EDGE_F[lin % n] : EDGE_I[lin % n];
            b = un ? 0 : fl ? (int32_t)EDGE_F[lin / n] : EDGE_I[lin / n];
        }
        else { a = fl ? edgeFlt(r) : r.p(50) ? edgeInt(r) : (int32_t)r.u32(); b = fl ? edgeFlt(r) : r.p(50) ? edgeInt(r) : (int32_t)r.u32(); }
        if (op >= DIVI && op <= MODU && b == 0) b = 1;
        if (op == LSH || op == RSHI || op == RSHU) b &= 31;
        c.push_back({CONST, at});
        c.push_back({CONST, a});
        if (!un) c.push_back({CONST, b});
        if (op >= EQ && op <= GEF)
        {
            int t = (int)c.size();
            c.push_back({op, t + 4});
            c.push_back({CONST, 0});
            c.push_back({CONST, t + 5});
            c.push_back({JUMP, 0});
            c.push_back({CONST, 1});
        }
        else c.push_back({op, 0});
        c.push_back({STORE4, 0});
        at += 4;
        S.extra["operand tuples"]++;
        if (k == 7) desc = fmt("%s %d, %d", OPN[op], a, b);
    }
    c.push_back({CONST, 1});
    c.push_back({LEAVE, 68});
    Case k;
    k.img = im.encode();
    k.calls.push_back(randArgs(r));
    RefRun R;
    runRef(k, R, 100000, true);
    account(k, R);
    if (S.samples.size() < 3 && idx % 17 == 5) S.samples.push_back("200 tuples of " + desc);
    RealRun A;
    runReal(k, 1, 0, idx & 1, 20000, A, true);
    Viol v = compare(k, R, A);
    if (!v.kind.empty()) v.detail = std::string(OPN[op]) + ": " + v.detail;
    return v;
}

// --------------------------------------------------------------- allocation
// VM_Create with the k-th allocation failing, repeated create/call/free on one
// struct, double free, free while running, NULL arguments.
static Viol doAlloc(uint64_t seed, uint64_t idx)
{
    Case c = makeCase(idx % 3 == 2 ? "loader" : "sys", seed, idx, nullptr);
    c.other = false;
    RefRun R;
    runRef(c, R, 20000, false);
    account(c, R);
    Ctx ctx;
    cx = &ctx;
    ctx.fill = (int)(idx * 37) & 255;
    HostImage hi(c.img, true);
    vm_t* vm = (vm_t*)malloc(sizeof(vm_t));
    memset(vm, 0xff, sizeof *vm);
    int ok = 0, failed = 0;
    for (int at = 0; at < 8; at++)
    {
        ctx.nAlloc = 0;
        ctx.failAt = at;
        ctx.failed = false;
        ctx.errs.clear();
        memset(vm, ctx.fill, sizeof *vm);
        int r = VM_Create(vm, "alloc", hi.p, (int)c.img.size(), realSys);
        if (r == 0)
        {
            ok++;
            if (ctx.failed && !opti("debugvm", 0)) monitor("VM_Create succeeded although allocation %d failed", at);
            if (!R.accepted) monitor("malformed image accepted");
            int types[4] = {0};
            for (auto& l : ctx.live) types[l.type]++;
            if (types[0] != 1 || types[1] != 1 || types[2] != 1) monitor("live allocations after VM_Create: %d code, %d data, %d pointers", types[0], types[1], types[2]);
            // memory can be used, and only it
            if (!vm->dataBase) monitor("NULL segment after VM_Create");
            VM_Free(vm);
        }
        else
        {
            failed++;
            if (r != -1) monitor("VM_Create returned %d", r);
            if (R.accepted && !ctx.failed) monitor("well-formed image rejected with %d", ctx.errs.empty() ? 0 : ctx.errs.back());
            if (!ctx.live.empty()) monitor("%zu allocations left after VM_Create failed at allocation %d", ctx.live.size(), at);
            if (ctx.failed)
            {
                bool seen = false;
                for (int e : ctx.errs) seen = seen || e == VM_MALLOC_FAILED;
                if (!seen) monitor("failed allocation %d was not reported as VM_MALLOC_FAILED", at);
                if (vm->lastError != VM_MALLOC_FAILED && vm->lastError != VM_FAILED_TO_LOAD_BYTECODE) monitor("lastError %d after a failed allocation", (int)vm->lastError);
            }
            if (vm->lastError == VM_NO_ERROR) monitor("lastError not set after a failed VM_Create");
            intptr_t q = VM_Call(vm, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
            if (q != -1) monitor("VM_Call on a VM that could not be created returned %lld", (long long)q);
            VM_Free(vm);
        }
        if (!ctx.live.empty()) monitor("allocations left after VM_Free");
        int f = ctx.nFree;
        VM_Free(vm);
        if (ctx.nFree != f) monitor("second VM_Free released memory again");
        S.extra["allocation failures injected"] += ctx.failed;
        if (!ctx.failed) break; // more failures cannot be reached
    }
    // NULL arguments
    ctx.failAt = -1;
    ctx.errs.clear();
    if (VM_Create(NULL, "x", hi.p, (int)c.img.size(), realSys) != -1 || ctx.errs.empty() || ctx.errs[0] != VM_INVALID_POINTER) monitor("VM_Create(NULL)");
    ctx.errs.clear();
    memset(vm, 0, sizeof *vm);
    if (VM_Create(vm, "x", hi.p, (int)c.img.size(), NULL) != -1 || ctx.errs.empty() || ctx.errs[0] != VM_NO_SYSCALL_CALLBACK || vm->lastError != VM_NO_SYSCALL_CALLBACK)
        monitor("VM_Create without system call handler");
    ctx.errs.clear();
    memset(vm, 0, sizeof *vm);
    if (VM_Create(vm, "x", NULL, 100, realSys) != -1 || ctx.errs.empty() || vm->lastError == VM_NO_ERROR) monitor("VM_Create without image");
    VM_Free(vm);
    ctx.errs.clear();
    if (VM_Call(NULL, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) != -1 || ctx.errs.empty() || ctx.errs[0] != VM_INVALID_POINTER) monitor("VM_Call(NULL)");
    VM_Free(NULL);
    if (!ctx.live.empty()) monitor("allocations left");
    free(vm);
    S.extra["VM_Create succeeded"] += ok;
    S.extra["VM_Create failed"] += failed;
    cx = nullptr;
    if (!ctx.bad.empty()) return {"monitor", ctx.bad[0]};
    // one struct, many lives, with calls in between
    Ctx c2;
    cx = &c2;
    vm = (vm_t*)malloc(sizeof(vm_t));
    memset(vm, 0, sizeof *vm);
    bool usable = R.accepted && !R.res.empty() && R.res[0].o != R_UNSPEC && R.res[0].o != R_STEPS;
    for (int i = 0; i < 3 && usable; i++)
    {
        if (VM_Create(vm, "again", hi.p, (int)c.img.size(), realSys) != 0) { monitor("VM_Create failed in life %d", i); break; }
        const auto& a = c.calls[0];
        intptr_t r = VM_Call(vm, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
        if (R.res[0].o == R_DONE && R.res[0].ret.def && r != R.res[0].ret.v) monitor("life %d: returned %lld, expected %d", i, (long long)r, R.res[0].ret.v);
        if (c2.live.size() != 3 && !opti("debugvm", 0)) monitor("%zu live allocations after VM_Call", c2.live.size());
        VM_Free(vm);
        S.extra["create/call/free lives"]++;
        if (!c2.live.empty()) monitor("allocations left in life %d", i);
    }
    free(vm);
    cx = nullptr;
    if (!c2.bad.empty()) return {"monitor", c2.bad[0]};
    return {};
}

// ----------------------------------------------------------------- init data
static Viol doInit(uint64_t seed, uint64_t idx)
{
    Rng r(seed * 77 ^ idx * 0x9e3779b97f4a7c15ull ^ 0x777);
    Image im;
    static const int szs[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 1000, 4095, 4096, 4097, 65535, 65536, 65537};
    int nd = r.p(60) ? szs[r.below(24)] : r.below(70000);
    if (r.p(2)) nd = 0x100000 + r.below(10);
    int nl = r.p(60) ? szs[r.below(20)] : r.below(9000);
    im.data.resize(nd);
    im.lit.resize(nl);
    uint32_t w = r.u32();
    for (auto& b : im.data) { w = w * 1664525u + 1013904223u; b = (uint8_t)(w >> 24); }
    for (auto& b : im.lit) { w = w * 1664525u + 1013904223u; b = (uint8_t)(w >> 24); }
    im.bss = r.p(40) ? szs[r.below(24)] : r.p(50) ? r.below(300000) : 0x10000;
    if (r.p(1)) im.bss = 10485760;
    if (r.p(30))
    { // totals around a power of two
        int p2 = 1 << r.range(5, 18), need = p2 + r.range(-2, 2) - nd - nl;
        if (need >= 0) im.bss = need;
    }
    im.code = {{ENTER, 8}, {CONST, 42}, {LEAVE, 8}};
    im.gap = r.p(60) ? r.range(1, 50) : 0;
    im.tail = r.p(60) ? r.range(1, 50) : 0;
    im.dataFirst = r.p(50);
    im.codePad = r.below(4);
    Case c;
    c.img = im.encode();
    c.text = fmt("data %d, lit %d, bss %d, gap %d, %s", nd, nl, im.bss, im.gap, im.dataFirst ? "data first" : "code first");
    c.calls.push_back(randArgs(r));
    RefRun R;
    runRef(c, R, 100, false);
    account(c, R);
    if (S.samples.size() < 3 && idx % 11 == 5) S.samples.push_back(c.text);
    if (!R.accepted) return {"internal", "generator"};
    RefVM fresh;
    fresh.load(c.img.data(), (int64_t)c.img.size());
    for (int f = 0; f < 2; f++)
    {
        RealRun A;
        runReal(c, 1, f ? 0xEE : 0, idx & 1, 20000, A, false);
        Viol v = compare(c, R, A);
        if (!v.kind.empty()) { v.detail += " [" + c.text + "]"; return v; }
        if (A.created == 0 && A.mask + 1 == fresh.size)
        {
            S.extra["initial bytes compared"] += fresh.size;
            for (uint32_t i = 0; i < fresh.size + 3; i++)
                if (A.initMem[i] != fresh.mem[i])
                    return {"init", fmt("initial VM memory: byte %u is %02x, expected %02x [%s]", i, A.initMem[i], fresh.mem[i], c.text.c_str())};
        }
    }
    return {};
}

// ------------------------------------------------------------- range helper
static Viol doRange(uint64_t seed, uint64_t idx)
{
    Rng r(seed * 99 ^ idx * 0x9e3779b97f4a7c15ull ^ 0x9999);
    Image im;
    im.data.assign(r.below(100), 3);
    im.bss = r.p(50) ? 0x10000 : r.below(5000) + 1;
    im.code = {{ENTER, 8}, {CONST, 42}, {LEAVE, 8}};
    Bytes img = im.encode();
    Ctx ctx;
    cx = &ctx;
    HostImage hi(img, true);
    vm_t* vm = (vm_t*)malloc(sizeof(vm_t));
    if (VM_Create(vm, "range", hi.p, (int)img.size(), realSys) != 0) monitor("VM_Create failed");
    else
    {
        const uint64_t size = (uint64_t)vm->dataMask + 1;
        std::string one;
        for (int i = 0; i < 400; i++)
        {
            auto pick = [&](bool len) -> uint64_t {
                switch (r.below(11))
                {
                case 0: return size;
                case 1: return size + (uint64_t)(int64_t)r.range(-5, 5);
                case 2: return (uint64_t)(int64_t)edgeInt(r);
                case 3: return 0;
                case 4: return 0x100000000ull + (uint64_t)(int64_t)r.range(-5, 5);
                case 5: return len ? ~0ull - (uint64_t)r.below(20) : (uint64_t)(int64_t)-r.range(1, 20);
                case 6: return len ? 0ull - (uint64_t)r.below((int)size) : 1;
                case 7: return 0x8000000000000000ull + (uint64_t)(int64_t)r.range(-3, 3);
                case 8: return 0x80000000ull + (uint64_t)(int64_t)r.range(-5, 5);
                default: return (uint64_t)r.below((int)size);
                }
            };
            intptr_t addr = (intptr_t)pick(false);
            size_t len = (size_t)pick(true);
            if (r.p(20) && (uint64_t)addr < size) len = size - (uint64_t)addr + (uint64_t)(int64_t)r.range(-2, 2);
            S.evaluations++;
            ctx.inRange = true;
            ctx.rangeErrs.clear();
            int v = VM_MemoryRangeValid(addr, len, vm);
            ctx.inRange = false;
            // what the helper promises: valid ranges lie inside of the VM memory once VM_ArgPtr has translated the address
            uint64_t a = (uint64_t)addr & (size - 1);
            bool inside = len <= size - a;
            if (v == 0)
            {
                if (addr == 0) monitor("range check accepts address 0");
                if (!inside) monitor("VM_MemoryRangeValid(%lld, %llu) accepts a range that leaves the %llu bytes of VM memory", (long long)addr, (unsigned long long)len, (unsigned long long)size);
                else
                {
                    uint8_t* p = (uint8_t*)VM_ArgPtr(addr, vm);
                    if (p < vm->dataBase || p + len > vm->dataBase + size) monitor("VM_ArgPtr leaves the VM memory");
                    else if (len) { volatile uint8_t x = p[0]; x = p[len - 1]; (void)x; }
                    S.extra["valid ranges touched"]++;
                }
                if (!ctx.rangeErrs.empty()) monitor("valid range reported as error");
            }
            else
            {
                if (v != -1) monitor("VM_MemoryRangeValid returned %d", v);
                // plainly inside: has to be accepted
                if (addr > 0 && (uint64_t)addr < size && len < size - (uint64_t)addr)
                    monitor("VM_MemoryRangeValid(%lld, %llu) rejects a range inside of the %llu bytes of VM memory", (long long)addr, (unsigned long long)len, (unsigned long long)size);
                if (addr && (ctx.rangeErrs.size() != 1 || ctx.rangeErrs[0] != VM_DATA_OUT_OF_RANGE)) monitor("invalid range (%lld, %llu) not reported as VM_DATA_OUT_OF_RANGE", (long long)addr, (unsigned long long)len);
                S.extra["ranges refused"]++;
            }
            uint8_t* p = (uint8_t*)VM_ArgPtr(addr, vm);
            if (addr == 0 ? p != NULL : p != vm->dataBase + a) monitor("VM_ArgPtr(%lld) is wrong", (long long)addr);
            if (i == 5) one = fmt("addr %lld len %llu of %llu bytes: %s", (long long)addr, (unsigned long long)len, (unsigned long long)size, v ? "refused" : "valid");
            S.distinct.insert(fnv(&addr, sizeof addr) ^ len * 31 ^ size * 1009);
        }
        if (S.samples.size() < 3) S.samples.push_back(one);
        // the range check has to leave the VM and its caller alone
        if (VM_MemoryRangeValid(4, 4, NULL) != -1) monitor("VM_MemoryRangeValid without VM");
        ctx.errs.clear();
        if (VM_ArgPtr(4, NULL) != NULL || ctx.errs.size() != 1 || ctx.errs[0] != VM_INVALID_POINTER) monitor("VM_ArgPtr without VM");
        // bit conversions
        for (int i = 0; i < 50; i++)
        {
            int32_t x = r.p(50) ? edgeFlt(r) : (int32_t)r.u32();
            float f = VM_IntToFloat(x);
            int32_t y;
            memcpy(&y, &f, 4);
            if (y != x || VM_FloatToInt(f) != x) monitor("float bits %08x do not survive", (unsigned)x);
        }
        VM_Free(vm);
    }
    free(vm);
    cx = nullptr;
    if (!ctx.bad.empty()) return {"range", ctx.bad[0]};
    return {};
}

// ------------------------------------------------------------------ threads
#include <pthread.h>
struct ThreadJob {
    std::vector<const Case*> cases;
    std::vector<const RefRun*> refs;
    std::vector<const uint8_t*> img;
    unsigned rot;
    pthread_barrier_t* bar;
    std::string bad;
    uint64_t runs = 0;
};
static void* threadMain(void* p)
{
    ThreadJob* j = (ThreadJob*)p;
    pthread_barrier_wait(j->bar);
    size_t n = j->cases.size();
    for (size_t q = 0; q < n; q++)
    {
        size_t i = (q + j->rot) % n;
        const Case& c = *j->cases[i];
        RealRun X;
        cx = &X.ctx;
        cx->fill = 0x11 * (j->rot & 15);
        cx->threads = true;
        vm_t* vm = (vm_t*)malloc(sizeof(vm_t));
        X.created = VM_Create(vm, "thread.qvm", j->img[i], (int)c.img.size(), realSys);
        if (X.created == 0)
        {
            X.mask = (uint32_t)vm->dataMask;
            for (size_t k = 0; k < c.calls.size() && k < j->refs[i]->res.size(); k++)
            {
                const auto& a = c.calls[k];
                X.ret.push_back(VM_Call(vm, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]));
                X.nErr.push_back(cx->errs.size());
                X.nLog.push_back(cx->log.size());
                X.lastErr.push_back((int)vm->lastError);
                X.mem.push_back(Bytes(vm->dataBase, vm->dataBase + (size_t)X.mask + 4));
                j->runs++;
            }
        }
        VM_Free(vm);
        free(vm);
        cx = nullptr;
        Viol v = compare(c, *j->refs[i], X);
        if (!v.kind.empty()) { j->bad = v.kind + ": " + v.detail; break; }
    }
    return NULL;
}
static Viol doThreads(uint64_t seed, uint64_t idx)
{
    const int NT = opti("threads", 6), NC = opti("images", 4);
    std::vector<std::unique_ptr<Case>> cs;
    std::vector<std::unique_ptr<RefRun>> rs;
    std::vector<std::unique_ptr<HostImage>> hi;
    for (uint64_t t = 0; (int)cs.size() < NC && t < 60; t++)
    {
        std::unique_ptr<Case> c(new Case(makeCase(t % 3 == 0 ? "err" : t % 3 == 1 ? "sys" : "ctl", seed, idx * 1000 + t, nullptr)));
        c->other = false;
        std::unique_ptr<RefRun> R(new RefRun);
        runRef(*c, *R, 20000, true);
        if (!R->accepted || R->res.back().o == R_UNSPEC || R->res.back().o == R_STEPS) continue;
        account(*c, *R);
        hi.emplace_back(new HostImage(c->img, t & 1));
        cs.push_back(std::move(c));
        rs.push_back(std::move(R));
    }
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, NT);
    std::vector<ThreadJob> jobs(NT);
    std::vector<pthread_t> th(NT);
    for (int i = 0; i < NT; i++)
    {
        for (size_t k = 0; k < cs.size(); k++) { jobs[i].cases.push_back(cs[k].get()); jobs[i].refs.push_back(rs[k].get()); jobs[i].img.push_back(hi[k]->p); }
        jobs[i].rot = (unsigned)(idx % 2 ? i : 0); // same image at the same time, or different ones
        jobs[i].bar = &bar;
    }
    for (int i = 0; i < NT; i++) pthread_create(&th[i], NULL, threadMain, &jobs[i]);
    for (int i = 0; i < NT; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&bar);
    S.extra["thread groups"]++;
    for (int i = 0; i < NT; i++)
    {
        S.extra["VM calls in threads"] += jobs[i].runs;
        if (!jobs[i].bad.empty()) return {"thread", fmt("thread %d: ", i) + jobs[i].bad};
    }
    if (S.samples.size() < 3) S.samples.push_back(fmt("%d threads, %zu images shared, %s order", NT, cs.size(), idx % 2 ? "rotated" : "same"));
    return {};
}

int main(int argc, char** argv)
{
    if (argc < 7) return 2;
    MODE = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10), start = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
    for (int i = 7; i < argc; i++)
    {
        std::string s = argv[i];
        size_t e = s.find('=');
        if (e != std::string::npos) OPT[s.substr(0, e)] = s.substr(e + 1);
    }
    FILE* out = fopen(argv[5], "w");
    int pf = open(argv[6], O_RDWR | O_CREAT, 0600);
    if (!out || pf < 0 || ftruncate(pf, 8) != 0) return 2;
    volatile uint64_t* prog = (volatile uint64_t*)mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0);
    if (OPT.count("dump"))
    { // write the case as files and describe it
        std::vector<Ins> code;
        std::string m = MODE;
        Case c = makeCase(m, seed, start, &code);
        FILE* f = fopen(OPT["dump"].c_str(), "w");
        fwrite(c.img.data(), 1, c.img.size(), f);
        fclose(f);
        RefRun R;
        runRef(c, R, 30000, false);
        fprintf(out, "%s\n", disasm(code, 100000).c_str());
        for (auto& q : R.res) fprintf(out, "model: outcome %d ret %d def %d (%s)\n", q.o, q.ret.v, q.ret.def, R.m.why.c_str());
        fclose(out);
        return 0;
    }
    if (OPT.count("digest")) digestFile = fopen(OPT["digest"].c_str(), "w");
    // the VM prints; keep that away from the results
    int nul = open("/dev/null", O_WRONLY);
    if (!OPT.count("verbose")) dup2(nul, 1);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onAlarm;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGVTALRM, &sa, NULL);
    int nviol = 0;
    for (uint64_t i = start; i < start + count && nviol < 3; i++)
    {
        *prog = i;
        Viol v;
        if (MODE == "ops") v = doOps(seed, i);
        else if (MODE == "alloc") v = doAlloc(seed, i);
        else if (MODE == "init") v = doInit(seed, i);
        else if (MODE == "rangeapi") v = doRange(seed, i);
        else if (MODE == "threads") v = doThreads(seed, i);
        else v = doCase(seed, i);
        if (!v.kind.empty())
        {
            nviol++;
            fprintf(out, "{\"viol\":%s,\"detail\":%s,\"index\":%llu}\n", jstr(v.kind).c_str(), jstr(v.detail).c_str(), (unsigned long long)i);
            fflush(out);
        }
    }
    *prog = ~0ull;
    fprintf(out, "{\"stats\":{\"evaluations\":%llu,\"specified\":%llu,\"unspecified\":%llu,\"rejected_images\":%llu,\"step_limit\":%llu,\"calls_ending_in_error\":%llu,"
                 "\"instructions\":%llu,\"system_calls\":%llu,\"branches\":%llu,\"branches_taken\":%llu,\"vm_calls\":%llu,\"runs_with_nested_calls\":%llu,"
                 "\"argptr_checks\":%llu,\"range_checks\":%llu,\"unspecified_runs_cut_off\":%llu,\"skipped\":%llu",
            (unsigned long long)S.evaluations, (unsigned long long)S.spec, (unsigned long long)S.unspec, (unsigned long long)S.rejected,
            (unsigned long long)S.steps, (unsigned long long)S.errRuns, (unsigned long long)S.instr, (unsigned long long)S.syscalls,
            (unsigned long long)S.branches, (unsigned long long)S.taken, (unsigned long long)S.calls, (unsigned long long)S.nested,
            (unsigned long long)S.argPtr, (unsigned long long)S.ranges, (unsigned long long)S.timeouts, (unsigned long long)S.skipped);
    fprintf(out, ",\"distinct\":%zu,\"ops\":{", S.distinct.size());
    bool first = true;
    for (int i = 0; i < NOPS; i++)
        if (S.ops[i]) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", OPN[i], (unsigned long long)S.ops[i]); first = false; }
    fprintf(out, "},\"endings\":{");
    first = true;
    for (auto& w : S.why) { fprintf(out, "%s%s:%llu", first ? "" : ",", jstr(w.first).c_str(), (unsigned long long)w.second); first = false; }
    fprintf(out, "},\"extra\":{");
    first = true;
    for (auto& w : S.extra) { fprintf(out, "%s%s:%llu", first ? "" : ",", jstr(w.first).c_str(), (unsigned long long)w.second); first = false; }
    fprintf(out, "},\"samples\":[");
    for (size_t i = 0; i < S.samples.size(); i++) fprintf(out, "%s%s", i ? "," : "", jstr(S.samples[i]).c_str());
    fprintf(out, "]}}\n");
    fclose(out);
    if (digestFile) fclose(digestFile);
    return 0;
}
