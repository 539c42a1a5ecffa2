// Debug output and profile of a program: by the VM ("real") or by the model
// ("model"). Both write the same text; the model writes two counts per function
// (OP_ENTER counted for the caller, for the function itself).
//   prof real|model IMAGE NAME LEVEL COMMAND...
extern "C" {
#include "vm.h"
}
#include "ref.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sys/resource.h>

extern "C" void Com_Error(vmErrorCode_t level, const char*) { printf("error %d\n", (int)level); }
static long blocks, failAt; // the allocation that fails
extern "C" void* Com_malloc(size_t size, vm_t*, vmMallocType_t) 
{
    if (failAt && --failAt == 0) { puts("no memory"); return nullptr; }
    blocks++;
    return malloc(size);
}
extern "C" void Com_free(void* p, vm_t*, vmMallocType_t) { if (p) blocks--; free(p); }

// ---------------------------------------------------------------- the real VM
static intptr_t realSys(vm_t* vm, intptr_t* a)
{
    switch (a[0])
    {
    case 0: printf("out %08x\n", (unsigned)a[1]); return 0;
    case 1: return VM_Call(vm, (int)a[1], (int)a[2]);
    case 2: VM_Debug((int)a[1]); return 0;
    default: printf("unknown %d\n", (int)a[0]); return 5;
    }
}

// ---------------------------------------------------------------- the model
struct Sym { std::string name; int64_t at; long a = 0, b = 0; };
static std::vector<Sym> syms;
static int level, callLevel;

struct T : Tracer {
    RefVM* vm = nullptr;
    std::vector<size_t> cur; // function per level of VM_Call
    static std::string ind() { return std::string(2 * callLevel, ' '); }
    size_t find(int64_t pc)
    {
        size_t i = 0;
        while (i + 1 < syms.size() && syms[i + 1].at <= pc) i++;
        return i;
    }
    std::string name(int64_t pc)
    {
        if (syms.empty()) return "NO SYMBOLS";
        size_t i = find(pc);
        return syms[i].name;
    }
    void ins(int64_t pc, int op, size_t n) override
    {
        if (level > 1) printf("%s%i OP_%s\n", ind().c_str(), (int)n, OPN[op]);
        if (syms.empty()) return;
        syms[cur.back()].a++;
        syms[find(pc)].b++;
    }
    void enter(int64_t pc, size_t n) override
    {
        if (!syms.empty()) cur.back() = find(pc);
        if (level) printf("%s%i---> %s\n", ind().c_str(), (int)n, name(pc).c_str());
    }
    void leave(int64_t pc, size_t n) override
    {
        if (!syms.empty()) cur.back() = find(pc);
        if (level) printf("%s%i<--- %s\n", ind().c_str(), (int)n, pc < 0 ? "" : name(pc).c_str());
    }
    void sysEnter(int id, size_t n) override
    {
        if (level) printf("%s%i---> systemcall(%i)\n", ind().c_str(), (int)n, id);
    }
    void sysLeave(int64_t pc, size_t n) override
    {
        if (level) printf("%s%i<--- %s\n", ind().c_str(), (int)n, name(pc).c_str());
    }
};

static Outcome modelCall(RefVM& vm, T& t, int c, int x, Val& r)
{
    Val args[13];
    for (auto& a : args) a = {0, true};
    args[0] = {c, true};
    args[1] = {x, true};
    callLevel++;
    t.cur.push_back(syms.empty() ? 0 : t.find(0));
    Outcome o = vm.call(args, r);
    t.cur.pop_back();
    callLevel--;
    if (o == R_ERR)
    {
        int code = 0;
        for (int i = 1; i < 32; i++) if (vm.errMask == ebit(-i)) code = -i;
        printf("error %d\n", code);
    }
    return o;
}

int main(int argc, char** argv)
{
    struct rlimit cpu = {60, 61};
    setrlimit(RLIMIT_CPU, &cpu);
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    if (argc < 6) return 9;
    bool model = argv[1][0] == 'm';
    std::vector<uint8_t> b;
    FILE* f = fopen(argv[2], "rb");
    if (!f) return 9;
    for (int c; (c = getc(f)) != EOF;) b.push_back((uint8_t)c);
    fclose(f);
    level = atoi(argv[4]);
    if (getenv("PROF_FAIL")) failAt = atoi(getenv("PROF_FAIL"));
    if (!model)
    {
        vm_t vm;
        memset(&vm, 0, sizeof vm);
        int rc = VM_Create(&vm, argv[3], b.data(), (int)b.size(), realSys);
        puts("=");
        if (rc) { printf("rejected %d\n", rc); VM_Free(&vm); printf("blocks %ld\n", blocks); return 0; }
        VM_Debug(level);
        for (int i = 5; i < argc; i++)
        {
            if (argv[i][0] == 'p') { puts("profile"); VM_VmProfile_f(&vm); }
            else printf("result %08x\n", (unsigned)VM_Call(&vm, atoi(argv[i]), i));
        }
        VM_Debug(0);
        VM_Free(&vm);
        printf("blocks %ld\n", blocks);
        return 0;
    }
    RefVM vm;
    vm.budget = 3000000;
    T t;
    t.vm = &vm;
    vm.tracer = &t;
    if (!vm.load(b.data(), (int64_t)b.size())) { puts("rejected"); return 0; }
    // symbols: "NAME at" per line on stdin, at is the number of an instruction
    char nm[4096];
    long at;
    while (scanf("%4095s %ld", nm, &at) == 2) { Sym s; s.name = nm; s.at = at; syms.push_back(s); }
    vm.sys = [&](RefVM& v, int id, const Val* a) -> Val {
        switch (id)
        {
        case 0: printf("out %08x\n", (unsigned)a[0].v); return {0, true};
        case 1:
        {
            Val r;
            Outcome o = modelCall(v, t, a[0].v, a[1].v, r);
            if (o == R_UNSPEC || o == R_STEPS) v.sysFail = o;
            return r;
        }
        case 2: level = a[0].v; return {0, true};
        default: printf("unknown %d\n", id); return {5, true};
        }
    };
    puts("=");
    for (int i = 5; i < argc; i++)
    {
        if (argv[i][0] == 'p')
        {
            puts("profile");
            for (auto& s : syms) { printf("%ld %ld %s\n", s.a, s.b, s.name.c_str()); s.a = s.b = 0; }
            continue;
        }
        Val r{0, true};
        Outcome o = modelCall(vm, t, atoi(argv[i]), i, r);
        if (o == R_UNSPEC || o == R_STEPS || vm.dbgUnspec) { printf("unspecified %s\n", vm.why.c_str()); return 0; }
        printf("result %08x\n", (unsigned)(o == R_DONE ? r.v : -1));
    }
    return 0;
}
