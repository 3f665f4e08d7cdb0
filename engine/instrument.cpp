// Prepares library + harness bitcode for native replay: synchronisation calls are redirected to the replay
// runtime and every (non reference-count) atomic operation is preceded by a hook.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <string>
using namespace llvm;

bool isRefcount(const Instruction* i);

static const char* renamed[] = {
    "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_clockwait",
    "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_destroy", "pthread_rwlock_rdlock",
    "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock", "pthread_self", "sched_yield", "nanosleep",
    "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableC2Ev",
    "_ZNSt18condition_variableD2Ev", "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
    "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
    "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "_ZNSt6thread4joinEv",
    "_ZNSt6thread6detachEv", "_ZNSt6thread20hardware_concurrencyEv", "_ZNSt6chrono3_V212steady_clock3nowEv",
    "_ZNSt6chrono3_V212system_clock3nowEv", "__assert_fail", "__cxa_thread_atexit"};

// defined by the model (rt/sync.cpp); the libraries of the replay keep their own
static const char* own[] = {"pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "_ZNSt10_Sp_lockerC1EPKv",
                            "_ZNSt10_Sp_lockerC2EPKv", "_ZNSt10_Sp_lockerC1EPKvS1_", "_ZNSt10_Sp_lockerC2EPKvS1_",
                            "_ZNSt10_Sp_lockerD1Ev", "_ZNSt10_Sp_lockerD2Ev"};

// hooks for the race detector of the replay runtime: plain accesses, atomics with their ordering, ends of lifetimes
static void raceHooks(Module& m)
{
    LLVMContext& ctx = m.getContext();
    Type* v = Type::getVoidTy(ctx);
    Type* ptr = PointerType::getUnqual(ctx);
    Type* i64 = Type::getInt64Ty(ctx);
    Type* i32 = Type::getInt32Ty(ctx);
    FunctionCallee rd = m.getOrInsertFunction("vpn_read", v, ptr, i64), wr = m.getOrInsertFunction("vpn_write", v, ptr, i64);
    FunctionCallee at = m.getOrInsertFunction("vpn_order", v, ptr, i64, i32), dead = m.getOrInsertFunction("vpn_dead", v, ptr, i64);
    FunctionCallee fr = m.getOrInsertFunction("vpn_free", v, ptr);
    const DataLayout& dl = m.getDataLayout();
    for(auto& f : m)
    {
        if(f.isDeclaration()) continue;
        std::vector<Instruction*> all;
        std::vector<AllocaInst*> locals;
        for(auto& bb : f)
            for(auto& i : bb)
            {
                all.push_back(&i);
                if(auto* a = dyn_cast<AllocaInst>(&i))
                    if(&bb == &f.getEntryBlock() && a->isStaticAlloca()) locals.push_back(a);
            }
        for(auto* i : all)
        {
            IRBuilder<> b(i);
            auto size = [&](Type* t) { return b.getInt64(dl.getTypeStoreSize(t)); };
            auto ord = [](AtomicOrdering o) { return (isAcquireOrStronger(o) ? 4 : 0) | (isReleaseOrStronger(o) ? 8 : 0); };
            if(auto* l = dyn_cast<LoadInst>(i))
            {
                if(l->isAtomic())
                    b.CreateCall(at, {l->getPointerOperand(), size(l->getType()), b.getInt32(1 | (ord(l->getOrdering()) & 4))});
                else
                    b.CreateCall(rd, {l->getPointerOperand(), size(l->getType())});
            }
            else if(auto* s = dyn_cast<StoreInst>(i))
            {
                Type* t = s->getValueOperand()->getType();
                if(s->isAtomic())
                    b.CreateCall(at, {s->getPointerOperand(), size(t), b.getInt32(2 | (ord(s->getOrdering()) & 8))});
                else
                    b.CreateCall(wr, {s->getPointerOperand(), size(t)});
            }
            else if(auto* r = dyn_cast<AtomicRMWInst>(i))
                b.CreateCall(at, {r->getPointerOperand(), size(r->getType()), b.getInt32(3 | ord(r->getOrdering()))});
            else if(auto* c = dyn_cast<AtomicCmpXchgInst>(i))
                b.CreateCall(at, {c->getPointerOperand(), size(c->getNewValOperand()->getType()), b.getInt32(3 | ord(c->getSuccessOrdering()))});
            else if(auto* mi = dyn_cast<MemIntrinsic>(i))
            {
                Value* n = b.CreateZExtOrTrunc(mi->getLength(), i64);
                if(auto* mt = dyn_cast<MemTransferInst>(mi)) b.CreateCall(rd, {mt->getRawSource(), n});
                b.CreateCall(wr, {mi->getRawDest(), n});
            }
            else if(auto* cb = dyn_cast<CallBase>(i))
            {
                Function* g = cb->getCalledFunction();
                std::string n = g ? g->getName().str() : "";
                if(n == "free" || n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0) b.CreateCall(fr, {cb->getArgOperand(0)});
                if(n == "memcpy" || n == "memmove")
                {
                    b.CreateCall(rd, {cb->getArgOperand(1), cb->getArgOperand(2)});
                    b.CreateCall(wr, {cb->getArgOperand(0), cb->getArgOperand(2)});
                }
                if(n == "memset") b.CreateCall(wr, {cb->getArgOperand(0), cb->getArgOperand(2)});
                if(n == "memcmp" || n == "bcmp")
                {
                    b.CreateCall(rd, {cb->getArgOperand(0), cb->getArgOperand(2)});
                    b.CreateCall(rd, {cb->getArgOperand(1), cb->getArgOperand(2)});
                }
            }
            else if(isa<ReturnInst>(i) || isa<ResumeInst>(i))
                for(auto* a : locals) b.CreateCall(dead, {a, b.getInt64(*a->getAllocationSize(dl))});
        }
    }
}

int instrumentMain(int argc, char** argv)
{
    if(argc < 4) return 2;
    bool asan = false, race = false;
    for(int i = 4; i < argc; i++)
    {
        asan = asan || std::string(argv[i]) == "asan";
        race = race || std::string(argv[i]) == "race";
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(argv[2], err, ctx);
    if(!mod)
    {
        err.print("vpengine", errs());
        return 2;
    }
    for(const char* n : renamed)
        if(Function* f = mod->getFunction(n))
            if(f->isDeclaration()) f->setName(std::string("vpn_") + n);
    for(const char* n : own)
        if(GlobalValue* f = mod->getNamedValue(n)) f->setName(std::string("vpn_") + n);
    FunctionCallee hook = mod->getOrInsertFunction("vpn_atomic", FunctionType::get(Type::getVoidTy(ctx), false));
    for(auto& f : *mod)
    {
        if(f.isDeclaration()) continue;
        if(asan) f.addFnAttr(Attribute::SanitizeAddress);
        // with the hooks no function is free of effects any more
        for(auto a : {Attribute::Memory, Attribute::WillReturn, Attribute::NoSync, Attribute::NoFree}) f.removeFnAttr(a);
        std::vector<Instruction*> at;
        for(auto& bb : f)
            for(auto& i : bb)
            {
                if(auto* cb = dyn_cast<CallBase>(&i); cb && !isa<IntrinsicInst>(cb))
                    for(auto a : {Attribute::Memory, Attribute::WillReturn, Attribute::NoSync, Attribute::NoFree}) cb->removeFnAttr(a);
                if(i.isAtomic() && !isa<FenceInst>(i) && !isRefcount(&i)) at.push_back(&i);
            }
        for(auto* i : at)
        {
            IRBuilder<> b(i);
            b.CreateCall(hook);
        }
    }
    if(race) raceHooks(*mod);
    std::error_code ec;
    raw_fd_ostream out(argv[3], ec, sys::fs::OF_None);
    if(ec) return 2;
    WriteBitcodeToFile(*mod, out);
    return 0;
}
