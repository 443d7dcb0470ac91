// Prepares bitcode for native replay: a scheduling call before every visible operation, pthread calls renamed.
#pragma once
#include "engine.hpp"
#include "program.hpp"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>

static int instrument(const std::string& in, const std::string& out) {
    LLVMContext C;
    SMDiagnostic d;
    auto M = parseIRFile(in, d, C);
    if (!M) { fprintf(stderr, "cannot read %s\n", in.c_str()); return 2; }
    static const std::pair<const char*, const char*> ren[] = {
        {"pthread_mutex_lock", "__nat_mutex_lock"}, {"pthread_mutex_trylock", "__nat_mutex_trylock"},
        {"pthread_mutex_unlock", "__nat_mutex_unlock"}, {"pthread_mutex_init", "__nat_ret0"}, {"pthread_mutex_destroy", "__nat_ret0"},
        {"pthread_cond_wait", "__nat_cond_wait"}, {"pthread_cond_timedwait", "__nat_cond_timedwait"},
        {"pthread_cond_clockwait", "__nat_cond_clockwait"}, {"pthread_cond_signal", "__nat_cond_signal"},
        {"pthread_cond_broadcast", "__nat_cond_broadcast"}, {"pthread_cond_init", "__nat_ret0"}, {"pthread_cond_destroy", "__nat_ret0"},
        {"sched_yield", "__nat_yield"}, {"pthread_setname_np", "__nat_ret0"}, {"pthread_self", "__nat_self"},
        {"__cxa_guard_acquire", "__nat_guard_acquire"}, {"__cxa_guard_release", "__nat_guard_release"},
        {"__cxa_guard_abort", "__nat_guard_abort"}, {"__cxa_thread_atexit", "__nat_thread_atexit"},
        {"__cxa_atexit", "__nat_cxa_atexit"}, {"atexit", "__nat_atexit"},
    };
    for (auto& r : ren)
        if (auto* F = M->getFunction(r.first)) {
            if (!F->isDeclaration()) continue;
            // several names may map to one function: use a fresh declaration per type through an alias-free call
            if (auto* G = M->getFunction(r.second)) { F->replaceAllUsesWith(G); F->eraseFromParent(); }
            else F->setName(r.second);
        }
    auto* VT = FunctionType::get(Type::getVoidTy(C), false);
    auto P = M->getOrInsertFunction("__nat_point", VT);
    auto D = M->getOrInsertFunction("__nat_done", VT);
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        F.addFnAttr(Attribute::SanitizeAddress);
        F.addFnAttr(Attribute::SanitizeThread);
        std::vector<Instruction*> v;
        for (auto& I : instructions(F)) {
            bool vis = false;
            if (auto* L = dyn_cast<LoadInst>(&I)) vis = L->isAtomic();
            else if (auto* S = dyn_cast<StoreInst>(&I)) vis = S->isAtomic();
            else if (auto* R = dyn_cast<AtomicRMWInst>(&I)) vis = !Program::addUnused(R);
            else vis = isa<AtomicCmpXchgInst>(&I);
            if (vis) v.push_back(&I);
        }
        for (auto* I : v) {
            DebugLoc L = I->getDebugLoc();
            IRBuilder<> B(I);
            B.SetCurrentDebugLocation(L);
            B.CreateCall(P);
            B.SetInsertPoint(I->getNextNode());
            B.SetCurrentDebugLocation(L);
            B.CreateCall(D);
        }
    }
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    if (ec) { fprintf(stderr, "cannot write %s\n", out.c_str()); return 2; }
    WriteBitcodeToFile(*M, os);
    return 0;
}
