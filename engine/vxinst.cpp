// Marks the places where another thread may run or a signal may arrive: a call of w_sched_point() before every access to a variable of
// static storage duration and every volatile access. (System calls are marked inside the modelled operating system.)
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Analysis/ValueTracking.h>
using namespace llvm;
static bool shared(Value* p) { auto* g = dyn_cast<GlobalVariable>(getUnderlyingObject(p, 0)); return g && !g->isConstant(); }
int main(int c, char** v) {
    LLVMContext cx; SMDiagnostic e; auto m = parseIRFile(v[1], e, cx); if (!m) { e.print("vxinst", errs()); return 1; }
    auto f = m->getOrInsertFunction("w_sched_point", FunctionType::get(Type::getVoidTy(cx), false));
    for (auto& F : *m) {
        if (F.isDeclaration() || F.getName().starts_with("_ZNSt") || F.getName().starts_with("_ZNKSt") || F.getName().starts_with("_ZSt") || F.getName().starts_with("_GLOBAL__") || F.getName().starts_with("__cxx")) continue;
        SmallVector<Instruction*, 64> at; for (auto& I : instructions(F)) { if (auto* l = dyn_cast<LoadInst>(&I)) { if (l->isVolatile() || shared(l->getPointerOperand())) at.push_back(&I); } else if (auto* s = dyn_cast<StoreInst>(&I)) { if (s->isVolatile() || shared(s->getPointerOperand())) at.push_back(&I); } }
        for (auto* I : at) { IRBuilder<> b(I); auto* k = b.CreateCall(f); if (!k->getDebugLoc() && F.getSubprogram()) k->setDebugLoc(DILocation::get(cx, 0, 0, F.getSubprogram())); }
    }
    std::error_code ec; raw_fd_ostream o(v[2], ec); if (ec) return 1; WriteBitcodeToFile(*m, o); return 0;
}
