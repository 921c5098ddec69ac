// Inserts a call to vp_atomic_point() after every atomic instruction, and before every load/store of selected functions,
// so that the interpreter and the native replay share the same scheduling points.
#pragma once
#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
static int instrumentMain(int argc, char** argv) {
  string in, out; set<string> fns; for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "--instrument") continue; if (a == "-o") out = argv[++i]; else if (a == "--mem-fn") fns.insert(argv[++i]); else in = a; }
  LLVMContext C; SMDiagnostic D; auto mod = parseIRFile(in, D, C); if (!mod) { D.print("vpse", llvm::errs()); return 3; }
  FunctionCallee cb = mod->getOrInsertFunction("vp_atomic_point", llvm::Type::getVoidTy(C));
  for (auto& F : *mod) { if (F.isDeclaration() || F.getName() == "vp_atomic_point" || F.getName().starts_with("vp_")) continue; bool all = fns.count(F.getName().str()) || fns.count("*"); vector<Instruction*> pts, ptsB;
    for (auto& B : F) for (auto& I : B) { bool at = isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || (isa<LoadInst>(I) && cast<LoadInst>(I).isAtomic()) || (isa<StoreInst>(I) && cast<StoreInst>(I).isAtomic()); if (at) pts.push_back(&I);
      else if (all && (isa<LoadInst>(I) || isa<StoreInst>(I))) { Value* p = isa<LoadInst>(I) ? cast<LoadInst>(I).getPointerOperand() : cast<StoreInst>(I).getPointerOperand(); if (!isa<AllocaInst>(p->stripInBoundsOffsets())) ptsB.push_back(&I); } }
    for (auto* I : pts) { IRBuilder<> b(I->getNextNode()); auto* c = b.CreateCall(cb); c->setDebugLoc(I->getDebugLoc()); }
    for (auto* I : ptsB) { IRBuilder<> b(I); auto* c = b.CreateCall(cb); c->setDebugLoc(I->getDebugLoc()); } }
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*mod, os); return 0;
}
