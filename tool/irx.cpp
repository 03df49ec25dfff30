// irx: links LLVM bitcode files, normalises them (optional inlining of small
// single-purpose static helpers, SROA, mem2reg) and dumps the program as JSON
// for the Python analyses in ../sa.  No code of the program is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <functional>
#include <cstring>
#include <cstdlib>
using namespace llvm;

static raw_ostream *O;
static void jstr(StringRef s) {
    *O << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') *O << '\\' << (char)c;
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); *O << b; }
        else *O << (char)c;
    }
    *O << '"';
}
static std::string tstr(Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
        if (S->hasName()) return ("%" + S->getName()).str();
    }
    if (auto *A = dyn_cast<ArrayType>(T))
        return "[" + std::to_string(A->getNumElements()) + " x " + tstr(A->getElementType()) + "]";
    std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}
static const DataLayout *DL;
static std::map<const Value*, int> *Ids;

static void dumpConst(const Constant *C, bool deep);
static void dumpOp(const Value *V, bool deep = false) {
    if (Ids) { auto it = Ids->find(V); if (it != Ids->end()) { *O << it->second; return; } }
    if (auto *C = dyn_cast<Constant>(V)) { dumpConst(C, deep); return; }
    if (isa<MetadataAsValue>(V)) { *O << "[\"m\"]"; return; }
    if (isa<InlineAsm>(V)) { *O << "[\"asm\"]"; return; }
    *O << "[\"?\"]";
}
static void dumpConst(const Constant *C, bool deep) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
        *O << "[\"i\",";
        if (I->getBitWidth() <= 64) *O << I->getSExtValue();
        else { *O << "0"; }
        *O << "," << I->getBitWidth() << "]"; return;
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) {
        SmallString<32> s; F->getValueAPF().toString(s); *O << "[\"d\","; jstr(s); *O << "]"; return; }
    if (isa<ConstantPointerNull>(C)) { *O << "[\"n\"]"; return; }
    if (isa<UndefValue>(C)) { *O << "[\"u\"]"; return; }
    if (auto *F = dyn_cast<Function>(C)) { *O << "[\"f\","; jstr(F->getName()); *O << "]"; return; }
    if (auto *G = dyn_cast<GlobalValue>(C)) { *O << "[\"g\","; jstr(G->getName()); *O << ",0]"; return; }
    if (isa<ConstantAggregateZero>(C)) { *O << "[\"z\"]"; return; }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        if (D->isString()) { *O << "[\"s\","; jstr(D->getAsString()); *O << "]"; return; }
        *O << "[\"a\",[";
        for (unsigned i = 0; i < D->getNumElements(); i++) { if (i) *O << ","; dumpConst(D->getElementAsConstant(i), true); }
        *O << "]]"; return;
    }
    if (auto *A = dyn_cast<ConstantAggregate>(C)) {
        *O << "[\"a\",[";
        for (unsigned i = 0; i < A->getNumOperands(); i++) { if (i) *O << ","; dumpConst(A->getOperand(i), true); }
        *O << "]]"; return;
    }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
        if (E->getType()->isPointerTy()) {
            APInt off(64, 0);
            const Value *B = E->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (B != E) {
                if (auto *G = dyn_cast<GlobalVariable>(B)) {
                    *O << "[\"g\","; jstr(G->getName()); *O << "," << off.getSExtValue() << "]"; return; }
                if (isa<Function>(B) && off == 0) { dumpConst(cast<Constant>(B), deep); return; }
                if (isa<ConstantPointerNull>(B)) { *O << "[\"i\"," << off.getSExtValue() << ",64]"; return; }
            }
            if (E->getOpcode() == Instruction::IntToPtr) { dumpConst(cast<Constant>(E->getOperand(0)), deep); return; }
        }
        *O << "[\"e\","; jstr(E->getOpcodeName()); *O << ",[";
        for (unsigned i = 0; i < E->getNumOperands(); i++) { if (i) *O << ","; dumpOp(E->getOperand(i), true); }
        *O << "]]"; return;
    }
    *O << "[\"?\"]";
}

static std::map<std::string,int> Files; static std::vector<std::string> FileV;
static int fileId(StringRef f) {
    auto it = Files.find(f.str()); if (it != Files.end()) return it->second;
    int n = FileV.size(); Files[f.str()] = n; FileV.push_back(f.str()); return n;
}
static void dumpLoc(const DebugLoc &L) {
    if (!L) { *O << "0"; return; }
    // [file, line, function, inlined-at line (outermost)]
    const DILocation *D = L.get();
    *O << "[" << fileId(D->getFilename()) << "," << D->getLine() << ",";
    auto *SP = D->getScope()->getSubprogram();
    jstr(SP ? SP->getName() : "");
    const DILocation *A = D;
    while (A->getInlinedAt()) A = A->getInlinedAt();
    if (A != D) *O << "," << A->getLine();
    *O << "]";
}

static std::string diTypeName(const DIType *T, int depth = 0) {
    if (!T) return "void";
    if (depth > 8) return "...";
    if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        switch (D->getTag()) {
        case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType(), depth+1) + "*";
        case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType(), depth+1);
        case dwarf::DW_TAG_volatile_type: return "volatile " + diTypeName(D->getBaseType(), depth+1);
        case dwarf::DW_TAG_typedef: return D->getName().str();
        default: return diTypeName(D->getBaseType(), depth+1);
        }
    }
    if (auto *S = dyn_cast<DISubroutineType>(T)) {
        std::string r = "fn("; bool first = true; std::string ret = "void"; int i = 0;
        for (auto *E : S->getTypeArray()) { 
            if (i++ == 0) { ret = diTypeName(E, depth+1); continue; }
            if (!first) r += ","; first = false; r += diTypeName(E, depth+1); }
        return r + ")" + ret;
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() == dwarf::DW_TAG_array_type) {
            std::string r = diTypeName(C->getBaseType(), depth+1);
            for (auto *E : C->getElements())
                if (auto *S = dyn_cast<DISubrange>(E)) {
                    if (auto *CI = dyn_cast_if_present<ConstantInt*>(S->getCount())) r += "[" + std::to_string(CI->getSExtValue()) + "]";
                    else r += "[]";
                }
            return r;
        }
        std::string tag = C->getTag()==dwarf::DW_TAG_union_type ? "union " : C->getTag()==dwarf::DW_TAG_enumeration_type ? "enum " : "struct ";
        return tag + (C->getName().empty() ? std::string("#") + std::to_string((uintptr_t)C & 0xffffffff) : C->getName().str());
    }
    return "?";
}
// resolved (typedef-free) base type
static std::string diBase(const DIType *T) {
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
        unsigned t = D->getTag();
        if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type) T = D->getBaseType();
        else break;
    }
    return diTypeName(T);
}

int main(int argc, char **argv) {
    // usage: irx OUT.json [-inline N] [-keep FILE] bc...
    std::string out = argv[1]; int inl = 0; std::set<std::string> keep; std::vector<std::string> in;
    for (int i = 2; i < argc; i++) {
        if (!strcmp(argv[i], "-inline")) inl = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-keep")) { std::ifstream f(argv[++i]); std::string l; while (f >> l) keep.insert(l); }
        else in.push_back(argv[i]);
    }
    LLVMContext Ctx; SMDiagnostic Err;
    std::unique_ptr<Module> M;
    for (auto &f : in) {
        auto m = parseIRFile(f, Err, Ctx);
        if (!m) { Err.print("irx", errs()); return 2; }
        if (!M) { M = std::move(m); continue; }
        if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << f << "\n"; return 2; }
    }
    DL = &M->getDataLayout();
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }
    std::map<std::string,int> inlined;
    std::function<void(Function&)> mem = [&](Function &F) {};
    {
        ModulePassManager MPM; FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(PromotePass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    if (inl > 0) {
        // mark: local linkage, address never taken, not recursive (directly), few callers & size bound
        for (auto &F : *M) {
            if (F.isDeclaration() || keep.count(F.getName().str())) continue;
            if (!F.hasLocalLinkage()) continue;
            bool ok = !F.isVarArg(); int calls = 0;
            for (auto *U : F.users()) {
                auto *CB = dyn_cast<CallBase>(U);
                if (!CB || CB->getCalledOperand() != &F || CB->getCalledFunction() != &F) { ok = false; break; }
                for (auto &A : CB->args()) if (A.get() == &F) ok = false;
                if (CB->getFunction() == &F) ok = false;
                calls++;
            }
            if (!ok || calls == 0) continue;
            int n = 0; for (auto &B : F) n += B.size();
            if (n * (calls - 1) > inl) continue;
            F.addFnAttr(Attribute::AlwaysInline); inlined[F.getName().str()] = calls;
        }
        ModulePassManager MPM;
        MPM.addPass(AlwaysInlinerPass(false));
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(PromotePass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    std::error_code EC; raw_fd_ostream OS(out, EC); if (EC) { errs() << EC.message() << "\n"; return 2; }
    O = &OS;
    OS << "{\"structs\":{";
    // LLVM struct layouts
    bool first = true;
    for (auto *S : M->getIdentifiedStructTypes()) {
        if (!S->hasName() || S->isOpaque()) continue;
        if (!first) OS << ",\n"; first = false;
        jstr("%" + S->getName().str()); OS << ":{\"size\":" << DL->getTypeAllocSize(S).getFixedValue() << ",\"el\":[";
        auto *L = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++) { if (i) OS << ","; OS << "[" << L->getElementOffset(i).getFixedValue() << ","; jstr(tstr(S->getElementType(i))); OS << "]"; }
        OS << "]}";
    }
    OS << "},\n\"di\":["; first = true;
    DebugInfoFinder DF; DF.processModule(*M);
    std::map<const DICompositeType*, std::string> tdef;
    for (auto *T : DF.types())
        if (auto *D = dyn_cast<DIDerivedType>(T))
            if (D->getTag() == dwarf::DW_TAG_typedef)
                if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
                    if (!tdef.count(C)) tdef[C] = D->getName().str();
    std::set<std::string> seen;
    for (auto *T : DF.types()) {
        auto *C = dyn_cast<DICompositeType>(T); if (!C || C->isForwardDecl()) continue;
        std::string td = tdef.count(C) ? tdef[C] : "";
        std::string key = diTypeName(C);
        if (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) {
            if (!C->getName().empty()) { if (!seen.insert(key + td).second) continue; }
            if (!first) OS << ",\n"; first = false;
            OS << "{\"k\":\"" << (C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct") << "\",\"name\":"; jstr(C->getName());
            OS << ",\"td\":"; jstr(td); OS << ",\"key\":"; jstr(key); OS << ",\"size\":" << C->getSizeInBits()/8 << ",\"f\":[";
            bool f2 = true;
            for (auto *E : C->getElements()) {
                auto *D = dyn_cast<DIDerivedType>(E); if (!D || D->getTag() != dwarf::DW_TAG_member) continue;
                if (!f2) OS << ","; f2 = false;
                OS << "["; jstr(D->getName()); OS << "," << D->getOffsetInBits() << "," << D->getSizeInBits() << "," << (D->isBitField() ? 1 : 0) << ",";
                jstr(diTypeName(D->getBaseType())); OS << ","; jstr(diBase(D->getBaseType())); OS << "]";
            }
            OS << "]}";
        } else if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
            if (!C->getName().empty()) { if (!seen.insert(key + td).second) continue; }
            if (!first) OS << ",\n"; first = false;
            OS << "{\"k\":\"enum\",\"name\":"; jstr(C->getName()); OS << ",\"td\":"; jstr(td); OS << ",\"f\":[";
            bool f2 = true;
            for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIEnumerator>(E)) {
                if (!f2) OS << ","; f2 = false; OS << "["; jstr(D->getName()); OS << "," << D->getValue().getSExtValue() << "]"; }
            OS << "]}";
        }
    }
    OS << "],\n\"globals\":["; first = true;
    for (auto &G : M->globals()) {
        if (!first) OS << ",\n"; first = false;
        OS << "{\"n\":"; jstr(G.getName()); OS << ",\"t\":"; jstr(tstr(G.getValueType())); OS << ",\"const\":" << G.isConstant() << ",\"local\":" << G.hasLocalLinkage() << ",\"decl\":" << G.isDeclaration();
        OS << ",\"size\":" << DL->getTypeAllocSize(G.getValueType()).getFixedValue();
        SmallVector<DIGlobalVariableExpression*, 1> GV; G.getDebugInfo(GV);
        if (!GV.empty()) { auto *V = GV[0]->getVariable(); OS << ",\"file\":" << fileId(V->getFilename()) << ",\"line\":" << V->getLine() << ",\"name\":"; jstr(V->getName()); OS << ",\"dt\":"; jstr(diTypeName(V->getType()));
            if (auto *SP = dyn_cast_or_null<DILocalScope>(V->getScope())) { OS << ",\"fn\":"; jstr(SP->getSubprogram()->getName()); } }
        if (G.hasInitializer()) { OS << ",\"init\":"; dumpConst(G.getInitializer(), true); }
        OS << "}";
    }
    OS << "],\n\"aliases\":{},\"inlined\":{"; first = true;
    for (auto &p : inlined) { if (!first) OS << ","; first = false; jstr(p.first); OS << ":" << p.second; }
    OS << "},\n\"functions\":["; first = true;
    for (auto &F : *M) {
        if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
        if (!first) OS << ",\n"; first = false;
        OS << "{\"n\":"; jstr(F.getName()); OS << ",\"decl\":" << F.isDeclaration() << ",\"local\":" << F.hasLocalLinkage() << ",\"va\":" << F.isVarArg() << ",\"rt\":"; jstr(tstr(F.getReturnType()));
        OS << ",\"noret\":" << F.doesNotReturn();
        std::map<const Value*, int> ids; Ids = &ids; int id = 0;
        OS << ",\"args\":[";
        for (auto &A : F.args()) { ids[&A] = id++; if (A.getArgNo()) OS << ","; OS << "["; jstr(A.getName()); OS << ","; jstr(tstr(A.getType())); OS << "]"; }
        OS << "]";
        if (auto *SP = F.getSubprogram()) {
            OS << ",\"file\":" << fileId(SP->getFilename()) << ",\"line\":" << SP->getLine() << ",\"name\":"; jstr(SP->getName());
            OS << ",\"sig\":["; bool f3 = true; for (auto *E : SP->getType()->getTypeArray()) { if (!f3) OS << ","; f3 = false; jstr(E ? diTypeName(E) : "void"); } OS << "]";
        }
        if (!F.isDeclaration()) {
            std::map<const BasicBlock*, int> bid; int nb = 0;
            for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) ids[&I] = id++; }
            OS << ",\"vars\":["; bool f2 = true;
            for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
                if (isa<DbgAssignIntrinsic>(D)) continue;
                Value *V = D->getNumVariableLocationOps() ? D->getVariableLocationOp(0) : nullptr; if (!V) continue;
                auto it = ids.find(V); if (it == ids.end()) continue;
                if (!f2) OS << ","; f2 = false;
                OS << "[" << it->second << ","; jstr(D->getVariable()->getName()); OS << "," << D->getVariable()->getArg() << ","; jstr(diTypeName(D->getVariable()->getType())); OS << "," << isa<DbgDeclareInst>(D) << "]";
            }
            OS << "],\"b\":["; f2 = true;
            for (auto &B : F) {
                if (!f2) OS << ","; f2 = false; OS << "[";
                bool f3 = true;
                for (auto &I : B) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    if (!f3) OS << ","; f3 = false;
                    OS << "[" << ids[&I] << ","; jstr(I.getOpcodeName()); OS << ","; jstr(tstr(I.getType())); OS << ",[";
                    if (auto *P = dyn_cast<PHINode>(&I)) {
                        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) OS << ","; dumpOp(P->getIncomingValue(i)); }
                        OS << "],["; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) OS << ","; OS << bid[P->getIncomingBlock(i)]; }
                        OS << "]";
                    } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                        if (Br->isConditional()) dumpOp(Br->getCondition());
                        OS << "],["; for (unsigned i = 0; i < Br->getNumSuccessors(); i++) { if (i) OS << ","; OS << bid[Br->getSuccessor(i)]; } OS << "]";
                    } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                        dumpOp(Sw->getCondition()); OS << "],[[" ; OS << bid[Sw->getDefaultDest()] << "]";
                        for (auto &c : Sw->cases()) { OS << ",[" << bid[c.getCaseSuccessor()] << "," << c.getCaseValue()->getSExtValue() << "]"; }
                        OS << "]";
                    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                        bool f4 = true; for (auto &A : CB->args()) { if (!f4) OS << ","; f4 = false; dumpOp(A.get()); }
                        OS << "],"; dumpOp(CB->getCalledOperand());
                    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                        bool f4 = true; for (auto &A : G->operands()) { if (!f4) OS << ","; f4 = false; dumpOp(A.get()); }
                        OS << "],["; jstr(tstr(G->getSourceElementType()));
                        APInt off(64, 0); if (G->accumulateConstantOffset(*DL, off)) OS << "," << off.getSExtValue(); else OS << ",null";
                        OS << "," << DL->getTypeAllocSize(G->getSourceElementType()).getFixedValue() << "]";
                    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
                        dumpOp(A->getArraySize()); OS << "],["; jstr(tstr(A->getAllocatedType())); OS << "," << DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue() << "]";
                    } else {
                        bool f4 = true; for (auto &A : I.operands()) { if (isa<BasicBlock>(A.get())) continue; if (!f4) OS << ","; f4 = false; dumpOp(A.get()); }
                        OS << "],";
                        if (auto *C = dyn_cast<CmpInst>(&I)) { jstr(CmpInst::getPredicateName(C->getPredicate())); }
                        else if (auto *St = dyn_cast<StoreInst>(&I)) jstr(tstr(St->getValueOperand()->getType()));
                        else if (isa<ZExtInst>(I)||isa<SExtInst>(I)||isa<TruncInst>(I)) jstr(tstr(I.getOperand(0)->getType()));
                        else OS << "0";
                    }
                    OS << ","; dumpLoc(I.getDebugLoc()); OS << "]";
                }
                OS << "]";
            }
            OS << "]";
        }
        Ids = nullptr;
        OS << "}";
    }
    OS << "],\n\"files\":["; for (size_t i = 0; i < FileV.size(); i++) { if (i) OS << ","; jstr(FileV[i]); } OS << "]}\n";
    OS.flush();
    return 0;
}
