// irdump: reads an LLVM module (bitcode), runs SROA on every function, and writes it as JSON lines.
// It interprets nothing: each instruction is written with its operands, types, data-layout offsets,
// source line, and each function with its natural loops.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
using namespace llvm;
using std::string;

static const DataLayout* DL;
static std::ostream* O;
static std::vector<Type*> types;
static std::unordered_map<Type*, int> typeIds;
static string esc(StringRef s) {
    string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static int tid(Type* t) {
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    types.push_back(t);
    typeIds[t] = id;
    if (auto* s = dyn_cast<StructType>(t)) { for (auto* e : s->elements()) tid(e); }
    else if (auto* a = dyn_cast<ArrayType>(t)) tid(a->getElementType());
    else if (auto* v = dyn_cast<FixedVectorType>(t)) tid(v->getElementType());
    return id;
}
static string tdef(Type* t) {
    std::ostringstream o;
    if (auto* i = dyn_cast<IntegerType>(t)) o << "{\"k\":\"int\",\"b\":" << i->getBitWidth() << ",\"sz\":" << DL->getTypeAllocSize(t) << "}";
    else if (t->isPointerTy()) o << "{\"k\":\"ptr\",\"b\":64,\"sz\":8}";
    else if (t->isVoidTy()) o << "{\"k\":\"void\",\"sz\":0}";
    else if (t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty() || t->isHalfTy() || t->isFP128Ty())
        o << "{\"k\":\"fp\",\"b\":" << t->getPrimitiveSizeInBits().getFixedValue() << ",\"sz\":" << DL->getTypeAllocSize(t) << "}";
    else if (auto* s = dyn_cast<StructType>(t)) {
        o << "{\"k\":\"st\",\"name\":" << esc(s->hasName() ? s->getName() : "") ;
        if (s->isSized()) {
            auto* l = DL->getStructLayout(s);
            o << ",\"e\":[";
            for (unsigned i = 0; i < s->getNumElements(); ++i) o << (i ? "," : "") << tid(s->getElementType(i));
            o << "],\"o\":[";
            for (unsigned i = 0; i < s->getNumElements(); ++i) o << (i ? "," : "") << (uint64_t)l->getElementOffset(i);
            o << "],\"sz\":" << (uint64_t)DL->getTypeAllocSize(s);
        }
        else o << ",\"e\":[],\"o\":[],\"sz\":0";
        o << "}";
    }
    else if (auto* a = dyn_cast<ArrayType>(t))
        o << "{\"k\":\"arr\",\"n\":" << a->getNumElements() << ",\"e\":" << tid(a->getElementType()) << ",\"sz\":" << (uint64_t)DL->getTypeAllocSize(a) << "}";
    else if (auto* v = dyn_cast<FixedVectorType>(t))
        o << "{\"k\":\"vec\",\"n\":" << v->getNumElements() << ",\"e\":" << tid(v->getElementType()) << ",\"sz\":" << (uint64_t)DL->getTypeAllocSize(v) << "}";
    else o << "{\"k\":\"other\",\"sz\":0}";
    return o.str();
}
static string constant(Constant* c);
static string constant(Constant* c) {
    std::ostringstream o;
    if (auto* i = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s;
        i->getValue().toStringUnsigned(s);
        o << "[\"i\"," << i->getBitWidth() << "," << (i->getBitWidth() <= 62 ? "" : "\"") << s.c_str() << (i->getBitWidth() <= 62 ? "" : "\"") << "]";
    }
    else if (isa<ConstantPointerNull>(c)) o << "[\"n\"]";
    else if (isa<UndefValue>(c)) o << "[\"u\"," << tid(c->getType()) << "]";
    else if (auto* f = dyn_cast<ConstantFP>(c)) {
        SmallString<40> s;
        f->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
        o << "[\"f\"," << f->getType()->getPrimitiveSizeInBits().getFixedValue() << ",\"" << s.c_str() << "\"]";
    }
    else if (isa<ConstantAggregateZero>(c)) o << "[\"z\"," << tid(c->getType()) << "]";
    else if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
    else if (auto* g = dyn_cast<GlobalValue>(c)) o << "[\"g\"," << esc(g->getName()) << ",0]";
    else if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        o << "[\"a\"," << tid(c->getType()) << ",[";
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) o << (i ? "," : "") << constant(ca->getOperand(i));
        o << "]]";
    }
    else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        o << "[\"a\"," << tid(c->getType()) << ",[";
        for (unsigned i = 0; i < cd->getNumElements(); ++i) o << (i ? "," : "") << constant(cd->getElementAsConstant(i));
        o << "]]";
    }
    else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off)) {
                auto* base = dyn_cast<GlobalValue>(gep->getPointerOperand()->stripPointerCasts());
                int64_t extra = 0;
                if (!base) {
                    APInt off2(64, 0);
                    auto* b2 = gep->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, off2, true);
                    base = dyn_cast<GlobalValue>(b2);
                    extra = off2.getSExtValue();
                }
                if (base) { o << "[\"g\"," << esc(base->getName()) << "," << off.getSExtValue() + extra << "]"; return o.str(); }
            }
        }
        if (ce->getOpcode() == Instruction::PtrToInt) { o << "[\"p2i\"," << constant(ce->getOperand(0)) << "]"; return o.str(); }
        if (ce->getOpcode() == Instruction::IntToPtr) { o << "[\"i2p\"," << constant(ce->getOperand(0)) << "]"; return o.str(); }
        string s; raw_string_ostream rs(s); ce->print(rs);
        o << "[\"x\"," << esc(s) << "]";
    }
    else { string s; raw_string_ostream rs(s); c->print(rs); o << "[\"x\"," << esc(s) << "]"; }
    return o.str();
}
static std::unordered_map<const Value*, int> ids;
static string val(Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    auto it = ids.find(v);
    if (it != ids.end()) return std::to_string(it->second);
    return "[\"x\",\"value\"]";
}
static std::unordered_map<const BasicBlock*, int> bids;

static void dumpInst(Instruction& I, std::ostream& o) {
    o << "[" << esc(I.getOpcodeName()) << "," << (I.getType()->isVoidTy() ? -1 : ids[&I]) << "," << tid(I.getType()) << ",";
    if (auto& dl = I.getDebugLoc()) {
        auto* sc = dyn_cast<DIScope>(dl->getScope());
        o << esc((sc ? sc->getFilename().rsplit('/').second.empty() ? sc->getFilename() : sc->getFilename().rsplit('/').second : "").str() + ":" + std::to_string(dl.getLine()));
    }
    else o << "\"\"";
    o << ",";
    auto ops = [&](std::initializer_list<Value*> l) {
        bool first = true;
        for (auto* v : l) { o << (first ? "" : ",") << val(v); first = false; }
    };
    if (auto* A = dyn_cast<AllocaInst>(&I)) { o << tid(A->getAllocatedType()) << "," << val(A->getArraySize()); }
    else if (auto* L = dyn_cast<LoadInst>(&I)) { o << val(L->getPointerOperand()); }
    else if (auto* S = dyn_cast<StoreInst>(&I)) { o << val(S->getPointerOperand()) << "," << val(S->getValueOperand()) << "," << tid(S->getValueOperand()->getType()); }
    else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*, APInt> vars;
        APInt off(64, 0);
        if (cast<GEPOperator>(G)->collectOffset(*DL, 64, vars, off)) {
            o << val(G->getPointerOperand()) << "," << off.getSExtValue() << ",[";
            bool first = true;
            for (auto& [v, s] : vars) { o << (first ? "" : ",") << "[" << val(v) << "," << s.getSExtValue() << "," << tid(v->getType()) << "]"; first = false; }
            o << "],[";
            // innermost fixed-size array indexed by a variable: element count and stride
            first = true;
            Type* cur = G->getSourceElementType();
            for (unsigned k = 1; k < G->getNumIndices(); ++k) {
                Value* ix = G->getOperand(k + 1);
                if (auto* at = dyn_cast<ArrayType>(cur)) {
                    if (!isa<ConstantInt>(ix)) { o << (first ? "" : ",") << "[" << at->getNumElements() << "," << (uint64_t)DL->getTypeAllocSize(at->getElementType()) << "]"; first = false; }
                    cur = at->getElementType();
                }
                else if (auto* st = dyn_cast<StructType>(cur)) cur = st->getElementType((unsigned)cast<ConstantInt>(ix)->getZExtValue());
                else break;
            }
            o << "]";
        }
        else o << "\"unsupported\"";
    }
    else if (auto* B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) o << val(B->getCondition()) << "," << bids[B->getSuccessor(0)] << "," << bids[B->getSuccessor(1)];
        else o << bids[B->getSuccessor(0)];
    }
    else if (auto* S = dyn_cast<SwitchInst>(&I)) {
        o << val(S->getCondition()) << "," << bids[S->getDefaultDest()] << ",[";
        bool first = true;
        for (auto& c : S->cases()) { o << (first ? "" : ",") << "[" << constant(c.getCaseValue()) << "," << bids[c.getCaseSuccessor()] << "]"; first = false; }
        o << "]";
    }
    else if (auto* P = dyn_cast<PHINode>(&I)) {
        o << "[";
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) o << (i ? "," : "") << "[" << val(P->getIncomingValue(i)) << "," << bids[P->getIncomingBlock(i)] << "]";
        o << "]";
    }
    else if (auto* C = dyn_cast<CallBase>(&I)) {
        auto* callee = C->getCalledOperand()->stripPointerCasts();
        if (auto* ia = dyn_cast<InlineAsm>(callee)) { o << "[\"asm\"," << esc(ia->getAsmString()) << "]"; }
        else o << val(callee);
        o << ",[";
        for (unsigned i = 0; i < C->arg_size(); ++i) {
            o << (i ? "," : "");
            if (C->getArgOperand(i)->getType()->isMetadataTy()) o << "[\"x\",\"metadata\"]";
            else o << val(C->getArgOperand(i));
        }
        o << "],[";
        for (unsigned i = 0; i < C->arg_size(); ++i) o << (i ? "," : "") << tid(C->getArgOperand(i)->getType());
        o << "],[";
        bool first = true;
        for (unsigned i = 0; i < C->arg_size(); ++i) {
            if (C->isByValArgument(i)) { o << (first ? "" : ",") << "[" << i << "," << (uint64_t)DL->getTypeAllocSize(C->getParamByValType(i)) << "]"; first = false; }
        }
        o << "]";
        if (auto* inv = dyn_cast<InvokeInst>(C)) o << "," << bids[inv->getNormalDest()] << "," << bids[inv->getUnwindDest()];
    }
    else if (auto* LP = dyn_cast<LandingPadInst>(&I)) {
        o << (LP->isCleanup() ? 1 : 0) << ",[";
        for (unsigned i = 0; i < LP->getNumClauses(); ++i) o << (i ? "," : "") << "[" << (LP->isCatch(i) ? "\"catch\"" : "\"filter\"") << "," << constant(LP->getClause(i)) << "]";
        o << "]";
    }
    else if (auto* E = dyn_cast<ExtractValueInst>(&I)) {
        o << val(E->getAggregateOperand()) << ",[";
        for (unsigned i = 0; i < E->getNumIndices(); ++i) o << (i ? "," : "") << E->getIndices()[i];
        o << "]";
    }
    else if (auto* E = dyn_cast<InsertValueInst>(&I)) {
        o << val(E->getAggregateOperand()) << "," << val(E->getInsertedValueOperand()) << ",[";
        for (unsigned i = 0; i < E->getNumIndices(); ++i) o << (i ? "," : "") << E->getIndices()[i];
        o << "]";
    }
    else if (auto* C = dyn_cast<CmpInst>(&I)) { o << esc(CmpInst::getPredicateName(C->getPredicate())) << "," << tid(C->getOperand(0)->getType()) << ","; ops({C->getOperand(0), C->getOperand(1)}); }
    else if (auto* A = dyn_cast<AtomicRMWInst>(&I)) { o << esc(AtomicRMWInst::getOperationName(A->getOperation())) << ","; ops({A->getPointerOperand(), A->getValOperand()}); }
    else if (auto* A = dyn_cast<AtomicCmpXchgInst>(&I)) { ops({A->getPointerOperand(), A->getCompareOperand(), A->getNewValOperand()}); o << "," << tid(A->getCompareOperand()->getType()); }
    else {
        o << "[";
        for (unsigned i = 0; i < I.getNumOperands(); ++i) o << (i ? "," : "") << (isa<BasicBlock>(I.getOperand(i)) ? "0" : val(I.getOperand(i)));
        o << "]," << (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0)) ? tid(I.getOperand(0)->getType()) : -1) << ",";
        int flags = 0;
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) flags |= (ob->hasNoSignedWrap() ? 1 : 0) | (ob->hasNoUnsignedWrap() ? 2 : 0);
        if (auto* pe = dyn_cast<PossiblyExactOperator>(&I)) flags |= pe->isExact() ? 4 : 0;
        o << flags;
    }
    o << "]";
}
static void dumpLoop(Loop* L, std::ostream& o, bool& first) {
    o << (first ? "" : ",") << "{\"h\":" << bids[L->getHeader()] << ",\"b\":[";
    first = false;
    bool f = true;
    for (auto* b : L->blocks()) { o << (f ? "" : ",") << bids[b]; f = false; }
    o << "]}";
    for (auto* s : L->getSubLoops()) dumpLoop(s, o, first);
}
int main(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: irdump in.bc out.jsonl [nosroa]\n"); return 2; }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 1; }
    DL = &M->getDataLayout();
    std::ofstream out(argv[2]);
    O = &out;
    {
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        FunctionPassManager FPM;
        FPM.addPass(LowerExpectIntrinsicPass());
        if (argc < 4) FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        ModulePassManager MPM;
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    // debug-info layouts of named record types
    DebugInfoFinder finder;
    finder.processModule(*M);
    for (auto* t : finder.types())
        if (auto* ct = dyn_cast<DICompositeType>(t)) {
            if (ct->isForwardDecl() || (ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_union_type)) continue;
            string full = ct->getName().str();
            for (auto* s = ct->getScope(); s; s = s->getScope()) if (!s->getName().empty() && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) full = s->getName().str() + "::" + full;
            if (full.find("webfront") == string::npos && full.find("vh::") == string::npos) continue;
            out << "{\"rec\":" << esc(full) << ",\"sz\":" << ct->getSizeInBits() / 8 << ",\"m\":[";
            bool first = true;
            for (auto* e : ct->getElements())
                if (auto* m = dyn_cast<DIDerivedType>(e))
                    if ((m->getTag() == dwarf::DW_TAG_member || m->getTag() == dwarf::DW_TAG_inheritance) && !m->isStaticMember()) {
                        string tn;
                        auto* bt = m->getBaseType();
                        while (auto* d = dyn_cast_or_null<DIDerivedType>(bt)) {
                            if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type) bt = d->getBaseType(); else break;
                        }
                        if (bt) { tn = bt->getName().str();
                            for (auto* s = bt->getScope(); s; s = s->getScope()) if (!s->getName().empty() && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) tn = s->getName().str() + "::" + tn; }
                        out << (first ? "" : ",") << "[" << esc(m->getName()) << "," << m->getOffsetInBits() / 8 << "," << (bt ? bt->getSizeInBits() : 0) / 8 << "," << esc(tn) << "," << (m->getTag() == dwarf::DW_TAG_inheritance ? 1 : 0) << "]";
                        first = false;
                    }
            out << "]}\n";
        }
    for (auto& G : M->globals()) {
        out << "{\"glob\":" << esc(G.getName()) << ",\"dem\":" << esc(demangle(G.getName().str())) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"ty\":" << tid(G.getValueType()) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0) << ",\"decl\":" << (G.hasInitializer() ? 0 : 1);
        bool big = false;
        if (G.hasInitializer()) {
            uint64_t sz = DL->getTypeAllocSize(G.getValueType());
            big = false;
            out << ",\"init\":" << constant(G.getInitializer());
            (void)sz;
        }
        out << "}\n";
    }
    for (auto& F : *M) {
        if (F.isDeclaration()) { out << "{\"decl\":" << esc(F.getName()) << ",\"dem\":" << esc(demangle(F.getName().str())) << "}\n"; continue; }
        ids.clear(); bids.clear();
        int n = 0, bn = 0;
        for (auto& a : F.args()) ids[&a] = n++;
        for (auto& b : F) { bids[&b] = bn++; for (auto& i : b) if (!i.getType()->isVoidTy()) ids[&i] = n++; }
        std::ostringstream o;
        o << "{\"fn\":" << esc(F.getName()) << ",\"dem\":" << esc(demangle(F.getName().str())) << ",\"ret\":" << tid(F.getReturnType()) << ",\"args\":[";
        bool first = true;
        for (auto& a : F.args()) { o << (first ? "" : ",") << tid(a.getType()); first = false; }
        o << "],\"sret\":" << (F.hasStructRetAttr() ? (int64_t)DL->getTypeAllocSize(F.getParamStructRetType(F.arg_size() && F.hasParamAttribute(0, Attribute::StructRet) ? 0 : 1)) : -1);
        if (auto* sp = F.getSubprogram()) o << ",\"src\":" << esc((sp->getFilename().rsplit('/').second.empty() ? sp->getFilename() : sp->getFilename().rsplit('/').second).str() + ":" + std::to_string(sp->getLine()));
        o << ",\"nounwind\":" << (F.doesNotThrow() ? 1 : 0) << ",\"blocks\":[";
        bool fb = true;
        for (auto& b : F) {
            o << (fb ? "" : ",") << "[";
            fb = false;
            bool fi = true;
            for (auto& i : b) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                o << (fi ? "" : ",");
                fi = false;
                dumpInst(i, o);
            }
            o << "]";
        }
        o << "],\"loops\":[";
        DominatorTree DT(F);
        LoopInfo LI(DT);
        bool fl = true;
        for (auto* L : LI) dumpLoop(L, o, fl);
        o << "]}\n";
        out << o.str();
    }
    for (size_t i = 0; i < types.size(); ++i) { string s = tdef(types[i]); out << "{\"t\":" << i << "," << s.substr(1) << "\n"; }
    return 0;
}
