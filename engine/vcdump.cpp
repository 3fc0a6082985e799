// vcdump: links LLVM bitcode of the real /repo sources and of the contract harnesses,
// runs a small semantics-preserving clean-up pipeline and dumps every remaining function as
// JSON lines for the VC generator (vcgen.py).
//   vcdump OUT in1.bc in2.bc ...
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <map>
#include <set>
#include <string>
#include <cstdio>
using namespace llvm;

static const DataLayout* DL;
static std::map<Type*, int> typeIds;
static std::vector<std::string> typeDefs;

static std::string q(StringRef s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static int tid(Type* t)
{
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    std::string d;
    uint64_t sz = t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 0;
    if (auto* it2 = dyn_cast<IntegerType>(t)) d = "[\"i\"," + std::to_string(sz) + "," + std::to_string(it2->getBitWidth()) + "]";
    else if (t->isFloatTy()) d = "[\"f\",4,32]";
    else if (t->isDoubleTy()) d = "[\"f\",8,64]";
    else if (t->isX86_FP80Ty()) d = "[\"f\",16,80]";
    else if (t->isPointerTy()) d = "[\"p\",8,64]";
    else if (auto* st = dyn_cast<StructType>(t))
    {
        if (!t->isSized()) d = "[\"o\",0,0]";
        else
        {
            const StructLayout* sl = DL->getStructLayout(st);
            d = "[\"s\"," + std::to_string(sz) + ",[";
            for (unsigned i = 0; i < st->getNumElements(); i++)
            {
                if (i) d += ",";
                d += "[" + std::to_string(sl->getElementOffset(i)) + "," + std::to_string(tid(st->getElementType(i))) + "]";
            }
            d += "]]";
        }
    }
    else if (auto* at = dyn_cast<ArrayType>(t))
    {
        d = "[\"a\"," + std::to_string(sz) + "," + std::to_string(at->getNumElements()) + "," + std::to_string(tid(at->getElementType())) + "]";
    }
    else if (auto* vt = dyn_cast<FixedVectorType>(t))
    {
        d = "[\"v\"," + std::to_string(sz) + "," + std::to_string(vt->getNumElements()) + "," + std::to_string(tid(vt->getElementType())) + "]";
    }
    else d = "[\"o\",0,0]";
    int id = typeDefs.size();
    typeDefs.push_back(d);
    typeIds[t] = id;
    return id;
}

struct FnCtx
{
    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> bbs;
};

static std::string enc(const Value* v, FnCtx* cx);

static std::string encConst(const Constant* c, FnCtx* cx)
{
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        SmallString<32> s;
        ci->getValue().toStringSigned(s);
        std::string n = s.str().str();
        if (n.size() > 15) n = "\"" + n + "\"";
        return "[\"i\"," + std::to_string(ci->getBitWidth()) + "," + n + "]";
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        APFloat f = cf->getValueAPF();
        bool li;
        unsigned bits = c->getType()->isFloatTy() ? 32 : c->getType()->isDoubleTy() ? 64 : 80;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        char b[64];
        double d = f.convertToDouble();
        if (d != d) snprintf(b, 64, "nan");
        else snprintf(b, 64, "%a", d);
        return "[\"f\"," + std::to_string(bits) + ",\"" + b + "\"]";
    }
    if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
    if (isa<UndefValue>(c)) return "[\"u\"," + std::to_string(tid(c->getType())) + "]";
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + std::to_string(tid(c->getType())) + "]";
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return encConst(ga->getAliasee(), cx);
    if (auto* gv = dyn_cast<GlobalValue>(c)) return "[\"g\"," + q(gv->getName()) + ",0]";
    if (auto* da = dyn_cast<ConstantDataSequential>(c))
    {
        if (da->getElementType()->isIntegerTy(8))
        {
            std::string h;
            static const char* hx = "0123456789abcdef";
            for (unsigned char ch : da->getRawDataValues()) { h += hx[ch >> 4]; h += hx[ch & 15]; }
            return "[\"b\"," + std::to_string(tid(c->getType())) + ",\"" + h + "\"]";
        }
        std::string r = "[\"a\"," + std::to_string(tid(c->getType())) + ",[";
        for (unsigned i = 0; i < da->getNumElements(); i++)
        {
            if (i) r += ",";
            r += encConst(da->getElementAsConstant(i), cx);
        }
        return r + "]]";
    }
    if (isa<ConstantAggregate>(c))
    {
        std::string r = "[\"a\"," + std::to_string(tid(c->getType())) + ",[";
        for (unsigned i = 0; i < c->getNumOperands(); i++)
        {
            if (i) r += ",";
            r += encConst(cast<Constant>(c->getOperand(i)), cx);
        }
        return r + "]]";
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if (c->getType()->isPointerTy())
        {
            APInt off(64, 0);
            const Value* b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (auto* ga = dyn_cast<GlobalAlias>(b)) b = ga->getAliasee();
            if (auto* gv = dyn_cast<GlobalValue>(b))
                return "[\"g\"," + q(gv->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
            if (isa<ConstantPointerNull>(b))
                return "[\"np\"," + std::to_string(off.getSExtValue()) + "]";
        }
        std::string r = "[\"ce\"," + q(ce->getOpcodeName()) + "," + std::to_string(tid(c->getType())) + ",[";
        for (unsigned i = 0; i < ce->getNumOperands(); i++)
        {
            if (i) r += ",";
            r += encConst(cast<Constant>(ce->getOperand(i)), cx);
        }
        return r + "]]";
    }
    if (isa<DSOLocalEquivalent>(c)) return enc(cast<DSOLocalEquivalent>(c)->getGlobalValue(), cx);
    return "[\"x\"]";
}

static std::string enc(const Value* v, FnCtx* cx)
{
    if (auto* c = dyn_cast<Constant>(v)) return encConst(c, cx);
    if (isa<MetadataAsValue>(v)) return "[\"m\"]";
    if (isa<InlineAsm>(v)) return "[\"asm\"," + q(cast<InlineAsm>(v)->getAsmString()) + "]";
    auto it = cx->ids.find(v);
    if (it == cx->ids.end()) return "[\"x\"]";
    return std::to_string(it->second);   // plain number = SSA id
}

// attribute: never inline functions that are defined in files below /repo (or the harness itself)
static bool isRepoFunction(const Function& F, const std::string& root)
{
    if (auto* sp = F.getSubprogram())
    {
        std::string f = sp->getFilename().str();
        std::string d = sp->getDirectory().str();
        std::string full = (!f.empty() && f[0] == '/') ? f : d + "/" + f;
        return full.compare(0, root.size(), root) == 0;
    }
    return false;
}

static bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    std::string out = argv[1];
    std::string root = getenv("VC_REPO") ? getenv("VC_REPO") : "/repo";
    const char* opts[] = {"vcdump", "-inline-threshold=1500", "-inlinehint-threshold=1500", "-inlinecold-threshold=1500"};
    cl::ParseCommandLineOptions(4, opts);
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M;
    for (int i = 2; i < argc; i++)
    {
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print("vcdump", errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m), Linker::Flags::None)) { errs() << "link failed " << argv[i] << "\n"; return 2; }
    }
    DL = &M->getDataLayout();
    // annotations on functions (contract stubs, options)
    std::map<std::string, std::vector<std::string>> annos;
    if (auto* ga = M->getGlobalVariable("llvm.global.annotations"))
        if (auto* ca = dyn_cast<ConstantArray>(ga->getInitializer()))
            for (auto& op : ca->operands())
            {
                auto* cs = cast<ConstantStruct>(op);
                auto* f = cs->getOperand(0)->stripPointerCasts();
                auto* sg = dyn_cast<GlobalVariable>(cs->getOperand(1)->stripPointerCasts());
                if (sg && sg->hasInitializer())
                    if (auto* da = dyn_cast<ConstantDataArray>(sg->getInitializer()))
                        annos[f->getName().str()].push_back(da->getAsCString().str());
            }
    std::set<std::string> keep;
    for (auto& F : *M)
    {
        std::string n = F.getName().str();
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        bool harness = startsWith(n, "vc_harness_") || annos.count(n) || startsWith(n, "vci_");
        if (harness) { keep.insert(n); F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); continue; }
        if (isRepoFunction(F, root) ) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
        else F.removeFnAttr(Attribute::NoInline);
        std::string dn = demangle(n);
        // iostream / string formatting is modelled, never inlined
        if (dn.find("basic_ostream") != std::string::npos || dn.find("basic_stringstream") != std::string::npos ||
            dn.find("basic_ostringstream") != std::string::npos || dn.find("basic_istream") != std::string::npos ||
            dn.find("std::locale") != std::string::npos || dn.find("basic_ios") != std::string::npos || dn.find("basic_stringbuf") != std::string::npos
            || dn.find("std::ctype") != std::string::npos || startsWith(dn, "std::ostream& ") || startsWith(dn, "std::ios_base"))
        { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    }
    {
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        MPM.addPass(InternalizePass([&](const GlobalValue& gv) {
            return keep.count(gv.getName().str()) || startsWith(gv.getName().str(), "llvm.") ; }));
        MPM.addPass(GlobalDCEPass());
        std::string pipe = getenv("VC_PIPE") ? getenv("VC_PIPE") :
            "function(sroa<modify-cfg>,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),"
            "cgscc(devirt<2>(inline,function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg))),"
            "globaldce,function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg),globaldce";
        if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    FILE* fo = fopen(out.c_str(), "w");
    if (!fo) return 2;
    auto emit = [&](const std::string& tag, const std::string& name, const std::string& body)
    { fprintf(fo, "%s\t%s\t%s\n", tag.c_str(), name.c_str(), body.c_str()); };
    if (getenv("VC_LL")) { std::error_code ec; raw_fd_ostream os(getenv("VC_LL"), ec); M->print(os, nullptr); }
    for (auto& gv : M->globals())
    {
        std::string n = gv.getName().str();
        if (startsWith(n, "llvm.") && n != "llvm.global_ctors") continue;
        std::string b = "[" + std::to_string(tid(gv.getValueType())) + "," + (gv.isConstant() ? "1" : "0") + ",";
        b += gv.hasInitializer() ? encConst(gv.getInitializer(), nullptr) : "null";
        emit("G", n, b + "]");
    }
    for (auto& F : *M)
    {
        std::string n = F.getName().str();
        std::string meta = "[" + q(demangle(n)) + ",[";
        if (annos.count(n)) { bool f = true; for (auto& a : annos[n]) { if (!f) meta += ","; f = false; meta += q(a); } }
        meta += "]," + std::string(F.isDeclaration() ? "1" : "0") + "," + (isRepoFunction(F, root) ? "1" : "0");
        std::string file = ""; unsigned line = 0;
        if (auto* sp = F.getSubprogram()) { file = sp->getFilename().str(); line = sp->getLine(); }
        meta += "," + q(file) + "," + std::to_string(line) + "," + std::to_string(tid(F.getReturnType())) + "]";
        emit("D", n, meta);
        if (F.isDeclaration()) continue;
        FnCtx cx;
        int id = 0;
        std::string body = "{\"args\":[";
        bool first = true;
        for (auto& a : F.args())
        {
            cx.ids[&a] = id++;
            if (!first) body += ","; first = false;
            std::string byv = "0";
            if (a.hasByValAttr()) byv = std::to_string(DL->getTypeAllocSize(a.getParamByValType()).getFixedValue());
            body += "[" + std::to_string(tid(a.getType())) + "," + byv + "]";
        }
        int bi = 0;
        for (auto& B : F)
        {
            cx.bbs[&B] = bi++;
            for (auto& I : B) cx.ids[&I] = id++;
        }
        body += "],\"nvals\":" + std::to_string(id) + ",\"blocks\":[";
        first = true;
        for (auto& B : F)
        {
            if (!first) body += ","; first = false;
            body += "[";
            bool fi = true;
            for (auto& I : B)
            {
                if (auto* dvi = dyn_cast<DbgVariableIntrinsic>(&I))
                {
                    std::string opn = "null";
                    if (dvi->getNumVariableLocationOps() == 1 && dvi->getVariableLocationOp(0)) opn = enc(dvi->getVariableLocationOp(0), &cx);
                    bool plain = dvi->getExpression()->getNumElements() == 0;
                    if (dvi->getDebugLoc() && dvi->getDebugLoc()->getInlinedAt()) continue;
                    if (!fi) body += ","; fi = false;
                    body += "[\"dbg\",-1,0,0," + q(dvi->getVariable()->getName()) + "," + opn + "," + (isa<DbgDeclareInst>(dvi) ? "1" : "0") + "," + (plain ? "1" : "0") + "]";
                    continue;
                }
                if (auto* ii = dyn_cast<IntrinsicInst>(&I))
                {
                    auto k = ii->getIntrinsicID();
                    if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end || k == Intrinsic::dbg_label || k == Intrinsic::assume ||
                        k == Intrinsic::experimental_noalias_scope_decl || k == Intrinsic::invariant_start || k == Intrinsic::invariant_end) continue;
                }
                if (!fi) body += ","; fi = false;
                unsigned ln = 0;
                if (I.getDebugLoc()) ln = I.getDebugLoc().getLine();
                std::string op = I.getOpcodeName();
                std::string s = "[" + q(op) + "," + std::to_string(cx.ids[&I]) + "," + std::to_string(tid(I.getType())) + "," + std::to_string(ln);
                if (auto* g = dyn_cast<GetElementPtrInst>(&I))
                {
                    int64_t coff = 0;
                    std::string terms;
                    for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
                    {
                        Value* idx = gi.getOperand();
                        if (StructType* st = gi.getStructTypeOrNull())
                        {
                            coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                            continue;
                        }
                        int64_t stride = gi.getSequentialElementStride(*DL).getFixedValue();
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) coff += ci->getSExtValue() * stride;
                        else { if (!terms.empty()) terms += ","; terms += "[" + std::to_string(stride) + "," + enc(idx, &cx) + "," + std::to_string(idx->getType()->getIntegerBitWidth()) + "]"; }
                    }
                    s += "," + enc(g->getPointerOperand(), &cx) + "," + std::to_string(coff) + ",[" + terms + "]";
                }
                else if (auto* cb = dyn_cast<CallBase>(&I))
                {
                    s += "," + enc(cb->getCalledOperand(), &cx) + ",[";
                    bool fa = true;
                    for (unsigned i = 0; i < cb->arg_size(); i++)
                    {
                        if (!fa) s += ","; fa = false;
                        s += enc(cb->getArgOperand(i), &cx);
                    }
                    s += "]";
                    if (auto* inv = dyn_cast<InvokeInst>(cb))
                        s += "," + std::to_string(cx.bbs[inv->getNormalDest()]) + "," + std::to_string(cx.bbs[inv->getUnwindDest()]);
                }
                else if (auto* ph = dyn_cast<PHINode>(&I))
                {
                    s += ",[";
                    for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
                    {
                        if (i) s += ",";
                        s += "[" + std::to_string(cx.bbs[ph->getIncomingBlock(i)]) + "," + enc(ph->getIncomingValue(i), &cx) + "]";
                    }
                    s += "]";
                }
                else if (auto* br = dyn_cast<BranchInst>(&I))
                {
                    if (br->isConditional()) s += "," + enc(br->getCondition(), &cx) + "," + std::to_string(cx.bbs[br->getSuccessor(0)]) + "," + std::to_string(cx.bbs[br->getSuccessor(1)]);
                    else s += "," + std::to_string(cx.bbs[br->getSuccessor(0)]);
                }
                else if (auto* sw = dyn_cast<SwitchInst>(&I))
                {
                    s += "," + enc(sw->getCondition(), &cx) + "," + std::to_string(cx.bbs[sw->getDefaultDest()]) + ",[";
                    bool fa = true;
                    for (auto& c : sw->cases())
                    {
                        if (!fa) s += ","; fa = false;
                        s += "[" + enc(c.getCaseValue(), &cx) + "," + std::to_string(cx.bbs[c.getCaseSuccessor()]) + "]";
                    }
                    s += "]";
                }
                else if (auto* al = dyn_cast<AllocaInst>(&I))
                {
                    s += "," + std::to_string(DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue()) + "," + enc(al->getArraySize(), &cx) + "," + q(al->getName());
                }
                else if (auto* ld = dyn_cast<LoadInst>(&I)) s += "," + enc(ld->getPointerOperand(), &cx);
                else if (auto* st = dyn_cast<StoreInst>(&I)) s += "," + enc(st->getValueOperand(), &cx) + "," + enc(st->getPointerOperand(), &cx) + "," + std::to_string(tid(st->getValueOperand()->getType()));
                else if (auto* c = dyn_cast<CmpInst>(&I)) s += "," + q(CmpInst::getPredicateName(c->getPredicate())) + "," + enc(c->getOperand(0), &cx) + "," + enc(c->getOperand(1), &cx) + "," + std::to_string(tid(c->getOperand(0)->getType()));
                else if (auto* ev = dyn_cast<ExtractValueInst>(&I))
                {
                    s += "," + enc(ev->getAggregateOperand(), &cx) + ",[";
                    bool fa = true; for (unsigned i : ev->indices()) { if (!fa) s += ","; fa = false; s += std::to_string(i); }
                    s += "]";
                }
                else if (auto* iv = dyn_cast<InsertValueInst>(&I))
                {
                    s += "," + enc(iv->getAggregateOperand(), &cx) + "," + enc(iv->getInsertedValueOperand(), &cx) + ",[";
                    bool fa = true; for (unsigned i : iv->indices()) { if (!fa) s += ","; fa = false; s += std::to_string(i); }
                    s += "]";
                }
                else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I))
                {
                    s += "," + enc(sv->getOperand(0), &cx) + "," + enc(sv->getOperand(1), &cx) + ",[";
                    bool fa = true; for (int i : sv->getShuffleMask()) { if (!fa) s += ","; fa = false; s += std::to_string(i); }
                    s += "]";
                }
                else if (auto* lp = dyn_cast<LandingPadInst>(&I))
                {
                    s += std::string(",") + (lp->isCleanup() ? "1" : "0") + ",[";
                    for (unsigned i = 0; i < lp->getNumClauses(); i++)
                    {
                        if (i) s += ",";
                        s += std::string("[") + (lp->isCatch(i) ? "1" : "0") + "," + encConst(lp->getClause(i), &cx) + "]";
                    }
                    s += "]";
                }
                else if (auto* rmw = dyn_cast<AtomicRMWInst>(&I))
                {
                    s += "," + q(AtomicRMWInst::getOperationName(rmw->getOperation())) + "," + enc(rmw->getPointerOperand(), &cx) + "," + enc(rmw->getValOperand(), &cx) + "," + std::to_string(tid(rmw->getValOperand()->getType()));
                }
                else if (auto* cas = dyn_cast<AtomicCmpXchgInst>(&I))
                {
                    s += "," + enc(cas->getPointerOperand(), &cx) + "," + enc(cas->getCompareOperand(), &cx) + "," + enc(cas->getNewValOperand(), &cx) + "," + std::to_string(tid(cas->getNewValOperand()->getType()));
                }
                else
                {
                    s += ",[";
                    for (unsigned i = 0; i < I.getNumOperands(); i++)
                    {
                        if (i) s += ",";
                        s += enc(I.getOperand(i), &cx);
                    }
                    s += "]";
                    if (I.getNumOperands()) s += "," + std::to_string(tid(I.getOperand(0)->getType()));
                    else s += ",0";
                    if (auto* obo = dyn_cast<OverflowingBinaryOperator>(&I)) s += "," + std::to_string((obo->hasNoSignedWrap() ? 1 : 0) | (obo->hasNoUnsignedWrap() ? 2 : 0));
                }
                body += s + "]";
            }
            body += "]";
        }
        body += "]}";
        emit("F", n, body);
    }
    std::string tb = "[";
    for (size_t i = 0; i < typeDefs.size(); i++) { if (i) tb += ","; tb += typeDefs[i]; }
    emit("T", "-", tb + "]");
    fclose(fo);
    return 0;
}
