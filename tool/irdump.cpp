// irdump: reads LLVM bitcode of one translation unit (as produced by clang -O0 -g
// -fwhole-program-vtables), promotes scalar locals to SSA, and writes one JSON line per
// function that is written in the analysed repository, plus the library template
// instantiations that can reach one. Nothing is executed: this is a format change from
// the compiler's intermediate representation to something the rules can read.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string prefix; // repository prefix, e.g. /repo/
static const DataLayout *DL;

static std::string diName(const DIScope *s)
{
    if (!s || isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
    std::string up = diName(s->getScope());
    std::string n = s->getName().str();
    if (isa<DINamespace>(s) && n.empty()) n = "(anonymous namespace)";
    if (isa<DISubprogram>(s)) n = n.empty() ? "fn" : n;
    if (n.empty()) n = "(anon)";
    return up.empty() ? n : up + "::" + n;
}

static std::string stripTmpl(const std::string &s)
{
    std::string o; int depth = 0;
    for (size_t i = 0; i < s.size(); i++)
    {
        char c = s[i];
        if (c == '<') { depth++; continue; }
        if (c == '>') { if (depth > 0) depth--; continue; }
        if (depth == 0) o.push_back(c);
    }
    return o;
}

// stripped qualified class name -> list of composite types
static std::map<std::string, std::vector<const DICompositeType *>> composites;
static std::map<const StructType *, std::vector<std::string>> fieldCache;
static std::map<const StructType *, std::string> nameCache;

static std::string structName(const StructType *st)
{
    auto it = nameCache.find(st);
    if (it != nameCache.end()) return it->second;
    std::string n = st->hasName() ? st->getName().str() : "";
    for (const char *p : {"class.", "struct.", "union."})
        if (n.rfind(p, 0) == 0) { n = n.substr(strlen(p)); break; }
    // drop numeric uniquing suffix and .base
    bool again = true;
    while (again)
    {
        again = false;
        auto dot = n.rfind('.');
        if (dot != std::string::npos)
        {
            std::string tail = n.substr(dot + 1);
            bool num = !tail.empty() && tail.find_first_not_of("0123456789") == std::string::npos;
            if (num || tail == "base") { n = n.substr(0, dot); again = true; }
        }
    }
    return nameCache[st] = n;
}

static const std::vector<std::string> &structFields(StructType *st)
{
    auto it = fieldCache.find(st);
    if (it != fieldCache.end()) return it->second;
    std::vector<std::string> names(st->getNumElements());
    for (size_t i = 0; i < names.size(); i++) names[i] = "#" + std::to_string(i);
    auto ci = composites.find(structName(st));
    if (ci != composites.end() && st->isSized())
    {
        const StructLayout *sl = DL->getStructLayout(st);
        const DICompositeType *best = nullptr;
        for (auto c : ci->second)
            if (c->getSizeInBits() == sl->getSizeInBits() && (!best)) best = c;
        if (!best) best = ci->second.front();
        std::vector<bool> set(names.size(), false);
        for (auto e : best->getElements())
        {
            auto d = dyn_cast_or_null<DIDerivedType>(e);
            if (!d || d->isStaticMember()) continue;
            if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
            uint64_t off = d->getOffsetInBits() / 8;
            if (off >= sl->getSizeInBytes()) continue;
            unsigned idx = sl->getElementContainingOffset(off);
            if (idx < names.size() && !set[idx] && sl->getElementOffset(idx) == off)
            {
                if (d->getTag() == dwarf::DW_TAG_inheritance)
                {
                    if (d->getSizeInBits() == 0 && false) continue;
                    names[idx] = "<base>";
                    // an empty base shares the offset with the first member
                    auto bt = dyn_cast_or_null<DICompositeType>(d->getBaseType());
                    if (bt && bt->getElements().empty()) continue;
                    bool hasData = false;
                    if (bt) for (auto be : bt->getElements())
                        if (auto bd = dyn_cast_or_null<DIDerivedType>(be))
                            if (!bd->isStaticMember()) hasData = true;
                    if (bt && !hasData && !isa<StructType>(st->getElementType(idx))) continue;
                    set[idx] = hasData || true;
                }
                else { names[idx] = d->getName().str(); set[idx] = true; }
            }
        }
    }
    return fieldCache[st] = names;
}

static json::Object out_names; // mangled -> demangled

static void noteName(StringRef n)
{
    std::string s = n.str();
    if (out_names.find(s) == out_names.end()) out_names[s] = demangle(s);
}

static std::string tyName(Type *t)
{
    if (auto st = dyn_cast<StructType>(t)) { auto n = structName(st); return n.empty() ? "{}" : n; }
    std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}

struct FnCtx
{
    std::map<const Value *, int> ids;
    std::map<const BasicBlock *, int> bbs;
};

static std::string strLit(const GlobalVariable *g)
{
    if (!g->hasInitializer()) return "";
    auto c = dyn_cast<ConstantDataArray>(g->getInitializer());
    if (c && c->isCString()) return c->getAsCString().str();
    return "";
}
static bool isStrLit(const GlobalVariable *g)
{
    if (!g->hasPrivateLinkage() || !g->isConstant() || !g->hasInitializer()) return false;
    if (auto c = dyn_cast<ConstantDataArray>(g->getInitializer())) return c->isCString();
    return isa<ConstantAggregateZero>(g->getInitializer()) && g->getValueType()->isArrayTy();
}

static json::Value oper(const Value *v, FnCtx &cx)
{
    auto it = cx.ids.find(v);
    if (it != cx.ids.end()) return "%" + std::to_string(it->second);
    if (auto ci = dyn_cast<ConstantInt>(v))
    {
        if (ci->getBitWidth() == 1) return std::string(ci->isOne() ? "#1" : "#0");
        SmallString<32> s; ci->getValue().toStringSigned(s);
        return "#" + std::string(s.str());
    }
    if (isa<ConstantPointerNull>(v)) return "null";
    if (isa<UndefValue>(v)) return "undef";
    if (auto f = dyn_cast<Function>(v)) { noteName(f->getName()); return "@" + f->getName().str(); }
    if (auto g = dyn_cast<GlobalVariable>(v))
    {
        if (isStrLit(g)) return "\"" + json::fixUTF8(strLit(g));
        noteName(g->getName());
        return "@" + g->getName().str();
    }
    if (auto a = dyn_cast<GlobalAlias>(v)) { noteName(a->getName()); return "@" + a->getName().str(); }
    if (auto ce = dyn_cast<ConstantExpr>(v))
    {
        if (auto gep = dyn_cast<GEPOperator>(ce))
        {
            APInt off(64, 0);
            auto base = oper(gep->getPointerOperand(), cx);
            if (gep->accumulateConstantOffset(*DL, off))
                return (base.getAsString() ? base.getAsString()->str() : std::string("?")) + "+" + std::to_string(off.getSExtValue());
            return base;
        }
        if (ce->isCast()) return oper(ce->getOperand(0), cx);
        return "ce";
    }
    if (auto cf = dyn_cast<ConstantFP>(v))
    {
        SmallString<32> s; cf->getValueAPF().toString(s);
        return "f" + std::string(s.str());
    }
    if (isa<ConstantAggregateZero>(v)) return "zero";
    if (auto ca = dyn_cast<ConstantStruct>(v))
    {
        std::string s = "{";
        for (auto &o : ca->operands()) { auto j = oper(o, cx); if (auto t = j.getAsString()) s += t->str() + ","; }
        return s + "}";
    }
    if (auto mv = dyn_cast<MetadataAsValue>(v))
    {
        if (auto ms = dyn_cast<MDString>(mv->getMetadata())) return "!" + ms->getString().str();
        return "md";
    }
    return "?";
}

static const char *ordName(AtomicOrdering o) { return toIRString(o); }

static json::Value dumpFn(Function &f)
{
    FnCtx cx;
    int n = 0;
    json::Array args;
    for (auto &a : f.args())
    {
        cx.ids[&a] = n++;
        json::Object o;
        o["ty"] = tyName(a.getType());
        if (a.hasStructRetAttr()) o["sret"] = tyName(a.getParamStructRetType());
        if (a.hasByValAttr()) o["byval"] = true;
        args.push_back(std::move(o));
    }
    int bn = 0;
    for (auto &b : f)
    {
        cx.bbs[&b] = bn++;
        for (auto &i : b) if (!i.getType()->isVoidTy()) cx.ids[&i] = n++;
    }
    // names of locals/args from debug info
    json::Object vars;
    json::Array blocks;
    auto bb = [&](const BasicBlock *b) { return cx.bbs[b]; };
    for (auto &b : f)
    {
        json::Array ins;
        for (auto &i : b)
        {
            if (auto dv = dyn_cast<DbgVariableIntrinsic>(&i))
            {
                if (dv->getNumVariableLocationOps() >= 1)
                {
                    auto v = dv->getVariableLocationOp(0);
                    if (v && cx.ids.count(v) && dv->getVariable())
                    {
                        auto key = "%" + std::to_string(cx.ids[v]);
                        if (!vars.get(key)) vars[key] = dv->getVariable()->getName().str();
                    }
                }
                continue;
            }
            json::Object o;
            if (cx.ids.count(&i)) o["v"] = "%" + std::to_string(cx.ids[&i]);
            if (auto &dl = i.getDebugLoc())
            {
                const DILocation *loc = dl.get(); // code inlined by the front end is attributed to the call in this function
                while (loc->getInlinedAt()) loc = loc->getInlinedAt();
                o["l"] = (int)loc->getLine();
                if (auto sc = dyn_cast_or_null<DIScope>(loc->getScope()))
                {
                    auto fn = sc->getFilename();
                    if (!f.getSubprogram() || fn != f.getSubprogram()->getFilename()) o["lf"] = fn.str();
                }
            }
            if (auto a = dyn_cast<AllocaInst>(&i)) { o["op"] = "alloca"; o["ty"] = tyName(a->getAllocatedType()); }
            else if (auto l = dyn_cast<LoadInst>(&i))
            {
                o["op"] = "load"; o["a"] = json::Array{oper(l->getPointerOperand(), cx)}; o["ty"] = tyName(l->getType());
                if (l->isAtomic()) o["ord"] = ordName(l->getOrdering());
            }
            else if (auto s = dyn_cast<StoreInst>(&i))
            {
                o["op"] = "store"; o["a"] = json::Array{oper(s->getValueOperand(), cx), oper(s->getPointerOperand(), cx)};
                o["ty"] = tyName(s->getValueOperand()->getType());
                if (s->isAtomic()) o["ord"] = ordName(s->getOrdering());
            }
            else if (auto g = dyn_cast<GetElementPtrInst>(&i))
            {
                o["op"] = "gep";
                o["a"] = json::Array{oper(g->getPointerOperand(), cx)};
                o["ty"] = tyName(g->getSourceElementType());
                // path: list of steps; field steps "Class::field", array steps "[op]"
                json::Array path;
                Type *cur = g->getSourceElementType();
                bool first = true;
                for (auto &ix : g->indices())
                {
                    if (first)
                    {
                        first = false;
                        auto c = dyn_cast<ConstantInt>(ix);
                        if (!(c && c->isZero())) { auto j = oper(ix, cx); path.push_back("[" + (j.getAsString() ? j.getAsString()->str() : "?") + "]"); }
                        continue;
                    }
                    if (auto st = dyn_cast<StructType>(cur))
                    {
                        unsigned k = cast<ConstantInt>(ix)->getZExtValue();
                        path.push_back(structName(st) + "::" + structFields(st)[k]);
                        cur = st->getElementType(k);
                    }
                    else
                    {
                        auto j = oper(ix, cx);
                        path.push_back("[" + (j.getAsString() ? j.getAsString()->str() : "?") + "]");
                        cur = cur->isArrayTy() ? cur->getArrayElementType() : cur;
                    }
                }
                o["p"] = std::move(path);
                APInt off(64, 0);
                if (g->accumulateConstantOffset(*DL, off)) o["off"] = (int64_t)off.getSExtValue();
            }
            else if (auto c = dyn_cast<CallBase>(&i))
            {
                auto callee = c->getCalledOperand()->stripPointerCasts();
                if (auto al = dyn_cast<GlobalAlias>(callee)) callee = al->getAliasee()->stripPointerCasts();
                if (auto fc = dyn_cast<Function>(callee))
                {
                    auto nm = fc->getName();
                    if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm == "llvm.assume") continue;
                }
                o["op"] = isa<InvokeInst>(c) ? "invoke" : "call";
                o["f"] = oper(callee, cx);
                json::Array as;
                for (auto &ar : c->args()) as.push_back(oper(ar, cx));
                o["a"] = std::move(as);
                o["ty"] = tyName(c->getType());
                if (c->doesNotThrow()) o["nt"] = 1;
                if (c->doesNotReturn()) o["nr"] = 1;
                if (c->arg_size() && c->paramHasAttr(0, Attribute::StructRet)) o["sret"] = tyName(c->getParamStructRetType(0));
                if (auto inv = dyn_cast<InvokeInst>(c))
                {
                    o["s"] = json::Array{bb(inv->getNormalDest()), bb(inv->getUnwindDest())};
                }
            }
            else if (auto br = dyn_cast<BranchInst>(&i))
            {
                o["op"] = "br";
                json::Array s;
                for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(bb(br->getSuccessor(k)));
                o["s"] = std::move(s);
                if (br->isConditional()) o["a"] = json::Array{oper(br->getCondition(), cx)};
            }
            else if (auto sw = dyn_cast<SwitchInst>(&i))
            {
                o["op"] = "switch"; o["a"] = json::Array{oper(sw->getCondition(), cx)};
                json::Array s, cv; s.push_back(bb(sw->getDefaultDest()));
                for (auto &cs : sw->cases()) { s.push_back(bb(cs.getCaseSuccessor())); cv.push_back(oper(cs.getCaseValue(), cx)); }
                o["s"] = std::move(s); o["cv"] = std::move(cv);
            }
            else if (auto r = dyn_cast<ReturnInst>(&i)) { o["op"] = "ret"; if (r->getReturnValue()) o["a"] = json::Array{oper(r->getReturnValue(), cx)}; }
            else if (auto r = dyn_cast<ResumeInst>(&i)) { o["op"] = "resume"; o["a"] = json::Array{oper(r->getValue(), cx)}; }
            else if (isa<UnreachableInst>(&i)) o["op"] = "unreachable";
            else if (auto p = dyn_cast<PHINode>(&i))
            {
                o["op"] = "phi"; o["ty"] = tyName(p->getType());
                json::Array as, fr;
                for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { as.push_back(oper(p->getIncomingValue(k), cx)); fr.push_back(bb(p->getIncomingBlock(k))); }
                o["a"] = std::move(as); o["fr"] = std::move(fr);
            }
            else if (auto c = dyn_cast<CmpInst>(&i)) { o["op"] = "cmp"; o["k"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["a"] = json::Array{oper(c->getOperand(0), cx), oper(c->getOperand(1), cx)}; }
            else if (auto bo = dyn_cast<BinaryOperator>(&i)) { o["op"] = "bin"; o["k"] = bo->getOpcodeName(); o["a"] = json::Array{oper(bo->getOperand(0), cx), oper(bo->getOperand(1), cx)}; o["ty"] = tyName(bo->getType()); }
            else if (auto ca = dyn_cast<CastInst>(&i)) { o["op"] = "cast"; o["k"] = ca->getOpcodeName(); o["a"] = json::Array{oper(ca->getOperand(0), cx)}; o["ty"] = tyName(ca->getType()); o["fty"] = tyName(ca->getSrcTy()); }
            else if (auto lp = dyn_cast<LandingPadInst>(&i))
            {
                o["op"] = "landingpad"; json::Array cl;
                if (lp->isCleanup()) o["cleanup"] = 1;
                for (unsigned k = 0; k < lp->getNumClauses(); k++)
                    if (lp->isCatch(k)) cl.push_back(oper(lp->getClause(k)->stripPointerCasts(), cx)); else cl.push_back("filter");
                o["c"] = std::move(cl);
            }
            else if (auto s = dyn_cast<SelectInst>(&i)) { o["op"] = "select"; o["a"] = json::Array{oper(s->getCondition(), cx), oper(s->getTrueValue(), cx), oper(s->getFalseValue(), cx)}; }
            else if (auto e = dyn_cast<ExtractValueInst>(&i)) { o["op"] = "extractvalue"; o["a"] = json::Array{oper(e->getAggregateOperand(), cx)}; o["ix"] = (int)e->getIndices()[0]; }
            else if (auto e = dyn_cast<InsertValueInst>(&i)) { o["op"] = "insertvalue"; o["a"] = json::Array{oper(e->getAggregateOperand(), cx), oper(e->getInsertedValueOperand(), cx)}; o["ix"] = (int)e->getIndices()[0]; }
            else if (auto rw = dyn_cast<AtomicRMWInst>(&i)) { o["op"] = "atomicrmw"; o["k"] = AtomicRMWInst::getOperationName(rw->getOperation()).str(); o["a"] = json::Array{oper(rw->getPointerOperand(), cx), oper(rw->getValOperand(), cx)}; o["ord"] = ordName(rw->getOrdering()); }
            else if (auto fen = dyn_cast<FenceInst>(&i)) { o["op"] = "fence"; o["ford"] = ordName(fen->getOrdering()); }
            else if (auto cxg = dyn_cast<AtomicCmpXchgInst>(&i)) { o["op"] = "cmpxchg"; o["a"] = json::Array{oper(cxg->getPointerOperand(), cx), oper(cxg->getCompareOperand(), cx), oper(cxg->getNewValOperand(), cx)}; o["ord"] = ordName(cxg->getSuccessOrdering()); }
            else
            {
                o["op"] = i.getOpcodeName();
                json::Array as; for (auto &op : i.operands()) as.push_back(oper(op, cx));
                o["a"] = std::move(as);
            }
            ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
    }
    json::Object o;
    o["n"] = f.getName().str();
    noteName(f.getName());
    if (auto sp = f.getSubprogram())
    {
        o["file"] = sp->getFilename().str(); o["line"] = (int)sp->getLine();
        o["di"] = diName(sp->getScope()) + "::" + sp->getName().str();
        if (auto t = sp->getType())
        {
            json::Array pt;
            for (auto ty : t->getTypeArray())
            {
                if (!ty) { pt.push_back("void"); continue; }
                std::string s; const DIType *d = ty;
                while (d)
                {
                    if (auto dd = dyn_cast<DIDerivedType>(d))
                    {
                        if (dd->getTag() == dwarf::DW_TAG_typedef) { s += ""; d = dd->getBaseType(); continue; }
                        switch (dd->getTag())
                        {
                        case dwarf::DW_TAG_pointer_type: s += "*"; break;
                        case dwarf::DW_TAG_reference_type: s += "&"; break;
                        case dwarf::DW_TAG_rvalue_reference_type: s += "&&"; break;
                        case dwarf::DW_TAG_const_type: s += "c"; break;
                        default: s += "?"; break;
                        }
                        d = dd->getBaseType(); if (!d) s += "void"; continue;
                    }
                    s += diName(d); break;
                }
                pt.push_back(s);
            }
            o["pt"] = std::move(pt);
        }
    }
    if (f.hasInternalLinkage()) o["int"] = 1;
    if (f.doesNotThrow()) o["nt"] = 1;
    if (f.doesNotReturn()) o["nr"] = 1;
    o["args"] = std::move(args);
    o["ret"] = tyName(f.getReturnType());
    o["vars"] = std::move(vars);
    o["b"] = std::move(blocks);
    return o;
}

int main(int argc, char **argv)
{
    if (argc < 4) { errs() << "usage: irdump in.bc out.jsonl repo-prefix\n"; return 2; }
    prefix = argv[3];
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    DL = &m->getDataLayout();
    {
        PassBuilder pb;
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cam, mam);
        ModulePassManager mpm;
        if (auto e = pb.parsePassPipeline(mpm, "function(mem2reg)")) { errs() << "pass\n"; return 2; }
        mpm.run(*m, mam);
    }
    DebugInfoFinder df; df.processModule(*m);
    for (auto t : df.types())
        if (auto c = dyn_cast<DICompositeType>(t))
            if ((c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type) && !c->isForwardDecl())
                composites[stripTmpl(diName(c))].push_back(c);

    // which functions: those in the repository, and those (any origin) that can reach one
    std::set<Function *> keep;
    std::map<Function *, std::vector<Function *>> callers;
    std::vector<Function *> work;
    for (auto &f : *m)
    {
        if (f.isDeclaration()) continue;
        bool inRepo = false;
        if (auto sp = f.getSubprogram())
        {
            auto fn = sp->getFilename();
            inRepo = fn.starts_with(prefix) || (!fn.starts_with("/usr/"));
        }
        else inRepo = false; // compiler generated (global ctor helpers) are kept below if they reach one
        if (inRepo && keep.insert(&f).second) work.push_back(&f);
        for (auto &b : f) for (auto &i : b)
            for (auto &op : i.operands())
                if (auto g = dyn_cast<Function>(op->stripPointerCasts())) callers[g].push_back(&f);
    }
    while (!work.empty())
    {
        auto f = work.back(); work.pop_back();
        for (auto c : callers[f]) if (keep.insert(c).second) work.push_back(c);
    }
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    for (auto &f : *m) if (keep.count(&f)) os << json::Value(dumpFn(f)) << "\n";
    // vtables, typeinfo and class tables
    json::Object vt, ti, cls, gl;
    FnCtx cx;
    for (auto &g : m->globals())
    {
        auto n = g.getName();
        if (n.starts_with("_ZTV") && g.hasInitializer())
        {
            noteName(n);
            json::Array groups;
            if (auto cs = dyn_cast<ConstantStruct>(g.getInitializer()))
                for (auto &grp : cs->operands())
                {
                    json::Array slots;
                    if (auto ca = dyn_cast<ConstantArray>(grp)) for (auto &e : ca->operands()) slots.push_back(oper(e->stripPointerCasts(), cx));
                    groups.push_back(std::move(slots));
                }
            vt[n.str()] = std::move(groups);
        }
        if (n.starts_with("_ZTI") && g.hasInitializer())
        {
            noteName(n);
            json::Array bases;
            if (auto cs = dyn_cast<ConstantStruct>(g.getInitializer()))
                for (unsigned k = 2; k < cs->getNumOperands(); k++)
                {
                    auto o = oper(cs->getOperand(k), cx);
                    if (auto s = o.getAsString()) if (s->starts_with("@_ZTI")) bases.push_back(s->str());
                }
            ti[n.str()] = std::move(bases);
        }
    }
    for (auto &kv : composites) for (auto c : kv.second)
    {
        auto fn = c->getFilename();
        if (fn.starts_with("/usr/")) continue;
        auto q = diName(c);
        json::Array fields;
        for (auto e : c->getElements())
        {
            auto d = dyn_cast_or_null<DIDerivedType>(e);
            if (!d || d->isStaticMember()) continue;
            if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
            std::string tn; const DIType *b = d->getBaseType();
            while (auto dd = dyn_cast_or_null<DIDerivedType>(b))
            {
                if (dd->getTag() == dwarf::DW_TAG_pointer_type) tn += "*";
                else if (dd->getTag() == dwarf::DW_TAG_reference_type) tn += "&";
                b = dd->getBaseType();
            }
            if (b) tn += diName(b); else tn += "void";
            fields.push_back(json::Array{d->getTag() == dwarf::DW_TAG_inheritance ? std::string("<base>") : d->getName().str(), tn});
        }
        cls[q] = json::Object{{"file", fn.str()}, {"line", (int)c->getLine()}, {"fields", std::move(fields)}};
    }
    json::Array ctors;
    for (auto n : {"llvm.global_ctors"})
        if (auto g = m->getGlobalVariable(n))
            if (auto ca = dyn_cast<ConstantArray>(g->getInitializer()))
                for (auto &e : ca->operands())
                    if (auto cs = dyn_cast<ConstantStruct>(e)) ctors.push_back(oper(cs->getOperand(1)->stripPointerCasts(), cx));
    os << json::Value(json::Object{{"meta", 1}, {"vt", std::move(vt)}, {"ti", std::move(ti)}, {"cls", std::move(cls)}, {"ctors", std::move(ctors)}, {"names", std::move(out_names)}}) << "\n";
    return 0;
}
