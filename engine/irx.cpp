// irx: mechanical exporter  LLVM IR -> JSON  (the only thing it drops: metadata
// other than line tables, attributes, alignment hints, fast-math flags,
// lifetime/debug intrinsics).  Runs sroa/mem2reg-style clean-up first so that
// the verifier sees SSA values instead of stack slots.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <string>
using namespace llvm;

static const DataLayout *DL;
static std::map<Type*, int> tyid;
static std::vector<Type*> tys;
static int T(Type *t)
{
  auto it = tyid.find(t);
  if (it != tyid.end()) return it->second;
  int id = tys.size(); tyid[t] = id; tys.push_back(t);
  if (auto *s = dyn_cast<StructType>(t)) for (auto *e : s->elements()) T(e);
  if (auto *a = dyn_cast<ArrayType>(t)) T(a->getElementType());
  if (auto *v = dyn_cast<VectorType>(t)) T(v->getElementType());
  return id;
}
static std::string esc(StringRef s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::map<const Value*, int> vid;
static std::set<const GlobalValue*> needed;
static std::deque<const GlobalValue*> work;
static void need(const GlobalValue *g)
{ if (needed.insert(g).second) work.push_back(g); }

static std::string op(const Value *v);
static std::string gepstr(const GEPOperator *g)
{
  // base, constant offset, [(operand, scale)]
  std::string r = "\"base\":" + op(g->getPointerOperand());
  APInt off(64, 0);
  std::string var;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
  {
    Value *idx = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull())
    {
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      off += APInt(64, DL->getStructLayout(st)->getElementOffset(f));
    }
    else
    {
      uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(idx))
        off += APInt(64, (uint64_t)(ci->getSExtValue() * (int64_t)sz));
      else
      {
        if (!var.empty()) var += ",";
        var += "[" + op(idx) + "," + std::to_string(sz) + "]";
      }
    }
  }
  r += ",\"off\":" + std::to_string((int64_t)off.getSExtValue()) + ",\"var\":[" + var + "]";
  return r;
}
static std::string fpbits(const APFloat &f)
{
  SmallString<32> s; f.bitcastToAPInt().toStringUnsigned(s); return s.str().str();
}
static std::string op(const Value *v)
{
  if (auto *c = dyn_cast<Constant>(v))
  {
    if (auto *ci = dyn_cast<ConstantInt>(c))
    {
      SmallString<40> s; ci->getValue().toStringSigned(s);
      if (ci->getBitWidth() == 1) s = ci->isZero() ? "0" : "1";
      return "[\"i\"," + std::to_string(ci->getBitWidth()) + "," + s.str().str() + "]";
    }
    if (auto *cf = dyn_cast<ConstantFP>(c))
      return "[\"f\"," + std::to_string(T(c->getType())) + "," + fpbits(cf->getValueAPF()) + "]";
    if (isa<ConstantPointerNull>(c)) return "[\"null\"]";
    if (isa<UndefValue>(c)) return "[\"undef\"," + std::to_string(T(c->getType())) + "]";
    if (isa<ConstantAggregateZero>(c)) return "[\"zero\"," + std::to_string(T(c->getType())) + "]";
    if (auto *gv = dyn_cast<GlobalAlias>(c)) return op(gv->getAliasee());
    if (auto *gv = dyn_cast<GlobalValue>(c)) { need(gv); return "[\"g\"," + esc(gv->getName()) + "]"; }
    if (auto *ca = dyn_cast<ConstantDataSequential>(c))
    {
      std::string r = "[\"agg\"," + std::to_string(T(c->getType())) + ",[";
      for (unsigned i = 0; i < ca->getNumElements(); ++i)
      { if (i) r += ","; r += op(ca->getElementAsConstant(i)); }
      return r + "]]";
    }
    if (isa<ConstantArray>(c) || isa<ConstantStruct>(c) || isa<ConstantVector>(c))
    {
      std::string r = "[\"agg\"," + std::to_string(T(c->getType())) + ",[";
      for (unsigned i = 0; i < c->getNumOperands(); ++i)
      { if (i) r += ","; r += op(c->getOperand(i)); }
      return r + "]]";
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c))
    {
      if (auto *g = dyn_cast<GEPOperator>(ce))
        return "[\"gep\",{" + gepstr(g) + "}]";
      std::string r = "[\"ce\"," + esc(ce->getOpcodeName()) + "," + std::to_string(T(ce->getType())) + ",[";
      for (unsigned i = 0; i < ce->getNumOperands(); ++i)
      { if (i) r += ","; r += op(ce->getOperand(i)); }
      return r + "]]";
    }
    std::string s; raw_string_ostream o(s); c->print(o);
    return "[\"unk\"," + esc(s) + "]";
  }
  if (isa<MetadataAsValue>(v)) return "[\"md\"]";
  if (isa<InlineAsm>(v)) return "[\"asm\"]";
  auto it = vid.find(v);
  return it == vid.end() ? std::string("[\"bad\"]") : "[\"v\"," + std::to_string(it->second) + "]";
}

int main(int argc, char **argv)
{
  // irx out.json in1.bc [in2.bc ...]
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M = parseIRFile(argv[2], err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  for (int i = 3; i < argc; ++i)
  {
    auto m2 = parseIRFile(argv[i], err, ctx);
    if (!m2) { err.print("irx", errs()); return 2; }
    if (Linker::linkModules(*M, std::move(m2), Linker::Flags::LinkOnlyNeeded)) return 2;
  }
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(sroa<preserve-cfg>,early-cse,simplifycfg,loop-simplify)"))
    { errs() << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream out(argv[1], ec);
  out << "{\"functions\":{";
  for (auto &f : *M)
    if (f.getName().starts_with("vp_proof_")) need(&f);
  std::map<std::string, std::string> globs;
  // functions implicitly needed by the executor
  if (auto *g = M->getNamedGlobal("llvm.global_ctors")) need(g);
  bool firstf = true;
  std::vector<const GlobalVariable*> gvs;
  while (!work.empty())
  {
    const GlobalValue *gv = work.front(); work.pop_front();
    if (auto *g = dyn_cast<GlobalVariable>(gv))
    {
      std::string r = "{\"ty\":" + std::to_string(T(g->getValueType())) +
        ",\"const\":" + (g->isConstant() ? "1" : "0") +
        ",\"size\":" + std::to_string((g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : (uint64_t)64)) + ",\"tls\":" + (g->isThreadLocal() ? "1":"0");
      if (g->hasInitializer()) r += ",\"init\":" + op(g->getInitializer());
      globs[g->getName().str()] = r + "}";
      continue;
    }
    auto *cf = dyn_cast<Function>(gv);
    if (!cf) continue;
    Function *f = const_cast<Function*>(cf);
    if (!firstf) out << ",\n"; firstf = false;
    out << esc(f->getName()) << ":{\"dem\":" << esc(demangle(f->getName().str())) << ",\"ret\":" << T(f->getReturnType()) << ",\"va\":" << (f->isVarArg() ? 1 : 0);
    if (auto *sp = f->getSubprogram())
      out << ",\"file\":" << esc((sp->getFilename().starts_with("/") ? std::string() : (sp->getDirectory() + "/").str()) + sp->getFilename().str()) << ",\"line\":" << sp->getLine();
    out << ",\"args\":[";
    vid.clear(); int n = 0;
    for (auto &a : f->args())
    {
      vid[&a] = n++;
      if (n > 1) out << ",";
      out << "[" << T(a.getType()) << "," << (a.hasByValAttr() ? (int64_t)DL->getTypeAllocSize(a.getParamByValType()) : 0) << "," << (a.hasStructRetAttr()?1:0) << "]";
    }
    out << "]";
    if (f->isDeclaration()) { out << ",\"decl\":1}"; continue; }
    std::map<const BasicBlock*, int> bid; int nb = 0;
    for (auto &b : *f)
    {
      bid[&b] = nb++; vid[&b] = -1;
      for (auto &i : b) vid[&i] = n++;
    }
    DominatorTree DT(*f); LoopInfo LI(DT);
    out << ",\"nv\":" << n << ",\"loops\":[";
    bool fl = true;
    for (auto *L : LI.getLoopsInPreorder())
    {
      if (!fl) out << ","; fl = false;
      out << "{\"h\":" << bid[L->getHeader()] << ",\"depth\":" << L->getLoopDepth() << ",\"blocks\":[";
      bool fb = true;
      for (auto *b : L->blocks()) { if (!fb) out << ","; fb = false; out << bid[b]; }
      out << "]}";
    }
    out << "],\"blocks\":[";
    bool fbk = true;
    for (auto &b : *f)
    {
      if (!fbk) out << ",\n"; fbk = false;
      out << "[";
      bool fi = true;
      for (auto &i : b)
      {
        if (auto *ii = dyn_cast<IntrinsicInst>(&i))
        {
          auto id = ii->getIntrinsicID();
          if (isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
              id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl ||
              id == Intrinsic::invariant_start || id == Intrinsic::invariant_end)
            continue;
        }
        if (!fi) out << ",\n"; fi = false;
        out << "{\"o\":" << esc(i.getOpcodeName()) << ",\"d\":" << vid[&i] << ",\"t\":" << T(i.getType());
        if (auto *bo = dyn_cast<BinaryOperator>(&i))
        { (void)bo; if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) out << ",\"nsw\":" << (ob->hasNoSignedWrap() ? 1 : 0) << ",\"nuw\":" << (ob->hasNoUnsignedWrap() ? 1 : 0); }
        if (auto &dl = i.getDebugLoc())
        {
          auto *sc = cast<DIScope>(dl.getScope());
          out << ",\"l\":[" << esc(sc->getFilename()) << "," << dl.getLine() << "]";
        }
        if (auto *c = dyn_cast<CmpInst>(&i)) out << ",\"p\":" << esc(CmpInst::getPredicateName(c->getPredicate()));
        if (auto *g = dyn_cast<GetElementPtrInst>(&i)) out << "," << gepstr(cast<GEPOperator>(g));
        else if (auto *p = dyn_cast<PHINode>(&i))
        {
          out << ",\"in\":[";
          for (unsigned k = 0; k < p->getNumIncomingValues(); ++k)
          { if (k) out << ","; out << "[" << op(p->getIncomingValue(k)) << "," << bid[p->getIncomingBlock(k)] << "]"; }
          out << "]";
        }
        else if (auto *br = dyn_cast<BranchInst>(&i))
        {
          out << ",\"bb\":[";
          for (unsigned k = 0; k < br->getNumSuccessors(); ++k)
          { if (k) out << ","; out << bid[br->getSuccessor(k)]; }
          out << "]";
          if (br->isConditional()) out << ",\"a\":[" << op(br->getCondition()) << "]";
        }
        else if (auto *sw = dyn_cast<SwitchInst>(&i))
        {
          out << ",\"a\":[" << op(sw->getCondition()) << "],\"def\":" << bid[sw->getDefaultDest()] << ",\"cases\":[";
          bool fc = true;
          for (auto &c : sw->cases())
          { if (!fc) out << ","; fc = false; out << "[" << op(c.getCaseValue()) << "," << bid[c.getCaseSuccessor()] << "]"; }
          out << "]";
        }
        else if (auto *cb = dyn_cast<CallBase>(&i))
        {
          out << ",\"f\":" << op(cb->getCalledOperand()) << ",\"a\":[";
          for (unsigned k = 0; k < cb->arg_size(); ++k)
          { if (k) out << ","; out << op(cb->getArgOperand(k)); }
          out << "],\"byval\":[";
          for (unsigned k = 0; k < cb->arg_size(); ++k)
          { if (k) out << ","; out << (cb->isByValArgument(k) ? (int64_t)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0); }
          out << "]";
          if (auto *iv = dyn_cast<InvokeInst>(&i))
            out << ",\"bb\":[" << bid[iv->getNormalDest()] << "," << bid[iv->getUnwindDest()] << "]";
        }
        else if (auto *al = dyn_cast<AllocaInst>(&i))
        {
          out << ",\"at\":" << T(al->getAllocatedType()) << ",\"size\":" << (uint64_t)DL->getTypeAllocSize(al->getAllocatedType()) << ",\"a\":[" << op(al->getArraySize()) << "]";
        }
        else if (auto *ev = dyn_cast<ExtractValueInst>(&i))
        {
          out << ",\"a\":[" << op(ev->getAggregateOperand()) << "],\"idx\":[";
          for (unsigned k = 0; k < ev->getNumIndices(); ++k) { if (k) out << ","; out << ev->getIndices()[k]; }
          out << "]";
        }
        else if (auto *iv = dyn_cast<InsertValueInst>(&i))
        {
          out << ",\"a\":[" << op(iv->getAggregateOperand()) << "," << op(iv->getInsertedValueOperand()) << "],\"idx\":[";
          for (unsigned k = 0; k < iv->getNumIndices(); ++k) { if (k) out << ","; out << iv->getIndices()[k]; }
          out << "]";
        }
        else if (auto *sv = dyn_cast<ShuffleVectorInst>(&i))
        {
          out << ",\"a\":[" << op(sv->getOperand(0)) << "," << op(sv->getOperand(1)) << "],\"mask\":[";
          auto m = sv->getShuffleMask();
          for (unsigned k = 0; k < m.size(); ++k) { if (k) out << ","; out << m[k]; }
          out << "]";
        }
        else
        {
          out << ",\"a\":[";
          for (unsigned k = 0; k < i.getNumOperands(); ++k)
          { if (k) out << ","; out << op(i.getOperand(k)); }
          out << "]";
          if (i.getNumOperands()) out << ",\"st\":" << T(i.getOperand(0)->getType());
          if (auto *rmw = dyn_cast<AtomicRMWInst>(&i)) out << ",\"rmw\":" << esc(AtomicRMWInst::getOperationName(rmw->getOperation()));
        }
        out << "}";
      }
      out << "]";
    }
    out << "]}";
  }
  out << "},\n\"globals\":{";
  bool fg = true;
  for (auto &g : globs) { if (!fg) out << ",\n"; fg = false; out << esc(g.first) << ":" << g.second; }
  out << "},\n\"types\":[";
  for (unsigned i = 0; i < tys.size(); ++i)
  {
    Type *t = tys[i];
    if (i) out << ",\n";
    out << "{\"k\":";
    if (t->isIntegerTy()) out << "\"i\",\"w\":" << t->getIntegerBitWidth();
    else if (t->isPointerTy()) out << "\"p\"";
    else if (t->isFloatTy()) out << "\"f\",\"w\":32";
    else if (t->isDoubleTy()) out << "\"f\",\"w\":64";
    else if (t->isX86_FP80Ty()) out << "\"f\",\"w\":80";
    else if (t->isVoidTy()) out << "\"void\"";
    else if (auto *s = dyn_cast<StructType>(t))
    {
      out << "\"s\",\"e\":[";
      for (unsigned k = 0; k < s->getNumElements(); ++k) { if (k) out << ","; out << T(s->getElementType(k)); }
      out << "],\"off\":[";
      if (s->isSized()) for (unsigned k = 0; k < s->getNumElements(); ++k)
      { if (k) out << ","; out << (uint64_t)DL->getStructLayout(s)->getElementOffset(k); }
      out << "]";
    }
    else if (auto *a = dyn_cast<ArrayType>(t)) out << "\"a\",\"e\":" << T(a->getElementType()) << ",\"n\":" << a->getNumElements();
    else if (auto *v = dyn_cast<FixedVectorType>(t)) out << "\"vec\",\"e\":" << T(v->getElementType()) << ",\"n\":" << v->getNumElements();
    else out << "\"x\"";
    if (t->isSized()) out << ",\"size\":" << (uint64_t)DL->getTypeAllocSize(t) << ",\"store\":" << (uint64_t)DL->getTypeStoreSize(t);
    out << "}";
  }
  out << "]}\n";
  return 0;
}
