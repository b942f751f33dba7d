// irdump: links LLVM bitcode of the repository's translation units, promotes
// scalar locals to SSA, computes a whole-program may-unwind relation and writes
// the functions whose definition lies in the repository as JSON.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DiagnosticInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Support/Path.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string SrcDir;
static const DataLayout *DL;
static Module *M;

static std::string fullPath(const DIFile *f) {
  if (!f) return "";
  SmallString<256> p;
  if (sys::path::is_absolute(f->getFilename())) p = f->getFilename();
  else { p = f->getDirectory(); sys::path::append(p, f->getFilename()); }
  sys::path::remove_dots(p, true);
  return std::string(p.str());
}
static bool inRepo(const std::string &p) { return p.compare(0, SrcDir.size(), SrcDir) == 0; }
static std::string rel(const std::string &p) {
  if (inRepo(p)) return "src/" + p.substr(SrcDir.size());
  return p;
}
static bool isRepoFn(const Function &F) {
  if (auto *sp = F.getSubprogram()) return inRepo(fullPath(sp->getFile()));
  return false;
}
static std::string diTypeName(const DIType *t) {
  if (!t) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType()) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType()) + "&&";
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType());
    case dwarf::DW_TAG_volatile_type: return diTypeName(d->getBaseType());
    case dwarf::DW_TAG_typedef:
      if (d->getBaseType() && !isa<DIBasicType>(d->getBaseType())) {
        std::string s = diTypeName(d->getBaseType());
        if (!s.empty()) return s;
      }
      return d->getName().str();
    default: return diTypeName(d->getBaseType());
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return diTypeName(c->getBaseType()) + "[]";
    std::string n = c->getName().str();
    std::string pre;
    for (DIScope *s = c->getScope(); s; s = s->getScope()) {
      if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
      if (!s->getName().empty()) pre = s->getName().str() + "::" + pre;
    }
    return pre + n;
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

static std::string tyStr(Type *t) {
  if (t->isPointerTy()) return "ptr";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isVoidTy()) return "void";
  if (t->isFloatTy()) return "float";
  if (t->isDoubleTy()) return "double";
  std::string s; raw_string_ostream os(s);
  if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) return "%" + st->getName().str(); }
  t->print(os); return os.str();
}

static std::map<const Value *, int> Ids;
static std::map<const BasicBlock *, int> BIds;
static std::set<const GlobalVariable *> UsedGlobals;

static json::Value constant(const Constant *c, int depth = 0);
static bool isUnset(const Value *v) {
  auto *ci = dyn_cast<CallInst>(v);
  return ci && ci->getCalledFunction() && ci->getCalledFunction()->getName().starts_with("__unset.");
}
static json::Value operand(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  if (auto *b = dyn_cast<BasicBlock>(v)) return json::Array{"b", BIds[b]};
  if (isUnset(v)) return json::Array{"undef"};
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  auto it = Ids.find(v);
  if (it == Ids.end()) return json::Array{"?"};
  return json::Array{"r", it->second};
}
static json::Value gepParts(const GEPOperator *g) {
  unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
  MapVector<Value *, APInt> var; APInt off(bw, 0);
  json::Array vars;
  if (!g->collectOffset(*DL, bw, var, off)) return json::Array{};
  for (auto &kv : var) vars.push_back(json::Array{operand(kv.first), kv.second.getSExtValue()});
  return json::Array{operand(g->getPointerOperand()), off.getSExtValue(), std::move(vars)};
}
static json::Value constant(const Constant *c, int depth) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() <= 64)
      return json::Array{"c", (int64_t)(i->getBitWidth() == 64 ? i->getSExtValue() : (int64_t)i->getZExtValue()), i->getBitWidth()};
    return json::Array{"?"};
  }
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s; f->getValueAPF().toString(s);
    return json::Array{"f", s.str().str()};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<UndefValue>(c)) return json::Array{"undef"};
  if (auto *f = dyn_cast<Function>(c)) return json::Array{"g", f->getName().str()};
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constant(cast<Constant>(ga->getAliasee()), depth);
  if (auto *g = dyn_cast<GlobalVariable>(c)) { UsedGlobals.insert(g); return json::Array{"g", g->getName().str()}; }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(e)) return json::Array{"gep", gepParts(g)};
    if (e->isCast()) return json::Array{"cast", e->getOpcodeName(), constant(e->getOperand(0), depth + 1)};
    return json::Array{"?", e->getOpcodeName()};
  }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    json::Array a;
    if (d->isString()) {
      for (unsigned char ch : d->getAsString()) a.push_back((int)ch);
      return json::Array{"bytes", std::move(a)};
    }
    for (unsigned i = 0; i < d->getNumElements(); ++i) a.push_back(constant(d->getElementAsConstant(i), depth + 1));
    return json::Array{"arr", (int64_t)DL->getTypeAllocSize(d->getElementType()), std::move(a)};
  }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero"};
  if (auto *ag = dyn_cast<ConstantAggregate>(c)) {
    json::Array a;
    if (auto *st = dyn_cast<StructType>(ag->getType())) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < ag->getNumOperands(); ++i)
        a.push_back(json::Array{(int64_t)sl->getElementOffset(i), constant(cast<Constant>(ag->getOperand(i)), depth + 1)});
      return json::Array{"struct", std::move(a)};
    }
    for (unsigned i = 0; i < ag->getNumOperands(); ++i) a.push_back(constant(cast<Constant>(ag->getOperand(i)), depth + 1));
    Type *et = nullptr;
    if (auto *at = dyn_cast<ArrayType>(ag->getType())) et = at->getElementType();
    return json::Array{"arr", et ? (int64_t)DL->getTypeAllocSize(et) : 0, std::move(a)};
  }
  return json::Array{"?"};
}

// ---------------- may-unwind --------------------------------------------
static std::map<const Function *, std::pair<bool, std::string>> Unw; // fn -> (may unwind, reason)
static const char *NoThrowExt[] = {"free", "malloc", "calloc", "realloc", "strdup", "__strdup", "memcpy", "memset", "memmove",
  "memcmp", "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception",
  "__cxa_allocate_exception", "__cxa_get_exception_ptr", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
  "__cxa_atexit", "abort", "exit", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_call_unexpected", "__cxa_pure_virtual",
  "snprintf", "vsnprintf", "sprintf", "strtod", "atof", "strtol", "fprintf", "printf", "puts", "__errno_location", "strchr",
  "strstr", "toupper", "tolower", "isdigit", "isalpha", "isspace", "fputc", "fputs", "fflush", "memchr", "strtoul", "strtoll"};
static std::set<std::string> NoThrowSet(std::begin(NoThrowExt), std::end(NoThrowExt));

static bool calleeMayUnwind(const CallBase *cb, std::string &why) {
  if (cb->doesNotThrow()) return false;
  const Value *cv = cb->getCalledOperand()->stripPointerCasts();
  if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
  const Function *f = dyn_cast<Function>(cv);
  if (!f) {
    if (isa<InlineAsm>(cv)) return false;
    why = "indirect call"; return true;
  }
  if (f->isIntrinsic()) return false;
  if (f->doesNotThrow()) return false;
  if (NoThrowSet.count(f->getName().str())) return false;
  if (f->isDeclaration()) {
    // PostgreSQL and C library functions report errors by longjmp or status; C names do not raise C++ exceptions.
    StringRef n = f->getName();
    if (!n.starts_with("_Z") && !n.starts_with("__cxa") && !n.starts_with("_Unwind")) return false;
    why = demangle(n.str()); return true;
  }
  auto it = Unw.find(f);
  if (it != Unw.end() && it->second.first) { why = demangle(f->getName().str()); return true; }
  return false;
}
// blocks reachable when only invokes with may-unwind callees take their unwind edge
static bool computeUnw(const Function &F, std::string &why) {
  std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> wl{&F.getEntryBlock()};
  // Which landing pads are entered at all?
  bool res = false;
  while (!wl.empty()) {
    const BasicBlock *b = wl.back(); wl.pop_back();
    if (!seen.insert(b).second) continue;
    for (const Instruction &I : *b) {
      if (isa<ResumeInst>(I)) { res = true; if (why.empty()) why = "resume"; }
      if (auto *ci = dyn_cast<CallInst>(&I)) {
        std::string w;
        if (calleeMayUnwind(ci, w)) {
          res = true;
          std::string l;
          if (auto dl = ci->getDebugLoc()) l = " at line " + std::to_string(dl.getLine());
          if (why.empty() || why == "resume") why = "calls " + w + l;
        }
      }
    }
    const Instruction *t = b->getTerminator();
    if (auto *iv = dyn_cast<InvokeInst>(t)) {
      wl.push_back(iv->getNormalDest());
      std::string w;
      if (calleeMayUnwind(iv, w)) {
        wl.push_back(iv->getUnwindDest());
        if (why.empty()) {
          // remember the first site, refined below if a resume is reached
        }
      }
    } else
      for (unsigned i = 0; i < t->getNumSuccessors(); ++i) wl.push_back(t->getSuccessor(i));
  }
  return res;
}

struct Promoter {
  static void run(Function &F) {
    if (F.isDeclaration()) return;
    DominatorTree DT(F);
    // an unset user variable must stay visible: LLVM would fold phi(undef, x) to x
    std::set<AllocaInst *> user;
    for (BasicBlock &B : F) for (Instruction &I : B)
      if (auto *dd = dyn_cast<DbgDeclareInst>(&I))
        if (auto *a = dyn_cast_or_null<AllocaInst>(dd->getAddress()))
          if (dd->getVariable() && !dd->getVariable()->isParameter() && !dd->getVariable()->isArtificial() && isAllocaPromotable(a) && a->getAllocatedType()->isSingleValueType()) user.insert(a);
    if (!user.empty()) {
      Instruction *at = nullptr;
      for (Instruction &I : F.getEntryBlock()) if (!isa<AllocaInst>(&I)) { at = &I; break; }
      for (AllocaInst *a : user) {
        Type *t = a->getAllocatedType();
        auto fc = F.getParent()->getOrInsertFunction("__unset." + tyStr(t), FunctionType::get(t, false));
        CallInst *ci = CallInst::Create(fc, "", at);
        new StoreInst(ci, a, at);
      }
    }
    while (true) {
      std::vector<AllocaInst *> as;
      for (Instruction &I : F.getEntryBlock())
        if (auto *a = dyn_cast<AllocaInst>(&I))
          if (isAllocaPromotable(a)) as.push_back(a);
      if (as.empty()) break;
      PromoteMemToReg(as, DT);
    }
  }
};

int main(int argc, char **argv) {
  // irdump <srcdir/> <out.json> <bc...>
  SrcDir = argv[1];
  if (SrcDir.back() != '/') SrcDir += '/';
  LLVMContext C;
  C.setDiagnosticHandlerCallBack([](const DiagnosticInfo &DI, void *) {});
  auto Mod = std::make_unique<Module>("all", C);
  SMDiagnostic Err;
  {
    Linker L(*Mod);
    for (int i = 3; i < argc; ++i) {
      auto m = parseIRFile(argv[i], Err, C);
      if (!m) { Err.print("irdump", errs()); return 2; }
      if (i == 3) { Mod->setDataLayout(m->getDataLayout()); Mod->setTargetTriple(m->getTargetTriple()); }
      if (L.linkInModule(std::move(m))) { errs() << "link error " << argv[i] << "\n"; return 2; }
    }
  }
  M = Mod.get(); DL = &M->getDataLayout();

  // may-unwind fixpoint (least: start from "does not", external C++ may)
  bool ch = true; int rounds = 0;
  while (ch) {
    ch = false; ++rounds;
    for (Function &F : *M) {
      if (F.isDeclaration()) continue;
      auto &e = Unw[&F];
      if (e.first) continue;
      std::string w;
      if (computeUnw(F, w)) { e = {true, w}; ch = true; }
    }
  }

  json::Object out;
  // ---- terminate sites: repo functions in which a may-unwind invoke unwinds to terminate
  json::Array term;
  for (Function &F : *M) {
    if (F.isDeclaration() || !isRepoFn(F)) continue;
    for (BasicBlock &B : F)
      if (auto *iv = dyn_cast<InvokeInst>(B.getTerminator())) {
        std::string w;
        if (!calleeMayUnwind(iv, w)) continue;
        // walk from the unwind destination until a call to terminate with no catch in between
        const BasicBlock *u = iv->getUnwindDest();
        for (const Instruction &I : *u)
          if (auto *ci = dyn_cast<CallInst>(&I))
            if (auto *cf = ci->getCalledFunction())
              if (cf->getName() == "__clang_call_terminate") {
                int line = iv->getDebugLoc() ? (int)iv->getDebugLoc().getLine() : 0;
                term.push_back(json::Object{{"fn", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"file", rel(fullPath(F.getSubprogram()->getFile()))}, {"line", line}, {"callee", w}});
              }
      }
  }
  out["terminate_sites"] = std::move(term);

  json::Object funcs, decls;
  for (Function &F : *M) {
    if (F.isIntrinsic() || F.getName().starts_with("__unset.")) continue;
    std::string name = F.getName().str();
    if (F.isDeclaration() || !isRepoFn(F)) {
      json::Object o{{"dem", demangle(name)}, {"nounwind", F.doesNotThrow()}, {"noreturn", F.doesNotReturn()}, {"def", !F.isDeclaration()}};
      if (!F.isDeclaration()) o["unw"] = Unw[&F].first;
      if (F.hasStructRetAttr()) o["sret"] = true;
      json::Array ca; // const/readonly pointer parameters cannot be told from IR; the demangled name carries const.
      decls[name] = std::move(o);
      continue;
    }
    Promoter::run(F);
    Ids.clear(); BIds.clear();
    int n = 0, bn = 0;
    for (Argument &a : F.args()) Ids[&a] = n++;
    for (BasicBlock &B : F) { BIds[&B] = bn++; for (Instruction &I : B) if (!I.getType()->isVoidTy()) Ids[&I] = n++; }
    DISubprogram *sp = F.getSubprogram();
    // variable names of allocas
    std::map<const Value *, const DILocalVariable *> var;
    for (BasicBlock &B : F) for (Instruction &I : B) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I))
      for (Value *lv : dv->location_ops()) if (isa<Argument>(lv) || isa<AllocaInst>(lv)) { if (!var.count(lv)) var[lv] = dv->getVariable(); }
    json::Object fo{{"dem", demangle(name)}, {"file", rel(fullPath(sp->getFile()))}, {"line", (int)sp->getLine()},
      {"internal", F.hasInternalLinkage()}, {"linkonce", F.hasLinkOnceLinkage()}, {"nounwind", F.doesNotThrow()}, {"unw", Unw[&F].first}, {"why", Unw[&F].second},
      {"noreturn", F.doesNotReturn()}, {"ret", tyStr(F.getReturnType())}, {"shortname", sp->getName().str()}, {"artificial", sp->isArtificial()},
      {"addrtaken", F.hasAddressTaken()}};
    json::Array args;
    DITypeRefArray ta = sp->getType() ? sp->getType()->getTypeArray() : DITypeRefArray();
    std::vector<std::string> ptypes;
    if (ta) for (unsigned i = 0; i < ta.size(); ++i) ptypes.push_back(diTypeName(ta[i]));
    if (!ptypes.empty()) fo["rettype"] = ptypes[0];
    unsigned ai = 1; // index into ptypes
    for (Argument &a : F.args()) {
      json::Object ao{{"name", a.getName().str()}, {"ty", tyStr(a.getType())}};
      if (a.hasStructRetAttr()) { ao["sret"] = true; ao["di"] = ptypes.empty() ? "" : ptypes[0]; }
      else { if (ai < ptypes.size()) ao["di"] = ptypes[ai]; ++ai; }
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    json::Array blocks;
    for (BasicBlock &B : F) {
      json::Array insts;
      for (Instruction &I : B) {
        if (isa<DbgInfoIntrinsic>(I) || isUnset(&I)) continue;
        json::Object o{{"op", I.getOpcodeName()}};
        if (!I.getType()->isVoidTy()) { o["r"] = Ids[&I]; o["ty"] = tyStr(I.getType()); }
        if (I.getDebugLoc()) {
          o["l"] = (int)I.getDebugLoc().getLine();
          if (auto *sc = dyn_cast<DIScope>(I.getDebugLoc().getScope())) {
            std::string fp = rel(fullPath(sc->getFile()));
            if (fp != rel(fullPath(sp->getFile()))) o["lf"] = fp;
          }
        }
        if (auto *a = dyn_cast<AllocaInst>(&I)) {
          o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
          o["aty"] = tyStr(a->getAllocatedType());
          if (var.count(a)) { o["var"] = var[a]->getName().str(); o["di"] = diTypeName(var[a]->getType()); }
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          o["gep"] = gepParts(cast<GEPOperator>(g));
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          o["f"] = operand(cb->getCalledOperand()->stripPointerCasts());
          json::Array as; for (auto &u : cb->args()) as.push_back(operand(u.get()));
          o["a"] = std::move(as);
          o["nt"] = cb->doesNotThrow(); o["nr"] = cb->doesNotReturn();
          if (cb->hasStructRetAttr()) o["sret"] = true;
          json::Array bv; for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->isByValArgument(i)) bv.push_back((int)i);
          if (!bv.empty()) o["byval"] = std::move(bv);
          if (cb->hasStructRetAttr()) o["srsize"] = (int64_t)DL->getTypeAllocSize(cb->getParamStructRetType(0));
          std::string w; o["mu"] = calleeMayUnwind(cb, w);
          if (auto *iv = dyn_cast<InvokeInst>(cb)) { o["n"] = BIds[iv->getNormalDest()]; o["u"] = BIds[iv->getUnwindDest()]; }
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          json::Array in; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) in.push_back(json::Array{BIds[p->getIncomingBlock(i)], operand(p->getIncomingValue(i))});
          o["in"] = std::move(in);
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { o["c"] = operand(br->getCondition()); o["t"] = BIds[br->getSuccessor(0)]; o["e"] = BIds[br->getSuccessor(1)]; }
          else o["t"] = BIds[br->getSuccessor(0)];
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          o["c"] = operand(sw->getCondition()); o["d"] = BIds[sw->getDefaultDest()];
          json::Array cs; for (auto &c : sw->cases()) cs.push_back(json::Array{(int64_t)c.getCaseValue()->getSExtValue(), BIds[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
        } else if (auto *cmp = dyn_cast<CmpInst>(&I)) {
          o["p"] = CmpInst::getPredicateName(cmp->getPredicate()).str();
          o["a"] = json::Array{operand(cmp->getOperand(0)), operand(cmp->getOperand(1))};
        } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
          o["cleanup"] = lp->isCleanup();
          json::Array cl; for (unsigned i = 0; i < lp->getNumClauses(); ++i) cl.push_back(json::Array{lp->isCatch(i) ? "catch" : "filter", operand(lp->getClause(i))});
          o["cl"] = std::move(cl);
        } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
          o["a"] = json::Array{operand(ev->getOperand(0))}; json::Array ix; for (unsigned k : ev->indices()) ix.push_back((int)k); o["ix"] = std::move(ix);
        } else if (auto *iv2 = dyn_cast<InsertValueInst>(&I)) {
          o["a"] = json::Array{operand(iv2->getOperand(0)), operand(iv2->getOperand(1))}; json::Array ix; for (unsigned k : iv2->indices()) ix.push_back((int)k); o["ix"] = std::move(ix);
        } else {
          json::Array as; for (auto &u : I.operands()) as.push_back(operand(u.get()));
          o["a"] = std::move(as);
          if (auto *ld = dyn_cast<LoadInst>(&I)) o["sz"] = (int64_t)DL->getTypeStoreSize(ld->getType());
          if (auto *st = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()); o["vty"] = tyStr(st->getValueOperand()->getType()); }
        }
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["blocks"] = std::move(blocks);
    funcs[name] = std::move(fo);
  }
  out["funcs"] = std::move(funcs);
  out["decls"] = std::move(decls);

  // all repo-defined globals plus every global referenced
  json::Object globs;
  Ids.clear(); BIds.clear();
  std::set<const GlobalVariable *> done;
  std::function<void(const GlobalVariable *)> dumpG = [&](const GlobalVariable *g) {
    if (!done.insert(g).second) return;
    json::Object o{{"const", g->isConstant()}, {"def", !g->isDeclaration()}, {"internal", g->hasLocalLinkage()}, {"size", g->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g->getValueType()) : 0}, {"dem", demangle(g->getName().str())}, {"tls", g->isThreadLocal()}};
    SmallVector<DIGlobalVariableExpression *, 1> gv; g->getDebugInfo(gv);
    if (!gv.empty()) { auto *v = gv[0]->getVariable(); o["file"] = rel(fullPath(v->getFile())); o["line"] = (int)v->getLine(); o["di"] = diTypeName(v->getType()); o["name"] = v->getName().str(); }
    UsedGlobals.clear();
    if (g->hasInitializer() && g->getName() != "llvm.global_ctors") o["init"] = constant(g->getInitializer());
    globs[g->getName().str()] = std::move(o);
    auto more = UsedGlobals; for (auto *h : more) dumpG(h);
  };
  { auto u = UsedGlobals; for (auto *g : u) dumpG(g); }
  for (GlobalVariable &g : M->globals()) {
    SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
    if (!gv.empty() && inRepo(fullPath(gv[0]->getVariable()->getFile()))) dumpG(&g);
  }
  out["globals"] = std::move(globs);

  // debug-info types
  DebugInfoFinder dif; dif.processModule(*M);
  json::Object types, enums;
  for (DIType *t : dif.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    DICompositeType *cc = const_cast<DICompositeType *>(c);
    std::string nm;
    if (!c) {
      if (auto *d = dyn_cast<DIDerivedType>(t))
        if (d->getTag() == dwarf::DW_TAG_typedef)
          if (auto *b = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
            if (b->getName().empty()) { cc = b; std::string pre; for (DIScope *s = d->getScope(); s; s = s->getScope()) { if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break; if (!s->getName().empty()) pre = s->getName().str() + "::" + pre; } nm = pre + d->getName().str(); }
      if (nm.empty()) continue;
      c = cc;
    } else nm = diTypeName(c);
    if (c->isForwardDecl() || nm.empty()) continue;
    std::string fp = fullPath(c->getFile());
    static const std::set<std::string> pgTypes = {"FmgrInfo", "FunctionCallInfoBaseData", "NullableDatum", "FuncCallContext", "MemoryContextCallback", "ReturnSetInfo", "HASHCTL", "HASHACTION", "AttInMetadata", "varlena"};
    if (!inRepo(fp) && !pgTypes.count(nm)) continue;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Object e; for (auto *el : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(el)) e[en->getName().str()] = en->getValue().getSExtValue();
      enums[nm] = std::move(e);
    } else {
      json::Array ms;
      for (auto *el : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(el)) {
        if (d->getTag() == dwarf::DW_TAG_inheritance) { ms.push_back(json::Object{{"base", diTypeName(d->getBaseType())}, {"off", (int64_t)d->getOffsetInBits() / 8}}); continue; }
        if (d->getTag() != dwarf::DW_TAG_member || d->isStaticMember()) continue;
        ms.push_back(json::Object{{"name", d->getName().str()}, {"off", (int64_t)d->getOffsetInBits() / 8}, {"size", (int64_t)d->getSizeInBits() / 8}, {"type", diTypeName(d->getBaseType())}, {"line", (int)d->getLine()}});
      }
      types[nm] = json::Object{{"size", (int64_t)c->getSizeInBits() / 8}, {"file", rel(fp)}, {"line", (int)c->getLine()}, {"members", std::move(ms)}};
    }
  }
  out["types"] = std::move(types);
  out["enums"] = std::move(enums);
  out["unwind_rounds"] = rounds;
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  os << json::Value(std::move(out));
  return 0;
}
