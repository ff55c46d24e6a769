// irdump: prints an LLVM module as JSON for the Python analyses in /verif/lib.
// Nothing is executed: this is a structural dump of the (optimised) SSA form,
// with getelementptr reduced to  base + constant + sum(scale * index).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FormatVariadic.h>
#include <llvm/ADT/MapVector.h>
#include <set>
#include <map>
#include <string>
#include <functional>
#include <deque>
using namespace llvm;

static raw_ostream &O = outs();
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::set<const GlobalVariable *> wantGlobals;
static std::deque<const Function *> work;
static std::set<const Function *> seen;

static std::string js(StringRef s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32 || (unsigned char)c >= 127) {
      char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); r += b;
    } else r += c;
  }
  return r + "\"";
}
static std::string ty(Type *t) { std::string s; raw_string_ostream os(s); t->print(os, false, true); return s; }
static std::string fpstr(const APFloat &a) {
  bool l; APFloat b = a; b.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
  if (b.isNaN()) return "\"nan\""; if (b.isInfinity()) return b.isNegative() ? "\"-inf\"" : "\"inf\"";
  char buf[64]; snprintf(buf, sizeof buf, "%.17g", b.convertToDouble()); return std::string("\"") + buf + "\"";
}
static std::string val(const Value *v);

static void collect(const User *g, std::string &out) {
  auto *G = cast<GEPOperator>(g);
  unsigned bw = DL->getIndexSizeInBits(G->getPointerAddressSpace());
  MapVector<Value *, APInt> vars; APInt c(bw, 0);
  if (!G->collectOffset(*DL, bw, vars, c)) { out += "[\"gep?\"]"; return; }
  out += "[\"gep\"," + val(G->getPointerOperand()) + "," + std::to_string(c.getSExtValue()) + ",[";
  bool first = true;
  for (auto &p : vars) { if (!first) out += ","; first = false; out += "[" + std::to_string(p.second.getSExtValue()) + "," + val(p.first) + "]"; }
  out += "]]";
}
static std::string val(const Value *v) {
  if (auto *f = dyn_cast<Function>(v)) { if (!f->isDeclaration() && seen.insert(f).second) work.push_back(f); return "[\"fn\"," + js(f->getName()) + "]"; }
  if (auto *g = dyn_cast<GlobalVariable>(v)) { wantGlobals.insert(g); return "[\"glob\"," + js(g->getName()) + "]"; }
  if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() <= 64) return "[\"int\"," + std::to_string(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue()) + "," + std::to_string(c->getBitWidth()) + "]"; SmallString<64> s; c->getValue().toStringSigned(s); return "[\"int\"," + std::string(s.c_str()) + "," + std::to_string(c->getBitWidth()) + "]"; }
  if (auto *c = dyn_cast<ConstantFP>(v)) return "[\"fp\"," + fpstr(c->getValueAPF()) + "]";
  if (isa<ConstantPointerNull>(v)) return "[\"null\"]";
  if (isa<PoisonValue>(v)) return "[\"poison\"]";
  if (isa<UndefValue>(v)) return "[\"undef\"]";
  if (isa<ConstantAggregateZero>(v)) return "[\"zero\"]";
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (isa<GEPOperator>(ce)) { std::string s; collect(ce, s); return s; }
    std::string s = "[\"ce\"," + js(ce->getOpcodeName());
    for (auto &o : ce->operands()) s += "," + val(o);
    return s + "]";
  }
  if (auto *c = dyn_cast<ConstantAggregate>(v)) { std::string s = "[\"agg\""; for (auto &o : c->operands()) s += "," + val(o); return s + "]"; }
  if (auto *c = dyn_cast<ConstantDataSequential>(v)) { std::string s = "[\"agg\""; for (unsigned i = 0; i < c->getNumElements(); i++) s += "," + val(c->getElementAsConstant(i)); return s + "]"; }
  if (isa<BasicBlock>(v)) return "[\"bb\"," + std::to_string(ids[v]) + "]";
  if (isa<MetadataAsValue>(v)) return "[\"md\"]";
  if (isa<InlineAsm>(v)) return "[\"asm\"]";
  auto it = ids.find(v);
  if (it != ids.end()) return "[\"v\"," + std::to_string(it->second) + "]";
  return "[\"other\"]";
}
static void flat(const Constant *c, uint64_t off, std::string &out, bool &first, int &budget) {
  if (budget <= 0) return;
  Type *t = c->getType();
  auto emit = [&](const std::string &s) { if (!first) out += ","; first = false; budget--; out += "[" + std::to_string(off) + "," + std::to_string(DL->getTypeStoreSize(t).getFixedValue()) + "," + s + "]"; };
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) flat(e, off + sl->getElementOffset(i), out, first, budget); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements() && budget > 0; i++) if (auto *e = c->getAggregateElement((unsigned)i)) flat(e, off + i * sz, out, first, budget); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) flat(e, off + i * sz, out, first, budget); return; }
  emit(val(c));
}
static void dumpFn(const Function &F) {
  ids.clear(); int n = 0;
  for (auto &a : F.args()) ids[&a] = n++;
  for (auto &B : F) { ids[&B] = n++; for (auto &I : B) ids[&I] = n++; }
  O << "{\"name\":" << js(F.getName()) << ",\"args\":[";
  bool f1 = true; for (auto &a : F.args()) { if (!f1) O << ","; f1 = false; O << "{\"id\":" << ids[&a] << ",\"ty\":" << js(ty(a.getType())) << ",\"name\":" << js(a.getName());
    if (a.hasStructRetAttr()) O << ",\"sret\":" << DL->getTypeAllocSize(a.getParamStructRetType()).getFixedValue();
    if (a.hasByValAttr()) O << ",\"byval\":" << DL->getTypeAllocSize(a.getParamByValType()).getFixedValue(); O << "}"; }
  O << "],\"ret\":" << js(ty(F.getReturnType()));
  if (auto *sp = F.getSubprogram()) O << ",\"file\":" << js(sp->getFilename()) << ",\"line\":" << sp->getLine();
  O << ",\"blocks\":[";
  bool fb = true;
  for (auto &B : F) {
    if (!fb) O << ",\n"; fb = false;
    O << "{\"id\":" << ids[&B] << ",\"i\":[";
    bool fi = true;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue; }
      if (!fi) O << ",\n "; fi = false;
      O << "{\"id\":" << ids[&I] << ",\"op\":" << js(I.getOpcodeName()) << ",\"ty\":" << js(ty(I.getType()));
      if (I.getType()->isSized() && !I.getType()->isVoidTy()) O << ",\"sz\":" << DL->getTypeStoreSize(I.getType()).getFixedValue();
      if (isa<GetElementPtrInst>(I)) { std::string s; collect(&I, s); O << ",\"gep\":" << s; }
      else if (auto *p = dyn_cast<PHINode>(&I)) { O << ",\"inc\":["; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << val(p->getIncomingValue(i)) << "," << ids[p->getIncomingBlock(i)] << "]"; } O << "]"; }
      else if (auto *c = dyn_cast<CallBase>(&I)) {
        O << ",\"callee\":" << val(c->getCalledOperand()) << ",\"a\":["; bool fa = true;
        for (auto &a : c->args()) { if (!fa) O << ","; fa = false; O << val(a); } O << "]";
        { bool fb = true; for (unsigned k = 0; k < c->arg_size(); k++) if (c->isByValArgument(k) || (c->getArgOperand(k)->getType()->isPointerTy() && c->onlyReadsMemory(k))) { O << (fb ? ",\"bv\":[" : ",") << k; fb = false; } if (!fb) O << "]"; }
        if (c->hasStructRetAttr()) O << ",\"sret\":1";
        if (c->doesNotReturn()) O << ",\"noreturn\":1";
        if (c->onlyReadsMemory()) O << ",\"ro\":1";
        if (c->doesNotAccessMemory()) O << ",\"pure\":1";
        std::string ats; bool ft = true; for (auto &a : c->args()) { if (!ft) ats += ","; ft = false; ats += js(ty(a->getType())); } O << ",\"at\":[" << ats << "]";
        if (auto *iv = dyn_cast<InvokeInst>(&I)) O << ",\"succ\":[" << ids[iv->getNormalDest()] << "," << ids[iv->getUnwindDest()] << "]";
      } else {
        O << ",\"a\":["; bool fa = true; for (auto &a : I.operands()) { if (!fa) O << ","; fa = false; O << val(a); } O << "]";
        if (auto *c = dyn_cast<PossiblyDisjointInst>(&I)) if (c->isDisjoint()) O << ",\"dj\":1";
        if (auto *c = dyn_cast<CmpInst>(&I)) O << ",\"pred\":" << js(CmpInst::getPredicateName(c->getPredicate())) << ",\"oty\":" << js(ty(c->getOperand(0)->getType()));
        if (auto *a = dyn_cast<AllocaInst>(&I)) { auto s = a->getAllocationSize(*DL); O << ",\"size\":" << (s ? (int64_t)s->getFixedValue() : -1); }
        if (auto *s = dyn_cast<StoreInst>(&I)) O << ",\"vty\":" << js(ty(s->getValueOperand()->getType())) << ",\"vsz\":" << DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue();
        if (auto *c = dyn_cast<CastInst>(&I)) O << ",\"sty\":" << js(ty(c->getSrcTy()));
        if (auto *e = dyn_cast<ExtractValueInst>(&I)) { O << ",\"idx\":["; bool q = true; for (auto x : e->indices()) { if (!q) O << ","; q = false; O << x; } O << "]"; }
        if (auto *e = dyn_cast<InsertValueInst>(&I)) { O << ",\"idx\":["; bool q = true; for (auto x : e->indices()) { if (!q) O << ","; q = false; O << x; } O << "]"; }
        if (auto *b = dyn_cast<BranchInst>(&I)) { O << ",\"succ\":["; for (unsigned i = 0; i < b->getNumSuccessors(); i++) { if (i) O << ","; O << ids[b->getSuccessor(i)]; } O << "]"; }
        if (auto *s = dyn_cast<SwitchInst>(&I)) { O << ",\"def\":" << ids[s->getDefaultDest()] << ",\"cases\":["; bool q = true; for (auto &k : s->cases()) { if (!q) O << ","; q = false; O << "[" << k.getCaseValue()->getSExtValue() << "," << ids[k.getCaseSuccessor()] << "]"; } O << "]"; }
      }
      if (const DebugLoc &d = I.getDebugLoc()) {
        O << ",\"loc\":[" << js(d->getFilename()) << "," << d.getLine() << "]";
        const DILocation *in = d->getInlinedAt();
        auto scopeName = [](const DILocation *l) -> std::string { if (auto *sp = l->getScope()->getSubprogram()) return sp->getName().str(); return ""; };
        O << ",\"fnm\":" << js(scopeName(d.get()));
        if (in) { O << ",\"inl\":["; bool q = true; for (; in; in = in->getInlinedAt()) { if (!q) O << ","; q = false; O << "[" << js(in->getFilename()) << "," << in->getLine() << "," << js(scopeName(in)) << "]"; } O << "]"; }
      }
      O << "}";
    }
    O << "]}";
  }
  O << "]}";
}
// a function-local table that the whole program only reads: every use of a discardable definition is a load
static bool onlyLoaded(const Value *v) {
  for (auto *u : v->users()) {
    if (isa<LoadInst>(u)) continue;
    if (isa<GEPOperator>(u) || isa<BitCastOperator>(u)) { if (!onlyLoaded(u)) return false; continue; }
    return false;
  }
  return true;
}
static bool neverWritten(const GlobalVariable *g) {
  return g->hasInitializer() && (g->hasLocalLinkage() || g->hasLinkOnceLinkage()) && onlyLoaded(g);
}

int main(int argc, char **argv) {
  // irdump module.bc prefix...   dumps the defined functions whose name starts
  // with one of the prefixes, plus every defined function they reference.
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 3; }
  DL = &M->getDataLayout();
  for (auto &F : *M) if (!F.isDeclaration()) for (int i = 2; i < argc; i++) if (F.getName().starts_with(argv[i])) { if (seen.insert(&F).second) work.push_back(&F); break; }
  O << "{\"functions\":["; bool f = true;
  while (!work.empty()) { auto *F = work.front(); work.pop_front(); if (!f) O << ",\n"; f = false; dumpFn(*F); }
  O << "],\"globals\":{"; f = true;
  std::set<const GlobalVariable *> done;
  while (true) {
    const GlobalVariable *g = nullptr; for (auto *x : wantGlobals) if (!done.count(x)) { g = x; break; }
    if (!g) break; done.insert(g);
    if (!f) O << ",\n"; f = false;
    O << js(g->getName()) << ":{\"const\":" << (g->isConstant() || neverWritten(g) ? 1 : 0) << ",\"ty\":" << js(ty(g->getValueType()));
    if (g->hasInitializer()) { 
      if (auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer()); cd && cd->isString()) O << ",\"str\":" << js(cd->getAsString().rtrim('\0'));
      else { std::string s; bool q = true; int budget = 20000; flat(g->getInitializer(), 0, s, q, budget); O << ",\"init\":[" << s << "]"; } }
    O << "}";
  }
  O << "}}\n";
  return 0;
}
