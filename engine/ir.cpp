#include "ir.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

Mem::Mem() { for (int i = 0; i < 1024; i++) { cno[i] = ~0ULL; cpg[i] = nullptr; } }
Page* Mem::make(u64 no) { Page* p = get(no); if (p) return p; p = new Page; memset(p->d, 0, 4096); memset(p->sh, 0, 4096); p->sym = nullptr; p->save = nullptr; p->fresh = snap; p->no = no; pages[no] = p; if (snap) freshPages.push_back(no); return p; }
void Mem::touch(Page* p) { if (!snap || p->fresh || p->save) return; Page* s = new Page(*p); if (p->sym) { s->sym = new T[4096]; memcpy(s->sym, p->sym, sizeof(T) * 4096); } p->save = s; dirty.push_back({p->no, p}); }
void Mem::map(u64 a, u64 n, u8 v) { while (n) { Page* p = make(a >> 12); touch(p); u64 o = a & 4095, k = std::min<u64>(n, 4096 - o); memset(p->sh + o, v, k); a += k; n -= k; } }
bool Mem::valid(u64 a, unsigned n) { for (unsigned i = 0; i < n; i++) if (!shadow(a + i)) return false; return true; }
void Mem::setByte(u64 a, V b) { Page* p = get(a >> 12); if (!p) p = make(a >> 12); touch(p); u64 o = a & 4095; if (b.conc()) { p->d[o] = b.c; if (p->sym) p->sym[o] = 0; } else { if (!p->sym) { p->sym = new T[4096]; memset(p->sym, 0, sizeof(T) * 4096); } p->sym[o] = b.t; } }
V Mem::getByte(u64 a) { Page* p = get(a >> 12); if (!p) return V(0, 8); u64 o = a & 4095; if (p->sym && p->sym[o]) return TM.fromT(p->sym[o]); return V(p->d[o], 8); }
u64 Mem::loadc(u64 a, unsigned n, bool be) { u64 r = 0; for (unsigned i = 0; i < n; i++) { Page* p = get((a + i) >> 12); u64 b = p ? p->d[(a + i) & 4095] : 0; r |= b << 8 * (be ? n - 1 - i : i); } return r; }
V Mem::load(u64 a, unsigned n, bool be) {
  u64 o = a & 4095; Page* p = get(a >> 12);
  if (o + n <= 4096 && p) { bool s = false; if (p->sym) for (unsigned i = 0; i < n; i++) if (p->sym[o + i]) { s = true; break; }
    if (!s) { u64 r = 0; if (!be) memcpy(&r, p->d + o, n); else for (unsigned i = 0; i < n; i++) r = r << 8 | p->d[o + i]; return V(r, n * 8); } }
  V r = be ? getByte(a) : getByte(a + n - 1);
  for (unsigned i = 1; i < n; i++) r = vconcat(r, be ? getByte(a + i) : getByte(a + n - 1 - i));
  return r; }
void Mem::store(u64 a, V v, unsigned n, bool be) {
  u64 o = a & 4095; Page* p = get(a >> 12);
  if (v.conc() && o + n <= 4096 && p) { touch(p); if (!be) memcpy(p->d + o, &v.c, n); else for (unsigned i = 0; i < n; i++) p->d[o + i] = v.c >> 8 * (n - 1 - i); if (p->sym) for (unsigned i = 0; i < n; i++) p->sym[o + i] = 0; return; }
  for (unsigned i = 0; i < n; i++) setByte(a + i, vext(v, 8 * (be ? n - 1 - i : i), 8)); }
void Mem::snapshot() { for (auto& d : dirty) { if (d.second->save) { delete[] d.second->save->sym; delete d.second->save; d.second->save = nullptr; } } dirty.clear(); for (u64 no : freshPages) { Page* p = get(no); if (p) p->fresh = false; } freshPages.clear(); snap = true; }
void Mem::restore() {
  for (auto& d : dirty) { Page* p = d.second; Page* s = p->save; delete[] p->sym; memcpy(p->d, s->d, 4096); memcpy(p->sh, s->sh, 4096); p->sym = s->sym; p->save = nullptr; delete s; }
  dirty.clear();
  std::set<Page*> del; for (u64 no : freshPages) { auto it = pages.find(no); if (it == pages.end()) continue; del.insert(it->second); pages.erase(it); cno[no & 1023] = ~0ULL; }
  for (Page* p : del) { delete[] p->sym; delete p; }
  freshPages.clear(); }

enum { I_BIN, I_ICMP, I_SEL, I_ZEXT, I_SEXT, I_TRUNC, I_LOAD, I_STORE, I_GEP, I_CALL, I_CALLI, I_INTR, I_BR, I_CBR, I_SW, I_RET, I_ALLOCA, I_UNREACH, I_COPY, I_ASM, I_UNSUP, I_EXTV, I_INSV };
struct Ins { u8 op; u8 sub; u16 w; int dst; int a, b, c; int x; u64 imm; };
struct Edge { int target; std::vector<std::pair<int,int>> mv; };
struct GepP { u64 off; std::vector<std::pair<int,u64>> idx; };
struct CallP { Fn* fn; std::string name; std::vector<int> args; bool hasRet; u64 aux; };
struct SwP { std::vector<std::pair<u64,int>> cases; int def; };
struct Fn { std::string name; llvm::Function* f; bool translated = false, isDecl; unsigned epoch = 0; std::vector<Ins> code; std::vector<int> bbStart; int nslots = 0; std::vector<int> argSlots;
  std::vector<V> consts; std::vector<Edge> edges; std::vector<GepP> geps; std::vector<CallP> calls; std::vector<SwP> sws; std::vector<std::string> strs; u64 addr; std::vector<std::vector<V>> pool; };

struct Impl { LLVMContext ctx; std::unique_ptr<Module> M; std::map<std::string, Fn*> fns; std::map<u64, Fn*> byAddr; std::map<const GlobalVariable*, u64> gaddr; const DataLayout* DL; u64 nextFn; };
#define IM ((Impl*)impl)

void Engine::loadBitcode(const char* path) {
  Impl* im = new Impl; impl = im; SMDiagnostic err; im->M = parseIRFile(path, err, im->ctx);
  if (!im->M) { err.print("symjit", errs()); exit(3); }
  im->DL = &im->M->getDataLayout(); pw = im->DL->getPointerSizeInBits(); be = im->DL->isBigEndian();
  im->nextFn = 0x04000000;
  for (auto& f : *im->M) { Fn* fn = new Fn; fn->name = f.getName().str(); fn->f = &f; fn->isDecl = f.isDeclaration(); fn->addr = im->nextFn; im->nextFn += 16; im->fns[fn->name] = fn; im->byAddr[fn->addr] = fn; }
}
bool Engine::hasFn(const std::string& n) { auto it = IM->fns.find(n); return it != IM->fns.end() && !it->second->isDecl; }
u64 Engine::fnAddr(const std::string& n) { return IM->fns.at(n)->addr; }
std::string Engine::fnName(u64 a) { auto it = IM->byAddr.find(a); return it == IM->byAddr.end() ? "" : it->second->name; }
u64 Engine::globalAddr(const std::string& n) { auto* g = IM->M->getNamedGlobal(n); if (!g) throw std::runtime_error("no global " + n); return IM->gaddr.at(g); }

static u64 constVal(Impl* im, Constant* c, unsigned pw);
static void initMem(Engine* e, Impl* im, u64 a, Constant* c) {
  auto* DL = im->DL;
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* s = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(s->getElementType()); for (unsigned i = 0; i < s->getNumElements(); i++) { Constant* el = s->getElementAsConstant(i); initMem(e, im, a + i * es, el); } return; }
  if (auto* s = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(e, im, a + i * es, s->getOperand(i)); return; }
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(e, im, a + L->getElementOffset(i), s->getOperand(i)); return; }
  unsigned n = DL->getTypeStoreSize(c->getType()); if (n > 8) { fprintf(stderr, "global init too wide\n"); return; }
  e->mem.store(a, V(constVal(im, c, e->pw), n * 8), n, e->be);
}
static u64 constVal(Impl* im, Constant* c, unsigned pw) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) throw PathStop{"wide const", 2}; return i->getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto* f = dyn_cast<Function>(c)) return im->fns.at(f->getName().str())->addr;
  if (auto* g = dyn_cast<GlobalVariable>(c)) return im->gaddr.at(g);
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(im, a->getAliasee(), pw);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(pw, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*im->DL, off); return (constVal(im, ce->getOperand(0), pw) + off.getSExtValue()) & maskw(pw); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: return constVal(im, ce->getOperand(0), pw) & maskw(im->DL->getTypeSizeInBits(ce->getType()));
    case Instruction::Add: return (constVal(im, ce->getOperand(0), pw) + constVal(im, ce->getOperand(1), pw)) & maskw(im->DL->getTypeSizeInBits(ce->getType()));
    case Instruction::Sub: return (constVal(im, ce->getOperand(0), pw) - constVal(im, ce->getOperand(1), pw)) & maskw(im->DL->getTypeSizeInBits(ce->getType()));
    default: break; } }
  if (auto* s = dyn_cast<ConstantDataVector>(c)) { u64 r = 0; unsigned eb = im->DL->getTypeSizeInBits(s->getElementType()); for (unsigned i = 0; i < s->getNumElements(); i++) r |= s->getElementAsInteger(i) << (i * eb); return r; }
  std::string b; raw_string_ostream os(b); c->print(os); throw PathStop{"const " + b, 2};
}
void Engine::setup() {
  Impl* im = IM; u64 a = 0x08000000;
  for (auto& g : im->M->globals()) { u64 n = im->DL->getTypeAllocSize(g.getValueType()); if (!n) n = 1; u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16); a = (a + al - 1) & ~(al - 1); im->gaddr[&g] = a; mem.map(a, n, g.isConstant() ? 2 : 1); a += n + 32; }
  for (auto& g : im->M->globals()) if (g.hasInitializer()) initMem(this, im, im->gaddr[&g], g.getInitializer());
  heapBase = heapTop = 0x10000000; mmapBase = mmapTop = 0x20000000; stkTop = 0x30000000;
  mem.snapshot();
}
static std::string tyStr(Type* t) { std::string b; raw_string_ostream os(b); t->print(os); return os.str(); }

static void translate(Engine* E, Fn* fn) {
  Impl* im = (Impl*)E->impl; auto* DL = im->DL; llvm::Function* F = fn->f; fn->translated = true;
  std::map<const Value*, int> slot; std::map<std::pair<u64,unsigned>, int> cidx; std::map<const BasicBlock*, int> bbi;
  auto width = [&](Type* t) -> unsigned { if (t->isVoidTy()) return 0; if (t->isStructTy() || t->isArrayTy()) return 999; return DL->getTypeSizeInBits(t); };
  for (auto& a : F->args()) { slot[&a] = fn->nslots; fn->argSlots.push_back(fn->nslots++); }
  int nb = 0; for (auto& bb : *F) { bbi[&bb] = nb++; for (auto& i : bb) if (!i.getType()->isVoidTy()) { slot[&i] = fn->nslots++; } }
  // aggregate values use two slots (extract/insert); allocate extra
  std::map<const Value*, std::vector<int>> agg;
  for (auto& bb : *F) for (auto& i : bb) if (isa<CallBase>(i) || isa<PHINode>(i)) if (auto* st = dyn_cast<StructType>(i.getType())) for (unsigned k = 0; k < st->getNumElements(); k++) agg[&i].push_back(fn->nslots++);
  auto opnd = [&](Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) { unsigned w = width(c->getType()); if (w > 64 && !(isa<UndefValue>(c))) throw PathStop{"wide constant", 2}; if (w > 64) w = 64; u64 x = constVal(im, c, E->pw); auto k = std::make_pair(x, w); auto it = cidx.find(k); if (it != cidx.end()) return ~it->second; fn->consts.push_back(V(x, w)); int id = fn->consts.size() - 1; cidx[k] = id; return ~id; }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) return ~0;
    return slot.at(v); };
  fn->consts.push_back(V(0, 1));
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int { Edge e; e.target = bbi[to]; for (auto& i : *to) { auto* p = dyn_cast<PHINode>(&i); if (!p) break; auto ag = agg.find(p); if (ag != agg.end()) { auto in = agg.find(p->getIncomingValueForBlock(from)); if (in != agg.end()) for (size_t k = 0; k < ag->second.size(); k++) e.mv.push_back({ag->second[k], in->second[k]}); continue; } e.mv.push_back({slot[p], opnd(p->getIncomingValueForBlock(from))}); } fn->edges.push_back(e); return fn->edges.size() - 1; };
  fn->bbStart.resize(nb);
  for (auto& bb : *F) {
    fn->bbStart[bbi[&bb]] = fn->code.size();
    for (auto& i : bb) {
      Ins n; memset(&n, 0, sizeof n); n.dst = i.getType()->isVoidTy() ? -1 : slot[&i]; n.w = i.getType()->isVoidTy() ? 0 : width(i.getType());
      auto uns = [&]() { std::string b; raw_string_ostream os(b); i.print(os); n.op = I_UNSUP; n.x = fn->strs.size(); fn->strs.push_back(os.str()); };
      try {
      if (isa<PHINode>(i)) continue;
      if (auto* xv = dyn_cast<ExtractValueInst>(&i)) { auto it = agg.find(xv->getAggregateOperand()); if (it == agg.end() || xv->getNumIndices() != 1) uns(); else { n.op = I_COPY; n.a = it->second[xv->getIndices()[0]]; } fn->code.push_back(n); continue; }
      if (auto* b = dyn_cast<BinaryOperator>(&i)) { n.op = I_BIN; n.sub = b->getOpcode(); if (n.w > 64 || b->getType()->isFPOrFPVectorTy() || b->getType()->isVectorTy()) uns(); else { n.a = opnd(b->getOperand(0)); n.b = opnd(b->getOperand(1)); } }
      else if (auto* c = dyn_cast<ICmpInst>(&i)) { n.op = I_ICMP; n.sub = c->getPredicate(); if (c->getOperand(0)->getType()->isVectorTy()) uns(); else { n.a = opnd(c->getOperand(0)); n.b = opnd(c->getOperand(1)); } }
      else if (auto* s = dyn_cast<SelectInst>(&i)) { n.op = I_SEL; n.a = opnd(s->getCondition()); n.b = opnd(s->getTrueValue()); n.c = opnd(s->getFalseValue()); }
      else if (isa<ZExtInst>(i)) { n.op = I_ZEXT; n.a = opnd(i.getOperand(0)); if (n.w > 64 || i.getType()->isVectorTy()) uns(); }
      else if (isa<SExtInst>(i)) { n.op = I_SEXT; n.a = opnd(i.getOperand(0)); if (n.w > 64 || i.getType()->isVectorTy()) uns(); }
      else if (isa<TruncInst>(i)) { n.op = I_TRUNC; n.a = opnd(i.getOperand(0)); if (i.getOperand(0)->getType()->isVectorTy() || width(i.getOperand(0)->getType()) > 64) uns(); }
      else if (isa<PtrToIntInst>(i) || isa<IntToPtrInst>(i)) { n.op = n.w < width(i.getOperand(0)->getType()) ? I_TRUNC : I_ZEXT; n.a = opnd(i.getOperand(0)); }
      else if (isa<BitCastInst>(i) || isa<FreezeInst>(i)) { n.op = I_COPY; n.a = opnd(i.getOperand(0)); if (n.w > 64) uns(); }
      else if (auto* l = dyn_cast<LoadInst>(&i)) { n.op = I_LOAD; n.a = opnd(l->getPointerOperand()); n.imm = DL->getTypeStoreSize(l->getType()); if (n.imm > 8 || n.w > 64) uns(); }
      else if (auto* s = dyn_cast<StoreInst>(&i)) { n.op = I_STORE; n.a = opnd(s->getPointerOperand()); n.imm = DL->getTypeStoreSize(s->getValueOperand()->getType()); unsigned vw = width(s->getValueOperand()->getType());
        if (n.imm > 8 || vw > 64) { if (n.imm % 8 == 0 && isa<Constant>(s->getValueOperand()) && cast<Constant>(s->getValueOperand())->isNullValue()) { n.sub = 1; } else uns(); } else n.b = opnd(s->getValueOperand()); }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) { n.op = I_GEP; n.a = opnd(g->getPointerOperand()); GepP gp; gp.off = 0; 
        for (auto it = gep_type_begin(g), e2 = gep_type_end(g); it != e2; ++it) { Value* ix = it.getOperand(); if (auto* st = it.getStructTypeOrNull()) { gp.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; } u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) gp.off += sz * ci->getSExtValue(); else gp.idx.push_back({opnd(ix), sz}); }
        n.x = fn->geps.size(); fn->geps.push_back(gp); if (g->getType()->isVectorTy()) uns(); }
      else if (auto* a = dyn_cast<AllocaInst>(&i)) { n.op = I_ALLOCA; n.imm = DL->getTypeAllocSize(a->getAllocatedType()) * cast<ConstantInt>(a->getArraySize())->getZExtValue(); }
      else if (auto* c = dyn_cast<CallBase>(&i)) {
        CallP cp; cp.fn = nullptr; cp.hasRet = !c->getType()->isVoidTy(); cp.aux = 0; bool md = false; (void)md;
        if (isa<DbgInfoIntrinsic>(c)) continue;
        if (c->isInlineAsm()) { n.op = I_ASM; cp.name = cast<InlineAsm>(c->getCalledOperand())->getAsmString() + " | " + cast<InlineAsm>(c->getCalledOperand())->getConstraintString(); for (auto& a : c->args()) cp.args.push_back(opnd(a)); auto ai = agg.find(&i); n.c = ai == agg.end() ? -1 : ai->second[0]; n.x = fn->calls.size(); fn->calls.push_back(cp); }
        else { llvm::Function* cf = c->getCalledFunction(); 
          if (cf) { cp.name = cf->getName().str(); if (cf->isIntrinsic()) { auto id = cf->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue; n.op = I_INTR; } else n.op = I_CALL; auto it = im->fns.find(cp.name); if (it != im->fns.end()) cp.fn = it->second; }
          else { n.op = I_CALLI; n.a = opnd(c->getCalledOperand()); }
          for (auto& a : c->args()) { if (a->getType()->isMetadataTy()) continue; cp.args.push_back(opnd(a)); }
          n.x = fn->calls.size(); fn->calls.push_back(cp); } }
      else if (auto* br = dyn_cast<BranchInst>(&i)) { if (br->isUnconditional()) { n.op = I_BR; n.x = edge(&bb, br->getSuccessor(0)); } else { n.op = I_CBR; n.a = opnd(br->getCondition()); n.b = edge(&bb, br->getSuccessor(0)); n.c = edge(&bb, br->getSuccessor(1)); } }
      else if (auto* sw = dyn_cast<SwitchInst>(&i)) { n.op = I_SW; n.a = opnd(sw->getCondition()); SwP sp; for (auto& cs : sw->cases()) sp.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(&bb, cs.getCaseSuccessor())}); sp.def = edge(&bb, sw->getDefaultDest()); n.x = fn->sws.size(); fn->sws.push_back(sp); }
      else if (auto* r = dyn_cast<ReturnInst>(&i)) { n.op = I_RET; n.b = r->getReturnValue() != nullptr; if (n.b) n.a = opnd(r->getReturnValue()); }
      else if (isa<UnreachableInst>(i)) n.op = I_UNREACH;
      else uns();
      } catch (PathStop& ps) { uns(); }
      fn->code.push_back(n); } }
}

bool Engine::branch(V c) {
  if (normHook) c = normHook(c);
  if (c.conc()) return c.c != 0;
  auto kit = known.find(c.t); if (kit != known.end()) return kit->second;
  bool dir, forced = false;
  if (decPos < dec.size()) { if (dec[decPos].t != c.t) { if (getenv("FORKDBG")) fprintf(stderr, "REPLAY MISMATCH at %zu/%zu in %s: now %s was %s\n", decPos, dec.size(), curFn.c_str(), tstr(c.t, 5).c_str(), tstr(dec[decPos].t, 5).c_str()); unsup("path replay mismatch"); } dir = dec[decPos].dir; forced = dec[decPos].forced; decPos++; }
  else {
    dir = model.eval(c) != 0; V nc = vnot(c); Model m2; m2.defval = 0;
    V other = dir ? nc : c; int r = chk(other.t, &m2, &model);
    if (r == 1) { nForks++; static const char* fd = getenv("FORKDBG"); if (fd) fprintf(stderr, "fork in %s: %s\n", curFn.c_str(), tstr(c.t, 4).substr(0, 200).c_str()); PathWork w; w.dec = dec; w.dec.push_back({(u8)!dir, 0, 0, c.t}); w.model = std::move(m2); work.push_back(std::move(w)); }
    else { if (r < 0) nUnknown++; forced = r == 0; }
    dec.push_back({(u8)dir, (u8)forced, 0, c.t}); decPos++; }
  V tk = dir ? c : vnot(c); known[c.t] = dir; if (vnot(c).t) known[vnot(c).t] = !dir;
  if (!forced) pc.push_back(tk.t);
  return dir; }
u64 Engine::concretize(V v) {
  if (v.conc()) return v.c;
  for (int it = 0; it < 100000; it++) {
    u64 val; bool fresh = decPos >= dec.size();
    val = model.eval(v); { V c0 = veq(v, V(val, v.w)); if (normHook) c0 = normHook(c0); if (c0.conc()) { if (c0.c) return val; unsup("concretize inconsistent"); } auto k0 = known.find(c0.t); if (k0 != known.end() && k0->second) return val; } if (!fresh) val = dec[decPos].val;
    V c = veq(v, V(val, v.w)); if (normHook) c = normHook(c); if (c.conc()) { if (c.c) return val; unsup("concretize inconsistent"); }
    auto kit = known.find(c.t); if (kit != known.end()) { if (kit->second) return val; unsup("concretize known-false"); }
    size_t before = decPos; size_t wb = work.size();
    bool r = branch(c);
    if (fresh) { dec[before].val = val; for (size_t i = wb; i < work.size(); i++) work[i].dec[before].val = val; }
    if (r) return val; }
  unsup("concretize loop"); }
void Engine::assume(V c) {
  if (normHook) c = normHook(c);
  if (c.conc()) { if (!c.c) throw PathStop{"assume false", 0}; return; }
  auto kit = known.find(c.t); if (kit != known.end()) { if (!kit->second) throw PathStop{"assume false", 0}; return; }
  // keep the model consistent
  if (!model.eval(c)) { Model m2; int r = chk(c.t, &m2, &model); if (r == 0) throw PathStop{"assume infeasible", 0}; if (r < 0) { nUnknown++; throw PathStop{"assume unknown", 2}; } model = std::move(m2); }
  known[c.t] = 1; if (vnot(c).t) known[vnot(c).t] = 0; pc.push_back(c.t); }
bool Engine::provable(V c) { if (normHook) c = normHook(c); if (c.conc()) return c.c; auto kit = known.find(c.t); if (kit != known.end()) return kit->second; return chk(vnot(c).t, nullptr) == 0; }
int Engine::satisfiable(V c, Model* m) { if (normHook) c = normHook(c); if (c.conc() && !c.c) return 0; return chk(c.conc() ? 0 : c.t, m, &model); }
void Engine::startPath(const PathWork& w) {
  mem.restore(); dec = w.dec; decPos = 0; pc.clear(); known.clear(); model = w.model; heapTop = heapBase; mmapTop = mmapBase; stkTop = 0x30000000; allocs.clear(); execs.clear(); freed.clear(); maps.clear(); mallocCount = 0; mmapCount = 0; nInst = 0; depth = 0; lockDepth = 0; files.clear(); nextFd = 100; nPaths++; }
u64 Engine::doMalloc(u64 n) { mallocCount++; if (failHook && failHook()) return 0; u64 a = heapTop; heapTop = (heapTop + n + 16 + 31) & ~31ULL; u64 k = (n + 0) ; mem.map(a, k ? k : 1, 1); for (u64 i = 0; i < k; i++) { Page* p = mem.get((a + i) >> 12); if (i == 0 || ((a + i) & 4095) == 0) mem.touch(p); p->d[(a + i) & 4095] = 0xA5; if (p->sym) p->sym[(a + i) & 4095] = 0; } allocs[a] = n; return a; }
void Engine::doFree(u64 a) { if (!a) return; auto it = allocs.find(a); if (it == allocs.end()) fail("free of invalid pointer"); mem.map(a, it->second ? it->second : 1, 0); allocs.erase(it); }
u64 Engine::doMmap(u64 n) { mmapCount++; n = (n + 4095) & ~4095ULL; u64 a = mmapTop; mmapTop += n + 0x10000; mem.map(a, n, 1); maps[a] = n; return a; }

V Engine::loadV(V addr, unsigned n) {
  if (ldHook) { V r; if (ldHook(addr, n, r)) return r; }
  u64 a = addr.t ? concretize(addr) : addr.c;
  Page* p = mem.get(a >> 12); u64 o = a & 4095;
  if (p && o + n <= 4096) { for (unsigned i = 0; i < n; i++) if (!p->sh[o + i]) goto bad; }
  else if (!mem.valid(a, n)) { bad: char b[96]; snprintf(b, 96, "out-of-bounds or invalid read of %u bytes at 0x%llx", n, (unsigned long long)a); fail(b); }
  return mem.load(a, n, be); }
void Engine::storeV(V addr, V v, unsigned n) {
  if (stHook && stHook(addr, v, n)) return;
  u64 a = addr.t ? concretize(addr) : addr.c;
  for (unsigned i = 0; i < n; i++) { u8 s = mem.shadow(a + i); if (s == 0 || s == 2) { char b[96]; snprintf(b, 96, "out-of-bounds or invalid write of %u bytes at 0x%llx", n, (unsigned long long)a); fail(b); } }
  mem.store(a, v, n, be); }

static V doBin(Engine* E, unsigned op, V a, V b) {
  if (a.conc() && b.conc()) { u64 x = a.c, y = b.c; unsigned w = a.w; switch (op) {
    case Instruction::Add: return V(x + y, w); case Instruction::Sub: return V(x - y, w); case Instruction::And: return V(x & y, w); case Instruction::Or: return V(x | y, w); case Instruction::Xor: return V(x ^ y, w);
    case Instruction::Mul: return V(x * y, w); case Instruction::Shl: return V(y >= w ? 0 : x << y, w); case Instruction::LShr: return V(y >= w ? 0 : x >> y, w); default: break; } }
  switch (op) {
  case Instruction::Add: return vadd(a, b); case Instruction::Sub: return vsub(a, b); case Instruction::Mul: return vmul(a, b);
  case Instruction::And: return vand(a, b); case Instruction::Or: return vor(a, b); case Instruction::Xor: return vxor(a, b);
  case Instruction::Shl: return vshl(a, b); case Instruction::LShr: return vlshr(a, b); case Instruction::AShr: return vashr(a, b);
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    if (!E->branch(vne(b, V(0, b.w)))) E->fail("division by zero in the compiler");
    return op == Instruction::UDiv ? vudiv(a, b) : op == Instruction::SDiv ? vsdiv(a, b) : op == Instruction::URem ? vurem(a, b) : vsrem(a, b);
  default: E->unsup("binop"); } }
static V doIcmp(unsigned p, V a, V b) {
  switch (p) { case CmpInst::ICMP_EQ: return veq(a, b); case CmpInst::ICMP_NE: return vne(a, b);
  case CmpInst::ICMP_UGT: return vult(b, a); case CmpInst::ICMP_UGE: return vule(b, a); case CmpInst::ICMP_ULT: return vult(a, b); case CmpInst::ICMP_ULE: return vule(a, b);
  case CmpInst::ICMP_SGT: return vslt(b, a); case CmpInst::ICMP_SGE: return vsle(b, a); case CmpInst::ICMP_SLT: return vslt(a, b); default: return vsle(a, b); } }

static V external(Engine* E, const std::string& nm, const std::vector<V>& A, unsigned rw);
static V intrinsic(Engine* E, const std::string& nm, const std::vector<V>& A, unsigned rw);
static V execFn(Engine* E, Fn* fn, const std::vector<V>& args);
static V callFn(Engine* E, Fn* fn, const std::vector<V>& args, unsigned rw) {
  if (E->callHook && fn->isDecl) { V r; if (E->callHook(fn->name, args, r)) return r; }
  if (E->extHook) { V r; if (E->extHook(fn->name, args, r)) return r; }
  if (fn->isDecl) return external(E, fn->name, args, rw);
  return execFn(E, fn, args); }
static V doAsm(Engine* E, const std::string& s, const std::vector<V>& A, unsigned rw, V* fr, const Ins& I);

static V execFn(Engine* E, Fn* fn, const std::vector<V>& args) {
  if (!fn->translated) translate(E, fn);
  if (fn->epoch != E->fnEpoch) { fn->epoch = E->fnEpoch; E->fnsRun.insert(fn->name); }
  if (++E->depth > 400) E->unsup("call depth");
  std::string saveFn; saveFn.swap(E->curFn); E->curFn = fn->name;
  std::vector<V> frv; if (!fn->pool.empty()) { frv.swap(fn->pool.back()); fn->pool.pop_back(); } if ((int)frv.size() < fn->nslots + 1) frv.resize(fn->nslots + 1);
  V* fr = frv.data(); const V* K = fn->consts.data();
  for (size_t i = 0; i < args.size() && i < fn->argSlots.size(); i++) fr[fn->argSlots[i]] = args[i];
  u64 stk0 = E->stkTop; size_t pcx = fn->bbStart.empty() ? 0 : 0; V ret; std::vector<V> tmp;
  struct StkGuard { Engine* E; u64 s; ~StkGuard() { if (E->stkTop > s) { E->mem.map(s, E->stkTop - s, 0); E->stkTop = s; } E->depth--; } } guard{E, stk0};
#define GET(i) ((i) >= 0 ? fr[i] : K[~(i)])
  auto go = [&](int e) { const Edge& ed = fn->edges[e]; if (ed.mv.size() == 1) { V v = GET(ed.mv[0].second); fr[ed.mv[0].first] = v; } else if (!ed.mv.empty()) { tmp.resize(ed.mv.size()); for (size_t i = 0; i < ed.mv.size(); i++) tmp[i] = GET(ed.mv[i].second); for (size_t i = 0; i < ed.mv.size(); i++) fr[ed.mv[i].first] = tmp[i]; } pcx = fn->bbStart[ed.target]; };
  for (;;) {
    const Ins& I = fn->code[pcx++];
    if (++E->nInst > E->instLimit) E->unsup("instruction limit");
    switch (I.op) {
    case I_BIN: { const V &a = GET(I.a), &b = GET(I.b); fr[I.dst] = doBin(E, I.sub, a, b); break; }
    case I_ICMP: { const V &a = GET(I.a), &b = GET(I.b); fr[I.dst] = doIcmp(I.sub, a, b); break; }
    case I_SEL: { V c = GET(I.a); if (c.conc()) { fr[I.dst] = c.c ? GET(I.b) : GET(I.c); } else { V x = GET(I.b), y = GET(I.c); fr[I.dst] = E->branch(c) ? x : y; } break; }
    case I_ZEXT: { V a = GET(I.a); fr[I.dst] = a.conc() ? V(a.c, I.w) : vzx(a, I.w); break; }
    case I_SEXT: { V a = GET(I.a); fr[I.dst] = vsxt(a, I.w); break; }
    case I_TRUNC: { V a = GET(I.a); fr[I.dst] = vtrunc(a, I.w); break; }
    case I_COPY: { V a = GET(I.a); if (a.w != I.w) a.w = I.w; fr[I.dst] = a; break; }
    case I_LOAD: { V a = E->loadV(GET(I.a), I.imm); if (a.w != I.w) a = vtrunc(a, I.w); fr[I.dst] = a; break; }
    case I_STORE: { if (I.sub == 1) { V a = GET(I.a); for (u64 k = 0; k < I.imm; k += 8) E->storeV(vadd(a, E->P(k)), V(0, 64), 8); break; } V v = GET(I.b); if (v.w != I.imm * 8) v = vzx(v, I.imm * 8); E->storeV(GET(I.a), v, I.imm); break; }
    case I_GEP: { const GepP& g = fn->geps[I.x]; V a = GET(I.a); if (g.off) a = vadd(a, E->P(g.off)); for (auto& ix : g.idx) { V x = vsxt(GET(ix.first), E->pw); a = vadd(a, vmul(x, E->P(ix.second))); } fr[I.dst] = a; break; }
    case I_ALLOCA: { u64 a = E->stkTop; u64 n = I.imm ? I.imm : 1; E->stkTop = (a + n + 31 + 16) & ~31ULL; E->mem.map(a, n, 1); for (u64 i = 0; i < n; i++) E->mem.store(a + i, V(0x5c, 8), 1, E->be); fr[I.dst] = E->P(a); break; }
    case I_CALL: case I_CALLI: case I_INTR: {
      const CallP& c = fn->calls[I.x]; std::vector<V> av; av.reserve(c.args.size()); for (int x : c.args) av.push_back(GET(x)); V r;
      if (I.op == I_INTR) r = intrinsic(E, c.name, av, I.w);
      else { Fn* t = c.fn; if (I.op == I_CALLI) { u64 ad = E->concretize(GET(I.a)); auto it = ((Impl*)E->impl)->byAddr.find(ad); if (it == ((Impl*)E->impl)->byAddr.end()) { if (E->extHook && E->extHook("@" + std::to_string(ad), av, r)) { if (I.dst >= 0) fr[I.dst] = r; break; } E->fail("call of invalid function pointer"); } t = it->second; }
        r = callFn(E, t, av, I.w); }
      if (I.dst >= 0) { if (r.w != I.w && r.w && I.w <= 64) { if (r.w < I.w) r = vzx(r, I.w); else r = vtrunc(r, I.w); } if (!r.w && I.w <= 64) r = V(0, I.w); fr[I.dst] = r; } 
      break; }
    case I_ASM: { const CallP& c = fn->calls[I.x]; std::vector<V> av; for (int x : c.args) av.push_back(GET(x)); V r = doAsm(E, c.name, av, I.w, fr, I); if (I.dst >= 0) fr[I.dst] = r; break; }
    case I_BR: go(I.x); break;
    case I_CBR: { V c = GET(I.a); bool t = c.conc() ? c.c : E->branch(c); go(t ? I.b : I.c); break; }
    case I_SW: { const SwP& s = fn->sws[I.x]; V v = GET(I.a); int e = s.def; if (v.conc()) { for (auto& p : s.cases) if (p.first == v.c) { e = p.second; break; } } else { for (auto& p : s.cases) if (E->branch(veq(v, V(p.first, v.w)))) { e = p.second; break; } } go(e); break; }
    case I_RET: if (I.b) ret = GET(I.a); goto done;
    case I_UNREACH: E->fail("unreachable reached");
    default: E->unsup("IR: " + (I.op == I_UNSUP ? fn->strs[I.x] : std::string("?"))); } }
done:
  fn->pool.push_back(std::move(frv)); E->curFn.swap(saveFn);
  return ret; }

V Engine::call(const std::string& n, const std::vector<V>& args) {
  auto it = IM->fns.find(n); if (it == IM->fns.end()) throw PathStop{"no function " + n, 2};
  std::vector<V> a = args; size_t i = 0; for (auto& p : it->second->f->args()) { if (i >= a.size()) break; unsigned w = IM->DL->getTypeSizeInBits(p.getType()); if (a[i].w != w) { if (a[i].w > w) a[i] = vtrunc(a[i], w); else a[i] = vsxt(a[i], w); } i++; }
  curFn = n; return callFn(this, it->second, a, 64); }

static V intrinsic(Engine* E, const std::string& nm, const std::vector<V>& A, unsigned rw) {
  auto st = [&](const char* p) { return nm.compare(0, strlen(p), p) == 0; };
  if (st("llvm.memcpy") || st("llvm.memmove")) { u64 n = E->concretize(A[2]); u64 d = E->concretize(A[0]), s = E->concretize(A[1]); if (n > (1 << 26)) E->fail("huge memcpy"); 
    for (u64 i = 0; i < n; i++) { u8 x = E->mem.shadow(s + i); if (!x) E->fail("memcpy source out of bounds"); u8 y = E->mem.shadow(d + i); if (y == 0 || y == 2) E->fail("memcpy destination out of bounds"); }
    std::vector<V> tmp(n); for (u64 i = 0; i < n; i++) tmp[i] = E->mem.getByte(s + i); for (u64 i = 0; i < n; i++) E->mem.setByte(d + i, tmp[i]); return V(); }
  if (st("llvm.memset")) { u64 n = E->concretize(A[2]); u64 d = E->concretize(A[0]); for (u64 i = 0; i < n; i++) { u8 y = E->mem.shadow(d + i); if (y == 0 || y == 2) E->fail("memset destination out of bounds"); E->mem.setByte(d + i, vtrunc(A[1], 8)); } return V(); }
  if (st("llvm.umax")) { return E->branch(vult(A[0], A[1])) ? A[1] : A[0]; } if (st("llvm.umin")) { return E->branch(vult(A[0], A[1])) ? A[0] : A[1]; }
  if (st("llvm.smax")) { return E->branch(vslt(A[0], A[1])) ? A[1] : A[0]; } if (st("llvm.smin")) { return E->branch(vslt(A[0], A[1])) ? A[0] : A[1]; }
  if (st("llvm.usub.sat")) { return E->branch(vult(A[0], A[1])) ? V(0, A[0].w) : vsub(A[0], A[1]); }
  if (st("llvm.abs")) { return E->branch(vslt(A[0], V(0, A[0].w))) ? vneg(A[0]) : A[0]; }
  if (st("llvm.ctlz")) { if (A[0].conc()) return vclz(A[0]); unsigned w = A[0].w; for (int i = w - 1; i >= 0; i--) if (E->branch(vbit(A[0], i))) return V(w - 1 - i, w); return V(w, w); }
  if (st("llvm.cttz")) { if (A[0].conc()) return vctz(A[0]); unsigned w = A[0].w; for (unsigned i = 0; i < w; i++) if (E->branch(vbit(A[0], i))) return V(i, w); return V(w, w); }
  if (st("llvm.ctpop")) { return vpopcnt(A[0]); } if (st("llvm.bswap")) return vbswap(A[0]);
  if (st("llvm.fshl") || st("llvm.fshr")) { bool l = st("llvm.fshl"); unsigned w = A[0].w; if (!A[2].conc()) { V k = vurem(A[2], V(w, w)); if (A[0].t == A[1].t && A[0].c == A[1].c) return vrotl(A[0], l ? k : vsub(V(0, w), k)); k = V(E->concretize(k), w); unsigned s = k.c % w; if (!s) return l ? A[0] : A[1]; if (!l) s = w - s; return vor(vshl(A[0], V(s, w)), vlshr(A[1], V(w - s, w))); } unsigned s = A[2].c % w; if (!s) return l ? A[0] : A[1]; if (!l) s = w - s; return vor(vshl(A[0], V(s, w)), vlshr(A[1], V(w - s, w))); }
  if (st("llvm.expect")) return A[0];
  if (st("llvm.trap") || st("llvm.debugtrap")) E->fail("trap");
  if (st("llvm.prefetch")) return V();
  if (st("llvm.clear_cache")) { V r; if (E->extHook) E->extHook("clear_cache", A, r); return V(); }
  if (st("llvm.va_start") || st("llvm.va_end")) return V();
  E->unsup("intrinsic " + nm); }
static V external(Engine* E, const std::string& nm, const std::vector<V>& A, unsigned rw) {
  auto P = [&](u64 x) { return E->P(x); };
  if (nm == "malloc") return P(E->doMalloc(E->concretize(A[0])));
  if (nm == "calloc") { u64 n = E->concretize(A[0]) * E->concretize(A[1]); u64 a = E->doMalloc(n); if (a) for (u64 i = 0; i < n; i++) E->mem.setByte(a + i, V(0, 8)); return P(a); }
  if (nm == "tst_malloc_exec") { if (E->failHook && E->failHook()) return P(0); u64 n = E->concretize(A[0]); u64 a = E->mmapTop + (E->execLead ? E->execLead : E->pw == 64 ? 16 : 8); E->mmapTop = (a + n + 0x10000) & ~4095ULL; E->mem.map(a, n ? n : 1, 1); if (E->execOffset) { E->mem.map(a - E->pw / 8, E->pw / 8, 1); E->mem.store(a - E->pw / 8, V((u64)E->execOffset, E->pw), E->pw / 8, E->be); } V un = var("exec.uninit", 8); for (u64 i = 0; i < n; i++) E->mem.setByte(a + i, un); E->execs[a] = n; return P(a); }
  if (nm == "tst_free_exec") { u64 a = E->concretize(A[0]); auto it = E->execs.find(a); if (it == E->execs.end()) E->fail("sljit_free_code of a pointer that was not allocated"); E->mem.map(a, it->second ? it->second : 1, 0); E->execs.erase(it); return V(); }
  if (nm == "free") { E->doFree(E->concretize(A[0])); return V(); }
  if (nm == "abort" || nm == "__assert_fail") E->fail("abort() called (assertion failure)");
  if (nm == "printf" || nm == "fprintf" || nm == "puts" || nm == "fputs" || nm == "fwrite" || nm == "putchar" || nm == "fputc" || nm == "fflush" || nm == "vfprintf" || nm == "perror" || nm == "putc") return V(0, 32);
  if (nm == "mmap" || nm == "mmap64") { if (E->mmapFailAt >= 0 && E->mmapCount == E->mmapFailAt) { E->mmapCount++; return P(~0ULL); } if (E->failHook && E->failHook()) return P(~0ULL); u64 n = E->concretize(A[1]);
    i64 fd = sx(E->concretize(A[4]), 32); if (fd >= 100 && E->files.count(fd)) { n = (n + 4095) & ~4095ULL; u64 a = E->mmapTop; E->mmapTop += n + 0x10000; auto& pg = E->files[fd]; E->mmapCount++; for (u64 i = 0; i < n / 4096; i++) { if (pg.size() <= i) { Page* p = E->mem.make((a >> 12) + i); memset(p->sh, 1, 4096); pg.push_back(p); } else { u64 no = (a >> 12) + i; E->mem.pages[no] = pg[i]; E->mem.freshPages.push_back(no); } } E->maps[a] = n; return P(a); }
    return P(E->doMmap(n)); }
  if (nm == "munmap") { u64 a = E->concretize(A[0]), n = (E->concretize(A[1]) + 4095) & ~4095ULL; auto it = E->maps.find(a); if (it == E->maps.end() || it->second != n) E->fail("munmap of a range that is not a mapping"); 
    bool shared = false; Page* p0 = E->mem.get(a >> 12); if (p0 && p0->no != (a >> 12)) shared = true; 
    for (auto& f : E->files) for (Page* p : f.second) if (p == p0) shared = true;
    if (!shared) E->mem.map(a, n, 0); else { for (u64 i = 0; i < n / 4096; i++) { Page* pg = E->mem.get((a >> 12) + i); (void)pg; E->mem.pages.erase((a >> 12) + i); E->mem.cno[((a >> 12) + i) & 1023] = ~0ULL; } }
    E->maps.erase(it); return V(0, 32); }
  if (nm == "mprotect" || nm == "madvise" || nm == "posix_madvise") { return V(0, 32); }
  if (nm == "sysconf" || nm == "getpagesize") return V(4096, rw ? rw : 32);
  if (nm == "pthread_mutex_lock") { E->lockDepth++; E->lockCount++; if (E->lockDepth > 1) E->fail("lock taken twice"); return V(0, 32); }
  if (nm == "pthread_mutex_unlock") { if (!E->lockDepth) E->fail("unlock without lock"); E->lockDepth--; return V(0, 32); }
  if (nm == "pthread_mutex_init" || nm == "pthread_mutex_destroy") return V(0, 32);
  if (nm == "__clear_cache" || nm == "cacheflush" || nm == "syscall" || nm == "__riscv_flush_icache" || nm == "_flush_cache") return V(0, 32);
  if (nm == "getauxval" || nm == "elf_aux_info") { auto it = E->feat.find("getauxval"); if (it != E->feat.end()) return vzx(it->second, E->pw); return P(0); }
  if (nm == "memcpy" || nm == "memmove") { intrinsic(E, "llvm.memcpy", A, 0); return A[0]; }
  if (nm == "memset") { std::vector<V> B = A; B[1] = vtrunc(A[1], 8); intrinsic(E, "llvm.memset", B, 0); return A[0]; }
  if (nm == "memcmp") { u64 n = E->concretize(A[2]); for (u64 i = 0; i < n; i++) { V x = E->loadV(vadd(A[0], P(i)), 1), y = E->loadV(vadd(A[1], P(i)), 1); if (!E->branch(veq(x, y))) return E->branch(vult(x, y)) ? V(-1ULL, 32) : V(1, 32); } return V(0, 32); }
  if (nm == "strlen") { u64 a = E->concretize(A[0]); u64 n = 0; while (E->branch(vne(E->loadV(P(a + n), 1), V(0, 8)))) n++; return P(n); }
  if (nm == "secure_getenv" || nm == "getenv") return P(0);
  if (nm == "getpid" || nm == "getuid") return V(1000, 32);
  if (nm == "mkostemp" || nm == "mkstemp" || nm == "shm_open" || nm == "open" || nm == "memfd_create" || nm == "open64" || nm == "mkostemp64") { if (E->failHook && E->failHook()) return V(-1ULL, 32); int fd = E->nextFd++; E->files[fd]; return V(fd, 32); }
  if (nm == "unlink" || nm == "shm_unlink" || nm == "close" || nm == "ftruncate" || nm == "ftruncate64" || nm == "fchmod" || nm == "umask" || nm == "fcntl") return V(0, 32);
  if (nm == "__errno_location") { static const u64 a = 0x3f000000; E->mem.map(a, 8, 1); return P(a); }
  if (nm == "time" || nm == "clock") return V(12345, rw ? rw : E->pw);
  E->unsup("external function " + nm); }
static V doAsm(Engine* E, const std::string& s, const std::vector<V>& A, unsigned rw, V* fr, const Ins& I) {
  if (E->extHook) { V r; E->asmOut.clear(); if (E->extHook("asm:" + s, A, r)) { if (I.c >= 0) for (size_t k = 0; k < E->asmOut.size(); k++) fr[I.c + k] = E->asmOut[k]; return r; } }
  E->unsup("inline asm " + s); }
