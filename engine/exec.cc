// Instruction-level symbolic execution.
#include "exec.h"
#include <llvm/ADT/StringExtras.h>
using namespace llvm;

static double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
double Exec::elapsed() { return nowS() - t0; }

Exec::Exec(Module* m, Options o) : M(m), DL(&m->getDataLayout()), opt(o) {
  t0 = nowS();
  initBuiltins();
}
TypeI Exec::typeOf(Type* t) {
  TypeI r;
  r.t = t;
  if (t->isVoidTy()) r.k = TypeI::VOID;
  else if (auto* it = dyn_cast<IntegerType>(t)) { r.k = TypeI::INT; r.w = it->getBitWidth(); }
  else if (t->isDoubleTy()) { r.k = TypeI::FP; r.w = 64; }
  else if (t->isFloatTy()) { r.k = TypeI::FP; r.w = 32; }
  else if (t->isX86_FP80Ty()) { r.k = TypeI::FP; r.w = 80; }
  else if (t->isPointerTy()) { r.k = TypeI::PTR; r.w = 64; }
  else if (t->isVectorTy()) r.k = TypeI::VEC;
  else if (t->isStructTy() || t->isArrayTy()) r.k = TypeI::STRUCT;
  else r.k = TypeI::VOID;
  return r;
}
uint64_t Exec::globalAddr(const GlobalValue* g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  uint64_t a;
  if (auto* al = dyn_cast<GlobalAlias>(g)) {
    a = constant(al->getAliasee()).u;
  } else if (auto* f = dyn_cast<Function>(g)) {
    a = 0x100 + 16 * fnTab.size();
    if (a >= (1ull << IDSHIFT)) throw Unsupported{"too many functions"};
    fnTab.push_back(f);
  } else {
    uint64_t id = gNext++;
    if (id >= 65536 * 4) throw Unsupported{"too many globals"};
    lazyG[id] = cast<GlobalVariable>(g);
    a = addrOf(id);
  }
  gaddr[g] = a;
  return a;
}
std::shared_ptr<Obj> Exec::materialize(uint64_t id) {
  auto it = lazyObj.find(id);
  if (it != lazyObj.end()) return it->second;
  auto g = lazyG.find(id);
  if (g == lazyG.end()) return nullptr;
  auto* gv = g->second;
  auto o = std::make_shared<Obj>();
  Type* vt = gv->getValueType();
  uint64_t sz = vt->isSized() ? DL->getTypeAllocSize(vt).getFixedValue() : 8;
  o->what = "global";
  if (!gv->hasInitializer()) {
    sz = std::max<uint64_t>(sz, 512);
    o->size = sz;
    o->b.assign(sz, 0);
  } else {
    o->size = sz;
    o->b.assign(sz, 0);
    o->ro = gv->isConstant();
    initObj(*o, 0, gv->getInitializer());
  }
  lazyObj[id] = o;
  return o;
}
void Exec::initObj(Obj& o, uint32_t off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = ca->getRawDataValues();
    memcpy(&o.b[off], raw.data(), raw.size());
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initObj(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initObj(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (isa<ConstantVector>(c)) {
    uint64_t es = DL->getTypeAllocSize(cast<VectorType>(c->getType())->getElementType());
    for (unsigned i = 0; i < c->getNumOperands(); i++) initObj(o, off + i * es, cast<Constant>(c->getOperand(i)));
    return;
  }
  Val v = constant(c);
  if (v.k == K_INT) {
    uint32_t n = (v.w + 7) / 8;
    memcpy(&o.b[off], &v.u, n);
  } else if (v.k == K_FP) {
    if (v.w == 32) { float f = (float)v.d; memcpy(&o.b[off], &f, 4); }
    else if (v.w == 64) memcpy(&o.b[off], &v.d, 8);
    else o.sym.push_back(Cell{off, 16, v});
  }
}
Val Exec::constant(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) {
      if (ci->getValue().getActiveBits() <= 64) { Val v = mkI(ci->getValue().getZExtValue(), 64); v.w = ci->getBitWidth(); return v; }
      return mkSI(Z3_mk_numeral(C, toString(ci->getValue(), 10, false).c_str(), Z3_mk_bv_sort(C, ci->getBitWidth())), ci->getBitWidth());
    }
    return mkI(ci->getZExtValue(), ci->getBitWidth());
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (c->getType()->isDoubleTy()) return mkF(cf->getValueAPF().convertToDouble());
    if (c->getType()->isFloatTy()) return mkF(cf->getValueAPF().convertToFloat(), 32);
    APFloat f = cf->getValueAPF();
    bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return mkF(f.convertToDouble(), 80);
  }
  if (isa<ConstantPointerNull>(c)) return mkI(0, 64);
  if (auto* g = dyn_cast<GlobalValue>(c)) return mkI(globalAddr(g), 64);
  if (isa<UndefValue>(c)) {
    if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) {
      unsigned n = 0;
      std::vector<Val> v;
      if (auto* st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
      else if (auto* at = dyn_cast<ArrayType>(c->getType())) n = at->getNumElements();
      else n = cast<FixedVectorType>(c->getType())->getNumElements();
      for (unsigned i = 0; i < n; i++) v.push_back(constant(c->getAggregateElement(i)));
      return mkAgg(v);
    }
    return Val();
  }
  if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) {
    if (!isa<ConstantExpr>(c)) {
      unsigned n = 0;
      if (auto* st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
      else if (auto* at = dyn_cast<ArrayType>(c->getType())) n = at->getNumElements();
      else n = cast<FixedVectorType>(c->getType())->getNumElements();
      std::vector<Val> v;
      for (unsigned i = 0; i < n; i++) v.push_back(constant(c->getAggregateElement(i)));
      return mkAgg(v);
    }
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        Val b = constant(ce->getOperand(0));
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
        return mkI(b.u + off.getSExtValue(), 64);
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
        Val v = constant(ce->getOperand(0));
        unsigned w = typeOf(ce->getType()).w;
        return mkI(v.u, w);
      }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: case Instruction::Shl:
        return ibin(ce->getOpcode(), constant(ce->getOperand(0)), constant(ce->getOperand(1)), typeOf(ce->getType()).w);
      case Instruction::ICmp:
        return icmp(ce->getPredicate(), constant(ce->getOperand(0)), constant(ce->getOperand(1)), typeOf(ce->getOperand(0)->getType()).w);
      default: break;
    }
  }
  if (isa<DSOLocalEquivalent>(c)) return constant(cast<DSOLocalEquivalent>(c)->getGlobalValue());
  std::string str;
  raw_string_ostream os(str);
  c->print(os);
  throw Unsupported{"constant: " + os.str()};
}
COp Exec::operand(const Value* v, std::unordered_map<const Value*, int>& slots) {
  COp o;
  if (auto* c = dyn_cast<Constant>(v)) { o.cst = true; o.c = constant(c); return o; }
  if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o;
  o.cst = false;
  o.slot = slots.at(v);
  return o;
}
CFunc* Exec::compile(const Function* F) {
  auto& p = cf[F];
  if (p && p->ready) return p.get();
  if (!p) { p = std::make_unique<CFunc>(); p->F = F; p->name = F->getName().str(); }
  if (F->isDeclaration()) return p.get();
  CFunc* f = p.get();
  std::unordered_map<const Value*, int> slots;
  std::unordered_map<const BasicBlock*, int> bbi;
  int n = 0;
  for (auto& a : F->args()) slots[&a] = n++;
  int nb = 0;
  for (auto& B : *F) {
    bbi[&B] = nb++;
    for (auto& I : B)
      if (!I.getType()->isVoidTy()) slots[&I] = n++;
  }
  f->nslots = n;
  f->bb.resize(nb);
  for (auto& B : *F) {
    CBlk& cb = f->bb[bbi[&B]];
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      CI c;
      c.I = &I;
      c.op = I.getOpcode();
      c.ty = typeOf(I.getType());
      if (!I.getType()->isVoidTy()) c.dst = slots[&I];
      if (auto* ph = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
          c.phi.push_back({bbi[ph->getIncomingBlock(i)], operand(ph->getIncomingValue(i), slots)});
        cb.nphi++;
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) c.ops.push_back(operand(br->getCondition(), slots));
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) c.succ.push_back(bbi[br->getSuccessor(i)]);
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        c.ops.push_back(operand(sw->getCondition(), slots));
        c.ty = typeOf(sw->getCondition()->getType());
        c.succ.push_back(bbi[sw->getDefaultDest()]);
        for (auto& cs : sw->cases()) {
          c.ops.push_back(operand(cs.getCaseValue(), slots));
          c.succ.push_back(bbi[cs.getCaseSuccessor()]);
        }
      } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
        c.ops.push_back(operand(gep->getPointerOperand(), slots));
        if (gep->getType()->isVectorTy()) throw Unsupported{"vector gep"};
        int64_t off = 0;
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
          Value* idx = gi.getOperand();
          if (StructType* st = gi.getStructTypeOrNull()) {
            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            int64_t es = gi.getSequentialElementStride(*DL).getFixedValue();
            if (auto* k = dyn_cast<ConstantInt>(idx)) off += k->getSExtValue() * es;
            else {
              c.gep.push_back({(int)c.ops.size(), es});
              c.ops.push_back(operand(idx, slots));
            }
          }
        }
        c.cst = (uint64_t)off;
      } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
        c.cst = DL->getTypeAllocSize(al->getAllocatedType());
        c.ops.push_back(operand(al->getArraySize(), slots));
      } else if (auto* cb2 = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb2->args()) {
          if (isa<MetadataAsValue>(a.get())) { c.ops.push_back(COp()); continue; }
          c.ops.push_back(operand(a.get(), slots));
        }
        c.cf = cb2->getCalledFunction();
        if (!c.cf) {
          Value* cv = cb2->getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
          if (auto* ff = dyn_cast<Function>(cv)) c.cf = ff;
        }
        if (!c.cf) c.ops.push_back(operand(cb2->getCalledOperand(), slots));
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
          c.succ.push_back(bbi[inv->getNormalDest()]);
          c.succ.push_back(bbi[inv->getUnwindDest()]);
        }
      } else if (isa<LandingPadInst>(I)) {
      } else {
        for (auto& o : I.operands()) c.ops.push_back(operand(o.get(), slots));
        if (isa<ICmpInst>(I) || isa<FCmpInst>(I)) {
          c.cst = cast<CmpInst>(I).getPredicate();
          c.ty = typeOf(I.getOperand(0)->getType());
        } else if (isa<StoreInst>(I)) c.ty = typeOf(I.getOperand(0)->getType());
      }
      cb.ins.push_back(std::move(c));
    }
  }
  f->ready = true;
  return f;
}
// ------------------------------------------------------------------ memory
uint64_t Exec::alloc(uint64_t size, bool heap, bool undef, const char* what) {
  if (size > (1u << IDSHIFT) - 2 * OBASE) throw Unsupported{"allocation too large: " + std::to_string(size)};
  auto o = std::make_shared<Obj>();
  o->size = size;
  o->heap = heap;
  o->what = what;
  o->b.assign(size, 0);
  if (undef) o->def.assign(size, 0);
  uint64_t id = s->nextObj++;
  s->mem.slot(id) = o;
  return addrOf(id);
}
const Obj* Exec::robj(uint64_t addr, uint64_t n, uint32_t& off, const char* what) {
  uint64_t id = addr >> IDSHIFT;
  int64_t o = (int64_t)(addr & ((1ull << IDSHIFT) - 1)) - (int64_t)OBASE;
  const std::shared_ptr<Obj>* p = s->mem.find(id);
  if (!p && lazyG.count(id)) {
    s->mem.slot(id) = materialize(id);
    p = s->mem.find(id);
  }
  if (!p) {
    if (id == 0) throw Violation{std::string("memory: ") + what + " through null or wild pointer"};
    throw Violation{std::string("memory: ") + what + " of freed or unmapped memory"};
  }
  if (o < 0 || (uint64_t)o + n > (*p)->size)
    throw Violation{std::string("memory: out-of-bounds ") + what + " (offset " + std::to_string(o) + ", size " + std::to_string(n) + ", object of " + std::to_string((*p)->size) + " bytes)"};
  off = o;
  return p->get();
}
Obj* Exec::wobj(uint64_t addr, uint64_t n, uint32_t& off, const char* what) {
  const Obj* o = robj(addr, n, off, what);
  if (o->ro) throw Violation{"memory: write to read-only memory"};
  return s->mem.writable(addr >> IDSHIFT);
}
static bool anyCell(const Obj* o, uint32_t off, uint32_t n) {
  for (auto& c : o->sym) {
    if (c.off >= off + n) break;
    if (c.off + c.size > off) return true;
  }
  return false;
}
static Z3_ast cellByte(Exec* E, const Cell& c, uint32_t k) {
  Z3_ast a;
  if (c.v.k == K_FP) throw Unsupported{"partial read of long double"};
  if (c.v.k == K_SYMF) a = E->fpBits(c.v.a, c.v.w);
  else a = E->bv(c.v, c.v.w);
  if (c.v.w == 1) a = mkIte(a, bvc(1, 8), bvc(0, 8));
  if (c.size == 1) return a;
  return simpD(Z3_mk_extract(C, k * 8 + 7, k * 8, a));
}
Val Exec::readInt(const Obj* o, uint32_t off, uint32_t n) {
  bool anyDef = o->def.empty();
  if (!anyDef)
    for (uint32_t i = 0; i < n; i++)
      if (o->def[off + i]) { anyDef = true; break; }
  if (!anyDef) return Val();
  if (o->sym.empty() || !anyCell(o, off, n)) {
    uint64_t u = 0;
    if (n > 8) {
      uint64_t h = 0;
      memcpy(&u, &o->b[off], 8);
      memcpy(&h, &o->b[off + 8], n - 8);
      if (h) return mkSI(Z3_mk_concat(C, bvc(h, 8 * (n - 8)), bvc(u, 64)), 8 * n);
      Val v = mkI(u, 64);
      v.w = 8 * n;
      return v;
    }
    memcpy(&u, &o->b[off], n);
    return mkI(u, 8 * n);
  }
  for (auto& c : o->sym)
    if (c.off == off && c.size == n) return c.v;
  Z3_ast r = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    Z3_ast b = nullptr;
    for (auto& c : o->sym)
      if (c.off <= off + i && off + i < c.off + c.size) { b = cellByte(this, c, off + i - c.off); break; }
    if (!b) b = bvc(o->b[off + i], 8);
    r = r ? Z3_mk_concat(C, r, b) : b;
  }
  r = simpD(r);
  return fromBV(r, 8 * n);
}
void Exec::clearCells(Obj* o, uint32_t off, uint32_t n) {
  if (o->sym.empty()) return;
  std::vector<Cell> ns;
  for (auto& c : o->sym) {
    if (c.off + c.size <= off || c.off >= off + n) { ns.push_back(c); continue; }
    if (c.off >= off && c.off + c.size <= off + n) continue;  // fully overwritten
    for (uint32_t k = 0; k < c.size; k++) {
      uint32_t at = c.off + k;
      if (at >= off && at < off + n) continue;
      Z3_ast b = cellByte(this, c, k);
      Val v = fromBV(b, 8);
      if (v.k == K_INT) o->b[at] = (uint8_t)v.u;
      else ns.push_back(Cell{at, 1, v});
    }
  }
  std::sort(ns.begin(), ns.end(), [](const Cell& a, const Cell& b) { return a.off < b.off; });
  o->sym.swap(ns);
}
static void putCell(Obj* o, Cell c) {
  auto it = std::lower_bound(o->sym.begin(), o->sym.end(), c.off, [](const Cell& a, uint32_t off) { return a.off < off; });
  o->sym.insert(it, c);
}
Val Exec::loadAt(uint64_t addr, TypeI t) {
  uint32_t off;
  switch (t.k) {
    case TypeI::INT: case TypeI::PTR: {
      uint32_t n = (t.w + 7) / 8;
      const Obj* o = robj(addr, n, off, "read");
      Val v = readInt(o, off, n);
      if (v.k == K_UNDEF) { v.w = t.w; return v; }
      if (t.w % 8) v = castv(Instruction::Trunc, v, TypeI{TypeI::INT, n * 8}, t);
      return v;
    }
    case TypeI::FP: {
      uint32_t n = t.w == 80 ? 16 : t.w / 8;
      const Obj* o = robj(addr, n, off, "read");
      if (t.w == 80) {
        for (auto& c : o->sym) if (c.off == off && c.v.w == 80) return c.v;
        return Val();
      }
      Val v = readInt(o, off, n);
      if (v.k == K_INT) {
        if (t.w == 32) { uint32_t u = v.u; float f; memcpy(&f, &u, 4); return mkF(f, 32); }
        double d; memcpy(&d, &v.u, 8); return mkF(d);
      }
      if (v.k == K_SYMI) return castv(Instruction::BitCast, v, TypeI{TypeI::INT, t.w}, t);
      return v;
    }
    case TypeI::VEC: case TypeI::STRUCT: {
      std::vector<Val> r;
      if (auto* st = dyn_cast<StructType>(t.t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(loadAt(addr + sl->getElementOffset(i), typeOf(st->getElementType(i))));
      } else {
        Type* et = t.t->isArrayTy() ? t.t->getArrayElementType() : cast<VectorType>(t.t)->getElementType();
        uint64_t nn = t.t->isArrayTy() ? t.t->getArrayNumElements() : cast<FixedVectorType>(t.t)->getNumElements();
        if (et->isIntegerTy(1)) throw Unsupported{"i1 vector load"};
        uint64_t es = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < nn; i++) r.push_back(loadAt(addr + i * es, typeOf(et)));
      }
      return mkAgg(r);
    }
    default: throw Unsupported{"load type"};
  }
}
void Exec::storeAt(uint64_t addr, Val v, TypeI t) {
  uint32_t off;
  if (t.k == TypeI::VEC || t.k == TypeI::STRUCT) {
    if (v.k == K_UNDEF) return;
    if (auto* st = dyn_cast<StructType>(t.t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) storeAt(addr + sl->getElementOffset(i), (*v.agg)[i], typeOf(st->getElementType(i)));
    } else {
      Type* et = t.t->isArrayTy() ? t.t->getArrayElementType() : cast<VectorType>(t.t)->getElementType();
      uint64_t es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < v.agg->size(); i++) storeAt(addr + i * es, (*v.agg)[i], typeOf(et));
    }
    return;
  }
  uint32_t n = t.k == TypeI::FP && t.w == 80 ? 16 : (t.w + 7) / 8;
  Obj* o = wobj(addr, n, off, "write");
  clearCells(o, off, n);
  if (!o->def.empty()) memset(&o->def[off], v.k == K_UNDEF ? 0 : 1, n);
  switch (v.k) {
    case K_UNDEF:
      if (o->def.empty()) { o->def.assign(o->size, 1); memset(&o->def[off], 0, n); }
      break;
    case K_INT:
      if (n > 8) { memset(&o->b[off], 0, n); memcpy(&o->b[off], &v.u, 8); }
      else memcpy(&o->b[off], &v.u, n);
      break;
    case K_FP:
      if (v.w == 32) { float f = (float)v.d; memcpy(&o->b[off], &f, 4); }
      else if (v.w == 64) memcpy(&o->b[off], &v.d, 8);
      else putCell(o, Cell{off, 16, v});
      break;
    default:
      if (v.k == K_SYMI && t.w % 8) {
        Z3_ast a = t.w == 1 ? mkIte(v.a, bvc(1, 8), bvc(0, 8)) : Z3_mk_zero_ext(C, n * 8 - t.w, v.a);
        v = mkSI(a, n * 8);
      }
      putCell(o, Cell{off, n, v});
  }
}
Val Exec::load(Val addr, TypeI t) {
  if (addr.k == K_UNDEF) throw Violation{"memory: read through uninitialised pointer"};
  if (addr.k == K_INT) return loadAt(addr.u, t);
  // symbolic address: enumerate
  Z3_ast a = bv(addr, 64);
  Z3_ast as = simp(a);
  std::vector<uint64_t> vals;
  std::vector<Z3_ast> block;
  uint64_t u;
  if (Z3_get_ast_kind(C, as) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(C, as, &u)) return loadAt(u, t);
  bool done = false;
  while (vals.size() < 48) {
    Model m;
    Res r = query(s->pc, block.empty() ? std::vector<Z3_ast>{mkEq(as, as), Z3_mk_eq(C, as, freshVar("addr!", Z3_mk_bv_sort(C, 64)))} : [&] { auto b = block; b.push_back(Z3_mk_eq(C, as, freshVar("addr!", Z3_mk_bv_sort(C, 64)))); return b; }(), &m, s->model.get(), opt.branchBudget);
    if (r == Res::Unsat) { done = true; break; }
    if (r == Res::Unknown) throw Unsupported{"symbolic address query unknown"};
    Z3_ast val = m[aid(freshVar("addr!", Z3_mk_bv_sort(C, 64)))];
    if (!val || !Z3_get_numeral_uint64(C, val, &u)) throw Unsupported{"symbolic address model"};
    vals.push_back(u);
    block.push_back(mkNot(Z3_mk_eq(C, as, bvc(u, 64))));
  }
  if (vals.empty()) throw PathEnd{"infeasible"};
  if (!done || t.k == TypeI::VEC || t.k == TypeI::STRUCT) return loadAt(conc(addr, 64), t);
  std::vector<Val> got;
  for (uint64_t x : vals) {
    try {
      got.push_back(loadAt(x, t));
    } catch (Violation& v) {
      if (decide(Z3_mk_eq(C, as, bvc(x, 64)))) throw;
      return load(addr, t);
    }
  }
  Val r = got.back();
  for (int i = (int)got.size() - 2; i >= 0; i--) {
    if (got[i].k == K_UNDEF) continue;
    if (r.k == K_UNDEF) { r = got[i]; continue; }
    if (t.k == TypeI::FP) {
      if ((got[i].k == K_FP && !std::isfinite(got[i].d)) || (r.k == K_FP && !std::isfinite(r.d))) return loadAt(conc(addr, 64), t);
    }
    r = selectv(mkSI(Z3_mk_eq(C, as, bvc(vals[i], 64)), 1), got[i], r, t);
  }
  return r;
}
void Exec::store(Val addr, Val v, TypeI t) {
  if (addr.k == K_UNDEF) throw Violation{"memory: write through uninitialised pointer"};
  storeAt(addr.k == K_INT ? addr.u : conc(addr, 64), v, t);
}
void Exec::copyMem(uint64_t d, uint64_t sa, uint64_t n) {
  if (n == 0) return;
  uint32_t so, dof;
  const Obj* so_ = robj(sa, n, so, "read");
  std::vector<uint8_t> bytes(so_->b.begin() + so, so_->b.begin() + so + n), def;
  if (!so_->def.empty()) def.assign(so_->def.begin() + so, so_->def.begin() + so + n);
  std::vector<Cell> cells;
  for (auto& c : so_->sym) {
    if (c.off + c.size <= so || c.off >= so + n) continue;
    if (c.off >= so && c.off + c.size <= so + n) cells.push_back(Cell{(uint32_t)(c.off - so), c.size, c.v});
    else
      for (uint32_t k = 0; k < c.size; k++)
        if (c.off + k >= so && c.off + k < so + n) {
          Val v = fromBV(cellByte(this, c, k), 8);
          if (v.k == K_INT) bytes[c.off + k - so] = v.u;
          else cells.push_back(Cell{(uint32_t)(c.off + k - so), 1, v});
        }
  }
  Obj* o = wobj(d, n, dof, "write");
  clearCells(o, dof, n);
  memcpy(&o->b[dof], bytes.data(), n);
  if (!def.empty() && o->def.empty()) o->def.assign(o->size, 1);
  if (!o->def.empty()) {
    if (def.empty()) memset(&o->def[dof], 1, n);
    else memcpy(&o->def[dof], def.data(), n);
  }
  for (auto c : cells) { c.off += dof; putCell(o, c); }
}
void Exec::setMem(uint64_t d, Val b, uint64_t n) {
  if (n == 0) return;
  uint32_t off;
  Obj* o = wobj(d, n, off, "write");
  clearCells(o, off, n);
  if (b.k == K_UNDEF) { if (o->def.empty()) o->def.assign(o->size, 1); memset(&o->def[off], 0, n); return; }
  if (!o->def.empty()) memset(&o->def[off], 1, n);
  if (b.k == K_INT) memset(&o->b[off], (int)b.u, n);
  else for (uint64_t i = 0; i < n; i++) putCell(o, Cell{(uint32_t)(off + i), 1, b});
}
std::string Exec::cstr(uint64_t a) {
  std::string r;
  for (;;) {
    Val v = byteAt(a++);
    if (v.k != K_INT) { r += "?"; if (r.size() > 200) return r; continue; }
    if (!v.u || r.size() > 5000) return r;
    r += (char)v.u;
  }
}
// ------------------------------------------------------------------ symbolic helpers
Z3_ast Exec::bv(const Val& v, unsigned w) {
  switch (v.k) {
    case K_INT:
      if (w > 64) return Z3_mk_zero_ext(C, w - 64, bvc(v.u, 64));
      return bvc(v.u, w);
    case K_SYMI: return v.a;
    case K_SYMF: return fpBits(v.a, v.w);
    case K_FP: { uint64_t u; if (v.w == 32) { float f = v.d; uint32_t x; memcpy(&x, &f, 4); u = x; } else memcpy(&u, &v.d, 8); return bvc(u, w); }
    case K_UNDEF: throw Unsupported{"use of undefined integer in " + where()};
    default: throw Unsupported{"bv of aggregate"};
  }
}
Z3_ast Exec::fp(const Val& v) {
  if (v.k == K_SYMF) return v.a;
  if (v.k == K_FP) return REAL ? realc(v.d) : v.w == 32 ? f32c(v.d) : f64c(v.d);
  if (v.k == K_SYMI) return castv(Instruction::BitCast, v, TypeI{TypeI::INT, v.w}, TypeI{TypeI::FP, v.w}).a;
  if (v.k == K_UNDEF) throw Unsupported{"use of undefined floating-point value in " + where()};
  throw Unsupported{"fp value"};
}
Z3_ast Exec::fpBits(Z3_ast a, unsigned w) {
  if (REAL) throw Unsupported{"bit pattern of a real-valued double in " + where()};
  if (Z3_get_ast_kind(C, a) == Z3_APP_AST && Z3_get_decl_kind(C, Z3_get_app_decl(C, (Z3_app)a)) == Z3_OP_FPA_TO_FP && Z3_get_app_num_args(C, (Z3_app)a) == 1) {
    Z3_ast x = Z3_get_app_arg(C, (Z3_app)a, 0);
    if (exprSort(x) == Z3_BV_SORT) return x;
  }
  std::string key = "fpbits!" + std::to_string(aid(a));
  Z3_ast v = freshVar(key, Z3_mk_bv_sort(C, w));
  if (!defs.count(aid(v))) {
    Def d;
    d.var = v;
    Z3_sort fs = w == 32 ? sF32 : sF64;
    d.cons.push_back(Z3_mk_eq(C, Z3_mk_fpa_to_fp_bv(C, v, fs), a));
    defs[aid(v)] = d;
  }
  return v;
}
Val Exec::fromBV(Z3_ast a, unsigned w) {
  if (w == 1) return fromBool(a);
  if (w <= 64 && Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST) {
    uint64_t u;
    if (Z3_get_numeral_uint64(C, a, &u)) return mkI(u, w);
  }
  return mkSI(a, w);
}
Val Exec::fromFP(Z3_ast a, unsigned w) { return mkSF(a, w); }
Val Exec::fromBool(Z3_ast a) {
  int b = constBool(a);
  if (b >= 0) return mkI(b, 1);
  return mkSI(a, 1);
}
Z3_ast Exec::boolAst(const Val& v) {
  if (v.k == K_INT) return v.u & 1 ? Z3_mk_true(C) : Z3_mk_false(C);
  if (v.k == K_SYMI && v.w == 1) return v.a;
  undefUse("branch or select on undefined value in " + where());
}
void Exec::addPC(Z3_ast c) {
  if (constBool(c) == 1) return;
  // split conjunctions
  if (Z3_get_ast_kind(C, c) == Z3_APP_AST && Z3_get_decl_kind(C, Z3_get_app_decl(C, (Z3_app)c)) == Z3_OP_AND) {
    unsigned n = Z3_get_app_num_args(C, (Z3_app)c);
    for (unsigned i = 0; i < n; i++) addPC(Z3_get_app_arg(C, (Z3_app)c, i));
    return;
  }
  if (s->pcset.insert(aid(c)).second) s->pc.push_back(c);
}
static void mergeModel(State* s, const Model& m) {
  auto nm = s->model ? std::make_shared<Model>(*s->model) : std::make_shared<Model>();
  dropStale(*nm, m);
  s->model = nm;
}
bool Exec::decide(Z3_ast c0) {
  Z3_ast c = simp(c0);
  int b = constBool(c);
  if (b >= 0) return b;
  if (s->pcset.count(aid(c))) return true;
  Z3_ast nc = simp(mkNot(c));
  if (s->pcset.count(aid(nc))) return false;
  int known = -1;
  if (s->model) {
    known = constBool(evalUnder(*s->model, c));
    if (known >= 0) S.modelHits++;
  }
  auto take = [&](bool v) { addPC(v ? c : nc); };
  Model m1, m0;
  if (known >= 0) {
    Z3_ast other = known ? nc : c;
    Model mo;
    Res r = query(s->pc, {other}, &mo, s->model.get(), opt.branchBudget);
    if (r == Res::Unsat) { s->pcset.insert(aid(known ? c : nc)); return known; }
    auto sib = std::make_unique<State>(*s);
    State* cur = s;
    s = sib.get();
    addPC(other);
    if (r == Res::Sat) mergeModel(s, mo);
    else { s->model.reset(); s->maybeInfeasible = true; S.unknownBranches++; }
    s = cur;
    s->forks++;
    sib->forks++;
    S.forks++;
    work.push_back(std::move(sib));
    take(known);
    return known;
  }
  Res r1 = query(s->pc, {c}, &m1, nullptr, opt.branchBudget);
  if (r1 == Res::Unsat) {
    if (s->maybeInfeasible) {
      // path may be infeasible altogether
      Res r0 = query(s->pc, {nc}, &m0, nullptr, opt.branchBudget);
      if (r0 == Res::Unsat) throw PathEnd{"infeasible"};
      if (r0 == Res::Sat) mergeModel(s, m0);
      take(false);
    }
    return false;
  }
  Res r0 = query(s->pc, {nc}, &m0, nullptr, opt.branchBudget);
  if (r0 == Res::Unsat) {
    if (r1 == Res::Sat) mergeModel(s, m1);
    take(true);
    return true;
  }
  auto sib = std::make_unique<State>(*s);
  State* cur = s;
  s = sib.get();
  addPC(nc);
  if (r0 == Res::Sat) mergeModel(s, m0); else { s->model.reset(); s->maybeInfeasible = true; S.unknownBranches++; }
  s = cur;
  S.forks++;
  work.push_back(std::move(sib));
  take(true);
  if (r1 == Res::Sat) mergeModel(s, m1); else { s->model.reset(); s->maybeInfeasible = true; S.unknownBranches++; }
  return true;
}
uint64_t Exec::conc(const Val& v, unsigned w) {
  if (v.k == K_INT) return v.u;
  if (v.k == K_UNDEF) undefUse("concretising undefined value in " + where());
  Z3_ast a = simp(bv(v, w));
  uint64_t u;
  for (int i = 0; i < 5000; i++) {
    if (w == 1) return decide(a);
    if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(C, a, &u)) return u;
    Z3_ast val = nullptr;
    if (s->model) {
      val = evalUnder(*s->model, a);
      if (Z3_get_ast_kind(C, val) != Z3_NUMERAL_AST) val = nullptr;
    }
    if (!val) {
      Z3_ast t = freshVar("conc!" + std::to_string(w), Z3_mk_bv_sort(C, w));
      Model m;
      Res r = query(s->pc, {Z3_mk_eq(C, t, a)}, &m, nullptr, opt.branchBudget);
      if (r == Res::Unsat) throw PathEnd{"infeasible"};
      if (r == Res::Unknown) throw Unsupported{"concretisation unknown"};
      val = m[aid(t)];
      mergeModel(s, m);
    }
    if (!Z3_get_numeral_uint64(C, val, &u)) throw Unsupported{"concretisation model"};
    if (decide(Z3_mk_eq(C, a, val))) return u;
    // decide() always follows the model, so reaching here means the model was stale
    s->model.reset();
  }
  throw Unsupported{"concretisation"};
}
int64_t Exec::concReal(Z3_ast x, int mode) {  // mode 0: floor
  (void)mode;
  x = simp(x);
  Z3_ast val = nullptr;
  auto isNum = [&](Z3_ast v) { return v && Z3_get_ast_kind(C, v) == Z3_NUMERAL_AST; };
  for (int i = 0; i < 64; i++) {
    if (isNum(x)) val = x;
    else if (s->model) {
      val = evalUnder(*s->model, x);
      if (Z3_is_algebraic_number(C, val) && !isNum(val)) val = Z3_get_algebraic_number_lower(C, val, 20);
      else if (!isNum(val)) val = nullptr;
    }
    if (!val) {
      Z3_ast t = freshVar("concr!", sReal);
      Model m;
      Res r = query(s->pc, {Z3_mk_eq(C, t, x)}, &m, nullptr, opt.assertBudget);
      if (r == Res::Unsat) throw PathEnd{"infeasible"};
      if (r == Res::Unknown) throw Unsupported{"real concretisation unknown in " + where()};
      val = m[aid(t)];
      mergeModel(s, m);
      if (Z3_is_algebraic_number(C, val) && !isNum(val)) val = Z3_get_algebraic_number_lower(C, val, 20);
    }
    std::string dec = Z3_get_numeral_decimal_string(C, val, 6);
    double dv = atof(dec.c_str());
    int64_t k = (int64_t)std::floor(dv);
    // exact floor
    Z3_ast fl = simp(Z3_mk_real2int(C, val));
    int64_t kk;
    if (Z3_get_numeral_int64(C, fl, &kk)) k = kk;
    if (isNum(x)) return k;
    if (decide(mkAnd(Z3_mk_ge(C, x, realInt(k)), Z3_mk_lt(C, x, realInt(k + 1))))) return k;
    s->model.reset();
    val = nullptr;
  }
  throw Unsupported{"real concretisation"};
}
std::string Exec::inputName(const std::string& name) {
  int n = s->nameCount[name]++;
  return n ? name + "." + std::to_string(n) : name;
}
Val Exec::newInput(const std::string& name0, char kind, unsigned w) {
  std::string name = inputName(name0);
  if (!opt.concreteFile.empty()) {
    auto it = concrete.find(name);
    uint64_t u = 0;
    if (it != concrete.end()) u = strtoull(it->second.c_str(), nullptr, 16);
    if (kind == 'd') { double d; memcpy(&d, &u, 8); return mkF(d); }
    if (kind == 'f') { uint32_t x = u; float d; memcpy(&d, &x, 4); return mkF(d, 32); }
    return mkI(u, w);
  }
  Val v;
  if (kind == 'd' || kind == 'f') {
    if (REAL) v = mkSF(freshVar(name, sReal), w);
    else {
      Z3_ast b = freshVar(name, Z3_mk_bv_sort(C, w));
      v = mkSF(Z3_mk_fpa_to_fp_bv(C, b, w == 32 ? sF32 : sF64), w);
      s->inputs.push_back({name, b, kind, Val()});
      return v;
    }
  } else if (w == 1) v = mkSI(freshVar(name, sBool), 1);
  else v = mkSI(freshVar(name, Z3_mk_bv_sort(C, w)), w);
  s->inputs.push_back({name, v.a, kind, Val()});
  return v;
}
void Exec::assume(Z3_ast c) {
  c = simp(c);
  int b = constBool(c);
  if (b == 1) return;
  if (b == 0) throw PathEnd{"assume"};
  Z3_ast ev = s->model ? evalUnder(*s->model, c) : nullptr;
  if (ev && constBool(ev) == 1) { addPC(c); return; }
  Model m;
  Res r = query(s->pc, {c}, &m, nullptr, opt.branchBudget);
  if (r == Res::Unsat) throw PathEnd{"assume"};
  addPC(c);
  if (r == Res::Sat) mergeModel(s, m);
  else { s->model.reset(); s->maybeInfeasible = true; }
}
static std::string hex64(uint64_t u) { char b[32]; snprintf(b, 32, "0x%016llx", (unsigned long long)u); return b; }
static double numToDouble(Z3_ast v) {
  if (Z3_get_ast_kind(C, v) != Z3_NUMERAL_AST && Z3_is_algebraic_number(C, v)) v = Z3_get_algebraic_number_lower(C, v, 25);
  if (Z3_get_ast_kind(C, v) != Z3_NUMERAL_AST) return 0;
  std::string q = Z3_get_numeral_string(C, v);
  // exact conversion via long rational division
  size_t sl = q.find('/');
  if (sl == std::string::npos) return strtod(q.c_str(), nullptr);
  if (q.size() < 400) {
    // decimal with many digits
    std::string d = Z3_get_numeral_decimal_string(C, v, 40);
    if (!d.empty() && d.back() == '?') d.pop_back();
    double r = strtod(d.c_str(), nullptr);
    if (r != 0 || q[0] == '0') {
      if (std::fabs(r) > 1e-15) return r;
    }
    return strtod(q.substr(0, sl).c_str(), nullptr) / strtod(q.c_str() + sl + 1, nullptr);
  }
  std::string d = Z3_get_numeral_decimal_string(C, v, 40);
  if (!d.empty() && d.back() == '?') d.pop_back();
  return strtod(d.c_str(), nullptr);
}
std::vector<std::pair<std::string, std::string>> Exec::modelOf(const Model& m) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto& in : s->inputs) {
    if (!in.a) { r.push_back({in.name, hex64(in.c.u)}); continue; }
    auto it = m.find(aid(in.a));
    uint64_t u = 0;
    if (it != m.end()) {
      if (in.kind == 'd' && REAL) { double d = numToDouble(it->second); memcpy(&u, &d, 8); }
      else if (in.kind == 'f' && REAL) { float d = numToDouble(it->second); memcpy(&u, &d, 4); }
      else if (constBool(it->second) >= 0) u = constBool(it->second);
      else Z3_get_numeral_uint64(C, it->second, &u);
    }
    r.push_back({in.name, hex64(u)});
  }
  return r;
}
// A decision that depends on an uninitialised value; believed only when memcheck sees it natively too.
void Exec::undefUse(const std::string& what) {
  violation("use of an uninitialised value", nullptr);
  throw Unsupported{what};
}
void Exec::violation(const std::string& msg, Z3_ast neg) {
  ViolRec v;
  v.msg = msg;
  v.where = where();
  unsigned same = 0;
  for (auto& x : viols) if (x.msg == msg) same++;
  if (same >= opt.maxViol) return;
  Model full = s->model ? *s->model : Model();
  std::vector<Z3_ast> conds = s->pc;
  if (neg) conds.push_back(neg);
  Model m;
  Res r = conds.empty() ? Res::Sat : query({}, conds, &m, s->model.get(), aBudget(), true);
  if (r == Res::Unsat) return;  // infeasible path
  if (r == Res::Sat) {
    v.models.push_back(modelOf(m));
    if (REAL) {  // more models with rounder values, as candidates that survive rounding
      std::vector<Z3_ast> ins;
      for (auto& in : s->inputs) if (in.a && in.kind == 'd') ins.push_back(in.a);
      for (int t = 0; t < 8 && v.models.size() < 5; t++) {
        auto c2 = conds;
        for (size_t i = 0; i < ins.size(); i++) {
          uint64_t h = (i * 2654435761u + t * 40503u + 12345) >> 3;
          if ((int)(h % 8) < t) continue;
          static const char* vals[] = {"1/2", "1", "3/4", "2", "1/4", "3/2", "-1/2", "5/4", "-3/4", "1/8", "3", "-2"};
          if (t < 4) {
            auto it = m.find(aid(ins[i]));
            if (it == m.end()) continue;
            // round model value to a multiple of 1/16
            double d = numToDouble(it->second);
            if (std::fabs(d) > 1e9) continue;
            c2.push_back(mkEq(ins[i], realc(std::round(d * 16) / 16)));
          } else c2.push_back(mkEq(ins[i], Z3_mk_numeral(C, vals[h % 12], sReal)));
        }
        Model m2;
        if (query({}, c2, &m2, nullptr, 1.0) == Res::Sat) v.models.push_back(modelOf(m2));
      }
    }
  } else {
    v.certain = false;
    v.models.push_back(modelOf(full));
    inconclusive.push_back("no model for violating path: " + msg);
    return;
  }
  viols.push_back(v);
}
void Exec::check(Z3_ast c0, const std::string& msg, const std::string& wh) {
  (void)wh;
  S.asserts++;
  Z3_ast c = simpD(c0);
  int b = constBool(c);
  if (b == 1) { S.folded++; return; }
  Z3_ast nc = simpD(mkNot(c));
  if (b == 0) { violation(msg, nullptr); throw PathEnd{"violated"}; }
  if (s->pcset.count(aid(c))) { S.discharged++; return; }
  if (deepTerm(c) && !REAL) {
    // long chains of bit operations: a candidate is evaluated before the general search
    for (uint64_t fill : {0x00ull, 0xA5ull, 0x61ull}) {
      Model cand = s->model ? *s->model : Model();
      Z3_ast all = nc;
      for (Z3_ast p : s->pc) all = mkAnd(all, p);
      std::vector<Z3_ast> pins;
      bool ok = true;
      for (unsigned v : varsOf(all)) {
        Z3_ast x = varById(v);
        if (!cand.count(v)) {
          if (exprSort(x) != Z3_BV_SORT || defs.count(v)) { ok = false; break; }
          cand[v] = bvc(fill, Z3_get_bv_sort_size(C, Z3_get_sort(C, x)));
        }
        pins.push_back(Z3_mk_eq(C, x, cand[v]));
      }
      if (!ok || constBool(evalUnder(cand, all)) != 1) continue;
      violation(msg, pins.empty() ? Z3_mk_true(C) : Z3_mk_and(C, pins.size(), pins.data()));
      throw PathEnd{"violated"};
    }
  }
  Model m;
  Res r = query(s->pc, {nc}, &m, s->model.get(), aBudget(), true);
  if (r == Res::Unsat) { S.discharged++; return; }
  if (r == Res::Sat) violation(msg, nc);
  else inconclusive.push_back("assertion undecided: " + msg);
  assume(c);
}
std::string Exec::where() {
  std::string r;
  for (int i = (int)s->st.size() - 1; i >= 0 && i >= (int)s->st.size() - 6; i--) {
    auto& f = s->st[i];
    std::string d = demangle(f.f->name);
    if (d.size() > 90) d = d.substr(0, 90);
    r += (r.empty() ? "" : " < ") + d;
  }
  return r;
}
// ------------------------------------------------------------------ integer arithmetic
static bool isOp(Z3_ast a, Z3_decl_kind k) {
  return Z3_get_ast_kind(C, a) == Z3_APP_AST && Z3_get_decl_kind(C, Z3_get_app_decl(C, (Z3_app)a)) == k;
}
Val Exec::ibin(unsigned op, const Val& a, const Val& b, unsigned w) {
  if (a.k == K_UNDEF || b.k == K_UNDEF) {
    // and/or with a defined absorbing operand keep that; everything else is undefined
    const Val& o = a.k == K_UNDEF ? b : a;
    if (op == Instruction::And && o.k == K_INT && o.u == 0) return o;
    Val u;
    u.w = w;
    return u;
  }
  if (a.k == K_INT && b.k == K_INT && w <= 64) {
    uint64_t x = a.u, y = b.u;
    int64_t sx = sext(x, w), sy = sext(y, w);
    switch (op) {
      case Instruction::Add: return mkI(x + y, w);
      case Instruction::Sub: return mkI(x - y, w);
      case Instruction::Mul: return mkI(x * y, w);
      case Instruction::UDiv: if (!y) throw Violation{"division by zero"}; return mkI(x / y, w);
      case Instruction::SDiv: if (!sy) throw Violation{"division by zero"}; if (sy == -1) return mkI(-x, w); return mkI(sx / sy, w);
      case Instruction::URem: if (!y) throw Violation{"division by zero"}; return mkI(x % y, w);
      case Instruction::SRem: if (!sy) throw Violation{"division by zero"}; if (sy == -1) return mkI(0, w); return mkI(sx % sy, w);
      case Instruction::Shl: if (y >= w) return Val(); return mkI(x << y, w);
      case Instruction::LShr: if (y >= w) return Val(); return mkI(x >> y, w);
      case Instruction::AShr: if (y >= w) return Val(); return mkI(sx >> y, w);
      case Instruction::And: return mkI(x & y, w);
      case Instruction::Or: return mkI(x | y, w);
      case Instruction::Xor: return mkI(x ^ y, w);
    }
  }
  // identities
  auto isC = [&](const Val& v, uint64_t u) { return v.k == K_INT && v.u == (u & maskw(w)); };
  switch (op) {
    case Instruction::Add: if (isC(a, 0)) return b; if (isC(b, 0)) return a; break;
    case Instruction::Sub: if (isC(b, 0)) return a; break;
    case Instruction::Mul: if (isC(a, 0) || isC(b, 1)) return a; if (isC(b, 0) || isC(a, 1)) return b; break;
    case Instruction::And: if (isC(a, 0) || isC(b, ~0ull)) return a; if (isC(b, 0) || isC(a, ~0ull)) return b; break;
    case Instruction::Or: if (isC(a, 0) || isC(b, ~0ull)) return b; if (isC(b, 0) || isC(a, ~0ull)) return a; break;
    case Instruction::Xor: if (isC(a, 0)) return b; if (isC(b, 0)) return a; break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if (isC(b, 0)) return a; break;
    case Instruction::UDiv: case Instruction::SDiv: if (isC(b, 1)) return a; break;
  }
  Z3_ast x = bv(a, w), y = bv(b, w);
  if (w == 1) {
    switch (op) {
      case Instruction::And: return fromBool(mkAnd(x, y));
      case Instruction::Or: return fromBool(mkOr(x, y));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: {
        if (constBool(y) == 1) return fromBool(mkNot(x));
        if (constBool(x) == 1) return fromBool(mkNot(y));
        return fromBool(Z3_mk_xor(C, x, y));
      }
      case Instruction::Mul: return fromBool(mkAnd(x, y));
      default: throw Unsupported{"i1 arithmetic"};
    }
  }
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
    if (b.k != K_INT && decide(Z3_mk_eq(C, y, bvc(0, w)))) throw Violation{"division by zero"};
    if (b.k == K_INT && b.u == 0) throw Violation{"division by zero"};
    if (b.k == K_INT)
      if (Z3_ast r = divRewrite(op == Instruction::UDiv || op == Instruction::SDiv ? '/' : '%', op == Instruction::SDiv || op == Instruction::SRem, simp(x), b.u, w)) return fromBV(r, w);
  }
  Z3_ast r;
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(C, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(C, x, y); break;
    case Instruction::URem: r = Z3_mk_bvurem(C, x, y); break;
    case Instruction::SRem: r = Z3_mk_bvsrem(C, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(C, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(C, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(C, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(C, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(C, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(C, x, y); break;
    default: throw Unsupported{"int op"};
  }
  return fromBV(r, w);
}
Val Exec::icmp(unsigned pred, Val a, Val b, unsigned w) {
  if (a.k == K_UNDEF || b.k == K_UNDEF) { Val u; u.w = 1; return u; }
  if (a.k == K_INT && b.k == K_INT && w <= 64) {
    uint64_t x = a.u, y = b.u;
    int64_t sx = sext(x, w), sy = sext(y, w);
    bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break;
      case CmpInst::ICMP_SGE: r = sx >= sy; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break;
      case CmpInst::ICMP_SLE: r = sx <= sy; break;
    }
    return mkI(r, 1);
  }
  if (REAL && a.k == K_SYMF && b.k == K_INT) {  // sign-bit tests
    if (pred == CmpInst::ICMP_SLT && b.u == 0) return fromBool(Z3_mk_lt(C, a.a, realInt(0)));
    if (pred == CmpInst::ICMP_SGT && sext(b.u, w) == -1) return fromBool(Z3_mk_ge(C, a.a, realInt(0)));
    if (pred == CmpInst::ICMP_EQ && b.u == 0) return fromBool(Z3_mk_eq(C, a.a, realInt(0)));
    if (pred == CmpInst::ICMP_NE && b.u == 0) return fromBool(mkNot(Z3_mk_eq(C, a.a, realInt(0))));
  }
  if (REAL && a.k == K_SYMF && b.k == K_SYMF && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) {
    Z3_ast e = mkEq(a.a, b.a);
    return fromBool(pred == CmpInst::ICMP_EQ ? e : mkNot(e));
  }
  if (w == 1) {
    Z3_ast x = boolAst(a), y = boolAst(b);
    switch (pred) {
      case CmpInst::ICMP_EQ: return fromBool(constBool(y) == 1 ? x : constBool(y) == 0 ? mkNot(x) : Z3_mk_iff(C, x, y));
      case CmpInst::ICMP_NE: return fromBool(constBool(y) == 0 ? x : constBool(y) == 1 ? mkNot(x) : Z3_mk_xor(C, x, y));
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return fromBool(mkAnd(mkNot(x), y));
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return fromBool(mkAnd(x, mkNot(y)));
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return fromBool(mkOr(mkNot(x), y));
      default: return fromBool(mkOr(x, mkNot(y)));
    }
  }
  if (w >= 2 && w <= 64) {
    if (a.k == K_SYMI) a = fromBV(simpD(a.a), w);
    if (b.k == K_SYMI) b = fromBV(simpD(b.a), w);
    if (a.k == K_INT && b.k == K_INT) return icmp(pred, a, b, w);
  }
  if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && w >= 2 && w <= 64) {
    int le = linEqual(bv(a, w), bv(b, w));
    if (le) return mkI((le > 0) == (pred == CmpInst::ICMP_EQ), 1);
  }
  if (w >= 2 && w <= 64) {
    uint64_t al, ah, bl, bh;
    bvRange(bv(a, w), al, ah);
    bvRange(bv(b, w), bl, bh);
    const uint64_t top = 1ull << (w - 1);
    bool sg = CmpInst::isSigned((CmpInst::Predicate)pred);
    bool ok = true;
    if (sg) {
      ok = (al >= top) == (ah >= top) && (bl >= top) == (bh >= top);
      al ^= top; ah ^= top; bl ^= top; bh ^= top;  // order-preserving map to unsigned
    }
    if (ok && (al > 0 || bl > 0 || ah < maskw(w) || bh < maskw(w))) {
      int lt = ah < bl ? 1 : al >= bh ? 0 : -1, le = ah <= bl ? 1 : al > bh ? 0 : -1, r = -1;
      switch (pred) {
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = lt; break;
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = le; break;
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = le < 0 ? -1 : !le; break;
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: r = lt < 0 ? -1 : !lt; break;
        case CmpInst::ICMP_EQ: if (ah < bl || bh < al) r = 0; break;
        case CmpInst::ICMP_NE: if (ah < bl || bh < al) r = 1; break;
      }
      if (r >= 0) return mkI(r, 1);
    }
  }
  // ite(c,k1,k2) ==/!= k
  if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && a.k == K_SYMI && b.k == K_INT && isOp(a.a, Z3_OP_ITE)) {
    Z3_ast t = Z3_get_app_arg(C, (Z3_app)a.a, 1), e = Z3_get_app_arg(C, (Z3_app)a.a, 2), cc = Z3_get_app_arg(C, (Z3_app)a.a, 0);
    uint64_t ut, ue;
    if (Z3_get_ast_kind(C, t) == Z3_NUMERAL_AST && Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(C, t, &ut) && Z3_get_numeral_uint64(C, e, &ue)) {
      bool p = (ut == b.u) == (pred == CmpInst::ICMP_EQ), q = (ue == b.u) == (pred == CmpInst::ICMP_EQ);
      if (p && q) return mkI(1, 1);
      if (!p && !q) return mkI(0, 1);
      return fromBool(p ? cc : mkNot(cc));
    }
  }
  Z3_ast x = bv(a, w), y = bv(b, w), r;
  switch (pred) {
    case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
    case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x, y); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x, y); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x, y); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x, y); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x, y); break;
    default: r = Z3_mk_bvsle(C, x, y); break;
  }
  return fromBool(r);
}
// ------------------------------------------------------------------ floating point
Val Exec::fneg(const Val& a) {
  if (a.k == K_UNDEF) return a;
  if (a.k == K_FP) return mkF(-a.d, a.w);
  return mkSF(REAL ? Z3_mk_unary_minus(C, fp(a)) : Z3_mk_fpa_neg(C, fp(a)), a.w);
}
Val Exec::fabsv(const Val& a) {
  if (a.k == K_UNDEF) return a;
  if (a.k == K_FP) return mkF(std::fabs(a.d), a.w);
  if (!REAL) return mkSF(Z3_mk_fpa_abs(C, fp(a)), a.w);
  Z3_ast x = fp(a);
  if (opt.forkSelect) return decide(Z3_mk_ge(C, x, realInt(0))) ? a : mkSF(Z3_mk_unary_minus(C, x), a.w);
  return mkSF(mkIte(Z3_mk_ge(C, x, realInt(0)), x, Z3_mk_unary_minus(C, x)), a.w);
}
static double opd(unsigned op, double a, double b) {
  switch (op) {
    case Instruction::FAdd: return a + b;
    case Instruction::FSub: return a - b;
    case Instruction::FMul: return a * b;
    case Instruction::FDiv: return a / b;
    default: return std::fmod(a, b);
  }
}
static bool isDivVar(Z3_ast a) {
  auto it = defs.find(aid(a));
  return it != defs.end() && it->second.kind == Def::Div;
}
Z3_ast Exec::defVar(const std::string& key, Def::Kind k, std::function<void(Def&)> fill) {
  Z3_ast v = freshVar(key, REAL ? sReal : sF64);
  if (!defs.count(aid(v))) {
    Def d;
    d.kind = k;
    d.var = v;
    defs[aid(v)] = d;
    Def d2 = d;
    fill(d2);
    defs[aid(v)] = d2;
  }
  return v;
}
// Exact mode: doubles known to take one of a few values (quark counts and the like) are kept as
// exclusive cases so that arithmetic and comparisons on them fold instead of being bit-blasted.
using FCases = std::vector<std::pair<Z3_ast, double>>;
static std::unordered_map<unsigned, FCases> g_fcases;
static bool fcasesOf(const Val& v, FCases& out) {
  if (v.k == K_FP) { out = {{Z3_mk_true(C), v.d}}; return true; }
  if (v.k != K_SYMF) return false;
  auto it = g_fcases.find(aid(v.a));
  if (it == g_fcases.end()) return false;
  out = it->second;
  return true;
}
static Val fromFCases(const FCases& in, unsigned w) {
  std::map<uint64_t, std::pair<Z3_ast, double>> by;
  for (auto& c : in) {
    if (constBool(c.first) == 0) continue;
    uint64_t u;
    memcpy(&u, &c.second, 8);
    auto it = by.find(u);
    if (it == by.end()) by[u] = c;
    else it->second.first = mkOr(it->second.first, c.first);
  }
  if (by.size() == 1) return mkF(by.begin()->second.second, w);
  FCases cs;
  Z3_ast r = nullptr;
  for (auto& kv : by) {
    cs.push_back(kv.second);
    Z3_ast k = w == 32 ? f32c(kv.second.second) : f64c(kv.second.second);
    r = r ? mkIte(kv.second.first, k, r) : k;
  }
  g_fcases[aid(r)] = cs;
  return mkSF(r, w);
}
static bool fcross(const Val& a, const Val& b, std::vector<std::tuple<Z3_ast, double, double>>& out) {
  FCases x, y;
  if (REAL || g_fcases.empty() || !fcasesOf(a, x) || !fcasesOf(b, y) || x.size() * y.size() > 64) return false;
  for (auto& p : x) for (auto& q : y) {
    Z3_ast c = constBool(p.first) == 1 ? q.first : constBool(q.first) == 1 ? p.first : mkAnd(p.first, q.first);
    out.push_back({c, p.second, q.second});
  }
  return true;
}
Val Exec::fbin(unsigned op, const Val& a, const Val& b, unsigned w) {
  if (a.k == K_UNDEF || b.k == K_UNDEF) return Val();
  if (a.k == K_FP && b.k == K_FP) return mkF(opd(op, a.d, b.d), w);
  if (!REAL) {
    std::vector<std::tuple<Z3_ast, double, double>> cr;
    if (fcross(a, b, cr)) {
      FCases o;
      for (auto& t : cr) o.push_back({std::get<0>(t), mkF(opd(op, std::get<1>(t), std::get<2>(t)), w).d});
      return fromFCases(o, w);
    }
    Z3_ast x = fp(a), y = fp(b);
    switch (op) {
      case Instruction::FAdd: return mkSF(Z3_mk_fpa_add(C, rRNE, x, y), w);
      case Instruction::FSub: return mkSF(Z3_mk_fpa_sub(C, rRNE, x, y), w);
      case Instruction::FMul:
        if (a.k == K_FP && a.d == 1) return b;
        if (b.k == K_FP && b.d == 1) return a;
        return mkSF(Z3_mk_fpa_mul(C, rRNE, x, y), w);
      case Instruction::FDiv: return mkSF(Z3_mk_fpa_div(C, rRNE, x, y), w);
      default: throw Unsupported{"symbolic frem"};
    }
  }
  // real mode
  for (const Val* p : {&a, &b})
    if (p->k == K_FP && !std::isfinite(p->d)) {
      const Val& o = p == &a ? b : a;
      if (std::isnan(p->d)) return mkF(NAN, w);
      if (op == Instruction::FAdd) return *p;
      if (op == Instruction::FSub) return p == &a ? *p : mkF(-p->d, w);
      if (op == Instruction::FDiv && p == &b) return mkF(0, w);
      // inf * x, inf / x
      Z3_ast x = fp(o);
      if (decide(Z3_mk_eq(C, x, realInt(0)))) return op == Instruction::FMul ? mkF(NAN, w) : *p;
      return decide(Z3_mk_gt(C, x, realInt(0))) ? *p : mkF(-p->d, w);
    }
  Z3_ast r;
  switch (op) {
    case Instruction::FAdd: {
      if (a.k == K_FP && a.d == 0) return b;
      if (b.k == K_FP && b.d == 0) return a;
      Z3_ast v[2] = {fp(a), fp(b)};
      r = Z3_mk_add(C, 2, v);
      break;
    }
    case Instruction::FSub: {
      if (b.k == K_FP && b.d == 0) return a;
      if (a.k == K_SYMF && b.k == K_SYMF && a.a == b.a) return mkF(0, w);
      Z3_ast v[2] = {fp(a), fp(b)};
      r = Z3_mk_sub(C, 2, v);
      break;
    }
    case Instruction::FMul: {
      if ((a.k == K_FP && a.d == 0) || (b.k == K_FP && b.d == 0)) return mkF(0, w);
      if (a.k == K_FP && a.d == 1) return b;
      if (b.k == K_FP && b.d == 1) return a;
      if (a.k == K_SYMF && b.k == K_SYMF && a.a == b.a) {
        auto it = defs.find(aid(a.a));
        if (it != defs.end() && it->second.kind == Def::Sqrt) { r = it->second.a; break; }
      }
      Z3_ast v[2] = {fp(a), fp(b)};
      r = Z3_mk_mul(C, 2, v);
      if (a.k == K_SYMF && b.k == K_SYMF && (isDivVar(a.a) || isDivVar(b.a)))
        if (Z3_ast q = polyProd(v[0], v[1])) r = simp(q);
      break;
    }
    case Instruction::FDiv: {
      if (b.k == K_FP) {
        if (b.d == 0) {
          Z3_ast x = fp(a);
          if (decide(Z3_mk_eq(C, x, realInt(0)))) return mkF(NAN, w);
          bool pos = decide(Z3_mk_gt(C, x, realInt(0)));
          return mkF((pos != std::signbit(b.d)) ? INFINITY : -INFINITY, w);
        }
        r = Z3_mk_div(C, fp(a), fp(b));
        r = simp(r);
        break;
      }
      Z3_ast y = fp(b);
      if (a.k == K_SYMF && a.a == y) {
        if (decide(Z3_mk_eq(C, y, realInt(0)))) return mkF(NAN, w);
        return mkF(1, w);
      }
      if (decide(Z3_mk_eq(C, y, realInt(0)))) {
        if (a.k == K_FP) return mkF(a.d / 0.0, w);
        Z3_ast x = fp(a);
        if (decide(Z3_mk_eq(C, x, realInt(0)))) return mkF(NAN, w);
        return mkF(decide(Z3_mk_gt(C, x, realInt(0))) ? INFINITY : -INFINITY, w);
      }
      if (a.k == K_FP && a.d == 0) return mkF(0, w);
      Z3_ast x = simp(fp(a)), ys = simp(y);
      if (Z3_get_ast_kind(C, ys) == Z3_NUMERAL_AST) { r = simp(Z3_mk_div(C, x, ys)); break; }
      if (Z3_ast q = polyQuot(x, ys)) { r = simp(q); break; }
      {
        // x / (p / q) = x q / p: q is known to be non-zero
        auto it = defs.find(aid(ys));
        if (it != defs.end() && it->second.kind == Def::Div) {
          Val n = fbin(Instruction::FMul, a, mkSF(it->second.b, w), w);
          return fbin(Instruction::FDiv, n, mkSF(it->second.a, w), w);
        }
      }
      r = defVar("div!" + std::to_string(aid(x)) + "!" + std::to_string(aid(ys)), Def::Div, [&](Def& d) {
        d.a = x;
        d.b = ys;
        Z3_ast v[2] = {d.var, ys};
        d.cons.push_back(Z3_mk_eq(C, Z3_mk_mul(C, 2, v), x));
      });
      break;
    }
    default: throw Unsupported{"symbolic frem"};
  }
  if (Z3_get_ast_kind(C, r) != Z3_NUMERAL_AST && Z3_get_ast_kind(C, r) == Z3_APP_AST) return mkSF(r, w);
  return mkSF(r, w);
}
Val Exec::fsqrt(const Val& a) {
  if (a.k == K_UNDEF) return a;
  if (a.k == K_FP) return mkF(std::sqrt(a.d), a.w);
  if (!REAL) return mkSF(Z3_mk_fpa_sqrt(C, rRNE, fp(a)), a.w);
  Z3_ast x = simp(fp(a));
  if (decide(Z3_mk_lt(C, x, realInt(0)))) return mkF(NAN, a.w);
  if (Z3_get_ast_kind(C, x) == Z3_NUMERAL_AST) {
    return mkF(std::sqrt(numToDouble(x)), a.w);
  }
  auto rootVar = [&](Z3_ast x) {
    std::string key = polyKey(x);
    key = "sqrt!" + (key.empty() ? std::to_string(aid(x)) : key);
    return defVar(key, Def::Sqrt, [&](Def& d) {
    d.a = x;
    d.cons.push_back(Z3_mk_ge(C, d.var, realInt(0)));
    Z3_ast v[2] = {d.var, d.var};
    d.cons.push_back(Z3_mk_eq(C, Z3_mk_mul(C, 2, v), x));
  });
  };
  RootForm f;
  if (polyRoot(x, f)) {
    // perfect square over a positive denominator: sqrt(x) = |root| / den * prod sqrt(odd)
    bool ok = true;
    for (Z3_ast o : f.odd)
      if (!decide(Z3_mk_gt(C, o, realInt(0)))) { ok = false; break; }
    if (ok) {
      Val num = mkSF(simp(f.root), a.w), den = mkF(1, a.w);
      auto absv = [&](const Val& v) {
        if (v.k == K_FP) return mkF(std::fabs(v.d), a.w);
        if (decide(Z3_mk_ge(C, fp(v), realInt(0)))) return v;
        return mkSF(simp(Z3_mk_unary_minus(C, fp(v))), a.w);
      };
      num = absv(num);
      if (!f.trivialDen) den = absv(mkSF(simp(f.den), a.w));
      for (Z3_ast o : f.odd) den = fbin(Instruction::FMul, den, mkSF(rootVar(o), a.w), a.w);
      return fbin(Instruction::FDiv, num, den, a.w);
    }
  }
  Z3_ast r = rootVar(x);
  return mkSF(r, a.w);
}
Val Exec::fround(const Val& a, int mode) {
  if (a.k == K_UNDEF) return a;
  if (a.k == K_FP) {
    double d = a.d;
    switch (mode) {
      case 0: d = std::floor(d); break;
      case 1: d = std::ceil(d); break;
      case 2: d = std::trunc(d); break;
      case 3: d = std::round(d); break;
      default: d = std::nearbyint(d);
    }
    return mkF(d, a.w);
  }
  if (!REAL) {
    Z3_ast rm = mode == 0 ? Z3_mk_fpa_rtn(C) : mode == 1 ? Z3_mk_fpa_rtp(C) : mode == 2 ? Z3_mk_fpa_rtz(C) : mode == 3 ? Z3_mk_fpa_rna(C) : rRNE;
    return mkSF(Z3_mk_fpa_round_to_integral(C, rm, fp(a)), a.w);
  }
  Z3_ast x = fp(a);
  if (opt.intReals) {
    if (irInteger(x)) return a;
    Z3_ast half[2] = {x, Z3_mk_numeral(C, "1/2", sReal)}, i = nullptr;
    auto negf = [&](Z3_ast q) -> Z3_ast { Z3_ast f = irFloor(simp(q)); return f ? Z3_mk_bvneg(C, Z3_mk_sign_ext(C, 1, f)) : nullptr; };
    if (mode == 0) i = irFloor(x);
    else if (mode == 1) i = negf(Z3_mk_unary_minus(C, x));
    else if ((mode == 2 || mode == 3) && irCompare(3, x, realInt(0))) {
      bool pos = decide(irCompare(3, x, realInt(0)));
      Z3_ast h[2] = {Z3_mk_unary_minus(C, x), half[1]};
      if (mode == 2) i = pos ? irFloor(x) : negf(h[0]);
      else i = pos ? irFloor(simp(Z3_mk_add(C, 2, half))) : negf(Z3_mk_add(C, 2, h));
    }
    if (i) return mkSF(irVar(simp(i)), a.w);
  }
  auto plus = [&](Z3_ast p, const char* q) { Z3_ast v[2] = {p, Z3_mk_numeral(C, q, sReal)}; return Z3_mk_add(C, 2, v); };
  switch (mode) {
    case 0: return mkF((double)concReal(x, 0), a.w);
    case 1: return mkF(-(double)concReal(Z3_mk_unary_minus(C, x), 0), a.w);
    case 2:
      if (decide(Z3_mk_ge(C, x, realInt(0)))) return mkF((double)concReal(x, 0), a.w);
      return mkF(-(double)concReal(Z3_mk_unary_minus(C, x), 0), a.w);
    case 3:
      if (decide(Z3_mk_ge(C, x, realInt(0)))) return mkF((double)concReal(plus(x, "1/2"), 0), a.w);
      return mkF(-(double)concReal(plus(Z3_mk_unary_minus(C, x), "1/2"), 0), a.w);
    default: {  // nearest even
      int64_t k = concReal(plus(x, "1/2"), 0);
      if (k % 2 && decide(Z3_mk_eq(C, x, simp(plus(realInt(k), "-1/2"))))) k--;
      return mkF((double)k, a.w);
    }
  }
}
Val Exec::fminmax(const Val& a, const Val& b, bool mx) {
  if (a.k == K_FP && b.k == K_FP) return mkF(mx ? std::fmax(a.d, b.d) : std::fmin(a.d, b.d), a.w);
  if (a.k == K_UNDEF || b.k == K_UNDEF) return Val();
  Val lt = fcmp(CmpInst::FCMP_OLT, a, b);
  if (!REAL) {
    Z3_ast x = fp(a), y = fp(b);
    return mkSF(mx ? Z3_mk_fpa_max(C, x, y) : Z3_mk_fpa_min(C, x, y), a.w);
  }
  TypeI t{TypeI::FP, a.w};
  if (a.k == K_FP && std::isnan(a.d)) return b;
  if (b.k == K_FP && std::isnan(b.d)) return a;
  return mx ? selectv(lt, b, a, t) : selectv(lt, a, b, t);
}
Val Exec::fcmp(unsigned pred, const Val& a, const Val& b) {
  if (a.k == K_UNDEF || b.k == K_UNDEF) { Val u; u.w = 1; return u; }
  bool uno = pred & 8;
  if (pred == CmpInst::FCMP_FALSE) return mkI(0, 1);
  if (pred == CmpInst::FCMP_TRUE) return mkI(1, 1);
  if (a.k == K_FP && b.k == K_FP) {
    bool nan = std::isnan(a.d) || std::isnan(b.d), r;
    switch (pred & 7) {
      case 1: r = a.d == b.d; break;
      case 2: r = a.d > b.d; break;
      case 3: r = a.d >= b.d; break;
      case 4: r = a.d < b.d; break;
      case 5: r = a.d <= b.d; break;
      case 6: r = a.d != b.d; break;
      case 7: r = true; break;
      default: r = false;
    }
    return mkI(nan ? uno : r, 1);
  }
  if (REAL) {
    if ((pred & 7) == 7) return (a.k == K_FP && std::isnan(a.d)) || (b.k == K_FP && std::isnan(b.d)) ? mkI(uno, 1) : mkI(!uno, 1);
    if (pred == CmpInst::FCMP_UNO) return mkI((a.k == K_FP && std::isnan(a.d)) || (b.k == K_FP && std::isnan(b.d)), 1);
    for (const Val* p : {&a, &b})
      if (p->k == K_FP && !std::isfinite(p->d)) {
        if (std::isnan(p->d)) return mkI(uno, 1);
        double x = p == &a ? p->d : 0, y = p == &b ? p->d : 0;
        return fcmp(pred, mkF(x), mkF(y));
      }
    Z3_ast x = fp(a), y = fp(b);
    if (opt.intReals && (pred & 7) >= 1 && (pred & 7) <= 6)
      if (Z3_ast r = irCompare(pred & 7, x, y)) return fromBool(simp(r));
    if (opt.sqCmp && (pred & 7) >= 2 && (pred & 7) <= 5) {
      // compare a square root through its square
      auto sq = [&](Z3_ast v) -> Z3_ast { auto it = defs.find(aid(v)); return it != defs.end() && it->second.kind == Def::Sqrt ? it->second.a : nullptr; };
      Z3_ast sx = sq(x), sy = sq(y), z = realInt(0);
      unsigned op = pred & 7;
      auto cmp = [&](unsigned o, Z3_ast p, Z3_ast q) { return o == 2 ? Z3_mk_gt(C, p, q) : o == 3 ? Z3_mk_ge(C, p, q) : o == 4 ? Z3_mk_lt(C, p, q) : Z3_mk_le(C, p, q); };
      if (sx && sy) return fromBool(cmp(op, sx, sy));
      if (sy) { std::swap(x, y); std::swap(sx, sy); op = op == 2 ? 4 : op == 3 ? 5 : op == 4 ? 2 : 3; }
      if (sx) {
        Z3_ast yy[2] = {y, y};
        Z3_ast q2 = simp(Z3_mk_mul(C, 2, yy));
        if (op == 2) return fromBool(mkOr(Z3_mk_lt(C, y, z), Z3_mk_gt(C, sx, q2)));
        if (op == 3) return fromBool(mkOr(Z3_mk_le(C, y, z), Z3_mk_ge(C, sx, q2)));
        if (op == 4) return fromBool(mkAnd(Z3_mk_gt(C, y, z), Z3_mk_lt(C, sx, q2)));
        return fromBool(mkAnd(Z3_mk_ge(C, y, z), Z3_mk_le(C, sx, q2)));
      }
    }
    switch (pred & 7) {
      case 1: return fromBool(mkEq(x, y));
      case 2: return fromBool(Z3_mk_gt(C, x, y));
      case 3: return fromBool(Z3_mk_ge(C, x, y));
      case 4: return fromBool(Z3_mk_lt(C, x, y));
      case 5: return fromBool(Z3_mk_le(C, x, y));
      case 6: return fromBool(mkNot(mkEq(x, y)));
      default: return mkI(0, 1);
    }
  }
  {
    std::vector<std::tuple<Z3_ast, double, double>> cr;
    if (fcross(a, b, cr)) {
      Z3_ast r = Z3_mk_false(C);
      bool all = true;
      for (auto& t : cr) {
        if (fcmp(pred, mkF(std::get<1>(t)), mkF(std::get<2>(t))).u) r = constBool(r) == 0 ? std::get<0>(t) : mkOr(r, std::get<0>(t));
        else all = false;
      }
      return all ? mkI(1, 1) : fromBool(r);
    }
  }
  Z3_ast x = fp(a), y = fp(b), r;
  Z3_ast nan = mkOr(Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y));
  switch (pred) {
    case CmpInst::FCMP_OEQ: r = Z3_mk_fpa_eq(C, x, y); break;
    case CmpInst::FCMP_OGT: r = Z3_mk_fpa_gt(C, x, y); break;
    case CmpInst::FCMP_OGE: r = Z3_mk_fpa_geq(C, x, y); break;
    case CmpInst::FCMP_OLT: r = Z3_mk_fpa_lt(C, x, y); break;
    case CmpInst::FCMP_OLE: r = Z3_mk_fpa_leq(C, x, y); break;
    case CmpInst::FCMP_ONE: r = mkAnd(mkNot(nan), mkNot(Z3_mk_fpa_eq(C, x, y))); break;
    case CmpInst::FCMP_ORD: r = mkNot(nan); break;
    case CmpInst::FCMP_UNO: r = nan; break;
    case CmpInst::FCMP_UEQ: r = mkOr(nan, Z3_mk_fpa_eq(C, x, y)); break;
    case CmpInst::FCMP_UGT: r = mkNot(Z3_mk_fpa_leq(C, x, y)); break;
    case CmpInst::FCMP_UGE: r = mkNot(Z3_mk_fpa_lt(C, x, y)); break;
    case CmpInst::FCMP_ULT: r = mkNot(Z3_mk_fpa_geq(C, x, y)); break;
    case CmpInst::FCMP_ULE: r = mkNot(Z3_mk_fpa_gt(C, x, y)); break;
    default: r = mkNot(Z3_mk_fpa_eq(C, x, y)); break;
  }
  return fromBool(r);
}
Val Exec::selectv(const Val& c, const Val& a, const Val& b, TypeI t) {
  if (c.k == K_AGG) {
    std::vector<Val> r;
    TypeI et = typeOf(cast<VectorType>(t.t)->getElementType());
    for (size_t i = 0; i < c.agg->size(); i++) r.push_back(selectv((*c.agg)[i], (*a.agg)[i], (*b.agg)[i], et));
    return mkAgg(r);
  }
  if (c.k == K_INT) return c.u & 1 ? a : b;
  if (c.k == K_UNDEF) undefUse("select on undefined value in " + where());
  if (a.k == K_AGG || b.k == K_AGG) return decide(c.a) ? a : b;
  if (a.k == K_UNDEF) return b;
  if (b.k == K_UNDEF) return a;
  if (t.k == TypeI::FP || a.k == K_SYMF || b.k == K_SYMF) {
    if (opt.forkSelect || (REAL && ((a.k == K_FP && !std::isfinite(a.d)) || (b.k == K_FP && !std::isfinite(b.d))))) return decide(c.a) ? a : b;
    if (a.k == K_FP && b.k == K_FP && memcmp(&a.d, &b.d, 8) == 0) return a;
    unsigned w = t.w;
    FCases x, y;
    if (!REAL && t.k == TypeI::FP && fcasesOf(a, x) && fcasesOf(b, y) && x.size() + y.size() <= 32) {
      FCases o;
      Z3_ast nc = mkNot(c.a);
      for (auto& p : x) o.push_back({constBool(p.first) == 1 ? c.a : mkAnd(c.a, p.first), p.second});
      for (auto& p : y) o.push_back({constBool(p.first) == 1 ? nc : mkAnd(nc, p.first), p.second});
      return fromFCases(o, w);
    }
    return mkSF(mkIte(c.a, fp(a), fp(b)), w);
  }
  if (a.k == K_INT && b.k == K_INT && a.u == b.u) return a;
  unsigned w = t.w;
  if (w == 1) {
    Z3_ast x = boolAst(a), y = boolAst(b);
    if (constBool(x) == 1) return fromBool(mkOr(c.a, y));
    if (constBool(x) == 0) return fromBool(mkAnd(mkNot(c.a), y));
    if (constBool(y) == 0) return fromBool(mkAnd(c.a, x));
    if (constBool(y) == 1) return fromBool(mkOr(mkNot(c.a), x));
    return fromBool(mkIte(c.a, x, y));
  }
  if (t.k == TypeI::PTR) {  // keep pointers concrete where possible
    return decide(c.a) ? a : b;
  }
  return fromBV(mkIte(c.a, bv(a, w), bv(b, w)), w);
}
Val Exec::castv(unsigned op, const Val& a, TypeI from, TypeI to) {
  if (a.k == K_AGG) {
    if (op == Instruction::BitCast) {  // vector reinterpretation through memory
      uint64_t tmp = alloc(DL->getTypeAllocSize(from.t), false, false, "tmp");
      storeAt(tmp, a, from);
      Val r = loadAt(tmp, to);
      freeObj(tmp >> IDSHIFT);
      return r;
    }
    std::vector<Val> r;
    TypeI fe = typeOf(cast<VectorType>(from.t)->getElementType()), te = typeOf(cast<VectorType>(to.t)->getElementType());
    for (auto& x : *a.agg) r.push_back(castv(op, x, fe, te));
    return mkAgg(r);
  }
  if (a.k == K_UNDEF) { Val u; u.w = to.w; return u; }
  unsigned w = to.w, fw = from.w;
  switch (op) {
    case Instruction::Trunc:
      if (a.k == K_INT) return mkI(a.u, w);
      {
        Z3_ast x = bv(a, fw);
        if (w == 1) {
          if (isOp(x, Z3_OP_ITE)) {
            Val r = icmp(CmpInst::ICMP_EQ, mkSI(x, fw), mkI(1, fw), fw);
            Z3_ast t = Z3_get_app_arg(C, (Z3_app)x, 1), e = Z3_get_app_arg(C, (Z3_app)x, 2);
            uint64_t ut, ue;
            if (Z3_get_ast_kind(C, t) == Z3_NUMERAL_AST && Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(C, t, &ut) && Z3_get_numeral_uint64(C, e, &ue) && ut <= 1 && ue <= 1) return r;
          }
          return fromBool(simp(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, x), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)))));
        }
        if (isOp(x, Z3_OP_ZERO_EXT) || isOp(x, Z3_OP_SIGN_EXT)) {
          Z3_ast in = Z3_get_app_arg(C, (Z3_app)x, 0);
          unsigned iw = Z3_get_bv_sort_size(C, Z3_get_sort(C, in));
          if (iw == w) return fromBV(in, w);
        }
        return fromBV(simpD(Z3_mk_extract(C, w - 1, 0, x)), w);
      }
    case Instruction::ZExt:
      if (a.k == K_INT) { Val r = mkI(a.u, std::min(w, 64u)); r.w = w; return r; }
      if (fw == 1) return fromBV(mkIte(boolAst(a), bvc(1, w), bvc(0, w)), w);
      return fromBV(Z3_mk_zero_ext(C, w - fw, bv(a, fw)), w);
    case Instruction::SExt:
      if (a.k == K_INT) {
        if (w > 64) return fromBV(simp(Z3_mk_sign_ext(C, w - fw, bvc(a.u, fw == 1 ? 2 : fw))), w);
        return mkI((uint64_t)sext(a.u, fw), w);
      }
      if (fw == 1) return fromBV(mkIte(boolAst(a), bvc(~0ull, w), bvc(0, w)), w);
      return fromBV(Z3_mk_sign_ext(C, w - fw, bv(a, fw)), w);
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      if (fw == w) return a;
      return castv(w < fw ? Instruction::Trunc : Instruction::ZExt, a, TypeI{TypeI::INT, fw}, TypeI{TypeI::INT, w});
    case Instruction::BitCast: case Instruction::AddrSpaceCast:
      if (from.k == to.k && from.k != TypeI::VEC) return a;
      if (to.k == TypeI::VEC || from.k == TypeI::VEC) {
        uint64_t tmp = alloc(DL->getTypeAllocSize(from.t), false, false, "tmp");
        storeAt(tmp, a, from);
        Val r = loadAt(tmp, to);
        freeObj(tmp >> IDSHIFT);
        return r;
      }
      if (to.k == TypeI::FP) {
        if (a.k == K_INT) {
          if (w == 32) { uint32_t u = a.u; float f; memcpy(&f, &u, 4); return mkF(f, 32); }
          double d; memcpy(&d, &a.u, 8); return mkF(d);
        }
        if (a.k == K_SYMF) return a;
        if (REAL) throw Unsupported{"integer bits as real-valued double in " + where()};
        return mkSF(Z3_mk_fpa_to_fp_bv(C, a.a, w == 32 ? sF32 : sF64), w);
      }
      if (a.k == K_FP) { Val r = mkI(0, w); if (a.w == 32) { float f = a.d; uint32_t u; memcpy(&u, &f, 4); r.u = u; } else memcpy(&r.u, &a.d, 8); return r; }
      if (a.k == K_SYMF) {
        if (REAL) return a;
        return fromBV(fpBits(a.a, a.w), w);
      }
      return a;
    case Instruction::FPExt: case Instruction::FPTrunc:
      if (a.k == K_FP) return mkF(a.d, w);
      if (REAL) return mkSF(fp(a), w);
      if (w == 80 || fw == 80) throw Unsupported{"symbolic long double"};
      return mkSF(Z3_mk_fpa_to_fp_float(C, rRNE, fp(a), w == 32 ? sF32 : sF64), w);
    case Instruction::SIToFP: case Instruction::UIToFP: {
      bool sg = op == Instruction::SIToFP;
      if (a.k == K_INT) {
        if (w == 32) return mkF(sg ? (float)sext(a.u, fw) : (float)a.u, 32);
        return mkF(sg ? (double)sext(a.u, fw) : (double)a.u, w);
      }
      if (REAL && opt.intReals && fw > 1 && fw <= 64) {
        Z3_ast x = bv(a, fw);
        return mkSF(irVar(simp(sg ? x : Z3_mk_zero_ext(C, 1, x))), w);
      }
      if (REAL) {
        uint64_t u = conc(a, fw);
        return mkF(sg ? (double)sext(u, fw) : (double)u, w);
      }
      Z3_ast x = fw == 1 ? mkIte(boolAst(a), bvc(sg ? 3 : 1, 2), bvc(0, 2)) : bv(a, fw);
      if (w == 64 || w == 32) {
        std::vector<std::pair<Z3_ast, uint64_t>> bc;
        if (fw > 1 && fw <= 64 && bvCases(simp(x), bc, 24)) {
          FCases o;
          for (auto& c : bc) o.push_back({c.first, mkF(sg ? (double)sext(c.second, fw) : (double)c.second, w).d});
          return fromFCases(o, w);
        }
      }
      Z3_sort fs = w == 32 ? sF32 : sF64;
      return mkSF(sg ? Z3_mk_fpa_to_fp_signed(C, rRNE, x, fs) : Z3_mk_fpa_to_fp_unsigned(C, rRNE, x, fs), w);
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      bool sg = op == Instruction::FPToSI;
      if (a.k == K_FP) {
        double t = std::trunc(a.d);
        double lo = sg ? -std::ldexp(1, w - 1) : 0, hi = sg ? std::ldexp(1, w - 1) : std::ldexp(1, w);
        // out of range is undefined in C++; the target's behaviour (x86 cvttsd2si) is modelled for signed casts
        if (!(t >= lo && t < hi)) {
          if (w == 64 || w == 32) {
            if (sg) return mkI(1ull << (w - 1), w);
          }
          int64_t big = (t >= -9.3e18 && t < 9.2e18) ? (int64_t)t : INT64_MIN;
          return mkI((uint64_t)big, w);
        }
        if (sg) return mkI((uint64_t)(int64_t)t, w);
        return mkI(t >= 9.3e18 ? (uint64_t)t : t >= 9223372036854775808.0 ? (uint64_t)t : (uint64_t)(int64_t)t, w);
      }
      if (REAL) {
        if (opt.intReals)
          if (Z3_ast i = irInteger(a.a)) {
            unsigned W = Z3_get_bv_sort_size(C, Z3_get_sort(C, i));
            if (W <= w) return fromBV(simp(W < w ? Z3_mk_sign_ext(C, w - W, i) : i), w);
            auto lim = [&](int sgn) { return Z3_mk_numeral(C, (sgn < 0 ? "-" + std::to_string(1ull << (w - 1)) : std::to_string((1ull << (w - 1)) - 1)).c_str(), Z3_mk_bv_sort(C, W)); };
            if (sg) {
              Z3_ast in = simp(mkAnd(Z3_mk_bvsge(C, i, lim(-1)), Z3_mk_bvsle(C, i, lim(1))));
              return decide(in) ? fromBV(simp(Z3_mk_extract(C, w - 1, 0, i)), w) : mkI(1ull << (w - 1), w);
            }
            return fromBV(simp(Z3_mk_extract(C, w - 1, 0, i)), w);
          }
        Val t = fround(a, 2);
        if (t.k == K_SYMF) throw Unsupported{"conversion of a symbolic real to an integer"};
        return castv(op, t, from, to);
      }
      Z3_ast x = fp(a);
      // in-range conversion; out of range yields the x86 indefinite value for signed, wrapped for narrow types
      Z3_ast rtz = Z3_mk_fpa_rtz(C);
      if (sg && (w == 64 || w == 32)) {
        Z3_sort fs = a.w == 32 ? sF32 : sF64;
        Z3_ast lo = Z3_mk_fpa_numeral_double(C, -std::ldexp(1, w - 1), fs), hi = Z3_mk_fpa_numeral_double(C, std::ldexp(1, w - 1), fs);
        Z3_ast xr = Z3_mk_fpa_round_to_integral(C, rtz, x);
        Z3_ast in = mkAnd(Z3_mk_fpa_geq(C, xr, lo), Z3_mk_fpa_lt(C, xr, hi));
        return fromBV(mkIte(in, Z3_mk_fpa_to_sbv(C, rtz, x, w), bvc(1ull << (w - 1), w)), w);
      }
      Z3_sort fs = a.w == 32 ? sF32 : sF64;
      Z3_ast lo = Z3_mk_fpa_numeral_double(C, -std::ldexp(1, 63), fs), hi = Z3_mk_fpa_numeral_double(C, std::ldexp(1, 63), fs);
      Z3_ast in = mkAnd(Z3_mk_fpa_geq(C, x, lo), Z3_mk_fpa_lt(C, x, hi));
      Z3_ast s64 = mkIte(in, Z3_mk_fpa_to_sbv(C, rtz, x, 64), bvc(1ull << 63, 64));
      if (w == 64) {  // unsigned 64: x86 sequence
        Z3_ast big = Z3_mk_fpa_to_ubv(C, rtz, x, 64);
        Z3_ast hi2 = Z3_mk_fpa_numeral_double(C, std::ldexp(1, 64), fs);
        Z3_ast inb = mkAnd(Z3_mk_fpa_geq(C, x, hi), Z3_mk_fpa_lt(C, x, hi2));
        return fromBV(mkIte(inb, big, s64), 64);
      }
      return fromBV(Z3_mk_extract(C, w - 1, 0, s64), w);
    }
  }
  throw Unsupported{"cast"};
}
// ------------------------------------------------------------------ control
void Exec::jump(unsigned target) {
  Frame& f = s->st.back();
  unsigned from = f.bb;
  f.prev = from;
  f.bb = target;
  CBlk& b = f.f->bb[target];
  f.ip = b.nphi;
  if (b.nphi) {
    SmallVector<Val, 8> v;
    for (unsigned i = 0; i < b.nphi; i++) {
      bool ok = false;
      for (auto& p : b.ins[i].phi)
        if ((unsigned)p.first == from) { v.push_back(eval(p.second)); ok = true; break; }
      if (!ok) throw Unsupported{"phi"};
    }
    for (unsigned i = 0; i < b.nphi; i++) f.r[b.ins[i].dst] = v[i];
  }
}
void Exec::pushFrame(CFunc* f, std::vector<Val>& args) {
  if (s->st.size() > 2000) throw Unsupported{"call depth"};
  Frame fr;
  fr.f = f;
  fr.r.resize(f->nslots);
  for (size_t i = 0; i < args.size() && i < f->F->arg_size(); i++) {
    fr.r[i] = args[i];
    // byval arguments are copied
    if (f->F->hasParamAttribute(i, Attribute::ByVal)) {
      uint64_t n = DL->getTypeAllocSize(f->F->getParamByValType(i));
      uint64_t p = alloc(n, false, true, "byval");
      copyMem(p, args[i].u, n);
      fr.allocas.push_back(p >> IDSHIFT);
      fr.r[i] = mkI(p, 64);
    }
  }
  f->execs++;
  s->st.push_back(std::move(fr));
}
void Exec::popFrame() {
  for (uint64_t id : s->st.back().allocas) freeObj(id);
  s->st.pop_back();
}
void Exec::finishCall(Val v) {
  Frame& f = s->st.back();
  CI& c = f.f->bb[f.bb].ins[f.ip];
  if (c.dst >= 0) f.r[c.dst] = v;
  if (c.op == Instruction::Invoke) jump(c.succ[0]);
  else f.ip++;
}
void Exec::doReturn(Val v) {
  popFrame();
  if (s->st.empty()) return;
  finishCall(v);
}
std::string Exec::tiName(uint64_t ti) {
  uint64_t id = ti >> IDSHIFT;
  auto it = lazyG.find(id);
  if (it == lazyG.end()) return "?";
  return it->second->getName().str();
}
std::vector<std::pair<uint64_t, int64_t>> Exec::bases(uint64_t ti) {
  std::vector<std::pair<uint64_t, int64_t>> r;
  std::string n = tiName(ti);
  auto it = lazyG.find(ti >> IDSHIFT);
  if (it == lazyG.end()) return r;
  const GlobalVariable* g = it->second;
  if (g->hasInitializer()) {
    auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs) return r;
    unsigned nop = cs->getNumOperands();
    if (nop == 3) r.push_back({constant(cs->getOperand(2)).u, 0});
    else if (nop > 3)
      for (unsigned i = 4; i + 1 < nop; i += 2) {
        int64_t fl = (int64_t)constant(cs->getOperand(i + 1)).u;
        r.push_back({constant(cs->getOperand(i)).u, fl >> 8});
      }
    return r;
  }
  static const std::map<std::string, std::string> tab = {
      {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
      {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
      {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
      {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
      {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
      {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
      {"_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error"}};
  auto t = tab.find(n);
  if (t != tab.end())
    if (auto* bg = M->getGlobalVariable(t->second, true)) r.push_back({globalAddr(bg), 0});
    else {
      // base not present in the module: climb through the table by name
      std::string b = t->second;
      auto t2 = tab.find(b);
      while (t2 != tab.end()) {
        if (auto* bg2 = M->getGlobalVariable(t2->second, true)) { r.push_back({globalAddr(bg2), 0}); break; }
        t2 = tab.find(t2->second);
      }
    }
  return r;
}
bool Exec::typeMatch(uint64_t thrown, uint64_t want, int64_t* off) {
  if (thrown == want) { if (off) *off = 0; return true; }
  if (tiName(thrown) == tiName(want) && tiName(want) != "?") { if (off) *off = 0; return true; }
  for (auto& b : bases(thrown)) {
    int64_t o = 0;
    if (typeMatch(b.first, want, &o)) { if (off) *off = o + b.second; return true; }
  }
  return false;
}
int64_t Exec::typeId(uint64_t ti) {
  static std::map<uint64_t, int64_t> ids;
  auto it = ids.find(ti);
  if (it != ids.end()) return it->second;
  int64_t n = ids.size() + 1;
  return ids[ti] = n;
}
void Exec::unwind(uint64_t exc) {
  uint64_t ti = s->excTI[exc];
  while (!s->st.empty()) {
    Frame& f = s->st.back();
    CI& c = f.f->bb[f.bb].ins[f.ip];
    if (c.op == Instruction::Invoke) {
      unsigned t = c.succ[1];
      CBlk& b = f.f->bb[t];
      CI& lpc = b.ins[b.nphi];
      auto* lp = cast<LandingPadInst>(lpc.I);
      bool enter = lp->isCleanup();
      int64_t sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
          auto* cl = lp->getClause(i);
          uint64_t want = constant(cl).u;
          if (want == 0 || typeMatch(ti, want, nullptr)) {
            enter = true;
            sel = want == 0 ? typeId(0) : typeId(want);
            break;
          }
        } else {
          enter = true;  // filter: treat as violated exception specification
          sel = -1;
        }
      }
      if (enter) {
        jump(t);
        Frame& f2 = s->st.back();
        f2.r[lpc.dst] = mkAgg({mkI(exc, 64), mkI((uint64_t)sel, 32)});
        f2.ip = b.nphi + 1;
        return;
      }
    }
    popFrame();
  }
  throw Violation{"uncaught exception " + demangle(tiName(ti).substr(0, 4) == "_ZTI" ? "_ZTS" + tiName(ti).substr(4) : tiName(ti))};
}
bool Exec::call(CI& ci, std::vector<Val>& args, Val fnptr, Val& out) {
  const Function* F = ci.cf;
  if (!F) {
    uint64_t a = conc(fnptr, 64);
    if (a < 0x100 || (a - 0x100) / 16 >= fnTab.size() || (a & 15)) throw Violation{"memory: call through invalid function pointer"};
    F = fnTab[(a - 0x100) / 16];
  }
  int bi;
  CFunc* f = nullptr;
  if (ci.cf && ci.builtin != -1) bi = ci.builtin;
  else {
    auto it = builtinId.find(F->getName().str());
    bi = it == builtinId.end() ? -2 : it->second;
    if (ci.cf) ci.builtin = bi;
  }
  if (bi >= 0) return builtins[bi](ci, args, out);
  if (ci.callee) f = ci.callee;
  else {
    f = compile(F);
    if (ci.cf) ci.callee = f;
  }
  if (f->ready) {
    pushFrame(f, args);
    return false;
  }
  std::string nm = F->getName().str();
  if (F->isIntrinsic()) throw Unsupported{"intrinsic " + nm};
  unknownExt[nm]++;
  throw Unsupported{"external function " + nm + " (" + demangle(nm) + ")"};
}
void Exec::step() {
  Frame& f = s->st.back();
  CI& c = f.f->bb[f.bb].ins[f.ip];
  f.f->insts++;
  s->steps++;
  S.steps++;
  auto set = [&](Val v) { Frame& g = s->st.back(); g.r[c.dst] = v; g.ip++; };
  auto lift2 = [&](const Val& a, const Val& b, auto fn) -> Val {
    if (a.k == K_AGG) {
      std::vector<Val> r;
      for (size_t i = 0; i < a.agg->size(); i++) r.push_back(fn((*a.agg)[i], (*b.agg)[i]));
      return mkAgg(r);
    }
    return fn(a, b);
  };
  switch (c.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      unsigned w = c.ty.k == TypeI::VEC ? typeOf(cast<VectorType>(c.ty.t)->getElementType()).w : c.ty.w;
      Val a = eval(c.ops[0]), b = eval(c.ops[1]);
      set(lift2(a, b, [&](const Val& x, const Val& y) { return ibin(c.op, x, y, w); }));
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      unsigned w = c.ty.k == TypeI::VEC ? typeOf(cast<VectorType>(c.ty.t)->getElementType()).w : c.ty.w;
      Val a = eval(c.ops[0]), b = eval(c.ops[1]);
      set(lift2(a, b, [&](const Val& x, const Val& y) { return fbin(c.op, x, y, w); }));
      return;
    }
    case Instruction::FNeg: {
      Val a = eval(c.ops[0]);
      set(lift2(a, a, [&](const Val& x, const Val&) { return fneg(x); }));
      return;
    }
    case Instruction::ICmp: {
      unsigned w = c.ty.k == TypeI::VEC ? typeOf(cast<VectorType>(c.ty.t)->getElementType()).w : c.ty.w;
      Val a = eval(c.ops[0]), b = eval(c.ops[1]);
      set(lift2(a, b, [&](const Val& x, const Val& y) { return icmp(c.cst, x, y, w); }));
      return;
    }
    case Instruction::FCmp: {
      Val a = eval(c.ops[0]), b = eval(c.ops[1]);
      set(lift2(a, b, [&](const Val& x, const Val& y) { return fcmp(c.cst, x, y); }));
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt:
    case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
      set(castv(c.op, eval(c.ops[0]), typeOf(c.I->getOperand(0)->getType()), c.ty));
      return;
    case Instruction::Select: set(selectv(eval(c.ops[0]), eval(c.ops[1]), eval(c.ops[2]), c.ty)); return;
    case Instruction::Freeze: {
      Val a = eval(c.ops[0]);
      if (a.k == K_UNDEF) a = c.ty.k == TypeI::FP ? mkF(0, c.ty.w) : mkI(0, c.ty.w);
      set(a);
      return;
    }
    case Instruction::GetElementPtr: {
      Val b = eval(c.ops[0]);
      uint64_t off = c.cst;
      bool symb = b.k != K_INT;
      Z3_ast e = nullptr;
      if (b.k == K_UNDEF) { set(b); return; }
      for (auto& g : c.gep) {
        Val i = eval(c.ops[g.first]);
        unsigned iw = typeOf(cast<GetElementPtrInst>(c.I)->getOperand(0)->getType()).w;
        (void)iw;
        if (i.k == K_INT) off += (uint64_t)(sext(i.u, i.w) * g.second);
        else {
          if (i.k == K_UNDEF) { set(i); return; }
          Z3_ast x = bv(i, i.w);
          if (i.w < 64) x = Z3_mk_sign_ext(C, 64 - i.w, x);
          Z3_ast t = g.second == 1 ? x : Z3_mk_bvmul(C, x, bvc((uint64_t)g.second, 64));
          e = e ? Z3_mk_bvadd(C, e, t) : t;
        }
      }
      if (!symb && !e) { set(mkI(b.u + off, 64)); return; }
      Z3_ast r = symb ? bv(b, 64) : bvc(b.u, 64);
      if (off) r = Z3_mk_bvadd(C, r, bvc(off, 64));
      if (e) r = Z3_mk_bvadd(C, r, e);
      set(fromBV(simp(r), 64));
      return;
    }
    case Instruction::Load: set(load(eval(c.ops[0]), c.ty)); return;
    case Instruction::Store: store(eval(c.ops[1]), eval(c.ops[0]), c.ty); s->st.back().ip++; return;
    case Instruction::Alloca: {
      uint64_t n = conc(eval(c.ops[0]), 64);
      uint64_t a = alloc(c.cst * n, false, true, "stack");
      s->st.back().allocas.push_back(a >> IDSHIFT);
      set(mkI(a, 64));
      return;
    }
    case Instruction::Br:
      if (c.ops.empty()) jump(c.succ[0]);
      else {
        Val v = eval(c.ops[0]);
        if (v.k == K_INT) jump(v.u & 1 ? c.succ[0] : c.succ[1]);
        else jump(decide(boolAst(v)) ? c.succ[0] : c.succ[1]);
      }
      return;
    case Instruction::Switch: {
      Val v = eval(c.ops[0]);
      if (v.k == K_INT) {
        for (unsigned i = 1; i < c.ops.size(); i++)
          if (c.ops[i].c.u == v.u) { jump(c.succ[i]); return; }
        jump(c.succ[0]);
        return;
      }
      unsigned w = c.ty.w;
      // group cases by target to limit forking
      std::map<int, Z3_ast> byT;
      std::vector<int> order;
      Z3_ast x = bv(v, w);
      for (unsigned i = 1; i < c.ops.size(); i++) {
        Z3_ast e = mkEq(x, bvc(c.ops[i].c.u, w));
        if (!byT.count(c.succ[i])) { byT[c.succ[i]] = e; order.push_back(c.succ[i]); }
        else byT[c.succ[i]] = mkOr(byT[c.succ[i]], e);
      }
      for (int t : order) {
        if (t == c.succ[0]) continue;
        if (decide(byT[t])) { jump(t); return; }
      }
      jump(c.succ[0]);
      return;
    }
    case Instruction::Ret: doReturn(c.ops.empty() ? Val() : eval(c.ops[0])); return;
    case Instruction::Unreachable: throw Violation{"reached unreachable code"};
    case Instruction::Resume: {
      Val v = eval(c.ops[0]);
      uint64_t e = (*v.agg)[0].u;
      popFrame();
      if (s->st.empty()) throw Violation{"uncaught exception"};
      unwind(e);
      return;
    }
    case Instruction::ExtractValue: {
      Val v = eval(c.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(c.I)->getIndices()) {
        if (v.k == K_UNDEF) break;
        Val t = (*v.agg)[i];
        v = t;
      }
      set(v);
      return;
    }
    case Instruction::InsertValue: {
      Val v = eval(c.ops[0]), e = eval(c.ops[1]);
      auto idx = cast<InsertValueInst>(c.I)->getIndices();
      if (v.k == K_UNDEF) v = constant(UndefValue::get(c.ty.t));
      std::function<Val(Val, unsigned)> ins = [&](Val x, unsigned d) -> Val {
        if (d == idx.size()) return e;
        std::vector<Val> cp = *x.agg;
        cp[idx[d]] = ins(cp[idx[d]], d + 1);
        return mkAgg(cp);
      };
      set(ins(v, 0));
      return;
    }
    case Instruction::ExtractElement: {
      Val v = eval(c.ops[0]);
      uint64_t i = conc(eval(c.ops[1]), 64);
      set(v.k == K_UNDEF ? v : (*v.agg)[i]);
      return;
    }
    case Instruction::InsertElement: {
      Val v = eval(c.ops[0]);
      if (v.k == K_UNDEF) v = constant(UndefValue::get(c.ty.t));
      std::vector<Val> cp = *v.agg;
      cp[conc(eval(c.ops[2]), 64)] = eval(c.ops[1]);
      set(mkAgg(cp));
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(c.I);
      Val a = eval(c.ops[0]), b = eval(c.ops[1]);
      unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
      std::vector<Val> r;
      for (int m : sv->getShuffleMask()) {
        if (m < 0) r.push_back(Val());
        else if ((unsigned)m < n) r.push_back(a.k == K_UNDEF ? Val() : (*a.agg)[m]);
        else r.push_back(b.k == K_UNDEF ? Val() : (*b.agg)[m - n]);
      }
      set(mkAgg(r));
      return;
    }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(c.I);
      Val p = eval(c.ops[0]), v = eval(c.ops[1]);
      Val o = load(p, c.ty), nv;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Add: nv = ibin(Instruction::Add, o, v, c.ty.w); break;
        case AtomicRMWInst::Sub: nv = ibin(Instruction::Sub, o, v, c.ty.w); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        default: throw Unsupported{"atomicrmw"};
      }
      store(p, nv, c.ty);
      set(o);
      return;
    }
    case Instruction::Fence: s->st.back().ip++; return;
    case Instruction::Call: case Instruction::Invoke: {
      if (!c.cf && cast<CallBase>(c.I)->isInlineAsm()) {
        if (c.dst >= 0) throw Unsupported{"inline asm"};
        finishCall(Val());
        return;
      }
      std::vector<Val> args;
      unsigned n = c.ops.size() - (c.cf ? 0 : 1);
      for (unsigned i = 0; i < n; i++) args.push_back(eval(c.ops[i]));
      Val fp;
      if (!c.cf) fp = eval(c.ops.back());
      Val out;
      if (call(c, args, fp, out)) finishCall(out);
      return;
    }
    default: throw Unsupported{std::string("instruction ") + c.I->getOpcodeName()};
  }
}
void Exec::endPath(const std::string& why) {
  S.paths++;
  if (why == "infeasible" || why == "assume") S.killed++;
  else if (samples.size() < 4 && opt.concreteFile.empty() && why == "return" && s->model) {
    samples.push_back({why, modelOf(*s->model)});
  }
  if (!why.empty() && opt.progress) fprintf(stderr, "path %llu: %s (steps %llu, work %zu)\n", (unsigned long long)S.paths, why.c_str(), (unsigned long long)s->steps, work.size());
}
void Exec::runState() {
  try {
    while (!s->st.empty()) {
      if (s->steps > opt.maxSteps) throw Unsupported{"step bound exceeded in " + where()};
      if ((S.steps & 0xfff) == 0 && elapsed() > opt.timeLimit) { stop = true; throw Unsupported{"time limit"}; }
      step();
    }
    endPath("return");
  } catch (PathEnd& p) {
    endPath(p.why);
  } catch (Unsupported& u) {
    std::string m = u.why + " @ " + where();
    if (s->maybeInfeasible) {
      Model mm;
      std::vector<Z3_ast> cs = s->pc;
      if (query({}, cs, &mm, nullptr, aBudget(), true) == Res::Unsat) { endPath("infeasible"); return; }
    }
    inconclusive.push_back(m);
    endPath("unsupported: " + m);
  } catch (Violation& v) {
    std::string w = where();
    if (s->st.empty()) w = "";
    size_t before = viols.size();
    violation(v.msg + (w.empty() ? "" : " in " + demangle(s->st.back().f->name)), nullptr);
    (void)before;
    endPath("violation " + v.msg);
  }
}
void Exec::explore(std::unique_ptr<State> init) {
  work.push_back(std::move(init));
  while (!work.empty()) {
    if (stop || elapsed() > opt.timeLimit) { inconclusive.push_back("time limit with " + std::to_string(work.size()) + " open paths"); break; }
    if (S.paths >= opt.maxPaths) { inconclusive.push_back("path bound exceeded"); break; }
    if (inconclusive.size() > 40) break;
    if (viols.size() >= 6) break;
    auto st = std::move(work.back());
    work.pop_back();
    s = st.get();
    runState();
  }
}
std::unique_ptr<State> Exec::runCtors() {
  auto st = std::make_unique<State>();
  st->nextObj = 65536 * 4;
  st->model = std::make_shared<Model>();
  s = st.get();
  auto* gc = M->getGlobalVariable("llvm.global_ctors");
  if (gc && gc->hasInitializer()) {
    std::vector<std::pair<uint64_t, const Function*>> v;
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& e : ca->operands()) {
        auto* cs = cast<ConstantStruct>(e.get());
        auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
        if (fn) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
      }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) {
      std::vector<Val> none;
      try {
        pushFrame(compile(p.second), none);
        while (!s->st.empty()) step();
      } catch (Unsupported& u) {
        fprintf(stderr, "[symx] warning: global constructor %s: %s @ %s\n", p.second->getName().str().c_str(), u.why.c_str(), where().c_str());
        while (!s->st.empty()) popFrame();
      } catch (Violation& u) {
        fprintf(stderr, "[symx] warning: global constructor %s: %s @ %s\n", p.second->getName().str().c_str(), u.msg.c_str(), where().c_str());
        while (!s->st.empty()) popFrame();
      }
    }
  }
  s->steps = 0;
  return st;
}
