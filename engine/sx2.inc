// ---------------------------------------------------------------- decode
static int binSub(unsigned o) { switch (o) { case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL; case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM; case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR; case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR; default: return -1; } }
static void icmpSub(CmpInst::Predicate p, I& in, int x, int y) {
  in.imm = 0;
  switch (p) { case CmpInst::ICMP_EQ: in.sub = EQ; break; case CmpInst::ICMP_NE: in.sub = EQ; in.imm = 1; break;
    case CmpInst::ICMP_ULT: in.sub = ULT; break; case CmpInst::ICMP_ULE: in.sub = ULE; break; case CmpInst::ICMP_UGT: in.sub = ULT; std::swap(x, y); break; case CmpInst::ICMP_UGE: in.sub = ULE; std::swap(x, y); break;
    case CmpInst::ICMP_SLT: in.sub = SLT; break; case CmpInst::ICMP_SLE: in.sub = SLE; break; case CmpInst::ICMP_SGT: in.sub = SLT; std::swap(x, y); break; default: in.sub = SLE; std::swap(x, y); }
  in.a = x; in.b = y;
}
FnInfo* Engine::decode(Function* F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  FnInfo* fi = new FnInfo; fi->f = F; fns[F] = fi; fi->nounwind = F->doesNotThrow();
  std::unordered_map<const Value*, u32> slot; u32 ns = 0;
  for (auto& a : F->args()) { slot[&a] = ns; ns += nleaves(a.getType()); }
  for (auto& bb : *F) for (auto& in : bb) if (!in.getType()->isVoidTy()) { slot[&in] = ns; ns += nleaves(in.getType()); }
  fi->nslots = ns;
  auto opnd = [&](const Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<Val> l; flatConst(c, l); int base = fi->consts.size(); for (auto& x : l) fi->consts.push_back(x); if (l.empty()) fi->consts.push_back(Val(0)); return ~base;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { fi->consts.push_back(Val(0)); return ~(int)(fi->consts.size() - 1); }
    return (int)slot.at(v);
  };
  // NB constants flattened consecutively: operand o, leaf i is getL(o,i) (for constants: ~o + i)
  auto leaf = [](int o, unsigned i) -> int { return o >= 0 ? o + (int)i : ~((~o) + (int)i); };
  std::unordered_map<const BasicBlock*, u32> bpc; std::vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> fix;
  auto edge = [&](Edge& e, const BasicBlock* from, const BasicBlock* to) { fix.push_back({&e, {from, to}}); };
  for (auto& bb : *F) {
    bpc[&bb] = fi->code.size();
    for (auto& ins : bb) {
      I in; in.op = I_NOP; in.src = &ins; in.dst = ins.getType()->isVoidTy() ? 0 : slot[&ins];
      auto unsup = [&](const char* why) { in.op = I_UNSUP; in.x = new Ext; std::string t; raw_string_ostream os(t); ins.print(os); in.x->msg = std::string("unsupported: ") + why + ": " + os.str(); };
      try {
      if (isa<PHINode>(ins)) continue;
      if (auto* vt = dyn_cast<FixedVectorType>(ins.getType())) { // lane by lane
        unsigned n = vt->getNumElements(); unsigned rw = bits(vt->getElementType()); bool done = true;
        auto lanes = [&](unsigned w, auto f) { for (unsigned i = 0; i < n; i++) { I q; q.op = I_NOP; q.src = &ins; q.dst = in.dst + i; q.w = w; f(q, i); fi->code.push_back(q); } };
        if (auto* b = dyn_cast<BinaryOperator>(&ins)) { int sub = binSub(b->getOpcode()), x = opnd(b->getOperand(0)), y = opnd(b->getOperand(1)); if (sub < 0 || !rw || rw > 64) done = false; else lanes(rw, [&](I& q, unsigned i) { q.op = I_BIN; q.sub = sub; q.a = leaf(x, i); q.b = leaf(y, i); }); }
        else if (auto* c = dyn_cast<ICmpInst>(&ins)) { unsigned ew = bits(cast<FixedVectorType>(c->getOperand(0)->getType())->getElementType()); int x = opnd(c->getOperand(0)), y = opnd(c->getOperand(1)); if (!ew || ew > 64) done = false; else lanes(ew, [&](I& q, unsigned i) { q.op = I_ICMP; icmpSub(c->getPredicate(), q, leaf(x, i), leaf(y, i)); }); }
        else if (auto* c = dyn_cast<CastInst>(&ins)) { auto* sv = dyn_cast<FixedVectorType>(c->getSrcTy()); unsigned ew = sv ? bits(sv->getElementType()) : 0; int x = opnd(c->getOperand(0)); auto o = c->getOpcode(); bool okc = o == Instruction::Trunc || o == Instruction::ZExt || o == Instruction::SExt || o == Instruction::PtrToInt || o == Instruction::IntToPtr || (o == Instruction::BitCast && ew == rw); if (!ew || ew > 64 || rw > 64 || !okc || sv->getNumElements() != n) done = false; else lanes(ew, [&](I& q, unsigned i) { q.op = I_CAST; q.sub = o; q.w2 = rw; q.a = leaf(x, i); }); }
        else if (auto* c = dyn_cast<SelectInst>(&ins)) { bool vc = c->getCondition()->getType()->isVectorTy(); int k = opnd(c->getCondition()), x = opnd(c->getTrueValue()), y = opnd(c->getFalseValue()); lanes(rw, [&](I& q, unsigned i) { q.op = I_SELECT; q.a = vc ? leaf(k, i) : k; q.b = leaf(x, i); q.c = leaf(y, i); q.x = new Ext; q.x->leaves.push_back({0, rw}); }); }
        else done = false;
        if (done) continue;
      }
      if (auto* b = dyn_cast<BinaryOperator>(&ins)) {
        Type* t = b->getType();
        if (t->isFloatTy() || t->isDoubleTy()) { in.op = I_FBIN; in.sub = b->getOpcode(); in.w = bits(t); in.a = opnd(b->getOperand(0)); in.b = opnd(b->getOperand(1)); }
        else if (!t->isIntegerTy() || bits(t) > 64) unsup("binary type");
        else { in.op = I_BIN; in.w = bits(t); in.a = opnd(b->getOperand(0)); in.b = opnd(b->getOperand(1));
          int bs = binSub(b->getOpcode()); if (bs < 0) unsup("binop"); else in.sub = bs; }
      } else if (auto* u = dyn_cast<UnaryOperator>(&ins)) { (void)u; unsup("unary");
      } else if (auto* c = dyn_cast<ICmpInst>(&ins)) {
        Type* t = c->getOperand(0)->getType();
        if (bits(t) == 0 || bits(t) > 64) unsup("icmp type");
        else { in.op = I_ICMP; in.w = bits(t); int x = opnd(c->getOperand(0)), y = opnd(c->getOperand(1));
          icmpSub(c->getPredicate(), in, x, y); }
      } else if (auto* c = dyn_cast<FCmpInst>(&ins)) { in.op = I_FCMP; in.w = bits(c->getOperand(0)->getType()); in.sub = c->getPredicate(); in.a = opnd(c->getOperand(0)); in.b = opnd(c->getOperand(1)); if (!in.w) unsup("fcmp");
      } else if (auto* c = dyn_cast<CastInst>(&ins)) {
        Type *from = c->getSrcTy(), *to = c->getDestTy(); in.a = opnd(c->getOperand(0)); in.w = bits(from); in.w2 = bits(to); in.sub = c->getOpcode();
        if (!in.w || !in.w2 || in.w > 64 || in.w2 > 64) unsup("cast type");
        else switch (c->getOpcode()) { case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: in.op = I_CAST; break;
          case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: in.op = I_FCAST; break; default: unsup("cast"); }
      } else if (auto* f = dyn_cast<FreezeInst>(&ins)) {
        in.op = I_INSEXT; in.x = new Ext; int o = opnd(f->getOperand(0)); for (unsigned i = 0; i < nleaves(f->getType()); i++) in.x->moves.push_back({in.dst + i, leaf(o, i)});
      } else if (auto* c = dyn_cast<SelectInst>(&ins)) {
        if (c->getCondition()->getType()->isVectorTy()) unsup("vector select");
        else { in.op = I_SELECT; in.a = opnd(c->getCondition()); in.b = opnd(c->getTrueValue()); in.c = opnd(c->getFalseValue()); in.x = new Ext; flatten(c->getType(), 0, in.x->leaves); }
      } else if (auto* l = dyn_cast<LoadInst>(&ins)) {
        in.op = I_LOAD; in.a = opnd(l->getPointerOperand()); in.x = new Ext; if (!flatten(l->getType(), 0, in.x->leaves)) unsup("load type");
        if (in.op == I_LOAD && in.x->leaves.size() == 1) { in.w = in.x->leaves[0].w; in.w2 = (in.w + 7) / 8; }
      } else if (auto* st = dyn_cast<StoreInst>(&ins)) {
        in.op = I_STORE; in.a = opnd(st->getPointerOperand()); in.b = opnd(st->getValueOperand()); in.x = new Ext; if (!flatten(st->getValueOperand()->getType(), 0, in.x->leaves)) unsup("store type");
        if (isa<UndefValue>(st->getValueOperand())) in.op = I_NOP;
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&ins)) {
        in.op = I_GEP; in.a = opnd(g->getPointerOperand()); in.imm = 0; if (g->getType()->isVectorTy()) unsup("vector gep");
        for (gep_type_iterator ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
          Value* idx = ti.getOperand();
          if (StructType* sty = ti.getStructTypeOrNull()) in.imm += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          else { int64_t sz = DL->getTypeAllocSize(ti.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx)) in.imm += ci->getSExtValue() * sz;
            else { if (!in.x) in.x = new Ext; in.x->terms.push_back({opnd(idx), sz}); in.x->termw.push_back(bits(idx->getType())); } }
        }
      } else if (auto* al = dyn_cast<AllocaInst>(&ins)) {
        in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(al->getAllocatedType()); in.w = 0; in.a = opnd(al->getArraySize()); in.w2 = std::min<u64>(al->getAlign().value(), 128);
      } else if (auto* b = dyn_cast<BranchInst>(&ins)) {
        in.x = new Ext; if (b->isConditional()) { in.op = I_CBR; in.a = opnd(b->getCondition()); edge(in.x->e1, &bb, b->getSuccessor(0)); edge(in.x->e2, &bb, b->getSuccessor(1)); } else { in.op = I_BR; edge(in.x->e1, &bb, b->getSuccessor(0)); }
      } else if (auto* sw = dyn_cast<SwitchInst>(&ins)) {
        in.op = I_SWITCH; in.x = new Ext; in.a = opnd(sw->getCondition()); in.w = bits(sw->getCondition()->getType()); edge(in.x->e1, &bb, sw->getDefaultDest());
        in.x->cases.resize(sw->getNumCases()); unsigned k = 0; for (auto& cs : sw->cases()) { in.x->cases[k].first = cs.getCaseValue()->getZExtValue(); edge(in.x->cases[k].second, &bb, cs.getCaseSuccessor()); k++; }
      } else if (isa<ReturnInst>(ins)) { in.op = I_RET; auto* r = cast<ReturnInst>(&ins); if (r->getReturnValue()) { in.a = opnd(r->getReturnValue()); in.w = 1; } else in.w = 0;
      } else if (isa<UnreachableInst>(ins)) in.op = I_UNREACH;
      else if (auto* lp = dyn_cast<LandingPadInst>(&ins)) { in.op = I_LPAD; (void)lp; }
      else if (auto* r = dyn_cast<ResumeInst>(&ins)) { in.op = I_RESUME; in.a = opnd(r->getValue()); }
      else if (auto* e = dyn_cast<ExtractValueInst>(&ins)) {
        in.op = I_INSEXT; in.x = new Ext; int o = opnd(e->getAggregateOperand()); u64 li = leafIndex(e->getAggregateOperand()->getType(), e->getIndices());
        for (unsigned i = 0; i < nleaves(e->getType()); i++) in.x->moves.push_back({in.dst + i, leaf(o, li + i)});
      } else if (auto* e = dyn_cast<InsertValueInst>(&ins)) {
        in.op = I_INSEXT; in.x = new Ext; int o = opnd(e->getAggregateOperand()), v = opnd(e->getInsertedValueOperand()); u64 li = leafIndex(e->getType(), e->getIndices()); unsigned vn = nleaves(e->getInsertedValueOperand()->getType());
        for (unsigned i = 0; i < nleaves(e->getType()); i++) in.x->moves.push_back({in.dst + i, i >= li && i < li + vn ? leaf(v, i - li) : leaf(o, i)});
      } else if (auto* e = dyn_cast<ExtractElementInst>(&ins)) {
        if (auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand())) { in.op = I_INSEXT; in.x = new Ext; in.x->moves.push_back({in.dst, leaf(opnd(e->getVectorOperand()), ci->getZExtValue())}); } else unsup("extractelement");
      } else if (auto* e = dyn_cast<InsertElementInst>(&ins)) {
        if (auto* ci = dyn_cast<ConstantInt>(e->getOperand(2))) { in.op = I_INSEXT; in.x = new Ext; int o = opnd(e->getOperand(0)), v = opnd(e->getOperand(1)); for (unsigned i = 0; i < nleaves(e->getType()); i++) in.x->moves.push_back({in.dst + i, i == ci->getZExtValue() ? v : leaf(o, i)}); } else unsup("insertelement");
      } else if (auto* e = dyn_cast<ShuffleVectorInst>(&ins)) {
        in.op = I_INSEXT; in.x = new Ext; int o = opnd(e->getOperand(0)), v = opnd(e->getOperand(1)); unsigned n1 = nleaves(e->getOperand(0)->getType()); auto mask = e->getShuffleMask();
        for (unsigned i = 0; i < mask.size(); i++) in.x->moves.push_back({in.dst + i, mask[i] < 0 ? o : mask[i] < (int)n1 ? leaf(o, mask[i]) : leaf(v, mask[i] - n1)});
      } else if (auto* rm = dyn_cast<AtomicRMWInst>(&ins)) { in.op = I_RMW; in.a = opnd(rm->getPointerOperand()); in.b = opnd(rm->getValOperand()); in.w = bits(rm->getType()); in.sub = rm->getOperation();
      } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&ins)) { in.op = I_XCHG; in.a = opnd(cx->getPointerOperand()); in.b = opnd(cx->getCompareOperand()); in.c = opnd(cx->getNewValOperand()); in.w = bits(cx->getCompareOperand()->getType());
      } else if (isa<FenceInst>(ins)) in.op = I_NOP;
      else if (auto* cb = dyn_cast<CallBase>(&ins)) {
        Function* callee = cb->getCalledFunction();
        if (callee && callee->isIntrinsic()) {
          switch (callee->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch:
              if (!isa<InvokeInst>(ins)) { if (ins.getType()->isVoidTy()) continue; in.op = I_NOP; fi->code.push_back(in); continue; } break; default: break; }
        }
        if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() && ins.getType()->isVoidTy()) in.op = I_NOP; else unsup("inline asm"); }
        else {
          in.op = I_CALL; in.x = new Ext; CallX& c = in.x->call;
          if (!callee) if (auto* cs = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) callee = cs;
          if (!callee) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) callee = dyn_cast<Function>(ga->getAliaseeObject());
          c.callee = callee; if (!callee) c.fn = opnd(cb->getCalledOperand());
          for (unsigned i = 0; i < cb->arg_size(); i++) {
            Value* a = cb->getArgOperand(i); unsigned n = a->getType()->isMetadataTy() ? 1 : nleaves(a->getType());
            if (cb->isByValArgument(i)) c.byval.push_back({(unsigned)c.args.size(), (u64)DL->getTypeAllocSize(cb->getParamByValType(i))});
            int o = opnd(a); std::vector<Leaf> lv; if (!a->getType()->isMetadataTy()) flatten(a->getType(), 0, lv);
            for (unsigned k = 0; k < n; k++) { c.args.push_back(leaf(o, k)); c.argw.push_back(k < lv.size() ? lv[k].w : 0); }
          }
          c.dst = in.dst; c.isvoid = ins.getType()->isVoidTy(); c.nret = nleaves(ins.getType()); c.retw = bits(ins.getType());
          if (auto* iv = dyn_cast<InvokeInst>(&ins)) { c.invoke = true; c.lp = iv->getLandingPadInst(); edge(c.normal, &bb, iv->getNormalDest()); edge(c.unwind, &bb, iv->getUnwindDest()); }
        }
      } else unsup("instruction");
      } catch (EngineError& e) { in.op = I_UNSUP; in.x = new Ext; in.x->msg = e.msg; }
      fi->code.push_back(in);
    }
  }
  for (auto& f : fix) {
    Edge* e = f.first; e->pc = bpc.at(f.second.second);
    for (auto& ph : f.second.second->phis()) {
      Value* v = ph.getIncomingValueForBlock(f.second.first); if (isa<UndefValue>(v) && !v->getType()->isAggregateType()) { e->moves.push_back({slot[&ph], opnd(v)}); continue; }
      int o = opnd(v); for (unsigned i = 0; i < nleaves(ph.getType()); i++) e->moves.push_back({slot[&ph] + i, leaf(o, i)});
    }
  }
  fi->entry = bpc[&F->getEntryBlock()];
  return fi;
}

// ---------------------------------------------------------------- exceptions
static const char* stdBases[][2] = {
  {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
  {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt9exception", nullptr}, {nullptr, nullptr}};
bool Engine::tiMatch(State& s, u64 t, u64 c) {
  if (!c || t == c) return true;
  auto n = externName.find(t);
  if (n != externName.end()) {
    for (auto* b = stdBases; (*b)[0]; b++) if (n->second == (*b)[0]) return (*b)[1] && tiMatch(s, externs.at((*b)[1]), c);
    return false;
  }
  Val vt = loadBytes(s, t, 8, 64); auto k = externName.find(vt.c - 16); if (k == externName.end()) return false;
  if (k->second.find("20__si_class_type_info") != std::string::npos) return tiMatch(s, loadBytes(s, t + 16, 8, 64).c, c);
  if (k->second.find("21__vmi_class_type_info") != std::string::npos) { u64 cnt = loadBytes(s, t + 20, 4, 32).c; for (u64 i = 0; i < cnt; i++) if (tiMatch(s, loadBytes(s, t + 24 + 16 * i, 8, 64).c, c)) return true; }
  return false;
}
int Engine::clauseSelect(State& s, const LandingPadInst* lp, u64 ti, bool& handler) { // -1: do not stop here
  handler = false;
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) { u64 c = evalConst(lp->getClause(i)); if (tiMatch(s, ti, c)) { handler = true; return tyid(c); } }
    else { auto* ar = dyn_cast<ArrayType>(lp->getClause(i)->getType()); bool ok = false; for (unsigned k = 0; ar && k < ar->getNumElements(); k++) if (tiMatch(s, ti, evalConst(lp->getClause(i)->getAggregateElement(k)))) ok = true; if (!ok) { handler = true; return -2 - (int)i; } }
  }
  return lp->isCleanup() ? 0 : -1;
}
void Engine::unwind(State& s, u64 exc, bool fromResume) {
  u64 ti = 0; for (auto& e : s.exc) if (e.addr == exc) ti = e.ti;
  if (!fromResume) {
    bool found = false;
    for (size_t i = s.fr.size(); i-- > 0;) {
      const I& in = s.fr[i].f->code[s.fr[i].pc];
      if (in.op == I_CALL && in.x->call.invoke) { bool h; clauseSelect(s, in.x->call.lp, ti, h); if (h) { found = true; break; } }
      if (s.fr[i].f->nounwind) throw Vio{"terminate", "exception escapes a function that must not throw"};
    }
    if (!found) throw Vio{"terminate", "uncaught exception"};
  }
  for (;;) {
    if (s.fr.empty()) throw Vio{"terminate", "uncaught exception"};
    Frame& f = s.fr.back(); const I& in = f.f->code[f.pc];
    if (in.op == I_CALL && in.x->call.invoke) {
      bool h; int sel = clauseSelect(s, in.x->call.lp, ti, h);
      if (sel != -1) { s.lpExc = exc; s.lpSel = sel; takeEdge(f, in.x->call.unwind); return; }
    }
    if (f.f->nounwind) throw Vio{"terminate", "exception escapes a function that must not throw"};
    popStack(s, f.stackMark); s.fr.pop_back();
  }
}

// ---------------------------------------------------------------- builtins
typedef std::vector<Val> Args;
#define BI(name) static bool name(Engine& E, State& s, const CallX& c, Args& a)
#define CC(i) E.concretize(s, a[i], c.argw[i])
BI(bNop) { return true; }
BI(bRet0) { E.setRet(s, c, Val(0)); return true; }
BI(bTerminate) { throw Vio{"terminate", "std::terminate / abort"}; }
static bool doNew(Engine& E, State& s, const CallX& c, u64 n, u64 al, bool nothrow) {
  if (n > (1ull << 32)) { if (nothrow) { E.setRet(s, c, Val(0)); return true; } E.throwStd(s, "_ZTISt9bad_alloc"); return false; }
  E.setRet(s, c, Val(E.allocHeap(s, n, al))); return true;
}
BI(bNew) { return doNew(E, s, c, CC(0), 16, false); }
BI(bNewA) { u64 n = CC(0), al = CC(1); return doNew(E, s, c, n, al, false); }
BI(bNewNT) { return doNew(E, s, c, CC(0), 16, true); }
BI(bDel) { u64 p = CC(0); E.freeHeap(s, p, -1, 16); return true; }
BI(bDelS) { u64 p = CC(0), n = CC(1); E.freeHeap(s, p, n, 16); return true; }
BI(bDelA) { u64 p = CC(0), al = CC(1); E.freeHeap(s, p, -1, al); return true; }
BI(bDelSA) { u64 p = CC(0), n = CC(1), al = CC(2); E.freeHeap(s, p, n, al); return true; }
BI(bMemcpy) { u64 d = CC(0), q = CC(1), n = CC(2); E.copyMem(s, d, q, n); E.setRet(s, c, Val(d)); return true; }
BI(bMemset) { u64 d = CC(0), n = CC(2); Val v = a[1]; if (c.argw[1] > 8) v = E.X.extract(v, c.argw[1], 0, 8);
  if (n) { Obj* o = E.findW(s, d, n); u64 off = d - o->base; if (!v.s) { memset(&o->data[off], (int)v.c, n); memset(&o->st[off], 0, n); } else for (u64 i = 0; i < n; i++) E.storeBytes(s, d + i, 1, v, 8); }
  E.setRet(s, c, Val(d)); return true; }
BI(bMemcmp) { u64 p = CC(0), q = CC(1), n = CC(2); Val r(0);
  for (u64 i = n; i-- > 0;) { Val x = E.loadBytes(s, p + i, 1, 8), y = E.loadBytes(s, q + i, 1, 8); r = E.X.ite(E.X.bin(EQ, 8, x, y), 32, r, E.X.ite(E.X.bin(ULT, 8, x, y), 32, Val(0xffffffffu), Val(1))); }
  E.setRet(s, c, r); return true; }
BI(bStrlen) { u64 p = CC(0); E.setRet(s, c, Val(E.readStr(s, p).size())); return true; }
BI(bStrcmp) { u64 p = CC(0), q = CC(1); int r = E.readStr(s, p).compare(E.readStr(s, q)); E.setRet(s, c, Val((u32)(r < 0 ? -1 : r > 0))); return true; }
BI(bLengthError) { E.throwStd(s, "_ZTISt12length_error"); return false; }
BI(bLogicError) { E.throwStd(s, "_ZTISt11logic_error"); return false; }
BI(bOutOfRange) { E.throwStd(s, "_ZTISt12out_of_range"); return false; }
BI(bBadAlloc) { E.throwStd(s, "_ZTISt9bad_alloc"); return false; }
BI(bBadArray) { E.throwStd(s, "_ZTISt20bad_array_new_length"); return false; }
BI(bBadFn) { E.throwStd(s, "_ZTISt17bad_function_call"); return false; }
BI(bBadCast) { E.throwStd(s, "_ZTISt8bad_cast"); return false; }
BI(bCxaAlloc) { u64 n = CC(0); E.setRet(s, c, Val(E.allocHeap(s, n, 16, K_EXC))); return true; }
BI(bCxaThrow) { u64 e = CC(0), ti = CC(1), d = CC(2); E.throwExc(s, e, ti, d); return false; }
BI(bBeginCatch) { u64 e = CC(0); s.caught.push_back({e, false}); E.setRet(s, c, Val(e)); return true; }
BI(bGetExc) { E.setRet(s, c, Val(CC(0))); return true; }
BI(bEndCatch) {
  if (s.caught.empty()) throw EngineError{"end_catch without begin_catch"};
  Caught k = s.caught.back(); s.caught.pop_back(); if (k.rethrown) return true;
  for (auto& o : s.caught) if (o.addr == k.addr) return true;
  u64 d = 0; for (auto& e : s.exc) if (e.addr == k.addr) d = e.dtor;
  if (d) { Function* f = E.faddr.count(d) ? E.faddr[d] : nullptr; if (f && !f->isDeclaration()) { Args ar{Val(k.addr)}; E.pushFrame(s, E.decode(f), ar); return false; } }
  return true;
}
BI(bRethrow) { if (s.caught.empty()) throw Vio{"terminate", "rethrow without an active exception"}; s.caught.back().rethrown = true; u64 e = s.caught.back().addr; E.unwind(s, e, false); return false; }
BI(bTypeidFor) { E.setRet(s, c, Val((u32)E.tyid(CC(0)))); return true; }
BI(bGuardAcq) { u64 p = CC(0); Val v = E.loadBytes(s, p, 1, 8); E.setRet(s, c, Val(v.c ? 0 : 1)); return true; }
BI(bGuardRel) { u64 p = CC(0); E.storeBytes(s, p, 1, Val(1), 8); return true; }
BI(bHashBytes) { u64 p = CC(0), n = CC(1), seed = CC(2); std::string b; for (u64 i = 0; i < n; i++) { Val v = E.loadBytes(s, p + i, 1, 8); if (v.s) throw EngineError{"hash of symbolic bytes"}; b.push_back((char)v.c); } E.setRet(s, c, Val(std::_Hash_bytes(b.data(), n, seed))); return true; }
static void polLoad(Engine& E, State& s, u64 p, std::__detail::_Prime_rehash_policy& r) { u32 f = E.loadBytes(s, p, 4, 32).c; memcpy(&r._M_max_load_factor, &f, 4); r._M_next_resize = E.loadBytes(s, p + 8, 8, 64).c; }
BI(bNextBkt) { u64 p = CC(0), n = CC(1); std::__detail::_Prime_rehash_policy r; polLoad(E, s, p, r); u64 v = r._M_next_bkt(n); E.storeBytes(s, p + 8, 8, Val(r._M_next_resize), 64); E.setRet(s, c, Val(v)); return true; }
BI(bNeedRehash) { u64 p = CC(0), x = CC(1), y = CC(2), z = CC(3); std::__detail::_Prime_rehash_policy r; polLoad(E, s, p, r); auto v = r._M_need_rehash(x, y, z); E.storeBytes(s, p + 8, 8, Val(r._M_next_resize), 64); s.fr.back().regs[c.dst] = Val(v.first); s.fr.back().regs[c.dst + 1] = Val(v.second); return true; }
BI(bAssertFail) { u64 p = CC(0); throw Vio{"assert", "assert(" + E.readStr(s, p) + ")"}; }
// --- harness interface
static const Node* newInput(Engine& E, State& s, unsigned w, const std::string& nm) {
  u32 k = s.inputs.size(); const Node* v = E.X.getVar("in" + std::to_string(k) + "_" + std::to_string(w), w); s.inputs.push_back({nm, v}); return v; }
BI(bSym) { u64 w = CC(0), p = CC(1); Val v(newInput(E, s, w, E.readStr(s, p))); E.setRet(s, c, E.X.zext(v, w, 64)); return true; }
BI(bRange) { // symbolic value in [0,n)
  u64 n = CC(0), p = CC(1); if (!n) throw Kill{}; if (n == 1) { E.setRet(s, c, Val(0)); return true; }
  Val v(newInput(E, s, 8, E.readStr(s, p))); if (v.s->k < s.asg.size()) s.asg[v.s->k] = 0;
  if (n <= 64) { if (s.dom.size() <= v.s->k) s.dom.resize(v.s->k + 1); s.dom[v.s->k] = {n == 64 ? ~0ull : (1ull << n) - 1, false}; }
  E.assume(s, E.X.bin(ULT, 8, v, Val(n))); E.setRet(s, c, E.X.zext(v, 8, 64)); return true; }
BI(bChoose) { // symbolic value in [0,n), split into one state per value
  u64 n = CC(0), p = CC(1); if (!n) throw Kill{}; if (n == 1) { E.setRet(s, c, Val(0)); return true; } if (n > 255) throw EngineError{"choose too large"};
  Val v(newInput(E, s, 8, E.readStr(s, p))); 
  u32 dst = c.dst; // the result is set before the edge is taken: phis of an invoke's normal destination read it
  for (u64 i = n; i-- > 1;) { auto t = E.clone(s); E.assume(*t, E.X.bin(EQ, 8, v, Val(i))); if (t->asg.size() <= v.s->k) t->asg.resize(v.s->k + 1); t->asg[v.s->k] = i; t->fr.back().regs[dst] = Val(i); E.advanceCall(*t); E.work.push_front(std::move(t)); }
  E.assume(s, E.X.bin(EQ, 8, v, Val(0))); if (s.asg.size() <= v.s->k) s.asg.resize(v.s->k + 1); s.asg[v.s->k] = 0; s.fr.back().regs[dst] = Val(0); return true; }
BI(bAssume) { Val v = a[0]; if (c.argw[0] != 1) v = E.X.notb(E.X.bin(EQ, c.argw[0], v, Val(0)));
  if (!v.s) { if (!v.c) throw Kill{}; return true; }
  if (!E.X.eval(v, s.asg)) { std::vector<u64> m; if (!E.feasible(s, v, m)) throw Kill{}; s.asg = m; }
  E.assume(s, v); return true; }
BI(bAssert) { Val v = a[0]; if (c.argw[0] != 1) v = E.X.notb(E.X.bin(EQ, c.argw[0], v, Val(0))); EntryStats& es = E.ent[s.entry]; es.asserts++;
  if (!v.s) { if (v.c) return true; throw Vio{"assert", E.readStr(s, a[1].c)}; }
  if (E.known(s, v.s) == 1) return true;
  es.assertsSolver++; std::vector<u64> m;
  if (E.feasible(s, E.X.notb(v), m)) { std::string msg = E.readStr(s, CC(1)); E.report(s, "assert", msg, m); std::vector<u64> m2; if (!E.query(s, v, m2)) throw Kill{}; s.asg = m2; E.assume(s, v); }
  return true; }
BI(bObserve) { s.obs.push_back(a[0]); return true; }
BI(bReach) { std::string n = E.readStr(s, CC(0)); E.ent[s.entry].cover.insert(n); return true; }
BI(bLive) { E.setRet(s, c, Val(s.heapLive)); return true; }
BI(bProtect) { u64 on = CC(0); s.protLimit = on ? s.heapNext : 0; return true; }
BI(bSymbolic) { E.setRet(s, c, Val(1)); return true; }
// --- intrinsics
static bool intrinsic(Engine& E, State& s, const CallX& c, Args& a, Function* f) {
  unsigned w = c.argw.empty() ? 0 : c.argw[0]; auto& X = E.X; auto ret = [&](Val v) { E.setRet(s, c, v); return true; };
  if (w > 64 || (f->getReturnType()->isVectorTy())) throw EngineError{"wide/vector intrinsic " + f->getName().str()};
  switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return bMemcpy(E, s, c, a);
    case Intrinsic::memset: return bMemset(E, s, c, a);
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return ret(a[0]);
    case Intrinsic::is_constant: return ret(Val(0));
    case Intrinsic::objectsize: return ret(Val(~0ull));
    case Intrinsic::eh_typeid_for: return bTypeidFor(E, s, c, a);
    case Intrinsic::umax: return ret(X.ite(X.bin(ULT, w, a[0], a[1]), w, a[1], a[0]));
    case Intrinsic::umin: return ret(X.ite(X.bin(ULT, w, a[0], a[1]), w, a[0], a[1]));
    case Intrinsic::smax: return ret(X.ite(X.bin(SLT, w, a[0], a[1]), w, a[1], a[0]));
    case Intrinsic::smin: return ret(X.ite(X.bin(SLT, w, a[0], a[1]), w, a[0], a[1]));
    case Intrinsic::abs: return ret(X.ite(X.bin(SLT, w, a[0], Val(0)), w, X.bin(SUB, w, Val(0), a[0]), a[0]));
    case Intrinsic::usub_sat: return ret(X.ite(X.bin(ULT, w, a[0], a[1]), w, Val(0), X.bin(SUB, w, a[0], a[1])));
    case Intrinsic::uadd_sat: { Val r = X.bin(ADD, w, a[0], a[1]); return ret(X.ite(X.bin(ULT, w, r, a[0]), w, Val(maskw(w)), r)); }
    case Intrinsic::uadd_with_overflow: { Val r = X.bin(ADD, w, a[0], a[1]); auto& g = s.fr.back().regs; g[c.dst] = r; g[c.dst + 1] = X.bin(ULT, w, r, a[0]); return true; }
    case Intrinsic::usub_with_overflow: { auto& g = s.fr.back().regs; g[c.dst] = X.bin(SUB, w, a[0], a[1]); g[c.dst + 1] = X.bin(ULT, w, a[0], a[1]); return true; }
    case Intrinsic::umul_with_overflow: { u64 x = CC(0), y = CC(1); unsigned __int128 p = (unsigned __int128)x * y; auto& g = s.fr.back().regs; g[c.dst] = Val((u64)p & maskw(w)); g[c.dst + 1] = Val((u64)(p >> w) != 0); return true; }
    case Intrinsic::ctpop: return ret(Val(__builtin_popcountll(CC(0))));
    case Intrinsic::ctlz: { u64 x = CC(0); return ret(Val(x ? __builtin_clzll(x) - (64 - w) : w)); }
    case Intrinsic::cttz: { u64 x = CC(0); return ret(Val(x ? __builtin_ctzll(x) : w)); }
    case Intrinsic::bswap: { Val r = X.extract(a[0], w, 0, 8); unsigned cw = 8; for (unsigned i = 1; i < w / 8; i++) { r = X.concat(r, cw, X.extract(a[0], w, i * 8, 8), 8); cw += 8; } return ret(r); }
    case Intrinsic::fshl: { u64 k = CC(2) % w; if (!k) return ret(a[0]); return ret(X.bin(OR, w, X.bin(SHL, w, a[0], Val(k)), X.bin(LSHR, w, a[1], Val(w - k)))); }
    case Intrinsic::fshr: { u64 k = CC(2) % w; if (!k) return ret(a[1]); return ret(X.bin(OR, w, X.bin(SHL, w, a[0], Val(w - k)), X.bin(LSHR, w, a[1], Val(k)))); }
    case Intrinsic::trap: case Intrinsic::debugtrap: throw Vio{"terminate", "trap"};
    case Intrinsic::stacksave: return ret(Val(0));
    case Intrinsic::stackrestore: return true;
    case Intrinsic::ceil: case Intrinsic::floor: { u64 v = CC(0); bool up = f->getIntrinsicID() == Intrinsic::ceil; if (w == 32) { float x; u32 b = v; memcpy(&x, &b, 4); x = up ? ceilf(x) : floorf(x); memcpy(&b, &x, 4); return ret(Val(b)); } double x; memcpy(&x, &v, 8); x = up ? ::ceil(x) : ::floor(x); memcpy(&v, &x, 8); return ret(Val(v)); }
    case Intrinsic::vastart: case Intrinsic::vaend: default: throw EngineError{"intrinsic not supported: " + f->getName().str()};
  }
}
static std::map<std::string, Builtin> mkBuiltins() {
  std::map<std::string, Builtin> m;
  for (auto n : {"_Znwm", "_Znam", "malloc"}) m[n] = bNew;
  for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) m[n] = bNewA;
  m["_ZnwmRKSt9nothrow_t"] = bNewNT;
  for (auto n : {"_ZdlPv", "_ZdaPv", "free", "_ZdlPvRKSt9nothrow_t"}) m[n] = bDel;
  for (auto n : {"_ZdlPvm", "_ZdaPvm"}) m[n] = bDelS;
  for (auto n : {"_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t"}) m[n] = bDelA;
  for (auto n : {"_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}) m[n] = bDelSA;
  m["memcpy"] = m["memmove"] = bMemcpy; m["memset"] = bMemset; m["memcmp"] = m["bcmp"] = bMemcmp; m["strlen"] = bStrlen; m["strcmp"] = bStrcmp;
  m["_ZSt20__throw_length_errorPKc"] = bLengthError; m["_ZSt19__throw_logic_errorPKc"] = bLogicError; m["_ZSt20__throw_out_of_rangePKc"] = bOutOfRange; m["_ZSt24__throw_out_of_range_fmtPKcz"] = bOutOfRange;
  m["_ZSt17__throw_bad_allocv"] = bBadAlloc; m["_ZSt28__throw_bad_array_new_lengthv"] = bBadArray; m["_ZSt25__throw_bad_function_callv"] = bBadFn; m["_ZSt16__throw_bad_castv"] = bBadCast; m["__cxa_throw_bad_array_new_length"] = bBadArray;
  m["__cxa_allocate_exception"] = bCxaAlloc; m["__cxa_free_exception"] = bNop; m["__cxa_throw"] = bCxaThrow; m["__cxa_begin_catch"] = bBeginCatch; m["__cxa_end_catch"] = bEndCatch; m["__cxa_rethrow"] = bRethrow; m["__cxa_get_exception_ptr"] = bGetExc;
  for (auto n : {"_ZSt9terminatev", "abort", "__cxa_call_unexpected", "__cxa_pure_virtual"}) m[n] = bTerminate;
  m["__assert_fail"] = bAssertFail; m["__cxa_guard_acquire"] = bGuardAcq; m["__cxa_guard_release"] = bGuardRel; m["__cxa_guard_abort"] = bNop; m["__cxa_atexit"] = bRet0;
  m["_ZSt11_Hash_bytesPKvmm"] = bHashBytes; m["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = bNextBkt; m["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] = bNeedRehash;
  for (auto n : {"_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2ERKS_", "_ZNSt11logic_errorC1ERKS_", "_ZNSt11logic_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt9type_infoD2Ev", "_ZNSt9type_infoD1Ev", "_ZNSt12length_errorC1EPKc", "_ZNSt12length_errorC2EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorD2Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt12length_errorD1Ev", "_ZNSt12length_errorD2Ev"}) m[n] = bNop;
  m["sx_sym"] = bSym; m["sx_range"] = bRange; m["sx_choose"] = bChoose; m["sx_assume"] = bAssume; m["sx_assert"] = bAssert; m["sx_observe"] = bObserve; m["sx_reach"] = bReach; m["sx_live_heap"] = bLive; m["sx_protect"] = bProtect; m["sx_symbolic"] = bSymbolic;
  return m;
}

// ---------------------------------------------------------------- interpreter
static double f2d(u64 v, unsigned w) { if (w == 32) { u32 b = v; float f; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 d2f(double d, unsigned w) { if (w == 32) { float f = d; u32 b; memcpy(&b, &f, 4); return b; } u64 v; memcpy(&v, &d, 8); return v; }

void Engine::exec(State& s) {
  Frame& f = s.fr.back(); const I& in = f.f->code[f.pc]; s.instrs++;
  switch (in.op) {
    case I_NOP: f.pc++; return;
    case I_BIN: {
      Val x = get(f, in.a), y = get(f, in.b);
      if (in.sub >= UDIV && in.sub <= SREM) { if (!y.s) { if (!y.c) throw Vio{"arith", "division by zero"}; } else { Val z = X.bin(EQ, in.w, y, Val(0)); std::vector<u64> m; if (query(s, z, m)) { s.asg = m; assume(s, z); throw Vio{"arith", "division by zero"}; } } }
      f.regs[in.dst] = X.bin((Op)in.sub, in.w, x, y); f.pc++; return; }
    case I_ICMP: { Val r = X.bin((Op)in.sub, in.w, get(f, in.a), get(f, in.b)); f.regs[in.dst] = in.imm ? X.notb(r) : r; f.pc++; return; }
    case I_FBIN: { u64 p = concretize(s, get(f, in.a), in.w), q = concretize(s, get(f, in.b), in.w); double x = f2d(p, in.w), y = f2d(q, in.w), r;
      switch (in.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: throw EngineError{"frem"}; }
      f.regs[in.dst] = Val(d2f(r, in.w)); f.pc++; return; }
    case I_FCMP: { u64 p = concretize(s, get(f, in.a), in.w), q = concretize(s, get(f, in.b), in.w); double x = f2d(p, in.w), y = f2d(q, in.w); bool un = x != x || y != y; int k = in.sub; bool r = un ? (k & 8) : ((k & 1) && x == y) || ((k & 2) && x > y) || ((k & 4) && x < y); f.regs[in.dst] = Val(r); f.pc++; return; }
    case I_CAST: { Val x = get(f, in.a); switch (in.sub) { case Instruction::Trunc: x = X.extract(x, in.w, 0, in.w2); break; case Instruction::SExt: x = X.sext(x, in.w, in.w2); break; default: x = in.w2 >= in.w ? X.zext(x, in.w, in.w2) : X.extract(x, in.w, 0, in.w2); } f.regs[in.dst] = x; f.pc++; return; }
    case I_FCAST: { u64 v = concretize(s, get(f, in.a), in.w), r; switch (in.sub) { case Instruction::UIToFP: r = in.w2 == 32 ? d2f((float)v, 32) : d2f((double)v, 64); break; case Instruction::SIToFP: r = in.w2 == 32 ? d2f((float)sxt(v, in.w), 32) : d2f((double)sxt(v, in.w), 64); break;
        case Instruction::FPToUI: r = (u64)f2d(v, in.w) & maskw(in.w2); break; case Instruction::FPToSI: r = (u64)(int64_t)f2d(v, in.w) & maskw(in.w2); break; default: r = d2f(f2d(v, in.w), in.w2); } f.regs[in.dst] = Val(r); f.pc++; return; }
    case I_SELECT: { Val cnd = get(f, in.a); unsigned n = in.x->leaves.size(); for (unsigned i = 0; i < n; i++) { Val t = getL(f, in.b, i), e = getL(f, in.c, i); f.regs[in.dst + i] = X.ite(cnd, in.x->leaves[i].w, t, e); } f.pc++; return; }
    case I_LOAD: {
      u64 a = concretize(s, get(f, in.a), 64);
      if (in.w2) { f.regs[in.dst] = loadBytes(s, a, in.w2, in.w); f.pc++; return; }
      for (unsigned i = 0; i < in.x->leaves.size(); i++) { auto& l = in.x->leaves[i]; f.regs[in.dst + i] = loadBytes(s, a + l.off, (l.w + 7) / 8, l.w); }
      f.pc++; return; }
    case I_STORE: { u64 a = concretize(s, get(f, in.a), 64); for (unsigned i = 0; i < in.x->leaves.size(); i++) { auto& l = in.x->leaves[i]; storeBytes(s, a + l.off, (l.w + 7) / 8, getL(f, in.b, i), l.w); } f.pc++; return; }
    case I_GEP: { Val v = get(f, in.a); if (in.imm) v = X.bin(ADD, 64, v, Val((u64)in.imm));
      if (in.x) for (size_t i = 0; i < in.x->terms.size(); i++) { Val t = get(f, in.x->terms[i].first); unsigned w = in.x->termw[i]; if (w < 64) t = X.sext(t, w, 64); v = X.bin(ADD, 64, v, X.bin(MUL, 64, t, Val((u64)in.x->terms[i].second))); }
      f.regs[in.dst] = v; f.pc++; return; }
    case I_ALLOCA: { u64 n = concretize(s, get(f, in.a), 64); f.regs[in.dst] = Val(allocStack(s, in.imm * n, in.w2)); f.pc++; return; }
    case I_BR: takeEdge(f, in.x->e1); return;
    case I_CBR: {
      Val cnd = get(f, in.a); Ext* x = in.x;
      if (!cnd.s) { takeEdge(f, cnd.c ? x->e1 : x->e2); return; }
      bool t = X.eval(cnd, s.asg);
      branch(s, cnd, [&](State& n) { takeEdge(n.fr.back(), t ? x->e2 : x->e1); });
      takeEdge(s.fr.back(), t ? x->e1 : x->e2); return; }
    case I_SWITCH: { u64 v = concretize(s, get(f, in.a), in.w); for (auto& c : in.x->cases) if (c.first == v) { takeEdge(f, c.second); return; } takeEdge(f, in.x->e1); return; }
    case I_INSEXT: { auto& mv = in.x->moves; if (mv.size() == 1) f.regs[mv[0].first] = get(f, mv[0].second); else { std::vector<Val> t(mv.size()); for (size_t i = 0; i < mv.size(); i++) t[i] = get(f, mv[i].second); for (size_t i = 0; i < mv.size(); i++) f.regs[mv[i].first] = t[i]; } f.pc++; return; }
    case I_RET: {
      Val rv[16]; std::vector<Val> big; Val* r = rv; unsigned n = 0;
      bool has = in.w; int ra = in.a;
      if (s.fr.size() == 1) { popStack(s, f.stackMark); s.fr.pop_back(); return; }
      Frame& cf = s.fr[s.fr.size() - 2]; const CallX& c = cf.f->code[cf.pc].x->call;
      if (has && !c.isvoid) { n = c.nret; if (n > 16) { big.resize(n); r = big.data(); } for (unsigned i = 0; i < n; i++) r[i] = getL(f, ra, i); }
      popStack(s, f.stackMark); s.fr.pop_back(); Frame& g = s.fr.back(); for (unsigned i = 0; i < n; i++) g.regs[c.dst + i] = r[i];
      advanceCall(s); return; }
    case I_UNREACH: throw Vio{"unreachable", "undefined behaviour: unreachable code executed"};
    case I_LPAD: f.regs[in.dst] = Val(s.lpExc); f.regs[in.dst + 1] = Val((u64)(u32)s.lpSel); f.pc++; return;
    case I_RESUME: { u64 e = get(f, in.a).c; if (f.f->nounwind) throw Vio{"terminate", "exception escapes a function that must not throw"}; popStack(s, f.stackMark); s.fr.pop_back(); unwind(s, e, true); return; }
    case I_RMW: { u64 a = concretize(s, get(f, in.a), 64); Val o = loadBytes(s, a, in.w / 8, in.w), b = get(f, in.b), r; switch (in.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = X.bin(ADD, in.w, o, b); break; case AtomicRMWInst::Sub: r = X.bin(SUB, in.w, o, b); break; default: throw EngineError{"atomicrmw"}; } storeBytes(s, a, in.w / 8, r, in.w); f.regs[in.dst] = o; f.pc++; return; }
    case I_XCHG: { u64 a = concretize(s, get(f, in.a), 64); u64 e = concretize(s, get(f, in.b), in.w); Val o = loadBytes(s, a, in.w / 8, in.w); u64 ov = concretize(s, o, in.w); bool ok = ov == e; if (ok) storeBytes(s, a, in.w / 8, get(f, in.c), in.w); f.regs[in.dst] = Val(ov); f.regs[in.dst + 1] = Val(ok); f.pc++; return; }
    case I_UNSUP: throw EngineError{in.x->msg};
    case I_CALL: {
      CallX& c = in.x->call; Function* cal = c.callee;
      if (!cal) { Val fp = get(f, c.fn); u64 a = concretize(s, fp, 64); auto it = faddr.find(a); if (it == faddr.end()) throw Vio{"memory", a ? "call through an invalid function pointer" : "call through a null function pointer"}; cal = it->second; }
      if (cal->isDeclaration() && !cal->isIntrinsic()) { auto it = redirect.find(cal); if (it == redirect.end()) { Function* r = mod->getFunction(("sx_" + cal->getName()).str()); it = redirect.emplace(cal, r && !r->isDeclaration() ? r : nullptr).first; } if (it->second) { cal = it->second; if (c.callee) c.callee = cal; } }
      std::vector<Val> args(c.args.size()); for (size_t i = 0; i < args.size(); i++) args[i] = get(f, c.args[i]);
      if (!cal->isDeclaration()) {
        FnInfo* fi = c.callee ? (c.fi ? c.fi : (c.fi = decode(cal))) : decode(cal);
        if (c.byval.empty()) { pushFrame(s, fi, args); return; }
        std::vector<u64> src; for (auto& b : c.byval) src.push_back(concretize(s, args[b.first], 64));
        u32 mark = s.stack.size();
        for (size_t i = 0; i < src.size(); i++) { u64 d = allocStack(s, c.byval[i].second, 16); copyMem(s, d, src[i], c.byval[i].second); args[c.byval[i].first] = Val(d); }
        pushFrame(s, fi, args); s.fr.back().stackMark = mark; return;
      }
      if (cal->isIntrinsic()) { if (intrinsic(*this, s, c, args, cal)) advanceCall(s); return; }
      Builtin b = c.callee ? c.bi : nullptr;
      if (!b) { auto it = builtins.find(cal->getName().str()); if (it == builtins.end()) throw EngineError{"no model for external function " + demangle(cal->getName().str()) + " (" + cal->getName().str() + ")"}; b = it->second; externsUsed.insert(cal->getName().str()); if (c.callee) c.bi = b; }
      if (b(*this, s, c, args)) advanceCall(s);
      return; }
    default: throw EngineError{"opcode"};
  }
}

// returns true when the state is finished, false when it was re-queued (bfs phase)
bool Engine::runState(std::unique_ptr<State>& sp) {
  State& s = *sp; size_t w0 = work.size();
  try {
    while (!s.fr.empty()) {
      exec(s);
      if ((s.instrs & 4095) == 0) { if (s.instrs > maxInstr) throw Vio{"steps", "execution does not terminate within the step bound"}; if (now() > deadline) { incomplete++; return true; } if (sharedVio && (unsigned)sharedVio[s.entry] >= maxVio) { skipped++; return true; } }
      if (bfs && work.size() > w0) { work.push_back(std::move(sp)); return false; }
    }
    pathDone(s);
  } catch (Vio& v) {
    ent[s.entry].paths++; ent[s.entry].instr += s.instrs; report(s, v.kind, v.msg, s.asg);
  } catch (Kill&) { ent[s.entry].killed++; ent[s.entry].instr += s.instrs; }
  catch (EngineError& e) { std::string w = s.fr.empty() ? "" : where(s); errors++; if (errors < 20) fprintf(out, "ERR\t%s\t%s\t%s\t%s\n", ent[s.entry].name.c_str(), esc(e.msg).c_str(), esc(w).c_str(), inputStr(s, s.asg).c_str()); fflush(out); }
  return true;
}
void Engine::drain() {
  while (!work.empty()) {
    auto sp = std::move(work.front()); work.pop_front();
    if (sharedVio && (unsigned)sharedVio[sp->entry] >= maxVio) { skipped++; continue; }
    if (now() > deadline) { incomplete++; continue; }
    runState(sp);
    if (share) share();
  }
}

void Engine::load(const char* file, State& s) {
  SMDiagnostic err; mod = parseIRFile(file, err, ctx); if (!mod) { std::string t; raw_string_ostream os(t); err.print("sx", os); throw EngineError{os.str()}; }
  DL = &mod->getDataLayout(); s.heapNext = HBASE; s.stackNext = SBASE; builtins = mkBuiltins();
  for (auto* b = stdBases; (*b)[0]; b++) newExtern(s, (*b)[0], 64);
  std::vector<GlobalVariable*> defs;
  for (auto& g : mod->globals()) {
    if (g.getName().startswith("llvm.")) continue;
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration()) { gaddr[&g] = newExtern(s, g.getName().str(), std::max<u64>(sz, 256)); continue; }
    u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16); if (!sz) sz = 1;
    u64& nx = g.isConstant() ? cnext : gnext; u64 a = (nx + al - 1) / al * al; nx = a + sz + 32; gaddr[&g] = a; defs.push_back(&g);
    (g.isConstant() ? cglob : s.glob).push_back({a, ObjRef(mkObj(a, sz, K_GLOBAL, true))});
    { std::string n = g.getName().str(); size_t k = n.compare(0, 3, "_ZZ") == 0 ? 3 : n.compare(0, 2, "_Z") == 0 ? 2 : 0; // statics of the library, other than thread-safe lazily initialised or thread-local ones
      if (k && !g.isConstant() && !g.isThreadLocal() && (n.compare(k, 24, "N5boost15poly_collection") == 0 || n.compare(k, 25, "NK5boost15poly_collection") == 0) && !mod->getNamedValue("_ZGV" + n.substr(2))) s.glob.back().o.p->lib = true; }
  }
  for (auto& f : *mod) fnAddr(&f);
  { // external type_info objects (fundamental types, standard exceptions): the name is what the ABI gives them
    std::vector<std::pair<std::string, u64>> tis; for (auto& e : externs) if (e.first.compare(0, 4, "_ZTI") == 0) tis.push_back(e);
    for (auto& e : tis) { std::string nm = e.first.substr(4); u64 a = newExtern(s, "_ZTS" + nm, nm.size() + 1); memcpy(&findIn(cglob, a)->o.p->data[0], nm.c_str(), nm.size() + 1); memcpy(&findIn(cglob, e.second)->o.p->data[8], &a, 8); }
  }
  for (auto* g : defs) { u64 a = gaddr[g]; Ent* e = findIn(region(s, a), a); try { initGlobal(g->getInitializer(), e->o.p, 0); } catch (EngineError& x) { throw EngineError{"global " + g->getName().str() + ": " + x.msg}; } e->o.p->ro = g->isConstant(); }
  for (auto& e : cglob) e.o.p->ro = true;
  if (auto* ct = mod->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(ct->getInitializer())) {
    std::vector<std::pair<u64, Function*>> fs; for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); fs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1))}); }
    std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : fs) { pushFrame(s, decode(p.second), {}); while (!s.fr.empty()) exec(s); }
  }
}

int main(int argc, char** argv) {
  Engine E; const char* bc = nullptr; std::string outFile; std::vector<std::string> prefixes; int jobs = 1; double budget = 1e9;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "-o") outFile = argv[++i]; else if (a == "-e") prefixes.push_back(argv[++i]); else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-t") budget = atof(argv[++i]); else if (a == "-max-instr") E.maxInstr = strtoull(argv[++i], 0, 10);
    else if (a == "-max-vio") E.maxVio = atoi(argv[++i]); else if (a == "-samples") E.nsamples = atoi(argv[++i]); else if (a == "-seed") { E.seed = strtoull(argv[++i], 0, 10); E.rng ^= E.seed * 0x9E3779B97F4A7C15ull; } else bc = argv[i]; }
  if (!bc) { fprintf(stderr, "usage: sx [-o out] [-e entry-prefix]... [-j n] [-t sec] file.bc\n"); return 2; }
  E.deadline = now() + budget;
  Z3_config cfg = Z3_mk_config(); E.X.z = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(E.X.z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); });
  E.solver = Z3_mk_simple_solver(E.X.z); Z3_solver_inc_ref(E.X.z, E.solver);
  Z3_params p = Z3_mk_params(E.X.z); Z3_params_inc_ref(E.X.z, p); Z3_params_set_uint(E.X.z, p, Z3_mk_string_symbol(E.X.z, "timeout"), E.queryTimeout); Z3_solver_set_params(E.X.z, E.solver, p);
  if (!outFile.empty()) { E.out = fopen(outFile.c_str(), "w"); if (!E.out) { perror("out"); return 2; } }
  State base; E.ent.emplace_back(); E.ent[0].name = "(init)";
  try {
    E.load(bc, base); 
    for (auto& f : *E.mod) { if (f.isDeclaration()) continue; bool m = false; for (auto& q : prefixes) if (f.getName().startswith(q)) m = true; if (!m) continue;
      E.ent.emplace_back(); E.ent.back().name = f.getName().str(); auto st = std::make_unique<State>(base); st->entry = E.ent.size() - 1; E.pushFrame(*st, E.decode(&f), {}); E.work.push_back(std::move(st)); }
  } catch (EngineError& e) { fprintf(E.out, "ERR\tinit\t%s\t\t\n", E.esc(e.msg).c_str()); return 2; }
  catch (Vio& e) { fprintf(E.out, "ERR\tinit\tviolation during initialisation: %s\t\t\n", E.esc(e.msg).c_str()); return 2; }
  if (E.work.empty()) { fprintf(E.out, "ERR\tinit\tno entry points\t\t\n"); return 2; }
  E.sharedVio = (volatile int*)mmap(nullptr, sizeof(int) * (E.ent.size() + 1) + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile int *counter = E.sharedVio + E.ent.size(), *active = counter + 1, *files = counter + 2;
  if (jobs > 1) {
    E.bfs = true; size_t target = (size_t)jobs * 40;
    while (!E.work.empty() && E.work.size() < target) { auto sp = std::move(E.work.front()); E.work.pop_front(); if ((unsigned)E.sharedVio[sp->entry] >= E.maxVio) { E.skipped++; continue; } E.runState(sp); }
    E.bfs = false;
    if (!E.work.empty()) {
      std::vector<std::unique_ptr<State>> pool; while (!E.work.empty()) { pool.push_back(std::move(E.work.front())); E.work.pop_front(); }
      std::vector<pid_t> kids; fflush(E.out); *active = jobs;
      auto reset = [&](int k) {
        E.out = fopen((outFile + "." + std::to_string(k)).c_str(), "w"); E.errors = E.incomplete = E.skipped = 0; kids.clear();
        for (auto& e : E.ent) { auto n = e.name; e = EntryStats(); e.name = n; } E.fnsExecuted.clear(); E.externsUsed.clear(); for (auto& fi : E.fns) fi.second->counted = false;
        E.rng += k * 7919; };
      auto finish = [&]() {
        __sync_fetch_and_sub(active, 1);
        for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { E.errors++; fprintf(E.out, "ERR\tworker\tworker died (status %d)\t\t\n", st); } }
        E.dump(); fprintf(E.out, "END\t%llu\t%llu\t%llu\n", (unsigned long long)E.errors, (unsigned long long)E.incomplete, (unsigned long long)E.skipped); fflush(E.out); _exit(0); };
      // a worker with work left hands half of it to a new process whenever a core is idle
      E.share = [&]() {
        if (*active >= jobs || *counter < (int)pool.size() || E.work.size() < 2) return;
        if (__sync_fetch_and_add(active, 1) >= jobs) { __sync_fetch_and_sub(active, 1); return; }
        int k = __sync_fetch_and_add(files, 1); fflush(E.out); pid_t pid = fork();
        std::deque<std::unique_ptr<State>> keep; bool mine = pid != 0;
        while (!E.work.empty()) { if (mine) keep.push_back(std::move(E.work.front())); E.work.pop_front(); mine = !mine; }
        E.work.swap(keep);
        if (pid == 0) { reset(k); E.drain(); finish(); }
        kids.push_back(pid); };
      for (int k = 0; k < jobs; k++) { int f = __sync_fetch_and_add(files, 1); pid_t pid = fork(); if (pid == 0) {
          reset(f);
          for (;;) { int i = __sync_fetch_and_add(counter, 1); if (i >= (int)pool.size()) break; E.work.push_front(std::move(pool[i])); E.drain(); }
          finish(); }
        kids.push_back(pid); }
      for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { E.errors++; fprintf(E.out, "ERR\tworker\tworker died (status %d)\t\t\n", st); } }
    }
  } else E.drain();
  E.dump(); fprintf(E.out, "END\t%llu\t%llu\t%llu\n", (unsigned long long)E.errors, (unsigned long long)E.incomplete, (unsigned long long)E.skipped); fflush(E.out); fclose(E.out);
  _exit(0);
}
