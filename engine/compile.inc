// LLVM function -> internal bytecode.
static std::unordered_map<std::string, int> builtinIds;
static int flatN(Type* t) {
	if (auto* st = dyn_cast<StructType>(t)) { int n = 0; for (Type* e : st->elements()) n += flatN(e); return n; }
	if (auto* at = dyn_cast<ArrayType>(t)) return (int)at->getNumElements() * flatN(at->getElementType());
	if (auto* vt = dyn_cast<FixedVectorType>(t)) return (int)vt->getNumElements();
	if (t->isVoidTy()) return 0;
	return 1;
}
static unsigned widthOf(Type* t) {
	if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
	return 0;
}
struct Leaf { unsigned w; u64 off; };
static void leaves(Type* t, u64 off, std::vector<Leaf>& out) {
	if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
	if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), off + i * sz, out); return; }
	if (auto* vt = dyn_cast<FixedVectorType>(t)) { unsigned w = widthOf(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); ++i) out.push_back({w, off + i * ((w + 7) / 8)}); return; }
	if (!t->isVoidTy()) out.push_back({widthOf(t), off});
}
struct Unsupported { std::string why; };
static void constFlat(const Constant* c, std::vector<u64>& out);
static u64 constScalar(const Constant* c) { std::vector<u64> v; constFlat(c, v); if (v.size() != 1) throw Unsupported{"aggregate constant"}; return v[0]; }
static void constFlat(const Constant* c, std::vector<u64>& out) {
	if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) throw Unsupported{"wide constant"}; } out.push_back(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0)); return; }
	if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); out.push_back(b.getBitWidth() > 64 ? b.extractBitsAsZExtValue(64, 0) : b.getZExtValue()); return; }
	if (isa<ConstantPointerNull>(c)) { out.push_back(0); return; }
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (int i = 0, n = flatN(c->getType()); i < n; ++i) out.push_back(0); return; }
	if (auto* ga = dyn_cast<GlobalAlias>(c)) { constFlat(ga->getAliasee(), out); return; }
	if (auto* gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) throw Unsupported{"global " + gv->getName().str()}; out.push_back(it->second); return; }
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constFlat(cd->getElementAsConstant(i), out); return; }
	if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); ++i) constFlat(ca->getOperand(i), out); return; }
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"}; out.push_back(constScalar(ce->getOperand(0)) + off.getZExtValue()); return; }
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: out.push_back(constScalar(ce->getOperand(0)) & maskw(widthOf(ce->getType()))); return;
		case Instruction::Trunc: out.push_back(constScalar(ce->getOperand(0)) & maskw(widthOf(ce->getType()))); return;
		case Instruction::Sub: out.push_back(constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))); return;
		case Instruction::Add: out.push_back(constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))); return;
		default: throw Unsupported{"constant expression"};
		}
	}
	throw Unsupported{"constant"};
}
static void writeInit(const Constant* c, u8* d) {
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(d, r.data(), r.size()); return; }
	if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeInit(cs->getOperand(i), d + sl->getElementOffset(i)); return; }
	if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeInit(ca->getOperand(i), d + i * sz); return; }
	unsigned w = widthOf(c->getType()); if (!w || w > 64) throw Unsupported{"initializer"};
	u64 v = constScalar(c); memcpy(d, &v, (w + 7) / 8);
}

struct Compiler {
	Func* F; std::unordered_map<const Value*, int> slot; std::map<u64, int> cpool; std::unordered_map<const BasicBlock*, int> bbStart; std::vector<std::pair<int*, const BasicBlock*>> fix; int nslots = 0; int tmpMax = 0;
	std::vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> edges;
	int constSlot(u64 v) { auto it = cpool.find(v); if (it != cpool.end()) return it->second; int id = ~(int)F->consts.size(); F->consts.push_back(Val(v)); cpool[v] = id; return id; }
	int operand(const Value* v, int k = 0) {
		if (auto* c = dyn_cast<Constant>(v)) { std::vector<u64> f; constFlat(c, f); return constSlot(f.at(k)); }
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return constSlot(0);
		auto it = slot.find(v); if (it == slot.end()) throw Unsupported{"operand"}; return it->second + k;
	}
	void emit(Inst i, const Instruction* src) { i.src = src; F->code.push_back(i); }
	Edge* edge(const BasicBlock* from, const BasicBlock* to) { Edge* e = new Edge; edges.push_back({e, {from, to}}); return e; }
	unsigned W(Type* t) { unsigned w = widthOf(t); if (!w || w > 64) throw Unsupported{"type width"}; return w; }
	void run() {
		Function* f = F->f;
		for (auto& a : f->args()) { int n = flatN(a.getType()); slot[&a] = nslots; for (int i = 0; i < n; ++i) F->argSlots.push_back(nslots + i); nslots += n; }
		for (auto& bb : *f) for (auto& i : bb) { int n = flatN(i.getType()); if (n) { slot[&i] = nslots; nslots += n; } }
		for (auto& bb : *f) { bbStart[&bb] = (int)F->code.size(); for (auto& i : bb) { if (isa<PHINode>(i)) continue; size_t before = F->code.size(); try { inst(i); } catch (Unsupported& u) { F->code.resize(before); Inst b; b.op = I_BAD; std::string t; raw_string_ostream os(t); os << "unsupported: " << u.why << ": " << i; b.p = strdup(os.str().c_str()); emit(b, &i); } } }
		for (auto& e : edges) {
			e.first->target = bbStart[e.second.second];
			for (auto& phi : e.second.second->phis()) { const Value* v = phi.getIncomingValueForBlock(e.second.first); if (isa<UndefValue>(v)) continue; int n = flatN(phi.getType()); for (int k = 0; k < n; ++k) e.first->moves.push_back({slot[&phi] + k, operand(v, k)}); }
		}
		F->nregs = nslots;
	}
	void inst(const Instruction& I) {
		Inst o; o.dst = slot.count(&I) ? slot[&I] : -1;
		Type* T = I.getType();
		if (auto* b = dyn_cast<BinaryOperator>(&I)) {
			if (T->isFloatingPointTy()) { o.op = I_FBIN; o.sub = b->getOpcode(); o.w = W(T); o.a = operand(b->getOperand(0)); o.b = operand(b->getOperand(1)); return emit(o, &I); }
			Op op; switch (b->getOpcode()) { case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break; case Instruction::Mul: op = O_MUL; break; case Instruction::UDiv: op = O_UDIV; break; case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break; case Instruction::SRem: op = O_SREM; break; case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break; case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break; case Instruction::AShr: op = O_ASHR; break; default: throw Unsupported{"binop"}; }
			Type* et = T->isVectorTy() ? T->getScalarType() : T; int n = T->isVectorTy() ? flatN(T) : 1;
			for (int k = 0; k < n; ++k) { Inst q = o; q.op = I_BIN; q.sub = op; q.w = W(et); q.dst = o.dst + k; q.a = operand(b->getOperand(0), k); q.b = operand(b->getOperand(1), k); emit(q, &I); }
			return;
		}
		switch (I.getOpcode()) {
		case Instruction::FNeg: o.op = I_FNEG; o.w = W(T); o.a = operand(I.getOperand(0)); return emit(o, &I);
		case Instruction::ICmp: { auto* c = cast<ICmpInst>(&I); Type* ot = c->getOperand(0)->getType(); Type* et = ot->getScalarType(); int n = ot->isVectorTy() ? flatN(ot) : 1; for (int k = 0; k < n; ++k) { Inst q = o; q.op = I_ICMP; q.sub = c->getPredicate(); q.w = W(et); q.dst = o.dst + k; q.a = operand(c->getOperand(0), k); q.b = operand(c->getOperand(1), k); emit(q, &I); } return; }
		case Instruction::FCmp: o.op = I_FCMP; o.sub = cast<FCmpInst>(&I)->getPredicate(); o.w = W(I.getOperand(0)->getType()); o.a = operand(I.getOperand(0)); o.b = operand(I.getOperand(1)); return emit(o, &I);
		case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { Type* ft = I.getOperand(0)->getType(); int n = T->isVectorTy() ? flatN(T) : 1; for (int k = 0; k < n; ++k) { Inst q = o; q.op = I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC; q.w = W(T->getScalarType()); q.w2 = W(ft->getScalarType()); q.dst = o.dst + k; q.a = operand(I.getOperand(0), k); emit(q, &I); } return; }
		case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned w = W(T), w2 = W(I.getOperand(0)->getType()); o.op = w < w2 ? I_TRUNC : w > w2 ? I_ZEXT : I_MOV; o.w = w; o.w2 = w2; o.a = operand(I.getOperand(0)); return emit(o, &I); }
		case Instruction::BitCast: { if (flatN(T) != flatN(I.getOperand(0)->getType())) throw Unsupported{"vector bitcast"}; int n = flatN(T); for (int k = 0; k < n; ++k) { Inst q = o; q.op = I_MOV; q.dst = o.dst + k; q.a = operand(I.getOperand(0), k); emit(q, &I); } return; }
		case Instruction::Freeze: case Instruction::AddrSpaceCast: { int n = flatN(T); for (int k = 0; k < n; ++k) { Inst q = o; q.op = I_MOV; q.dst = o.dst + k; q.a = operand(I.getOperand(0), k); emit(q, &I); } return; }
		case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: o.op = I_FCVT; o.sub = I.getOpcode(); o.w = W(T); o.w2 = W(I.getOperand(0)->getType()); o.a = operand(I.getOperand(0)); return emit(o, &I);
		case Instruction::Select: { int n = flatN(T); std::vector<Leaf> l; leaves(T, 0, l); bool vc = I.getOperand(0)->getType()->isVectorTy(); for (int k = 0; k < n; ++k) { Inst q = o; q.op = I_SELECT; q.w = l[k].w; q.sub = T->isPointerTy(); q.dst = o.dst + k; q.a = operand(I.getOperand(0), vc ? k : 0); q.b = operand(I.getOperand(1), k); q.c = operand(I.getOperand(2), k); emit(q, &I); } return; }
		case Instruction::Load: { std::vector<Leaf> l; leaves(T, 0, l); for (size_t k = 0; k < l.size(); ++k) { if (l[k].w > 64) throw Unsupported{"wide load"}; Inst q = o; q.op = I_LOAD; q.w = l[k].w; q.dst = o.dst + k; q.a = operand(I.getOperand(0)); q.imm = l[k].off; emit(q, &I); } return; }
		case Instruction::Store: { const Value* v = I.getOperand(0); std::vector<Leaf> l; leaves(v->getType(), 0, l);
			if (l.size() == 1 && l[0].w > 64 && isa<ConstantInt>(v) && cast<ConstantInt>(v)->getBitWidth() % 64 == 0) { const APInt& ap = cast<ConstantInt>(v)->getValue(); for (unsigned k = 0; k < ap.getBitWidth() / 64; ++k) { Inst q = o; q.op = I_STORE; q.w = 64; q.a = operand(I.getOperand(1)); q.b = constSlot(ap.extractBitsAsZExtValue(64, k * 64)); q.imm = k * 8; emit(q, &I); } return; }
			for (size_t k = 0; k < l.size(); ++k) { if (l[k].w > 64) throw Unsupported{"wide store"}; Inst q = o; q.op = I_STORE; q.w = l[k].w; q.a = operand(I.getOperand(1)); q.b = operand(v, k); q.imm = l[k].off; emit(q, &I); } return; }
		case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); o.op = I_ALLOCA; o.imm = DL->getTypeAllocSize(a->getAllocatedType()); o.a = operand(a->getArraySize()); o.p = nullptr; return emit(o, &I); }
		case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(&I); if (T->isVectorTy()) throw Unsupported{"vector gep"}; MapVector<Value*, APInt> vo; APInt co(64, 0); if (!g->collectOffset(*DL, 64, vo, co)) throw Unsupported{"gep"}; o.op = I_GEP; o.a = operand(g->getPointerOperand()); o.imm = co.getZExtValue(); o.gep = vo.empty() ? nullptr : new std::vector<GepIdx>; for (auto& x : vo) o.gep->push_back({operand(x.first), W(x.first->getType()), x.second.getZExtValue()}); return emit(o, &I); }
		case Instruction::Fence: return;
		case Instruction::Br: { auto* b = cast<BranchInst>(&I); if (b->isUnconditional()) { o.op = I_BR; o.e = edge(I.getParent(), b->getSuccessor(0)); } else { o.op = I_CBR; o.a = operand(b->getCondition()); o.e = edge(I.getParent(), b->getSuccessor(0)); o.e2 = edge(I.getParent(), b->getSuccessor(1)); } return emit(o, &I); }
		case Instruction::Switch: { auto* sw = cast<SwitchInst>(&I); o.op = I_SWITCH; o.a = operand(sw->getCondition()); o.w = W(sw->getCondition()->getType()); SwitchTab* t = new SwitchTab; std::map<const BasicBlock*, int> ei; std::vector<const BasicBlock*> bbs; auto idx = [&](const BasicBlock* b) { auto it = ei.find(b); if (it != ei.end()) return it->second; int k = bbs.size(); ei[b] = k; bbs.push_back(b); return k; }; t->def = idx(sw->getDefaultDest()); for (auto& c : sw->cases()) { u64 v = c.getCaseValue()->getZExtValue(); int k = idx(c.getCaseSuccessor()); t->cases.push_back({v, k}); t->map[v] = k; } t->edges.resize(bbs.size()); for (size_t k = 0; k < bbs.size(); ++k) edges.push_back({&t->edges[k], {I.getParent(), bbs[k]}}); o.sw = t; return emit(o, &I); }
		case Instruction::Unreachable: o.op = I_UNREACH; return emit(o, &I);
		case Instruction::Ret: { o.op = I_RET; const Value* v = cast<ReturnInst>(&I)->getReturnValue(); o.gep = nullptr; int n = v ? flatN(v->getType()) : 0; o.imm = n; if (n == 1) o.a = operand(v); else if (n > 1) { o.gep = new std::vector<GepIdx>; for (int k = 0; k < n; ++k) o.gep->push_back({operand(v, k), 0, 0}); } return emit(o, &I); }
		case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(&I); int off = aggIndex(x->getAggregateOperand()->getType(), x->getIndices()); int n = flatN(T); for (int k = 0; k < n; ++k) { Inst q = o; q.op = I_MOV; q.dst = o.dst + k; q.a = operand(x->getAggregateOperand(), off + k); emit(q, &I); } return; }
		case Instruction::InsertValue: { auto* x = cast<InsertValueInst>(&I); int off = aggIndex(T, x->getIndices()); int n = flatN(T), m = flatN(x->getInsertedValueOperand()->getType()); for (int k = 0; k < n; ++k) { Inst q = o; q.op = I_MOV; q.dst = o.dst + k; q.a = (k >= off && k < off + m) ? operand(x->getInsertedValueOperand(), k - off) : operand(x->getAggregateOperand(), k); emit(q, &I); } return; }
		case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) throw Unsupported{"extractelement"}; o.op = I_MOV; o.a = operand(I.getOperand(0), (int)ci->getZExtValue()); return emit(o, &I); }
		case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) throw Unsupported{"insertelement"}; int n = flatN(T); for (int k = 0; k < n; ++k) { Inst q = o; q.op = I_MOV; q.dst = o.dst + k; q.a = (k == (int)ci->getZExtValue()) ? operand(I.getOperand(1)) : operand(I.getOperand(0), k); emit(q, &I); } return; }
		case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&I); int n = flatN(T), m = flatN(sv->getOperand(0)->getType()); for (int k = 0; k < n; ++k) { int x = sv->getMaskValue(k); Inst q = o; q.op = I_MOV; q.dst = o.dst + k; q.a = x < 0 ? constSlot(0) : x < m ? operand(sv->getOperand(0), x) : operand(sv->getOperand(1), x - m); emit(q, &I); } return; }
		case Instruction::AtomicCmpXchg: { auto* x = cast<AtomicCmpXchgInst>(&I); o.op = I_CMPXCHG; o.w = W(x->getCompareOperand()->getType()); o.a = operand(x->getPointerOperand()); o.b = operand(x->getCompareOperand()); o.c = operand(x->getNewValOperand()); return emit(o, &I); }
		case Instruction::AtomicRMW: { auto* x = cast<AtomicRMWInst>(&I); o.op = I_RMW; o.sub = x->getOperation(); o.w = W(T); o.a = operand(x->getPointerOperand()); o.b = operand(x->getValOperand()); return emit(o, &I); }
		case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I), o);
		default: throw Unsupported{"instruction"};
		}
	}
	static int aggIndex(Type* t, ArrayRef<unsigned> idx) { int off = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) off += flatN(st->getElementType(k)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); off += i * flatN(at->getElementType()); t = at->getElementType(); } } return off; }
	void call(const CallBase& C, Inst o) {
		if (auto* ii = dyn_cast<IntrinsicInst>(&C)) {
			switch (ii->getIntrinsicID()) {
			case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend: return;
			case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: o.op = I_MOV; o.a = operand(C.getArgOperand(0)); return emit(o, &C);
			case Intrinsic::stacksave: o.op = I_MOV; o.a = constSlot(0); return emit(o, &C);
			default: break;
			}
			o.op = I_INTR; o.sub = ii->getIntrinsicID(); CallInfo* ci = new CallInfo; for (auto& a : C.args()) { if (isa<MetadataAsValue>(a)) { ci->args.push_back(constSlot(0)); ci->argw.push_back(0); continue; } if (flatN(a->getType()) != 1) throw Unsupported{"vector intrinsic"}; ci->args.push_back(operand(a)); ci->argw.push_back(W(a->getType())); }
			o.w = C.getType()->isVoidTy() ? 0 : (C.getType()->isStructTy() ? W(C.getType()->getStructElementType(0)) : W(C.getType())); o.ci = ci; return emit(o, &C);
		}
		if (isa<InlineAsm>(C.getCalledOperand())) { auto* ia = cast<InlineAsm>(C.getCalledOperand()); if (ia->getAsmString().empty() && C.getType()->isVoidTy()) return; throw Unsupported{"inline asm"}; }
		CallInfo* ci = new CallInfo; ci->builtin = -1; ci->callee = nullptr;
		unsigned an = 0;
		for (auto& a : C.args()) {
			Type* t = a->getType(); std::vector<Leaf> l; leaves(t, 0, l);
			bool bv = C.isByValArgument(an);
			for (size_t k = 0; k < l.size(); ++k) { ci->args.push_back(operand(a, k)); ci->argw.push_back(bv ? 255 : l[k].w > 64 ? 64 : l[k].w); }
			if (bv) { ci->retw.resize(0); byval[ci].push_back({(int)ci->args.size() - 1, (u64)DL->getTypeAllocSize(C.getParamByValType(an))}); }
			++an;
		}
		ci->nret = flatN(C.getType()); { std::vector<Leaf> l; leaves(C.getType(), 0, l); for (auto& x : l) ci->retw.push_back(x.w); }
		o.ci = ci;
		const Value* cv = C.getCalledOperand()->stripPointerCasts(); if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
		if (auto* f = dyn_cast<Function>(cv)) {
			auto it = builtinIds.find(f->getName().str());
			if (it != builtinIds.end()) { o.op = I_CALLB; ci->builtin = it->second; }
			else { o.op = I_CALL; ci->callee = funcs[f]; }
		} else { o.op = I_CALLI; o.a = operand(C.getCalledOperand()); }
		emit(o, &C);
		if (auto* inv = dyn_cast<InvokeInst>(&C)) { Inst b; b.op = I_BR; b.dst = -1; b.e = edge(C.getParent(), inv->getNormalDest()); emit(b, &C); }
	}
	static std::unordered_map<CallInfo*, std::vector<std::pair<int, u64>>> byval;
};
std::unordered_map<CallInfo*, std::vector<std::pair<int, u64>>> Compiler::byval;
static void compileFunc(Func* f) { if (f->compiled) return; f->compiled = true; Compiler c; c.F = f; c.run(); }
