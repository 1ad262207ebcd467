static inline const Val& rd(State& s, const Frame& f, int o) { return o >= 0 ? s.regs[f.base + o] : f.f->consts[~o]; }
static inline void takeEdge(State& s, Frame& f, Edge* e) {
	size_t n = e->moves.size();
	if (n == 1) s.regs[f.base + e->moves[0].dst] = rd(s, f, e->moves[0].src);
	else if (n) { static std::vector<Val> tmp; tmp.clear(); for (auto& m : e->moves) tmp.push_back(rd(s, f, m.src)); for (size_t i = 0; i < n; ++i) s.regs[f.base + e->moves[i].dst] = tmp[i]; }
	f.pc = e->target;
}
static void pushFrame(State& s, Func* f, const std::vector<Val>& args, int retDst, int nret) {
	compileFunc(f); f->calls++;
	if (s.fr.size() > 3000) fail(s, "memory", "stack overflow (call depth)");
	Frame nf; nf.f = f; nf.pc = 0; nf.base = s.regs.size(); nf.allocaMark = s.allocas.size(); nf.retDst = retDst; nf.nret = nret;
	s.regs.resize(nf.base + f->nregs); for (size_t i = 0; i < f->argSlots.size(); ++i) s.regs[nf.base + f->argSlots[i]] = i < args.size() ? args[i] : Val(0);
	s.fr.push_back(nf);
}
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; } static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { float d; u32 x = (u32)v; memcpy(&d, &x, 4); return d; } static u64 fromF(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static double fget(u64 v, unsigned w) { return w == 32 ? (double)asF(v) : asD(v); } static u64 fput(double d, unsigned w) { return w == 32 ? fromF((float)d) : fromD(d); }

static Val intrin(State& s, Frame& f, Inst& I) {
	CallInfo* ci = I.ci; auto A = [&](int k) -> Val { return rd(s, f, ci->args[k]); };
	unsigned w = I.w;
	switch (I.sub) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(s, A(2)); u64 d = concretize(s, A(0)), sr = concretize(s, A(1)); copyMem(s, d, sr, n, "memcpy"); return Val(); }
	case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(s, A(2)); u64 d = concretize(s, A(0)); setMem(s, d, A(1), n); return Val(); }
	case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
		::E a = ex(A(0), w), b = ex(A(1), w); ::E lt = P.bin(I.sub == Intrinsic::umin || I.sub == Intrinsic::umax ? O_ULT : O_SLT, a, b);
		return mkv((I.sub == Intrinsic::umin || I.sub == Intrinsic::smin) ? P.ite(lt, a, b) : P.ite(lt, b, a)); }
	case Intrinsic::abs: { ::E a = ex(A(0), w); return mkv(P.ite(P.bin(O_SLT, a, P.cst(0, w)), P.bin(O_SUB, P.cst(0, w), a), a)); }
	case Intrinsic::bswap: { ::E a = ex(A(0), w); ::E r = P.extract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = P.concat(r, P.extract(a, i, 8)); return mkv(r); }
	case Intrinsic::fshl: case Intrinsic::fshr: { u64 k = concretize(s, A(2)) % w; ::E a = ex(A(0), w), b = ex(A(1), w); if (k == 0) return mkv(I.sub == Intrinsic::fshl ? a : b); if (I.sub == Intrinsic::fshr) k = w - k; return mkv(P.bin(O_OR, P.bin(O_SHL, a, P.cst(k, w)), P.bin(O_LSHR, b, P.cst(w - k, w)))); }
	case Intrinsic::ctpop: { u64 v = concretize(s, A(0)); return Val(__builtin_popcountll(v & maskw(w))); }
	case Intrinsic::ctlz: { u64 v = concretize(s, A(0)) & maskw(w); return Val(v ? __builtin_clzll(v) - (64 - w) : w); }
	case Intrinsic::cttz: { u64 v = concretize(s, A(0)) & maskw(w); return Val(v ? __builtin_ctzll(v) : w); }
	case Intrinsic::objectsize: return Val((u64)-1);
	case Intrinsic::is_constant: return Val(0);
	case Intrinsic::trap: case Intrinsic::debugtrap: fail(s, "abort", "trap");
	case Intrinsic::load_relative: { u64 p = concretize(s, A(0)); Val off = A(1); Val v = loadMem(s, mkv(P.bin(O_ADD, P.cst(p, 64), ex(off, 64))), 32); return mkv(P.bin(O_ADD, P.cst(p, 64), P.sext(ex(v, 32), 64))); }
	case Intrinsic::uadd_sat: { ::E a = ex(A(0), w), b = ex(A(1), w); ::E r = P.bin(O_ADD, a, b); return mkv(P.ite(P.bin(O_ULT, r, a), P.cst(~0ull, w), r)); }
	case Intrinsic::usub_sat: { ::E a = ex(A(0), w), b = ex(A(1), w); return mkv(P.ite(P.bin(O_ULT, a, b), P.cst(0, w), P.bin(O_SUB, a, b))); }
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
		::E a = ex(A(0), w), b = ex(A(1), w); bool sg = I.sub == Intrinsic::sadd_with_overflow || I.sub == Intrinsic::ssub_with_overflow || I.sub == Intrinsic::smul_with_overflow;
		Op op = (I.sub == Intrinsic::uadd_with_overflow || I.sub == Intrinsic::sadd_with_overflow) ? O_ADD : (I.sub == Intrinsic::usub_with_overflow || I.sub == Intrinsic::ssub_with_overflow) ? O_SUB : O_MUL;
		::E r = P.bin(op, a, b), ov;
		if (w <= 32) { ::E x = sg ? P.sext(a, 64) : P.zext(a, 64), y = sg ? P.sext(b, 64) : P.zext(b, 64); ::E wide = P.bin(op, x, y); ov = P.notE(P.bin(O_EQ, wide, sg ? P.sext(r, 64) : P.zext(r, 64))); }
		else if (op == O_ADD && !sg) ov = P.bin(O_ULT, r, a);
		else if (op == O_SUB && !sg) ov = P.bin(O_ULT, a, b);
		else if (op == O_ADD) { ::E z = P.cst(0, w); ::E sa = P.bin(O_SLT, a, z), sb = P.bin(O_SLT, b, z), sr = P.bin(O_SLT, r, z); ov = P.andE(P.bin(O_EQ, sa, sb), P.notE(P.bin(O_EQ, sa, sr))); }
		else if (op == O_SUB) { ::E z = P.cst(0, w); ::E sa = P.bin(O_SLT, a, z), sb = P.bin(O_SLT, b, z), sr = P.bin(O_SLT, r, z); ov = P.andE(P.notE(P.bin(O_EQ, sa, sb)), P.notE(P.bin(O_EQ, sa, sr))); }
		else { u64 x = concretize(s, A(0)), y = concretize(s, A(1)); u64 rr; bool o = sg ? __builtin_mul_overflow((s64)x, (s64)y, (s64*)&rr) : __builtin_mul_overflow(x, y, &rr); r = P.cst(rr, 64); ov = P.cst(o, 1); }
		s.regs[f.base + I.dst + 1] = mkv(ov); return mkv(r); }
	default: incomplete("unsupported intrinsic " + std::to_string(I.sub) + " in " + f.f->name);
	}
}

static void runState(State& s) {
	for (;;) {
		if (++s.steps > maxStepsPerPath) { report(s, "hang", "no progress: step limit reached", s.pc.model); throw PathEnd{3, "steps"}; }
		++nSteps; if ((nSteps & 0xfffff) == 0 && nowS() > jobDeadline) incomplete("time limit");
		Frame& f = s.fr.back(); Inst& I = f.f->code[f.pc];
		switch (I.op) {
		case I_NOP: f.pc++; break;
		case I_MOV: s.regs[f.base + I.dst] = rd(s, f, I.a); f.pc++; break;
		case I_BIN: {
			const Val &a = rd(s, f, I.a), &b = rd(s, f, I.b);
			if (I.sub == O_UDIV || I.sub == O_SDIV || I.sub == O_UREM || I.sub == O_SREM) {
				if (!b.e) { if (!(b.v & maskw(I.w))) fail(s, "arith", "division by zero"); }
				else check(s, P.notE(P.bin(O_EQ, b.e, P.cst(0, I.w))), "arith", "division by zero");
			}
			if (a.e && !b.e && (I.sub == O_SDIV || I.sub == O_SREM) && sextw(b.v, I.w) > 1 && a.e->op != O_ZEXT && !P.singleSmall(a.e)) { // by the dividend's sign, if this path settles it
				::E x = a.e, z = P.cst(0, I.w), c = P.cst(b.v, I.w); std::vector<u64> m; Op u = I.sub == O_SDIV ? O_UDIV : O_UREM;
				if (S->feasible(s.pc, P.bin(O_SLT, x, z), &m) == 0) { s.regs[f.base + I.dst] = mkv(P.bin(u, x, c)); f.pc++; break; }
				if (S->feasible(s.pc, P.bin(O_SLT, z, x), &m) == 0) { s.regs[f.base + I.dst] = mkv(P.bin(O_SUB, z, P.bin(u, P.bin(O_SUB, z, x), c))); f.pc++; break; }
			}
			Val r = (!a.e && !b.e) ? Val(ExprPool::fold((Op)I.sub, a.v, b.v, I.w)) : mkv(P.bin((Op)I.sub, ex(a, I.w), ex(b, I.w)));
			s.regs[f.base + I.dst] = r; f.pc++; break; }
		case I_ICMP: {
			const Val &a = rd(s, f, I.a), &b = rd(s, f, I.b); unsigned w = I.w;
			if (!a.e && !b.e) { u64 x = a.v & maskw(w), y = b.v & maskw(w); s64 p = sextw(x, w), q = sextw(y, w); bool r = false;
				switch (I.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; }
				s.regs[f.base + I.dst] = Val(r); }
			else { ::E x = ex(a, w), y = ex(b, w), r = nullptr;
				switch (I.sub) { case CmpInst::ICMP_EQ: r = P.bin(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = P.notE(P.bin(O_EQ, x, y)); break; case CmpInst::ICMP_UGT: r = P.bin(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = P.bin(O_ULE, y, x); break; case CmpInst::ICMP_ULT: r = P.bin(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = P.bin(O_ULE, x, y); break; case CmpInst::ICMP_SGT: r = P.bin(O_SLT, y, x); break; case CmpInst::ICMP_SGE: r = P.bin(O_SLE, y, x); break; case CmpInst::ICMP_SLT: r = P.bin(O_SLT, x, y); break; case CmpInst::ICMP_SLE: r = P.bin(O_SLE, x, y); break; }
				s.regs[f.base + I.dst] = mkv(r); }
			f.pc++; break; }
		case I_ZEXT: { const Val& a = rd(s, f, I.a); s.regs[f.base + I.dst] = a.e ? mkv(P.zext(a.e, I.w)) : Val(a.v & maskw(I.w2)); f.pc++; break; }
		case I_SEXT: { const Val& a = rd(s, f, I.a); s.regs[f.base + I.dst] = a.e ? mkv(P.sext(a.e, I.w)) : Val((u64)sextw(a.v, I.w2) & maskw(I.w)); f.pc++; break; }
		case I_TRUNC: { const Val& a = rd(s, f, I.a); s.regs[f.base + I.dst] = a.e ? mkv(P.extract(a.e, 0, I.w)) : Val(a.v & maskw(I.w)); f.pc++; break; }
		case I_SELECT: {
			Val c = rd(s, f, I.a); const Val &x = rd(s, f, I.b), &y = rd(s, f, I.c);
			if (!c.e) s.regs[f.base + I.dst] = (c.v & 1) ? x : y;
			else if (I.sub) { bool t = decide(s, c.e); s.regs[f.base + I.dst] = t ? x : y; }
			else s.regs[f.base + I.dst] = mkv(P.ite(c.e, ex(x, I.w), ex(y, I.w)));
			f.pc++; break; }
		case I_LOAD: { Val a = rd(s, f, I.a); if (I.imm) a = a.e ? mkv(P.bin(O_ADD, a.e, P.cst(I.imm, 64))) : Val(a.v + I.imm); Val r = loadMem(s, a, I.w); s.regs[f.base + I.dst] = r; f.pc++; break; }
		case I_STORE: { Val a = rd(s, f, I.a); if (I.imm) a = a.e ? mkv(P.bin(O_ADD, a.e, P.cst(I.imm, 64))) : Val(a.v + I.imm); storeMem(s, a, I.w, rd(s, f, I.b)); f.pc++; break; }
		case I_ALLOCA: { u64 n = concretize(s, rd(s, f, I.a)) * I.imm; u32 id = s.mem.alloc((u32)n, K_STACK, "stack"); memset(s.mem.getW(id)->data, 0xA5, n); s.allocas.push_back(id); s.regs[f.base + I.dst] = Val(addrOf(id)); f.pc++; break; }
		case I_GEP: {
			const Val& a = rd(s, f, I.a); bool sym = a.e; if (I.gep) for (auto& g : *I.gep) if (rd(s, f, g.src).e) sym = true;
			if (!sym) { u64 v = a.v + I.imm; if (I.gep) for (auto& g : *I.gep) v += (u64)sextw(rd(s, f, g.src).v, g.w) * g.scale; s.regs[f.base + I.dst] = Val(v); }
			else { ::E v = P.bin(O_ADD, ex(a, 64), P.cst(I.imm, 64)); if (I.gep) for (auto& g : *I.gep) v = P.bin(O_ADD, v, P.bin(O_MUL, P.sext(ex(rd(s, f, g.src), g.w), 64), P.cst(g.scale, 64))); s.regs[f.base + I.dst] = mkv(v); }
			f.pc++; break; }
		case I_BR: takeEdge(s, f, I.e); break;
		case I_CBR: { const Val& c = rd(s, f, I.a); bool t = c.e ? decide(s, c.e) : (c.v & 1); takeEdge(s, f, t ? I.e : I.e2); break; }
		case I_SWITCH: {
			const Val& c = rd(s, f, I.a); SwitchTab* t = I.sw;
			if (!c.e) { auto it = t->map.find(c.v & maskw(I.w)); takeEdge(s, f, &t->edges[it == t->map.end() ? t->def : it->second]); break; }
			// group the cases by target
			::E ce = c.e; std::vector<::E> conds(t->edges.size(), nullptr); ::E any = P.fls();
			u64 fv; if (s.fact(ce, fv)) { auto it = t->map.find(fv); takeEdge(s, f, &t->edges[it == t->map.end() ? t->def : it->second]); break; }
			for (auto& k : t->cases) { ::E q = P.bin(O_EQ, ce, P.cst(k.first, I.w)); any = P.orE(any, q); conds[k.second] = conds[k.second] ? P.orE(conds[k.second], q) : q; }
			conds[t->def] = conds[t->def] ? P.orE(conds[t->def], P.notE(any)) : P.notE(any);
			int pick = -1; State* proto = nullptr; std::vector<std::pair<int, std::vector<u64>>> feas;
			for (size_t k = 0; k < conds.size(); ++k) if (conds[k]) { if (P.eval(conds[k], s.pc.model)) { pick = k; continue; } std::vector<u64> m; int r = S->feasible(s.pc, conds[k], &m); if (r < 0) { nIncomplete++; incompleteWhy["solver timeout"]++; } if (r == 1) feas.push_back({(int)k, m}); }
			for (auto& x : feas) { State* o = forkState(s); S->assume(o->pc, conds[x.first], x.second); takeEdge(*o, o->fr.back(), &t->edges[x.first]); work.push_back(o); }
			(void)proto; if (!feas.empty()) S->assume(s.pc, conds[pick], s.pc.model);
			takeEdge(s, s.fr.back(), &t->edges[pick]); break; }
		case I_RET: {
			std::vector<Val> rv; if (I.imm == 1) rv.push_back(rd(s, f, I.a)); else for (u64 k = 0; k < I.imm; ++k) rv.push_back(rd(s, f, (*I.gep)[k].src));
			while (s.allocas.size() > f.allocaMark) { u32 id = s.allocas.back(); s.allocas.pop_back(); s.mem.put(id, FREED); s.mem.freeStackIds.push_back(id); }
			int dst = f.retDst, n = f.nret; u32 base = f.base; s.fr.pop_back(); s.regs.resize(base);
			if (s.fr.empty()) throw PathEnd{0, ""};
			for (int k = 0; k < n; ++k) s.regs[s.fr.back().base + dst + k] = k < (int)rv.size() ? rv[k] : Val(0);
			break; }
		case I_CALLB: {
			std::vector<Val> args; args.reserve(I.ci->args.size()); for (int a : I.ci->args) args.push_back(rd(s, f, a));
			Val r = builtins[I.ci->builtin].fn(s, args); Frame& g = s.fr.back();
			if (I.ci->nret) { if (!r.e) r.v &= maskw(I.ci->retw[0]); else if (r.e->w > I.ci->retw[0]) r = mkv(P.extract(r.e, 0, I.ci->retw[0])); s.regs[g.base + I.dst] = r; } g.pc++; break; }
		case I_CALL: case I_CALLI: {
			Func* callee = I.ci->callee; int bi = -1;
			if (I.op == I_CALLI) { u64 p = concretize(s, rd(s, f, I.a)); u32 id = p >> 32; if (p < 4096) fail(s, "memory", "call through null pointer"); callee = id < funcByObj.size() && (p & 0xffffffffull) == OFF0 ? funcByObj[id] : nullptr; if (!callee) fail(s, "memory", "call through wild pointer"); bi = callee->builtin; }
			std::vector<Val> args; args.reserve(I.ci->args.size()); for (int a : I.ci->args) args.push_back(rd(s, f, a));
			if (bi >= 0) { Val r = builtins[bi].fn(s, args); Frame& g = s.fr.back(); if (I.ci->nret) { if (!r.e) r.v &= maskw(I.ci->retw[0]); else if (r.e->w > I.ci->retw[0]) r = mkv(P.extract(r.e, 0, I.ci->retw[0])); s.regs[g.base + I.dst] = r; } g.pc++; break; }
			if (callee->f->isDeclaration()) { notes.insert("missing function " + demangle(callee->name)); incomplete("missing function " + demangle(callee->name)); }
			auto bv = Compiler::byval.find(I.ci); if (bv != Compiler::byval.end()) for (auto& x : bv->second) { u32 id = s.mem.alloc((u32)x.second, K_STACK, "byval"); s.allocas.push_back(id); copyMem(s, addrOf(id), concretize(s, args[x.first]), x.second, "byval"); args[x.first] = Val(addrOf(id)); }
			s.fr.back().pc++; pushFrame(s, callee, args, I.dst, I.ci->nret); break; }
		case I_UNREACH: fail(s, "abort", "unreachable code reached");
		case I_FNEG: { u64 v = concretize(s, rd(s, f, I.a)); s.regs[f.base + I.dst] = Val(fput(-fget(v, I.w), I.w)); f.pc++; break; }
		case I_FBIN: { u64 a = concretize(s, rd(s, f, I.a)), b = concretize(s, rd(s, f, I.b)); double x = fget(a, I.w), y = fget(b, I.w), r = 0; switch (I.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } s.regs[f.base + I.dst] = Val(fput(r, I.w)); f.pc++; break; }
		case I_FCMP: { u64 a = concretize(s, rd(s, f, I.a)), b = concretize(s, rd(s, f, I.b)); double x = fget(a, I.w), y = fget(b, I.w); bool un = x != x || y != y, r = false; switch (I.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_TRUE: r = true; break; } s.regs[f.base + I.dst] = Val(r); f.pc++; break; }
		case I_FCVT: { u64 a = concretize(s, rd(s, f, I.a)); Val r; switch (I.sub) { case Instruction::FPToSI: r = Val((u64)(s64)fget(a, I.w2) & maskw(I.w)); break; case Instruction::FPToUI: r = Val((u64)fget(a, I.w2) & maskw(I.w)); break; case Instruction::SIToFP: r = Val(fput((double)sextw(a, I.w2), I.w)); break; case Instruction::UIToFP: r = Val(fput((double)(a & maskw(I.w2)), I.w)); break; default: r = Val(fput(fget(a, I.w2), I.w)); } s.regs[f.base + I.dst] = r; f.pc++; break; }
		case I_CMPXCHG: { Val a = rd(s, f, I.a); Val old = loadMem(s, a, I.w); ::E eq = P.bin(O_EQ, ex(old, I.w), ex(rd(s, f, I.b), I.w)); bool t = decide(s, eq); if (t) storeMem(s, a, I.w, rd(s, f, I.c)); s.regs[f.base + I.dst] = old; s.regs[f.base + I.dst + 1] = Val(t); f.pc++; break; }
		case I_RMW: { Val a = rd(s, f, I.a); Val old = loadMem(s, a, I.w); ::E o = ex(old, I.w), b = ex(rd(s, f, I.b), I.w), r; switch (I.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = P.bin(O_ADD, o, b); break; case AtomicRMWInst::Sub: r = P.bin(O_SUB, o, b); break; case AtomicRMWInst::And: r = P.bin(O_AND, o, b); break; case AtomicRMWInst::Or: r = P.bin(O_OR, o, b); break; case AtomicRMWInst::Xor: r = P.bin(O_XOR, o, b); break; default: incomplete("atomicrmw"); } storeMem(s, a, I.w, mkv(r)); s.regs[f.base + I.dst] = old; f.pc++; break; }
		case I_INTR: { Val r = intrin(s, f, I); Frame& g = s.fr.back(); if (I.w) s.regs[g.base + I.dst] = r; g.pc++; break; }
		case I_BAD: notes.insert((const char*)I.p); incomplete((const char*)I.p);
		}
	}
}
