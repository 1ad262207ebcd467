// Library functions and the harness API, executed natively by the engine.
typedef Val (*BuiltinFn)(State&, std::vector<Val>&);
struct Builtin { const char* name; BuiltinFn fn; };
static Val heapAlloc(State& s, const Val& n, bool zero) { u64 sz = concretize(s, n); if (sz > (160u << 20)) incomplete("allocation of " + std::to_string(sz) + " bytes"); u32 id = s.mem.alloc((u32)sz, K_HEAP, "heap"); MemObj* o = s.mem.getW(id); memset(o->data, zero ? 0 : 0xA5, sz); return Val(addrOf(id)); }
static void heapFree(State& s, u64 p) { if (!p) return; u32 id = p >> 32; MemObj* o = id ? s.mem.get(id) : nullptr; if (!o) fail(s, "memory", "free of wild pointer"); if (o == FREED) fail(s, "memory", "double free"); if (o->kind != K_HEAP || (p & 0xffffffffull) != OFF0) fail(s, "memory", "free of non-heap pointer"); s.mem.put(id, FREED); }
static Val b_malloc(State& s, std::vector<Val>& a) { return heapAlloc(s, a[0], false); }
static Val b_calloc(State& s, std::vector<Val>& a) { u64 n = concretize(s, a[0]), m = concretize(s, a[1]); return heapAlloc(s, Val(n * m), true); }
static Val b_free(State& s, std::vector<Val>& a) { heapFree(s, concretize(s, a[0])); return Val(); }
static Val b_realloc(State& s, std::vector<Val>& a) {
	u64 p = concretize(s, a[0]), n = concretize(s, a[1]); if (!p) return heapAlloc(s, Val(n), false);
	u32 id = p >> 32; MemObj* o = s.mem.get(id); if (!o || o == FREED || o->kind != K_HEAP || (p & 0xffffffffull) != OFF0) fail(s, "memory", "realloc of invalid pointer");
	u64 old = o->size; Val r = heapAlloc(s, Val(n), false); copyMem(s, r.v, p, std::min(old, n), "realloc"); heapFree(s, p); return r;
}
static Val b_memcpy(State& s, std::vector<Val>& a) { u64 n = concretize(s, a[2]); u64 d = concretize(s, a[0]), sr = concretize(s, a[1]); copyMem(s, d, sr, n, "memcpy"); return a[0]; }
static void setMem(State& s, u64 d, const Val& v, u64 n) {
	if (!n) return; u64 off; resolve(s, d, n, off, true, "memset"); MemObj* o = s.mem.getW(d >> 32);
	if (!v.e) { memset(o->data + off, (int)v.v & 255, n); if (o->sym) memset((void*)(o->sym + off), 0, n * sizeof(::E)); }
	else { ::E b = P.extract(v.e, 0, 8); needSym(o); for (u64 i = 0; i < n; ++i) o->sym[off + i] = b; }
}
static Val b_memset(State& s, std::vector<Val>& a) { u64 n = concretize(s, a[2]); u64 d = concretize(s, a[0]); Val v = a[1]; if (!v.e) v.v &= 255; setMem(s, d, v, n); return a[0]; }
static Val cmpBytes(State& s, u64 p, u64 q, u64 n) {
	if (!n) return Val(0);
	u64 po, qo; MemObj* x = resolve(s, p, n, po, false, "memcmp"); MemObj* y = resolve(s, q, n, qo, false, "memcmp");
	::E r = P.cst(0, 32);
	for (u64 i = n; i-- > 0;) {
		Val u = loadObj(x, po + i, 8), v = loadObj(y, qo + i, 8);
		if (!u.e && !v.e) { if (u.v != v.v) r = P.cst(u.v < v.v ? (u64)-1 : 1, 32); continue; }
		::E ue = ex(u, 8), ve = ex(v, 8); if (ue == ve) continue;
		r = P.ite(P.bin(O_EQ, ue, ve), r, P.ite(P.bin(O_ULT, ue, ve), P.cst((u64)-1, 32), P.cst(1, 32)));
	}
	return mkv(r);
}
static ::E eqBytes(State& s, u64 p, u64 q, u64 n) {
	::E r = P.tru(); if (!n) return r; u64 po, qo; MemObj* x = resolve(s, p, n, po, false, "sx_eq"); MemObj* y = resolve(s, q, n, qo, false, "sx_eq");
	for (u64 i = 0; i < n; ++i) r = P.andE(r, P.bin(O_EQ, ex(loadObj(x, po + i, 8), 8), ex(loadObj(y, qo + i, 8), 8)));
	return r;
}
static Val b_memcmp(State& s, std::vector<Val>& a) { u64 n = concretize(s, a[2]); return cmpBytes(s, concretize(s, a[0]), concretize(s, a[1]), n); }
static Val b_bcmp(State& s, std::vector<Val>& a) { u64 n = concretize(s, a[2]); u64 p = concretize(s, a[0]), q = concretize(s, a[1]); return mkv(P.zext(P.notE(eqBytes(s, p, q, n)), 32)); }
static bool isByte(State& s, const Val& v, u8 c) { if (!v.e) return v.v == c; return decide(s, P.bin(O_EQ, v.e, P.cst(c, 8))); }
static Val b_strlen(State& s, std::vector<Val>& a) { u64 p = concretize(s, a[0]); for (u64 i = 0;; ++i) if (isByte(s, loadMem(s, Val(p + i), 8), 0)) return Val(i); }
static Val b_memchr(State& s, std::vector<Val>& a) { u64 p = concretize(s, a[0]), n = concretize(s, a[2]); u8 c = (u8)concretize(s, a[1]); for (u64 i = 0; i < n; ++i) if (isByte(s, loadMem(s, Val(p + i), 8), c)) return Val(p + i); return Val(0); }
static Val b_strchr(State& s, std::vector<Val>& a) { u64 p = concretize(s, a[0]); u8 c = (u8)concretize(s, a[1]); for (u64 i = 0;; ++i) { Val v = loadMem(s, Val(p + i), 8); if (isByte(s, v, c)) return Val(p + i); if (isByte(s, v, 0)) return Val(0); } }
static Val strcmpN(State& s, u64 p, u64 q, u64 n) {
	for (u64 i = 0; i < n; ++i) {
		Val u = loadMem(s, Val(p + i), 8), v = loadMem(s, Val(q + i), 8); ::E eq = P.bin(O_EQ, ex(u, 8), ex(v, 8));
		if (!decide(s, eq)) return decide(s, P.bin(O_ULT, ex(u, 8), ex(v, 8))) ? Val((u64)-1 & 0xffffffff) : Val(1);
		if (isByte(s, u, 0)) return Val(0);
	}
	return Val(0);
}
static Val b_strcmp(State& s, std::vector<Val>& a) { return strcmpN(s, concretize(s, a[0]), concretize(s, a[1]), ~0ull); }
static Val b_strncmp(State& s, std::vector<Val>& a) { u64 n = concretize(s, a[2]); return strcmpN(s, concretize(s, a[0]), concretize(s, a[1]), n); }
static Val b_abort(State& s, std::vector<Val>&) { fail(s, "abort", "abort() called"); }
static Val b_pure(State& s, std::vector<Val>&) { fail(s, "memory", "pure virtual call"); }
static Val b_assertfail(State& s, std::vector<Val>& a) { fail(s, "assert", "assertion failed: " + cstr(s, concretize(s, a[0])) + " at " + cstr(s, concretize(s, a[1])) + ":" + std::to_string(a[2].v)); }
static Val b_throw(State& s, std::vector<Val>&) { fail(s, "abort", "exception thrown"); }
static Val b_zero(State&, std::vector<Val>&) { return Val(0); }
static Val b_guardacq(State& s, std::vector<Val>& a) { Val v = loadMem(s, a[0], 8); return Val(v.v == 0); }
static Val b_guardrel(State& s, std::vector<Val>& a) { storeMem(s, a[0], 8, Val(1)); return Val(); }
// ---- harness API
static std::string uniq(State& s, const std::string& n) { u64 k = s.nameCount[n]++; return n + "#" + std::to_string(k); }
// Variables are identified by name so that re-executions and sibling paths share them.
static std::map<std::pair<std::string, unsigned>, u32> varByName;
static u32 freshVar(const std::string& n, unsigned w) { auto k = std::make_pair(n, w); auto it = varByName.find(k); if (it != varByName.end()) return it->second; u32 id = P.vars.size(); P.var(n, w); varByName[k] = id; return id; }
static Val b_sx_bytes(State& s, std::vector<Val>& a) {
	u64 p = concretize(s, a[0]), n = concretize(s, a[1]); std::string nm = uniq(s, cstr(s, concretize(s, a[2])));
	InputItem in; in.name = nm; in.isInt = false; in.isFixed = false; in.lo = 0; in.fixed = 0;
	u64 off; if (n) { resolve(s, p, n, off, true, "sx_bytes"); MemObj* o = s.mem.getW(p >> 32); needSym(o); for (u64 i = 0; i < n; ++i) { u32 v = freshVar(nm + "[" + std::to_string(i) + "]", 8); in.vars.push_back(v); o->sym[off + i] = P.varRef(v); } }
	s.pc.growTo(P); s.inputs.push_back(in); return Val();
}
static Val mkInt(State& s, s64 lo, s64 hi, const std::string& name) {
	std::string nm = uniq(s, name); InputItem in; in.name = nm; in.isInt = true; in.lo = lo; in.isFixed = false; in.fixed = 0;
	if (lo > hi) throw PathEnd{1, "empty range"};
	if (lo == hi) { in.isFixed = true; in.fixed = lo; s.inputs.push_back(in); return Val((u64)lo); }
	u64 span = (u64)hi - (u64)lo; unsigned w = span <= 255 ? 8 : 64; u32 v = freshVar(nm + "/" + std::to_string(lo) + ".." + std::to_string(hi), w); s.pc.growTo(P); in.vars.push_back(v); s.inputs.push_back(in);
	::E x = P.varRef(v);
	if (w == 8) { Bits256 d = Bits256::range((unsigned)span + 1); s.pc.dom[v] = s.pc.dom[v] & d; return mkv(P.bin(O_ADD, P.zext(x, 64), P.cst((u64)lo, 64))); }
	if (span != ~0ull) { ::E c = P.bin(O_ULE, x, P.cst(span, 64)); S->addCons(s.pc, c); }
	return mkv(P.bin(O_ADD, x, P.cst((u64)lo, 64)));
}
static Val b_sx_int(State& s, std::vector<Val>& a) { return mkInt(s, (s64)concretize(s, a[0]), (s64)concretize(s, a[1]), cstr(s, concretize(s, a[2]))); }
static Val b_sx_assume(State& s, std::vector<Val>& a) {
	if (!a[0].e) { if (!(a[0].v & 1)) throw PathEnd{1, "assume"}; return Val(); }
	::E c = P.extract(a[0].e, 0, 1); std::vector<u64> m; int r = S->feasible(s.pc, c, &m); if (r < 0) incomplete("solver timeout in assume"); if (!r) throw PathEnd{1, "assume"}; S->assume(s.pc, c, m); return Val();
}
static Val b_sx_assert(State& s, std::vector<Val>& a) {
	std::string msg = cstr(s, concretize(s, a[1])); ::E c = a[0].e ? P.extract(a[0].e, 0, 1) : P.cst(a[0].v & 1, 1);
	check(s, c, "property", msg); return Val();
}
static Val b_sx_cover(State& s, std::vector<Val>& a) { static std::set<std::string> names; auto it = names.insert(cstr(s, concretize(s, a[0]))).first; s.covers.push_back(it->c_str()); return Val(); }
static Val b_sx_out(State& s, std::vector<Val>& a) { TraceItem t; t.label = cstr(s, concretize(s, a[0])); u64 p = concretize(s, a[1]), n = concretize(s, a[2]); for (u64 i = 0; i < n; ++i) t.bytes.push_back(loadMem(s, Val(p + i), 8)); s.trace.push_back(t); return Val(); }
static Val b_sx_outint(State& s, std::vector<Val>& a) { TraceItem t; t.label = cstr(s, concretize(s, a[0])); for (int i = 0; i < 8; ++i) t.bytes.push_back(a[1].e ? mkv(P.extract(a[1].e, i * 8, 8)) : Val((a[1].v >> (8 * i)) & 255)); s.trace.push_back(t); return Val(); }
static Val b_sx_concrete(State& s, std::vector<Val>& a) { return Val(concretize(s, a[0])); }
static Val b_sx_param(State& s, std::vector<Val>& a) { u64 i = concretize(s, a[0]); return Val(i < params.size() ? (u64)params[i] : 0); }
static Val b_sx_symbolic(State&, std::vector<Val>&) { return Val(1); }
static Val b_sx_eq(State& s, std::vector<Val>& a) { u64 n = concretize(s, a[2]); u64 p = concretize(s, a[0]), q = concretize(s, a[1]); return mkv(P.zext(eqBytes(s, p, q, n), 32)); }
static Val b_sx_issym(State& s, std::vector<Val>& a) { u64 n = concretize(s, a[1]), p = concretize(s, a[0]); for (u64 i = 0; i < n; ++i) if (loadMem(s, Val(p + i), 8).e) return Val(1); return Val(0); }
static Val b_sx_note(State& s, std::vector<Val>& a) { std::string m = cstr(s, concretize(s, a[0])); if (dumpTrace) fprintf(stderr, "note: %s %lld\n", m.c_str(), a.size() > 1 && !a[1].e ? (long long)a[1].v : -1LL); return Val(); }
static Val b_sx_alive(State& s, std::vector<Val>& a) { u64 p = concretize(s, a[0]); MemObj* o = s.mem.get(p >> 32); return Val(o && o != FREED); }
static Val b_sx_objsize(State& s, std::vector<Val>& a) { u64 p = concretize(s, a[0]); MemObj* o = s.mem.get(p >> 32); return Val(o && o != FREED ? o->size : 0); }

static Val b_sx_unmodelled(State& s, std::vector<Val>& a) { incomplete("unmodelled: " + cstr(s, concretize(s, a[0]))); return Val(); }

static Builtin builtins[] = {
	{"sx_unmodelled", b_sx_unmodelled},
	{"malloc", b_malloc}, {"calloc", b_calloc}, {"free", b_free}, {"realloc", b_realloc}, {"_Znwm", b_malloc}, {"_Znam", b_malloc}, {"_ZdlPv", b_free}, {"_ZdlPvm", b_free}, {"_ZdaPv", b_free}, {"_ZdaPvm", b_free}, {"_ZnwmRKSt9nothrow_t", b_malloc}, {"_ZnamRKSt9nothrow_t", b_malloc},
	{"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_bcmp}, {"strlen", b_strlen}, {"memchr", b_memchr}, {"strchr", b_strchr}, {"strcmp", b_strcmp}, {"strncmp", b_strncmp},
	{"abort", b_abort}, {"_ZSt9terminatev", b_abort}, {"__cxa_pure_virtual", b_pure}, {"__assert_fail", b_assertfail}, {"_ZSt25__throw_bad_function_callv", b_throw}, {"_ZSt17__throw_bad_allocv", b_throw}, {"_ZSt20__throw_length_errorPKc", b_throw}, {"_ZSt28__throw_bad_array_new_lengthv", b_throw}, {"__cxa_throw", b_throw},
	{"__cxa_atexit", b_zero}, {"__cxa_guard_acquire", b_guardacq}, {"__cxa_guard_release", b_guardrel},
	{"sx_bytes", b_sx_bytes}, {"sx_int", b_sx_int}, {"sx_assume", b_sx_assume}, {"sx_assert", b_sx_assert}, {"sx_cover", b_sx_cover}, {"sx_out", b_sx_out}, {"sx_out_int", b_sx_outint}, {"sx_concrete", b_sx_concrete}, {"sx_param", b_sx_param}, {"sx_symbolic", b_sx_symbolic}, {"sx_eq", b_sx_eq}, {"sx_issym", b_sx_issym}, {"sx_note", b_sx_note}, {"sx_alive", b_sx_alive}, {"sx_objsize", b_sx_objsize},
};
