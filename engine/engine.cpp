// Symbolic executor for LLVM 18 bitcode. See DESIGN.md.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <set>
#include <deque>
#include <cmath>
#include <fstream>
#include <sstream>

using namespace llvm;

static ExprPool P;
static Solver* S;

// ------------------------------------------------------------------ values
struct Val { u64 v; ::E e; Val() : v(0), e(nullptr) {} Val(u64 x) : v(x), e(nullptr) {} bool sym() const { return e; } };
static inline Val mkv(::E e) { Val r; if (e->isConst()) r.v = e->c; else r.e = e; return r; }
static inline ::E ex(const Val& v, unsigned w) { return v.e ? v.e : P.cst(v.v, w); }

// ------------------------------------------------------------------ memory
enum Kind : u8 { K_GLOBAL, K_HEAP, K_STACK, K_FUNC, K_EXT };
struct MemObj { u32 rc; u32 size; u8* data; ::E* sym; Kind kind; bool ro; const char* name; u32 tag; };
static const u64 OFF0 = 0x10000000ull;
static inline u64 addrOf(u32 id, u64 off = 0) { return ((u64)id << 32) + OFF0 + off; }
static MemObj* newObj(u32 size, Kind k, const char* name) { MemObj* o = new MemObj; o->rc = 1; o->size = size; o->data = (u8*)malloc(size ? size : 1); o->sym = nullptr; o->kind = k; o->ro = false; o->name = name; o->tag = 0; return o; }
static void unref(MemObj* o) { if (o && --o->rc == 0) { free(o->data); free(o->sym); delete o; } }
static MemObj* cloneObj(MemObj* o) { MemObj* n = new MemObj(*o); n->rc = 1; n->data = (u8*)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size); if (o->sym) { n->sym = (::E*)malloc(sizeof(::E) * (o->size + 1)); memcpy((void*)n->sym, o->sym, sizeof(::E) * o->size); } return n; }

enum { CH = 64 };
struct Chunk { u32 rc; MemObj* o[CH]; };
static MemObj* const FREED = (MemObj*)1;
struct Memory {
	std::vector<Chunk*> ch; u32 next = 1; std::vector<u32> freeStackIds;
	Memory() {}
	Memory(const Memory& m) : ch(m.ch), next(m.next), freeStackIds(m.freeStackIds) { for (auto* c : ch) if (c) c->rc++; }
	Memory& operator=(const Memory&) = delete;
	~Memory() { for (auto* c : ch) dropChunk(c); }
	static void dropChunk(Chunk* c) { if (c && --c->rc == 0) { for (int i = 0; i < CH; ++i) if (c->o[i] && c->o[i] != FREED) unref(c->o[i]); delete c; } }
	MemObj* get(u32 id) const { u32 c = id / CH; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id % CH]; }
	void put(u32 id, MemObj* o) { // takes ownership of one reference
		u32 c = id / CH; while (ch.size() <= c) ch.push_back(nullptr);
		if (!ch[c]) { ch[c] = new Chunk; ch[c]->rc = 1; memset(ch[c]->o, 0, sizeof ch[c]->o); }
		else if (ch[c]->rc > 1) { Chunk* n = new Chunk(*ch[c]); n->rc = 1; for (int i = 0; i < CH; ++i) if (n->o[i] && n->o[i] != FREED) n->o[i]->rc++; ch[c]->rc--; ch[c] = n; }
		MemObj*& slot = ch[c]->o[id % CH]; if (slot && slot != FREED) unref(slot); slot = o;
	}
	MemObj* getW(u32 id) { // writable
		u32 c = id / CH; Chunk* k = ch[c]; MemObj* o = k->o[id % CH];
		if (k->rc == 1 && o->rc == 1) return o;
		MemObj* n = cloneObj(o); put(id, n); return n;
	}
	u32 alloc(u32 size, Kind k, const char* name) {
		u32 id; if (k == K_STACK && !freeStackIds.empty()) { id = freeStackIds.back(); freeStackIds.pop_back(); } else id = next++;
		put(id, newObj(size, k, name)); return id;
	}
};
static void needSym(MemObj* o) { if (!o->sym) o->sym = (::E*)calloc(o->size + 1, sizeof(::E)); }

// ------------------------------------------------------------------ bytecode
enum IOp : uint16_t { I_NOP, I_MOV, I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_SELECT, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_CALLB, I_CALLI, I_UNREACH,
	I_FBIN, I_FCMP, I_FCVT, I_CMPXCHG, I_RMW, I_INTR, I_FNEG, I_BAD };
struct Move { int dst, src; };
struct Edge { int target; std::vector<Move> moves; };
struct GepIdx { int src; unsigned w; u64 scale; };
struct SwitchTab { std::vector<std::pair<u64, int>> cases; std::unordered_map<u64, int> map; int def; std::vector<Edge> edges; };
struct CallInfo { std::vector<int> args; std::vector<u8> argw; int nret; std::vector<u8> retw; struct Func* callee; int builtin; };
struct Inst { IOp op; uint16_t sub; u8 w, w2; int dst, a, b, c; u64 imm; union { void* p; Edge* e; SwitchTab* sw; CallInfo* ci; std::vector<GepIdx>* gep; }; Edge* e2; const Instruction* src; Inst() { memset((void*)this, 0, sizeof *this); } };
struct Func { Function* f; std::string name; bool compiled = false; int nregs = 0; std::vector<Val> consts; std::vector<Inst> code; std::vector<int> argSlots; u64 addr = 0; bool fromRepo = false; u64 calls = 0; int builtin = -1; std::string file; };

static LLVMContext* LC; static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*, Func*> funcs; static std::vector<Func*> funcByObj; // by object id
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::string repoPrefix = "/repo";

// ------------------------------------------------------------------ state
struct Frame { Func* f; u32 pc; u32 base; u32 allocaMark; int retDst; int nret; };
struct TraceItem { std::string label; std::vector<Val> bytes; };
struct InputItem { std::string name; std::vector<u32> vars; bool isInt; s64 lo; s64 fixed; bool isFixed; };
struct State {
	std::vector<Val> regs; std::vector<Frame> fr; Memory mem; PathCond pc; std::vector<u32> allocas;
	std::vector<TraceItem> trace; std::vector<InputItem> inputs; std::vector<const char*> covers; u64 steps = 0; u32 forks = 0; std::map<std::string,u64> nameCount;
	std::vector<std::pair<::E, u64>> facts; // expressions with a value implied on this path
	bool fact(::E e, u64& v) const { size_t n = facts.size(); for (size_t i = n, lim = n > 48 ? n - 48 : 0; i-- > lim;) if (facts[i].first == e) { v = facts[i].second; return true; } return false; }
};

struct Violation { std::string msg, kind, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, std::string>> outs; };
struct Sample { std::vector<std::pair<std::string, std::string>> inputs, outs; };

static std::vector<State*> work; static std::vector<Violation> viols; static std::vector<Sample> samples, partials; static std::map<std::string, u64> coverCount; static std::set<std::string> notes;
static u64 nPaths = 0, nInfeasible = 0, nSteps = 0, nForks = 0, nIncomplete = 0, nAsserts = 0; static std::map<std::string, u64> incompleteWhy;
static std::vector<s64> params; static u64 maxStepsPerPath = 30000000; static double jobDeadline = 1e18; static u64 maxPaths = ~0ull; static unsigned maxViol = 3; static unsigned maxSamples = 3; static u64 sampleStride = 1;
static bool dumpTrace = false; static const char* entryName; static u64 vseed = 1;

struct PathEnd { int kind; std::string msg; }; // thrown: 0 finished, 1 assumption false, 2 incomplete, 3 violation already recorded
struct Resched {};                             // thrown: re-execute current instruction (state was constrained)

// ------------------------------------------------------------------ helper: locations
static std::string locOf(const Instruction* i) {
	if (!i) return "?"; std::string r;
	if (const DILocation* d = i->getDebugLoc().get()) { r = d->getFilename().str() + ":" + std::to_string(d->getLine()); if (d->getScope() && d->getScope()->getSubprogram()) r += " (" + d->getScope()->getSubprogram()->getName().str() + ")"; for (const DILocation* x = d->getInlinedAt(); x; x = x->getInlinedAt()) r += " <- " + x->getFilename().str() + ":" + std::to_string(x->getLine()); }
	else r = i->getFunction()->getName().str();
	return r;
}
static std::vector<std::string> backtrace(State& s) {
	std::vector<std::string> r;
	for (size_t k = s.fr.size(); k-- > 0;) { Frame& f = s.fr[k]; u32 pc = f.pc; if (k + 1 < s.fr.size() && pc) pc--; r.push_back(demangle(f.f->name) + " at " + (pc < f.f->code.size() ? locOf(f.f->code[pc].src) : "?")); if (r.size() > 40) break; }
	return r;
}
static std::string hex(const std::vector<u8>& b) { static const char* h = "0123456789abcdef"; std::string r; for (u8 c : b) { r += h[c >> 4]; r += h[c & 15]; } return r; }
static void fillInputs(State& s, const std::vector<u64>& m, std::vector<std::pair<std::string, std::string>>& out) {
	for (auto& in : s.inputs) {
		if (in.isInt) { s64 v; if (in.isFixed) v = in.fixed; else { v = in.lo + (s64)m[in.vars[0]]; } out.push_back({in.name, "i" + std::to_string(v)}); }
		else { std::vector<u8> b; for (u32 v : in.vars) b.push_back((u8)m[v]); out.push_back({in.name, "x" + hex(b)}); }
	}
}
static void fillOuts(State& s, const std::vector<u64>& m, std::vector<std::pair<std::string, std::string>>& out) {
	for (auto& t : s.trace) { std::vector<u8> b; for (auto& v : t.bytes) b.push_back((u8)(v.e ? P.eval(v.e, m) : v.v)); out.push_back({t.label, hex(b)}); }
}
static void report(State& s, const std::string& kind, const std::string& msg, const std::vector<u64>& m) {
	Violation v; v.kind = kind; v.msg = msg; v.stack = backtrace(s); v.where = v.stack.empty() ? "" : v.stack[0];
	fillInputs(s, m, v.inputs); fillOuts(s, m, v.outs); viols.push_back(v);
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.pc.model); throw PathEnd{3, msg}; }
[[noreturn]] static void incomplete(const std::string& why) { throw PathEnd{2, why}; }

// ------------------------------------------------------------------ forking helpers
static State* forkState(State& s) { State* n = new State(s); s.forks++; n->forks++; nForks++; return n; }
// Decide a boolean. May fork: the other branch's state re-executes the current instruction.
static bool decide(State& s, ::E c) {
	if (c->isConst()) return c->c;
	u64 fv; if (s.fact(c, fv)) return fv;
	bool cur = P.eval(c, s.pc.model);
	::E other = cur ? P.notE(c) : c; ::E mine = cur ? c : P.notE(c);
	std::vector<u64> m; static const char* slow = getenv("SX_SLOWC"); double t0 = slow ? nowS() : 0; int r = S->feasible(s.pc, other, &m);
	if (slow && nowS() - t0 > atof(slow)) { fprintf(stderr, "slow decision %.2fs, %zu vars\n", nowS() - t0, c->vars->size()); for (auto& l : backtrace(s)) fprintf(stderr, "   %s\n", l.c_str()); }
	if (r < 0) { incompleteWhy["solver timeout"]++; nIncomplete++; r = 0; }
	if (r == 1) { State* o = forkState(s); S->assume(o->pc, other, m); o->facts.push_back({c, !cur}); work.push_back(o); S->assume(s.pc, mine, s.pc.model); }
	s.facts.push_back({c, cur});
	// If the other side is infeasible the constraint is implied; nothing to add.
	return cur;
}
// All feasible values of e (bounded).
typedef std::vector<std::pair<u32, Bits256>> Doms;
static bool enumVals(State& s, ::E e, size_t limit, std::vector<std::pair<u64, std::vector<u64>>>& out, std::vector<Doms>* doms = nullptr) {
	if (P.singleSmall(e)) {
		u32 v = (*e->vars)[0]; unsigned n = 1u << P.vars[v].w; auto& l = P.rootLanes(e);
		std::map<u64, unsigned> seen; for (unsigned i = 0; i < n; ++i) if (s.pc.dom[v].get(i)) seen.emplace(l[i], i);
		if (seen.size() == 1 || !s.pc.inMulti[v]) { for (auto& x : seen) { std::vector<u64> m = s.pc.model; if (P.eval(e, m) != x.first) m[v] = x.second; out.push_back({x.first, m}); } return out.size() <= limit; }
	}
	// Few combinations of small variables: list them, filtered by the constraints that touch them.
	{
		std::vector<u32> vs; std::vector<::E> cs;
		if (S->smallSlice(s.pc, e, 5000, vs, cs)) {
			std::map<u64, size_t> seen; bool over = false;
			S->eachAssignment(s.pc, vs, cs, [&](const std::vector<u64>& m) {
				u64 v = P.eval(e, m); auto it = seen.find(v);
				if (it == seen.end()) { it = seen.emplace(v, out.size()).first; out.push_back({v, m}); if (out.size() > limit) { over = true; return false; } if (doms) { doms->push_back({}); for (u32 x : vs) doms->back().push_back({x, Bits256::none()}); } }
				if (doms) { auto& d = (*doms)[it->second]; for (size_t i = 0; i < vs.size(); ++i) d[i].second.set((unsigned)m[vs[i]]); }
				return true; });
			return !over;
		}
	}
	PathCond tmp = s.pc; std::vector<u64> m = s.pc.model;
	while (out.size() <= limit) {
		u64 v = P.eval(e, m); out.push_back({v, m});
		::E ne = P.notE(P.bin(O_EQ, e, P.cst(v, e->w)));
		std::vector<u64> m2; int r = S->feasible(tmp, ne, &m2); if (r < 0) return false; if (r == 0) return true;
		S->assume(tmp, ne, m2); m = m2;
	}
	return false;
}
// Concrete value of v; forks over all feasible values (the others re-execute the current instruction).
static u64 concretize(State& s, const Val& v, size_t limit = 1024) {
	if (!v.e) return v.v;
	u64 fv; if (s.fact(v.e, fv)) return fv;
	std::vector<std::pair<u64, std::vector<u64>>> vals; std::vector<Doms> doms; static const char* slow = getenv("SX_SLOWC"); struct Tm { State& s; ::E e; double t0; ~Tm() { if (slow && nowS() - t0 > atof(slow)) { fprintf(stderr, "slow concretize %.2fs, %zu vars\n", nowS() - t0, e->vars->size()); for (auto& l : backtrace(s)) { fprintf(stderr, "   %s\n", l.c_str()); } } } } tm{s, v.e, slow ? nowS() : 0};
	if (!enumVals(s, v.e, limit, vals, &doms)) incomplete("too many values to fork over at " + (backtrace(s).empty() ? std::string() : backtrace(s)[0]));
	if (vals.size() == 1) { s.facts.push_back({v.e, vals[0].first}); return vals[0].first; }
	auto narrow = [&](State& o, size_t i) { S->assume(o.pc, P.bin(O_EQ, v.e, P.cst(vals[i].first, v.e->w)), vals[i].second); if (i < doms.size()) for (auto& d : doms[i]) o.pc.dom[d.first] = o.pc.dom[d.first] & d.second; o.facts.push_back({v.e, vals[i].first}); };
	for (size_t i = 1; i < vals.size(); ++i) { State* o = forkState(s); narrow(*o, i); work.push_back(o); }
	narrow(s, 0);
	return vals[0].first;
}
// Assert a condition: verdict by the solver over all values of this path.
static void check(State& s, ::E c, const std::string& kind, const std::string& msg) {
	nAsserts++; S->st.assertQueries++;
	if (c->isConst()) { S->st.assertFolded++; if (c->c) return; fail(s, kind, msg); }
	::E n = P.notE(c); std::vector<u64> m; int r;
	if (!P.eval(c, s.pc.model)) { m = s.pc.model; r = 1; } else { std::vector<std::pair<u32, u64>> mv; r = S->query(s.pc, {n}, &mv); if (r == 1) { m = s.pc.model; for (auto& x : mv) m[x.first] = x.second; } }
	if (r < 0) { incompleteWhy["solver timeout on assertion"]++; nIncomplete++; return; }
	if (r == 1) { report(s, kind, msg, m); std::vector<u64> m2; if (S->feasible(s.pc, c, &m2) == 1) { S->assume(s.pc, c, m2); return; } throw PathEnd{3, msg}; }
	S->st.assertDischarged++;
}

// ------------------------------------------------------------------ memory access
static MemObj* resolve(State& s, u64 addr, u64 n, u64& off, bool write, const char* what) {
	u32 id = addr >> 32; off = (addr & 0xffffffffull) - OFF0; MemObj* o = id ? s.mem.get(id) : nullptr;
	if (addr < 4096) fail(s, "memory", std::string("null pointer ") + what);
	if (!o) fail(s, "memory", std::string("wild pointer ") + what);
	if (o == FREED) fail(s, "memory", std::string("use after free: ") + what);
	if ((s64)off < 0 || off + n > o->size) fail(s, "memory", std::string("out of bounds ") + what + " of " + std::to_string(n) + " bytes at offset " + std::to_string((s64)off) + " of object of size " + std::to_string(o->size) + (o->name ? std::string(" (") + o->name + ")" : ""));
	if (o->kind == K_FUNC) fail(s, "memory", std::string("data access to function ") + what);
	if (write && o->ro) fail(s, "memory", std::string("write to read-only memory ") + (o->name ? o->name : ""));
	return o;
}
static Val loadObj(MemObj* o, u64 off, unsigned w) {
	unsigned n = (w + 7) / 8; bool anySym = false;
	if (o->sym) for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { anySym = true; break; }
	if (!anySym) { u64 v = 0; memcpy(&v, o->data + off, n); return Val(v & maskw(w)); }
	::E r = o->sym[off] ? o->sym[off] : P.cst(o->data[off], 8);
	for (unsigned i = 1; i < n; ++i) r = P.concat(o->sym[off + i] ? o->sym[off + i] : P.cst(o->data[off + i], 8), r);
	if (w < n * 8) r = P.extract(r, 0, w);
	return mkv(r);
}
static void storeObj(MemObj* o, u64 off, unsigned w, const Val& v) {
	unsigned n = (w + 7) / 8;
	if (!v.e) { u64 x = v.v & maskw(w); memcpy(o->data + off, &x, n); if (o->sym) for (unsigned i = 0; i < n; ++i) o->sym[off + i] = nullptr; return; }
	needSym(o); ::E e = v.e; if (w < n * 8) e = P.zext(e, n * 8);
	for (unsigned i = 0; i < n; ++i) { ::E b = P.extract(e, i * 8, 8); if (b->isConst()) { o->data[off + i] = (u8)b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
}
static Val loadMem(State& s, const Val& a, unsigned w) {
	if (!a.e) { u64 off; MemObj* o = resolve(s, a.v, (w + 7) / 8, off, false, "read"); return loadObj(o, off, w); }
	// base + a few bits into a constant table: all addresses at once if none can be out of bounds
	{
		::E e = a.e; u64 base = 0; if (e->op == O_ADD && e->k[1]->isConst()) { base = e->k[1]->c; e = e->k[0]; } unsigned sh = 0; ::E y = e; if (y->op == O_CONCAT && y->k[1]->isConst() && !y->k[1]->c) { sh = y->k[1]->w; y = y->k[0]; } while (y->op == O_ZEXT) y = y->k[0];
		if (y->w <= 6 && y->op == O_EXTRACT && !P.singleSmall(y) && P.zext(y, e->w - sh) == (sh ? e->k[0] : e) && base >= 4096) {
			MemObj* o = s.mem.get(base >> 32); bool ok = o && o != FREED && o->ro; u64 span = 1ull << y->w; s64 off0 = (s64)((base & 0xffffffffull) - OFF0);
			if (ok && off0 >= 0) {
				while (span && off0 + (((span - 1) << sh) + (w + 7) / 8) > o->size) { u64 v = --span; std::vector<u64> m; if (S->feasible(s.pc, P.bin(O_EQ, y, P.cst(v, y->w)), &m) != 0) { ok = false; break; } }
				if (ok && span) { ::E r = nullptr; for (u64 i = span; i-- > 0;) { ::E v = ex(loadObj(o, off0 + (i << sh), w), w); r = r ? P.ite(P.bin(O_EQ, y, P.cst(i, y->w)), v, r) : v; } return mkv(r); }
			}
		}
	}
	// symbolic address: enumerate feasible addresses
	std::vector<std::pair<u64, std::vector<u64>>> vals;
	if (!enumVals(s, a.e, 1024, vals)) incomplete("symbolic address with too many values");
	std::sort(vals.begin(), vals.end(), [](const std::pair<u64, std::vector<u64>>& x, const std::pair<u64, std::vector<u64>>& y) { return x.first < y.first; });
	if (vals.size() == 1) { u64 off; MemObj* o = resolve(s, vals[0].first, (w + 7) / 8, off, false, "read"); return loadObj(o, off, w); }
	bool sameObj = true; for (auto& x : vals) { u32 id = x.first >> 32; MemObj* o = s.mem.get(id); u64 off = (x.first & 0xffffffffull) - OFF0; if (!o || o == FREED || id != vals[0].first >> 32 || (s64)off < 0 || off + (w + 7) / 8 > o->size) sameObj = false; }
	if (!sameObj || !s.mem.get(vals[0].first >> 32)->ro) { u64 c = concretize(s, a); u64 off; MemObj* o = resolve(s, c, (w + 7) / 8, off, false, "read"); return loadObj(o, off, w); }
	std::map<::E, ::E> byVal; std::vector<::E> order; MemObj* o = s.mem.get(vals[0].first >> 32);
	for (auto& x : vals) { ::E v = ex(loadObj(o, (x.first & 0xffffffffull) - OFF0, w), w); ::E c = P.bin(O_EQ, a.e, P.cst(x.first, 64)); auto it = byVal.find(v); if (it == byVal.end()) { byVal[v] = c; order.push_back(v); } else it->second = P.orE(it->second, c); }
	::E r = order.back(); for (size_t i = order.size() - 1; i-- > 0;) r = P.ite(byVal[order[i]], order[i], r);
	if (!r->isConst() && P.singleSmall(r)) P.rootLanes(r);
	return mkv(r);
}
static void storeMem(State& s, const Val& a, unsigned w, const Val& v) {
	u64 addr = concretize(s, a); u64 off; resolve(s, addr, (w + 7) / 8, off, true, "write"); storeObj(s.mem.getW(addr >> 32), off, w, v);
}
static void copyMem(State& s, u64 d, u64 sr, u64 n, const char* what) {
	if (!n) return; u64 so, doff; MemObj* src = resolve(s, sr, n, so, false, what); resolve(s, d, n, doff, true, what);
	MemObj* dst = s.mem.getW(d >> 32); if ((sr >> 32) == (d >> 32)) src = dst;
	if (src->sym) needSym(dst);
	memmove(dst->data + doff, src->data + so, n);
	if (dst->sym) { if (src->sym) memmove((void*)(dst->sym + doff), src->sym + so, n * sizeof(::E)); else memset((void*)(dst->sym + doff), 0, n * sizeof(::E)); }
}
static std::string cstr(State& s, u64 a) { std::string r; for (;;) { Val v = loadMem(s, Val(a + r.size()), 8); if (v.e) { r += '?'; if (r.size() > 200) return r; continue; } if (!v.v) return r; r += (char)v.v; if (r.size() > 4000) return r; } }

#include "compile.inc"
#include "builtins.inc"
#include "interp.inc"
#include "main.inc"
