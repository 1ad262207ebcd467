// Path-condition store and Z3 back end: domains for small variables, independence slicing, query cache.
#pragma once
#include <set>
#include <memory>
#include "expr.h"
#include <z3++.h>
#include <chrono>
#include <functional>

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct PathCond {
	std::vector<Bits256> dom;            // per variable (width <= 8); indexes pool vars
	std::vector<E> cons;                 // constraints over several variables or wide variables
	std::vector<u8> inMulti;             // variable occurs in some element of cons
	std::vector<u64> model;              // satisfies everything above
	void growTo(const ExprPool& P) {
		while (dom.size() < P.vars.size()) { unsigned w = P.vars[dom.size()].w; dom.push_back(w <= 8 ? Bits256::range(1u << w) : Bits256::none()); inMulti.push_back(0); model.push_back(0); }
	}
};

struct Stats { u64 queries = 0, qSat = 0, qUnsat = 0, qUnknown = 0, cacheHits = 0, domainDecisions = 0, modelHits = 0, assertQueries = 0, assertFolded = 0, assertDischarged = 0, pathQueries = 0, pathUnsat = 0; double solverS = 0; };

struct Solver {
	ExprPool& P; z3::context ctx; Stats st; unsigned timeoutMs = 60000;
	std::vector<z3::expr*> keep;
	struct CacheEnt { int res; std::vector<std::pair<u32, u64>> model; };
	std::map<std::vector<u64>, CacheEnt> cache;
	std::map<std::string, u32> domIds;
	Solver(ExprPool& p) : P(p) {}
	// Division by a constant: the quotient is a fresh value tied to the dividend by multiplication, which bit-blasts much better than a divider.
	std::unordered_map<std::string, z3::expr*> quot; std::unordered_map<E, std::vector<z3::expr>> defs, defsN;
	bool trDiv(E e, const z3::expr& a, z3::expr& r) {
		E k = e->k[1]; if (!k->isConst() || k->c < 2) return false; unsigned w = e->w; bool sg = e->op == O_SDIV || e->op == O_SREM, quo = e->op == O_SDIV || e->op == O_UDIV; if (sg && sextw(k->c, w) < 2) return false;
		z3::expr neg = a < ctx.bv_val(0, w), x = sg ? z3::ite(neg, -a, a) : a, c = ctx.bv_val((uint64_t)k->c, w);
		std::string key = std::to_string(e->k[0]->id) + (sg ? "s" : "u") + std::to_string(k->c); auto it = quot.find(key);
		if (it == quot.end()) it = quot.emplace(key, new z3::expr(ctx.bv_const(("q" + key).c_str(), w))).first;
		const z3::expr& q = *it->second; u64 top = maskw(w) / k->c; defsN[e].push_back(q == z3::udiv(x, c)); std::vector<z3::expr>& d = defs[e]; d.push_back(z3::ule(q, ctx.bv_val((uint64_t)top, w))); d.push_back(z3::ule(q * c, x)); d.push_back(z3::ult(x - q * c, c));
		r = quo ? q : x - q * c; if (sg) r = z3::ite(neg, -r, r); return true;
	}
	void addDefs(z3::solver& s, E e, std::set<E>& seen, bool native) { if (!e->div || !seen.insert(e).second) return; auto& t = native ? defsN : defs; auto it = t.find(e); if (it != t.end()) for (auto& d : it->second) s.add(d); for (E k : e->k) if (k) addDefs(s, k, seen, native); }
	bool addAll(z3::solver& s, const std::vector<E>& es, bool native = false) { std::set<E> seen; bool div = false; for (E e : es) { s.add(tr(e)); div |= e->div; addDefs(s, e, seen, native); } return div; }
	z3::expr tr(E e) {
		if (e->z3ast) return *(z3::expr*)e->z3ast;
		z3::expr r(ctx);
		auto B = [&](E x) { return tr(x); };
		switch (e->op) {
		case O_CONST: r = e->w == 1 ? ctx.bool_val(e->c != 0) : ctx.bv_val((uint64_t)e->c, e->w); break;
		case O_VAR: { std::string n = "v" + std::to_string(e->c); r = e->w == 1 ? (ctx.bv_const(n.c_str(), 1) == ctx.bv_val(1, 1)) : ctx.bv_const(n.c_str(), e->w); break; }
		case O_ITE: r = z3::ite(B(e->k[0]), B(e->k[1]), B(e->k[2])); break;
		case O_ZEXT: if (e->k[0]->w == 1) r = z3::ite(B(e->k[0]), ctx.bv_val(1, e->w), ctx.bv_val(0, e->w)); else r = z3::zext(B(e->k[0]), e->w - e->k[0]->w); break;
		case O_SEXT: if (e->k[0]->w == 1) r = z3::ite(B(e->k[0]), ctx.bv_val((uint64_t)maskw(e->w), e->w), ctx.bv_val(0, e->w)); else r = z3::sext(B(e->k[0]), e->w - e->k[0]->w); break;
		case O_EXTRACT: r = tbv(e->k[0]).extract((unsigned)e->c + e->w - 1, (unsigned)e->c); if (e->w == 1) r = (r == ctx.bv_val(1, 1)); break;
		case O_CONCAT: r = z3::concat(tbv(e->k[0]), tbv(e->k[1])); break;
		case O_EQ: r = B(e->k[0]) == B(e->k[1]); break;
		default: {
			z3::expr a = tbv(e->k[0]), b = tbv(e->k[1]);
			if (e->k[0]->w == 1) {
				z3::expr x = B(e->k[0]), y = B(e->k[1]);
				if (e->op == O_AND) { r = x && y; break; } if (e->op == O_OR) { r = x || y; break; } if (e->op == O_XOR) { r = x != y; break; }
			}
			switch (e->op) {
			case O_ADD: r = a + b; break; case O_SUB: r = a - b; break; case O_MUL: r = a * b; break;
			case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: if (trDiv(e, a, r)) break; r = e->op == O_UDIV ? z3::udiv(a, b) : e->op == O_SDIV ? a / b : e->op == O_UREM ? z3::urem(a, b) : z3::srem(a, b); break;
			case O_AND: r = a & b; break; case O_OR: r = a | b; break; case O_XOR: r = a ^ b; break;
			case O_SHL: r = z3::shl(a, b); break; case O_LSHR: r = z3::lshr(a, b); break; case O_ASHR: r = z3::ashr(a, b); break;
			case O_ULT: r = z3::ult(a, b); break; case O_ULE: r = z3::ule(a, b); break; case O_SLT: r = a < b; break; case O_SLE: r = a <= b; break;
			default: abort();
			}
			if (e->w == 1 && r.is_bv()) r = (r == ctx.bv_val(1, 1));
		}
		}
		e->z3ast = new z3::expr(r);
		return r;
	}
	z3::expr tbv(E e) { z3::expr r = tr(e); if (r.is_bool()) return z3::ite(r, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); return r; }
	z3::expr domExpr(u32 v, const Bits256& d) {
		unsigned w = P.vars[v].w; z3::expr x = tbv(P.varRef(v)); z3::expr_vector alts(ctx);
		unsigned n = 1u << w;
		for (unsigned i = 0; i < n;) { if (!d.get(i)) { ++i; continue; } unsigned j = i; while (j + 1 < n && d.get(j + 1)) ++j; if (i == j) alts.push_back(x == ctx.bv_val(i, w)); else alts.push_back(z3::uge(x, ctx.bv_val(i, w)) && z3::ule(x, ctx.bv_val(j, w))); i = j + 1; }
		return z3::mk_or(alts);
	}
	u32 domId(const Bits256& d) { std::string k((const char*)d.b, 32); auto it = domIds.find(k); if (it != domIds.end()) return it->second; u32 id = domIds.size() + 1; domIds[k] = id; return id; }

	// Z3's own verdict on a finished path's whole condition (branches over single bytes are decided by exact truth tables on the way).
	int pathSat(const PathCond& pc) {
		double t0 = nowS(); z3::solver s(ctx, "QF_BV"); z3::params p(ctx); p.set("timeout", 5000u); s.set(p);
		addAll(s, pc.cons);
		for (u32 v = 0; v < pc.dom.size(); ++v) if (P.vars[v].w <= 8) { unsigned n = 1u << P.vars[v].w; if ((unsigned)pc.dom[v].count() != n) s.add(domExpr(v, pc.dom[v])); }
		z3::check_result r; try { r = s.check(); } catch (z3::exception&) { r = z3::unknown; }
		st.queries++; st.pathQueries++; if (r == z3::sat) st.qSat++; else if (r == z3::unsat) { st.qUnsat++; st.pathUnsat++; } else st.qUnknown++;
		st.solverS += nowS() - t0; return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
	}
	// Is pc AND extra satisfiable? 1 sat, 0 unsat, -1 unknown. On sat, `out` gets values of the variables of the slice.
	int query(const PathCond& pc, const std::vector<E>& extra, std::vector<std::pair<u32, u64>>* out) {
		// slice
		std::vector<char> inV(P.vars.size(), 0); std::vector<u32> work; std::vector<char> used(pc.cons.size(), 0);
		auto addV = [&](const VarSet* vs) { for (u32 v : *vs) if (!inV[v]) { inV[v] = 1; work.push_back(v); } };
		for (E e : extra) addV(e->vars);
		std::vector<E> sl;
		bool ch = true;
		while (ch) { ch = false; for (size_t i = 0; i < pc.cons.size(); ++i) if (!used[i]) { bool hit = false; for (u32 v : *pc.cons[i]->vars) if (inV[v]) { hit = true; break; } if (hit) { used[i] = 1; sl.push_back(pc.cons[i]); addV(pc.cons[i]->vars); ch = true; } } }
		// substitute variables with a single possible value
		std::unordered_map<u32, u64> fixed;
		for (u32 v : work) if (P.vars[v].w <= 8 && pc.dom[v].count() == 1) fixed[v] = pc.dom[v].first();
		std::vector<E> all; std::unordered_map<E, E> memo;
		for (E e : sl) { E x = fixed.empty() ? e : P.subst(e, fixed, memo); if (x->isConst()) { if (!x->c) return 0; continue; } all.push_back(x); }
		for (E e : extra) { E x = fixed.empty() ? e : P.subst(e, fixed, memo); if (x->isConst()) { if (!x->c) { st.domainDecisions++; return 0; } continue; } all.push_back(x); }
		std::sort(all.begin(), all.end(), [](E a, E b) { return a->id < b->id; }); all.erase(std::unique(all.begin(), all.end()), all.end());
		std::vector<u32> vs; { const VarSet* u = P.emptySet; for (E e : all) u = P.uni(u, e->vars); vs = *u; }
		std::vector<u64> key; for (E e : all) key.push_back(e->id); key.push_back(~0ull);
		for (u32 v : vs) if (P.vars[v].w <= 8) { key.push_back(v); key.push_back(domId(pc.dom[v])); }
		auto it = cache.find(key);
		if (it != cache.end()) st.cacheHits++;
		else {
			double t0 = nowS(); CacheEnt ce;
			bool div = false; for (E e : all) div |= e->div; z3::check_result r = z3::unknown; std::unique_ptr<z3::solver> sp;
			// with divisions: the multiplication encoding first for a while, then Z3's divider, then either for longer
			for (int attempt = 0; attempt < (div ? 4 : 1) && r == z3::unknown; ++attempt) {
				sp.reset(new z3::solver(ctx, "QF_BV")); z3::params p(ctx); p.set("timeout", div ? (attempt < 2 ? 4000u : timeoutMs / 2) : timeoutMs); sp->set(p);
				addAll(*sp, all, attempt & 1);
				for (u32 v : vs) if (P.vars[v].w <= 8) { unsigned n = 1u << P.vars[v].w; if ((unsigned)pc.dom[v].count() != n) sp->add(domExpr(v, pc.dom[v])); }
				try { r = sp->check(); } catch (z3::exception&) { r = z3::unknown; }
			}
			z3::solver& s = *sp;
			st.queries++; ce.res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
			if (r == z3::sat) { st.qSat++; z3::model m = s.get_model(); for (u32 v : vs) { unsigned w = P.vars[v].w; z3::expr x = ctx.bv_const(("v" + std::to_string(v)).c_str(), w); uint64_t val = 0; m.eval(x, true).is_numeral_u64(val); ce.model.push_back({v, val}); } }
			else if (r == z3::unsat) st.qUnsat++; else st.qUnknown++;
			double dt = nowS() - t0; st.solverS += dt;
			if (getenv("SX_SLOWQ") && dt > atof(getenv("SX_SLOWQ"))) fprintf(stderr, "slow query %.2fs res %d: %s\n", dt, ce.res, s.to_smt2().c_str());
			it = cache.emplace(key, ce).first;
		}
		if (it->second.res == 1 && out) {
			*out = it->second.model; for (auto& f : fixed) out->push_back(f);
			// slice variables that vanished by substitution keep any domain value compatible with the old model
		}
		return it->second.res;
	}
	// The variables that matter for e and the constraints over them, if they have few combined values.
	bool smallSlice(const PathCond& pc, E e, double cap, std::vector<u32>& vs, std::vector<E>& cs) {
		vs.assign(e->vars->begin(), e->vars->end()); std::vector<char> used(pc.cons.size(), 0); bool ch = true;
		while (ch) { ch = false; for (size_t i = 0; i < used.size(); ++i) if (!used[i]) { bool hit = false; for (u32 v : *pc.cons[i]->vars) if (std::find(vs.begin(), vs.end(), v) != vs.end()) { hit = true; break; } if (hit) { used[i] = 1; ch = true; cs.push_back(pc.cons[i]); for (u32 v : *pc.cons[i]->vars) if (std::find(vs.begin(), vs.end(), v) == vs.end()) vs.push_back(v); } } }
		double prod = 1; for (u32 v : vs) { if (P.vars[v].w > 8) return false; prod *= pc.dom[v].count(); if (prod > cap) return false; }
		return true;
	}
	template <class F> void eachAssignment(const PathCond& pc, const std::vector<u32>& vs, const std::vector<E>& cs, F f) { // f(model) -> false to stop
		std::vector<std::vector<u64>> ds; for (u32 v : vs) { ds.push_back({}); for (unsigned i = 0; i < (1u << P.vars[v].w); ++i) if (pc.dom[v].get(i)) ds.back().push_back(i); }
		std::vector<size_t> ix(vs.size(), 0); std::vector<u64> m = pc.model;
		for (;;) {
			for (size_t i = 0; i < vs.size(); ++i) m[vs[i]] = ds[i][ix[i]];
			bool okc = true; for (E c : cs) if (!P.eval(c, m)) { okc = false; break; }
			if (okc && !f(m)) return;
			size_t k = 0; while (k < ix.size() && ++ix[k] == ds[k].size()) ix[k++] = 0; if (k == ix.size()) return;
		}
	}
	// Could `c` be true under pc? If yes and m given, m gets a complete satisfying assignment.
	int feasible(PathCond& pc, E c, std::vector<u64>* m) {
		if (c->isConst()) { if (c->c && m) *m = pc.model; return c->c; }
		if (P.eval(c, pc.model)) { st.modelHits++; if (m) *m = pc.model; return 1; }
		if (P.singleSmall(c)) {
			u32 v = (*c->vars)[0]; Bits256 d = pc.dom[v] & P.truth(c);
			if (d.empty()) { st.domainDecisions++; return 0; }
			if (!pc.inMulti[v]) { st.domainDecisions++; if (m) { *m = pc.model; (*m)[v] = d.first(); } return 1; }
		}
		{ std::vector<u32> vs; std::vector<E> cs; if (smallSlice(pc, c, 1500, vs, cs)) { st.domainDecisions++; int r = 0; eachAssignment(pc, vs, cs, [&](const std::vector<u64>& a) { if (!P.eval(c, a)) return true; r = 1; if (m) *m = a; return false; }); return r; } }
		std::vector<std::pair<u32, u64>> mv; int r = query(pc, {c}, &mv);
		if (r == 1 && m) { *m = pc.model; for (auto& x : mv) (*m)[x.first] = x.second; }
		return r;
	}
	// Add c (known feasible, `m` satisfies it together with pc).
	void assume(PathCond& pc, E c, const std::vector<u64>& m) {
		pc.model = m; addCons(pc, c);
	}
	void addCons(PathCond& pc, E c) {
		if (c->isConst()) return;
		if (c->w == 1 && c->op == O_AND) { addCons(pc, c->k[0]); addCons(pc, c->k[1]); return; }
		if (P.singleSmall(c)) { u32 v = (*c->vars)[0]; pc.dom[v] = pc.dom[v] & P.truth(c); return; }
		for (E e : pc.cons) if (e == c) return;
		pc.cons.push_back(c); for (u32 v : *c->vars) pc.inMulti[v] = 1;
	}
};
