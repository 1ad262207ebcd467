// Hash-consed bit-vector expressions (width 1..64) with simplification, plus per-variable domains.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef uint8_t u8;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s64 sextw(u64 v, unsigned w) { if (w >= 64) return (s64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (s64)((v ^ m) - m); }

enum Op : u8 { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE };

struct Bits256 {
	u64 b[4];
	bool operator==(const Bits256& o) const { return !memcmp(b, o.b, sizeof b); }
	bool get(unsigned i) const { return (b[i >> 6] >> (i & 63)) & 1; }
	void set(unsigned i) { b[i >> 6] |= 1ull << (i & 63); }
	bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
	int count() const { return __builtin_popcountll(b[0]) + __builtin_popcountll(b[1]) + __builtin_popcountll(b[2]) + __builtin_popcountll(b[3]); }
	int first() const { for (int i = 0; i < 4; ++i) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; }
	static Bits256 none() { Bits256 r; memset(r.b, 0, sizeof r.b); return r; }
	static Bits256 range(unsigned n) { Bits256 r = none(); for (unsigned i = 0; i < n; ++i) r.set(i); return r; }
	Bits256 operator&(const Bits256& o) const { Bits256 r; for (int i = 0; i < 4; ++i) r.b[i] = b[i] & o.b[i]; return r; }
	Bits256 andnot(const Bits256& o) const { Bits256 r; for (int i = 0; i < 4; ++i) r.b[i] = b[i] & ~o.b[i]; return r; }
};

typedef std::vector<u32> VarSet; // sorted

struct Expr {
	Op op; u8 w; bool div; u32 id; u64 c;
	const Expr* k[3];
	const VarSet* vars;
	mutable Bits256* tt;     // truth table for boolean expressions over one byte variable
	mutable void* z3ast; mutable u64 evStamp, evVal; mutable const std::vector<u64>* ln;
	bool isConst() const { return op == O_CONST; }
};
typedef const Expr* E;

struct VarInfo { std::string name; unsigned w; };

struct ExprPool {
	struct Key { Op op; u8 w; u64 c; E k0, k1, k2; bool operator==(const Key& o) const { return op == o.op && w == o.w && c == o.c && k0 == o.k0 && k1 == o.k1 && k2 == o.k2; } };
	struct KeyHash { size_t operator()(const Key& k) const { u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }; mix(k.c); mix((u64)k.k0); mix((u64)k.k1); mix((u64)k.k2); return h; } };
	std::unordered_map<Key, E, KeyHash> tab;
	std::vector<VarInfo> vars;
	std::map<VarSet, const VarSet*> varsets;
	std::map<std::pair<const VarSet*, const VarSet*>, const VarSet*> unionCache;
	const VarSet* emptySet;
	u32 nextId = 1;
	ExprPool() { emptySet = internSet(VarSet()); }
	const VarSet* internSet(const VarSet& v) { auto it = varsets.find(v); if (it != varsets.end()) return it->second; auto* p = new VarSet(v); varsets[v] = p; return p; }
	const VarSet* uni(const VarSet* a, const VarSet* b) {
		if (a == b || b->empty()) return a; if (a->empty()) return b;
		auto key = std::make_pair(std::min(a, b), std::max(a, b));
		auto it = unionCache.find(key); if (it != unionCache.end()) return it->second;
		VarSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
		return unionCache[key] = internSet(r);
	}
	E mk(Op op, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr) {
		Key key{op, (u8)w, c, a, b, d};
		auto it = tab.find(key); if (it != tab.end()) return it->second;
		Expr* e = new Expr; e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = nextId++; e->tt = nullptr; e->z3ast = nullptr; e->evStamp = 0; e->evVal = 0; e->ln = nullptr; e->div = (op >= O_UDIV && op <= O_SREM) || (a && a->div) || (b && b->div) || (d && d->div);
		if (op == O_VAR) { VarSet s; s.push_back((u32)c); e->vars = internSet(s); }
		else { const VarSet* v = emptySet; for (int i = 0; i < 3; ++i) if (e->k[i]) v = uni(v, e->k[i]->vars); e->vars = v; }
		tab[key] = e; return e;
	}
	E cst(u64 v, unsigned w) { return mk(O_CONST, w, v & maskw(w)); }
	E var(const std::string& name, unsigned w) { vars.push_back(VarInfo{name, w}); return mk(O_VAR, w, vars.size() - 1); }
	E varRef(u32 idx) { return mk(O_VAR, vars[idx].w, idx); }
	E tru() { return cst(1, 1); } E fls() { return cst(0, 1); }

	static u64 fold(Op op, u64 a, u64 b, unsigned w) {
		u64 m = maskw(w); a &= m; b &= m;
		switch (op) {
		case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
		case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? (a % b) & m : a;
		case O_SDIV: { s64 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
		case O_SREM: { s64 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
		case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
		case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
		case O_ASHR: { s64 x = sextw(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
		case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
		case O_SLT: return sextw(a, w) < sextw(b, w); case O_SLE: return sextw(a, w) <= sextw(b, w);
		default: abort();
		}
	}
	E notE(E a) {
		assert(a->w == 1);
		if (a->isConst()) return cst(!a->c, 1);
		if (a->op == O_XOR && a->k[1]->isConst()) return a->k[0];
		return mk(O_XOR, 1, 0, a, tru());
	}
	E andE(E a, E b) { return bin(O_AND, a, b); }
	E orE(E a, E b) { return bin(O_OR, a, b); }
	E ite(E c, E a, E b) {
		assert(a->w == b->w && c->w == 1);
		if (c->isConst()) return c->c ? a : b;
		if (a == b) return a;
		if (c->op == O_XOR && c->k[1]->isConst()) return ite(c->k[0], b, a);
		if (a->w == 1) {
			if (a->isConst() && b->isConst()) return a->c ? c : notE(c);
			if (a->isConst()) return a->c ? orE(c, b) : andE(notE(c), b);
			if (b->isConst()) return b->c ? orE(notE(c), a) : andE(c, a);
		}
		if (b->op == O_ITE && b->k[1] == a) return ite(orE(c, b->k[0]), a, b->k[2]);
		if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
		if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
		if (a == b) return a;
		// u == 0 ? -u : u
		if (c->op == O_EQ && c->k[1]->isConst() && !c->k[1]->c && a->op == O_SUB && a->k[0]->isConst() && !a->k[0]->c && a->k[1] == b && b->op == O_ZEXT && b->k[0] == c->k[0]) return b;
		return mk(O_ITE, a->w, 0, c, a, b);
	}
	// a is x / c (unsigned), possibly truncated to the bits a quotient can have and widened again
	static bool asUdiv(E a, E& x, u64& c) {
		while (a->op == O_ZEXT) a = a->k[0];
		unsigned nb = a->w; if (a->op == O_EXTRACT && a->c == 0) a = a->k[0];
		if (a->op != O_UDIV || !a->k[1]->isConst() || a->k[1]->c < 2) return false;
		u64 top = maskw(a->w) / a->k[1]->c; if (nb < 64 && (top >> nb)) return false; x = a->k[0]; c = a->k[1]->c; return true;
	}
	E zext(E a, unsigned w) {
		if (a->w == w) return a; assert(w > a->w);
		if (a->isConst()) return cst(a->c, w);
		if (a->op == O_ZEXT) return mk(O_ZEXT, w, 0, a->k[0]);
		if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return ite(a->k[0], cst(a->k[1]->c, w), cst(a->k[2]->c, w));
		return mk(O_ZEXT, w, 0, a);
	}
	E sext(E a, unsigned w) {
		if (a->w == w) return a; assert(w > a->w);
		if (a->isConst()) return cst((u64)sextw(a->c, a->w), w);
		if (a->op == O_ZEXT) return mk(O_ZEXT, w, 0, a->k[0]);
		if (a->op == O_SEXT) return mk(O_SEXT, w, 0, a->k[0]);
		if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
		return mk(O_SEXT, w, 0, a);
	}
	E extract(E a, unsigned off, unsigned w) {
		if (off == 0 && a->w == w) return a; assert(off + w <= a->w);
		switch (a->op) {
		case O_CONST: return cst(a->c >> off, w);
		case O_EXTRACT: return extract(a->k[0], off + (unsigned)a->c, w);
		case O_CONCAT: { unsigned lw = a->k[1]->w; if (off >= lw) return extract(a->k[0], off - lw, w); if (off + w <= lw) return extract(a->k[1], off, w);
			return concat(extract(a->k[0], 0, off + w - lw), extract(a->k[1], off, lw - off)); }
		case O_ZEXT: { unsigned iw = a->k[0]->w; if (off >= iw) return cst(0, w); if (off + w <= iw) return extract(a->k[0], off, w); if (off == 0) return zext(a->k[0], w); return zext(extract(a->k[0], off, iw - off), w); }
		case O_SEXT: { unsigned iw = a->k[0]->w; if (off + w <= iw) return extract(a->k[0], off, w); if (off == 0) return sext(a->k[0], w); break; }
		case O_ITE: if ((a->k[1]->isConst() || a->k[1]->op == O_ITE || a->k[1]->op == O_ZEXT || a->k[1]->op == O_SEXT) && (a->k[2]->isConst() || a->k[2]->op == O_ITE || a->k[2]->op == O_ZEXT || a->k[2]->op == O_SEXT)) return ite(a->k[0], extract(a->k[1], off, w), extract(a->k[2], off, w)); break;
		case O_AND: case O_OR: case O_XOR: if (a->k[1]->isConst()) return bin(a->op, extract(a->k[0], off, w), extract(a->k[1], off, w)); break;
		case O_ADD: case O_SUB: case O_MUL: if (off == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w)); break;
		case O_SHL: if (off == 0 && a->k[1]->isConst() && a->k[1]->c < w) return bin(O_SHL, extract(a->k[0], 0, w), cst(a->k[1]->c, w)); break;
		default: break;
		}
		return mk(O_EXTRACT, w, off, a);
	}
	E concat(E hi, E lo) {
		unsigned w = hi->w + lo->w; assert(w <= 64);
		if (hi->isConst() && lo->isConst()) return cst((hi->c << lo->w) | lo->c, w);
		if (hi->isConst() && hi->c == 0) return zext(lo, w);
		if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return extract(hi->k[0], (unsigned)lo->c, w);
		if (hi->op == O_EXTRACT && hi->k[0] == lo && hi->c == lo->w) return extract(lo, 0, w); // impossible, widths
		if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
			return concat(extract(hi->k[0], (unsigned)lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
		return mk(O_CONCAT, w, 0, hi, lo);
	}
	static bool comm(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }
	E bin(Op op, E a, E b) {
		assert(a->w == b->w);
		unsigned w = a->w; bool cmp = op >= O_EQ && op <= O_SLE; unsigned rw = cmp ? 1 : w;
		if (a->isConst() && b->isConst()) return cst(fold(op, a->c, b->c, w), rw);
		if (comm(op) && a->isConst()) std::swap(a, b);
		if (comm(op) && !b->isConst() && a->id > b->id) std::swap(a, b);
		const bool bc = b->isConst(), ac = a->isConst(); const u64 m = maskw(w);
		switch (op) {
		case O_ADD:
			if (bc && b->c == 0) return a;
			if (bc && a->op == O_ADD && a->k[1]->isConst()) return bin(O_ADD, a->k[0], cst(a->k[1]->c + b->c, w));
			if (bc && a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
			break;
		case O_SUB:
			if (ac && a->c == 0 && b->op == O_SUB && b->k[0]->isConst() && b->k[0]->c == 0) return b->k[1];
			if (bc) return bin(O_ADD, a, cst(0 - b->c, w));
			if (a == b) return cst(0, w);
			if (a->op == O_ADD && a->k[1]->isConst() && a->k[0] == b) return a->k[1];
			if (a->op == O_ADD && b->op == O_ADD && a->k[0] == b->k[0] && a->k[1]->isConst() && b->k[1]->isConst()) return cst(a->k[1]->c - b->k[1]->c, w);
			break;
		case O_MUL:
			if (bc && b->c == 0) return b; if (bc && b->c == 1) return a;
			if (bc && (b->c & (b->c - 1)) == 0) return bin(O_SHL, a, cst(__builtin_ctzll(b->c), w));
			break;
		case O_SDIV: case O_SREM:
			if (bc && sextw(b->c, w) > 0 && a->op == O_ZEXT) return bin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
			if (op == O_SDIV && bc && sextw(b->c, w) > 0 && a->op == O_SDIV && a->k[1]->isConst() && sextw(a->k[1]->c, w) > 0) { unsigned __int128 pr = (unsigned __int128)b->c * a->k[1]->c, top = (unsigned __int128)(m >> 1) + 1; if (pr < top) return bin(O_SDIV, a->k[0], cst((u64)pr, w)); if (pr > top) return cst(0, w); }
			if (bc && b->c == 1) return op == O_SDIV ? a : cst(0, w);
			break;
		case O_UDIV:
			{ E x; u64 c; if (bc && b->c > 1 && asUdiv(a, x, c)) { unsigned __int128 pr = (unsigned __int128)b->c * c; if (pr > maskw(x->w)) return cst(0, w); E q = bin(O_UDIV, x, cst((u64)pr, x->w)); return q->w > w ? extract(q, 0, w) : zext(q, w); } }
			if (bc && b->c && a->op == O_ZEXT) { unsigned iw = a->k[0]->w; return b->c > maskw(iw) ? cst(0, w) : zext(bin(O_UDIV, a->k[0], cst(b->c, iw)), w); }
			if (bc && b->c == 1) return a;
			if (bc && b->c && (b->c & (b->c - 1)) == 0) return bin(O_LSHR, a, cst(__builtin_ctzll(b->c), w));
			if (bc && b->c > 1) { unsigned nb = 64 - __builtin_clzll(m / b->c); if (m / b->c == 0) nb = 1; if (nb < w) return zext(mk(O_EXTRACT, nb, 0, mk(O_UDIV, w, 0, a, b)), w); }
			break;
		case O_UREM:
			if (bc && b->c && a->op == O_ZEXT) { unsigned iw = a->k[0]->w; return b->c > maskw(iw) ? a : zext(bin(O_UREM, a->k[0], cst(b->c, iw)), w); }
			if (bc && b->c == 1) return cst(0, w);
			if (bc && b->c && (b->c & (b->c - 1)) == 0) return bin(O_AND, a, cst(b->c - 1, w));
			if (bc && b->c > 1) { unsigned nb = 64 - __builtin_clzll(b->c - 1); if (nb < w) return zext(mk(O_EXTRACT, nb, 0, mk(O_UREM, w, 0, a, b)), w); }
			break;
		case O_AND:
			if (a == b) return a;
			if (bc && b->c == 0) return b; if (bc && b->c == m) return a;
			if (bc && a->op == O_AND && a->k[1]->isConst()) return bin(O_AND, a->k[0], cst(a->k[1]->c & b->c, w));
			if (w == 1) { if (notE(a) == b) return fls(); }
			if (bc && a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if ((b->c & maskw(iw)) == maskw(iw)) return a; return zext(bin(O_AND, a->k[0], cst(b->c, iw)), w); }
			if (bc && (b->c & (b->c + 1)) == 0) { unsigned lw = __builtin_popcountll(b->c); return zext(extract(a, 0, lw), w); }
			break;
		case O_OR:
			if (a == b) return a;
			if (bc && b->c == 0) return a; if (bc && b->c == m) return b;
			if (w == 1 && notE(a) == b) return tru();
			if (bc && a->op == O_ZEXT) { unsigned nb = std::max<unsigned>(a->k[0]->w, 64 - __builtin_clzll(b->c)); if (nb < w) return zext(bin(O_OR, zext(a->k[0], nb), cst(b->c, nb)), w); }
			break;
		case O_XOR:
			if (a == b) return cst(0, w);
			if (bc && b->c == 0) return a;
			if (bc && a->op == O_XOR && a->k[1]->isConst()) return bin(O_XOR, a->k[0], cst(a->k[1]->c ^ b->c, w));
			break;
		case O_SHL: case O_LSHR:
			if (bc && b->c == 0) return a;
			if (bc && b->c >= w) return cst(0, w);
			if (bc && op == O_LSHR) return zext(extract(a, (unsigned)b->c, w - (unsigned)b->c), w);
			if (bc && op == O_SHL) return concat(extract(a, 0, w - (unsigned)b->c), cst(0, (unsigned)b->c));
			break;
		case O_ASHR: if (bc && b->c == 0) return a; break;
		case O_EQ:
			if (a == b) return tru();
			if (w == 1) { if (bc) return b->c ? a : notE(a); }
			if (bc) {
				if (a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c & ~maskw(iw)) return fls(); return bin(O_EQ, a->k[0], cst(b->c, iw)); }
				if (a->op == O_SEXT) { unsigned iw = a->k[0]->w; if (((u64)sextw(b->c, iw) & m) != b->c) return fls(); return bin(O_EQ, a->k[0], cst(b->c, iw)); }
				if (a->op == O_ADD && a->k[1]->isConst()) return bin(O_EQ, a->k[0], cst(b->c - a->k[1]->c, w));
				if (a->op == O_SUB && a->k[0]->isConst()) return bin(O_EQ, a->k[1], cst(a->k[0]->c - b->c, w));
				{ E x; u64 c; if (asUdiv(a, x, c)) { unsigned xw = x->w; u64 xm = maskw(xw); unsigned __int128 lo = (unsigned __int128)b->c * c, hi = lo + c - 1; if (lo > xm) return fls(); E r = notE(bin(O_ULT, x, cst((u64)lo, xw))); return hi >= xm ? r : andE(r, notE(bin(O_ULT, cst((u64)hi, xw), x))); } }
				if (a->op == O_SDIV && b->c == 0 && a->k[1]->isConst() && sextw(a->k[1]->c, w) > 0) return andE(bin(O_SLT, cst(0 - a->k[1]->c, w), a->k[0]), bin(O_SLT, a->k[0], a->k[1]));
				if (a->op == O_XOR && a->k[1]->isConst()) return bin(O_EQ, a->k[0], cst(b->c ^ a->k[1]->c, w));
				if (a->op == O_CONCAT) return andE(bin(O_EQ, a->k[0], cst(b->c >> a->k[1]->w, a->k[0]->w)), bin(O_EQ, a->k[1], cst(b->c, a->k[1]->w)));
				if (a->op == O_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return ite(a->k[0], bin(O_EQ, a->k[1], b), bin(O_EQ, a->k[2], b));
			} else {
				if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w) return andE(bin(O_EQ, a->k[0], b->k[0]), bin(O_EQ, a->k[1], b->k[1]));
				if (a->op == b->op && (a->op == O_ZEXT || a->op == O_SEXT) && a->k[0]->w == b->k[0]->w) return bin(O_EQ, a->k[0], b->k[0]);
			}
			break;
		case O_ULT:
			if (a == b) return fls();
			if (bc && b->c == 0) return fls(); if (bc && b->c == 1) return bin(O_EQ, a, cst(0, w));
			if (ac && a->c == m) return fls();
			// |y| <= c written as an unsigned range check
			if (bc && a->op == O_ADD && a->k[1]->isConst() && b->c == 2 * a->k[1]->c + 1 && a->k[1]->c < m / 4) { E y = a->k[0]; if (y->op == O_SUB && y->k[0]->isConst() && !y->k[0]->c) y = y->k[1]; if (y->op == O_ZEXT) return bin(O_ULT, y, cst(a->k[1]->c + 1, w)); }
			{ E x; u64 c; if (bc && asUdiv(a, x, c)) { unsigned __int128 pr = (unsigned __int128)b->c * c; return pr > maskw(x->w) ? tru() : bin(O_ULT, x, cst((u64)pr, x->w)); }
			if (ac && asUdiv(b, x, c)) { unsigned __int128 pr = ((unsigned __int128)a->c + 1) * c; return pr > maskw(x->w) ? fls() : notE(bin(O_ULT, x, cst((u64)pr, x->w))); } }
			if (bc && a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c > maskw(iw)) return tru(); return bin(O_ULT, a->k[0], cst(b->c, iw)); }
			if (ac && b->op == O_ZEXT) { unsigned iw = b->k[0]->w; if (a->c >= maskw(iw)) return fls(); return bin(O_ULT, cst(a->c, iw), b->k[0]); }
			if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return bin(O_ULT, a->k[0], b->k[0]);
			break;
		case O_ULE: return notE(bin(O_ULT, b, a));
		case O_SLE: return notE(bin(O_SLT, b, a));
		case O_SLT:
			if (a == b) return fls();
			if (bc && b->c == 0 && a->op == O_SUB && a->k[0]->isConst() && a->k[0]->c == 0 && a->k[1]->op == O_ZEXT) return notE(bin(O_EQ, a->k[1]->k[0], cst(0, a->k[1]->k[0]->w)));
			if (ac && a->c == 0 && b->op == O_SUB && b->k[0]->isConst() && b->k[0]->c == 0 && b->k[1]->op == O_ZEXT) return fls();
			if (ac && a->c == 0 && b->op == O_SDIV && b->k[1]->isConst() && sextw(b->k[1]->c, w) > 0) return notE(bin(O_SLT, b->k[0], b->k[1]));
			if (bc && b->c == 0 && a->op == O_SDIV && a->k[1]->isConst() && sextw(a->k[1]->c, w) > 0) return notE(bin(O_SLT, cst(0 - a->k[1]->c, w), a->k[0]));
			if (bc && a->op == O_ZEXT) { if (sextw(b->c, w) <= 0) return fls(); return bin(O_ULT, a, b); }
			if (ac && b->op == O_ZEXT) { if (sextw(a->c, w) < 0) return tru(); return bin(O_ULT, a, b); }
			if (a->op == O_ZEXT && b->op == O_ZEXT) return bin(O_ULT, a, b);
			if (bc && a->op == O_SEXT) { unsigned iw = a->k[0]->w; s64 v = sextw(b->c, w); s64 lo = -(s64)(1ull << (iw - 1)), hi = (s64)(1ull << (iw - 1)) - 1; if (v > hi) return tru(); if (v <= lo) return fls(); return bin(O_SLT, a->k[0], cst((u64)v, iw)); }
			if (ac && b->op == O_SEXT) { unsigned iw = b->k[0]->w; s64 v = sextw(a->c, w); s64 lo = -(s64)(1ull << (iw - 1)), hi = (s64)(1ull << (iw - 1)) - 1; if (v >= hi) return fls(); if (v < lo) return tru(); return bin(O_SLT, cst((u64)v, iw), b->k[0]); }
			break;
		default: break;
		}
		return mk(op, rw, 0, a, b);
	}

	// Evaluation under a full assignment.
	u64 stamp = 0;
	u64 eval(E e, const std::vector<u64>& asg) { if (e->op == O_CONST) return e->c; if (e->op == O_VAR) return asg[e->c] & maskw(e->w); ++stamp; return evalRec(e, asg); }
	u64 evalRec(E e, const std::vector<u64>& asg) {
		if (e->op == O_CONST) return e->c; if (e->op == O_VAR) return asg[e->c] & maskw(e->w);
		if (e->evStamp == stamp) return e->evVal;
		if (e->ln) return (*e->ln)[asg[(*e->vars)[0]] & 255]; if (e->tt) return e->tt->get(asg[(*e->vars)[0]] & 255);
		u64 r;
		if (e->op == O_ITE) r = evalRec(e->k[0], asg) ? evalRec(e->k[1], asg) : evalRec(e->k[2], asg);
		else { u64 a = evalRec(e->k[0], asg), b = e->k[1] ? evalRec(e->k[1], asg) : 0; r = apply(e, a, b); }
		e->evStamp = stamp; e->evVal = r; return r;
	}
	static u64 apply(E e, u64 a, u64 b) {
		switch (e->op) {
		case O_ZEXT: return a; case O_SEXT: return (u64)sextw(a, e->k[0]->w) & maskw(e->w);
		case O_EXTRACT: return (a >> e->c) & maskw(e->w); case O_CONCAT: return ((a << e->k[1]->w) | b) & maskw(e->w);
		default: return fold(e->op, a, b, e->k[0]->w);
		}
	}
	// All 256 (or 2^w) values of an expression over one variable of width <= 8.
	typedef std::vector<u64> Lanes;
	void lanes(E e, unsigned n, std::unordered_map<E, Lanes>& memo) {
		if (memo.count(e)) return;
		if (e->ln) { memo.emplace(e, *e->ln); return; }
		Lanes r(n);
		if (e->tt) { for (unsigned i = 0; i < n; ++i) r[i] = e->tt->get(i); memo.emplace(e, std::move(r)); return; }
		if (e->op == O_CONST) { for (auto& x : r) x = e->c; }
		else if (e->op == O_VAR) { for (unsigned i = 0; i < n; ++i) r[i] = i; }
		else {
			for (int i = 0; i < 3; ++i) if (e->k[i]) lanes(e->k[i], n, memo);
			const Lanes& a = memo[e->k[0]];
			if (e->op == O_ITE) { const Lanes &x = memo[e->k[1]], &y = memo[e->k[2]]; for (unsigned i = 0; i < n; ++i) r[i] = a[i] ? x[i] : y[i]; }
			else if (e->k[1]) { const Lanes& b = memo[e->k[1]]; for (unsigned i = 0; i < n; ++i) r[i] = apply(e, a[i], b[i]); }
			else for (unsigned i = 0; i < n; ++i) r[i] = apply(e, a[i], 0);
		}
		memo.emplace(e, std::move(r));
	}
	const Lanes& rootLanes(E e) { if (!e->ln) { unsigned n = 1u << vars[(*e->vars)[0]].w; std::unordered_map<E, Lanes> memo; lanes(e, n, memo); e->ln = new Lanes(memo[e]); } return *e->ln; }
	bool singleSmall(E e) const { return e->vars->size() == 1 && vars[(*e->vars)[0]].w <= 8; }
	const Bits256& truth(E e) { // e boolean over one small var
		if (e->tt) return *e->tt;
		std::unordered_map<E, Lanes> memo; unsigned n = 1u << vars[(*e->vars)[0]].w; lanes(e, n, memo);
		Bits256* t = new Bits256(Bits256::none()); const Lanes& r = memo[e]; for (unsigned i = 0; i < n; ++i) if (r[i]) t->set(i);
		e->tt = t; return *t;
	}
	// Substitute variables that have a known value.
	E subst(E e, const std::unordered_map<u32, u64>& val, std::unordered_map<E, E>& memo) {
		if (e->op == O_CONST) return e;
		bool any = false; for (u32 v : *e->vars) if (val.count(v)) { any = true; break; }
		if (!any) return e;
		if (e->op == O_VAR) return cst(val.at((u32)e->c), e->w);
		auto it = memo.find(e); if (it != memo.end()) return it->second;
		E a = subst(e->k[0], val, memo), b = e->k[1] ? subst(e->k[1], val, memo) : nullptr, d = e->k[2] ? subst(e->k[2], val, memo) : nullptr;
		E r;
		switch (e->op) {
		case O_ZEXT: r = zext(a, e->w); break; case O_SEXT: r = sext(a, e->w); break; case O_EXTRACT: r = extract(a, (unsigned)e->c, e->w); break;
		case O_CONCAT: r = concat(a, b); break; case O_ITE: r = ite(a, b, d); break; default: r = bin(e->op, a, b);
		}
		return memo[e] = r;
	}
};
