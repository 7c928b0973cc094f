// Reference regular expressions: an AST with a printer in rex syntax, and a position
// (Glushkov) automaton that decides the language independently of the code under test.
#pragma once
#include "common.h"
#include <bitset>
#include <memory>

static const uint32_t CMAX = 0xFFFFFFFFu;
typedef V<std::pair<uint32_t, uint32_t>> Ranges;
enum { R_SET, R_CAT, R_ALT, R_OPT, R_STAR, R_PLUS, R_REP };
struct Re;
typedef std::shared_ptr<Re> ReP;
struct Re { int k; Ranges set; bool dot = false, neg = false, lit = false; Ranges raw; V<ReP> kids; int n = 0, m = 0; };

static inline bool inset(const Ranges &s, uint32_t c) { for (auto &r : s) if (c >= r.first && c <= r.second) return true; return false; }
static inline Ranges complement(Ranges s) {
	std::sort(s.begin(), s.end());
	Ranges o; uint64_t next = 0;
	for (auto &r : s) {
		if (r.first > next) o.push_back({(uint32_t)next, r.first - 1});
		next = std::max<uint64_t>(next, (uint64_t)r.second + 1);
	}
	if (next <= CMAX) o.push_back({(uint32_t)next, CMAX});
	return o;
}

// ---- generation
static const uint32_t kInteresting[] = {0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc3, 0xfe, 0xff, 0x100, 0x109, 0x10a, 0x120, 0x12a, 0x130, 0x15b,
	0x3bb, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10fffe, 0x10ffff, 0, 1, '\n', '\r', '\t', ' ', '\f', '\v'};
static const char kPunct[] = "[](){}*?+|.\\^-#,\"'$/<>=~!@%&;:_`";
struct ReGen {
	Rng &g; U32 alpha; bool bytes = false, ascii = false; int maxrep = 4;
	ReGen(Rng &r, bool bytemode = false, bool asciimode = false) : g(r), bytes(bytemode), ascii(asciimode) {
		int n = (int)g.r(2, 6);
		for (int i = 0; i < n; i++) alpha.push_back(fresh());
	}
	uint32_t fresh() {
		int w = (int)g.u(100);
		uint32_t c;
		if (w < 50) c = 'a' + g.u(g.p(80) ? 4 : 26);
		else if (w < 60) c = '0' + g.u(10);
		else if (w < 70) c = 'A' + g.u(26);
		else if (w < 80) c = (unsigned char)kPunct[g.u(sizeof(kPunct) - 1)];
		else if (w < 95) c = g.pick(kInteresting);
		else do c = g.u(0x110000); while (c >= 0xd800 && c < 0xe000);
		if (bytes) c &= 0xff;
		if (ascii) { c &= 0x7f; if (!c) c = 'a'; }
		return c;
	}
	uint32_t ch() { return g.p(85) ? g.pick(alpha) : fresh(); }
	ReP lit(uint32_t c) { auto r = std::make_shared<Re>(); r->k = R_SET; r->lit = true; r->set = {{c, c}}; return r; }
	ReP set() {
		auto r = std::make_shared<Re>(); r->k = R_SET;
		int w = (int)g.u(100);
		if (w < 60) { r->lit = true; uint32_t c = ch(); r->set = {{c, c}}; return r; }
		if (w < 70) { r->dot = true; r->set = {{0, 9}, {11, CMAX}}; return r; }
		int n = (int)g.r(1, 4);
		for (int i = 0; i < n; i++) {
			uint32_t a = ch(), b = g.p(50) ? a : ch();
			if (g.p(15)) b = a + (b == a ? g.u(5) : 0);
			if (b > 0x10ffff) b = 0x10ffff;
			if (b < a && !g.p(12)) std::swap(a, b);      // mostly forward; a reversed range means the same set
			r->raw.push_back({a, b});
		}
		Ranges s;
		for (auto &x : r->raw) s.push_back({std::min(x.first, x.second), std::max(x.first, x.second)});
		if (g.p(25)) { r->neg = true; r->set = complement(s); } else r->set = s;
		return r;
	}
	ReP gen(int depth) {
		int w = (int)g.u(100);
		if (depth <= 0 || w < 25) return set();
		auto r = std::make_shared<Re>();
		if (w < 55) { r->k = R_CAT; int n = (int)g.r(2, 4); while (n--) r->kids.push_back(gen(depth - 1)); }
		else if (w < 72) { r->k = R_ALT; int n = (int)g.r(2, 3); while (n--) r->kids.push_back(gen(depth - 1)); }
		else if (w < 78) { r->k = R_OPT; r->kids.push_back(gen(depth - 1)); }
		else if (w < 85) { r->k = R_STAR; r->kids.push_back(gen(depth - 1)); }
		else if (w < 92) { r->k = R_PLUS; r->kids.push_back(gen(depth - 1)); }
		else {
			r->k = R_REP; r->kids.push_back(gen(depth - 1));
			r->n = (int)g.r(0, maxrep);
			int q = (int)g.u(3);
			r->m = q == 0 ? r->n : q == 1 ? -1 : r->n + (int)g.r(0, maxrep - 1);
		}
		return r;
	}
	// Large in one direction: a long literal, many words, a long counted repetition or a class of many ranges.
	ReP big() {
		auto top = std::make_shared<Re>(); top->k = R_CAT;
		auto word = [&](int n) { auto r = std::make_shared<Re>(); r->k = R_CAT; while (n--) r->kids.push_back(lit(ch())); return r; };
		int w = (int)g.u(4);
		if (g.p(40)) top->kids.push_back(gen(1));
		if (w == 0) top->kids.push_back(word((int)g.r(60, 330)));
		else if (w == 1) { auto r = std::make_shared<Re>(); r->k = R_ALT; int n = (int)g.r(12, 70); while (n--) r->kids.push_back(word((int)g.r(1, 5))); top->kids.push_back(r); }
		else if (w == 2) { auto r = std::make_shared<Re>(); r->k = R_REP; r->kids.push_back(g.p(70) ? set() : word(2)); r->n = g.p(30) ? 0 : (int)g.r(1, 150); r->m = g.p(40) ? r->n ? r->n : 130 : g.p(20) ? -1 : r->n + (int)g.r(1, 30); top->kids.push_back(r); }
		else {
			auto r = std::make_shared<Re>(); r->k = R_SET; int n = (int)g.r(40, 300); uint32_t c = 0x21 + g.u(8);
			Ranges s;
			while (n--) { uint32_t lo = c + 2 + g.u(6), hi = lo + (g.p(50) ? 0 : g.u(4)); if (bytes && hi > 255) break; if (ascii && hi > 126) break; if (hi >= 0xd000) break; s.push_back({lo, hi}); c = hi; }
			for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[g.u(i)]);
			if (s.empty()) s.push_back({'a', 'b'});
			r->raw = s; r->neg = g.p(25); r->set = r->neg ? complement(s) : s;
			top->kids.push_back(r); if (g.p(50)) { auto q = std::make_shared<Re>(); q->k = R_PLUS; q->kids.push_back(r); top->kids.back() = q; }
		}
		if (g.p(40)) top->kids.push_back(gen(1));
		if (top->kids.size() == 1) top->kids.push_back(set());
		return top;
	}
};
static inline long resize(const ReP &r) {
	long s = 0;
	if (r->k == R_SET) return 1;
	for (auto &k : r->kids) s += resize(k);
	if (r->k == R_REP) s *= r->m < 0 ? r->n + 1 : std::max(1, r->m);
	return s;
}

// ---- printing in rex syntax
struct RePrint {
	Rng &g; bool blanks, plain, nl = true;   // nl: a bare line break may follow |
	S bl = " \t";                            // the characters that separate and mean nothing
	RePrint(Rng &r, bool allowblanks = true, bool plainstyle = false) : g(r), blanks(allowblanks), plain(plainstyle) {}
	S ws() {
		if (!blanks || plain || !g.p(8)) return "";
		int k = (int)g.u(6);
		if (k == 2 || (bl.empty() && k < 3)) return "\\\n";
		if (k == 3 || bl.empty()) return "\\\r\n";
		return k == 1 ? S(1, g.pick(bl)) + g.pick(bl) : S(1, g.pick(bl));
	}
	static S esc(uint32_t c) {
		switch (c) {
		case '\n': return "\\n"; case '\r': return "\\r"; case '\t': return "\\t"; case '\f': return "\\f"; case '\v': return "\\v"; case 0: return "\\0";
		}
		return "";
	}
	S litch(uint32_t c) {
		S e = esc(c); if (!e.empty()) return e;
		S o;
		if (c && c < 128 && (strchr("[](){}*?+|.\\", (int)c) || bl.find((char)c) != S::npos)) { o = "\\"; o += (char)c; return o; }
		if (!plain && c < 128 && !isalnum((int)c) && g.p(30)) o = "\\";
		else if (!plain && c < 128 && isalpha((int)c) && !strchr("rntfv", (int)c) && g.p(3)) o = "\\";
		put8(o, c);
		return o;
	}
	S clsch(uint32_t c, bool afternum, bool &num) {
		num = false;
		if (afternum || (!plain && g.p(15))) {
			num = true;
			switch (g.u(4)) {
			case 0: return fmt("#%u", c);
			case 1: return fmt("#x%X", c);
			case 2: return fmt("#0x%x", c);
			default: return fmt("#0%o", c);
			}
		}
		S e = esc(c); if (!e.empty()) return e;
		S o;
		if (c < 128 && strchr("[]-\\#^", (int)c)) o = "\\";
		put8(o, c);
		return o;
	}
	S one(const ReP &r) {   // a factor
		if (r->k != R_SET) return "(" + ws() + alt(r) + ws() + ")";
		if (r->dot) return ".";
		if (r->lit) {
			if (!plain && g.p(5)) { bool n; return "[" + clsch(r->set[0].first, false, n) + "]"; }
			return litch(r->set[0].first);
		}
		S o = r->neg ? "[^" : "[";
		bool num = false;
		for (auto &x : r->raw) {
			o += clsch(x.first, num, num);
			if (x.first != x.second || (!plain && g.p(10))) { o += "-"; o += clsch(x.second, false, num); }
		}
		return o + "]";
	}
	S fac(const ReP &r) {
		if (r->k < R_OPT) { if (!plain && g.p(4)) return "(" + alt(r) + ")"; return one(r); }
		S in = one(r->kids[0]);
		in += ws();
		switch (r->k) {
		case R_OPT: return in + "?";
		case R_STAR: return in + "*";
		case R_PLUS: return in + "+";
		}
		S b = (blanks && !plain && !bl.empty() && g.p(20)) ? S(1, g.pick(bl)) : S();
		S o = in + "{" + b + fmt("%d", r->n) + b;
		if (r->m < 0) o += "," + b;
		else if (r->m != r->n || g.p(20)) o += "," + b + fmt("%d", r->m) + b;
		return o + "}";
	}
	S cat(const ReP &r) {
		if (r->k != R_CAT) return fac(r);
		S o;
		for (size_t i = 0; i < r->kids.size(); i++) { if (i) o += ws(); o += r->kids[i]->k == R_CAT && !g.p(50) ? cat(r->kids[i]) : fac(r->kids[i]); }
		return o;
	}
	S alt(const ReP &r) {
		if (r->k != R_ALT) return cat(r);
		S o;
		for (size_t i = 0; i < r->kids.size(); i++) {
			if (i) { o += ws() + "|" + ws(); if (nl && blanks && !plain && g.p(3)) o += bl.empty() ? S("\n") : S("\n") + g.pick(bl); }
			o += r->kids[i]->k == R_ALT ? fac(r->kids[i]) : cat(r->kids[i]);
		}
		return o;
	}
};

// ---- position automaton
static const int PMAX = 512;
typedef std::bitset<PMAX> Pos;
struct RefRe {
	V<Ranges> sets; V<Pos> follow; Pos first, last; bool nullable;
	bool ok = true;
	struct Part { bool nul; Pos f, l; };
	void link(const Pos &a, const Pos &b) { for (size_t i = 0; i < sets.size(); i++) if (a[i]) follow[i] |= b; }
	Part cat(const Part &a, const Part &b) {
		link(a.l, b.f);
		return Part{a.nul && b.nul, a.nul ? a.f | b.f : a.f, b.nul ? a.l | b.l : b.l};
	}
	Part build(const ReP &r) {
		if (!ok) return Part{true, Pos(), Pos()};
		if (r->k == R_SET) {
			if (sets.size() >= (size_t)PMAX) { ok = false; return Part{true, Pos(), Pos()}; }
			size_t i = sets.size(); sets.push_back(r->set); follow.push_back(Pos());
			Part p{false, Pos(), Pos()}; p.f[i] = p.l[i] = 1;
			return p;
		}
		if (r->k == R_CAT) { Part p = build(r->kids[0]); for (size_t i = 1; i < r->kids.size(); i++) p = cat(p, build(r->kids[i])); return p; }
		if (r->k == R_ALT) { Part p = build(r->kids[0]); for (size_t i = 1; i < r->kids.size(); i++) { Part q = build(r->kids[i]); p.nul |= q.nul; p.f |= q.f; p.l |= q.l; } return p; }
		if (r->k == R_REP) {
			Part p{true, Pos(), Pos()};
			for (int i = 0; i < r->n; i++) p = cat(p, build(r->kids[0]));
			if (r->m < 0) { Part q = build(r->kids[0]); link(q.l, q.f); q.nul = true; p = cat(p, q); }
			else for (int i = r->n; i < r->m; i++) { Part q = build(r->kids[0]); q.nul = true; p = cat(p, q); }
			return p;
		}
		Part p = build(r->kids[0]);
		if (r->k != R_OPT) link(p.l, p.f);
		if (r->k != R_PLUS) p.nul = true;
		return p;
	}
	explicit RefRe(const ReP &r) { Part p = build(r); first = p.f; last = p.l; nullable = p.nul; }
	struct St { bool start; Pos p; };
	St begin() const { return St{true, Pos()}; }
	Pos step(const St &s, uint32_t c) const {
		Pos cand = s.start ? first : Pos(), out;
		if (!s.start) for (size_t i = s.p._Find_first(); i < sets.size(); i = s.p._Find_next(i)) cand |= follow[i];
		for (size_t i = cand._Find_first(); i < sets.size(); i = cand._Find_next(i)) if (inset(sets[i], c)) out[i] = 1;
		return out;
	}
	bool acc(const Pos &p) const { return (p & last).any(); }
	// longest non-empty match, in characters, from in[i]; 0 = none
	size_t match(const U32 &in, size_t i) const {
		St s = begin(); size_t best = 0;
		for (size_t j = i; j < in.size(); j++) {
			Pos p = step(s, in[j]);
			if (p.none()) break;
			if (acc(p)) best = j - i + 1;
			s = St{false, p};
		}
		return best;
	}
	Pos useful;   // positions from which acceptance is reachable (through non-empty classes)
	void prepare() {
		useful = last;
		bool ch = true;
		while (ch) {
			ch = false;
			for (size_t i = 0; i < sets.size(); i++) if (!useful[i]) {
				Pos n = follow[i] & useful;
				for (size_t j = n._Find_first(); j < sets.size(); j = n._Find_next(j)) if (!sets[j].empty()) { useful[i] = 1; ch = true; break; }
			}
		}
	}
	uint32_t some(Rng &g, const Ranges &s) const {
		for (int k = 0; k < 8; k++) {
			auto &r = s[g.u(s.size())];
			uint32_t c; int w = (int)g.u(4);
			uint64_t span = (uint64_t)std::min<uint32_t>(r.second, 0x10ffff) - std::min<uint32_t>(r.first, 0x10ffff) + 1;
			c = w == 0 ? r.first : w == 1 ? std::min<uint32_t>(r.second, 0x10ffff) : r.first + (uint32_t)g.u(std::min<uint64_t>(span, g.p(70) ? 64 : span));
			if (c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000)) return c;
		}
		return 'x';
	}
	// a text that tends to stay inside the language
	U32 walk(Rng &g, size_t maxlen, int stop = 15) const {
		U32 o; St s = begin();
		if (sets.size() > 50 && g.p(50)) { maxlen = 450; stop = 1; }      // long patterns: all the way through
		while (o.size() < maxlen) {
			Pos cand = s.start ? first : Pos();
			if (!s.start) for (size_t i = s.p._Find_first(); i < sets.size(); i = s.p._Find_next(i)) cand |= follow[i];
			V<size_t> c; for (size_t i = cand._Find_first(); i < sets.size(); i = cand._Find_next(i)) if (!sets[i].empty()) c.push_back(i);
			if (c.empty()) break;
			if (acc(s.p) && g.p(stop)) break;
			uint32_t ch = some(g, sets[c[g.u(c.size())]]);
			o.push_back(ch);
			Pos p = step(s, ch);
			if (p.none()) break;
			s = St{false, p};
		}
		return o;
	}
	void bounds(std::set<uint32_t> &b) const {
		for (auto &s : sets) for (auto &r : s) { b.insert(r.first); b.insert(r.second); if (r.first) b.insert(r.first - 1); if (r.second != CMAX) b.insert(r.second + 1); }
	}
};
// Number of reachable subsets, up to cap: keeps exponential patterns out of the workload.
static inline size_t subsets(const V<RefRe *> &rs, size_t cap) {
	std::set<uint32_t> b; b.insert(0);
	for (auto *r : rs) r->bounds(b);
	V<uint32_t> reps(b.begin(), b.end());
	struct H { static uint64_t h(const V<Pos> &v) { uint64_t x = 7; std::hash<Pos> hp; for (auto &p : v) x = hmix(x, hp(p)); return x; } };
	std::unordered_set<uint64_t> seen; V<V<Pos>> todo;
	V<Pos> init(rs.size());
	bool start = true;
	todo.push_back(init);
	while (!todo.empty() && seen.size() <= cap) {
		V<Pos> cur = todo.back(); todo.pop_back();
		for (uint32_t c : reps) {
			V<Pos> nx;
			bool any = false;
			for (size_t i = 0; i < rs.size(); i++) { nx.push_back(rs[i]->step(RefRe::St{start, cur[i]}, c)); any |= nx.back().any(); }
			if (any && seen.insert(H::h(nx)).second) todo.push_back(nx);
		}
		start = false;
	}
	return seen.size();
}
