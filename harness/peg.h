// Grammar trees, their textual forms, and a reference reading of them: ordered
// choice, greedy repetition, where a rule and an alternative must consume something.
#pragma once
#include "common.h"
#include <memory>

enum { K_CH, K_ANY, K_SP, K_CLS, K_GRP, K_REF, K_NOT };
struct ClsEl { int k; uint32_t a, b; };               // 0 char, 1 range, 2 special (\n \r \t)
struct Alt;
struct Item {
	int k = K_CH; char q = 0; uint32_t c = 0; int rule = -1; bool angle = false;
	V<ClsEl> cls; std::shared_ptr<Alt> sub; std::shared_ptr<Item> in;
};
struct Branch { V<Item> seq; V<V<Item>> neg; };
struct Alt { V<Branch> br; };
struct Rule { S name; Alt body; bool emit = true, abort = false, quiet = false; uint32_t uid = 0; };	// quiet: something else in the grammar turns its recording off
struct Grammar { V<Rule> r; };

static inline uint32_t ref_icase(uint32_t c) {
	if (c >= 'A' && c <= 'Z') return c + 32;
	if (c >= 'a' && c <= 'z') return c - 32;
	if (c >= 0xC0 && c <= 0xDE && c != 0xD7) return c + 32;
	if (c >= 0xE0 && c <= 0xFE && c != 0xF7) return c - 32;
	if (c >= 0x391 && c <= 0x3AB && c != 0x3A2) return c + 32;
	if (c >= 0x3B1 && c <= 0x3CB && c != 0x3C2) return c - 32;
	if (c >= 0x410 && c <= 0x42F) return c + 32;
	if (c >= 0x430 && c <= 0x44F) return c - 32;
	return c;
}

// ---------------------------------------------------------------- reference evaluation
struct Ev { int rule; bool end; int at, len; };       // in characters, relative to the text
static inline bool operator==(const Ev &a, const Ev &b) { return a.rule == b.rule && a.end == b.end && a.at == b.at && a.len == b.len; }
struct Peg {
	const Grammar &g; const U32 &t; bool icase;
	long steps = 0, limit = 20000;
	bool over = false, aborted = false; int arule = -1, apos = 0;
	int depth = 0;
	V<Ev> out;
	std::set<int> visited;
	Peg(const Grammar &g_, const U32 &t_, bool ic) : g(g_), t(t_), icase(ic) { if (t.size() > 100) limit += 300 * (long)t.size(); }
	bool stop() const { return over || aborted; }
	static uint32_t spval(uint32_t c) { return c == 'n' ? 10 : c == 'r' ? 13 : 9; }
	bool chr(uint32_t c, uint32_t in) const { return in == c || (icase && ref_icase(in) == c); }
	bool one(const Item &it, uint32_t in) const {
		switch (it.k) {
		case K_CH: return chr(it.c, in);
		case K_ANY: return true;
		case K_SP: return in == spval(it.c);
		default:
			for (auto &e : it.cls) {
				if (e.k == 0 && chr(e.a, in)) return true;
				if (e.k == 2 && in == spval(e.a)) return true;
				if (e.k == 1) {
					uint32_t lo = std::min(e.a, e.b), hi = std::max(e.a, e.b), o = ref_icase(in);
					if ((in >= lo && in <= hi) || (icase && o >= lo && o <= hi)) return true;
				}
			}
			return false;
		}
	}
	// one occurrence: new position, or -1
	int core(const Item &it, int p) {
		if (++steps > limit) over = true;
		if (stop()) return -1;
		switch (it.k) {
		case K_GRP: return alt(*it.sub, p);
		case K_REF: return rule(it.rule, p);
		case K_NOT: {
			size_t m = out.size();
			int e = item(*it.in, p);
			out.resize(m);
			if (e >= 0 || stop()) return -1;
			return p < (int)t.size() ? p + 1 : -1;
		}
		default:
			return p < (int)t.size() && one(it, t[p]) ? p + 1 : -1;
		}
	}
	int item(const Item &it, int p) {
		size_t m = out.size();
		if (!it.q || it.q == '?') {
			int e = core(it, p);
			if (e < 0) { out.resize(m); return it.q && !stop() ? p : -1; }
			return e;
		}
		int at = p;
		for (;;) {
			size_t k = out.size();
			int e = core(it, at);
			if (stop()) return -1;
			if (e <= at) { out.resize(k); break; }
			at = e;
		}
		return it.q == '+' && at == p ? -1 : at;
	}
	int seq(const V<Item> &s, int p) {
		size_t m = out.size();
		for (auto &it : s) { p = item(it, p); if (p < 0) { out.resize(m); return -1; } }
		return p;
	}
	int branch(const Branch &b, int p) {
		for (auto &n : b.neg) {
			size_t m = out.size();
			int e = seq(n, p);
			out.resize(m);
			if (e > p || stop()) return -1;
		}
		return seq(b.seq, p);
	}
	int alt(const Alt &a, int p) {
		if (a.br.size() == 1) return branch(a.br[0], p);
		for (auto &b : a.br) {
			size_t m = out.size();
			int e = branch(b, p);
			if (stop()) return -1;
			if (e > p) return e;
			out.resize(m);
		}
		return -1;
	}
	int rule(int r, int p) {
		if (depth > 200) over = true;
		if (stop()) return -1;
		visited.insert(r);
		const Rule &R = g.r[r];
		size_t m = out.size();
		depth++;
		if (R.emit) out.push_back({r, false, p, 0});
		int e = alt(R.body, p);
		depth--;
		if (stop()) return -1;
		if (e <= p) {
			out.resize(m);
			if (R.abort) { aborted = true; arule = r; apos = p; }
			return -1;
		}
		if (R.emit) { out[m].len = e - p; out.push_back({r, true, p, e - p}); }
		return e;
	}
	int match(int r, int p) { out.clear(); over = aborted = false; steps = 0; depth = 0; return rule(r, p); }
};

// ---------------------------------------------------------------- printing
struct Printer {
	Rng &g; int layout;    // 0 plain, 1 varied
	const Grammar &gr;
	Printer(Rng &r, const Grammar &G, int l) : g(r), layout(l), gr(G) {}
	S sp(bool need = false) {
		if (!layout) return need ? " " : "";
		switch (g.u(9)) {
		case 0: case 1: case 2: return need ? " " : "";
		case 3: case 4: return " ";
		case 5: return "\t";
		case 6: return " \\\n ";
		case 7: return "  \t ";
		default: return " \\\r\n";
		}
	}
	static bool bare(uint32_t c) {
		return c > 32 && !(c < 128 && strchr("~#^-|&+*?\"'()[]<>.;\\:=", (int)c)) && c != 127;
	}
	S num(uint32_t c) {
		switch (g.u(c ? 4 : 3)) {
		case 0: return fmt("#0x%x", c);
		case 1: return fmt("#0x%04X", c);
		case 2: return fmt("#x%x", c);
		default: return fmt("#%u", c);
		}
	}
	S cls(const V<ClsEl> &e) {
		bool canalpha = true, cannum = true;
		for (auto &x : e) {
			if (x.k == 2) cannum = cannum && true;
			if (x.k == 1) for (uint32_t c : {x.a, x.b}) if (c < 33 || (c < 128 && strchr("#\\-[]", (int)c))) canalpha = false;
			if (x.k == 0 && (x.a == 10 || x.a == 13 || x.a == 9 || x.a < 32)) canalpha = false;
		}
		bool num_ = cannum && (!canalpha || g.p(30));
		S o = "[";
		for (auto &x : e) {
			if (num_) {
				if (x.k == 1) o += num(x.a) + "-" + num(x.b);
				else o += num(x.k == 2 ? Peg::spval(x.a) : x.a);
			} else if (x.k == 1) { put8(o, x.a); o += '-'; put8(o, x.b); }
			else if (x.k == 2) { o += '\\'; o += (char)x.a; }
			else {
				bool esc = x.a < 128 && strchr(" #\\-[]", (int)x.a);
				if (!esc && layout && x.a < 128 && !isalnum(x.a) && g.p(20)) esc = true;
				if (esc) o += '\\';
				put8(o, x.a);
			}
		}
		return o + "]";
	}
	S occ(char q) { return q ? (layout && g.p(15) ? sp() : S()) + S(1, q) : S(); }
	S quoted(const V<uint32_t> &cs) {
		bool sq = true, dq = true;
		for (uint32_t c : cs) { if (c == '\'') sq = false; if (c == '"') dq = false; }
		char q = !sq ? '"' : !dq ? '\'' : g.p(50) ? '\'' : '"';
		S o(1, q);
		for (uint32_t c : cs) put8(o, c);
		return o + q;
	}
	S items(const V<Item> &s) {
		S o;
		for (size_t i = 0; i < s.size();) {
			if (i) o += sp(true);
			const Item &it = s[i];
			if (it.k == K_CH) {
				V<uint32_t> run{it.c};
				size_t j = i + 1;
				char q = it.q;
				while (!q && j < s.size() && s[j].k == K_CH && g.p(60) && (s[j].c != '\'' || std::find(run.begin(), run.end(), '"') == run.end())
				       && (s[j].c != '"' || std::find(run.begin(), run.end(), '\'') == run.end())) { run.push_back(s[j].c); q = s[j].q; j++; }
				if (run.size() == 1 && bare(it.c) && g.p(40)) put8(o, it.c);
				else if (run.size() == 1 && it.c != 'n' && it.c != 'r' && it.c != 't' && it.c > 32 && g.p(30)) { o += '\\'; put8(o, it.c); }
				else o += quoted(run);
				o += occ(q);
				i = j;
				continue;
			}
			o += one(it) + (it.k == K_NOT ? S() : occ(it.q));
			i++;
		}
		return o;
	}
	S one(const Item &it) {
		switch (it.k) {
		case K_ANY: return ".";
		case K_SP: return S("\\") + (char)it.c;
		case K_CLS: return cls(it.cls);
		case K_GRP: return "(" + (layout ? sp() : S()) + alt(*it.sub) + (layout ? sp() : S()) + ")";
		case K_REF: return (it.angle ? "<" : "<:") + gr.r[it.rule].name + (it.angle ? ">" : ":>");
		case K_NOT: return "^" + (layout ? sp() : S()) + items(V<Item>{*it.in});
		default: return "";
		}
	}
	S branch(const Branch &b) {
		S o = items(b.seq);
		for (auto &n : b.neg) o += sp(true) + "-" + sp(true) + items(n);
		return o;
	}
	S alt(const Alt &a) {
		S o;
		for (size_t i = 0; i < a.br.size(); i++) {
			if (i) {
				o += sp(true);
				if (layout && g.p(20)) o += g.p(50) ? "\n" : "\r\n";
				o += sp() + "|" + sp(true);
				if (layout && g.p(15)) o += g.p(50) ? "\n " : "\r\n\t";
			}
			o += branch(a.br[i]);
		}
		return o;
	}
	S rule(const Rule &r) { return (layout ? sp() : S()) + r.name + sp(true) + "::=" + sp(true) + alt(r.body); }
	S filler() {
		if (!layout) return "\n";
		switch (g.u(6)) {
		case 0: return "\n# a comment ::= 'x' | <nowhere>\n";
		case 1: return ";\n";
		case 2: return "\r\n\r\n";
		case 3: return "\n \n\t\n";
		case 4: return "\n#\n";
		default: return "\n";
		}
	}
	S directives(const Rule &r) {
		S o;
		if (r.uid) o += "#!emitid " + r.name + fmt(" %u", r.uid) + (layout && g.p(30) ? " and some words\n" : "\n");
		if (!r.emit && !r.quiet) o += "#!noemit " + r.name + "\n";
		if (r.abort) o += "#!abort " + r.name + "\n";
		return o;
	}
};

// ---------------------------------------------------------------- generation
struct Gen {
	Rng &g; int nr; int maxdepth; int feats;   // feats: 1 NOT/minus, 2 wide characters
	U32 alpha;
	bool cased = false;
	int budget = 40;
	int widerule = -1, longrule = -1, longname = -1, nested = -1; bool bigclass = false;   // one rule with very many alternatives, one very long sequence
	// feats 4: now and then many rules, wide choices, long sequences
	Gen(Rng &r, int n, int f) : g(r), nr(n), maxdepth(3), feats(f) {
		if (f & 4) {
			if (g.u(60) == 0) { nr = g.p(12) ? (int)g.r(250, 420) : (int)g.r(12, g.p(50) ? 40 : 120); feat("many_rules"); }
			if (g.u(60) == 0) { widerule = (int)g.u(nr); feat("wide_choices"); }
			if (g.u(60) == 0) { longrule = (int)g.u(nr); feat("long_sequences"); }
			if (g.u(80) == 0) { longname = (int)g.u(nr); feat("long_names"); }
			if (g.u(80) == 0 && widerule < 0 && longrule < 0) { nested = (int)g.u(nr); feat("deep_groups"); }
			bigclass = nested < 0 && g.u(40) == 0;
		}
		static const uint32_t narrow[] = {'a', 'b', 'c', 'd', '0', '1', '+', '-', '(', ')', ' ', ',', '.', 'x', 'A', 'B'};
		static const uint32_t wide[] = {0xE9, 0xC9, 0xFF, 0x3B1, 0x391, 0x430, 0x410, 0x20AC, 0xFFFD, 0x1F600, 0x10FFFF, 0x800, 0x7FF, 0xD7, 0xF7, 0xDF, 0x390, 0x3B0, 0x3C2, 0x3CB, 0x42F};
		int k = (int)g.r(2, 5);
		for (int i = 0; i < k; i++) alpha.push_back(f & 2 && g.p(35) ? g.pick(wide) : g.pick(narrow));
	}
	uint32_t ch() { return g.p(6) ? (g.p(50) ? '"' : '\'') : g.p(12) ? (uint32_t)g.r(33, 126) : g.pick(alpha); }
	char q(int pct) { return g.p(pct) ? "?+*"[g.u(3)] : 0; }
	Item leaf() {
		Item it; budget--;
		int x = (int)g.u(20);
		if (x < 11) { it.k = K_CH; it.c = ch(); }
		else if (x < 12) it.k = K_ANY;
		else if (x < 13) { it.k = K_SP; it.c = "nrt"[g.u(3)]; }
		else {
			it.k = K_CLS;
			int n = (int)g.r(1, 3);
			if (bigclass && g.p(30)) { n = (int)g.r(20, 300); feat("large_classes"); }
			for (int i = 0; i < n; i++) {
				uint32_t a = n > 3 ? (uint32_t)g.r(33, 400) : ch();
				if (g.p(45)) { uint32_t b = g.p(15) ? a + 63 + (uint32_t)g.u(80) : g.p(60) ? ch() : a + (uint32_t)g.u(a < 100 ? 20 : 70); if (b > 0x10FFFF || (b >= 0xD800 && b < 0xE000)) b = a; it.cls.push_back({1, a, b}); }
				else if (g.p(6)) it.cls.push_back({2, (uint32_t)"nrt"[g.u(3)], 0});
				else it.cls.push_back({0, a, 0});
			}
		}
		return it;
	}
	// does the item always consume a character when it succeeds?
	static bool eats(const Item &it) {
		if (it.q == '?' || it.q == '*') return false;
		if (it.k == K_GRP) return it.q == '+' || eats(*it.sub);
		return true;
	}
	static bool eats(const V<Item> &s) { for (auto &i : s) if (eats(i)) return true; return false; }
	static bool eats(const Alt &a) { return a.br.size() > 1 || eats(a.br[0].seq); }
	Item item(int self, int depth, bool ate) {
		Item it;
		int x = (int)g.u(100);
		if (depth < maxdepth && budget > 0 && x < 18) {
			it.k = K_GRP; it.sub = std::make_shared<Alt>(alt(self, depth + 1, ate));
		} else if (x < 45) {
			int lo = ate ? 0 : self + 1;
			if (lo >= nr) it = leaf();
			else { it.k = K_REF; it.rule = (int)g.r(lo, nr - 1); it.angle = g.p(50); budget--; }
		} else if ((feats & 1) && depth < maxdepth && x < 51) {
			it.k = K_NOT; it.in = std::make_shared<Item>(item(self, depth + 1, ate));
			if (it.in->k == K_NOT) *it.in = leaf();
			return it;
		} else it = leaf();
		it.q = q(25);
		return it;
	}
	V<Item> seq(int self, int depth, bool ate) {
		V<Item> s;
		int n = g.p(30) ? 1 : (int)g.r(1, depth ? 3 : 4);
		for (int i = 0; i < n; i++) { s.push_back(item(self, depth, ate)); ate = ate || eats(s.back()); }
		return s;
	}
	Branch branch(int self, int depth, bool ate) {
		Branch b; b.seq = seq(self, depth, ate);
		if ((feats & 1) && g.p(8)) { int n = (int)g.r(1, 2); for (int i = 0; i < n; i++) b.neg.push_back(seq(self, depth + 1, ate)); }
		return b;
	}
	Alt alt(int self, int depth, bool ate) {
		Alt a; int n = g.p(45) ? 1 : (int)g.r(2, 4);
		for (int i = 0; i < n; i++) a.br.push_back(branch(self, depth, ate));
		return a;
	}
	Grammar grammar() {
		Grammar gr; gr.r.resize(nr);
		static const char *names[] = {"S", "expr", "a", "Term_2", "_x", "rule", "Z9", "longer_rule_name_with_digits_0123456789", "b", "ab", "abc"};
		std::set<S> used;
		for (int i = 0; i < nr; i++) {
			S n; if (nr > 11) n = fmt("%s%d", g.pick(names), i); else do n = g.pick(names); while (used.count(n));
			if (i == longname) n += S((size_t)g.r(60, 700), "qZ_7"[g.u(4)]);
			used.insert(n);
			gr.r[i].name = n;
			budget = 25;
			gr.r[i].body = alt(i, 0, false);
			if (i == widerule) for (int k = g.p(12) ? (int)g.r(250, 500) : (int)g.r(20, 150); k > 0; k--) { budget = 4; gr.r[i].body.br.push_back(branch(i, 2, false)); }
			if (i == nested) {
				auto &it = gr.r[i].body.br[g.u(gr.r[i].body.br.size())].seq[0];
				for (int k = (int)g.r(8, 12); k > 0; k--) {
					Item grp; grp.k = K_GRP; grp.sub = std::make_shared<Alt>(); grp.sub->br.emplace_back(); bool e = eats(it);
					grp.sub->br[0].seq.push_back(it);
					if (g.p(10)) grp.sub->br.push_back(Branch{{leaf()}, {}});
					grp.q = e && g.p(8) ? '+' : 0;
					it = grp;
				}
			}
			if (i == longrule) { auto &sq = gr.r[i].body.br.back().seq; bool ate = eats(sq); for (int k = (int)g.r(30, 300); k > 0; k--) { Item it = leaf(); it.q = q(10); sq.push_back(it); ate = true; } }
		}
		return gr;
	}
};

// Mostly short texts, now and then long ones (grammars with long rules need them).
static inline size_t text_room(Rng &g, const Grammar &gr, size_t usual) {
	bool big = gr.r.size() > 11; for (auto &r : gr.r) for (auto &b : r.body.br) big |= b.seq.size() > 25;
	size_t n = big && g.p(60) ? 400 : g.u(50) == 0 ? 400 : g.u(1500) == 0 ? 6000 : usual;
	if (n >= 400) feat("long_texts");
	return n;
}

// A text likely to take the grammar far: a random derivation, then edits.
struct Sampler {
	Rng &g; const Grammar &gr; U32 out; int fuel = 60;
	Sampler(Rng &r, const Grammar &G) : g(r), gr(G) {}
	void item(const Item &it) {
		int n = it.q == '?' ? (int)g.u(2) : it.q == '*' ? (int)g.u(4) : it.q == '+' ? (int)g.r(1, 3) : 1;
		while (n-- > 0 && --fuel > 0) {
			switch (it.k) {
			case K_CH: out.push_back(it.c); break;
			case K_ANY: out.push_back('a' + (uint32_t)g.u(4)); break;
			case K_SP: out.push_back(Peg::spval(it.c)); break;
			case K_CLS: { auto &e = g.pick(it.cls); if (e.k == 1) { uint32_t lo = std::min(e.a, e.b), hi = std::max(e.a, e.b), c = lo + (uint32_t)g.u(hi - lo + 1); if (c >= 0xD800 && c < 0xE000) c = lo; out.push_back(c); } else out.push_back(e.k == 2 ? Peg::spval(e.a) : e.a); break; }
			case K_GRP: alt(*it.sub); break;
			case K_REF: alt(gr.r[it.rule].body); break;
			case K_NOT: out.push_back('a' + (uint32_t)g.u(4)); break;
			}
		}
	}
	void alt(const Alt &a) { if (fuel > 0) for (auto &i : a.br[g.u(a.br.size())].seq) item(i); }
	static void chars(const Alt &a, U32 &c) {
		for (auto &b : a.br) { for (auto &i : b.seq) chars(i, c); for (auto &n : b.neg) for (auto &i : n) chars(i, c); }
	}
	static void chars(const Item &it, U32 &c) {
		if (it.k == K_CH) c.push_back(it.c);
		if (it.k == K_SP) c.push_back(Peg::spval(it.c));
		for (auto &e : it.cls) { if (e.k == 2) c.push_back(Peg::spval(e.a)); else { c.push_back(e.a); if (e.k == 1) { c.push_back(e.b); c.push_back(std::max(e.a, e.b) + 1); } } }
		if (it.sub) chars(*it.sub, c);
		if (it.in) chars(*it.in, c);
	}
	U32 text(int rule, size_t maxlen) {
		out.clear(); fuel = maxlen > 100 ? 1500 : 60;
		U32 pool; for (auto &r : gr.r) chars(r.body, pool);
		for (uint32_t &c : pool) if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) c = 'z';
		pool.push_back('z'); pool.push_back('\n');
		int mode = (int)g.u(10);
		if (mode < 7) {
			alt(gr.r[rule].body);
			if (g.p(30)) alt(gr.r[rule].body);
			if (maxlen > 100 && g.p(60)) while (out.size() < maxlen && fuel > 0) { size_t n = out.size(); alt(gr.r[rule].body); if (out.size() == n) fuel--; }
		} else { size_t n = g.u(maxlen + 1); while (out.size() < n) out.push_back(g.pick(pool)); }
		int ed = g.p(40) ? (int)g.r(1, 3) : 0;
		while (ed-- > 0) {
			size_t at = g.u(out.size() + 1);
			switch (g.u(3)) {
			case 0: out.insert(out.begin() + at, g.pick(pool)); break;
			case 1: if (at < out.size()) out.erase(out.begin() + at); break;
			default: if (at < out.size()) out[at] = g.pick(pool);
			}
		}
		if (out.size() > maxlen) out.resize(maxlen);
		return out;
	}
};
