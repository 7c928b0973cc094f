// X05 the lexer generator, X06 the regex grep tool, P10 the grammar grep tool: the real programs, run as a user runs them.
#include "common.h"
#include "proc.h"
#include "reref.h"
extern "C" {
#include "rtypes.h"
#include "rlib/rutf.h"
}
#include "rex/rexdfatypes.h"
#ifndef REXCC_BIN
#define REXCC_BIN ""
#endif
#ifndef REXGREP_BIN
#define REXGREP_BIN ""
#endif
#ifndef REXGREP_DBG
#define REXGREP_DBG ""
#endif
#ifndef RPAGREP_DBG
#define RPAGREP_DBG ""
#endif
#ifndef RPAGREP_BIN
#define RPAGREP_BIN ""
#endif
#ifndef REPO_DIR
#define REPO_DIR "/repo"
#endif

#define PCT_BIG 4
struct Pat { ReP re; S text; std::shared_ptr<RefRe> ref; };
static bool genpat(Rng &g, Pat &p, int maxsize, bool bytes, int depth, bool ascii, bool blanks, bool nl) {
	for (int t = 0; t < 20; t++) {
		ReGen rg(g, bytes, ascii);
		bool big = t < 3 && g.p(PCT_BIG);
		p.re = big ? rg.big() : rg.gen(depth);
		if (resize(p.re) > (big ? 400 : maxsize)) continue;
		if (big) feat("patterns_large");
		RePrint pr(g, blanks, g.p(30));
		if (!blanks) pr.bl = "";     // the grep tool has no blanks
		pr.nl = nl;
		p.text = pr.alt(p.re);
		p.ref = std::make_shared<RefRe>(p.re);
		if (!p.ref->ok) continue;
		p.ref->prepare();
		return true;
	}
	return false;
}

// ------------------------------------------------------------------ X05
struct Rule { S id, idexpr; long num; S str; bool isstr = false; Pat pat; S sep; };
struct Spec { S text, prolog, epilog; V<Rule> rules; bool crlf; };

static S commenttext(Rng &g) {
	static const char *w[] = {"%%x", " %%", "x %%", "\\n", "'", "%d %s", "{}", "\"q\"", "%", "%%%", "tokens", "a|b*"};
	S o; int n = (int)g.u(4);
	while (n--) { o += g.pick(w); o += " "; }
	return o + ".";
}
static S filler(Rng &g, const S &nl, bool pp) {
	S o; size_t n = g.pick({32760, 65530, 70000, 140000}) + g.u(20);
	while (o.size() < n) { o += S((size_t)g.r(0, 90), 'x') + (g.p(10) ? " %%" : "") + nl; if (pp && g.p(20)) o += "%%" + nl; }
	return o;
}
static Rule mkrule(Rng &g, int i, S &defs, const S &nl) {
	Rule r; r.num = 0;
	int w = (int)g.u(100);
	r.num = 100 + i * 7 + (long)g.u(5);
	if (w < 40) {
		r.id = fmt("TOK_%d", i); defs += fmt("#define TOK_%d %ld", i, r.num) + nl;
		if (g.p(20)) { r.id += "+1"; r.num++; }
		else if (g.p(8)) { int k = (int)g.r(10, 150); while (k--) { r.id += "+0"; } feat("id_long"); }
		else if (g.p(10)) { r.id = "(" + r.id + "*2)"; r.num *= 2; }
		else if (g.p(10)) { defs += fmt("#define PAIR_%d(a,b) ((a)*10+(b))", i) + nl; r.id = fmt("PAIR_%d(%d,TOK_%d)", i, i, i); r.num += i * 10; }
	} else if (w < 60) { r.id = fmt("%ld", r.num); if (g.p(30)) r.id = fmt("0x%lX", r.num); else if (g.p(5)) { r.num = 0; r.id = "0"; } else if (g.p(5)) { r.num = -1; r.id = "-1"; } }
	else if (w < 70) { char c = "abz+-#*/%~"[g.u(10)]; r.id = fmt("'%c'", c); r.num = c; }
	else if (w < 78) { static const struct { const char *s; int v; } e[] = {{"'\\n'", 10}, {"'\\''", '\''}, {"'\\\\'", '\\'}, {"'\\t'", 9}, {"'\"'", '"'}, {"' '", ' '}, {"'\\x41'", 0x41}}; auto &x = g.pick(e); r.id = x.s; r.num = x.v; }
	else {
		r.isstr = true;
		static const struct { const char *s, *v; } e[] = {{"tok", "tok"}, {"a b", "a b"}, {"", ""}, {"100%d", "100%d"}, {"it's", "it's"}, {"\\\"q\\\"", "\"q\""}, {"back\\\\", "back\\"}, {"\\t%s%n", "\t%s%n"}, {"\\\\", "\\"}, {"%%", "%%"}};
		auto &x = g.pick(e); S tag = g.p(50) ? fmt("%d", i) : "";
		if (g.p(8)) { tag += S((size_t)g.r(60, 600), 'w'); feat("id_long"); }
		r.id = S("\"") + tag + x.s + "\""; r.str = tag + x.v;
	}
	r.sep = g.p(50) ? " " : g.p(50) ? "\t" : S((size_t)g.r(1, 5), ' ') + (g.p(50) ? "\t" : " ");
	return r;
}
static bool mkspec(Rng &g, Spec &s) {
	s = Spec();
	s.crlf = g.p(15);
	S nl = s.crlf ? "\r\n" : "\n";
	S defs;
	int n = (int)(g.p(70) ? g.r(1, 4) : g.r(5, 9));
	V<RefRe *> refs;
	for (int i = 0; i < n; i++) {
		Rule r = mkrule(g, i, defs, nl);
		if (i && g.p(15)) {      // the same pattern again: the earlier rule must win
			r.pat = s.rules[g.u(s.rules.size())].pat;
		} else if (!genpat(g, r.pat, 24, false, (int)g.r(0, 3), g.p(50), true, false)) return false;
		s.rules.push_back(r);
	}
	for (auto &r : s.rules) refs.push_back(r.pat.ref.get());
	if (subsets(refs, 450) > 450) return false;
	S p;
	if (g.p(15)) p += g.p(50) ? nl : nl + nl;
	if (g.p(10)) { p += g.p(50) ? "// x %%" + nl : "/* %%%" + nl + " %%" + nl + "*/" + nl; feat("prolog_percents"); }
	if (g.p(3)) { p += "/*" + filler(g, nl, false) + "*/" + nl; feat("prolog_large"); }
	if (g.p(30)) p += "/*" + nl + " * " + commenttext(g) + nl + " */" + nl;
	if (g.p(30)) p += "/* " + commenttext(g) + " */" + nl + nl;
	p += g.p(50) ? "#include \"rexdfatypes.h\"" : "#include \"rex/rexdfa.h\"";
	p += nl + defs;
	if (g.p(20)) p += "static const char *mon_words = \"%% " + S(g.p(50) ? "%d\\n" : "x") + "\";" + nl;
	s.prolog = p;
	s.text = p + "%%" + nl;
	for (auto &r : s.rules) {
		if (g.p(12)) s.text += nl;
		s.text += r.id + r.sep + r.pat.text + (g.p(10) ? g.p(50) ? "  " : "\t" : "") + nl;
	}
	if (g.p(12)) s.text += nl;
	s.text += S("%%") + (g.p(8) ? g.p(50) ? " " : "\t" : "") + nl;
	S e;
	if (g.p(3)) { e += "/*" + filler(g, nl, true) + "*/" + nl; feat("epilog_large"); }
	if (g.p(40)) e += "/*" + nl + "%%" + nl + " " + commenttext(g) + nl + "*/" + nl;
	e += "rexdfa_t *mon_dfa(void) { return &ccdfa; }" + nl;
	e += "rexuserdata_t mon_ids[] = {";
	for (auto &r : s.rules) e += "(rexuserdata_t)(" + r.id + "),";
	e += "};" + nl;
	e += "unsigned long mon_sizes[] = { sizeof(states)/sizeof(states[0]), sizeof(transitions)/sizeof(transitions[0]), sizeof(accsubstates)/sizeof(accsubstates[0]), sizeof(substates)/sizeof(substates[0]) };" + nl;
	e += "long mon_token(const unsigned int *in, long n, long pos, rexuserdata_t *id) {" + nl +
	     "\tlong best = 0, i = pos; unsigned long st = REX_DFA_STARTSTATE;" + nl +
	     "\twhile (i < n) {" + nl +
	     "\t\tREX_DFA_NEXT(&ccdfa, st, in[i], &st);" + nl +
	     "\t\tif (st == REX_DFA_DEADSTATE) break;" + nl +
	     "\t\ti++;" + nl +
	     "\t\tif (REX_DFA_STATE(&ccdfa, st)->type == REX_STATETYPE_ACCEPT) { best = i - pos; *id = REX_DFA_ACCSUBSTATE(&ccdfa, st, 0)->userdata; }" + nl +
	     "\t}" + nl + "\treturn best;" + nl + "}" + (g.p(70) ? nl : "");
	s.epilog = e;
	s.text += e;
	return true;
}
static bool ideq(const Rule &r, rexuserdata_t v) {
	if (!r.isstr) return v == (rexuserdata_t)r.num;
	return v > 4096 && !strcmp((const char *)v, r.str.c_str());
}
static S idshow(const Rule &r) { return r.id; }
static V<int> accepting(const Spec &s, const V<Pos> &st) {
	V<int> o; for (size_t i = 0; i < s.rules.size(); i++) if (s.rules[i].pat.ref->acc(st[i])) o.push_back((int)i);
	return o;
}
struct Auto {   // an automaton as somebody reports it: transitions, number of accepting rules per state
	struct Tr { uint32_t lo, hi; long to; bool eps; };
	struct St { V<Tr> tr; long nacc = 0; bool accept = false, start = false, dead = false; V<long> sub; long substar = 0; };
	std::map<long, St> st;
};
// "State N ..." blocks as printed by the tool
static bool parsedump(const S &t, Auto &a, S &why) {
	long cur = -1; size_t p = 0;
	while (p < t.size()) {
		size_t e = t.find('\n', p); if (e == S::npos) { why = "unfinished line"; return false; }
		S l = t.substr(p, e - p); p = e + 1;
		if (l.empty()) continue;
		if (l.compare(0, 6, "State ") == 0) {
			char *end; cur = strtol(l.c_str() + 6, &end, 10);
			if (a.st.count(cur)) { why = "state twice"; return false; }
			Auto::St &s = a.st[cur];
			S rest = end;
			s.accept = rest.find("REX_STATETYPE_ACCEPT") != S::npos; s.start = rest.find("REX_STATETYPE_START") != S::npos; s.dead = rest.find("REX_STATETYPE_DEAD") != S::npos;
			size_t q = rest.find("NFA-States(");
			if (q != S::npos) {
				size_t z = rest.find(')', q);
				S in = rest.substr(q + 11, z - q - 11);
				for (size_t i = 0; i < in.size();) { char *x; s.sub.push_back(strtol(in.c_str() + i, &x, 10)); i = x - in.c_str(); if (i < in.size() && in[i] == '*') { s.substar++; i++; } if (i < in.size()) i++; }
				rest = rest.substr(z + 1);
			}
			s.nacc = (long)std::count(rest.begin(), rest.end(), '*');
			continue;
		}
		if (cur < 0) { why = "line before any state: " + l; return false; }
		if (l.find("(none)") != S::npos) continue;
		size_t ar = l.rfind("-> "); size_t b = l.find_first_not_of(' ');
		if (ar == S::npos || b == S::npos) { why = "unreadable line: " + l; return false; }
		Auto::Tr tr{0, 0, strtol(l.c_str() + ar + 3, NULL, 10), false};
		S k = l.substr(b, ar - b);
		if (k.compare(0, 7, "epsilon") == 0) tr.eps = true;
		else if (k[0] == '\'') { tr.lo = tr.hi = (unsigned char)k[1]; }
		else if (k[0] == '[' && !(k[1] == '0' && k[2] == 'x')) { tr.lo = (unsigned char)k[1]; tr.hi = (unsigned char)k[5]; if (k.compare(2, 3, " - ") || k[6] != ']') { why = "unreadable range: " + l; return false; } }
		else if (k[0] == '[') { char *x; tr.lo = (uint32_t)strtoul(k.c_str() + 1, &x, 16); if (strncmp(x, " - ", 3)) { why = "unreadable range: " + l; return false; } tr.hi = (uint32_t)strtoul(x + 3, &x, 16); if (*x != ']') { why = "unreadable range: " + l; return false; } }
		else { char *x; tr.lo = tr.hi = (uint32_t)strtoul(k.c_str(), &x, 16); if (x == k.c_str()) { why = "unreadable line: " + l; return false; } }
		a.st[cur].tr.push_back(tr);
	}
	return true;
}
static Auto fromtables(rexdfa_t *d) {
	Auto a;
	for (unsigned i = 0; i < d->nstates; i++) {
		Auto::St &s = a.st[i];
		rexdfs_t &x = d->states[i];
		for (unsigned k = 0; k < x.ntrans; k++) { rexdft_t &t = d->trans[x.trans + k]; s.tr.push_back({t.lowin, t.highin, (long)t.state, false}); }
		s.accept = x.type == REX_STATETYPE_ACCEPT; s.start = x.type == REX_STATETYPE_START; s.dead = x.type == REX_STATETYPE_DEAD;
		s.nacc = s.accept ? x.naccsubstates : 0;
	}
	return a;
}
static bool sameauto(const Auto &a, const Auto &b, S &why) {
	if (a.st.size() != b.st.size()) { why = fmt("%zu states against %zu", a.st.size(), b.st.size()); return false; }
	for (auto &p : a.st) {
		auto it = b.st.find(p.first);
		if (it == b.st.end()) { why = fmt("state %ld missing", p.first); return false; }
		const Auto::St &x = p.second, &y = it->second;
		if (x.accept != y.accept || x.start != y.start || x.dead != y.dead || x.nacc != y.nacc) { why = fmt("state %ld: accept %d/%d start %d/%d dead %d/%d accepting rules %ld/%ld", p.first, x.accept, y.accept, x.start, y.start, x.dead, y.dead, x.nacc, y.nacc); return false; }
		if (x.tr.size() != y.tr.size()) { why = fmt("state %ld: %zu transitions against %zu", p.first, x.tr.size(), y.tr.size()); return false; }
		for (size_t k = 0; k < x.tr.size(); k++) if (x.tr[k].lo != y.tr[k].lo || x.tr[k].hi != y.tr[k].hi || x.tr[k].to != y.tr[k].to) { why = fmt("state %ld transition %zu: [%X-%X]->%ld against [%X-%X]->%ld", p.first, k, x.tr[k].lo, x.tr[k].hi, x.tr[k].to, y.tr[k].lo, y.tr[k].hi, y.tr[k].to); return false; }
	}
	return true;
}
static bool x05_tables(const Spec &s, rexdfa_t *d, unsigned long *sz, bool subs) {
	CHECKB(d->nstates >= 2 && d->nstates <= sz[0] && d->ntrans <= sz[1] && d->naccsubstates <= sz[2] && d->nsubstates <= sz[3], "table-sizes",
	       "declared sizes %u %u %u %u, tables have %lu %lu %lu %lu", d->nstates, d->ntrans, d->naccsubstates, d->nsubstates, sz[0], sz[1], sz[2], sz[3]);
	for (unsigned i = 0; i < d->nstates; i++) {
		rexdfs_t &x = d->states[i];
		CHECKB((uint64_t)x.trans + x.ntrans <= d->ntrans && (uint64_t)x.accsubstates + x.naccsubstates <= d->naccsubstates && (uint64_t)x.substates + x.nsubstates <= d->nsubstates && x.ntrans >= 1, "table-bounds", "state %u points outside its tables; spec %s", i, show(s.text, 3000).c_str());
		uint64_t next = 0;
		for (unsigned k = 0; k < x.ntrans; k++) {
			rexdft_t &t = d->trans[x.trans + k];
			CHECKB(t.lowin == next && t.highin >= t.lowin && t.state < d->nstates, "table-transitions", "state %u transition %u [%X-%X]->%u does not partition the characters; spec %s", i, k, t.lowin, t.highin, t.state, show(s.text, 3000).c_str());
			next = (uint64_t)t.highin + 1;
		}
		CHECKB(next == 1ull << 32, "table-transitions", "state %u covers characters only up to %llX; spec %s", i, (unsigned long long)next, show(s.text, 3000).c_str());
		if (subs && x.type == REX_STATETYPE_ACCEPT) {
			V<rexuserdata_t> ids; V<unsigned> uids;
			for (unsigned k = 0; k < x.nsubstates; k++) { rexdfss_t &q = d->substates[x.substates + k]; if (q.type == REX_STATETYPE_ACCEPT) { ids.push_back(q.userdata); uids.push_back(q.uid); } }
			bool same = ids.size() == x.naccsubstates;
			for (unsigned k = 0; same && k < x.naccsubstates; k++) { rexdfss_t &q = d->accsubstates[x.accsubstates + k]; same = std::count(uids.begin(), uids.end(), q.uid) == 1 && ids[std::find(uids.begin(), uids.end(), q.uid) - uids.begin()] == q.userdata; }
			CHECKB(same, "substates", "state %u: accepting substates and the substates marked accepting differ; spec %s", i, show(s.text, 3000).c_str());
			feat("substates_compared");
		}
	}
	return true;
}
static bool x05_product(const Spec &s, rexdfa_t *d) {
	std::set<uint32_t> bset; bset.insert(0); bset.insert(CMAX);
	for (auto &r : s.rules) r.pat.ref->bounds(bset);
	V<uint32_t> reps(bset.begin(), bset.end());
	struct Node { unsigned long s; V<Pos> st; bool start; U32 how; };
	V<Node> todo; std::unordered_set<uint64_t> seen;
	todo.push_back(Node{REX_DFA_STARTSTATE, V<Pos>(s.rules.size()), true, U32()});
	std::hash<Pos> hp;
	while (!todo.empty()) {
		Node n = todo.back(); todo.pop_back();
		for (uint32_t c : reps) {
			Node m; m.start = false;
			REX_DFA_NEXT(d, n.s, c, &m.s);
			uint64_t h = m.s; bool can = false;
			for (size_t i = 0; i < s.rules.size(); i++) { m.st.push_back(s.rules[i].pat.ref->step(RefRe::St{n.start, n.st[i]}, c)); h = hmix(h, hp(m.st[i])); can |= (m.st[i] & s.rules[i].pat.ref->useful).any(); }
			V<int> want = accepting(s, m.st);
			rexdfs_t *ms = REX_DFA_STATE(d, m.s);
			bool ok = (ms->type == REX_STATETYPE_ACCEPT) == !want.empty() && !(m.s == REX_DFA_DEADSTATE && can);
			if (ok && !want.empty()) {
				ok = ms->naccsubstates == want.size();
				for (size_t k = 0; ok && k < want.size(); k++) ok = ideq(s.rules[want[k]], REX_DFA_ACCSUBSTATE(d, m.s, k)->userdata);
			}
			if (!ok) {
				U32 how = n.how; how.push_back(c); S hs, w; for (uint32_t x : how) hs += fmt("U+%X ", x); for (int k : want) w += idshow(s.rules[k]) + " ";
				viol("lexer-language", fmt("after %s: state %lu type %u with %u accepting, the rules accept [%s]; spec ", hs.c_str(), m.s, ms->type, ms->naccsubstates, w.c_str()) + show(s.text, 4000));
				return false;
			}
			feat("product_steps");
			if (m.s != REX_DFA_DEADSTATE && seen.insert(h).second && seen.size() < 2000) { m.how = n.how; if (m.how.size() < 40) m.how.push_back(c); todo.push_back(m); }
		}
	}
	feat("product_states", seen.size());
	return true;
}
static bool x05_tokens(Rng &g, const Spec &s, long (*tok)(const unsigned *, long, long, rexuserdata_t *)) {
	for (int t = 0; t < 3; t++) {
		U32 in; ReGen fill(g);
		size_t target = 1 + g.u(60);
		while (in.size() < target) { if (g.p(75)) { U32 w = g.pick(s.rules).pat.ref->walk(g, 1 + g.u(14)); if (g.p(15) && !w.empty()) w.pop_back(); in.insert(in.end(), w.begin(), w.end()); } else in.push_back(fill.ch()); if (in.empty()) in.push_back('q'); }
		for (size_t i = 0; i < in.size();) {
			size_t best = 0; int who = -1;
			for (size_t k = 0; k < s.rules.size(); k++) { size_t l = s.rules[k].pat.ref->match(in, i); if (l > best) { best = l; who = (int)k; } }
			rexuserdata_t id = 0;
			long got = tok(in.data(), (long)in.size(), (long)i, &id);
			if (got != (long)best || (best && !ideq(s.rules[who], id))) {
				viol("tokens", fmt("at character %zu of %s: token of %ld characters id %lu, the rules say %zu characters id %s; spec ", i, show(to8(in)).c_str(), got, (unsigned long)id, best, who < 0 ? "none" : idshow(s.rules[who]).c_str()) + show(s.text, 4000));
				return false;
			}
			if (best) feat("tokens"); else feat("untokenised");
			i += best ? best : 1;
		}
	}
	return true;
}
// An automaton printed by a tool, walked next to the patterns: after every input as many patterns accept as states do.
static bool dumpwalk(const V<RefRe *> &refs, const S &out, const S &what, const S &ctx, bool dfa) {
	Auto a; S why;
	CHECKB(parsedump(out, a, why), "dump", "%s: %s; %s", what.c_str(), why.c_str(), ctx.c_str());
	long start = -1; int ns = 0;
	for (auto &p : a.st) if (p.second.start) { start = p.first; ns++; }
	CHECKB(ns == 1, "dump", "%s shows %d start states; %s", what.c_str(), ns, ctx.c_str());
	auto close = [&](std::set<long> &q) { V<long> w(q.begin(), q.end()); while (!w.empty()) { long x = w.back(); w.pop_back(); for (auto &t : a.st[x].tr) if (t.eps && q.insert(t.to).second) w.push_back(t.to); } };
	std::set<uint32_t> bset; bset.insert(0);
	for (auto *r : refs) r->bounds(bset);
	struct Node { std::set<long> q; V<Pos> st; bool start; };
	V<Node> todo; std::set<std::set<long>> seen;
	Node n0{{start}, V<Pos>(refs.size()), true}; close(n0.q); todo.push_back(n0);
	size_t steps = 0;
	while (!todo.empty() && steps < 20000) {
		Node n = todo.back(); todo.pop_back();
		for (uint32_t c : bset) {
			Node m; m.start = false; bool any = false; size_t want = 0, got = 0; steps++;
			for (size_t i = 0; i < refs.size(); i++) { m.st.push_back(refs[i]->step(RefRe::St{n.start, n.st[i]}, c)); any |= m.st[i].any(); want += refs[i]->acc(m.st[i]); }
			for (long x : n.q) for (auto &t : a.st[x].tr) if (!t.eps && t.lo <= c && c <= t.hi) m.q.insert(t.to);
			close(m.q);
			for (long x : m.q) got += dfa ? a.st[x].nacc : a.st[x].accept;
			CHECKB(got == want, "dump", "%s: after U+%X %zu rules accept, the patterns say %zu; %s\n%s", what.c_str(), c, got, want, ctx.c_str(), out.substr(0, 2500).c_str());
			if (any && seen.insert(m.q).second) todo.push_back(m);
		}
	}
	feat("dump_steps", steps);
	return true;
}
static V<RefRe *> refsof(const Spec &s) { V<RefRe *> r; for (auto &x : s.rules) r.push_back(x.pat.ref.get()); return r; }
static bool x05_compile(const S &c, const S &so) {
	S inc = S("-I") + REPO_DIR;
	Run r;
	V<S> cmd = {"/usr/bin/gcc", "-std=gnu11", "-O0", "-w", "-shared", "-fPIC", "-DLINUX", inc, inc + "/arch/unix", inc + "/rex", inc + "/rlib", "-o", so, c};
	bool ok = runtool(cmd, "", r);
	if (ok && r.rc) viol("does-not-compile", "the emitted file does not compile: " + r.err.substr(0, 1500) + "\ncase: " + g_crumb->text);
	return ok && !r.rc;
}
static bool bad_outcome(const S &what, const S &text, bool mustfail, long line = 0) {
	S d = workdir();
	spit(d + "/bad.rexcc", text);
	Run r;
	V<S> av = {REXCC_BIN, "bad.rexcc"};
	crumb(what + " " + show(text, 3000));
	if (!runtool(av, "", r)) return false;
	feat(r.rc ? "specs_refused" : "specs_accepted");
	if (mustfail && !r.rc) { viol("bad-accepted", what + ": exit status 0 for " + show(text, 3000) + " output " + show(r.out, 300)); return false; }
	if (line) { feat("error_lines"); CHECKB(r.out.compare(0, fmt("Line %ld, (Error)", line).size(), fmt("Line %ld, (Error)", line)) == 0, "error-line", "the bad rule is on line %ld, the message says %s; spec %s", line, show(r.out, 300).c_str(), show(text, 3000).c_str()); }
	return true;
}
static void x05_bad(Rng &g) {
	Spec s;
	while (!mkspec(g, s)) {}
	S nl = s.crlf ? "\r\n" : "\n";
	int w = (int)g.u(11);
	static const char *badpat[] = {"(", ")", "a)", "(a", "*", "+a", "?", "a|", "|a", "[", "[a", "[a-", "a{", "a{2", "a{3,2}", "a{x}", "{2}", "()", "a||b", "(a|)", "a\\", "[]"};
	if (w < 4) {          // one bad pattern somewhere among good ones
		S bad = g.pick(badpat);
		size_t at = g.u(s.rules.size() + 1);
		S t = s.prolog + "%%" + nl; long line = 0;
		for (size_t i = 0; i <= s.rules.size(); i++) {
			if (g.p(15)) t += nl;
			if (i == at) { line = 1 + std::count(t.begin(), t.end(), '\n'); t += "999 " + bad + nl; }
			if (i < s.rules.size()) t += s.rules[i].id + s.rules[i].sep + s.rules[i].pat.text + nl;
		}
		t += "%%" + nl + s.epilog;
		// "\" at the end of the line continues onto the next one
		if (bad == "a\\") { t = s.prolog + "%%" + nl + "999 a[" + nl + "%%" + nl; bad = "a["; line = 1 + std::count(s.prolog.begin(), s.prolog.end(), '\n') + 1; }
		distinct(hstr(t)); feat("bad_patterns");
		bad_outcome("bad pattern " + bad, t, true, line);
	} else if (w == 4) { feat("bad_structure"); bad_outcome("no delimiter", s.prolog, true); }
	else if (w == 5) { S t = s.prolog + "%%" + nl; for (auto &r : s.rules) t += r.id + r.sep + r.pat.text + nl; feat("bad_structure"); bad_outcome("rules never closed", t, true); }
	else if (w == 6) { S t = s.prolog + "%%" + nl; for (auto &r : s.rules) t += r.id + r.sep + r.pat.text + nl; t += S("LONELY") + (g.p(50) ? nl : S("'")) + nl + "%%" + nl; feat("bad_structure"); bad_outcome("no pattern", t, true); }
	else if (w == 7) {
		Run r; S d = workdir(); crumb("unreadable specification");
		V<S> av = {REXCC_BIN, g.p(50) ? "nosuch.rexcc" : "empty.rexcc"}; spit(d + "/empty.rexcc", "");
		if (runtool(av, "", r) && !r.rc) viol("bad-accepted", r.cmd + ": exit status 0");
		av = {REXCC_BIN, "-o", "/nonexistent-dir/x.c", "bad.rexcc"}; spit(d + "/bad.rexcc", s.text);
		if (runtool(av, "", r) && !r.rc) viol("bad-accepted", r.cmd + ": exit status 0");
		feat("bad_structure");
	} else if (w == 10) { // a string that runs over the end of its line
		static const char *q[] = {"\"ab\ncd\" x", "\"a b\n\" x", "\"\n\" [a]", "'a\nb' x", "\"a\\\"\nb\" x"};
		S t = s.prolog + "%%" + nl; size_t at = g.u(s.rules.size() + 1);
		for (size_t i = 0; i <= s.rules.size(); i++) { if (i == at) t += g.pick(q) + nl; if (i < s.rules.size()) t += s.rules[i].id + s.rules[i].sep + s.rules[i].pat.text + nl; }
		t += "%%" + nl + s.epilog;
		feat("bad_ids"); bad_outcome("identifier over two lines", t, true);
	} else {              // bytes changed anywhere: any outcome but a crash
		S t = s.text; int n = (int)g.r(1, 5);
		while (n-- && !t.empty()) {
			size_t p = g.u(t.size()); int k = (int)g.u(4);
			if (k == 0) t[p] = (char)g.u(256);
			else if (k == 1) t.erase(p, 1 + g.u(4));
			else if (k == 2) t.insert(p, S(1, (char)g.pick({'%', '\\', '\'', '"', '\n', '\0', '\xff', '['})));
			else t.resize(p);
		}
		distinct(hstr(t)); feat("mutated_specs");
		bad_outcome("mutated", t, false);
	}
}
static void x05(Rng &g) {
	if (g.p(35)) { x05_bad(g); return; }
	Spec s;
	if (!mkspec(g, s)) { feat("skipped_large"); return; }
	crumb("spec " + show(s.text, 12000));
	distinct(hstr(s.text));
	S d = workdir();
	spit(d + "/s.rexcc", s.text);
	unlink((d + "/out.c").c_str());
	bool subs = g.p(30), first = g.p(50);
	Run r;
	V<S> av = {REXCC_BIN};
	if (subs && first) av.push_back("-s");
	if (g.p(50)) { av.push_back("-o"); av.push_back("out.c"); av.push_back("s.rexcc"); } else { av.push_back("s.rexcc"); av.push_back("-o"); av.push_back("out.c"); }
	if (subs && !first) av.push_back("-s");
	if (!runtool(av, "", r)) return;
	CHECK(r.rc == 0, "refused", "exit %d for a valid specification: %s%s; spec %s", r.rc, r.out.c_str(), r.err.substr(0, 300).c_str(), show(s.text, 4000).c_str());
	S c, c2;
	slurp(d + "/out.c", c);
	feat("specs"); if (s.crlf) feat("specs_crlf"); if (subs) feat("specs_with_substates");
	for (auto &x : s.rules) feat(x.isstr ? "id_string" : x.id[0] == '\'' ? "id_char" : "id_number");
	if (g.p(30)) {
		V<S> v2 = {REXCC_BIN, "s.rexcc"}; if (subs) v2.push_back("-s");
		if (!runtool(v2, "", r)) return;
		CHECK(r.rc == 0 && r.out == c, "stdout-differs", "standard output (exit %d, %zu bytes) and -o file (%zu bytes) differ; spec %s", r.rc, r.out.size(), c.size(), show(s.text, 4000).c_str());
		feat("stdout_compared");
	}
	size_t p = c.find(s.prolog);
	CHECK(p != S::npos && c.find("static rexdf") > p, "prolog-lost", "the text before the rules is not copied unchanged; spec %s output %s", show(s.text, 3000).c_str(), show(c, 1500).c_str());
	CHECK(c.size() >= s.epilog.size() && c.compare(c.size() - s.epilog.size(), S::npos, s.epilog) == 0, "epilog-lost", "the text after the rules is not copied unchanged; spec %s output ends %s", show(s.text, 3000).c_str(), show(c.substr(c.size() > 1500 ? c.size() - 1500 : 0), 1500).c_str());
	{       // nothing but comments and white space around the copied text
		S head = c.substr(0, p), rest; size_t a = head.find("/*"), b = head.find("*/");
		if (a != S::npos && b != S::npos) head.erase(a, b + 2 - a);
		CHECK(head.find_first_not_of(" \t\r\n") == S::npos, "prolog-changed", "extra text before the prolog: %s", show(head).c_str());
	}
	static int seq; S so = d + fmt("/m%d.so", seq++);
	if (!x05_compile(d + "/out.c", so)) return;
	void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(2); }
	unlink(so.c_str());
	rexdfa_t *dfa = ((rexdfa_t * (*)(void)) dlsym(h, "mon_dfa"))();
	unsigned long *sz = (unsigned long *)dlsym(h, "mon_sizes");
	bool ok = x05_tables(s, dfa, sz, subs);
	if (ok) { rexuserdata_t *ids = (rexuserdata_t *)dlsym(h, "mon_ids"); for (size_t i = 0; i < s.rules.size(); i++) if (!ideq(s.rules[i], ids[i])) { fprintf(stderr, "harness: id %s\n", s.rules[i].id.c_str()); _exit(2); } }
	ok = ok && x05_product(s, dfa);
	ok = ok && x05_tokens(g, s, (long (*)(const unsigned *, long, long, rexuserdata_t *))dlsym(h, "mon_token"));
	feat("lexers_compiled");
	int k = (int)g.u(4);
	if (ok && k == 0) {
		V<S> v = {REXCC_BIN, "-D", "s.rexcc"}; bool sub = g.p(50); if (sub) v.insert(v.begin() + 1, "-s");
		if (runtool(v, "", r)) {
			Auto a; S why;
			bool same = r.rc == 0 && parsedump(r.out, a, why) && sameauto(fromtables(dfa), a, why);
			if (same && sub) for (auto &q : a.st) if (q.second.accept && q.second.substar != q.second.nacc) { same = false; why = fmt("state %ld marks %ld substates accepting, lists %ld", q.first, q.second.substar, q.second.nacc); }
			if (!same) { viol("dfa-dump", "-D does not describe the emitted tables: " + why + "; spec " + show(s.text, 3000) + "\n" + r.out.substr(0, 2000)); ok = false; }
			feat("dfa_dumps");
		}
	} else if (ok && k == 1) {
		V<S> v = {REXCC_BIN, "-N", "s.rexcc"};
		if (runtool(v, "", r)) { if (r.rc) viol("nfa-dump", fmt("-N exit %d", r.rc)); else ok = dumpwalk(refsof(s), r.out, "-N", "spec " + show(s.text, 3000), false); feat("nfa_dumps"); }
	} else if (ok && k == 2) {
		V<S> v = {REXCC_BIN, "s.rexcc", "-d"};
		if (runtool(v, "", r)) {
			size_t q = 0; bool good = r.rc == 0;
			for (auto &x : s.rules) { q = good ? r.out.find(x.id + "  ", q) : q; good = good && q != S::npos; q = good ? r.out.find(x.pat.text, q + x.id.size()) : q; good = good && q != S::npos; if (good) q += x.pat.text.size(); }
			if (!good) viol("rule-dump", "-d does not list the rules; spec " + show(s.text, 3000) + " output " + show(r.out, 2000));
			feat("rule_dumps");
		}
	}
	dlclose(h);
}

// ------------------------------------------------------------------ X06
struct Txt { S name, data; };
// One long line: a match of tens of thousands of characters, or as many characters before the next match.
static bool hugetext(Rng &g, const V<Pat> &ps, S &t) {
	U32 in;
	if (g.p(50)) {
		const RefRe &r = *g.pick(ps).ref;
		size_t want = 33000 + g.u(g.p(50) ? 1000 : 50000);
		for (int k = 0; k < 6 && in.size() < want; k++) in = r.walk(g, want, 0);
		if (in.size() < want || r.match(in, 0) < want - 50 || std::count(in.begin(), in.end(), '\n')) return false;
		in.resize(r.match(in, 0));
		feat("texts_long_match");
	} else {
		uint32_t c = 0;
		for (uint32_t k = 'a'; k <= 'z' && !c; k++) { bool live = false; for (auto &p : ps) live |= p.ref->step(p.ref->begin(), k).any(); if (!live) c = k; }
		if (!c) return false;
		size_t n = 66000 + g.u(80000);
		while (in.size() < n) {
			in.insert(in.end(), g.p(50) ? 65530 + g.u(12) : g.u(30000), c);
			if (g.p(60)) { U32 w = g.pick(ps).ref->walk(g, 1 + g.u(10)); in.insert(in.end(), w.begin(), w.end()); }
		}
		feat("texts_long_gap");
	}
	t += to8(in) + (g.p(70) ? "\n" : "");
	return true;
}
static S gentext(Rng &g, const V<Pat> &ps, bool forarg) {
	S t;
	if (!forarg && g.p(3) && hugetext(g, ps, t)) { if (g.p(50)) return t; }
	int nl = (int)(g.p(10) ? g.u(60) : g.u(8));
	ReGen fill(g);
	for (int i = 0; i < nl; i++) {
		if (g.p(12)) { t += g.p(80) ? "\n" : "\r\n"; continue; }
		U32 in;
		size_t target = g.p(3) ? 2000 + g.u(8000) : 1 + g.u(30);
		int density = (int)g.pick({5, 25, 60});
		while (in.size() < target) {
			if (g.p(density)) { U32 w = g.pick(ps).ref->walk(g, 1 + g.u(10)); if (g.p(30) && !w.empty()) w.pop_back(); in.insert(in.end(), w.begin(), w.end()); }
			else in.push_back(g.p(50) ? fill.ch() : (uint32_t)('a' + g.u(26)));
		}
		S l = to8(in);
		if (g.p(12)) { int n = (int)g.r(1, 4); while (n--) l.insert(g.u(l.size() + 1), S(1, (char)g.pick({0x80, 0xc3, 0xe2, 0xf0, 0xff, 0xed, 0xa0, 0xc0, 0}))); }
		if (g.p(8) && !l.empty()) l.erase(g.u(l.size()), 1);
		t += l;
		if (i + 1 < nl || g.p(70)) t += g.p(85) ? "\n" : "\r\n";
	}
	if (forarg) t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
	return t;
}
static bool firstmatch(const V<Pat> &ps, const U32 &in, size_t from, size_t &at, size_t &len) {
	for (at = from; at < in.size(); at++) {
		len = 0;
		for (auto &p : ps) len = std::max(len, p.ref->match(in, at));
		if (len) return true;
	}
	return false;
}
static void decode8(const S &s, U32 &out, V<size_t> &off) {
	const unsigned char *p = (const unsigned char *)s.data(), *e = p + s.size();
	out.clear(); off.clear();
	while (p < e) {
		ruint32 wc = 0; int n = r_utf8_mbtowc(&wc, p, e);
		if (n <= 0) { wc = *p; n = 1; }
		out.push_back(wc); off.push_back(p - (const unsigned char *)s.data());
		p += n;
	}
	off.push_back(s.size());
}
static S expectgrep(const V<Pat> &ps, const S &data, bool only, const S &prefix) {
	S o; U32 in; V<size_t> off; size_t at, len;
	if (only) {
		decode8(data, in, off);
		for (size_t i = 0; firstmatch(ps, in, i, at, len); i = at + len) { o += prefix + data.substr(off[at], off[at + len] - off[at]) + "\n"; feat("parts"); }
	} else {
		for (size_t p = 0; p < data.size();) {
			size_t e = data.find('\n', p); e = e == S::npos ? data.size() : e + 1;
			S l = data.substr(p, e - p); p = e;
			decode8(l, in, off);
			if (firstmatch(ps, in, 0, at, len)) { o += prefix + l; feat("lines_matching"); } else feat("lines_other");
		}
	}
	return o;
}
// How much work the tool's three-character filter takes to build, from above: patterns beyond a limit are left out.
static double filtercost(const V<RefRe *> &rs, const V<Pos> &st, bool start, int level, const V<uint32_t> &bs, std::map<std::pair<uint64_t, int>, double> &memo) {
	std::hash<Pos> hp; uint64_t h = start; for (auto &p : st) h = hmix(h, hp(p));
	auto it = memo.find({h, level}); if (it != memo.end()) return it->second;
	double c = 0; bool acc = false;
	if (!start) for (size_t i = 0; i < rs.size(); i++) acc |= rs[i]->acc(st[i]);
	if (acc) { c = 1; for (int i = 0; i <= level; i++) c *= 128; }
	else for (size_t k = 0; k < bs.size(); k++) {
		uint64_t hi = k + 1 < bs.size() ? bs[k + 1] : 1ull << 32; double w = (double)std::min<uint64_t>(hi - bs[k], 128);
		V<Pos> nx; bool any = false;
		for (size_t i = 0; i < rs.size(); i++) { nx.push_back(rs[i]->step(RefRe::St{start, st[i]}, bs[k])); any |= nx.back().any(); }
		if (any) c += w * (level ? filtercost(rs, nx, false, level - 1, bs, memo) : 1);
		if (c > 1e9) break;
	}
	return memo[{h, level}] = c;
}
static bool grepable(const V<Pat> &ps) {
	V<RefRe *> rs; for (auto &p : ps) rs.push_back(p.ref.get());
	if (subsets(rs, 450) > 450) return false;
	std::set<uint32_t> b; b.insert(0); for (auto *r : rs) r->bounds(b);
	V<uint32_t> bs(b.begin(), b.end());
	std::map<std::pair<uint64_t, int>, double> memo;
	return filtercost(rs, V<Pos>(rs.size()), true, 2, bs, memo) < 2e7;
}
static bool permuted(const S &out, V<S> parts) {
	if (parts.size() > 5) return true;
	std::sort(parts.begin(), parts.end());
	do { S o; for (auto &p : parts) o += p; if (o == out) return true; } while (std::next_permutation(parts.begin(), parts.end()));
	return false;
}
static S optsof(const V<S> &a) { S o; for (size_t i = 1; i < a.size(); i++) o += " " + show(a[i], 200); return o; }
static const char *greptool(Rng &g) { if (g.p(20)) { feat("debug_build_runs"); return REXGREP_DBG; } return REXGREP_BIN; }
static void x06_bad(Rng &g) {
	static const char *badpat[] = {"(", ")", "a)", "(a", "*", "+a", "?", "a|", "|a", "[", "[a", "[a-", "a{", "a{2", "a{3,2}", "{2}", "()", "a||b", "(a|)", "a\\"};
	V<S> av = {greptool(g)};
	S d = workdir();
	spit(d + "/t", "abc\nline a|b\n");
	S bad = g.pick(badpat);
	int w = (int)g.u(5);
	crumb(fmt("refusal kind %d pattern %s", w, bad.c_str()));
	if (g.p(40)) av.push_back("-N");
	if (w < 2) { if (g.p(50)) { av.push_back("-e"); av.push_back("abc"); } av.push_back("-e"); av.push_back(bad); av.push_back("t"); }
	else if (w == 2) { spit(d + "/pat", bad); av.insert(av.end(), {"-f", "pat", "t"}); }
	else if (w == 3) av.insert(av.end(), {"-f", "nosuchpatterns", "t"});
	else av = {av[0], "-b", "nosuchbin", "t"};
	Run r;
	if (!runtool(av, "", r)) return;
	feat("refusals");
	if (!r.rc || r.rc == 1 || !r.out.empty()) viol("bad-accepted", fmt("%s: exit %d, output %s", r.cmd.c_str(), r.rc, show(r.out).c_str()));
}
static void x06(Rng &g) {
	if (g.p(8)) { x06_bad(g); return; }
	V<Pat> ps;
	int np = (int)(g.p(60) ? 1 : g.r(2, 4));
	bool ascii = g.p(60);
	for (int i = 0; i < np; i++) {
		Pat p;
		if (!genpat(g, p, 20, false, (int)g.r(0, 3), ascii, false, false)) return;
		if (p.text.empty() || p.text[0] == '-' || p.text.find('\0') != S::npos) { feat("skipped_optionlike"); return; }
		ps.push_back(p);
	}
	if (!grepable(ps)) { feat("skipped_large"); return; }
	S desc = "patterns"; for (auto &p : ps) desc += " " + show(p.text, 800);
	S d = workdir();
	distinct(hstr(desc));
	V<RefRe *> refs; for (auto &p : ps) refs.push_back(p.ref.get());
	V<S> pats;
	bool file = np == 1 && g.p(15);
	if (file) { spit(d + "/pat", ps[0].text + (g.p(50) ? "" : g.p(70) ? "\n" : "\r\n")); pats = {"-f", "pat"}; feat("pattern_files"); }
	else for (auto &p : ps) { pats.push_back("-e"); pats.push_back(p.text); }
	bool haveb = false;
	Run r;
	if (g.p(30)) {
		V<S> av = {greptool(g), "-c"}; av.insert(av.end(), pats.begin(), pats.end());
		if (g.p(80)) av.insert(av.end(), {"-b", "bin"}); else { unlink((d + "/rex.bin").c_str()); }
		if (g.p(30)) av.push_back("-S");
		unlink((d + "/bin").c_str());
		crumb(desc + " saving");
		if (!runtool(av, "", r)) return;
		if (av[av.size() - 1] != "bin" && av[av.size() - 2] != "bin") rename((d + "/rex.bin").c_str(), (d + "/bin").c_str());
		CHECK(access((d + "/bin").c_str(), R_OK) == 0, "not-saved", "%s wrote no file; %s", r.cmd.c_str(), desc.c_str());
		haveb = true; feat("automata_saved");
		if (g.p(15)) {
			S b; slurp(d + "/bin", b); spit(d + "/cut", b.substr(0, g.u(b.size())));
			V<S> tv = {greptool(g), "-b", "cut", "-s", "abc"};
			if (!runtool(tv, "", r)) return;
			CHECK(r.rc > 1, "bad-accepted", "a truncated automaton file gives exit %d; %s", r.rc, desc.c_str());
			feat("truncated_automata");
		}
	}
	if (g.p(12)) {
		bool nfa = g.p(50);
		V<S> av = {greptool(g), "-D"}; av.insert(av.end(), pats.begin(), pats.end());
		if (nfa) av.push_back("-N"); else if (g.p(50)) av.push_back("-S");
		crumb(desc + " dump");
		if (!runtool(av, "", r)) return;
		if (!dumpwalk(refs, r.out, nfa ? "-N -D" : "-D", desc, !nfa)) return;
		feat("dumps");
	}
	int runs = 3;
	for (int k = 0; k < runs; k++) {
		bool only = g.p(40), nfa = g.p(40), sub = g.p(20), quiet = g.p(12), names = g.p(25), useb = haveb && g.p(50), stats = g.p(8);
		V<S> av = {greptool(g)};
		V<S> opt;
		if (only) opt.push_back(g.p(50) ? "-o" : "--only-matching"); else if (g.p(20)) opt.push_back("-l");
		if (nfa) opt.push_back("-N");
		if (sub) opt.push_back("-S");
		if (quiet) opt.push_back("-q");
		if (names) opt.push_back(g.p(50) ? "-H" : "--with-filename");
		if (stats && !quiet) opt.push_back("-t");
		bool before = g.p(50);
		if (before) av.insert(av.end(), opt.begin(), opt.end());
		if (useb) av.insert(av.end(), {"-b", "bin"}); else av.insert(av.end(), pats.begin(), pats.end());
		if (!before) av.insert(av.end(), opt.begin(), opt.end());
		if (useb) feat("automata_loaded");
		S in, want; V<S> parts, lures; bool piped = false, anyorder = false; S texts;
		int src = (int)g.u(100);
		if (src < 45) {
			int n = (int)(g.p(70) ? 1 : g.r(2, 3));
			for (int i = 0; i < n; i++) {
				S t = gentext(g, ps, false), nm = i == 0 && g.p(50) ? d + "/t0" : fmt("t%d", i);
				spit(d + fmt("/t%d", i), t);
				want += expectgrep(ps, t, only, names ? nm + ":" : "");
				av.push_back(nm); texts += " " + show(t, 1500);
			}
			feat("from_files");
		} else if (src < 65) {
			in = gentext(g, ps, false); piped = g.p(50); texts = show(in, 3000);
			want = expectgrep(ps, in, only, "");
			feat(piped ? "from_pipe" : "from_stdin");
		} else if (src < 82) {
			int n = (int)(g.p(80) ? 1 : 2);
			for (int i = 0; i < n; i++) {
				S t = gentext(g, ps, true);
				if (t.empty() || t[0] == '-') t = "x" + t;
				av.push_back("-s"); av.push_back(t); texts += " " + show(t, 1500);
				want += expectgrep(ps, t, only, "");
			}
			lures.push_back("abc");
			if (g.p(60)) for (size_t i = 0; i + 1 < av.size(); i++) if (av[i] == "-s" || av[i] == "-e") lures.push_back(av[i + 1]);
			// files that happen to be called like a text or a pattern
			for (size_t i = 0; i < lures.size(); ) {
				S &n = lures[i];
				if (n.empty() || n.size() > 200 || n.find('/') != S::npos || n == "." || n == ".." || !access((d + "/" + n).c_str(), F_OK)) { n = lures.back(); lures.pop_back(); continue; }
				S t = gentext(g, ps, false); spit(d + "/" + n, t + "\n" + ps[0].text); i++;
			}
			if (lures.size() > 1) feat("files_named_like_arguments");
			feat("from_argument");
		} else {
			S dir = d + "/dir", sh = g.p(40) ? "dir" : g.p(50) ? "dir/" : dir;
			mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755); mkdir((dir + "/sub/x.y").c_str(), 0755); mkdir((dir + "/empty").c_str(), 0755);
			static const char *nm[] = {"one", "two.txt", "sub/three", "sub/x.y/four", "sub/x.y/fi ve"};
			for (auto n : nm) unlink((dir + "/" + n).c_str());
			for (auto n : nm) if (g.p(50)) {
				S t = gentext(g, ps, false); spit(dir + "/" + n, t); texts += " " + S(n) + "=" + show(t, 1000);
				parts.push_back(expectgrep(ps, t, only, names ? sh + (sh.back() == '/' ? "" : "/") + n + ":" : ""));
			}
			for (auto &p : parts) want += p;
			anyorder = true; av.push_back(sh);
			feat("from_directory");
		}
		bool matched = !want.empty();
		crumb(desc + " run" + optsof(av) + " texts" + texts);
		bool ran = runtool(av, in, r, d, piped);
		for (auto &n : lures) unlink((d + "/" + n).c_str());
		if (!ran) return;
		feat(only ? "runs_only_matching" : "runs_lines"); feat(nfa ? "runs_nfa" : "runs_dfa"); if (quiet) feat("runs_quiet"); if (names) feat("runs_names");
		feat(matched ? "runs_matched" : "runs_unmatched");
		S ctx = r.cmd + "; texts" + texts + "; " + desc;
		S got = r.out;
		if (stats && !quiet && got.size() > want.size()) { got = anyorder ? got.substr(0, want.size()) : got.substr(0, want.size()); feat("runs_statistics"); }
		if (quiet) { CHECK(got.empty(), "quiet", "-q printed %s; %s", show(got).c_str(), ctx.c_str()); }
		else if (anyorder) { CHECK(permuted(got, parts), "output", "printed %s, expected (files in any order) %s; %s", show(got, 1500).c_str(), show(want, 1500).c_str(), ctx.c_str()); }
		else CHECK(got == want, "output", "printed %s, expected %s; %s", show(got, 1500).c_str(), show(want, 1500).c_str(), ctx.c_str());
		CHECK(r.rc == (matched ? 0 : 1), "exit-status", "exit %d although %s matched; %s", r.rc, matched ? "something" : "nothing", ctx.c_str());
	}
}

bool select_property(const S &p) {
	g_leakcheck = false;
	if (p == "X05") g_fn = x05;
	else if (p == "X06") g_fn = x06;
	else return false;
	return true;
}
