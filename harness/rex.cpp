// X01 matching, X02 NFA = DFA = compact tables, X03 scanning, X04 bad patterns.
#include "common.h"
#include "reref.h"
extern "C" {
#include "rtypes.h"
#include "rlib/rutf.h"
#include "rlib/rmem.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexregex.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
#include "rex/rexcompiler.h"
}

// Decode bytes into characters with their byte offsets; malformed bytes follow the library's decoder (its own property).
static void decode(const S &s, bool bytes, U32 &out, V<size_t> &off) {
	const unsigned char *p = (const unsigned char *)s.data(), *e = p + s.size();
	out.clear(); off.clear();
	while (p < e) {
		ruint32 wc = 0; int n = 1;
		if (bytes) wc = *p; else { n = r_utf8_mbtowc(&wc, p, e); if (n <= 0) { wc = *p; n = 1; } }
		out.push_back(wc); off.push_back(p - (const unsigned char *)s.data());
		p += n;
	}
	off.push_back(s.size());
}

static S tobytes(const U32 &u) { S o; for (uint32_t c : u) o += (char)c; return o; }

#define PCT_BIG 2
struct Pat { ReP re; S text; std::shared_ptr<RefRe> ref; };
static bool genpat(Rng &g, Pat &p, int maxsize, bool bytes, int depth, bool ascii = false, bool blanks = true, const char *bl = NULL) {
	for (int t = 0; t < 20; t++) {
		ReGen rg(g, bytes, ascii);
		bool big = t < 3 && g.p(PCT_BIG);
		p.re = big ? rg.big() : rg.gen(depth);
		if (resize(p.re) > (big ? 400 : maxsize)) continue;
		if (big) feat("patterns_large");
		RePrint pr(g, blanks, g.p(30));
		if (bl) pr.bl = bl;
		p.text = pr.ws() + pr.alt(p.re);
		p.ref = std::make_shared<RefRe>(p.re);
		if (!p.ref->ok) continue;
		p.ref->prepare();
		return true;
	}
	return false;
}
static const char *kindname(int k) { static const char *n[] = {"set", "cat", "alt", "opt", "star", "plus", "rep"}; return n[k]; }
static void pfeat(const ReP &r) { feat(S("op_") + kindname(r->k)); if (r->neg) feat("op_negclass"); for (auto &k : r->kids) pfeat(k); }

static U32 mkinput(Rng &g, const RefRe &r, size_t maxlen) {
	U32 in;
	std::set<uint32_t> b; r.bounds(b);
	V<uint32_t> bs;
	for (uint32_t c : b) if (c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000)) bs.push_back(c);
	if (bs.empty()) bs.push_back('a');
	while (in.size() < maxlen) {
		if (g.p(60)) { U32 w = r.walk(g, 1 + g.u(maxlen)); in.insert(in.end(), w.begin(), w.end()); }
		if (g.p(60)) { int n = (int)g.u(3); while (n--) in.push_back(g.pick(bs)); }
		if (g.p(30)) break;
	}
	if (in.size() > maxlen) in.resize(maxlen);
	if (!in.empty() && g.p(25)) in[g.u(in.size())] = g.pick(bs);
	if (!in.empty() && g.p(10)) in.erase(in.begin() + g.u(in.size()));
	return in;
}
static S mangle(Rng &g, S s) {   // damage the encoding
	int n = (int)g.r(1, 3);
	while (n--) {
		if (s.empty()) { s += (char)g.u(256); continue; }
		size_t i = g.u(s.size());
		switch (g.u(4)) {
		case 0: s[i] = (char)(0x80 + g.u(128)); break;
		case 1: s.erase(i, 1); break;
		case 2: s.insert(i, 1, (char)(0x80 + g.u(128))); break;
		default: s.resize(i); break;
		}
	}
	return s;
}

// ------------------------------------------------------------------ X01
// The same patterns in a database whose blank characters were chosen.
static void x01_blanks(Rng &g) {
	static const char *sets[] = {"", " ", "_~", "%&_", "=", " \t", "\t"};
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
	struct Free { rexdb_t *n; ~Free() { rex_db_destroy(n); } } fr{nfa};
	const char *bl = " \t";
	long start = -1;
	int n = (int)g.r(1, 3);
	V<Pat> ps; V<RefRe *> rs;
	CHECK(rex_db_isempty(nfa), "isempty", "a new database is not empty");
	for (int i = 0; i < n; i++) {
		if (g.p(70)) {
			bl = g.pick(sets);
			S big(64 + g.u(200), ' ');
			if (g.p(20)) CHECK(rex_db_setblanks_s(nfa, big.c_str()) < 0, "setblanks", "%zu blank characters were accepted", big.size());
			long r; Exact eb{S(bl)};
			if (g.p(50)) r = rex_db_setblanks(nfa, eb.b(), eb.n); else r = rex_db_setblanks_s(nfa, bl);
			CHECK(r == 0, "setblanks", "the blank characters %s were refused", show(bl).c_str());
			feat("blank_sets");
		}
		Pat p;
		if (!genpat(g, p, 30, false, (int)g.r(1, 3), false, true, bl)) return;
		rs.push_back(p.ref.get()); ps.push_back(p);
		if (subsets(rs, 450) > 450) { feat("skipped_large"); return; }
		crumb("pattern " + show(p.text, 1000) + " blanks " + show(bl));
		Exact pe(p.text);
		long r = p.text.find('\0') == S::npos && g.p(40) ? rex_db_addexpression_s(nfa, start < 0 ? (size_t)-1 : (size_t)start, p.text.c_str(), (rexuserdata_t)i) : rex_db_addexpression(nfa, start < 0 ? (size_t)-1 : (size_t)start, pe.b(), pe.n, (rexuserdata_t)i);
		CHECK(r >= 0, "refused", "valid pattern refused: %s with the blank characters %s", show(p.text, 2000).c_str(), show(bl).c_str());
		start = r;
		CHECK(!rex_db_isempty(nfa), "isempty", "a database with %zu states calls itself empty", rex_db_numstates(nfa));
	}
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	struct Free2 { rex_nfasimulator_t *n; ~Free2() { rex_nfasimulator_destroy(n); } } fr2{ns};
	for (int t = 0; t < 5; t++) {
		const Pat &p = g.pick(ps);
		U32 in = mkinput(g, *p.ref, 1 + g.u(30));
		size_t want = 0;
		for (auto &q : ps) want = std::max(want, q.ref->match(in, 0));
		S text = to8(in), pre = to8(U32(in.begin(), in.begin() + (long)want));
		Exact e(text);
		size_t k;
		bool fits = text.find('\0') == S::npos && g.p(30);
		if (fits) k = rex_nfasimulator_run_s(ns, nfa, start, text.c_str()); else k = rex_nfasimulator_run(ns, nfa, start, e.b(), e.n);
		size_t got = k ? ((rex_accept_t *)r_array_lastslot(ns->accepts))->inputsize : 0;
		S all; for (auto &q : ps) all += show(q.text, 600) + " ";
		CHECK(got == pre.size(), "blanks-length", "patterns %s (the last with the blank characters %s) on %s: matched %zu bytes, the language says %zu", all.c_str(), show(bl).c_str(), show(text, 1000).c_str(), got, pre.size());
		feat(want ? "matches" : "non_matches");
	}
}
static void x01(Rng &g) {
	Pat p;
	if (g.p(12)) return x01_blanks(g);
	bool bytes = g.p(30);
	if (!genpat(g, p, 60, bytes, (int)g.r(1, 4))) return;
	crumb("pattern " + show(p.text, 1000));
	V<RefRe *> rs{p.ref.get()};
	if (subsets(rs, 450) > 450) { feat("skipped_large"); return; }
	pfeat(p.re);
	Exact pe(p.text);
	rexregex_t *re = rex_regex_create(pe.p, (unsigned)pe.n);
	if (!re) { viol("refused", "valid pattern refused: " + show(p.text, 2000)); return; }
	distinct(hstr(p.text));
	bool bad = false;
	for (int t = 0; t < 6 && !bad; t++) {
		U32 in = mkinput(g, *p.ref, 1 + g.u(t == 0 ? 200 : p.ref->sets.size() > 50 ? 450 : 30));
		for (int mode = 0; mode < 2 && !bad; mode++) {
			S text;
			if (mode == 0) { text = to8(in); if (g.p(15)) text = mangle(g, text); }
			else { if (!bytes && !g.p(20)) continue; text = tobytes(in); }
			U32 dec; V<size_t> off; decode(text, mode == 1, dec, off);
			for (int q = 0; q < 3 && !bad; q++) {
				size_t i = q == 0 ? 0 : g.u(dec.size() + 1);
				Exact e(text.substr(off[i]));
				int got = rex_regex_match(re, mode ? REX_ENCODING_BYTE : REX_ENCODING_UTF8, e.b(), e.e());
				size_t len = p.ref->match(dec, i);
				int want = (int)(off[i + len] - off[i]);
				feat(want ? "matches" : "non_matches"); feat("match_calls"); if (len > 100) feat("long_matches");
				if (got != want) {
					viol("length", fmt("pattern %s on %s (%s): matched %d bytes, the language says %d", show(p.text, 2000).c_str(), show(text.substr(off[i]), 1500).c_str(), mode ? "byte" : "utf8", got, want));
					bad = true;
				}
			}
		}
	}
	rex_regex_destroy(re);
}

// ------------------------------------------------------------------ X02
struct Db {
	rexdb_t *nfa = nullptr; long start = -1; V<Pat> pats; V<rexuserdata_t> ud;
	~Db() { if (nfa) rex_db_destroy(nfa); }
};
static bool mkdb(Rng &g, Db &d, int npat, size_t cap) {
	bool bytes = g.p(20);
	V<RefRe *> rs;
	d.nfa = rex_db_create(REXDB_TYPE_NFA);
	for (int i = 0; i < npat; i++) {
		Pat p;
		if (!d.pats.empty() && g.p(15)) { p = g.pick(d.pats); RePrint pr(g, true, false); p.text = pr.alt(p.re); }   // same language twice
		else if (!genpat(g, p, 30, bytes, (int)g.r(1, 3))) continue;
		rs.push_back(p.ref.get());
		if (subsets(rs, cap) > cap) { rs.pop_back(); feat("skipped_large"); continue; }
		crumb(fmt("pattern %d ", (int)d.pats.size()) + show(p.text, 1000));
		Exact pe(p.text);
		rexuserdata_t ud = (rexuserdata_t)(g.p(70) ? g.u(50) : g.next());
		long r;
		if (npat == 1 && g.p(40)) {   // the compiler on its own: the pattern's own first state is the start
			rexcompiler_t *co = rex_compiler_create();
			if (g.p(30)) rex_compiler_expression_s(co, d.nfa, "x(y*z)+", 7);
			if (g.p(30)) rex_compiler_expression_s(co, d.nfa, "x(y*z", 7);
			r = rex_compiler_expression(co, d.nfa, pe.p, pe.n, ud);
			rex_compiler_destroy(co);
			feat("compiled_alone");
		} else
		r = rex_db_addexpression(d.nfa, d.start < 0 ? (size_t)-1 : (size_t)d.start, pe.p, pe.n, ud);
		if (r < 0) { viol("refused", "valid pattern refused: " + show(p.text, 2000)); return false; }
		d.start = r;
		d.pats.push_back(p); d.ud.push_back(ud);
	}
	return !d.pats.empty();
}
static S pats(const Db &d) { S o; for (auto &p : d.pats) o += show(p.text, 600) + " "; return o; }
static uint64_t nfahash(rexdb_t *n) {
	uint64_t h = 5;
	for (size_t i = 0; i < rex_db_numstates(n); i++) {
		rexstate_t *s = rex_db_getstate(n, i);
		h = hmix(h, s->uid); h = hmix(h, s->type); h = hmix(h, (uint64_t)s->userdata);
		for (rarray_t *a : {s->trans, s->etrans}) for (size_t j = 0; j < r_array_length(a); j++) {
			rex_transition_t *t = (rex_transition_t *)r_array_slot(a, j);
			h = hmix(h, t->lowin * 31ull + t->highin); h = hmix(h, t->dstuid);
		}
	}
	return h;
}
// which patterns accept after these reference states
static V<int> accepting(const Db &d, const V<Pos> &st) { V<int> o; for (size_t i = 0; i < d.pats.size(); i++) if (d.pats[i].ref->acc(st[i])) o.push_back((int)i); return o; }

static bool x02_tables(Db &d, rexdfa_t *dfa, bool withsub) {
	for (unsigned s = 0; s < dfa->nstates; s++) {
		rexdfs_t *st = rex_dfa_state(dfa, s);
		uint64_t next = 0;
		for (unsigned t = 0; t < st->ntrans; t++) {
			rexdft_t *tr = rex_dfa_transition(dfa, s, t);
			if (!tr || tr->lowin != next || tr->highin < tr->lowin || tr->state >= dfa->nstates) { viol("tables", fmt("state %u transition %u is [%x-%x]->%u, expected to start at %llx; patterns %s", s, t, tr ? tr->lowin : 0, tr ? tr->highin : 0, tr ? tr->state : 0, (unsigned long long)next, pats(d).c_str())); return false; }
			next = (uint64_t)tr->highin + 1;
		}
		if (st->ntrans && next != (uint64_t)CMAX + 1) { viol("tables", fmt("state %u covers characters only up to %llx; patterns %s", s, (unsigned long long)next, pats(d).c_str())); return false; }
		if (s && !st->ntrans) { viol("tables", fmt("state %u has no transitions; patterns %s", s, pats(d).c_str())); return false; }
		if (rex_dfa_transition(dfa, s, st->ntrans) || rex_dfa_accsubstate(dfa, s, st->naccsubstates) || rex_dfa_substate(dfa, s, st->nsubstates)) { viol("tables-range", "an index past the end was answered"); return false; }
		if (withsub && s) {
			unsigned acc = 0;
			for (unsigned k = 0; k < st->nsubstates; k++) {
				rexdfss_t *ss = rex_dfa_substate(dfa, s, k);
				rexstate_t *ns = ss ? rex_db_getstate(d.nfa, ss->uid) : nullptr;
				if (!ns || (unsigned)ns->type != ss->type || ns->userdata != ss->userdata) { viol("substates", fmt("state %u sub-state %u does not describe its NFA state; patterns %s", s, k, pats(d).c_str())); return false; }
				if (ss->type == REX_STATETYPE_ACCEPT) {
					rexdfss_t *as = rex_dfa_accsubstate(dfa, s, acc++);
					if (!as || as->uid != ss->uid || as->userdata != ss->userdata) { viol("substates", fmt("state %u accepting sub-states disagree; patterns %s", s, pats(d).c_str())); return false; }
				}
			}
			if (acc != st->naccsubstates) { viol("substates", fmt("state %u lists %u accepting of %u; patterns %s", s, st->naccsubstates, acc, pats(d).c_str())); return false; }
		}
	}
	if (rex_dfa_state(dfa, dfa->nstates)) { viol("tables-range", "state past the end answered"); return false; }
	return true;
}

// Walk the automaton and the reference together until every reachable pair has been driven by every
// class of characters: equality of languages, not of samples.
static bool x02_product(Db &d, rexdfa_t *dfa) {
	std::set<uint32_t> bset; bset.insert(0); bset.insert(CMAX);
	for (auto &p : d.pats) p.ref->bounds(bset);
	V<uint32_t> reps(bset.begin(), bset.end());
	struct Node { rexuint_t s; V<Pos> st; bool start; U32 how; };
	V<Node> todo; std::unordered_set<uint64_t> seen;
	todo.push_back(Node{REX_DFA_STARTSTATE, V<Pos>(d.pats.size()), true, U32()});
	std::hash<Pos> hp;
	while (!todo.empty()) {
		Node n = todo.back(); todo.pop_back();
		V<uint32_t> cs = reps;
		rexdfs_t *s = rex_dfa_state(dfa, n.s);
		for (unsigned t = 0; t < s->ntrans && t < 200; t++) { cs.push_back(rex_dfa_transition(dfa, n.s, t)->lowin); cs.push_back(rex_dfa_transition(dfa, n.s, t)->highin); }
		for (uint32_t c : cs) {
			Node m; m.start = false; m.s = rex_dfa_next(dfa, n.s, c);
			uint64_t h = m.s; bool canaccept = false;
			for (size_t i = 0; i < d.pats.size(); i++) {
				m.st.push_back(d.pats[i].ref->step(RefRe::St{n.start, n.st[i]}, c));
				h = hmix(h, hp(m.st[i]));
				canaccept |= (m.st[i] & d.pats[i].ref->useful).any();
			}
			feat("product_steps");
			V<int> want = accepting(d, m.st);
			rexdfs_t *ms = rex_dfa_state(dfa, m.s);
			S ctx;
			bool ok = (ms->type == REX_STATETYPE_ACCEPT) == !want.empty() && !(m.s == REX_DFA_DEADSTATE && canaccept) && (m.s == REX_DFA_DEADSTATE) == (ms->type == REX_STATETYPE_DEAD);
			if (ok && ms->type == REX_STATETYPE_ACCEPT) {
				ok = ms->naccsubstates == want.size();
				for (size_t k = 0; ok && k < want.size(); k++) ok = rex_dfa_accsubstate(dfa, m.s, (rexuint_t)k)->userdata == d.ud[want[k]];
			}
			if (!ok) {
				S w, gs; for (int k : want) w += fmt("%llu ", (unsigned long long)d.ud[k]);
				for (unsigned k = 0; k < ms->naccsubstates; k++) gs += fmt("%llu ", (unsigned long long)rex_dfa_accsubstate(dfa, m.s, k)->userdata);
				U32 how = n.how; how.push_back(c);
				S hs; for (uint32_t x : how) hs += fmt("U+%X ", x);
				viol("dfa-language", fmt("patterns %s after input %s: DFA state %u type %u accepts [%s], the patterns accept [%s]%s", pats(d).c_str(), hs.c_str(), m.s, ms->type, gs.c_str(), w.c_str(), m.s == 0 && canaccept ? " (dead too early)" : ""));
				return false;
			}
			if (m.s != REX_DFA_DEADSTATE && seen.insert(h).second && seen.size() < 3000) { m.how = n.how; if (m.how.size() < 40) m.how.push_back(c); todo.push_back(m); }
		}
	}
	feat("product_states", seen.size());
	return true;
}
static bool x02_sims(Rng &g, Db &d, rexdb_t *dfadb) {
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	rex_dfasimulator_t *ds = rex_dfasimulator_create();
	bool ok = true;
	for (int t = 0; t < 4 && ok; t++) {
		const Pat &p = g.pick(d.pats);
		U32 in = mkinput(g, *p.ref, 1 + g.u(25));
		S bytes = to8(in);
		Exact e(bytes);
		rex_nfasimulator_start(ns, d.nfa, d.start);
		rex_dfasimulator_start(ds, dfadb, REX_DFA_STARTSTATE);
		V<Pos> st(d.pats.size()); bool start = true, nalive = true, dalive = true;
		size_t longest = 0, nacc = 0, done = 0;
		for (size_t i = 0; i < in.size() && ok; i++) {
			for (size_t k = 0; k < d.pats.size(); k++) st[k] = d.pats[k].ref->step(RefRe::St{start, st[k]}, in[i]);
			start = false;
			S one; put8(one, in[i]);
			done += one.size();
			V<int> want = accepting(d, st);
			if (!want.empty()) longest = done;
			std::multiset<unsigned long long> w, n; for (int k : want) w.insert((unsigned long long)d.ud[k]);
			bool anypos = false; for (auto &x : st) anypos |= x.any();
			if (nalive) {
				size_t before = r_array_length(ns->accepts);
				nalive = rex_nfasimulator_next(ns, d.nfa, in[i], one.size()) != 0;
				for (size_t k = before; k < r_array_length(ns->accepts); k++) {
					rex_accept_t *a = (rex_accept_t *)r_array_slot(ns->accepts, k);
					n.insert((unsigned long long)((rexstate_t *)a->state)->userdata);
					if (a->count != i + 1 || a->inputsize != done) { viol("nfa-accept", fmt("accept recorded at %zu chars/%zu bytes, is at %zu/%zu; patterns %s", (size_t)a->count, (size_t)a->inputsize, i + 1, done, pats(d).c_str())); ok = false; }
				}
				nacc += n.size();
			}
			if (n != w && ok) { viol("nfa-language", fmt("patterns %s input %s: after %zu characters the NFA accepts %zu patterns, expected %zu (or different ones)", pats(d).c_str(), show(bytes).c_str(), i + 1, n.size(), w.size())); ok = false; }
			if (nalive != anypos && ok && !nalive) { viol("nfa-dead", fmt("patterns %s input %s: simulation died after %zu characters", pats(d).c_str(), show(bytes).c_str(), i + 1)); ok = false; }
			if (dalive) {
				size_t before = r_array_length(ds->accepts);
				dalive = rex_dfasimulator_next(ds, dfadb, in[i], (int)one.size()) > 0;
				bool acc = r_array_length(ds->accepts) > before;
				if (acc != !want.empty() && ok) { viol("dfadb-language", fmt("patterns %s input %s: DFA database accepting=%d after %zu characters, expected %d", pats(d).c_str(), show(bytes).c_str(), acc, i + 1, (int)!want.empty())); ok = false; }
			} else if (!want.empty() && ok) { viol("dfadb-language", fmt("patterns %s input %s: DFA database died before an accepting prefix", pats(d).c_str(), show(bytes).c_str())); ok = false; }
			feat("sim_steps");
		}
		if (ok) {
			size_t r1 = rex_dfasimulator_run(ds, dfadb, REX_DFA_STARTSTATE, e.p, e.n);
			size_t r2 = rex_nfasimulator_run(ns, d.nfa, d.start, e.p, e.n);
			size_t l2 = r2 ? ((rex_accept_t *)r_array_lastslot(ns->accepts))->inputsize : 0;
			if (r1 != longest || l2 != longest || r2 != nacc) { viol("run", fmt("patterns %s input %s: longest %zu, DFA run %zu, NFA run %zu (%zu accepts, stepwise %zu)", pats(d).c_str(), show(bytes).c_str(), longest, r1, l2, r2, nacc)); ok = false; }
		}
	}
	rex_nfasimulator_destroy(ns); rex_dfasimulator_destroy(ds);
	return ok;
}
// An automaton built state by state through the public interface: several transitions of one state on the same
// character, shared and unreachable states, loops of empty transitions, any start state.
static void x02_hand(Rng &g) {
	struct T { uint32_t lo, hi; size_t to; };
	size_t n = 1 + g.u(g.p(30) ? 14 : 7), cap = 2000;
	V<V<T>> tr(n); V<V<size_t>> et(n); V<bool> acc(n); V<rexuserdata_t> ud(n);
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
	size_t start = g.p(60) ? 0 : g.u(n);
	S desc = fmt("start %zu;", start);
	for (size_t i = 0; i < n; i++) {
		acc[i] = i != start && g.p(35); ud[i] = acc[i] ? (rexuserdata_t)g.u(40) : 0;
		size_t uid = rex_db_createstate(nfa, acc[i] ? REX_STATETYPE_ACCEPT : i == start ? REX_STATETYPE_START : REX_STATETYPE_NONE);
		if (uid != i) { viol("createstate", fmt("state %zu got uid %zu", i, uid)); rex_db_destroy(nfa); return; }
		if (acc[i]) { rex_state_setuserdata(rex_db_getstate(nfa, i), ud[i]); desc += fmt(" %zu accepts %d;", i, (int)ud[i]); }
	}
	int lots = g.p(30) ? 5 : 3;
	auto edge = [&](uint32_t lowest) -> uint32_t { return g.p(8) ? (g.p(50) ? CMAX : 0x10ffff) : g.p(5) ? 0 : lowest + g.u(10); };
	for (size_t i = 0; i < n; i++) {
		int k = (int)g.u(lots);
		while (k--) {
			T t{edge('a'), 0, (size_t)g.u(n)}; t.hi = g.p(45) ? t.lo : edge('a');
			if (g.p(50)) rex_state_addtransition(rex_db_getstate(nfa, i), t.lo, t.hi, t.to); else rex_db_addrangetrasition(nfa, t.lo, t.hi, i, t.to);
			if (t.hi < t.lo) std::swap(t.lo, t.hi);
			tr[i].push_back(t); desc += fmt(" %zu-[%x-%x]->%zu", i, t.lo, t.hi, t.to);
		}
		k = (int)g.u(3);
		while (k-- && g.p(60)) { size_t to = g.u(n); et[i].push_back(to); if (g.p(50)) rex_db_addtrasition_e(nfa, i, to); else rex_state_addtransition_e_dst(rex_db_getstate(nfa, i), rex_db_getstate(nfa, to)); desc += fmt(" %zu->%zu", i, to); }
	}
	crumb("automaton " + desc);
	distinct(hstr(desc));
	typedef std::set<size_t> Set;
	auto close = [&](Set s) { V<size_t> todo(s.begin(), s.end()); while (!todo.empty()) { size_t u = todo.back(); todo.pop_back(); for (size_t v : et[u]) if (s.insert(v).second) todo.push_back(v); } return s; };
	auto step = [&](const Set &s, uint32_t c) { Set o; for (size_t u : s) for (auto &t : tr[u]) if (t.lo <= c && c <= t.hi) o.insert(t.to); return close(o); };
	V<bool> useful(n); for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < n; i++) if (!useful[i]) { bool u = acc[i]; for (auto &t : tr[i]) u = u || useful[t.to]; for (size_t v : et[i]) u = u || useful[v]; if (u) { useful[i] = true; ch = true; } } }
	std::set<uint32_t> bs{0, 'a', 'z', CMAX}; for (auto &v : tr) for (auto &t : v) { bs.insert(t.lo); bs.insert(t.hi); if (t.lo) bs.insert(t.lo - 1); if (t.hi < CMAX) bs.insert(t.hi + 1); }
	uint64_t h0 = nfahash(nfa);
	rexdb_t *dfadb = rex_db_createdfa(nfa, start);
	if (!dfadb) { viol("convert", "no DFA for " + desc); rex_db_destroy(nfa); return; }
	bool ok = true;
	if (nfahash(nfa) != h0) { viol("source-changed", "converting changed the source database; " + desc); ok = false; }
	rexdfa_t *dfa = rex_db_todfa(dfadb, (int)g.u(2));
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	struct Node { rexuint_t s; Set st; U32 how; };
	V<Node> todo{Node{REX_DFA_STARTSTATE, close(Set{start}), U32()}};
	std::set<std::pair<rexuint_t, Set>> seen;
	while (ok && !todo.empty()) {
		Node nd = todo.back(); todo.pop_back();
		for (uint32_t c : bs) {
			Node m; m.s = rex_dfa_next(dfa, nd.s, c); m.st = step(nd.st, c); m.how = nd.how; m.how.push_back(c);
			feat("hand_steps");
			rexdfs_t *ms = rex_dfa_state(dfa, m.s);
			V<size_t> want; bool can = false; for (size_t u : m.st) { if (acc[u]) want.push_back(u); if (useful[u]) can = true; }
			V<size_t> got; V<rexuserdata_t> gud;
			if (ms->type == REX_STATETYPE_ACCEPT) for (unsigned k = 0; k < ms->naccsubstates; k++) { rexdfss_t *a = rex_dfa_accsubstate(dfa, m.s, k); got.push_back(a->uid); gud.push_back(a->userdata); }
			V<rexuserdata_t> wud; for (size_t u : want) wud.push_back(ud[u]);
			if ((ms->type == REX_STATETYPE_ACCEPT) != !want.empty() || got != want || gud != wud || (m.s == REX_DFA_DEADSTATE && can)) {
				S hs; for (uint32_t x : m.how) hs += fmt("U+%X ", x);
				viol("hand-language", fmt("automaton %s after %s: DFA state %u type %u accepts %zu states, expected %zu%s", desc.c_str(), hs.c_str(), m.s, ms->type, got.size(), want.size(), m.s == REX_DFA_DEADSTATE && can ? " (dead too early)" : ""));
				ok = false; break;
			}
			if (m.s != REX_DFA_DEADSTATE && seen.insert({m.s, m.st}).second && seen.size() < cap && m.how.size() < 60) todo.push_back(m);
		}
	}
	for (int t = 0; ok && t < 4; t++) {
		Set st = close(Set{start}); bool alive = true;
		rex_nfasimulator_start(ns, nfa, start);
		V<uint32_t> bv(bs.begin(), bs.end());
		for (int i = 0; ok && alive && i < 12; i++) {
			uint32_t c = g.pick(bv); size_t before = r_array_length(ns->accepts);
			st = step(st, c);
			alive = rex_nfasimulator_next(ns, nfa, c, 1) != 0;
			std::multiset<size_t> w, got; for (size_t u : st) if (acc[u]) w.insert(u);
			for (size_t k = before; k < r_array_length(ns->accepts); k++) got.insert(((rexstate_t *)((rex_accept_t *)r_array_slot(ns->accepts, k))->state)->uid);
			if (got != w || alive != !st.empty()) { viol("hand-nfa", fmt("automaton %s: the simulation reports %zu accepting states after %d characters, expected %zu; alive %d", desc.c_str(), got.size(), i + 1, w.size(), (int)alive)); ok = false; }
			feat("hand_sim_steps");
		}
	}
	feat("hand_states", seen.size());
	rex_nfasimulator_destroy(ns);
	rex_dfa_destroy(dfa); rex_db_destroy(dfadb); rex_db_destroy(nfa);
}
// Many short words at once, each position one letter or either of two: the state sets are large and
// differ in few members. Every string over the letters is driven; what accepts is known word by word.
static void x02_words(Rng &g) {
	bool huge = g.u(12) == 0; int n = (int)(huge ? g.r(260, 420) : g.r(40, 150)), L = (int)(huge ? g.r(2, 3) : g.r(2, 5)), both = (int)g.pick({60, 85, 97}), nch = (int)g.r(2, 3);
	struct W { V<int> pos; rexuserdata_t ud; };
	V<W> ws; S all;
	rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA); long start = -1;
	struct Free { rexdb_t *a, *b; rexdfa_t *d; ~Free() { if (d) rex_dfa_destroy(d); if (b) rex_db_destroy(b); rex_db_destroy(a); } } fr{nfa, NULL, NULL};
	for (int i = 0; i < n; i++) {
		W w; w.ud = (rexuserdata_t)g.u(1000); S t;
		for (int k = (int)g.r(1, L); k > 0; k--) {
			int m = g.p(both) ? (1 << nch) - 1 : 1 << g.u(nch);
			w.pos.push_back(m);
			S cs; for (int c = 0; c < nch; c++) if (m >> c & 1) cs += (char)('a' + c);
			t += cs.size() == 1 ? cs : "[" + cs + "]";
		}
		Exact e(t);
		start = rex_db_addexpression(nfa, start < 0 ? (size_t)-1 : (size_t)start, e.p, e.n, w.ud);
		CHECK(start >= 0, "refused", "%s is refused", t.c_str());
		ws.push_back(w); all += t + " ";
	}
	crumb("words " + all); distinct(hstr(all));
	fr.b = rex_db_createdfa(nfa, start); CHECK(fr.b, "convert", "no DFA for %s", all.c_str());
	rexdfa_t *dfa = fr.d = rex_db_todfa(fr.b, g.p(50)); CHECK(dfa, "convert", "no compact DFA for %s", all.c_str());
	size_t total = 1; for (int k = 0; k < L + 1; k++) total *= (size_t)nch;
	for (size_t x = 0; x < total; x++) {
		rexuint_t st = REX_DFA_STARTSTATE; size_t y = x; S in;
		for (int k = 0; k <= L; k++) {
			int c = (int)(y % nch); y /= nch; in += (char)('a' + c);
			st = rex_dfa_next(dfa, st, (rexchar_t)('a' + c));
			V<rexuserdata_t> want; bool more = false;
			for (auto &w : ws) {
				if (w.pos.size() < in.size()) continue;
				bool fits = true; for (size_t q = 0; q < in.size() && fits; q++) fits = w.pos[q] >> (in[q] - 'a') & 1;
				if (fits && w.pos.size() == in.size()) want.push_back(w.ud); else more |= fits;
			}
			rexdfs_t *ds = rex_dfa_state(dfa, st);
			bool ok = (st == REX_DFA_DEADSTATE) == (want.empty() && !more) && (ds->type == REX_STATETYPE_ACCEPT) == !want.empty() && (want.empty() || ds->naccsubstates == want.size());
			for (size_t q = 0; ok && q < want.size(); q++) ok = rex_dfa_accsubstate(dfa, st, (rexuint_t)q)->userdata == want[q];
			CHECK(ok, "dfa-words", "after %s: state %u type %u with %u accepting, %zu words accept, more may follow: %d; words %s", in.c_str(), (unsigned)st, (unsigned)ds->type, (unsigned)ds->naccsubstates, want.size(), more, all.c_str());
			feat("word_steps");
			if (st == REX_DFA_DEADSTATE) break;
		}
	}
	feat("word_sets");
}
static void x02(Rng &g) {
	if (g_idx % 40 == 21) return x02_words(g);
	if (g_idx % 4 == 3) return x02_hand(g);
	Db d;
	if (!mkdb(g, d, (int)g.r(1, 6), 300)) return;
	crumb("patterns " + pats(d));
	distinct(hstr(pats(d)));
	feat(fmt("sets_of_%zu", d.pats.size()));
	uint64_t h0 = nfahash(d.nfa);
	rexdb_t *dfadb = rex_db_createdfa(d.nfa, d.start);
	CHECK(dfadb, "convert", "no DFA for %s", pats(d).c_str());
	bool ok = true;
	if (nfahash(d.nfa) != h0) { viol("source-changed", "converting changed the source database; patterns " + pats(d)); ok = false; }
	for (int sub = 0; sub < 2 && ok; sub++) {
		rexdfa_t *dfa = rex_db_todfa(dfadb, sub);
		if (!dfa) { viol("convert", "no compact DFA for " + pats(d)); ok = false; break; }
		ok = x02_tables(d, dfa, sub) && (sub == (int)(g_idx & 1) ? x02_product(d, dfa) : true);
		feat("dfa_states", dfa->nstates);
		rex_dfa_destroy(dfa);
	}
	if (ok) x02_sims(g, d, dfadb);
	rex_db_destroy(dfadb);
}

// ------------------------------------------------------------------ X03
// Matches of thousands of characters: what is expected is known from how the text is made.
static void x03_long(Rng &g) {
	struct K { const char *pat, *loop, *tail; };
	static const K ks[] = {{"[a-c]+d", "abc", "d"}, {"x[a-y]*z", "abcxy", "z"}, {"(ab|c)+", "c", ""}, {"\xd0\xb6+q", "\xd0\xb6", "q"}, {"k.{0}[^!]*!", "abck", "!"}};
	const K &k = g.pick(ks);
	S pat = k.pat; if (pat[0] == 'k') pat = "k[^!]*!";
	rexregex_t *re = rex_regex_create(pat.data(), (unsigned)pat.size());
	CHECK(re, "refused", "%s is refused", pat.c_str());
	struct Free { rexregex_t *r; ~Free() { rex_regex_destroy(r); } } fr{re};
	size_t L = (size_t)g.r(1, 20000), pre = g.u(g.p(20) ? 9000 : 30);
	S text((size_t)pre, '-'), m;
	if (pat[0] == 'x' || pat[0] == 'k') m += pat[0];
	while (m.size() < L) if (k.loop[0] & 0x80) m += k.loop; else m += k.loop[g.u(strlen(k.loop))];
	if (pat[0] == '(') m = S(L, 'c');
	m += k.tail;
	text += m + "--" + (g.p(50) ? S(g.u(50), '-') : S());
	crumb("pattern " + pat + fmt(" text of %zu + %zu", pre, m.size())); distinct(hstr(text));
	Exact e(text); const char *where = NULL;
	int got = rex_regex_scan(re, REX_ENCODING_UTF8, e.b(), e.e(), &where);
	CHECK(got == (int)m.size() && where == e.b() + pre, "scan", "pattern %s: got length %d at %ld, expected %zu at %zu", pat.c_str(), got, got > 0 ? (long)(where - e.b()) : -1, m.size(), pre);
	feat("long_matches");
}
static void x03(Rng &g) {
	if (g_idx % 50 == 33) return x03_long(g);
	Pat p;
	bool bytes = g.p(35);
	if (!genpat(g, p, 40, bytes, (int)g.r(1, 3))) return;
	crumb("pattern " + show(p.text, 1000));
	V<RefRe *> rs{p.ref.get()};
	if (subsets(rs, 450) > 450) { feat("skipped_large"); return; }
	Exact pe(p.text);
	rexregex_t *re = rex_regex_create(pe.p, (unsigned)pe.n);
	if (!re) { viol("refused", "valid pattern refused: " + show(p.text, 2000)); return; }
	distinct(hstr(p.text));
	bool bad = false;
	for (int t = 0; t < 4 && !bad; t++) {
		U32 in; size_t target = 1 + g.u(g.p(20) ? 120 : 24);
		int density = (int)g.pick({3, 15, 40, 80});
		ReGen fill(g, bytes);
		while (in.size() < target) {
			if (g.p(density)) { U32 w = p.ref->walk(g, 1 + g.u(12)); if (g.p(30) && !w.empty()) w.pop_back(); in.insert(in.end(), w.begin(), w.end()); }
			else in.push_back(g.p(60) ? fill.ch() : (uint32_t)('a' + g.u(26)));
		}
		bool bmode = bytes && g.p(60);
		S text = bmode ? tobytes(in) : to8(in);
		if (!bmode && g.p(20)) text = mangle(g, text);
		U32 dec; V<size_t> off; decode(text, bmode, dec, off);
		size_t ci = 0;   // current character
		int found = 0;
		while (ci <= dec.size() && !bad) {
			Exact e(text.substr(off[ci]));
			const char *where = (const char *)1;
			int got = rex_regex_scan(re, bmode ? REX_ENCODING_BYTE : REX_ENCODING_UTF8, e.b(), e.e(), &where);
			feat("scan_calls");
			size_t wi = ci, len = 0;
			for (; wi < dec.size(); wi++) if ((len = p.ref->match(dec, wi))) break;
			int want = len ? (int)(off[wi + len] - off[wi]) : 0;
			if (got != want || (want && where != e.b() + (off[wi] - off[ci]))) {
				viol("scan", fmt("pattern %s on %s (%s) from byte %zu: got length %d at %ld, expected %d at %ld", show(p.text, 2000).c_str(), show(text, 1500).c_str(), bmode ? "byte" : "utf8", off[ci], got, got ? (long)(where - e.b()) : -1, want, want ? (long)(off[wi] - off[ci]) : -1));
				bad = true; break;
			}
			if (!want) { feat("scan_none"); break; }
			feat("scan_found");
			ci = wi + len; found++;
			if (ci >= dec.size()) { feat("match_at_end"); }
		}
		if (found > 1) feat("texts_with_several");
	}
	rex_regex_destroy(re);
}

// ------------------------------------------------------------------ X04
// A pattern that is malformed by construction.
static S badpat(Rng &g) {
	Pat p; genpat(g, p, 20, false, 2);
	S v = p.text;
	RePrint pr(g, true, true);
	ReGen rg(g);
	S atom = pr.one(rg.set());
	switch (g.u(16)) {
	case 0: return v + ")";
	case 1: return "(" + v;
	case 2: return v + "()";
	case 3: return v + "|";
	case 4: return "|" + v;
	case 5: return v + "(|" + atom + ")";
	case 6: return v + "(" + atom + "|)";
	case 7: return v + "||" + atom;
	case 8: return atom + "[a-";
	case 9: return atom + "[";
	case 10: return g.pick({S("*"), S("+"), S("?"), S("{2}"), S("}"), S("]")}) + v;
	case 11: return atom + g.pick({S("{x}"), S("{}"), S("{2"), S("{2,"), S("{3,1}"), S("{,2}"), S("{2,1}")});
	case 12: return atom + "\\";
	case 13: return "[" + g.pick({S("]"), S("^]"), S("a-]"), S("--a]"), S("a[b]"), S("#g]"), S("a")});
	case 14: return "(" + v + "))" + atom;
	default: return "";
	}
}
static S hostile(Rng &g) {
	static const char *tok[] = {"(", ")", "[", "]", "{", "}", "*", "+", "?", "|", ".", "\\", "^", "-", "#", "#x", "#0", "a", "b", "0", "1", "2", ",", " ", "\t", "\n", "\r\n", "\\\n", "[^", "a-z", "#65",
		"\xc3\xa9", "\xc4\xaa", "\xf0\x9f\x98\x80", "\xff", "\xc3", "\x80", "{2}", "{0}", "{1,3}", "{,", "\\0", "\\n", "#xFFFFFFFF", "#999999999999999999999", "{00000000002}"};
	S o;
	if (g.p(30)) { Pat p; if (genpat(g, p, 20, false, 3)) o = p.text; int n = (int)g.r(1, 4); while (n-- && !o.empty()) { size_t i = g.u(o.size()); switch (g.u(4)) { case 0: o.erase(i, 1); break; case 1: o.insert(i, g.pick(tok)); break; case 2: o[i] = (char)g.u(256); break; default: o.resize(i); } } return o; }
	if (g.p(5)) { int n = (int)g.r(100, 30000); S t = g.pick({S("("), S("(a|"), S("a|"), S("[a]"), S("(a)"), S("a*"), S("\\")}); while (n--) o += t; return o; }
	int n = (int)g.u(14);
	while (n--) { if (g.p(90)) o += g.pick(tok); else o += (char)g.u(256); }
	if (g.p(5)) o.insert(g.u(o.size() + 1), 1, '\0');
	return o;
}
// how much the counted repetitions can multiply the pattern; the workload keeps it moderate
static double blowup(const S &p) {
	double f = 1;
	for (size_t i = 0; i < p.size(); i++) if (p[i] == '{' || p[i] == ',') {
		double v = 0; size_t j = i + 1;
		while (j < p.size() && (isdigit((unsigned char)p[j]) || p[j] == ' ' || p[j] == '\t' || !p[j])) { if (isdigit((unsigned char)p[j])) v = v * 10 + (p[j] - '0'); j++; }
		f *= std::max(1.0, v + 1);
	}
	return f * (double)std::max<size_t>(p.size(), 1);
}
static void x04(Rng &g) {
	Db d;
	d.nfa = rex_db_create(REXDB_TYPE_NFA);
	S hist;
	int steps = (int)g.r(2, 9);
	V<RefRe *> rs;
	rex_nfasimulator_t *ns = rex_nfasimulator_create();
	std::set<unsigned long long> strangers;
	bool ok = true;
	for (int i = 0; i < steps && ok; i++) {
		int what = (int)g.u(3);
		S text; Pat p; bool mustfail = false, good = false;
		if (what == 0 && genpat(g, p, 15, false, 2)) {
			good = true; text = p.text;
			rs.push_back(p.ref.get());
			if (subsets(rs, 200) > 200) { rs.pop_back(); continue; }
		} else if (what == 1) { text = badpat(g); mustfail = true; }
		else { text = hostile(g); if (blowup(text) > 40000) { feat("skipped_large"); continue; } }
		hist += (good ? "+" : mustfail ? "-" : "?") + show(text, 300) + " ";
		crumb(hist);
		distinct(hstr(text));
		if (!good && g.p(50)) {   // stand-alone expression
			// subset construction of garbage can explode, so only short patterns become stand-alone automata
			if (mustfail || blowup(text) < 60) {
				Exact e(text);
				rexregex_t *re = rex_regex_create(e.p, (unsigned)e.n);
				feat(re ? "standalone_accepted" : "standalone_refused");
				if (re) {
					S in; for (int k = 0; k < 12; k++) in += (char)g.u(256);
					Exact ie(in); const char *w;
					int m = rex_regex_match(re, REX_ENCODING_UTF8, ie.b(), ie.e()), sc = rex_regex_scan(re, g.u(2), ie.b(), ie.e(), &w);
					if (m < 0 || m > 12 || sc < 0 || sc > 12) { viol("range", "match length outside the text for pattern " + show(text)); ok = false; }
				}
				if (re && mustfail) { viol("accepted-bad", "malformed pattern compiled: " + show(text, 2000)); ok = false; }
				if (re) rex_regex_destroy(re);
			}
		}
		Exact e(text);
		rexuserdata_t ud = 1000 + i;
		size_t states = rex_db_numstates(d.nfa);
		uint64_t h0 = nfahash(d.nfa);
		long r = rex_db_addexpression(d.nfa, d.start < 0 ? (size_t)-1 : (size_t)d.start, e.p, e.n, ud);
		feat(r < 0 ? "refused" : "accepted");
		if (r < 0) {
			if (good) { viol("refused", "valid pattern refused after " + hist); ok = false; }
			if (ok && (rex_db_numstates(d.nfa) != states || nfahash(d.nfa) != h0)) { viol("db-changed", "a refused pattern changed the database: " + hist); ok = false; }
		} else {
			if (mustfail) { viol("accepted-bad", "malformed pattern compiled: " + show(text, 2000)); ok = false; }
			if (d.start >= 0 && r != d.start) { viol("start-moved", fmt("the start state moved from %ld to %ld: %s", d.start, r, hist.c_str())); ok = false; }
			d.start = r;
			if (good) { d.pats.push_back(p); d.ud.push_back(ud); } else strangers.insert((unsigned long long)ud);
		}
		if (g.p(10) && d.start >= 0) {   // wrong previous state is refused too
			long q = rex_db_addexpression(d.nfa, rex_db_numstates(d.nfa) + g.u(10), "a", 1, 7);
			if (q >= 0) { viol("bad-prev", "a non-existent previous state was accepted: " + hist); ok = false; }
		}
		// what was compiled before still matches exactly as before
		for (int t = 0; t < 2 && ok && !d.pats.empty(); t++) {
			U32 in = mkinput(g, *g.pick(d.pats).ref, 1 + g.u(12));
			S b = to8(in); Exact ie(b);
			rex_nfasimulator_run(ns, d.nfa, d.start, ie.p, ie.n);
			std::multiset<std::pair<size_t, unsigned long long>> got, want;
			for (size_t k = 0; k < r_array_length(ns->accepts); k++) {
				rex_accept_t *a = (rex_accept_t *)r_array_slot(ns->accepts, k);
				unsigned long long u = (unsigned long long)((rexstate_t *)a->state)->userdata;
				if (!strangers.count(u)) got.insert({(size_t)a->count, u});
			}
			for (size_t k = 0; k < d.pats.size(); k++) {
				RefRe::St st = d.pats[k].ref->begin();
				for (size_t j = 0; j < in.size(); j++) { Pos q = d.pats[k].ref->step(st, in[j]); if (q.none()) break; if (d.pats[k].ref->acc(q)) want.insert({j + 1, (unsigned long long)d.ud[k]}); st = RefRe::St{false, q}; }
			}
			feat("after_checks");
			if (got != want) { viol("db-language", fmt("after %s the text %s has %zu accepts by the good patterns, expected %zu (or different)", hist.c_str(), show(b).c_str(), got.size(), want.size())); ok = false; }
		}
	}
	rex_nfasimulator_destroy(ns);
}

bool select_property(const S &p) {
	if (p == "X01") g_fn = x01;
	else if (p == "X02") g_fn = x02;
	else if (p == "X03") g_fn = x03;
	else if (p == "X04") g_fn = x04;
	else return false;
	return true;
}
