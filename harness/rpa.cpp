// Grammar engine monitors: P01-P05, P07-P09 (P06 under TSan).
#include "common.h"
#include "peg.h"
#include <thread>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include "rtypes.h"
#include "rlib/rarray.h"
extern "C" {
#include "rpa/rpa.h"
#include "rpa/rpaerror.h"
#include "rpa/rparecord.h"
#include "rpa/rpastatpriv.h"
#include "rpa/rpaparser.h"
#include "rpa/rpadbexpriv.h"
}
#include "ptext.h"

struct Cfg { int opt = 1, bitmap = 1, nocache = 0; };
static S cfgs(const Cfg &c) { return fmt("opt=%d bitmap=%d cache=%d", c.opt, c.bitmap, !c.nocache); }

struct Db {
	rpadbex_t *d;
	Db() : d(rpa_dbex_create()) {}
	~Db() { rpa_dbex_destroy(d); }
	Db(const Db &) = delete;
	void cfg(const Cfg &c) { rpa_dbex_cfgset(d, RPA_DBEXCFG_OPTIMIZATIONS, c.opt); rpa_dbex_cfgset(d, RPA_DBEXCFG_BITMAP, c.bitmap); }
	// load every part, close, compile; empty string when all went well
	S load(const V<S> &parts, bool open = true) {
		if (open && rpa_dbex_open(d) != 0) return "open failed";
		for (auto &p : parts) {
			Exact e(p);
			long n = rpa_dbex_load(d, e.b(), e.n);
			if (n != (long)p.size()) return fmt("load returned %ld of %zu, error %ld", n, p.size(), rpa_dbex_lasterror(d));
		}
		rpa_dbex_close(d);
		if (rpa_dbex_compile(d) != 0) { rpa_errinfo_t ei; rpa_dbex_lasterrorinfo(d, &ei); return fmt("compile failed, error %ld", rpa_dbex_lasterror(d)); }
		return "";
	}
	rparule_t rid(const S &n) { return rpa_dbex_lookup(d, n.data(), (unsigned)n.size()); }
};
struct St {
	rpastat_t *s;
	St(Db &d, const Cfg &c = Cfg()) : s(rpa_stat_create(d.d, 0)) { rpa_stat_cachedisable(s, c.nocache); }
	~St() { rpa_stat_destroy(s); }
	St(const St &) = delete;
};

struct Real { long ret = 0; int chars = 0; long err = 0; S name; long eoff = 0; uint32_t euid = 0; V<Ev> ev; S bad; long where = -1; };

// Reads the records of one parse back as events, checking every field on the way.
static void read_records(Db &d, rarray_t *recs, size_t from, const Grammar &gr, const Text &t, const char *base, Real &r) {
	size_t n = (size_t)rpa_records_length(recs);
	V<size_t> st;
	for (size_t i = from; i < n; i++) {
		rparecord_t *p = rpa_records_slot(recs, (long)i);
		int rule = -1;
		for (size_t k = 0; k < gr.r.size(); k++) if (p->rule && gr.r[k].name == p->rule) rule = (int)k;
		if (rule < 0) { r.bad = fmt("record %zu names no rule: %s", i, p->rule ? show(p->rule).c_str() : "(null)"); return; }
		if (p->type != RPA_RECORD_START && p->type != RPA_RECORD_END) { r.bad = fmt("record %zu has type %u", i, p->type); return; }
		if ((long)p->ruleid != (long)d.rid(gr.r[rule].name)) { r.bad = fmt("record %zu of %s has rule id %u, the rule is %ld", i, p->rule, p->ruleid, (long)d.rid(gr.r[rule].name)); return; }
		if (p->ruleuid != gr.r[rule].uid) { r.bad = fmt("record %zu of %s has user id %u, expected %u", i, p->rule, p->ruleuid, gr.r[rule].uid); return; }
		if (p->usertype != 0) { r.bad = fmt("record %zu has user type %u", i, p->usertype); return; }
		if (p->input < base || p->input > base + t.b.size() || p->inputoff != (unsigned long)(p->input - base)) { r.bad = fmt("record %zu: offset %lu does not lie where its input does (%ld)", i, p->inputoff, (long)(p->input - base)); return; }
		auto a = t.idx.find(p->inputoff);
		if (a == t.idx.end()) { r.bad = fmt("record %zu starts inside a character (offset %lu)", i, p->inputoff); return; }
		int len = t.chars(a->second, (long)p->inputsiz);
		if (len < 0) { r.bad = fmt("record %zu has size %lu, not a whole number of characters", i, p->inputsiz); return; }
		Ev e{rule, p->type == RPA_RECORD_END, a->second, len};
		if (!e.end) st.push_back(r.ev.size());
		else {
			if (st.empty()) { r.bad = fmt("record %zu ends a rule that never started", i); return; }
			Ev &b = r.ev[st.back()];
			if (b.rule != e.rule || b.at != e.at || b.len != e.len) { r.bad = fmt("record %zu does not close the record it nests with", i); return; }
			st.pop_back();
		}
		r.ev.push_back(e);
	}
	if (!st.empty()) r.bad = "a start record has no end record";
}

static void errinfo(rpastat_t *s, Real &r) {
	r.err = rpa_stat_lasterror(s);
	if (r.err) {
		rpa_errinfo_t ei; memset(&ei, 0, sizeof ei);
		rpa_stat_lasterrorinfo(s, &ei);
		if (ei.mask & RPA_ERRINFO_NAME) r.name = S(ei.name, strnlen(ei.name, sizeof ei.name));
		if (ei.mask & RPA_ERRINFO_OFFSET) r.eoff = (long)ei.offset;
		if (ei.mask & RPA_ERRINFO_RULEUID) r.euid = ei.ruleuid;
	}
}

// One match (recs null) or parse at character p of t; the text sits in its own exact allocation.
// (or, with a home, at the end of that allocation, over whatever text was there before).
struct Place { Exact own; const char *base; const char *b() const { return base; } const char *e() const { return base + n; } size_t n;
	Place(const S &t, Exact *home) : own(home ? S() : t), base(own.p), n(t.size()) { if (home) { char *w = home->p + home->n - n; memcpy(w, t.data(), n); base = w; } } };
static Real run(Db &d, St &s, rparule_t rid, const Text &t, int p, rarray_t *recs, const Grammar *gr, Exact *home = NULL) {
	Place e(t.b, home);
	Real r;
	size_t from = recs ? (size_t)rpa_records_length(recs) : 0;
	r.ret = recs ? rpa_stat_parse(s.s, rid, (unsigned)t.enc, e.b() + t.off[p], e.b(), e.e(), recs)
	             : rpa_stat_match(s.s, rid, (unsigned)t.enc, e.b() + t.off[p], e.b(), e.e());
	r.chars = r.ret > 0 ? t.chars(p, r.ret) : (int)r.ret;
	if (r.ret < 0) errinfo(s.s, r);
	if (recs && gr && r.ret > 0) read_records(d, recs, from, *gr, t, e.b(), r);
	if (recs && r.ret == 0 && (size_t)rpa_records_length(recs) != from) r.bad = fmt("a parse that matched nothing left %zu records, %zu were there before", (size_t)rpa_records_length(recs), from);
	return r;
}
static S evs(const V<Ev> &v, const Grammar &g) {
	S o;
	for (auto &e : v) o += fmt("%s%s[%d+%d] ", e.end ? "/" : "", g.r[e.rule].name.c_str(), e.at, e.len);
	return o.substr(0, 1500);
}

// ------------------------------------------------------------------ left recursion reference
struct LrPeg {
	const Grammar &g; const U32 &t;
	V<std::set<int>> left;      // rules reachable through leading references, closed
	struct Head { int rule, pos, seed; V<Ev> ev; bool used; };
	V<Head> heads;
	V<Ev> out; long steps = 0, limit = 400000; bool over = false; int depth = 0; int maxdepth = 400;
	bool unused = false;        // some growing step got longer without the previous result
	LrPeg(const Grammar &G, const U32 &T) : g(G), t(T) {
		left.resize(g.r.size());
		for (size_t i = 0; i < g.r.size(); i++) lead(g.r[i].body, left[i]);
		for (bool ch = true; ch;) { ch = false; for (auto &l : left) { auto c = l; for (int x : c) for (int y : left[x]) if (l.insert(y).second) ch = true; } }
	}
	static void lead(const Alt &a, std::set<int> &o) { for (auto &b : a.br) leads(b.seq, o); }
	static void leads(const V<Item> &s, std::set<int> &o) {
		for (auto &it : s) {
			if (it.k == K_REF) o.insert(it.rule);
			if (it.k == K_GRP) lead(*it.sub, o);
			if (Gen::eats(it)) return;
		}
	}
	bool reaches(int r, int h) const { return r == h || left[r].count(h); }
	bool loopy(const Branch &b, int h) const { std::set<int> l; leads(b.seq, l); for (int x : l) if (reaches(x, h)) return true; return false; }
	bool rec(int r) const { return left[r].count(r); }
	int core(const Item &it, int p, int ctx) {
		if (++steps > limit) over = true;
		if (over) return -1;
		if (it.k == K_GRP) return alt(*it.sub, p, ctx);
		if (it.k == K_REF) return rule(it.rule, p, ctx);
		Peg one(g, t, false);
		if (it.k == K_NOT) { size_t m = out.size(); int e = item(*it.in, p, ctx); out.resize(m); return e >= 0 || p >= (int)t.size() ? -1 : p + 1; }
		return p < (int)t.size() && one.one(it, t[p]) ? p + 1 : -1;
	}
	int item(const Item &it, int p, int ctx) {
		size_t m = out.size();
		if (!it.q || it.q == '?') { int e = core(it, p, ctx); if (e < 0) { out.resize(m); return it.q ? p : -1; } return e; }
		int at = p;
		for (;;) { size_t k = out.size(); int e = core(it, at, at == p ? ctx : -1); if (over) return -1; if (e <= at) { out.resize(k); break; } at = e; }
		return it.q == '+' && at == p ? -1 : at;
	}
	// ctx: index of the head being grown at this very position, or -1
	int seq(const V<Item> &s, int p, int ctx) {
		size_t m = out.size();
		bool first = true;
		for (auto &it : s) { int e = item(it, p, first ? ctx : -1); if (e < 0) { out.resize(m); return -1; } if (e > p) first = false; p = e; }
		return p;
	}
	int alt(const Alt &a, int p, int ctx) {
		if (a.br.size() == 1) return seq(a.br[0].seq, p, ctx);
		for (auto &b : a.br) {
			if (ctx >= 0 && heads[ctx].seed > 0 && !loopy(b, heads[ctx].rule)) continue;
			size_t m = out.size();
			int e = seq(b.seq, p, ctx);
			if (over) return -1;
			if (e > p) return e;
			out.resize(m);
		}
		return -1;
	}
	// is the previous result among the records made since m?
	bool has_seed(size_t m, const Head &h) const { return h.used && std::search(out.begin() + (long)m, out.end(), h.ev.begin(), h.ev.end()) != out.end(); }
	int once(int r, int p, int ctx) {
		size_t m = out.size();
		if (g.r[r].emit) out.push_back({r, false, p, 0});
		int e = alt(g.r[r].body, p, ctx);
		if (over || e <= p) { out.resize(m); return -1; }
		if (g.r[r].emit) { out[m].len = e - p; out.push_back({r, true, p, e - p}); }
		return e;
	}
	int rule(int r, int p, int ctx) {
		if (++depth > maxdepth) over = true;
		if (over) { depth--; return -1; }
		int res;
		if (ctx >= 0 && heads[ctx].rule == r) {
			Head &h = heads[ctx];
			if (h.seed <= 0) res = -1;
			else { h.used = true; out.insert(out.end(), h.ev.begin(), h.ev.end()); res = p + h.seed; }
		} else if (ctx >= 0 && reaches(r, heads[ctx].rule)) res = once(r, p, ctx);
		else if (rec(r)) {
			size_t m = out.size();
			int me = (int)heads.size();
			heads.push_back({r, p, 0, {}, false});
			for (;;) {
				out.resize(m);
				heads[me].used = false;
				int e = once(r, p, me);
				if (over || e - p <= heads[me].seed) break;
				if (heads[me].seed > 0 && !has_seed(m, heads[me])) unused = true;
				heads[me].seed = e - p;
				heads[me].ev.assign(out.begin() + (long)m, out.end());
			}
			out.resize(m);
			Head h = heads[me];
			heads.pop_back();
			if (h.seed > 0) { out.insert(out.end(), h.ev.begin(), h.ev.end()); res = p + h.seed; } else res = -1;
		} else res = once(r, p, -1);
		depth--;
		return res;
	}
	int match(int r, int p) { out.clear(); heads.clear(); steps = 0; over = false; unused = false; depth = 0; return rule(r, p, -1); }
};

static uint64_t case_hash(const V<S> &p, uint64_t h = 7) { for (auto &s : p) h = hstr(s, h); return h; }

// ------------------------------------------------------------------ P01 / P03 / P05
static int pick_enc(Rng &g, const U32 &u) {
	bool bytes = true; for (uint32_t c : u) if (c > 255) bytes = false;
	int k = (int)g.u(bytes ? 3 : 2);
	return k == 0 ? RPA_ENCODING_UTF8 : k == 1 ? RPA_ENCODING_UTF16LE : RPA_ENCODING_BYTE;
}

static void p01(Rng &g) {
	Gen gen(g, (int)g.r(1, 6), 4 | (g.p(60) ? 1 : 0) | (g.p(40) ? 2 : 0));
	Grammar gr = gen.grammar();
	int layout = g.p(75);
	V<int> ord = order_of(g, gr.r.size(), g.p(60));
	V<S> parts = parts_of(g, gr, layout, ord);
	crumb("grammar " + joined(parts));
	distinct(case_hash(parts));
	Db d; S err = d.load(parts);
	CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), joined(parts).c_str());
	// the same grammar laid out another way
	V<S> parts2 = parts_of(g, gr, 1 - layout, order_of(g, gr.r.size(), true));
	Db d2; err = d2.load(parts2);
	CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), joined(parts2).c_str());
	// and one rule's body as an anonymous rule
	Db d3; int anon = (int)g.u(gr.r.size());
	bool useanon = g.p(40);
	if (useanon) {
		V<S> p3 = parts_of(g, gr, layout, ord);
		Printer pr(g, gr, 0);
		p3.push_back("\n" + pr.alt(gr.r[anon].body));
		err = d3.load(p3);
		CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), joined(p3).c_str());
	}
	St s(d), s2(d2), s3(d3);
	int n = (int)g.r(3, 7);
	for (int i = 0; i < n; i++) {
		int r = g.p(60) ? 0 : (int)g.u(gr.r.size());
		Sampler sm(g, gr);
		U32 u = sm.text(r, text_room(g, gr, 14));
		int p = g.p(75) ? 0 : (int)g.u(u.size() + 1);
		Peg ref(gr, u, false);
		int e = ref.match(r, p);
		if (ref.over) { feat("reference_limit"); continue; }
		int want = e > 0 ? e - p : 0;
		if (want < 0) want = 0;
		Text t(u, RPA_ENCODING_UTF8);
		crumb("rule " + gr.r[r].name + fmt(" at %d of ", p) + shu(u) + " grammar " + joined(parts));
		Real a = run(d, s, d.rid(gr.r[r].name), t, p, NULL, NULL);
		CHECK(a.ret >= 0 && a.chars == want, "accepts", "rule %s at %d of %s: matched %ld bytes (%d characters), the grammar gives %d; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), a.ret, a.chars, want, joined(parts).c_str());
		Real b = run(d2, s2, d2.rid(gr.r[r].name), t, p, NULL, NULL);
		CHECK(b.ret >= 0 && b.chars == want, "layout", "rule %s at %d of %s: matched %ld bytes (%d characters), the grammar gives %d; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), b.ret, b.chars, want, joined(parts2).c_str());
		if (useanon && r == anon) {
			Real c = run(d3, s3, rpa_dbex_last(d3.d), t, p, NULL, NULL);
			CHECK(c.ret >= 0 && c.chars == want, "anonymous", "anonymous copy of %s at %d of %s: matched %d characters, the grammar gives %d; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), c.chars, want, joined(parts).c_str());
			feat("anonymous");
		}
		feat(want ? "matches" : "non_matches");
		if (want && want < (int)u.size() - p) feat("proper_prefix");
		feat("rules_visited", ref.visited.size());
	}
	for (auto &r : gr.r) {
		struct F { static void go(const Alt &a) { if (a.br.size() > 1) feat("op_choice"); for (auto &b : a.br) { if (!b.neg.empty()) feat("op_minus"); for (auto &i : b.seq) { if (i.q) feat(S("op_") + i.q); if (i.k == K_NOT) feat("op_not"); if (i.k == K_REF) feat("op_ref"); if (i.k == K_CLS) feat("op_class"); if (i.sub) { feat("op_group"); go(*i.sub); } } } } };
		F::go(r.body);
	}
}

static S random_directives(Rng &g, Grammar &gr) {
	S head;
	if (g.p(25)) { head = "#!emitnone\n"; bool bare = g.p(60); if (bare) feat("emitnone_alone"); for (auto &r : gr.r) { r.emit = false; r.quiet = bare; if (g.p(50)) { r.emit = true; head += "#!emit " + r.name + "\n"; } else if (g.p(20)) { r.emit = true; r.uid = (uint32_t)g.r(1, 99999); feat("emitid_after_none"); } } if (g.p(20)) { head += "#!emitall\n"; for (auto &r : gr.r) { r.emit = true; r.quiet = false; } } }
	for (auto &r : gr.r) {
		if (r.emit && g.p(30)) { r.uid = (uint32_t)g.r(1, g.p(20) ? 2000000000 : 200); }
		if (r.emit && g.p(20)) { r.emit = false; r.quiet = false; }
	}
	return head;
}
// Printer::directives prints emitid before noemit; an emitid re-enables recording, so order matters.

static void prior_records(Rng &g, rarray_t *recs, size_t n) {
	static const char *nm = "earlier";
	for (size_t i = 0; i < n; i++) {
		rparecord_t r; memset(&r, 0, sizeof r);
		r.rule = nm; r.input = nm; r.inputoff = 3; r.inputsiz = 7; r.type = i % 2 ? RPA_RECORD_END : RPA_RECORD_START; r.ruleid = 77; r.ruleuid = (ruint32)g.u(99); r.usertype = (ruint32)g.u(1000); r.userdata = g.next();
		r_array_add(recs, &r);
	}
}

static Grammar lr_grammar(Rng &g, V<int> &starts);
static U32 lr_text(Rng &g, const Grammar &gr, int r, size_t maxlen);

static void p03(Rng &g) {
	bool lr = g.p(25);
	Grammar gr; V<int> starts;
	if (lr) gr = lr_grammar(g, starts);
	else { Gen gen(g, (int)g.r(2, 6), 4 | (g.p(50) ? 1 : 0) | (g.p(30) ? 2 : 0)); gr = gen.grammar(); }
	V<S> parts;
	{
		S head = random_directives(g, gr);
		if (g.p(4)) {	// behind rules nothing refers to
			S pad;
			for (int k = 0, n = (int)g.r(1, 60); k < n; k++) pad += fmt("unused%d ::= 'x' <:unused%d:>? ['a-c] 'yz'\n", k, (int)g.u(n));
			head = pad + head;
			feat("rules_before_directives");
		}
		parts = parts_of(g, gr, g.p(60), order_of(g, gr.r.size(), g.p(50)), head);
	}
	crumb("grammar " + joined(parts));
	distinct(case_hash(parts));
	Db d; S err = d.load(parts);
	CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), joined(parts).c_str());
	Cfg c; c.nocache = g.p(20);
	St s(d, c);
	rarray_t *recs = rpa_records_create();
	struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{recs};
	prior_records(g, recs, g.p(40) ? 2 * g.u(4) : 0);
	int n = (int)g.r(2, 6);
	for (int i = 0; i < n; i++) {
		int r = lr ? starts[g.u(starts.size())] : g.p(70) ? 0 : (int)g.u(gr.r.size());
		U32 u;
		if (lr) u = lr_text(g, gr, r, 24); else { Sampler sm(g, gr); u = sm.text(r, text_room(g, gr, 16)); }
		int p = g.p(80) ? 0 : (int)g.u(u.size() + 1);
		bool ic = !lr && g.p(15);
		int e; V<Ev> tree;
		if (lr) { LrPeg ref(gr, u); e = ref.match(r, p); if (ref.over || ref.unused) continue; tree = ref.out; feat("left_recursive"); }
		else { Peg ref(gr, u, ic); e = ref.match(r, p); if (ref.over) continue; tree = ref.out; }
		int want = e > p ? e - p : 0;
		Text t(u, RPA_ENCODING_UTF8 | (ic ? RPA_ENCODING_ICASE : 0));
		if (g.p(30)) r_array_setlength(recs, 0);
		size_t before = (size_t)rpa_records_length(recs);
		S keep((const char *)r_array_slot(recs, 0), before * sizeof(rparecord_t));
		crumb("parse rule " + gr.r[r].name + fmt(" at %d of ", p) + shu(u) + " grammar " + joined(parts));
		Exact home(t.b);
		Real a = run(d, s, d.rid(gr.r[r].name), t, p, recs, &gr, &home);
		CHECK(a.ret >= 0 && a.chars == want, "parse-length", "rule %s at %d of %s: parsed %d characters, the grammar gives %d; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), a.chars, want, joined(parts).c_str());
		CHECK(a.bad.empty(), "record-fields", "rule %s at %d of %s: %s; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), a.bad.c_str(), joined(parts).c_str());
		if (want) CHECK(a.ev == tree, "record-tree", "rule %s at %d of %s: records %s but the grammar gives %s; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), evs(a.ev, gr).c_str(), evs(tree, gr).c_str(), joined(parts).c_str());
		CHECK(!memcmp(keep.data(), r_array_slot(recs, 0), keep.size()), "earlier-records", "rule %s at %d of %s: the parse changed records that were already in the array; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), joined(parts).c_str());
		if (want && a.bad.empty() && g.p(30)) {	// the same text parsed again behind those records
			S kept((const char *)r_array_slot(recs, 0), (size_t)rpa_records_length(recs) * sizeof(rparecord_t));
			Real b = run(d, s, d.rid(gr.r[r].name), t, p, recs, &gr, &home);
			CHECK(b.ret == a.ret && b.bad.empty() && b.ev == a.ev, "record-tree", "rule %s at %d of %s: parsing the same text again into the same array returned %ld, %s with records %s instead of %s; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), b.ret, b.bad.c_str(), evs(b.ev, gr).c_str(), evs(a.ev, gr).c_str(), joined(parts).c_str());
			CHECK((size_t)rpa_records_length(recs) * sizeof(rparecord_t) >= kept.size() && !memcmp(kept.data(), r_array_slot(recs, 0), kept.size()), "earlier-records", "rule %s at %d of %s: parsing the same text again changed the records of the first parse; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), joined(parts).c_str());
			feat("parsed_again");
		}
		feat(want ? "parsed" : "not_parsed");
		feat("records", a.ev.size());
		if (before) feat("with_earlier_records");
		size_t dep = 0, mx = 0; for (auto &x : a.ev) { if (!x.end) mx = std::max(mx, ++dep); else dep--; }
		if (mx >= 3) feat("nested_3");
	}
	if (g.p(6)) {   // long flat and deep parses
		Db d4; bool deep = g.p(50); int k = (int)(g.p(15) ? g.r(deep ? 500 : 20000, deep ? 1500 : 40000) : g.r(50, deep ? 150 : 3000));
		S e4 = d4.load({deep ? "S ::= '(' <S> ')' | 'x'\n" : "S ::= <w>+\nw ::= <c> '.'\nc ::= [a-c]+\n"});
		CHECK(e4.empty(), "grammar-refused", "%s", e4.c_str());
		Grammar g4; g4.r.resize(deep ? 1 : 3); g4.r[0].name = "S"; if (!deep) { g4.r[1].name = "w"; g4.r[2].name = "c"; }
		U32 u; V<Ev> want;
		if (deep) { for (int i = 0; i < k; i++) u.push_back('('); u.push_back('x'); for (int i = 0; i < k; i++) u.push_back(')'); for (int i = 0; i <= k; i++) want.push_back({0, false, i, 2 * (k - i) + 1}); for (int i = k; i >= 0; i--) want.push_back({0, true, i, 2 * (k - i) + 1}); }
		else { want.push_back({0, false, 0, 0}); for (int i = 0; i < k; i++) { int at = (int)u.size(), l = (int)g.r(1, 4); for (int j = 0; j < l; j++) u.push_back('a' + (uint32_t)g.u(3)); u.push_back('.'); want.push_back({1, false, at, l + 1}); want.push_back({2, false, at, l}); want.push_back({2, true, at, l}); want.push_back({1, true, at, l + 1}); } want.push_back({0, true, 0, (int)u.size()}); want[0].len = (int)u.size(); }
		St s4(d4); Text t4(u, RPA_ENCODING_UTF8);
		rarray_t *r4 = rpa_records_create(); Free f4{r4};
		Real a = run(d4, s4, d4.rid("S"), t4, 0, r4, &g4);
		CHECK(a.ret == (long)t4.b.size() && a.bad.empty() && a.ev == want, "record-tree-large", "%s of %d: returned %ld, error %ld, %zu records instead of %zu %s", deep ? "nest" : "list", k, a.ret, a.err, a.ev.size(), want.size(), a.bad.c_str());
		feat("large_trees");
	}
}

// ------------------------------------------------------------------ P04
struct Outcome { long chars, err; S name; long eoff; V<Ev> ev; long scanat, scanlen; long fail; };
static bool same(const Outcome &a, const Outcome &b) { return a.chars == b.chars && a.err == b.err && a.name == b.name && a.eoff == b.eoff && a.ev == b.ev && a.scanat == b.scanat && a.scanlen == b.scanlen; }
static S sho(const Outcome &o, const Grammar &g) { return fmt("length %ld error %ld name %s offset %ld scan %ld+%ld records %s", o.chars, o.err, o.name.c_str(), o.eoff, o.scanat, o.scanlen, evs(o.ev, g).c_str()); }

static Outcome observe(Db &d, St &s, const Grammar &gr, int r, const Text &t, int p, bool scan, S &bad) {
	Outcome o; memset((void *)&o.chars, 0, sizeof o.chars); o.err = 0; o.eoff = 0; o.scanat = -1; o.scanlen = 0; o.chars = 0;
	rparule_t rid = d.rid(gr.r[r].name);
	Real m = run(d, s, rid, t, p, NULL, NULL);
	rarray_t *recs = rpa_records_create();
	Real q = run(d, s, rid, t, p, recs, &gr);
	rpa_records_destroy(recs);
	if (!q.bad.empty()) bad = q.bad;
	if (m.ret != q.ret || m.err != q.err || m.eoff != q.eoff || m.name != q.name) bad = fmt("match gives %ld (error %ld), parse gives %ld (error %ld)", m.ret, m.err, q.ret, q.err);
	o.chars = q.chars; o.err = q.err; o.name = q.name; o.eoff = q.eoff; o.ev = q.ev;
	if (scan) {
		Exact e(t.b); const char *w = NULL;
		long l = rpa_stat_scan(s.s, rid, (unsigned)t.enc, e.b() + t.off[p], e.b(), e.e(), &w);
		o.scanlen = l;
		if (l > 0) { if (w < e.b() || w > e.e() || !t.idx.count((size_t)(w - e.b()))) bad = "a scan reports a position off the text's characters"; o.scanat = w - e.b(); }
	}
	return o;
}

static void p04(Rng &g) {
	bool lr = g.p(25);
	Grammar gr; V<int> starts;
	if (lr) gr = lr_grammar(g, starts);
	else { Gen gen(g, (int)g.r(1, 6), 4 | (g.p(60) ? 1 : 0) | (g.p(40) ? 2 : 0)); gen.maxdepth = 4; gr = gen.grammar(); }
	bool ab = !lr && g.p(30);
	if (ab) gr.r[g.u(gr.r.size())].abort = true;
	S head = random_directives(g, gr);
	V<S> parts = parts_of(g, gr, g.p(30), order_of(g, gr.r.size(), g.p(50)), head);
	crumb("grammar " + joined(parts));
	distinct(case_hash(parts));
	struct In { U32 u; int r, p, enc; bool scan; };
	V<In> ins;
	V<Outcome> want; V<char> known;
	int n = (int)g.r(3, 6);
	for (int i = 0; i < n; i++) {
		In in;
		in.r = lr ? starts[g.u(starts.size())] : g.p(60) ? 0 : (int)g.u(gr.r.size());
		if (lr) in.u = lr_text(g, gr, in.r, 24); else { Sampler sm(g, gr); in.u = sm.text(in.r, text_room(g, gr, 14)); }
		in.p = g.p(80) ? 0 : (int)g.u(in.u.size() + 1);
		in.enc = pick_enc(g, in.u) | (g.p(20) ? RPA_ENCODING_ICASE : 0);
		in.scan = g.p(50);
		if (!lr) {
			bool over = false;
			Peg ref(gr, in.u, (in.enc & RPA_ENCODING_ICASE) != 0);
			Outcome o; o.chars = 0; o.err = 0; o.eoff = 0; o.scanat = -1; o.scanlen = 0;
			Text t(in.u, in.enc);
			for (int q = in.p; in.scan && !ab && q < (int)in.u.size(); q++) {
				int e = ref.match(in.r, q);
				if (ref.over) { over = true; break; }
				if (e > q) { o.scanat = (long)t.off[q]; o.scanlen = (long)(t.off[e] - t.off[q]); break; }
			}
			int e = ref.match(in.r, in.p);
			if (ref.over || over) continue;
			if (ab) in.scan = false;
			if (ref.aborted) { o.chars = -1; o.err = RPA_E_RULEABORT; o.name = gr.r[ref.arule].name.substr(0, 127); o.eoff = (long)t.off[ref.apos]; feat("aborts"); }
			else if (e > in.p) { o.chars = e - in.p; o.ev = ref.out; }
			want.push_back(o); known.push_back(1);
		} else {
			LrPeg ref(gr, in.u);
			in.enc &= ~RPA_ENCODING_ICASE;
			int e = ref.match(in.r, in.p);
			if (ref.over || ref.unused) continue;
			Outcome o; o.chars = e > in.p ? e - in.p : 0; o.err = 0; o.eoff = 0; o.scanat = -1; o.scanlen = 0;
			if (e > in.p) o.ev = ref.out;
			in.scan = false;
			want.push_back(o); known.push_back(1);
		}
		ins.push_back(in);
	}
	Db db[4]; Cfg cf[4];
	for (int k = 0; k < 4; k++) {
		cf[k].opt = k & 1; cf[k].bitmap = k >> 1;
		db[k].cfg(cf[k]);
		S err = db[k].load(parts);
		CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), joined(parts).c_str());
	}
	for (int k = 0; k < 4; k++) for (int nc = 0; nc < 2; nc++) {
		Cfg c = cf[k]; c.nocache = nc;
		St shared(db[k], c);
		for (size_t i = 0; i < ins.size(); i++) {
			In &in = ins[i];
			Text t(in.u, in.enc);
			crumb(cfgs(c) + " rule " + gr.r[in.r].name + fmt(" at %d of ", in.p) + shu(in.u) + " " + shenc(in.enc) + " grammar " + joined(parts));
			S bad;
			Outcome o = observe(db[k], shared, gr, in.r, t, in.p, in.scan, bad);
			CHECK(bad.empty(), "observation", "%s: rule %s at %d of %s (%s): %s; grammar %s", cfgs(c).c_str(), gr.r[in.r].name.c_str(), in.p, shu(in.u).c_str(), shenc(in.enc).c_str(), bad.c_str(), joined(parts).c_str());
			CHECK(same(o, want[i]), "configuration", "%s: rule %s at %d of %s (%s): got %s, expected %s; grammar %s", cfgs(c).c_str(), gr.r[in.r].name.c_str(), in.p, shu(in.u).c_str(), shenc(in.enc).c_str(), sho(o, gr).c_str(), sho(want[i], gr).c_str(), joined(parts).c_str());
			if (g.p(20)) {
				St fresh(db[k], c);
				o = observe(db[k], fresh, gr, in.r, t, in.p, in.scan, bad);
				CHECK(bad.empty() && same(o, want[i]), "fresh-object", "%s: rule %s at %d of %s: a fresh object gives %s, expected %s; grammar %s", cfgs(c).c_str(), gr.r[in.r].name.c_str(), in.p, shu(in.u).c_str(), sho(o, gr).c_str(), sho(want[i], gr).c_str(), joined(parts).c_str());
			}
			feat("observations"); if (o.chars > 0) feat("matched"); if (in.scan && o.scanlen > 0) feat("scanned");
			if (lr) feat("left_recursive");
		}
	}
	if (!lr && !ab && g.p(15)) {
		// first characters: every low one and some others, alone or in front of a derivation
		St s0(db[0], cf[0]), s1(db[1], cf[1]), s2(db[2], cf[2]), s3(db[3], cf[3]);
		St *st[4] = {&s0, &s1, &s2, &s3};
		int r = (int)g.u(gr.r.size()); bool ic = g.p(25);
		Sampler sm(g, gr); U32 tail = sm.text(r, 6);
		for (int i = 0; i < 110; i++) {
			uint32_t c = i < 95 ? 32 + (uint32_t)i : g.p(50) ? (uint32_t)g.u(0x300) : (uint32_t)g.u(0xD800);
			U32 u{c}; if (g.p(50)) { u.insert(u.end(), tail.begin() + (tail.empty() ? 0 : 1), tail.end()); }
			Peg ref(gr, u, ic); int e = ref.match(r, 0); if (ref.over) continue;
			int want = e > 0 ? e : 0;
			Text t(u, RPA_ENCODING_UTF8 | (ic ? RPA_ENCODING_ICASE : 0));
			crumb("first character: rule " + gr.r[r].name + " on " + shu(u) + " grammar " + joined(parts));
			for (int k = 0; k < 4; k++) {
				Real a = run(db[k], *st[k], db[k].rid(gr.r[r].name), t, 0, NULL, NULL);
				CHECK(a.chars == want, "first-character", "%s: rule %s on %s%s: matched %d characters, expected %d; grammar %s", cfgs(cf[k]).c_str(), gr.r[r].name.c_str(), shu(u).c_str(), ic ? " ignoring case" : "", a.chars, want, joined(parts).c_str());
			}
			feat("first_characters");
		}
	}
}

// ------------------------------------------------------------------ P02: left recursion
static Item mk_ref(int r, char q = 0) { Item i; i.k = K_REF; i.rule = r; i.q = q; return i; }
static Item mk_ch(uint32_t c, char q = 0) { Item i; i.k = K_CH; i.c = c; i.q = q; return i; }
static Item mk_rng(uint32_t a, uint32_t b, char q = 0) { Item i; i.k = K_CLS; i.q = q; i.cls.push_back({1, a, b}); return i; }
static Item mk_grp(const Alt &a, char q = 0) { Item i; i.k = K_GRP; i.q = q; i.sub = std::make_shared<Alt>(a); return i; }
static Branch mk_br(const V<Item> &s) { Branch b; b.seq = s; return b; }
static Rule mk_rule(const S &n, const V<Branch> &b) { Rule r; r.name = n; r.body.br = b; return r; }

// The usual operator grammars: levels of left-associative (direct, bracketed or through
// operator rules), right-associative, prefix and postfix operators over atoms.
static Grammar op_grammar(Rng &g, V<int> &starts) {
	Grammar gr;
	int L = (int)g.r(1, 5);
	static const char ops[] = "+-*/%^&|@!<>=~?:;,$";
	int nextop = 0;
	auto op = [&]() -> V<Item> { char c = ops[nextop++ % 19]; V<Item> v{mk_ch((uint32_t)c)}; if (g.p(10)) v.push_back(mk_ch((uint32_t)c)); if (g.p(10)) v.insert(v.begin(), mk_ch(' ', '*')); return v; };
	auto cat = [](V<Item> a, const V<Item> &b, V<Item> c = {}) { a.insert(a.end(), b.begin(), b.end()); a.insert(a.end(), c.begin(), c.end()); return a; };
	// rule indices: level i is rule i, atom is rule L, operator rules follow
	for (int i = 0; i < L; i++) gr.r.push_back(mk_rule(fmt("level%d", i), {}));
	gr.r.push_back(mk_rule("atom", {}));
	for (int i = 0; i < L; i++) {
		int next = i + 1, kind = (int)g.u(10), nop = (int)g.r(1, 3);
		V<Branch> b;
		if (kind < 4) {         // direct
			for (int k = 0; k < nop; k++) {
				V<Item> s = cat({mk_ref(i)}, op(), {mk_ref(next)});
				if (g.p(20)) { Alt a; a.br.push_back(mk_br(s)); b.push_back(mk_br({mk_grp(a)})); } else b.push_back(mk_br(s));
			}
			b.push_back(mk_br({mk_ref(next)}));
		} else if (kind < 6) {  // through operator rules
			for (int k = 0; k < nop; k++) {
				int o = (int)gr.r.size();
				gr.r.push_back(mk_rule(fmt("op%d_%d", i, k), {mk_br(cat({mk_ref(i)}, op(), {mk_ref(next)}))}));
				b.push_back(mk_br({mk_ref(o)}));
			}
			b.push_back(mk_br({mk_ref(next)}));
		} else if (kind < 7) {  // right-associative
			b.push_back(mk_br(cat({mk_ref(next)}, op(), {mk_ref(i)})));
			b.push_back(mk_br({mk_ref(next)}));
		} else if (kind < 8) {  // prefix
			b.push_back(mk_br(cat(op(), {mk_ref(i)})));
			b.push_back(mk_br({mk_ref(next)}));
		} else if (kind < 9) {  // postfix and calls
			b.push_back(mk_br(cat({mk_ref(i)}, {mk_ch('(')}, {mk_ref(0, '?'), mk_ch(')')})));
			b.push_back(mk_br(cat({mk_ref(i)}, {mk_ch('.')}, {mk_rng('a', 'z', '+')})));
			b.push_back(mk_br({mk_ref(next)}));
		} else {                // a choice of operators in a bracket
			Alt a; for (int k = 0; k < nop; k++) a.br.push_back(mk_br(op()));
			b.push_back(mk_br({mk_ref(i), mk_grp(a), mk_ref(next)}));
			b.push_back(mk_br({mk_ref(next)}));
		}
		gr.r[i].body.br = b;
		starts.push_back(i);
	}
	gr.r[L].body.br = {mk_br({mk_rng('0', '9', '+')}), mk_br({mk_ch('('), mk_ref(0), mk_ch(')')})};
	starts.push_back(L);
	return gr;
}
// Left recursion around arbitrary rests, directly or through a chain of rules.
static Grammar cyc_grammar(Rng &g, V<int> &starts) {
	int hops = g.p(50) ? 1 : (int)g.r(2, 4), extra = (int)g.r(0, 3);
	Gen gen(g, hops + extra, 0);
	gen.maxdepth = 2;
	Grammar gr; gr.r.resize(hops + extra);
	for (int i = 0; i < hops + extra; i++) gr.r[i].name = i < hops ? fmt("cyc%d", i) : fmt("help%d", i);
	for (int i = 0; i < hops; i++) {
		int to = (i + 1) % hops;
		V<Branch> b;
		int nb = (int)g.r(i == 0 ? 1 : 0, 2), nl = hops > 1 ? 1 : (int)g.r(1, 3);
		for (int k = 0; k < nl; k++) {
			gen.budget = 8;
			V<Item> s{mk_ref(to)};
			if (i > 0 && nb == 0 && g.p(40)) {       // a hop that may match nothing
				s[0].q = '?';
				if (g.p(60)) { s.push_back(gen.leaf()); s.back().q = g.p(50) ? '?' : '*'; }
				feat("nullable_hops");
				b.push_back(mk_br(s));
				continue;
			}
			if (g.p(85) || hops == 1) { V<Item> t = gen.seq(hops + extra, 1, true); for (auto &x : t) s.push_back(x); }
			if (!Gen::eats(V<Item>(s.begin() + 1, s.end())) && g.p(70)) s.push_back(gen.leaf());
			b.push_back(mk_br(s));
		}
		for (int k = 0; k < nb; k++) {
			gen.budget = 8;
			V<Item> s;
			if (extra && g.p(35)) for (int n = (int)g.r(2, 5); n > 0; n--) s.push_back(mk_ref((int)g.r(hops, hops + extra - 1)));   // several records side by side
			else s = gen.seq(hops - 1, 1, false);    // leading references only to the helpers
			b.insert(b.begin() + (long)(g.p(20) ? g.u(b.size() + 1) : b.size()), mk_br(s));
		}
		// a base so that the recursion can start at all
		if (i == 0) b.push_back(mk_br({mk_ch('0')}));
		gr.r[i].body.br = b;
	}
	for (int i = hops; i < hops + extra; i++) { gen.budget = 8; gr.r[i].body = gen.alt(i, 1, false); }
	for (int i = 0; i < hops; i++) starts.push_back(i);
	return gr;
}
static Grammar lr_grammar(Rng &g, V<int> &starts) { return g.p(60) ? op_grammar(g, starts) : cyc_grammar(g, starts); }

static void lr_gen(Rng &g, const Grammar &gr, const LrPeg &lp, int r, int head, U32 &o, int &fuel);
static void lr_items(Rng &g, const Grammar &gr, const LrPeg &lp, const V<Item> &s, U32 &o, int &fuel) {
	for (auto &it : s) {
		int n = it.q == '?' ? (int)g.u(2) : it.q == '*' ? (int)g.u(3) : it.q == '+' ? (int)g.r(1, 3) : 1;
		while (n-- > 0 && fuel > 0) {
			if (it.k == K_REF) lr_gen(g, gr, lp, it.rule, -1, o, fuel);
			else if (it.k == K_GRP) { auto &b = it.sub->br[g.u(it.sub->br.size())]; lr_items(g, gr, lp, b.seq, o, fuel); }
			else { fuel--; Sampler sm(g, gr); sm.item(it); o.insert(o.end(), sm.out.begin(), sm.out.end()); }
		}
	}
}
static void lr_gen(Rng &g, const Grammar &gr, const LrPeg &lp, int r, int, U32 &o, int &fuel) {
	fuel--;
	if (fuel <= 0) { o.push_back('0' + (uint32_t)g.u(10)); return; }
	auto &b = gr.r[r].body.br;
	V<int> base, loop;
	for (size_t i = 0; i < b.size(); i++) (lp.rec(r) && lp.loopy(b[i], r) ? loop : base).push_back((int)i);
	int pick = !loop.empty() && (base.empty() || g.p(55)) ? g.pick(loop) : base.empty() ? g.pick(loop) : g.pick(base);
	lr_items(g, gr, lp, b[pick].seq, o, fuel);
}
static U32 lr_text(Rng &g, const Grammar &gr, int r, size_t maxlen) {
	U32 o, e; LrPeg lp(gr, e);
	int fuel = (int)g.r(2, 40);
	lr_gen(g, gr, lp, r, -1, o, fuel);
	if (g.p(30) && !o.empty()) {
		static const uint32_t ed[] = {'+', '(', ')', '0', '*', 'a', '-', '.'};
		size_t at = g.u(o.size());
		if (g.p(50)) o[at] = g.pick(ed); else if (g.p(50)) o.erase(o.begin() + (long)at); else o.insert(o.begin() + (long)at, g.pick(ed));
	}
	if (o.size() > maxlen) o.resize(maxlen);
	return o;
}

// got is want with further whole subtrees in it
static bool stray_from(const V<Ev> &got, size_t i, const V<Ev> &want, size_t j, long &fuel) {
	for (;;) {
		if (--fuel < 0) return false;
		if (i == got.size()) return j == want.size();
		size_t k = i; int d = 0;
		if (!got[i].end) do d += got[k++].end ? -1 : 1; while (d > 0 && k < got.size());
		bool same = j < want.size() && got[i] == want[j];
		if (!same) { if (k == i || d) return false; i = k; continue; }
		if (k > i && !d && stray_from(got, i + 1, want, j + 1, fuel)) return true;
		if (k > i && !d) { i = k; continue; }
		i++; j++;
	}
}
static bool stray_only(const V<Ev> &got, const V<Ev> &want) { long fuel = 100000; return got.size() > want.size() && stray_from(got, 0, want, 0, fuel); }
// The known finding's own case, observed in every run.
static void p02_known() {
	const char *txt = "cyc0 ::= <:cyc1:> '.' | 'a' .*\ncyc1 ::= <:cyc3:> 'Y' | 'a'\ncyc3 ::= <:cyc0:>? 'a'*\n";
	Db d; S err = d.load({S(txt)});
	CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), txt);
	St s(d);
	rarray_t *recs = rpa_records_create();
	struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{recs};
	Exact e(S("aaaY"));
	long ret = rpa_stat_parse(s.s, d.rid("cyc1"), RPA_ENCODING_UTF8, e.b(), e.b(), e.e(), recs);
	CHECK(ret == 4, "left-recursion-length", "cyc1 on aaaY: %ld, not 4; grammar %s", ret, txt);
	S got;
	for (long i = 0; i < rpa_records_length(recs); i++) { rparecord_t *r = (rparecord_t *)r_array_slot(recs, (unsigned long)i); got += fmt("%s%s[%lu+%lu] ", r->type == RPA_RECORD_END ? "/" : "", r->rule, (unsigned long)r->inputoff, (unsigned long)r->inputsiz); }
	if (got == "cyc1[0+4] cyc3[0+3] cyc1[0+1] /cyc1[0+1] /cyc3[0+3] /cyc1[0+4] ")
		viol("left-recursion-stray", fmt("cyc1 on aaaY: records %s; grammar %s", got.c_str(), txt));
	else
		CHECK(got == "cyc1[0+4] cyc3[0+3] /cyc3[0+3] /cyc1[0+4] ", "left-recursion-tree", "cyc1 on aaaY: records %s; grammar %s", got.c_str(), txt);
}
static void p02(Rng &g) {
	if (g_idx == 0) p02_known();
	V<int> starts;
	bool ops = g.p(65);
	Grammar gr = ops ? op_grammar(g, starts) : cyc_grammar(g, starts);
	S head = g.p(30) ? random_directives(g, gr) : S();
	V<S> parts = parts_of(g, gr, g.p(30), order_of(g, gr.r.size(), g.p(50)), head);
	crumb("grammar " + joined(parts));
	distinct(case_hash(parts));
	Db d; S err = d.load(parts);
	CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), joined(parts).c_str());
	St s(d);
	rarray_t *recs = rpa_records_create();
	struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{recs};
	int n = (int)g.r(2, 5);
	for (int i = 0; i < n; i++) {
		int r = g.p(60) ? starts[0] : g.pick(starts);
		bool chain = ops && g.p(10);
		U32 u = lr_text(g, gr, r, chain ? 400 : 40);
		if (chain) { U32 v = u; while (v.size() < 200 && !u.empty()) { v.push_back((uint32_t)"+-*/%^"[g.u(6)]); v.insert(v.end(), u.begin(), u.end()); } u = v; feat("long_chains"); }
		int p = g.p(85) ? 0 : (int)g.u(u.size() + 1);
		LrPeg ref(gr, u);
		int e = ref.match(r, p);
		if (ref.over) { feat("reference_limit"); continue; }
		int want = e > p ? e - p : 0;
		Text t(u, RPA_ENCODING_UTF8);
		crumb("rule " + gr.r[r].name + fmt(" at %d of ", p) + shu(u) + " grammar " + joined(parts));
		if (g.p(50)) r_array_setlength(recs, 0);
		size_t before = (size_t)rpa_records_length(recs);
		S keep((const char *)r_array_slot(recs, 0), before * sizeof(rparecord_t));
		Exact home(t.b);
		Real a = run(d, s, d.rid(gr.r[r].name), t, p, recs, &gr, &home);
		CHECK(a.ret >= 0 && a.chars == want, "left-recursion-length", "rule %s at %d of %s: parsed %d characters (returned %ld, error %ld), growing the recursion gives %d; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), a.chars, a.ret, a.err, want, joined(parts).c_str());
		CHECK(a.bad.empty(), "left-recursion-records", "rule %s at %d of %s: %s; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), a.bad.c_str(), joined(parts).c_str());
		// The one known finding of this property: a step that grew without the previous result keeps that result's records.
		if (want && ref.unused && a.ev != ref.out && stray_only(a.ev, ref.out))
			viol("left-recursion-stray", fmt("rule %s at %d of %s: records %s but the grammar gives %s; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), evs(a.ev, gr).c_str(), evs(ref.out, gr).c_str(), joined(parts).c_str()));
		else
		if (want) CHECK(a.ev == ref.out, "left-recursion-tree", "rule %s at %d of %s: records %s but left grouping gives %s; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), evs(a.ev, gr).c_str(), evs(ref.out, gr).c_str(), joined(parts).c_str());
		CHECK(!memcmp(keep.data(), r_array_slot(recs, 0), keep.size()), "earlier-records", "rule %s at %d of %s: the parse changed records already in the array; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), joined(parts).c_str());
		if (want && a.bad.empty() && g.p(30)) {	// the same text parsed again behind those records
			S kept((const char *)r_array_slot(recs, 0), (size_t)rpa_records_length(recs) * sizeof(rparecord_t));
			Real b = run(d, s, d.rid(gr.r[r].name), t, p, recs, &gr, &home);
			CHECK(b.ret == a.ret && b.bad.empty() && b.ev == a.ev, "left-recursion-tree", "rule %s at %d of %s: parsing the same text again into the same array returned %ld, %s with records %s instead of %s; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), b.ret, b.bad.c_str(), evs(b.ev, gr).c_str(), evs(a.ev, gr).c_str(), joined(parts).c_str());
			CHECK((size_t)rpa_records_length(recs) * sizeof(rparecord_t) >= kept.size() && !memcmp(kept.data(), r_array_slot(recs, 0), kept.size()), "earlier-records", "rule %s at %d of %s: parsing the same text again changed the records of the first parse; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), joined(parts).c_str());
			feat("parsed_again");
		}
		Real m = run(d, s, d.rid(gr.r[r].name), t, p, NULL, NULL);
		CHECK(m.ret == a.ret, "left-recursion-match", "rule %s at %d of %s: match gives %ld, parse %ld; grammar %s", gr.r[r].name.c_str(), p, shu(u).c_str(), m.ret, a.ret, joined(parts).c_str());
		feat(want ? "parsed" : "not_parsed"); feat(ops ? "operator_grammars" : "cyclic_grammars");
		size_t dep = 0, mx = 0; for (auto &x : a.ev) { if (!x.end) mx = std::max(mx, ++dep); else dep--; }
		if (mx > 4) feat("deep_left_nesting");
	}
}

static bool select2(const S &);
#include "rpa2.h"

bool select_property(const S &p) {
	if (p == "P01") g_fn = p01;
	else if (p == "P02") g_fn = p02;
	else if (p == "P03") g_fn = p03;
	else if (p == "P04") g_fn = p04;
	else return select2(p);
	return true;
}
