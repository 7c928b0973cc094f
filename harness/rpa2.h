#ifdef MON_ASAN
#include <sanitizer/allocator_interface.h>
#endif
// P05 encodings, P06 threads, P07 hostile grammars and inputs, P08 histories, P09 record trees.

// ------------------------------------------------------------------ P05
static void flip_case(Rng &g, U32 &u, int pct) { for (auto &c : u) if (g.p(pct)) c = ref_icase(c); }

static S hostile_bytes(Rng &g, const U32 &u, int enc) {
	Text t(u, enc);
	S b = t.b;
	static const unsigned char bad[] = {0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0xD8, 0xDB, 0xDC, 0x00, 0x41, 0x82};
	int n = (int)g.r(1, 4);
	while (n-- > 0) {
		size_t at = g.u(b.size() + 1);
		switch (g.u(4)) {
		case 0: b.insert(at, 1, (char)g.pick(bad)); break;
		case 1: if (at < b.size()) b[at] = (char)g.pick(bad); break;
		case 2: if (at < b.size()) b.erase(at, 1); break;
		default: if (b.size() > 1) b.resize(b.size() - 1); break;
		}
	}
	return b;
}

// Every observation of one rule at every start, in one encoding, against the reference.
static void check_encoding(Rng &g, Db &d, St &s, const Grammar &gr, int r, const U32 &u, const Text &t, int p, const S &gtext, const char *kind) {
	bool ic = (t.enc & RPA_ENCODING_ICASE) != 0;
	Peg ref(gr, u, ic);
	int e = ref.match(r, p);
	if (ref.over) { feat("reference_limit"); return; }
	int want = e > p ? e - p : 0;
	V<Ev> tree = ref.out;
	S what = fmt("rule %s at character %d of %s (%s)", gr.r[r].name.c_str(), p, show(t.b).c_str(), shenc(t.enc).c_str());
	crumb(what + " grammar " + gtext);
	rarray_t *recs = rpa_records_create();
	struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{recs};
	rparule_t rid = d.rid(gr.r[r].name);
	Real a = run(d, s, rid, t, p, recs, &gr);
	CHECK(a.ret >= 0 && a.chars == want, kind, "%s: parsed %ld bytes (%d characters), the text gives %d characters; grammar %s", what.c_str(), a.ret, a.chars, want, gtext.c_str());
	CHECK(a.bad.empty(), kind, "%s: %s; grammar %s", what.c_str(), a.bad.c_str(), gtext.c_str());
	if (want) CHECK(a.ev == tree, kind, "%s: records %s, expected %s; grammar %s", what.c_str(), evs(a.ev, gr).c_str(), evs(tree, gr).c_str(), gtext.c_str());
	Real m = run(d, s, rid, t, p, NULL, NULL);
	CHECK(m.ret == a.ret, kind, "%s: match gives %ld, parse %ld; grammar %s", what.c_str(), m.ret, a.ret, gtext.c_str());
	feat(want ? "matched" : "unmatched"); feat(shenc(t.enc));
	if (g.p(40)) {
		Exact ex(t.b); const char *w = NULL;
		long wantat = -1, wantlen = 0;
		for (int q = p; q < (int)u.size(); q++) {
			int f = ref.match(r, q);
			if (ref.over) return;
			if (f > q) { wantat = (long)t.off[q]; wantlen = (long)(t.off[f] - t.off[q]); break; }
		}
		long l = rpa_stat_scan(s.s, rid, (unsigned)t.enc, ex.b() + t.off[p], ex.b(), ex.e(), &w);
		CHECK(l == wantlen && (l <= 0 || w - ex.b() == wantat), kind, "%s: scan found %ld+%ld, expected %ld+%ld; grammar %s", what.c_str(), l > 0 ? (long)(w - ex.b()) : -1L, l, wantat, wantlen, gtext.c_str());
		feat("scans");
	}
}

static void p05(Rng &g) {
	Gen gen(g, (int)g.r(1, 5), 4 | (g.p(60) ? 1 : 0) | (g.p(75) ? 2 : 0));
	Grammar gr = gen.grammar();
	S head = g.p(40) ? random_directives(g, gr) : S();
	V<S> parts = parts_of(g, gr, g.p(30), order_of(g, gr.r.size(), g.p(50)), head);
	S gt = joined(parts);
	crumb("grammar " + gt);
	distinct(case_hash(parts));
	Cfg c; c.opt = (int)g.u(2); c.bitmap = g.p(70); c.nocache = g.p(20);
	Db d; d.cfg(c); S err = d.load(parts);
	CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), gt.c_str());
	St s(d, c);
	int n = (int)g.r(2, 5);
	for (int i = 0; i < n; i++) {
		int r = g.p(60) ? 0 : (int)g.u(gr.r.size());
		Sampler sm(g, gr); U32 u = sm.text(r, text_room(g, gr, 14));
		if (g.p(60)) flip_case(g, u, 40);
		if (g.p(60)) {
			int p = g.p(75) ? 0 : (int)g.u(u.size() + 1);
			bool bytes = true; for (uint32_t x : u) if (x > 255) bytes = false;
			for (int k = 0; k < 3; k++) for (int ic = 0; ic < 2; ic++) {
				static const int ks[] = {RPA_ENCODING_UTF8, RPA_ENCODING_UTF16LE, RPA_ENCODING_BYTE};
				if (ks[k] == RPA_ENCODING_BYTE && !bytes) continue;
				Text t(u, ks[k] | (ic ? RPA_ENCODING_ICASE : 0));
				check_encoding(g, d, s, gr, r, u, t, p, gt, ic ? "encoding-icase" : "encoding");
			}
		} else {
			static const int ks[] = {RPA_ENCODING_UTF8, RPA_ENCODING_UTF16LE, RPA_ENCODING_BYTE};
			int k = ks[g.u(3)], ic = g.p(40) ? RPA_ENCODING_ICASE : 0;
			S raw;
			if (k == RPA_ENCODING_BYTE) { U32 v; for (uint32_t x : u) v.push_back(x & 255); raw = hostile_bytes(g, v, k); } else raw = hostile_bytes(g, u, k);
			U32 v; Text t(raw, k | ic, v);
			int p = g.p(70) ? 0 : (int)g.u(v.size() + 1);
			check_encoding(g, d, s, gr, r, v, t, p, gt, "malformed-text");
			feat("malformed_texts");
		}
	}
}

// ------------------------------------------------------------------ P06
struct ThreadJob { int r, p, enc; U32 u; int mode; long want; V<Ev> ev; long at; };
static void p06(Rng &g) {
	bool lr = g.p(25);
	Grammar gr; V<int> starts;
	if (lr) gr = lr_grammar(g, starts);
	else { Gen gen(g, (int)g.r(1, 5), (g.p(60) ? 1 : 0) | (g.p(40) ? 2 : 0)); gr = gen.grammar(); }
	bool ab = !lr && g.p(20);
	if (ab) gr.r[g.u(gr.r.size())].abort = true;
	S head = g.p(40) ? random_directives(g, gr) : S();
	V<S> parts = parts_of(g, gr, 0, order_of(g, gr.r.size(), g.p(50)), head);
	S gt = joined(parts);
	crumb("grammar " + gt);
	distinct(case_hash(parts));
	Cfg c; c.opt = (int)g.u(2); c.bitmap = g.p(70);
	Db d; d.cfg(c); S err = d.load(parts);
	CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), gt.c_str());
	V<rparule_t> rids; for (auto &r : gr.r) rids.push_back(d.rid(r.name));
	V<ThreadJob> jobs;
	int nj = (int)g.r(4, 10);
	for (int i = 0; i < nj; i++) {
		ThreadJob j; j.r = lr ? starts[g.u(starts.size())] : (int)g.u(gr.r.size());
		if (lr) j.u = lr_text(g, gr, j.r, 40); else { Sampler sm(g, gr); j.u = sm.text(j.r, text_room(g, gr, 20)); }
		j.p = g.p(70) ? 0 : (int)g.u(j.u.size() + 1);
		{	// an ambiguous grammar can take exponential time on a text, alone as well: not what is looked at here
			long cost = 0, most = 20000; bool over = false;
			for (int q = j.p; q <= (int)j.u.size() && !over; q++) {
				if (lr) { LrPeg ref(gr, j.u); ref.limit = most; ref.match(j.r, q); over = ref.over; cost += ref.steps; }
				else { Peg ref(gr, j.u, false); ref.limit = most; ref.match(j.r, q); over = ref.over; cost += ref.steps; }
				if (cost > most) over = true;
			}
			if (over) { feat("costly_texts_skipped"); continue; }
		}
		j.enc = pick_enc(g, j.u) | (g.p(20) ? RPA_ENCODING_ICASE : 0);
		j.mode = (int)g.u(3); j.at = -1;
		// alone first
		Text t(j.u, j.enc); Exact e(t.b);
		St s(d); const char *w = NULL;
		rarray_t *recs = rpa_records_create();
		if (j.mode == 0) j.want = rpa_stat_match(s.s, rids[j.r], (unsigned)j.enc, e.b() + t.off[j.p], e.b(), e.e());
		else if (j.mode == 1) { Real a; j.want = rpa_stat_parse(s.s, rids[j.r], (unsigned)j.enc, e.b() + t.off[j.p], e.b(), e.e(), recs); if (j.want > 0) read_records(d, recs, 0, gr, t, e.b(), a); j.ev = a.ev; }
		else { j.want = rpa_stat_scan(s.s, rids[j.r], (unsigned)j.enc, e.b() + t.off[j.p], e.b(), e.e(), &w); j.at = j.want > 0 ? w - e.b() : -1; }
		rpa_records_destroy(recs);
		jobs.push_back(j);
	}
	if (jobs.empty()) return;
	int nt = (int)g.r(2, 6), rounds = (int)g.r(2, 6);
	std::atomic<int> ready(0); std::atomic<long> ops(0), found(0);
	V<S> bad(nt); V<uint64_t> seeds; for (int i = 0; i < nt; i++) seeds.push_back(g.next());
	V<std::thread> th;
	bool lookup = g.p(50);
	for (int k = 0; k < nt; k++) th.emplace_back([&, k] {
		Rng q(seeds[k]);
		ready++; while (ready < nt) std::this_thread::yield();
		rpastat_t *s = rpa_stat_create(d.d, 0);
		for (int i = 0; i < rounds && bad[k].empty(); i++) for (size_t n = 0; n < jobs.size() && bad[k].empty(); n++) {
			const ThreadJob &j = jobs[q.u(jobs.size())];
			Text t(j.u, j.enc); Exact e(t.b); const char *w = NULL;
			rparule_t rid = rids[j.r];
			if (lookup && q.p(30)) { rid = rpa_dbex_lookup(d.d, gr.r[j.r].name.data(), (unsigned)gr.r[j.r].name.size()); if (rid != rids[j.r]) { bad[k] = "lookup gives another rule id"; break; } }
			long got; Real a; long at = -1;
			if (j.mode == 0) got = rpa_stat_match(s, rid, (unsigned)j.enc, e.b() + t.off[j.p], e.b(), e.e());
			else if (j.mode == 1) {
				rarray_t *recs = rpa_records_create();
				got = rpa_stat_parse(s, rid, (unsigned)j.enc, e.b() + t.off[j.p], e.b(), e.e(), recs);
				if (got > 0) {
					// rule ids were looked up before; no lookups from here
					for (long x = 0; x < rpa_records_length(recs); x++) {
						rparecord_t *p = rpa_records_slot(recs, x);
						int rule = -1; for (size_t y = 0; y < gr.r.size(); y++) if (p->rule && gr.r[y].name == p->rule) rule = (int)y;
						auto b = t.idx.find(p->inputoff);
						if (rule < 0 || (rparule_t)p->ruleid != rids[rule] || b == t.idx.end()) { bad[k] = "a record is damaged"; break; }
						a.ev.push_back({rule, p->type == RPA_RECORD_END, b->second, t.chars(b->second, (long)p->inputsiz)});
					}
				}
				rpa_records_destroy(recs);
			} else { got = rpa_stat_scan(s, rid, (unsigned)j.enc, e.b() + t.off[j.p], e.b(), e.e(), &w); at = got > 0 ? w - e.b() : -1; }
			if (got != j.want || at != j.at || !(a.ev == j.ev)) bad[k] = fmt("mode %d rule %s at %d of %s (%s): %ld at %ld with %zu records, alone it gives %ld at %ld with %zu", j.mode, gr.r[j.r].name.c_str(), j.p, shu(j.u).c_str(), shenc(j.enc).c_str(), got, at, a.ev.size(), j.want, j.at, j.ev.size());
			ops++; if (got > 0) found++;
			if (q.p(5)) std::this_thread::yield();
			if (q.p(10)) { rpa_stat_destroy(s); s = rpa_stat_create(d.d, 0); }
		}
		rpa_stat_destroy(s);
	});
	for (auto &t : th) t.join();
	feat("operations", (uint64_t)ops.load()); feat("operations_matched", (uint64_t)found.load()); feat("threads", nt); if (lr) feat("left_recursive");
	for (auto &b : bad) CHECK(b.empty(), "concurrent-result", "%d threads on one database: %s; grammar %s", nt, b.c_str(), gt.c_str());
	// and the database still does what it did
	St s(d);
	for (auto &j : jobs) if (j.mode == 0) {
		Text t(j.u, j.enc);
		Real a = run(d, s, rids[j.r], t, j.p, NULL, NULL);
		CHECK(a.ret == j.want, "database-changed", "after the threads, rule %s at %d of %s gives %ld, before %ld; grammar %s", gr.r[j.r].name.c_str(), j.p, shu(j.u).c_str(), a.ret, j.want, gt.c_str());
	}
}

// ------------------------------------------------------------------ P07
static long info_of(rpadbex_t *d, rpa_errinfo_t &ei) { memset(&ei, 0, sizeof ei); rpa_dbex_lasterrorinfo(d, &ei); return ei.code; }

static S mutate_text(Rng &g, S s) {
	static const char *tok[] = {"(", ")", "|", "::=", "<", ">", "<:", ":>", "[", "]", "'", "\"", "#", "#!", "#!emitid ", "^", "-", "*", "+", "?", "\\", "\n", "\r\n", ";", " ", ".", "#0x", "#x41", "#65-#", "~", "a ::= ", "\xff", "\xc3", "\xe2\x82", "&", "#!abort a\n", "#!emitnone\n", "=", ":", "[^", "\\n"};
	int n = (int)g.r(1, 5);
	while (n-- > 0) {
		size_t at = g.u(s.size() + 1);
		switch (g.u(6)) {
		case 0: case 1: s.insert(at, g.pick(tok)); break;
		case 2: if (at < s.size()) s.erase(at, g.r(1, 3)); break;
		case 3: if (at < s.size()) s[at] = (char)g.u(256); break;
		case 4: { size_t b = g.u(s.size() + 1), l = g.u(12); s.insert(at, s.substr(b, l)); break; }
		default: if (g.p(30)) s.resize(at); break;
		}
	}
	return s;
}
static S random_bytes(Rng &g) {
	S s; int n = (int)g.u(60); static const char al[] = "ab:=<>()[]|'\"#!-^.*+?\\ \n;0x1~";
	bool bin = g.p(30);
	while (n-- > 0) s += bin ? (char)g.u(256) : al[g.u(sizeof al - 1)];
	return s;
}

static void quiet_dump(Db &d, Rng &g) {
	static FILE *null = NULL; (void)null;
	int save = dup(1), nul = open("/dev/null", O_WRONLY);
	fflush(stdout); dup2(nul, 1);
	rpa_dbex_dumprecords(d.d); rpa_dbex_dumpproductions(d.d); rpa_dbex_dumpinfo(d.d); rpa_dbex_dumpuids(d.d);
	for (rparule_t r = rpa_dbex_first(d.d); r >= 0; r = rpa_dbex_next(d.d, r)) if (g.p(40)) { rpa_dbex_dumptree(d.d, r); rpa_dbex_dumpcode(d.d, r); }
	fflush(stdout); dup2(save, 1); close(save); close(nul);
}

// Runs every rule of a compiled database of unknown content; only crashes and sense are watched.
static void exercise(Rng &g, Db &d, const S &what) {
	St s(d);
	int n = 0;
	for (rparule_t r = rpa_dbex_first(d.d); r >= 0 && n < 8; r = rpa_dbex_next(d.d, r), n++) {
		S t; int len = (int)g.u(10); while (len-- > 0) t += g.p(70) ? (char)g.r('a', 'c') : g.p(50) ? "()[]<>'x0 \n"[g.u(11)] : (char)g.u(256);
		static const int ks[] = {RPA_ENCODING_UTF8, RPA_ENCODING_UTF16LE, RPA_ENCODING_BYTE};
		int enc = g.pick(ks) | (g.p(20) ? RPA_ENCODING_ICASE : 0);
		Exact e(t); const char *w = NULL;
		rarray_t *recs = rpa_records_create();
		crumb(what + fmt(" run rule %ld on ", (long)r) + show(t));
		long a = rpa_stat_match(s.s, r, (unsigned)enc, e.b(), e.b(), e.e());
		long b = rpa_stat_parse(s.s, r, (unsigned)enc, e.b(), e.b(), e.e(), recs);
		long c = rpa_stat_scan(s.s, r, (unsigned)enc, e.b(), e.b(), e.e(), &w);
		long le = rpa_stat_lasterror(s.s);
		(void)le;
		CHECK(a <= (long)t.size() && b <= (long)t.size(), "length-beyond-input", "matched %ld/%ld of %zu bytes; %s", a, b, t.size(), what.c_str());
		CHECK(a == b, "match-parse", "match gives %ld, parse %ld; %s", a, b, what.c_str());
		if (c > 0) CHECK(w >= e.b() && w + c <= e.e(), "scan-beyond-input", "scan reports %ld+%ld of %zu bytes; %s", (long)(w - e.b()), c, t.size(), what.c_str());
		for (long i = 0; i < rpa_records_length(recs) && b > 0; i++) {
			rparecord_t *p = rpa_records_slot(recs, i);
			CHECK(p->input >= e.b() && p->input + p->inputsiz <= e.e(), "record-beyond-input", "record %ld spans %ld+%lu of %zu; %s", i, (long)(p->input - e.b()), p->inputsiz, t.size(), what.c_str());
		}
		rpa_records_destroy(recs);
		feat("rules_run"); if (a > 0) feat("rules_matched");
	}
}

static void p07_text(Rng &g) {
	Gen gen(g, (int)g.r(1, 4), (g.p(60) ? 1 : 0) | (g.p(40) ? 2 : 0));
	gen.maxdepth = 2;
	Grammar gr = gen.grammar();
	if (g.p(20)) gr.r[g.u(gr.r.size())].abort = true;
	S head = random_directives(g, gr);
	S text; { V<S> p = parts_of(g, gr, g.p(50), order_of(g, gr.r.size(), true), head); for (auto &x : p) text += x; }
	S sent = g.p(25) ? random_bytes(g) : mutate_text(g, text);
	crumb("grammar text " + show(sent, 3000));
	distinct(hstr(sent));
	Db d; d.cfg({(int)g.u(2), (int)g.u(2), 0});
	S before; bool pre = g.p(30);
	CHECK(rpa_dbex_open(d.d) == 0, "open", "open failed");
	if (pre) { Exact e(S("keepme ::= 'k'+\n")); CHECK(rpa_dbex_load(d.d, e.b(), e.n) == (long)e.n, "load", "a plain rule was refused"); }
	Exact e(sent);
	long n = rpa_dbex_load(d.d, e.b(), e.n);
	S what = "grammar text " + show(sent, 1500);
	rpa_errinfo_t ei;
	if (n == (long)sent.size() && n >= 0) feat("texts_accepted");
	else {
		CHECK(n < 0, "load-result", "load returned %ld for %zu bytes; %s", n, sent.size(), what.c_str());
		long code = info_of(d.d, ei);
		CHECK(code != 0 && rpa_dbex_lasterror(d.d) == code, "load-error", "a refused text leaves error %ld; %s", code, what.c_str());
		if (code == RPA_E_SYNTAXERROR) {
			CHECK((ei.mask & RPA_ERRINFO_OFFSET) && ei.offset >= 0 && ei.offset <= (long)sent.size(), "error-position", "error offset %ld in %zu bytes; %s", ei.offset, sent.size(), what.c_str());
			long nl = 1 + std::count(sent.begin(), sent.begin() + ei.offset, '\n');
			long at = ei.offset < (long)sent.size() && sent[ei.offset] == '\n';
			CHECK((ei.mask & RPA_ERRINFO_LINE) && ei.line >= nl && ei.line <= nl + at, "error-line", "error offset %ld is on line %ld, reported %ld; %s", ei.offset, nl, ei.line, what.c_str());
			CHECK(!(ei.mask & RPA_ERRINFO_NAME), "error-name", "a syntax error names %s; %s", ei.name, what.c_str());
			feat("texts_refused");
		} else feat("texts_given_up");
	}
	rpa_dbex_close(d.d);
	int rc = rpa_dbex_compile(d.d);
	if (rc != 0) {
		long code = info_of(d.d, ei);
		CHECK(code != 0, "compile-error", "a failed compile leaves no error; %s", what.c_str());
		if (code == RPA_E_UNRESOLVEDSYMBOL) {
			CHECK((ei.mask & RPA_ERRINFO_NAME) && sent.find(S(ei.name, strnlen(ei.name, sizeof ei.name))) != S::npos, "unresolved-name", "unresolved symbol %s is not in the text; %s", ei.name, what.c_str());
			CHECK(!(ei.mask & RPA_ERRINFO_OFFSET), "stale-position", "an unresolved symbol comes with the position of an earlier error; %s", what.c_str());
			feat("unresolved");
		} else feat("compile_refused");
		// nothing can be run now
		St s(d); Exact t(S("kkk"));
		CHECK(rpa_stat_match(s.s, 0, 0, t.b(), t.b(), t.e()) < 0 && rpa_stat_lasterror(s.s) != 0, "run-uncompiled", "a database that did not compile runs; %s", what.c_str());
	} else {
		feat("compiled");
		if (pre && sent.find("keepme") == S::npos && sent.find("#!") == S::npos) {
			St s(d); Exact t(S("kkk"));
			long r = rpa_stat_match(s.s, d.rid("keepme"), 0, t.b(), t.b(), t.e());
			CHECK(r == 3, "earlier-rule", "a rule loaded before matches %ld of 3; %s", r, what.c_str());
		}
		exercise(g, d, what);
		if (g.p(15)) quiet_dump(d, g);
	}
}

// A rule that cannot be right, after rules that are: refused, at a position in the bad part.
static void p07_position(Rng &g) {
	Gen gen(g, (int)g.r(1, 3), 1); gen.maxdepth = 2;
	Grammar gr = gen.grammar();
	S good; { V<S> p = parts_of(g, gr, 0, order_of(g, gr.r.size(), true)); for (auto &x : p) good += x; }
	if (g.p(10)) good = "";
	static const char *bad[] = {"zz ::= (", "zz ::= <:q", "zz ::= \"abc", "zz ::= [a", "zz ::= )", "zz ::= x | | y", "zz ::= <q:>", "zz ::= [#0x]", "zz ::= a ++", "zz ::= [a-]", "zz ::= <>", "zz ::= 'a' ^", "zz ::= 'a' -", "zz ::= (a))", "zz ::= []", "zz ::= a ]", "zz ::= [#]"};
	S b = g.pick(bad), after = g.p(30) ? S("\nlast ::= 'z'\n") : S();
	S text = good + b + after;
	crumb("bad rule " + show(text, 2000)); distinct(hstr(text));
	Db d; rpa_dbex_open(d.d);
	Exact e(text);
	long n = rpa_dbex_load(d.d, e.b(), e.n);
	rpa_errinfo_t ei; long code = info_of(d.d, ei);
	CHECK(n < 0 && code == RPA_E_SYNTAXERROR, "bad-rule-accepted", "load returned %ld, error %ld for %s", n, code, show(text, 1500).c_str());
	CHECK(ei.offset >= (long)good.size() - 2 && ei.offset <= (long)(good.size() + b.size()), "error-position", "offset %ld, the bad part is at %zu+%zu of %s", ei.offset, good.size(), b.size(), show(text, 1500).c_str());
	// the refused text leaves nothing behind
	Exact e2(good.empty() ? S("ok ::= 'o'\n") : good);
	CHECK(rpa_dbex_load(d.d, e2.b(), e2.n) == (long)e2.n, "after-refusal", "a good grammar is refused after a bad one: %s", show(text, 1500).c_str());
	rpa_dbex_close(d.d);
	CHECK(rpa_dbex_compile(d.d) == 0, "after-refusal", "a good grammar does not compile after a bad one: %s", show(text, 1500).c_str());
	CHECK(d.rid("zz") < 0 && rpa_dbex_lasterror(d.d) == RPA_E_NOTFOUND, "refused-rule", "the refused rule can be looked up: %s", show(text, 1500).c_str());
	feat("positions_checked");
}

static void p07_undefined(Rng &g) {
	Gen gen(g, (int)g.r(2, 5), 1);
	Grammar gr = gen.grammar();
	int miss = (int)g.r(1, (long)gr.r.size() - 1);     // this rule is never defined
	S name = gr.r[miss].name;
	if (g.p(20)) { name = S((size_t)g.r(1, 300), 'n'); gr.r[miss].name = name; }
	bool used = false;
	struct W { static bool uses(const Alt &a, int m) { for (auto &b : a.br) { for (auto &i : b.seq) if (uses(i, m)) return true; for (auto &n : b.neg) for (auto &i : n) if (uses(i, m)) return true; } return false; }
	           static bool uses(const Item &i, int m) { return (i.k == K_REF && i.rule == m) || (i.sub && uses(*i.sub, m)) || (i.in && uses(*i.in, m)); } };
	for (size_t i = 0; i < gr.r.size(); i++) if ((int)i != miss && W::uses(gr.r[i].body, miss)) used = true;
	Printer pr(g, gr, g.p(40));
	S text; for (int i : order_of(g, gr.r.size(), true)) if (i != miss) text += pr.rule(gr.r[i]) + "\n";
	crumb("undefined " + name + " in " + show(text, 2000)); distinct(hstr(text));
	Db d; d.cfg({(int)g.u(2), (int)g.u(2), 0});
	rpa_dbex_open(d.d);
	Exact e(text);
	CHECK(rpa_dbex_load(d.d, e.b(), e.n) == (long)e.n, "grammar-refused", "error %ld: %s", rpa_dbex_lasterror(d.d), show(text, 1500).c_str());
	rpa_dbex_close(d.d);
	int rc = rpa_dbex_compile(d.d);
	rpa_errinfo_t ei; long code = info_of(d.d, ei);
	if (!used) { CHECK(rc == 0, "compile", "compile failed with %ld: %s", code, show(text, 1500).c_str()); return; }
	CHECK(rc != 0 && code == RPA_E_UNRESOLVEDSYMBOL && (ei.mask & RPA_ERRINFO_NAME), "undefined-accepted", "compile returned %d, error %ld: %s", rc, code, show(text, 1500).c_str());
	S got(ei.name, strnlen(ei.name, sizeof ei.name));
	CHECK(got == name.substr(0, sizeof ei.name - 1), "undefined-name", "the undefined rule is %s, reported %s: %s", name.c_str(), show(got).c_str(), show(text, 1500).c_str());
	feat("undefined_rules");
	// now define it
	rpa_dbex_open(d.d);
	S more = pr.rule(gr.r[miss]) + "\n";
	Exact e2(more);
	CHECK(rpa_dbex_load(d.d, e2.b(), e2.n) == (long)e2.n, "grammar-refused", "error %ld: %s", rpa_dbex_lasterror(d.d), show(more, 1500).c_str());
	rpa_dbex_close(d.d);
	CHECK(rpa_dbex_compile(d.d) == 0, "compile-after-definition", "error %ld after defining %s: %s", rpa_dbex_lasterror(d.d), name.c_str(), show(text, 1500).c_str());
	St s(d);
	for (int i = 0; i < 3; i++) {
		int r = (int)g.u(gr.r.size()); Sampler sm(g, gr); U32 u = sm.text(r, 12); Peg ref(gr, u, false);
		int en = ref.match(r, 0); if (ref.over) continue;
		Text t(u, RPA_ENCODING_UTF8);
		Real a = run(d, s, d.rid(gr.r[r].name), t, 0, NULL, NULL);
		CHECK(a.chars == std::max(en, 0), "after-definition", "rule %s on %s gives %d, expected %d; %s + %s", gr.r[r].name.c_str(), shu(u).c_str(), a.chars, std::max(en, 0), show(text, 1200).c_str(), show(more).c_str());
	}
}

static void p07_misuse(Rng &g) {
	Db d; enum { FRESH, OPEN, CLOSED } st = FRESH; bool compiled = false; bool rules = false; int defs = 0;
	S log; uint64_t h = 3;
	// a database starts closed and empty
	int n = (int)g.r(5, 25);
	const S rule = "a ::= 'x'+\nb ::= <a> 'y'\n";
	St s(d);
	rarray_t *recs = rpa_records_create();
	struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{recs};
	auto dead = [&](long r, long code, const char *op) { rpa_errinfo_t ei; long c = info_of(d.d, ei); return r < 0 && c == code ? S() : fmt("%s gives %ld, error %ld (expected a failure with %ld); after %s", op, r, c, code, log.c_str()); };
	for (int i = 0; i < n; i++) {
		int op = (int)g.u(14); h = hmix(h, (uint64_t)op); log += fmt("%d ", op);
		S bad;
		switch (op) {
		case 0: CHECK(rpa_dbex_open(d.d) == 0, "misuse", "open failed; after %s", log.c_str()); st = OPEN; compiled = false; break;
		case 1: if (st == OPEN) { Exact e(rule), z(rule + S(1, 0)); CHECK((g.p(30) ? rpa_dbex_load_s(d.d, z.b()) : rpa_dbex_load(d.d, e.b(), e.n)) == (long)e.n, "misuse", "load failed with %ld; after %s", rpa_dbex_lasterror(d.d), log.c_str()); rules = true; defs++; }
		        else { Exact e(rule); bad = dead(rpa_dbex_load(d.d, e.b(), e.n), RPA_E_NOTOPEN, "load while closed"); feat("misuse_refused"); } break;
		case 2: rpa_dbex_close(d.d); st = CLOSED; break;
		case 3: if (st == OPEN) { bad = dead(rpa_dbex_compile(d.d), RPA_E_NOTCLOSED, "compile while open"); feat("misuse_refused"); } else { int r = rpa_dbex_compile(d.d); if (rules) CHECK(r == 0, "misuse", "compile failed with %ld; after %s", rpa_dbex_lasterror(d.d), log.c_str()); compiled = r == 0; } break;
		case 4: { long r = d.rid("a"); if (st == OPEN) bad = dead(r, RPA_E_NOTCLOSED, "lookup while open"); else if (!rules) bad = dead(r, RPA_E_NOTFOUND, "lookup in an empty database"); else CHECK(r >= 0, "misuse", "lookup gives %ld; after %s", r, log.c_str()); break; }
		case 5: { long r = d.rid("nosuch"); bad = dead(r, st == OPEN ? RPA_E_NOTCLOSED : RPA_E_NOTFOUND, "lookup of an unknown rule"); feat("misuse_refused"); break; }
		case 6: case 7: {
			Exact e(S("xxy")); long rid = st == OPEN || !rules ? 0 : (long)d.rid(g.p(50) ? "a" : "b");
			long r = g.p(50) ? rpa_stat_match(s.s, rid, 0, e.b(), e.b(), e.e()) : rpa_stat_parse(s.s, rid, 0, e.b(), e.b(), e.e(), recs);
			if (st != OPEN && compiled && rules) CHECK(r == 2 || r == 3, "misuse", "rule %ld on xxy gives %ld, error %ld; after %s", rid, r, rpa_stat_lasterror(s.s), log.c_str());
			else if (st == OPEN || !compiled) { CHECK(r < 0 && rpa_stat_lasterror(s.s) != 0, "misuse", "running a database that is not compiled gives %ld, error %ld; after %s", r, rpa_stat_lasterror(s.s), log.c_str()); feat("misuse_refused"); }
			break; }
		case 8: {
			Exact e(S("xxy")); static const long ids[] = {-1, -2, -1000000, 5000, 1000000, 77}; long rid = g.pick(ids); const char *w = NULL;
			long r = g.p(40) ? rpa_stat_match(s.s, rid, 0, e.b(), e.b(), e.e()) : g.p(50) ? rpa_stat_scan(s.s, rid, 0, e.b(), e.b(), e.e(), &w) : rpa_stat_parse(s.s, rid, 0, e.b(), e.b(), e.e(), recs);
			CHECK(r < 0 && rpa_stat_lasterror(s.s) != 0, "unknown-rule", "rule id %ld gives %ld, error %ld; after %s", rid, r, rpa_stat_lasterror(s.s), log.c_str());
			CHECK(rpa_dbex_name(d.d, rid) == NULL && rpa_dbex_strlen(d.d, rid) < 0 && rpa_dbex_dumptree(d.d, rid) < 0, "unknown-rule", "rule id %ld has a name or text; after %s", rid, log.c_str());
			feat("misuse_refused"); break; }
		case 9: if (compiled && rules && st != OPEN) {
			Exact e(S("xxy")); int k = (int)g.u(3);
			const char *in = k == 0 ? e.e() + 1 : e.b(), *sta = k == 1 ? e.b() + 1 : e.b(), *en = k == 2 ? e.b() - 1 : e.e();
			Exact pad(S("0123456789")); if (k == 2) { in = sta = pad.b() + 5; en = pad.b() + 2; } else if (k == 1) { in = pad.b(); sta = pad.b() + 2; en = pad.e(); } else { in = pad.b() + 9; sta = pad.b(); en = pad.b() + 4; }
			bool parse = g.p(50);
			long r = parse ? rpa_stat_parse(s.s, d.rid("a"), 0, in, sta, en, recs) : rpa_stat_match(s.s, d.rid("a"), 0, in, sta, en);
			CHECK(r < 0 && rpa_stat_lasterror(s.s) == RPA_E_INVALIDINPUT, "invalid-input", "input outside its bounds (%d) gives %ld, error %ld; after %s", k, r, rpa_stat_lasterror(s.s), log.c_str());
			feat("misuse_refused");
		} break;
		case 10: { rparule_t f = rpa_dbex_first(d.d), l = rpa_dbex_last(d.d); if (st == OPEN) CHECK(f < 0 && l < 0 && rpa_dbex_lasterror(d.d) == RPA_E_NOTCLOSED, "misuse", "an open database lists rules %ld..%ld; after %s", (long)f, (long)l, log.c_str()); else if (!rules) CHECK(f < 0 && l < 0, "misuse", "an empty database lists rules; after %s", log.c_str()); else if (st == CLOSED) CHECK(f == 0 && l == 2 * defs - 1, "misuse", "%d definitions are listed as %ld..%ld; after %s", 2 * defs, (long)f, (long)l, log.c_str()); break; }
		case 11: CHECK(rpa_dbex_open(NULL) < 0 && rpa_dbex_load(NULL, "a", 1) < 0 && rpa_dbex_compile(NULL) < 0 && rpa_dbex_lookup(NULL, "a", 1) < 0 && rpa_dbex_first(NULL) < 0 && rpa_dbex_last(NULL) < 0 && rpa_dbex_next(NULL, 0) < 0 && rpa_dbex_prev(NULL, 1) < 0 && rpa_dbex_name(NULL, 0) == NULL && rpa_dbex_cfgset(NULL, 1, 1) < 0 && rpa_stat_abort(NULL) < 0
		             && rpa_dbex_dumprecords(NULL) < 0 && rpa_dbex_dumpproductions(NULL) < 0 && rpa_dbex_dumpinfo(NULL) < 0 && rpa_dbex_dumpuids(NULL) < 0 && rpa_dbex_dumptree(NULL, 0) < 0 && rpa_dbex_dumpcode(NULL, 0) < 0
		             && rpa_dbex_executable(NULL) == NULL && rpa_dbex_executableoffset(NULL, 0) < 0 && rpa_dbex_strlen(NULL, 0) < 0 && rpa_dbex_cfgget(NULL, 1) < 0 && rpa_dbex_lasterror(NULL) < 0 && rpa_stat_lasterror(NULL) < 0, "null-database", "a missing database is accepted"); rpa_dbex_close(NULL); rpa_dbex_destroy(NULL); rpa_stat_destroy(NULL); break;
		case 12: if (st != OPEN) { if (g.p(40)) quiet_dump(d, g); break; }
		         bad = dead(rpa_dbex_dumprecords(d.d), RPA_E_NOTCLOSED, "dump of an open database");
		         if (bad.empty()) bad = dead(rpa_dbex_dumpproductions(d.d), RPA_E_NOTCLOSED, "dump of an open database");
		         if (bad.empty()) bad = dead(rpa_dbex_dumpinfo(d.d), RPA_E_NOTCLOSED, "dump of an open database");
		         if (bad.empty()) bad = dead(rpa_dbex_dumpuids(d.d), RPA_E_NOTCLOSED, "dump of an open database");
		         if (bad.empty()) bad = dead(rpa_dbex_dumptree(d.d, 0), RPA_E_NOTCLOSED, "dump of an open database");
		         if (bad.empty()) bad = dead(rpa_dbex_dumpcode(d.d, 0), RPA_E_NOTCLOSED, "dump of an open database");
		         if (bad.empty()) bad = dead(rpa_dbex_next(d.d, 0), RPA_E_NOTCLOSED, "the next rule of an open database");
		         if (bad.empty()) bad = dead(rpa_dbex_prev(d.d, 1), RPA_E_NOTCLOSED, "the previous rule of an open database");
		         if (bad.empty()) bad = dead(rpa_dbex_executableoffset(d.d, 0), RPA_E_NOTCLOSED, "the code of an open database");
		         if (bad.empty() && rpa_dbex_executable(d.d)) bad = "an open database has code";
		         feat("misuse_refused"); break;
		case 13: CHECK(rpa_dbex_cfgset(d.d, 9999, 1) < 0 && rpa_dbex_cfgget(d.d, 9999) < 0, "misuse", "an unknown setting is accepted"); break;
		}
		CHECK(bad.empty(), "misuse", "%s", bad.c_str());
	}
	distinct(h); feat("misuse_sequences");
}

// Deep recursion on small and large stacks: the right answer or a reported error, and the object stays usable.
static void p07_stack(Rng &g) {
	static const char *gs[] = {
		"S ::= '(' <S> ')' | 'x'\n", "S ::= 'x' <S> | 'y'\n", "S ::= <S> '+' 'x' | 'x'\n", "S ::= '(' (<S> | 'q')* ')' | 'x'\n",
		"S ::= <A> | 'x'\nA ::= '(' <S> ')'\n", "S ::= ^'y' <S> | 'y'\n", "S ::= '(' <S> ')' 'a' | '(' <S> ')' | 'x'\n", "S ::= <S> '(' <S> ')' | 'x'\n"};
	int k = (int)g.u(8);
	Db d; d.cfg({(int)g.u(2), (int)g.u(2), 0});
	S err = d.load({gs[k]}); CHECK(err.empty(), "grammar-refused", "%s", err.c_str());
	unsigned long size = (unsigned long)(g.p(50) ? g.r(10, 400) : g.p(50) ? g.r(400, 5000) : g.p(70) ? 256 * 1024 : g.r(1, 10));
	rpastat_t *s = rpa_stat_create(d.d, size);
	CHECK(s != NULL, "stat-create", "no working object with stack %lu", size);
	if (g.p(30)) rpa_stat_cachedisable(s, 1);
	bool expo = k == 6;
	for (int round = 0; round < 4; round++) {
		long depth = g.p(40) ? g.r(0, 12) : g.p(60) ? g.r(10, 300) : g.r(300, 6000);
		if (expo) depth = g.r(0, 9);
		if (k == 3 && depth > 400) depth = 400;
		S t; long want;
		switch (k) {
		case 0: case 3: case 4: case 6: t = S((size_t)depth, '(') + "x" + S((size_t)depth, ')'); want = (long)t.size(); break;
		case 1: t = S((size_t)depth, 'x') + "y"; want = (long)t.size(); break;
		case 2: t = "x"; for (long i = 0; i < depth; i++) t += "+x"; want = (long)t.size(); break;
		case 5: t = S((size_t)depth, 'z') + "y"; want = (long)t.size(); break;
		default: t = "x"; for (long i = 0; i < depth; i++) t += "(x)"; want = (long)t.size(); break;
		}
		Exact e(t);
		crumb(fmt("%s depth %ld stack %lu", gs[k], depth, size));
		rarray_t *recs = rpa_records_create();
		bool parse = g.p(50);
		long r = parse ? rpa_stat_parse(s, d.rid("S"), 0, e.b(), e.b(), e.e(), recs) : rpa_stat_match(s, d.rid("S"), 0, e.b(), e.b(), e.e());
		long le = rpa_stat_lasterror(s);
		if (r == want) feat("deep_ok");
		else CHECK(r < 0 && le != 0 && le != RPA_E_RULEABORT, "stack-result", "%s on depth %ld with stack %lu gives %ld (error %ld), expected %ld or an error", gs[k], depth, size, r, le, want);
		if (r < 0) feat("stack_exhausted");
		if (r >= 0 && size >= 256 * 1024 && depth < 300) feat("deep_default_stack");
		if (size >= 256 * 1024 && depth <= 300) CHECK(r == want, "stack-default", "%s on depth %ld with the default stack gives %ld (error %ld), expected %ld", gs[k], depth, r, le, want);
		rpa_records_destroy(recs);
		if (!expo && depth < 400 && g.p(50)) {
			// a scan: what a plentiful stack finds, or an error; a position given up for lack of stack is not passed over
			S t2 = S(g.u(3), '!') + t + (g.p(50) ? S(g.u(3), '(') : S());
			if (g.p(30)) t2.erase(g.u(t2.size()), 1);
			Exact e3(t2); const char *w0 = NULL, *w1 = NULL;
			rpastat_t *big = rpa_stat_create(d.d, 0);
			long b = rpa_stat_scan(big, d.rid("S"), 0, e3.b(), e3.b(), e3.e(), &w0), be = rpa_stat_lasterror(big);
			rpa_stat_destroy(big);
			r = rpa_stat_scan(s, d.rid("S"), 0, e3.b(), e3.b(), e3.e(), &w1); le = rpa_stat_lasterror(s);
			if (b >= 0) {
				CHECK((r == b && (b == 0 || w0 == w1)) || (r < 0 && le != 0 && le != RPA_E_RULEABORT), "stack-scan", "%s: scanning %s with stack %lu gives %ld at %ld (error %ld), with the default stack %ld at %ld (error %ld)", gs[k], show(t2, 300).c_str(), size, r, r > 0 ? (long)(w1 - e3.b()) : -1, le, b, b > 0 ? (long)(w0 - e3.b()) : -1, be);
				feat(r < 0 ? "scan_exhausted" : "scan_small_stack");
			}
		}
		// the object is still good
		Exact e2(S(k == 1 || k == 5 ? "y" : "x"));
		r = rpa_stat_match(s, d.rid("S"), 0, e2.b(), e2.b(), e2.e());
		if (size > 400) CHECK(r == 1, "after-exhaustion", "%s with stack %lu: afterwards a one character match gives %ld, error %ld", gs[k], size, r, rpa_stat_lasterror(s));
		if (size > 400) {
			S t4; switch (k) { case 0: case 3: case 4: t4 = "((x))"; break; case 1: t4 = "xxy"; break; case 2: t4 = "x+x+x"; break; case 5: t4 = "zzy"; break; case 6: t4 = "((x)a)"; break; default: t4 = "x(x)(x(x))"; }
			Exact e4(t4); V<long> ln; V<S> rc;
			rpastat_t *fresh = rpa_stat_create(d.d, 0);
			for (rpastat_t *q : {s, fresh}) {
				rarray_t *a = rpa_records_create();
				ln.push_back(rpa_stat_parse(q, d.rid("S"), 0, e4.b(), e4.b(), e4.e(), a)); S o;
				for (long i = 0; i < rpa_records_length(a); i++) { rparecord_t *x = rpa_record_get(a, i); o += fmt("%u:%u:%ld+%lu ", x->ruleuid, x->type, (long)(x->input - e4.b()), x->inputsiz); }
				rc.push_back(o); rpa_records_destroy(a);
			}
			rpa_stat_destroy(fresh);
			CHECK(ln[0] == ln[1] && rc[0] == rc[1], "after-exhaustion", "%s with stack %lu: afterwards parsing %s gives %ld %s, a new object gives %ld %s", gs[k], size, t4.c_str(), ln[0], rc[0].c_str(), ln[1], rc[1].c_str());
		}
		distinct(hmix(hmix((uint64_t)k, size), (uint64_t)depth));
	}
	rpa_stat_destroy(s);
}

static void p07_long(Rng &g) {
	static const char *gs[] = {"S ::= .*\n", "S ::= ([a-c]+ | ' ')+\n", "S ::= <W>+\nW ::= [a-c]+ ' '?\n", "S ::= <S> <W> | <W>\nW ::= [a-c] ' '?\n", "#!noemit W\nS ::= (<W> | '\xc3\xa9')*\nW ::= 'a' | 'b' | 'c' | ' '\n"};
	int k = (int)g.u(5);
	Db d; d.cfg({(int)g.u(2), (int)g.u(2), 0}); S err = d.load({gs[k]}); CHECK(err.empty(), "grammar-refused", "%s", err.c_str());
	long n = g.r(1000, k == 3 ? 3000 : 60000);
	U32 u; for (long i = 0; i < n; i++) u.push_back(i && u.back() != ' ' && g.p(20) ? ' ' : (k == 4 && g.p(10)) ? 0xE9u : 'a' + (uint32_t)g.u(3));
	bool bad = g.p(40); size_t at = g.u(u.size()); if (bad) u[at] = 0x2603;
	Text t(u, g.p(50) ? RPA_ENCODING_UTF8 : RPA_ENCODING_UTF16LE);
	St s(d); rarray_t *recs = rpa_records_create(); struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{recs};
	crumb(fmt("%s on %ld characters", gs[k], n)); distinct(hmix((uint64_t)k, hstr(t.b)));
	Real a = run(d, s, d.rid("S"), t, 0, recs, NULL);
	long want = !bad || k == 0 ? n : (long)at;
	CHECK(a.chars == want, "long-input", "%s on %ld characters (odd one at %ld) matches %d (error %ld)", gs[k], n, bad ? (long)at : -1, a.chars, a.err);
	feat("long_inputs"); feat("long_characters", (uint64_t)n);
}

static void p07_abort(Rng &g) {
	Db d; S err = d.load({"S ::= (<A> | <B>)*\nA ::= 'a' 'b'\nB ::= 'a' 'a'\n"}); CHECK(err.empty(), "grammar-refused", "%s", err.c_str());
	St s(d);
	S t((size_t)g.r(200000, 400000), 'a'); if (t.size() & 1) t += 'a';
	Exact e(t);
	std::atomic<bool> go(false);
	unsigned us = (unsigned)g.u(60000);
	rpastat_t *raw = s.s;
	std::thread th([&] { while (!go) std::this_thread::yield(); usleep(us); rpa_stat_abort(raw); });
	go = true;
	long r = rpa_stat_match(s.s, d.rid("S"), 0, e.b(), e.b(), e.e());
	long le = rpa_stat_lasterror(s.s);
	th.join();
	crumb("user abort"); distinct(hmix(t.size(), us));
	CHECK(r == (long)t.size() || (r < 0 && le != 0), "user-abort", "an aborted match gives %ld of %zu, error %ld", r, t.size(), le);
	feat(r < 0 ? "aborted" : "abort_too_late");
	Exact e2(S("aaab")); long q = rpa_stat_match(s.s, d.rid("S"), 0, e2.b(), e2.b(), e2.e());
	CHECK(q == 4, "after-abort", "after an abort a match of 4 characters gives %ld, error %ld", q, rpa_stat_lasterror(s.s));
}

static void p07(Rng &g) {
	int x = (int)g.u(100);
	if (x < 50) p07_text(g);
	else if (x < 65) p07_position(g);
	else if (x < 75) p07_undefined(g);
	else if (x < 87) p07_misuse(g);
	else if (x < 97) p07_stack(g);
	else if (x < 99) p07_long(g);
	else p07_abort(g);
}

// ------------------------------------------------------------------ P08
// One object used a great many times: what an early use left behind must not show up 256 or 65536 uses later.
static void p08_wrap(Rng &g) {
	Gen gen(g, (int)g.r(2, 6), g.p(50) ? 1 : 0); gen.maxdepth = 2;
	Grammar gr = gen.grammar();
	Db d; Cfg c; c.opt = (int)g.u(2); c.bitmap = (int)g.u(2); d.cfg(c);
	V<S> parts = parts_of(g, gr, 0, order_of(g, gr.r.size(), false));
	S log = joined(parts); crumb(log); distinct(case_hash(parts));
	S err = d.load(parts); CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), log.c_str());
	St s(d);
	int r = (int)g.u(gr.r.size()); rparule_t rid = d.rid(gr.r[r].name), any = d.rid(gr.r[g.u(gr.r.size())].name);
	V<U32> us; int len = 0;
	for (int k = 0; k < 4; k++) { Sampler sm(g, gr); U32 u = sm.text(r, text_room(g, gr, 40)); len = std::max(len, (int)u.size()); us.push_back(u); }
	long n = g.pick({126, 127, 254, 255, 255, 255, 256, 511}); if (g.p(2)) n = g.pick({32767, 65534, 65535});
	Exact one(S("\x01"));
	for (size_t k = 0; k < us.size(); k++) {
		U32 u = us[k];
		if (k && g.p(60)) { u = us[k - 1]; for (int m = (int)g.r(1, 4); m > 0 && u.size(); m--) u[g.u(u.size())] = 'a' + (uint32_t)g.u(6); us[k] = u; }
		Peg ref(gr, u, false); int e = std::max(0, ref.match(r, 0)); if (ref.over) return;
		Text t(u, RPA_ENCODING_UTF8);
		S what = fmt("use %ld: rule %s of %s; ", (long)k * (n + 1), gr.r[r].name.c_str(), shu(u).c_str()) + log;
		crumb(what);
		rarray_t *recs = g.p(50) ? rpa_records_create() : NULL;
		Real a = run(d, s, rid, t, 0, recs, &gr);
		rpa_records_destroy(recs);
		CHECK(a.chars == e && a.bad.empty() && (!recs || !e || a.ev == ref.out), "reuse-many", "got %d characters (%ld, error %ld, %s), expected %d; %s", a.chars, a.ret, a.err, a.bad.c_str(), e, what.c_str());
		for (long i = 0; i < n; i++) rpa_stat_match(s.s, any, 0, one.b(), one.b(), one.e());
		feat("many_uses", (uint64_t)n);
	}
}
// Left recursion, aborts and earlier records on one object, against a new object for every observation.
static void p08_lr(Rng &g) {
	V<int> starts; Grammar gr = lr_grammar(g, starts);
	if (g.p(60)) gr.r[g.u(gr.r.size())].abort = true;
	Db d; Cfg c; c.opt = (int)g.u(2); c.bitmap = (int)g.u(2); d.cfg(c);
	V<S> parts = parts_of(g, gr, 0, order_of(g, gr.r.size(), false));
	S log = joined(parts); crumb(log); uint64_t h = case_hash(parts);
	S err = d.load(parts); CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), log.c_str());
	St s(d);
	rarray_t *recs = rpa_records_create(); struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{recs};
	for (int i = 0; i < 12; i++) {
		int r = starts[g.u(starts.size())]; U32 u = lr_text(g, gr, r, 24); if (u.empty()) continue;
		if (g.p(40)) u[g.u(u.size())] = g.p(50) ? '?' : g.pick(u);
		int p = g.p(80) ? 0 : (int)g.u(u.size() + 1);
		Text t(u, RPA_ENCODING_UTF8); h = hstr(t.b, h);
		S what = fmt("step %d: rule %s at %d of %s; ", i, gr.r[r].name.c_str(), p, shu(u).c_str()) + log; crumb(what);
		S bad; bool scan = g.p(30);
		St f(d); Outcome b = observe(d, f, gr, r, t, p, scan, bad);
		CHECK(bad.empty(), "lr-agree", "%s; %s", bad.c_str(), what.c_str());
		if (g.p(60)) {
			Outcome a = observe(d, s, gr, r, t, p, scan, bad);
			CHECK(bad.empty() && same(a, b), "reuse-lr", "a used object gives %s, a new one %s %s; %s", sho(a, gr).c_str(), sho(b, gr).c_str(), bad.c_str(), what.c_str());
		} else {
			if (g.p(20)) r_array_setlength(recs, 0);
			size_t before = (size_t)rpa_records_length(recs); S keep((const char *)r_array_slot(recs, 0), before * sizeof(rparecord_t));
			Real a = run(d, s, d.rid(gr.r[r].name), t, p, recs, &gr);
			CHECK(a.bad.empty() && a.chars == b.chars && a.err == b.err && a.eoff == b.eoff && a.ev == b.ev, "reuse-lr", "appending to %zu records: length %d error %ld %s records %s, a new object gives %s; %s", before, a.chars, a.err, a.bad.c_str(), evs(a.ev, gr).c_str(), sho(b, gr).c_str(), what.c_str());
			CHECK(!memcmp(keep.data(), r_array_slot(recs, 0), keep.size()), "earlier-records", "the parse changed records that were already in the array; %s", what.c_str());
			if (a.ret < 0) r_array_setlength(recs, 0);
			if (before) feat("lr_appended");
		}
		feat(b.err ? "lr_aborts" : b.chars ? "lr_parsed" : "lr_unparsed");
#ifdef MON_ASAN
		if (g.p(b.err ? 20 : 3)) {
			// the thousandth use needs no more memory than the hundredth
			Exact e(t.b); size_t held = 0; int n = (int)g.r(1500, 4000);
			for (int k = 0; k < n; k++) {
				if (k == 100) held = __sanitizer_get_current_allocated_bytes();
				rpa_stat_match(s.s, d.rid(gr.r[r].name), 0, e.b() + t.off[p], e.b(), e.e());
			}
			size_t now = __sanitizer_get_current_allocated_bytes();
			CHECK(now < held + 8000, "reuse-memory", "after 100 uses %zu bytes are held, after %d %zu; %s", held, n, now, what.c_str());
			feat(b.err ? "steady_aborts" : "steady_uses");
		}
#endif
	}
	distinct(h);
}
static void p08(Rng &g) {
	if (g_idx % 12 == 5) return p08_lr(g);
	if (g_idx % 40 == 9) return p08_wrap(g);
	bool ab = g.p(25);
	Gen gen(g, (int)g.r(2, 6), (g.p(60) ? 1 : 0) | (g.p(30) ? 2 : 0));
	gen.maxdepth = 2;
	Grammar gr = gen.grammar();
	if (ab) gr.r[g.u(gr.r.size())].abort = true;
	Db d; Cfg c; c.opt = (int)g.u(2); c.bitmap = (int)g.u(2); d.cfg(c);
	V<S> hist = parts_of(g, gr, 0, order_of(g, gr.r.size(), g.p(50)));
	S log = joined(hist);
	size_t defs = gr.r.size();
	crumb(log);
	uint64_t h = case_hash(hist);
	S err = d.load(hist);
	CHECK(err.empty(), "grammar-refused", "%s: %s", err.c_str(), log.c_str());
	St s1(d), s2(d);
	rpa_stat_cachedisable(s2.s, 1);
	std::map<S, Db *> fresh;
	struct Own { Db *p = NULL; ~Own() { delete p; } } fr;
	Exact home(S(1024, '#'));
	S lastbytes; U32 lastu; int lastenc = 0, lastp = 0, lastr = 0;
	int steps = (int)g.r(6, 20);
	for (int i = 0; i < steps; i++) {
		int op = (int)g.u(100); h = hmix(h, (uint64_t)op);
		if (op < 62) {
			// one observation on a shared object, next to the reference
			int r = g.p(50) ? 0 : (int)g.u(gr.r.size());
			Sampler sm(g, gr); U32 u = sm.text(r, text_room(g, gr, g.p(15) ? 60 : 14));
			int p = g.p(75) ? 0 : (int)g.u(u.size() + 1);
			int enc = pick_enc(g, u) | (g.p(15) ? RPA_ENCODING_ICASE : 0);
			bool inplace = g.p(50);
			if (inplace && lastu.size() && g.p(75)) {
				// the same buffer, place and length again, with other characters in it
				U32 v = lastu;
				if (g.p(80)) for (int k = (int)g.r(1, 3); k > 0; k--) {
					size_t at = g.u(v.size());
					uint32_t c = !u.empty() && g.p(60) ? g.pick(u) : g.p(70) ? 'a' + (uint32_t)g.u(6) : g.pick(v);
					U32 one{c}, old{v[at]};
					if (Text(one, lastenc).b.size() == Text(old, lastenc).b.size() && ((lastenc & 0xff) != RPA_ENCODING_BYTE || c < 256)) v[at] = c;
				}
				else std::reverse(v.begin(), v.end());
				if (g.p(80)) r = lastr;
				enc = lastenc; u = v; p = g.p(90) ? lastp : (int)g.u(u.size() + 1);
				if (Text(u, enc).b.size() == lastbytes.size()) feat(Text(u, enc).b == lastbytes ? "same_text_again" : "text_changed_in_place");
			}
			Peg ref(gr, u, (enc & RPA_ENCODING_ICASE) != 0);
			Text t(u, enc);
			if (t.b.size() > home.n) continue;
			Exact *at = inplace ? &home : NULL;
			if (inplace) { lastu = u; lastenc = enc; lastp = p; lastr = r; lastbytes = t.b; }
			St &s = g.p(60) ? s1 : s2;
			int mode = (int)g.u(3);
			S what = fmt("step %d%s: rule %s at %d of %s (%s); ", i, inplace ? " in place" : "", gr.r[r].name.c_str(), p, shu(u).c_str(), shenc(enc).c_str()) + log;
			crumb(what);
			rparule_t rid = d.rid(gr.r[r].name);
			if (mode < 2) {
				int e = ref.match(r, p); if (ref.over) continue;
				rarray_t *recs = rpa_records_create();
				Real a = run(d, s, rid, t, p, mode ? recs : NULL, &gr, at);
				rpa_records_destroy(recs);
				if (ref.aborted) { CHECK(a.ret < 0 && a.err == RPA_E_RULEABORT && a.name == gr.r[ref.arule].name && a.eoff == (long)t.off[ref.apos], "reuse-abort", "got %ld, error %ld %s at %ld, expected an abort of %s at %zu; %s", a.ret, a.err, a.name.c_str(), a.eoff, gr.r[ref.arule].name.c_str(), t.off[ref.apos], what.c_str()); feat("aborts"); continue; }
				CHECK(a.chars == (e > p ? e - p : 0), mode ? "reuse-parse" : "reuse-match", "got %d characters (%ld, error %ld), expected %d; %s", a.chars, a.ret, a.err, e > p ? e - p : 0, what.c_str());
				CHECK(rpa_stat_lasterror(s.s) == 0, "stale-error", "after a use that did not fail the last error is %ld; %s", rpa_stat_lasterror(s.s), what.c_str());
				if (mode) { CHECK(a.bad.empty(), "reuse-records", "%s; %s", a.bad.c_str(), what.c_str()); if (e > p) CHECK(a.ev == ref.out, "reuse-records", "records %s, expected %s; %s", evs(a.ev, gr).c_str(), evs(ref.out, gr).c_str(), what.c_str()); }
				feat(e > p ? "matched" : "unmatched");
			} else {
				long wa = -1, wl = 0; bool over = false;
				for (int q = p; q < (int)u.size(); q++) {
					int e = ref.match(r, q); if (ref.over) { over = true; break; }
					if (ref.aborted) continue;     // a scan goes on after a rule aborts
					if (e > q) { wa = (long)t.off[q]; wl = (long)(t.off[e] - t.off[q]); break; }
				}
				if (over) continue;
				Place ex(t.b, at); const char *w = NULL;
				long l = rpa_stat_scan(s.s, rid, (unsigned)enc, ex.b() + t.off[p], ex.b(), ex.e(), &w);
				CHECK(l == wl && (l <= 0 || w - ex.b() == wa), "scan", "scan gives %ld at %ld, the first match is %ld at %ld; %s", l, l > 0 ? (long)(w - ex.b()) : -1L, wl, wa, what.c_str());
				feat(l > 0 ? "scan_found" : "scan_none");
			}
		} else if (op < 70) {
			// something goes wrong in between
			int k = (int)g.u(4); St &s = g.p(50) ? s1 : s2;
			Exact e(S("abc"));
			if (k == 0) { long r = rpa_stat_match(s.s, -1, 0, e.b(), e.b(), e.e()); CHECK(r < 0, "bad-rule", "rule -1 gives %ld; %s", r, log.c_str()); }
			else if (k == 1) { long r = rpa_stat_match(s.s, d.rid(gr.r[0].name), 0, e.e(), e.b(), e.b()); CHECK(r < 0, "bad-input", "an input past its end gives %ld; %s", r, log.c_str()); }
			else if (k == 2) { CHECK(d.rid("nothing_of_the_kind") < 0, "bad-name", "an unknown name is found; %s", log.c_str()); }
			else { Exact z(S("")); long r = rpa_stat_match(s.s, d.rid(gr.r[0].name), 0, z.b(), z.b(), z.b()); (void)r; }
			feat("failures_between");
		} else if (op < 90) {
			// reopen: redefine rules, perhaps with a refused text or an undefined rule on the way
			rpa_dbex_open(d.d);
			if (g.p(30)) { Exact e(S("broken ::= (\n")); CHECK(rpa_dbex_load(d.d, e.b(), e.n) < 0, "bad-text", "a broken text is accepted; %s", log.c_str()); feat("refused_loads"); }
			int n = (int)g.r(0, 2); S text;
			for (int k = 0; k < n; k++) {
				int r = (int)g.u(gr.r.size());
				gen.budget = 15;
				gr.r[r].body = gen.alt(r, 0, false);
				Printer pr(g, gr, 0); text += pr.rule(gr.r[r]) + "\n";
				defs++;
			}
			bool undef = g.p(15);
			if (undef) { text += fmt("temp_rule ::= 'q' <not_there%zu>\n", defs); defs++; }
			if (!text.empty()) { Exact e(text); CHECK(rpa_dbex_load(d.d, e.b(), e.n) == (long)e.n, "grammar-refused", "error %ld for %s; %s", rpa_dbex_lasterror(d.d), show(text, 800).c_str(), log.c_str()); }
			log += " ++ " + show(text, 1000); h = hstr(text, h);
			if (g.p(30)) { c.opt = (int)g.u(2); c.bitmap = (int)g.u(2); d.cfg(c); log += " {" + cfgs(c) + "}"; }
			crumb(log);
			rpa_dbex_close(d.d);
			int rc = rpa_dbex_compile(d.d);
			if (undef) {
				CHECK(rc != 0 && rpa_dbex_lasterror(d.d) == RPA_E_UNRESOLVEDSYMBOL, "undefined", "compile gives %d, error %ld; %s", rc, rpa_dbex_lasterror(d.d), log.c_str());
				rpa_dbex_open(d.d);
				Exact e(fmt("not_there%zu ::= 'p'\n", defs - 1)); defs++;
				CHECK(rpa_dbex_load(d.d, e.b(), e.n) == (long)e.n, "grammar-refused", "error %ld; %s", rpa_dbex_lasterror(d.d), log.c_str());
				rpa_dbex_close(d.d);
				rc = rpa_dbex_compile(d.d);
				feat("failed_compiles");
				log += fmt(" ++ not_there%zu", defs - 2);
			}
			CHECK(rc == 0, "recompile", "compile gives %d, error %ld; %s", rc, rpa_dbex_lasterror(d.d), log.c_str());
			feat("reloads"); if (n) feat("redefinitions");
		} else if (op < 95) {
			if (g.p(50)) { c.opt = (int)g.u(2); c.bitmap = (int)g.u(2); d.cfg(c); log += " {" + cfgs(c) + "}"; }
			CHECK(rpa_dbex_compile(d.d) == 0, "recompile", "a second compile fails with %ld; %s", rpa_dbex_lasterror(d.d), log.c_str());
			log += " recompiled"; feat("recompiles");
		} else {
			// names, ids and texts
			size_t n = 0; rparule_t prev = -1;
			for (rparule_t r = rpa_dbex_first(d.d); r >= 0; prev = r, r = rpa_dbex_next(d.d, r), n++) {
				const char *nm = rpa_dbex_name(d.d, r);
				CHECK(nm != NULL, "names", "rule id %ld has no name; %s", (long)r, log.c_str());
				CHECK(n == 0 || rpa_dbex_prev(d.d, r) == prev, "names", "the rule before %ld is %ld, not %ld; %s", (long)r, (long)rpa_dbex_prev(d.d, r), (long)prev, log.c_str());
				long len = rpa_dbex_strlen(d.d, r); CHECK(len > 0, "names", "rule id %ld has %ld bytes of text; %s", (long)r, len, log.c_str());
				S buf((size_t)len, '#'); Exact room(buf);
				long m = rpa_dbex_strncpy(d.d, room.p, r, (unsigned long)len);
				CHECK(m == len, "names", "copying %ld bytes of rule text gives %ld; %s", len, m, log.c_str());
				bool rule = false; for (auto &q : gr.r) if (q.name == nm) rule = true;
				if (rule) CHECK(S(room.p, (size_t)len).compare(0, strlen(nm), nm) == 0, "names", "the text of rule %s is %s; %s", nm, show(S(room.p, (size_t)len)).c_str(), log.c_str());
				rparule_t l = rpa_dbex_lookup_s(d.d, nm);
				CHECK(l >= r && S(rpa_dbex_name(d.d, l)) == nm, "names", "looking up %s (id %ld) gives %ld; %s", nm, (long)r, (long)l, log.c_str());
			}
			CHECK(prev == rpa_dbex_last(d.d), "names", "the last rule is %ld, the walk ends at %ld; %s", (long)rpa_dbex_last(d.d), (long)prev, log.c_str());
			CHECK(n >= defs, "names", "%zu rules are listed, %zu were defined; %s", n, defs, log.c_str());
			for (auto &r : gr.r) CHECK(d.rid(r.name) >= 0 && r.name == rpa_dbex_name(d.d, d.rid(r.name)), "names", "rule %s is not found under its name; %s", r.name.c_str(), log.c_str());
			feat("name_checks");
		}
	}
	distinct(h);
}

// ------------------------------------------------------------------ P09
struct TNode { int parent; V<int> kids; long s, e; };
static void grow(Rng &g, V<TNode> &t, int parent, int depth, int &budget, int shape) {
	int n = shape == 1 ? 1 : shape == 3 ? (depth == 0 ? 1 : depth == 1 ? budget : (int)g.u(3)) : (int)g.u(shape == 2 ? 12 : 4);
	if (parent < 0) n = shape == 3 ? 2 : (int)g.r(0, 4);
	for (int i = 0; i < n && budget > 0; i++) {
		budget--;
		int me = (int)t.size(); t.push_back({parent, {}, 0, 0});
		if (parent >= 0) t[parent].kids.push_back(me);
		if (depth < (shape == 1 ? 6000 : shape == 3 ? (g.p(10) ? 2 : 1) : 400)) grow(g, t, me, depth + 1, budget, shape);
	}
}
static bool same_rec(const rparecord_t &a, const rparecord_t &b) {
	return a.top == b.top && a.size == b.size && a.rule == b.rule && a.input == b.input && a.inputoff == b.inputoff && a.inputsiz == b.inputsiz && a.type == b.type && a.ruleid == b.ruleid && a.ruleuid == b.ruleuid && a.usertype == b.usertype && a.userdata == b.userdata;
}
struct WalkLog { V<long> at; long stop; rarray_t *arr; bool wrong = false; };
static long walk_cb(rarray_t *r, long rec, rpointer u) { WalkLog *w = (WalkLog *)u; if (r != w->arr) w->wrong = true; w->at.push_back(rec); return (long)w->at.size() == w->stop ? -1 : 0; }

static void p09(Rng &g) {
	V<TNode> t; int shape = (int)g.u(3), budget = shape == 1 ? (int)g.r(1, 300) : (int)g.r(0, 60);
	if (g.u(1500) == 0) { shape = g.p(70) ? 3 : 1; budget = (int)g.r(1000, 6000); }   // thousands beside or below one another
	grow(g, t, -1, 0, budget, shape);
	static const char text[] = "some recorded text 0123456789 ABCDEF";
	V<rparecord_t> model; V<int> node; V<int> roots;
	S longname(300, 'L');
	static const char *names[] = {"first", "middle", "last", "n"};
	std::function<void(int)> lay = [&](int n) {
		rparecord_t r; memset(&r, 0, sizeof r);
		r.top = (ruint32)g.u(1000); r.size = (ruint32)g.u(50); r.rule = g.p(5) ? longname.c_str() : g.pick(names);
		r.inputoff = g.u(sizeof text - 1); r.input = text + r.inputoff; r.inputsiz = g.u(sizeof text - r.inputoff);
		r.ruleid = (ruint32)g.u(100); r.ruleuid = (ruint32)g.u(1 << 20); r.usertype = (ruint32)g.u(32); r.userdata = g.next();
		r.type = RPA_RECORD_START; t[n].s = (long)model.size(); model.push_back(r); node.push_back(n);
		for (int k : t[n].kids) lay(k);
		r.type = RPA_RECORD_END; t[n].e = (long)model.size(); model.push_back(r); node.push_back(n);
	};
	for (size_t i = 0; i < t.size(); i++) if (t[i].parent < 0) roots.push_back((int)i);
	for (int r : roots) lay(r);
	rarray_t *a = rpa_records_create();
	struct Free { rarray_t *r; ~Free() { rpa_records_destroy(r); } } fr{a};
	for (auto &r : model) r_array_add(a, &r);
	long n = (long)model.size();
	uint64_t h = hmix(9, (uint64_t)n); for (auto &r : model) h = hmix(h, r.type);
	distinct(h); feat("nodes", t.size());
	S shape_s; for (auto &r : model) shape_s += r.type == RPA_RECORD_START ? '(' : ')';
	crumb("tree " + shape_s);
	auto pos = [&](int nd, unsigned long ty) { return nd < 0 ? -1L : ty == RPA_RECORD_START ? t[nd].s : t[nd].e; };
	CHECK(rpa_records_length(a) == n, "length", "length %ld, %ld records were added", rpa_records_length(a), n);
	int depth = 0, mx = 0; for (auto &r : model) { if (r.type == RPA_RECORD_START) mx = std::max(mx, ++depth); else depth--; }
	if (mx > 128) feat("deeper_than_128");
	if (mx > 1000) feat("deeper_than_1000");
	for (auto &x : t) if (x.kids.size() > 1000) feat("wider_than_1000");
	for (long i = -3; i < n + 3; i++) {
		if (n > 150 && i > 3 && i < n - 3 && (n > 1000 ? !g.p(2) : g.p(70))) continue;
		bool in = i >= 0 && i < n;
		CHECK((rpa_record_get(a, i) != NULL) == in && (rpa_records_slot(a, i) != NULL) == in, "range", "position %ld of %ld records; tree %s", i, n, shape_s.c_str());
		if (in) CHECK(same_rec(*rpa_record_get(a, i), model[i]) && same_rec(*rpa_records_slot(a, i), model[i]), "content", "record %ld differs; tree %s", i, shape_s.c_str());
		int nd = in ? node[i] : -1;
		const V<int> &sib = nd < 0 ? roots : t[nd].parent < 0 ? roots : t[t[nd].parent].kids;
		long me = nd < 0 ? -1 : std::find(sib.begin(), sib.end(), nd) - sib.begin();
		for (unsigned long ty : {(unsigned long)RPA_RECORD_START, (unsigned long)RPA_RECORD_END}) {
			struct Q { const char *what; long got, want; } q[] = {
				{"get", rpa_recordtree_get(a, i, ty), pos(nd, ty)},
				{"firstchild", rpa_recordtree_firstchild(a, i, ty), nd < 0 || t[nd].kids.empty() ? -1 : pos(t[nd].kids.front(), ty)},
				{"lastchild", rpa_recordtree_lastchild(a, i, ty), nd < 0 || t[nd].kids.empty() ? -1 : pos(t[nd].kids.back(), ty)},
				{"next", rpa_recordtree_next(a, i, ty), nd < 0 || me + 1 >= (long)sib.size() ? -1 : pos(sib[me + 1], ty)},
				{"prev", rpa_recordtree_prev(a, i, ty), nd < 0 || me <= 0 ? -1 : pos(sib[me - 1], ty)},
				{"parent", rpa_recordtree_parent(a, i, ty), nd < 0 ? -1 : pos(t[nd].parent, ty)},
			};
			for (auto &x : q) { CHECK(x.got == x.want, x.what, "%s(%ld, %s) gives %ld, the tree has %ld; tree %s", x.what, i, ty == RPA_RECORD_START ? "START" : "END", x.got, x.want, shape_s.c_str()); feat("navigation"); }
		}
		CHECK(rpa_recordtree_size(a, i) == (nd < 0 ? -1 : t[nd].e - t[nd].s + 1), "size", "size(%ld) gives %ld; tree %s", i, rpa_recordtree_size(a, i), shape_s.c_str());
		long ru = rpa_record_getruleuid(a, i), ut = rpa_record_getusertype(a, i);
		CHECK(ru == (in ? (long)model[t[nd].s].ruleuid : -1) && ut == (in ? (long)model[t[nd].s].usertype : -1), "attributes", "record %ld: user id %ld, user type %ld; tree %s", i, ru, ut, shape_s.c_str());
		if (!in) { rpa_record_setusertype(a, i, 255, RVALSET_NONE); feat("out_of_range"); }
		if (g.p(n > 60 ? 5 : 25)) {
			WalkLog w{{}, g.p(30) ? (long)g.r(1, n + 2) : 0, a};
			long rc = rpa_recordtree_walk(a, i, g.p(60) ? 0 : (long)g.u(300), walk_cb, &w);
			long s0 = nd < 0 ? 0 : t[nd].s, sz = nd < 0 ? 0 : t[nd].e - t[nd].s + 1;
			bool cut = w.stop > 0 && w.stop <= sz;
			if (cut) sz = w.stop;
			bool ok = !w.wrong && (long)w.at.size() == sz && (nd < 0 || cut ? rc < 0 : rc == 0);
			for (long k = 0; ok && k < sz; k++) ok = w.at[k] == s0 + k;
			CHECK(ok, "walk", "walk(%ld) visits %zu records and returns %ld, the branch has %ld from %ld%s; tree %s", i, w.at.size(), rc, sz, s0, cut ? " (stopped)" : "", shape_s.c_str());
			feat("walks");
		}
		if (g.p(n > 60 ? 5 : 25)) {
			rarray_t *b = rpa_records_create();
			int pre = n ? (int)g.u(4) : 0; for (int k = 0; k < pre; k++) r_array_add(b, &model[0]);
			if (n == 0) pre = 0;
			long c = rpa_recordtree_copy(b, a, i), sz = nd < 0 ? -1 : t[nd].e - t[nd].s + 1;
			bool ok = c == sz && rpa_records_length(b) == pre + std::max(sz, 0L);
			for (long k = 0; ok && k < sz; k++) ok = same_rec(*rpa_record_get(b, pre + k), model[t[nd].s + k]);
			rpa_records_destroy(b);
			CHECK(ok, "copy", "copy(%ld) gives %ld records, the branch has %ld; tree %s", i, c, sz, shape_s.c_str());
			feat("copies");
		}
	}
	if (g.p(10) && n && n <= 2000) {
		fflush(stdout);
		int save = dup(1), out = memfd_create("dump", 0); dup2(out, 1);
		V<int> level((size_t)n);
		for (long i = -2; i < n + 2; i++) { rpa_record_dump(a, i, 1); if (i >= 0 && i < n) rpa_record_dumpindented(a, i, level[i] = (int)g.u(5)); }
		fflush(stdout); dup2(save, 1); close(save);
		S all; char buf[65536]; lseek(out, 0, SEEK_SET); for (ssize_t k; (k = read(out, buf, sizeof buf)) > 0;) all.append(buf, k);
		close(out);
		// each record shows its place, its branch and its name
		size_t at = 0;
		auto line = [&]() { size_t e = all.find('\n', at); S l = all.substr(at, e == S::npos ? S::npos : e - at); at = e == S::npos ? all.size() : e + 1; return l; };
		for (long i = 0; i < n; i++) {
			int nd = node[i]; const rparecord_t &m = model[i];
			char opt = "x+?*"[m.usertype & 3], loop = "xLNR"[m.usertype >> 3 & 3];
			S w = fmt("%5ld: [ s: %5ld, e: %5ld, p: %5ld ] ( %4d, 0x%03x ) : %s", i, t[nd].s, t[nd].e, pos(t[nd].parent, RPA_RECORD_START), m.ruleuid, m.usertype, m.type == RPA_RECORD_START ? "START " : "END   ") + m.rule + " ", got = line();
			if (w.size() > 88) w.resize(88);
			CHECK(got.compare(0, w.size(), w) == 0, "dump", "record %ld is dumped as %s, expected %s", i, show(got).c_str(), show(w).c_str());
			const rparecord_t &en = model[t[nd].e];
			S w2 = S(3 * (level[i] + 1), ' ') + "(" + m.rule + ", " + opt + ", " + loop + ") " + S(en.input, en.inputsiz);
			got = line();
			CHECK(got == w2, "dump", "record %ld at level %d is shown as %s, expected %s", i, level[i], show(got).c_str(), show(w2).c_str());
		}
		CHECK(at == all.size(), "dump", "more is dumped than there are records: %s", show(all.substr(at), 200).c_str());
		feat("dumps");
	}
	// edits
	for (int k = 0; k < 6 && n > 0; k++) {
		if (g.p(50)) {
			long i = (long)g.u((uint64_t)n); uint32_t v = (uint32_t)g.u(256); static const rvalset_t ops[] = {RVALSET_NONE, RVALSET_OR, RVALSET_XOR, RVALSET_AND}; rvalset_t op = g.pick(ops);
			rpa_record_setusertype(a, i, v, op);
			for (long j : {t[node[i]].s, t[node[i]].e}) { ruint32 &m = model[j].usertype; m = op == RVALSET_NONE ? v : op == RVALSET_OR ? m | v : op == RVALSET_XOR ? m ^ v : m & v; }
			feat("usertype_edits");
		} else {
			long src = g.r(-2, n + 1), dst = g.r(-2, n + 1), sz = g.r(0, g.p(50) ? 5 : n);
			int rc = rpa_recordtree_move(a, dst, src, sz);
			bool ok = dst >= 0 && src >= 0 && dst + sz <= n && src + sz <= n;
			if (dst == src && dst >= 0 && dst + sz <= n) ok = true;
			CHECK((rc == 0) == ok, "move", "move(%ld <- %ld, %ld) in %ld records gives %d", dst, src, sz, n, rc);
			if (ok) {
				V<rparecord_t> m(model.begin() + src, model.begin() + src + sz);
				std::copy(m.begin(), m.end(), model.begin() + dst);
			}
			for (long i = 0; i < n; i++) CHECK(same_rec(*rpa_record_get(a, i), model[i]), "move", "after move(%ld <- %ld, %ld) in %ld records, record %ld differs", dst, src, sz, n, i);
			feat(ok ? "moves" : "moves_refused");
			if (ok && dst != src && sz) break;   // the tree shape no longer holds
		}
		for (long i = 0; i < n; i++) CHECK(same_rec(*rpa_record_get(a, i), model[i]), "edit", "record %ld differs after an edit; tree %s", i, shape_s.c_str());
	}
	// numbers
	for (int k = 0; k < 3; k++) {
		bool hex = g.p(50); uint32_t v = g.p(50) ? (uint32_t)g.u(300) : (uint32_t)g.next();
		S digits = hex ? fmt(g.p(50) ? "%x" : "%08X", v) : fmt("%u", v);
		Exact e(digits);
		rparecord_t r; memset(&r, 0, sizeof r); r.input = e.b(); r.inputsiz = e.n; r.ruleuid = hex ? RPA_PRODUCTION_HEX : RPA_PRODUCTION_DEC; r.type = RPA_RECORD_END;
		ruint32 out = 0;
		CHECK(rpa_record2long(&r, &out) == 0 && out == v, "number", "record of %s (%s) reads as %u", digits.c_str(), hex ? "hex" : "decimal", out);
		r.inputsiz = 0; CHECK(rpa_record2long(&r, &out) < 0, "number", "an empty record is a number");
		r.inputsiz = e.n; r.ruleuid = RPA_PRODUCTION_CHAR; CHECK(rpa_record2long(&r, &out) < 0 && rpa_record2long(NULL, &out) < 0, "number", "a record of another kind is a number");
		feat("numbers");
	}
}

static bool select2(const S &p) {
	if (p == "P05") g_fn = p05;
	else if (p == "P06") g_fn = p06;
	else if (p == "P07") g_fn = p07;
	else if (p == "P08") g_fn = p08;
	else if (p == "P09") g_fn = p09;
	else return false;
	return true;
}
