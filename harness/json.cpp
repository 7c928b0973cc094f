// J01 reader, J02 writer and values, J03 C parser.
#define MON_CXX
#include "common.h"
#include "jref.h"
#include <unistd.h>
#include "rexjson/rexjson++.h"
#include "rexjson/rexjson.h"

#include "jval.h"

// ---------------------------------------------------------------- texts
static const char *const SOUP[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "-", "1.5", "null", " ", "1.", "1e", "tru", "\"", "\\", "x", "0", "\xff"};
static uint64_t soup_total(int n) { uint64_t t = 1; while (n--) t *= 20; return t; }
static S soup(uint64_t k, int n) { S o; while (n--) { o += SOUP[k % 20]; k /= 20; } return o; }

static void gen_text(Rng &r, S &t, size_t &levels) {
	levels = 32;
	int budget = 60;
	if (r.p(1) && r.p(50)) { t = jlarge(r, levels); if (r.p(30)) t = jmutate(r, t); feat("large_texts"); return; }
	switch (r.u(12)) {
	case 0: case 1: case 2: case 3: jws(r, t); jtext(r, t, r.r(0, 6), budget); jws(r, t); break;
	case 4: case 5: case 6: { jtext(r, t, r.r(0, 4), budget); t = jmutate(r, t); break; }
	case 7: { for (int n = r.r(1, 12); n > 0; n--) t += r.pick(SOUP); break; }
	case 8: {	// nesting around the limit
		levels = r.p(40) ? 32 : r.p(50) ? r.u(5) : r.r(1, 200);
		long d = (long)levels + r.r(-2, 2); if (d < 0) d = 0;
		S close;
		for (long i = 0; i < d - 1; i++) {
			if (r.p(50)) { t += "["; if (r.p(20)) t += "0,"; close = "]" + close; }
			else { t += "{\"k\":"; close = "}" + close; }
		}
		static const char *leaf[] = {"1", "[]", "{}", "null", "\"x\"", "", "]", "x"};
		t += r.pick(leaf); t += close;
		if (r.p(20)) t += "]";
		break;
	}
	case 9: jws(r, t); t += jnum(r); if (r.p(40)) t = jmutate(r, t); if (r.p(50)) t = "[" + t + "," + jnum(r) + "]"; break;
	case 10: {	// raw string bytes
		t = "[\"";
		for (int n = r.u(12); n > 0; n--) { char c = r.p(50) ? "\\\"/bfnrtu01aF"[r.u(14)] : (char)r.u(256); t += c; }
		t += "\"]";
		break;
	}
	default: { jtext(r, t, 3, budget); static const char *j[] = {"]", "}", "x", ",", " ", "\0", " 1", "\"", ":", "\xff", "nul"}; t += r.pick(j); if (r.p(20)) t += S(1, '\0'); break; }
	}
	if (r.p(10)) levels = r.u(6);
}

static void all_u(S &t, U32 &cps) {
	t = "\"";
	for (uint32_t c = 0; c < 0x10000; c++) { if (c >= 0xD800 && c < 0xE000) continue; t += fmt("\\u%04x", c); cps.push_back(c); }
	for (uint32_t c = 0x10000; c < 0x110000; c += 97) { t += fmt("\\u%04X\\u%04x", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3ff)); cps.push_back(c); }
	t += "\"";
}

static void j01_one(const S &t, size_t levels, int how) {
	J j;
	JP p(t);
	bool ok = p.run(j, levels) && !p.toodeep;
	feat(ok ? "accepted" : p.toodeep && !p.bad ? "too_deep" : "refused");
	crumb(fmt("levels=%zu how=%d text=", levels, how) + show(t, 3000));
	value v;
	if (how & 8) v = "something before";
	bool got = true;
	S err;
	Exact buf(t);
	try {
		switch (how & 7) {
		case 0: v.read(t, levels); break;
		case 1: v.read(buf.b(), buf.n, levels); break;
		case 2: { std::stringstream ss(t); rexjson::input in(ss); in.read_steam(v, levels); break; }
		case 3: got = rexjson::read_no_throw(v, t, levels); break;
		case 4: if (levels == 32) v = rexjson::read(t); else v.read(t, levels); break;
		default: if (levels == 32) v = rexjson::read((char *)buf.b(), buf.n); else v.read(t, levels); break;
		}
	} catch (std::runtime_error &e) {
		got = false; err = e.what();
		CHECK(!err.empty(), "empty_message", "refused without a message: %s", show(t).c_str());
	} catch (...) {
		viol("foreign_exception", "an exception other than std::runtime_error for " + show(t, 1500));
		return;
	}
	if (got != ok) { viol(got ? "accepted_invalid" : "refused_valid", fmt("levels %zu, %s (%s)", levels, show(t, 1500).c_str(), got ? v.write().substr(0, 300).c_str() : err.c_str())); return; }
	if (!ok) {
		if (p.bad && !p.toodeep && !err.empty()) {	// the message says where
			unsigned long ln = 0, col = 0, off = 0; size_t q = err.rfind(" at offset ");
			bool form = sscanf(err.c_str(), "Unexpected (%lu:%lu)", &ln, &col) == 2 && q != S::npos && sscanf(err.c_str() + q, " at offset %lu", &off) == 1;
			if (form) {
				size_t wl = 1 + std::count(t.begin(), t.begin() + p.badoff, '\n'), nl = t.rfind('\n', p.badoff ? p.badoff - 1 : 0), wc = p.badoff && nl != S::npos && nl < p.badoff ? p.badoff - nl : p.badoff + 1;
				CHECK(off == p.badoff && ln == wl && col == wc, "wrong_position", "the message \"%s\" gives line %lu column %lu offset %lu, the offending token starts at line %zu column %zu offset %zu of %s", show(err, 200).c_str(), ln, col, off, wl, wc, p.badoff, show(t, 1500).c_str());
				feat("positions");
			}
		}
		return;
	}
	S d = diff(v, j);
	CHECK(d.empty(), "wrong_value", "%s in %s", d.c_str(), show(t, 1500).c_str());
	distinct(hstr(t));
}

static void j01(Rng &r) {
	if (g_idx == 0) {
		S t; U32 cps; all_u(t, cps);
		S want = to8(cps);
		crumb("every \\u escape");
		value v; v.read(t);
		CHECK(v.get_str() == want, "wrong_escape", "a \\u escape is decoded wrongly");
		feat("escapes_swept", cps.size());
		return;
	}
	if (g_idx == 1) {	// every byte inside a string, as a whole text and after a backslash
		for (int c = 0; c < 256; c++) {
			j01_one(S("\"a") + (char)c + "b\"", 32, 0);
			j01_one(S("\"\\") + (char)c + "b\"", 32, 1);
			j01_one(S(1, (char)c), 32, 2);
			j01_one(S("[1") + (char)c + "]", 32, 3);
			j01_one(S("[1,") + (char)c + "2]", 32, 3);
			if (g_caseviol) return;
		}
		return;
	}
	int full = g_tier == "quick" ? 4 : 5;
	uint64_t k = g_idx - 2, per = 400;
	uint64_t total = 0;
	for (int n = 1; n <= full; n++) total += soup_total(n);
	for (int rep = 0; rep < 2; rep++) {
		// all short token sequences, a slice per case
		if (rep == 0) {
			if (k * per >= total) continue;
			for (uint64_t q = k * per; q < (k + 1) * per && q < total; q++) {
				uint64_t x = q; int n = 1;
				while (x >= soup_total(n)) { x -= soup_total(n); n++; }
				j01_one(soup(x, n), 32, x % 4);
				feat("sequences_swept");
				if (g_caseviol) return;
			}
			continue;
		}
		for (int m = 0; m < 8 && !g_caseviol; m++) {
			S t; size_t levels;
			gen_text(r, t, levels);
			j01_one(t, levels, r.u(16));
		}
	}
}

// ---------------------------------------------------------------- J03
struct Rec { int rec, val; size_t n, nl, v, vl; };
static void records(const J &j, V<Rec> &o, size_t n, size_t nl, V<ssize_t> &child, V<ssize_t> &nextv) {
	static const int ty[] = {REXJSON_VALUE_NULL, 0, REXJSON_VALUE_INT, REXJSON_VALUE_NUMBER, REXJSON_VALUE_STRING, REXJSON_VALUE_ARRAY, REXJSON_VALUE_OBJECT};
	int t = j.k == JBool ? (j.b ? REXJSON_VALUE_TRUE : REXJSON_VALUE_FALSE) : ty[j.k];
	size_t me = o.size();
	o.push_back({REXJSON_RECORD_BEGIN, t, n, nl, j.off, j.len});
	child.push_back(-1); nextv.push_back(-1);
	ssize_t prev = -1;
	for (size_t i = 0; i < j.a.size(); i++) {
		ssize_t at = (ssize_t)o.size();
		if (prev < 0) child[me] = at; else nextv[prev] = at;
		records(j.a[i], o, j.k == JObj ? j.noff[i] : 0, j.k == JObj ? j.nlen[i] : 0, child, nextv);
		prev = at;
	}
	Rec e = o[me]; e.rec = REXJSON_RECORD_END;
	o.push_back(e); child.push_back(-1); nextv.push_back(-1);
}
// The texts' own INT/NUMBER distinction (an integer too large for 64 bits is still written as an integer)
static void kinds(J &j, const S &t) {
	if (j.k == JReal && t.substr(j.off, j.len).find_first_of(".eE") == S::npos) j.k = JInt;
	for (auto &x : j.a) kinds(x, t);
}

static S slurp(FILE *f) { S o; rewind(f); int c; while ((c = fgetc(f)) != EOF) o += (char)c; return o; }

static void j03_one(Rng &r, const S &t, size_t levels, long cap) {
	J j;
	JP p(t);
	bool okt = p.run(j, levels);
	size_t need = p.values * 2;
	bool room = cap < 0 || need <= (size_t)cap;
	// a failing text needs fewer records than twice its values
	size_t n = cap < 0 ? need + 2 + r.u(4) : (size_t)cap;
	bool ok = okt && !p.toodeep && room;
	crumb(fmt("levels=%zu records=%zu text=", levels, n) + show(t, 3000));
	Exact buf(t);
	S junk(n * sizeof(rexjson_record_t), '\xa5');
	if (r.p(50)) for (size_t i = 0; i < n; i++) { rexjson_record_t *q = (rexjson_record_t *)&junk[i * sizeof *q]; q->rectype = r.p(50) ? REXJSON_RECORD_BEGIN : REXJSON_RECORD_END; }
	Exact mem(junk);
	rexjson_record_t *recs = (rexjson_record_t *)mem.p;
	rexjson_t ctx;
	memset(&ctx, 0x5a, sizeof ctx);
	ssize_t ret = rexjson_parse_buffer(&ctx, recs, n, buf.b(), buf.n, levels);
	if ((ret >= 0) != ok) { viol(ok ? "refused_valid" : "accepted_invalid", fmt("parse returns %zd (error %d at %zu), levels %zu records %zu, %s", ret, ctx.error, ctx.error_offset, levels, n, show(t, 1500).c_str())); return; }
	if (!ok) {
		int e = rexjson_get_error(&ctx);
		bool cu = p.bad, cd = p.toodeep, cn = cap >= 0 && need > (size_t)cap;
		feat(cu ? "unexpected" : cd ? "too_deep" : "no_memory");
		if (cu && !cd && !cn) {
			CHECK(e == REXJSON_E_UNEXPECTEDCHAR, "wrong_error", "error %d for an invalid text %s", e, show(t, 1500).c_str());
			CHECK(rexjson_get_error_offset(&ctx) == p.badoff, "wrong_error_offset", "error offset %zu, the offending token starts at %zu in %s", rexjson_get_error_offset(&ctx), p.badoff, show(t, 1500).c_str());
		} else if (cd && !cu && !cn) {
			CHECK(e == REXJSON_E_MAXRECURSIONS, "wrong_error", "error %d for nesting beyond %zu levels in %s", e, levels, show(t, 1500).c_str());
			CHECK(rexjson_get_error_offset(&ctx) == p.toodeep_off, "wrong_error_offset", "error offset %zu, the value too deep starts at %zu in %s", rexjson_get_error_offset(&ctx), p.toodeep_off, show(t, 1500).c_str());
		} else if (cn && !cu && !cd)
			CHECK(e == REXJSON_E_NOMEM, "wrong_error", "error %d for %zu records where %zu are needed by %s", e, n, need, show(t, 1500).c_str());
		else
			CHECK((cu && e == REXJSON_E_UNEXPECTEDCHAR) || (cd && e == REXJSON_E_MAXRECURSIONS) || (cn && e == REXJSON_E_NOMEM), "wrong_error", "error %d for %s", e, show(t, 1500).c_str());
		return;
	}
	kinds(j, t);
	V<Rec> want; V<ssize_t> child, nextv;
	records(j, want, 0, 0, child, nextv);
	feat("parsed"); feat("records", want.size());
	CHECK(ret == (ssize_t)j.len, "wrong_size", "parse returns %zd, the value is %zu bytes long: %s", ret, j.len, show(t, 1500).c_str());
	for (size_t i = 0; i < want.size(); i++) {
		auto &g = recs[i]; auto &w = want[i];
		if ((int)g.rectype != w.rec || (int)g.valtype != w.val || g.namesize != w.nl || (w.nl && g.name != w.n) || g.value != w.v || g.valuesize != w.vl) {
			viol("wrong_record", fmt("record %zu is (rec %d kind %d name %zu+%zu value %zu+%zu), expected (%d %d %zu+%zu %zu+%zu) in %s", i, g.rectype, g.valtype, g.name, g.namesize, g.value, g.valuesize, w.rec, w.val, w.n, w.nl, w.v, w.vl, show(t, 1500).c_str()));
			return;
		}
	}
	if (n > want.size()) CHECK(recs[want.size()].rectype == REXJSON_RECORD_NONE, "unterminated", "the record after the last one is not empty: %s", show(t, 1000).c_str());
	// navigation from every index, in and out of range
	for (ssize_t i = -2; i < (ssize_t)n + 3; i++) {
		bool in = i >= 0 && i < (ssize_t)want.size();
		if (!in && i >= (ssize_t)want.size() && i < (ssize_t)n && i > (ssize_t)want.size()) continue;	// beyond the terminator: not the tree's
		ssize_t wc = in ? child[i] : -1, wn = in ? nextv[i] : -1;
		ssize_t gc = rexjson_recordtree_firstchild(recs, n, i), gn = rexjson_recordtree_next(recs, n, i);
		feat("navigation", 2);
		if (gc != wc || gn != wn) { viol("wrong_navigation", fmt("from record %zd of %zu (capacity %zu): first child %zd (expected %zd), next %zd (expected %zd) in %s", i, want.size(), n, gc, wc, gn, wn, show(t, 1500).c_str())); return; }
	}
	if (r.p(25)) {
		FILE *f = tmpfile();
		rexjson_dump_records(f, recs, n, buf.b());
		S d = slurp(f);
		fclose(f);
		static const char *nm[] = {"NULL    : ", "TRUE    : ", "FALSE   : ", "INT     : ", "NUMBER  : ", "STRING  : ", "ARRAY   :", "OBJECT  :"};
		S all;
		int lev = 0;
		for (auto &w : want) {
			if (w.rec == REXJSON_RECORD_END) lev--;
			all += S(lev * 4, ' ') + fmt("%7d %s ", (int)w.vl, w.rec == REXJSON_RECORD_END ? "[End  ]" : "[BEGIN]");
			if (w.nl) all += "(NAME : " + t.substr(w.n, w.nl) + ") ";
			all += nm[w.val];
			if (w.val < REXJSON_VALUE_ARRAY) all += t.substr(w.v, w.vl);
			all += "\n";
			if (w.rec != REXJSON_RECORD_END) lev++;
		}
		if (t.find('\0') == S::npos) CHECK(d == all, "dump_records", "dumped records are %s, expected %s", show(d, 1500).c_str(), show(all, 1500).c_str());
		f = tmpfile();
		rexjson_dump_tree(f, recs, n, 0, buf.b(), 0);
		d = slurp(f);
		fclose(f);
		S exp;
		int depth = 0;
		for (auto &w : want) {
			if (w.rec == REXJSON_RECORD_END) { depth--; continue; }
			exp += S(depth * 4, ' ') + fmt("%7d [BEGIN] ", (int)w.vl);
			if (w.nl) exp += "(NAME : " + t.substr(w.n, w.nl) + ") ";
			exp += nm[w.val];
			if (w.val < REXJSON_VALUE_ARRAY) exp += t.substr(w.v, w.vl);
			exp += "\n";
			depth++;
		}
		if (t.find('\0') == S::npos) CHECK(d == exp, "dump_tree", "dumped tree is %s, expected %s", show(d, 1500).c_str(), show(exp, 1500).c_str());
		feat("dumps");
	}
	if (r.p(30)) {	// the C++ reader sees the same tree
		value v;
		J again; JP q(t); q.run(again, levels);
		S d;
		try { v.read(t, levels); d = diff(v, again); } catch (std::exception &e) { d = e.what(); }
		CHECK(d.empty(), "readers_disagree", "%s: %s", d.c_str(), show(t, 1500).c_str());
		feat("agreements");
	}
	distinct(hstr(t));
}

static void j03(Rng &r) {
	int full = g_tier == "quick" ? 3 : 5;
	uint64_t total = 0, per = 300;
	for (int n = 1; n <= full; n++) total += soup_total(n);
	for (uint64_t q = g_idx * per; q < (g_idx + 1) * per && q < total; q++) {
		uint64_t x = q; int n = 1;
		while (x >= soup_total(n)) { x -= soup_total(n); n++; }
		j03_one(r, soup(x, n), 32, -1);
		feat("sequences_swept");
		if (g_caseviol) return;
	}
	for (int m = 0; m < 8 && !g_caseviol; m++) {
		S t; size_t levels;
		gen_text(r, t, levels);
		if (r.p(8)) levels = 100000;
		long cap = -1;
		if (r.p(35)) {
			J j; JP p(t); p.run(j, levels);
			cap = (long)p.values * 2 + r.r(-3, 2);
			if (r.p(20)) cap = r.u(4);
			if (cap < 0) cap = 0;
			// only texts whose record need is known: the whole text is valid
			if (p.bad) cap = -1;
		}
		j03_one(r, t, levels, cap);
	}
}

// ---------------------------------------------------------------- J02
// The plain-data model: J with members kept in a map order.
static void jnorm(J &j) {
	for (auto &x : j.a) jnorm(x);
	if (j.k != JObj) return;
	std::map<S, J> m;
	for (size_t i = 0; i < j.n.size(); i++) m[j.n[i]] = j.a[i];
	j.n.clear(); j.a.clear(); j.nlone.clear(); j.noff.clear(); j.nlen.clear();
	for (auto &e : m) { j.n.push_back(e.first); j.a.push_back(e.second); j.nlone.push_back(false); }
}
static double somereal(Rng &r) {
	static const double e[] = {0, -0.0, 1, -1, 0.5, 3.345, 1e300, -1e300, 1e-300, 123456789.123456789, 0.1, 2.3332, 1e15, 4.9e-324, 1.7976931348623157e308};
	if (r.p(3)) { static const double x[] = {INFINITY, -INFINITY, NAN, -NAN}; return r.pick(x); }
	if (r.p(40)) return r.pick(e);
	return (double)r.r(-1000000, 1000000) / (1 + r.u(1000));
}
static S somestr(Rng &r) {
	if (r.p(10)) { S o; for (int n = r.u(6); n > 0; n--) o += (char)r.r(1, 127); return o; }
	if (r.p(10)) { static const char *e[] = {"\\", "\"", "\\\"", "\\n", "\\u0041", "a\\", "/", "\\\\", "\t\n", "", "\\x", "a\"b"}; return r.pick(e); }
	return jstr(r);
}
static int64_t someint(Rng &r) {
	static const int64_t e[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, 4294967295ll, 1ll << 53};
	return r.p(50) ? r.pick(e) : r.r(-100000, 100000);
}
// A random value, built through the library's constructors, and its model.
static value build(Rng &r, J &j, int depth) {
	switch (r.u(depth > 0 ? 13 : 11)) {
	case 0: j = J(); return r.p(50) ? value() : value(value::null);
	case 1: { bool b = r.p(50); j = jbool(b); return value(b); }
	case 2: { int i = (int)someint(r); j = jint(i); return value(i); }
	case 3: { unsigned u = (unsigned)someint(r); j = jint(u); return value(u); }
	case 4: { long i = someint(r); j = jint(i); return value(i); }
	case 5: { long long i = someint(r); j = jint(i); return value(i); }
	case 6: { int64_t i = someint(r); j = jint(i); return r.p(50) ? value((unsigned long)i) : value((unsigned long long)i); }
	case 7: { double d = somereal(r); j = jreal(d); return value(d); }
	case 8: case 9: { S s = somestr(r); j = jstrv(s); return value(s); }
	case 10: { S s = somestr(r); s = s.c_str(); j = jstrv(s); return value(s.c_str()); }
	case 11: {
		rexjson::array a; j = J(); j.k = JArr;
		for (int n = r.u(4); n > 0; n--) { J e; a.push_back(build(r, e, depth - 1)); j.a.push_back(e); }
		return value(a);
	}
	default: {
		rexjson::object o; j = J(); j.k = JObj;
		for (int n = r.u(4); n > 0; n--) { S k = r.p(60) ? S(1, (char)('a' + r.u(4))) : somestr(r); J e; o[k] = build(r, e, depth - 1); j.n.push_back(k); j.a.push_back(e); j.nlone.push_back(false); }
		jnorm(j);
		return value(o);
	}
	}
}

// The same node in the value and in the model, reached by indexing.
static void descend(Rng &r, value *&v, J *&j, S &path) {
	while (r.p(60)) {
		if (j->k == JArr && !j->a.empty()) { size_t i = r.u(j->a.size()); path += fmt("[%zu]", i); path += '\x01'; v = &(*v)[i]; j = &j->a[i]; }
		else if (j->k == JObj && !j->a.empty()) { size_t i = r.u(j->a.size()); path += "." + j->n[i]; path += '\x01'; v = &(*v)[j->n[i]]; j = &j->a[i]; }
		else break;
	}
}
static size_t jsize(const J &j) { size_t n = 1; for (auto &x : j.a) n += jsize(x); return n; }

// Expected reading of what is written with the given options.
static void written(const J &j, J &o, bool nullprop, size_t prec) {
	o = J(); o.k = j.k; o.b = j.b; o.i = j.i; o.s = j.s; o.d = j.d;
	if (j.k == JReal && !std::isfinite(j.d)) { o.k = JNull; return; }
	for (size_t i = 0; i < j.a.size(); i++) {
		if (j.k == JObj && j.a[i].k == JNull && !nullprop) continue;
		J e; written(j.a[i], e, nullprop, prec);
		o.a.push_back(e);
		if (j.k == JObj) { o.n.push_back(j.n[i]); o.nlone.push_back(false); }
	}
}
// The text's tree against the expected one: reals by their exact decimal text.
static S wdiff(const S &t, const J &g, const J &w, size_t prec) {
	if (w.k == JReal) {
		S want = fmt("%.*f", (int)prec, w.d), got = t.substr(g.off, g.len);
		return (g.k == JReal || g.k == JInt) && want == got ? "" : "real written as " + got.substr(0, 80) + " not " + want.substr(0, 80);
	}
	if (g.k != w.k) return "kind differs: " + t.substr(g.off, std::min<size_t>(g.len, 80)) + " for " + jdump(w).substr(0, 80);
	if (w.k == JBool && g.b != w.b) return "boolean differs";
	if (w.k == JInt && g.i != w.i) return fmt("integer %lld for %lld", (long long)g.i, (long long)w.i);
	if (w.k == JStr && g.s != w.s) return "string " + show(g.s, 80) + " for " + show(w.s, 80);
	if (g.a.size() != w.a.size()) return fmt("%zu entries for %zu: ", g.a.size(), w.a.size()) + jdump(w).substr(0, 200);
	for (size_t i = 0; i < w.a.size(); i++) {
		if (w.k == JObj && g.n[i] != w.n[i]) return "member " + show(g.n[i], 80) + " for " + show(w.n[i], 80);
		S d = wdiff(t, g.a[i], w.a[i], prec);
		if (!d.empty()) return d;
	}
	return "";
}

static void check_write(Rng &r, const value &v, const J &j) {
	bool pretty = r.p(50), nullprop = r.p(60);
	size_t tab = r.p(5) ? 16 + r.u(60) : r.u(9), prec = r.p(30) ? 0 : r.p(8) ? 12 + r.u(40) : r.u(12);
	S crlf = "\n", t;
	switch (r.u(6)) {
	case 0: t = rexjson::write(v); pretty = false; nullprop = true; prec = 4; break;
	case 1: t = rexjson::write_formatted(v); pretty = true; nullprop = true; tab = 4; prec = 4; break;
	case 2: { crlf = r.p(50) ? "\r\n" : "\n"; t = rexjson::output(pretty, nullprop, tab, prec, crlf).write(v); break; }
	case 3: { std::stringstream os; rexjson::output out(pretty, nullprop, tab, prec); out.write(v, os); t = os.str(); S t2 = out.write(v); CHECK(t == t2, "writers_differ", "%s and %s", show(t).c_str(), show(t2).c_str()); break; }
	default: t = v.write(pretty, nullprop, tab, prec);
	}
	feat("writes");
	J w, g;
	written(j, w, nullprop, prec);
	JP p(t);
	if (!p.run(g, (size_t)-1)) { viol("invalid_output", "written text is not JSON: " + show(t, 2000)); return; }
	CHECK(p.tok == TNone && p.toff == t.size(), "invalid_output", "something follows the value: %s", show(t, 2000).c_str());
	for (size_t i = 0, q = 0; i < t.size(); i++) {	// members once each, UTF-8 kept, nothing raw below space inside strings: covered by the parse; here layout
		if (t[i] == '"') { q = !q; continue; }
		if (q) { if (t[i] == '\\') i++; continue; }
		if (!pretty) CHECK(!isspace((unsigned char)t[i]), "plain_has_space", "plain output has white space: %s", show(t, 1500).c_str());
	}
	if (pretty) {
		long depth = 0; bool q = false;
		for (size_t i = 0; i < t.size(); i++) {
			if (q) { if (t[i] == '\\') i++; else if (t[i] == '"') q = false; continue; }
			if (t[i] == '"') q = true;
			else if (t[i] == '[' || t[i] == '{') depth++;
			else if (t[i] == ']' || t[i] == '}') depth--;
			else if (t[i] == ',') CHECK(i + 1 < t.size() && (t[i + 1] == '\n' || t[i + 1] == '\r'), "line_ends", "the next element does not start on a new line: %s", show(t, 1500).c_str());
			else if (t[i] == '\r') CHECK(crlf == "\r\n" && i + 1 < t.size() && t[i + 1] == '\n', "line_ends", "a carriage return with line ends %s: %s", show(crlf).c_str(), show(t, 1500).c_str());
			else if (t[i] == '\n') {
				CHECK(crlf == "\n" || (i && t[i - 1] == '\r'), "line_ends", "a line end that is not %s: %s", show(crlf).c_str(), show(t, 1500).c_str());
				size_t k = i + 1;
				while (k < t.size() && t[k] == ' ') k++;
				long d = depth - (k < t.size() && (t[k] == ']' || t[k] == '}') ? 1 : 0);
				if (k < t.size() && t[k] != '\n' && t[k] != '\r') CHECK((long)(k - i - 1) == d * (long)tab, "indentation", "line indented by %zu at depth %ld with tab size %zu: %s", k - i - 1, d, tab, show(t, 1500).c_str());
			}
		}
	}
	S d = wdiff(t, g, w, prec);
	CHECK(d.empty(), "wrong_output", "%s: %s", d.c_str(), show(t, 1500).c_str());
	// and back through the library
	value back;
	try { back.read(t, p.maxdepth); } catch (std::exception &e) { viol("not_read_back", S(e.what()) + ": " + show(t, 1500)); return; }
	S d2 = diff(back, g);
	CHECK(d2.empty(), "read_back_differs", "%s: %s", d2.c_str(), show(t, 1500).c_str());
}

static const char *typenm[] = {"null", "object", "array", "string", "boolean", "integer", "real"};
static int typeno(const J &j) { switch (j.k) { case JNull: return 0; case JObj: return 1; case JArr: return 2; case JStr: return 3; case JBool: return 4; case JInt: return 5; default: return 6; } }
static S jtos(const J &j) {
	S o;
	switch (j.k) {
	case JNull: return "null";
	case JBool: return j.b ? "true" : "false";
	case JInt: return std::to_string(j.i);
	case JReal: return fmt("%g", j.d);
	case JStr: return j.s;
	default:
		for (size_t i = 0; i < j.a.size(); i++) o += S(i ? "," : "") + (j.k == JObj ? j.n[i] + ":" : S()) + jtos(j.a[i]);
		return o;
	}
}

// Much larger than usual: long arrays, long strings, many members, deep nesting.
static void j02_large(Rng &r) {
	value v; J m;
	int kind = r.u(5);
	size_t n = r.pick((const size_t[]){200, 255, 256, 257, 1000, 1024, 4096, 5000});
	m.k = JArr; v = rexjson::array();
	if (kind == 0) for (size_t i = 0; i < n; i++) { J j; value e = build(r, j, 1); v.push_back(e); m.a.push_back(j); }
	else if (kind == 1) { S s; while (s.size() < n * 16) s += somestr(r); v.push_back(s); m.a.push_back(jstrv(s)); }
	else if (kind == 2) {
		v = rexjson::object(); m.k = JObj;
		for (size_t i = 0; i < n; i++) { J j; S k = r.p(10) ? somestr(r) : "k" + std::to_string(r.u(n)); value e = build(r, j, 1); v[k] = e; m.n.push_back(k); m.a.push_back(j); m.nlone.push_back(false); }
		jnorm(m);
	} else if (kind == 3) {
		n = r.r(30, 400);
		for (size_t i = 0; i < n; i++) {
			J o; value w;
			if (r.p(50)) { w = rexjson::array(); w.push_back(v); o.k = JArr; o.a.push_back(m); if (r.p(30)) { J j; value e = build(r, j, 0); w.push_back(e); o.a.push_back(j); } }
			else { w = rexjson::object(); w["a"] = v; o.k = JObj; o.n.push_back("a"); o.a.push_back(m); o.nlone.push_back(false); if (r.p(30)) { J j; value e = build(r, j, 0); w["b"] = e; o.n.push_back("b"); o.a.push_back(j); o.nlone.push_back(false); } }
			v.move(w); m = o;
		}
	} else {
		S k; while (k.size() < n * 4) k += somestr(r);
		v = rexjson::object(); m.k = JObj;
		v[k] = 1; m.n.push_back(k); m.a.push_back(jint(1)); m.nlone.push_back(false);
	}
	crumb(fmt("large %d %zu", kind, n));
	S d = diff(v, m);
	CHECK(d.empty(), "value_differs", "large value %d of %zu: %s", kind, n, d.c_str());
	value c(v), e;
	e = c;
	c = 0;
	d = diff(e, m);
	CHECK(d.empty(), "copy_differs", "large value %d of %zu: %s", kind, n, d.c_str());
	CHECK(e.to_string() == jtos(m), "to_string", "of a large value %d of %zu", kind, n);
	check_write(r, e, m);
	feat("large_values");
	distinct(hmix(hstr("large"), hmix(kind, hstr(jdump(m).substr(0, 3000)))));
}

static void j02(Rng &r) {
	if (g_idx % 97 == 5) { j02_large(r); return; }
	enum { NV = 3 };
	value v[NV];
	J m[NV];
	S log;
	int steps = r.r(3, 40);
	uint64_t h = 0;
	for (int st = 0; st < steps; st++) {
		int a = r.u(NV), b = r.u(NV);
		value *pv = &v[a]; J *pj = &m[a]; S pa = fmt("v%d", a);
		descend(r, pv, pj, pa);
		value *qv = &v[b]; J *qj = &m[b]; S pb = fmt("v%d", b);
		descend(r, qv, qj, pb);
		int op = r.u(20);
		if (jsize(m[a]) + jsize(m[b]) > 400 && (op == 3 || op == 4 || op == 6)) op = 0;
		h = hmix(h, op);
		S step;
		switch (op) {
		case 0: { J j; value n = build(r, j, 2); step = pa + " = " + jdump(j); log += step + "; "; crumb(log); *pv = n; *pj = j; break; }
		case 1: {	// the typed assignments
			switch (r.u(14)) {
			case 8: { bool x = r.p(50); step = "set_bool"; pv->set_bool(x); *pj = jbool(x); break; }
			case 9: { int x = (int)someint(r); step = "set_int 32"; pv->set_int(x); *pj = jint(x); break; }
			case 10: { double x = somereal(r); step = "set_real"; pv->set_real(x); *pj = jreal(x); break; }
			case 11: { S s = somestr(r); s = s.c_str(); step = "set_str chars"; pv->set_str(s.c_str()); *pj = jstrv(s); break; }
			case 12: {	// the containers of another value, possibly of a part of this one
				if (qj->k == JArr) { step = "set_array " + pb; log += step + " on " + pa + "; "; crumb(log); J c = *qj; if (pv != qv && a == b) { rexjson::array t = qv->get_array(); pv->set_array(t); } else pv->set_array(qv->get_array()); *pj = c; feat("containers_set"); }
				else if (qj->k == JObj) { step = "set_object " + pb; log += step + " on " + pa + "; "; crumb(log); J c = *qj; if (pv != qv && a == b) { rexjson::object t = qv->get_obj(); pv->set_object(t); } else pv->set_object(qv->get_obj()); *pj = c; feat("containers_set"); }
				break;
			}
			case 0: { S s = somestr(r); step = "string"; *pv = s; *pj = jstrv(s); break; }
			case 1: { S s = somestr(r); s = s.c_str(); step = "chars"; *pv = s.c_str(); *pj = jstrv(s); break; }
			case 2: { bool x = r.p(50); step = "bool"; *pv = x; *pj = jbool(x); break; }
			case 3: { int x = (int)someint(r); step = "int"; *pv = x; *pj = jint(x); break; }
			case 4: { int64_t x = someint(r); step = "int64"; *pv = x; *pj = jint(x); break; }
			case 5: { double x = somereal(r); step = "real"; *pv = x; *pj = jreal(x); break; }
			case 6: { S s = somestr(r); step = "set_str"; pv->set_str(s); *pj = jstrv(s); break; }
			default: { int64_t x = someint(r); step = "set_int"; pv->set_int(x); *pj = jint(x); break; }
			}
			log += pa + " = " + step + "; ";
			break;
		}
		case 2: {	// from a part or whole of another, of itself, of its parent
			log += pa + " = " + pb + "; "; crumb(log);
			J c = *qj;
			*pv = *qv; *pj = c;
			feat(a == b ? "self_assignments" : "assignments");
			break;
		}
		case 3: {	// append to an array
			if (pj->k != JArr) break;
			log += pa + ".push_back(" + pb + "); "; crumb(log);
			J c = *qj;
			value &ref = pv->push_back(*qv);
			pj->a.push_back(c);
			S d = diff(ref, c);
			CHECK(d.empty(), "push_back_result", "push_back returns something else than what was appended: %s after %s", d.c_str(), log.c_str());
			feat("appends");
			break;
		}
		case 4: {	// set a member
			if (pj->k != JObj) break;
			S k = r.p(60) ? S(1, (char)('a' + r.u(4))) : somestr(r);
			log += pa + "[" + show(k, 30) + "] = " + pb + "; "; crumb(log);
			J c = *qj;
			value tmp(*qv);
			(*pv)[k] = tmp;
			pj->n.push_back(k); pj->a.push_back(c); pj->nlone.push_back(false);
			jnorm(*pj);
			break;
		}
		case 5: { log += pa + " = empty; "; bool arr = r.p(50); if (arr) *pv = rexjson::array(); else *pv = rexjson::object(); *pj = J(); pj->k = arr ? JArr : JObj; break; }
		case 6: {	// copy construct, then change the copy: the original stays
			log += "copy " + pb + "; "; crumb(log);
			value c(*qv);
			S d = diff(c, *qj);
			CHECK(d.empty(), "copy_differs", "%s after %s", d.c_str(), log.c_str());
			if (qj->k == JArr) c.push_back(1); else if (qj->k == JObj) c["zz"] = 1; else c = "changed";
			feat("copies");
			break;
		}
		case 7: {	// move from another place
			bool inside = a == b && pa.compare(0, pb.size(), pb) == 0 && pa != pb;	// into a part of the moved value: no meaning
			if (inside) break;
			log += pa + ".move(" + pb + "); "; crumb(log);
			J c = *qj;
			bool same = pv == qv;
			bool part = a == b && pb.compare(0, pa.size(), pa) == 0 && !same;		// the source is a part of the target
			pv->move(*qv);
			if (!same) { if (!part) *qj = J(); *pj = c; }
			feat("moves");
			break;
		}
		case 8: {	// read a text into it
			S t; int bud = 25; jtext(r, t, 3, bud);
			J j; JP p(t); p.run(j, 64);
			log += pa + ".read(" + show(t, 200) + "); "; crumb(log);
			pv->read(t, 64);
			jnorm(j);
			*pj = j;
			feat("reads");
			break;
		}
		case 9: {	// the wrong type
			log += "wrong type on " + pa + "; "; crumb(log);
			int thrown = 0, tried = 0;
#define WRONG(cond, expr) do { if (cond) { tried++; try { (void)(expr); } catch (std::runtime_error &) { thrown++; } } } while (0)
			const value &cv = *pv;
			WRONG(pj->k != JStr, cv.get_str());
			WRONG(pj->k != JBool, cv.get_bool());
			WRONG(pj->k != JInt, cv.get_int());
			WRONG(pj->k != JInt, cv.get_int64());
			WRONG(pj->k != JInt && pj->k != JReal, cv.get_real());
			WRONG(pj->k != JArr, cv.get_array());
			WRONG(pj->k != JObj, cv.get_obj());
			WRONG(pj->k != JArr, pv->get_array());
			WRONG(pj->k != JObj, pv->get_obj());
			WRONG(pj->k != JArr, pv->push_back(1));
			WRONG(pj->k != JArr, (*pv)[(size_t)0]);
			WRONG(pj->k != JObj, (*pv)[S("a")]);
			WRONG(pj->k == JArr, (*pv)[pj->a.size()]);
			WRONG(pj->k == JArr, (*pv)[(size_t)-1]);
			WRONG(pj->k == JArr, cv.get_array()[pj->a.size()]);
			WRONG(pj->k != JStr, cv.get_value<S>());
			WRONG(pj->k != JInt, cv.get_value<int64_t>());
			WRONG(pj->k != JBool, cv.get_value<bool>());
			WRONG(pj->k != JInt && pj->k != JReal, cv.get_value<float>());
			WRONG(pj->k != JInt && pj->k != JReal, cv.get_value<double>());
			WRONG(pj->k != JInt, (int)*pv);
			WRONG(pj->k != JInt, (unsigned)*pv);
			WRONG(pj->k != JInt && pj->k != JReal, (float)*pv);
			WRONG(pj->k != JBool, (bool)*pv);
			for (int ty = 0; ty < 7; ty++) if (ty != typeno(*pj)) WRONG(true, cv.check_type((rexjson::value_type)ty));
			CHECK(thrown == tried, "no_error", "%d of %d accesses of the wrong type or beyond the end raised no error on %s (%s)", tried - thrown, tried, pa.c_str(), jdump(*pj).substr(0, 300).c_str());
			feat("wrong_types", tried);
			break;
		}
		case 10: {	// append nothing, then fill it
			if (pj->k != JArr) break;
			log += pa + ".push_back() = 5; "; crumb(log);
			pv->push_back() = 5;
			pj->a.push_back(jint(5));
			break;
		}
		case 11: {	// assign a string to itself through its own text, an array or object through its own container
			log += "self container " + pa + "; "; crumb(log);
			if (pj->k == JStr) { if (r.p(50)) *pv = pv->get_str(); else { *pv = pv->get_str().c_str(); *pj = jstrv(S(pj->s.c_str())); } }
			else if (pj->k == JArr) *pv = pv->get_array();
			else if (pj->k == JObj) *pv = pv->get_obj();
			break;
		}
		case 12: {	// typed reads
			CHECK((int)pv->get_type() == typeno(*pj) && pv->type() == pv->get_type() && pv->is_null() == (pj->k == JNull) && pv->get_typename() == typenm[typeno(*pj)] && value::get_typename((unsigned)typeno(*pj)) == typenm[typeno(*pj)] && value::get_typename(7 + r.u(100)).empty(), "typed_read", "type %d (%s) for %s", (int)pv->get_type(), pv->get_typename().c_str(), jdump(*pj).substr(0, 300).c_str());
			try { pv->check_type(pv->get_type()); } catch (std::runtime_error &e) { viol("typed_read", fmt("check_type of its own type: %s", e.what())); }
			{ S ts = pv->to_string(), want = jtos(*pj); CHECK(ts == want, "to_string", "%s for %s, expected %s", show(ts, 300).c_str(), jdump(*pj).substr(0, 300).c_str(), show(want, 300).c_str()); feat("to_strings"); }
			if (pj->k == JInt) CHECK(pv->get_int() == (int)pj->i && (int)*pv == (int)pj->i && (unsigned)*pv == (unsigned)pj->i && pv->get_real() == (double)pj->i && (float)*pv == (float)pj->i && pv->get_value<float>() == (float)pj->i, "typed_read", "%s", jdump(*pj).c_str());
			if (pj->k == JReal && fabs(pj->d) < 3e38) CHECK((float)*pv == (float)pj->d && pv->get_value<float>() == (float)pj->d, "typed_read", "%s", jdump(*pj).c_str());
			if (pj->k == JInt) CHECK(pv->get_value<long>() == pj->i && pv->get_value<long long>() == pj->i && pv->get_value<unsigned>() == (unsigned)pj->i && (int64_t)*pv == pj->i, "typed_read", "%s", jdump(*pj).c_str());
			if (pj->k == JReal) CHECK(eqreal(pv->get_value<double>(), pj->d) && eqreal((double)*pv, pj->d), "typed_read", "%s", jdump(*pj).c_str());
			if (pj->k == JBool) CHECK(pv->get_value<bool>() == pj->b && (bool)*pv == pj->b, "typed_read", "%s", jdump(*pj).c_str());
			if (pj->k == JStr) CHECK(pv->get_value<S>() == pj->s, "typed_read", "%s", jdump(*pj).c_str());
			break;
		}
		case 13: {	// a fresh member is null
			if (pj->k != JObj) break;
			S k = "n" + std::to_string(r.u(3));
			value &x = (*pv)[k];
			bool had = std::find(pj->n.begin(), pj->n.end(), k) != pj->n.end();
			if (!had) { CHECK(x.is_null(), "fresh_member", "a member just made is not null"); pj->n.push_back(k); pj->a.push_back(J()); pj->nlone.push_back(false); jnorm(*pj); }
			break;
		}
		default:
			log += "write " + pa + "; "; crumb(log);
			check_write(r, *pv, *pj);
		}
		if (g_caseviol) return;
		for (int i = 0; i < NV; i++) {
			S d = diff(v[i], m[i]);
			CHECK(d.empty(), "value_differs", "v%d: %s after %s", i, d.c_str(), log.substr(log.size() > 2500 ? log.size() - 2500 : 0).c_str());
		}
		CHECK(value::null.is_null(), "null_changed", "rexjson::value::null is no longer null after %s", log.c_str());
		feat("steps");
	}
	for (int i = 0; i < NV && !g_caseviol; i++) check_write(r, v[i], m[i]);
	distinct(hmix(h, hstr(jdump(m[0]))));
}

bool select_property(const S &p) {
	if (p == "J01") g_fn = j01;
	else if (p == "J02") g_fn = j02;
	else if (p == "J03") g_fn = j03;
	else return false;
	return true;
}
