// J04 JSON-RPC server, J05 bound properties.
#define MON_CXX
#include "common.h"
#include "jval.h"
#include "rexjsonrpc/rpcserver.h"
#include "rexjsonrpc/property.h"

using rexjson::property;
using rexjson::rpc_exec_mode;

static J jarr() { J j; j.k = JArr; return j; }
static J jobj() { J j; j.k = JObj; return j; }
static void jset(J &o, const S &k, const J &v) {	// members stay sorted by name
	size_t i = 0;
	while (i < o.n.size() && o.n[i] < k) i++;
	if (i < o.n.size() && o.n[i] == k) { o.a[i] = v; return; }
	o.n.insert(o.n.begin() + i, k); o.a.insert(o.a.begin() + i, v); o.nlone.insert(o.nlone.begin() + i, false);
}
static const J *jget(const J &o, const S &k) {
	for (size_t i = 0; i < o.n.size(); i++) if (o.n[i] == k) return &o.a[i];
	return NULL;
}
static void jwrite(Rng &r, S &o, const J &j) {
	jws(r, o);
	switch (j.k) {
	case JNull: o += "null"; break;
	case JBool: o += j.b ? "true" : "false"; break;
	case JInt: o += fmt("%lld", (long long)j.i); break;
	case JReal: { S t = fmt("%.17g", j.d); if (t.find_first_of(".e") == S::npos) t += ".0"; o += t; break; }
	case JStr: o += jquote(r, j.s); break;
	case JArr: o += "["; for (size_t i = 0; i < j.a.size(); i++) { if (i) o += ","; jwrite(r, o, j.a[i]); } jws(r, o); o += "]"; break;
	default: o += "{"; for (size_t i = 0; i < j.a.size(); i++) { if (i) o += ","; jws(r, o); o += jquote(r, j.n[i]); jws(r, o); o += ":"; jwrite(r, o, j.a[i]); } jws(r, o); o += "}";
	}
	jws(r, o);
}
static J rnd(Rng &r, int depth) {
	switch (r.u(depth > 0 ? 9 : 7)) {
	case 0: return J();
	case 1: return jbool(r.p(50));
	case 2: case 3: { static const int e[] = {0, 1, -1, 2147483647, -2147483647 - 1, 42, 255, 256}; return jint(r.p(40) ? r.pick(e) : r.r(-1000, 1000)); }
	case 4: return jreal((double)r.r(-4000, 4000) / 4);
	case 5: case 6: return jstrv(jstr(r));
	case 7: { J j = jarr(); for (int n = r.u(4); n > 0; n--) j.a.push_back(rnd(r, depth - 1)); return j; }
	default: { J j = jobj(); for (int n = r.u(4); n > 0; n--) jset(j, S(1, (char)('a' + r.u(5))), rnd(r, depth - 1)); return j; }
	}
}

// ================================================================ J04
static V<S> g_log;
static void called(const S &name, const J &args) { g_log.push_back(name + jdump(args)); }
static J args() { return jarr(); }
template <class... T> static J args(J first, T... rest) { J j = jarr(); j.a = {first, rest...}; return j; }

static int f_sub(int a, int b) { called("sub", args(jint(a), jint(b))); return a / 2 - b / 2; }
static double f_scale(double a, float b) { called("scale", args(jreal(a), jreal(b))); return a * 2 + b; }
static S f_rep(S s, int n) { called("rep", args(jstrv(s), jint(n))); return s + "|" + std::to_string(n) + "|" + s; }
static void f_flag(bool b) { called("flag", args(jbool(b))); }
static long f_zero() { called("zero", args()); return 4000000000l; }
static long long f_wide(long a, long long b, unsigned c) { called("wide", args(jint(a), jint(b), jint((int)c))); return a - b; }
static S f_many(int a, S b, double c, bool d, long e, S f) { called("many", args(jint(a), jstrv(b), jreal(c), jbool(d), jint(e), jstrv(f))); return f + b; }
static bool f_even(long long a) { called("even", args(jint(a))); return a % 2 == 0; }
static void f_nothing() { called("nothing", args()); }
static int f_fail(int a) {
	called("fail", args(jint(a)));
	switch ((unsigned)a % 5) {
	case 0: throw std::runtime_error("failure " + std::to_string(a));
	case 1: throw std::out_of_range("range " + std::to_string(a));
	case 2: { rexjson::object o; o["code"] = a; o["message"] = S("thrown object"); o["data"] = rexjson::array(); throw o; }
	case 3: throw std::invalid_argument("");
	default: return a;
	}
}
struct Counter {
	int base;
	int plus(int a) { called("plus", args(jint(base), jint(a))); return base / 2 + a / 2; }
	S name(S s) const { called("name", args(jint(base), jstrv(s))); return s + std::to_string(base); }
	void set(int a) { called("set", args(jint(a))); base = a; }
	double half() const { called("half", args(jint(base))); return base / 2.0; }
	value raw(rexjson::array &p, rpc_exec_mode m) {
		if (m != rexjson::execute) return fmt("counter raw %d", (int)m);
		called("counterraw", args(jint(base), jint((int)p.size())));
		while (p.size()) p.pop_back();
		p.push_back(1);
		return value(base);
	}
};
struct Param { unsigned bits; };
static const unsigned ALLBITS = 127;
static unsigned vt[3] = {96, 9, 22};	// integer or real; string or null; object, array or boolean

template <class Base> struct Methods : public Base {
	value verified(rexjson::array &p, rpc_exec_mode m) {
		if (m != rexjson::execute) return Base::noexec(p, m, vt, 3, "verified help\n");
		Base::verify_parameters(p, vt, 3);
		J a = jarr();
		called("verified", a);
		rexjson::array out;
		for (size_t i = 0; i < p.size(); i++) out.push_back(p[i]);
		return out;
	}
	value mutate(rexjson::array &p, rpc_exec_mode m) {
		if (m != rexjson::execute) return fmt("mutate %d", (int)m);
		J a = jarr();
		called("mutate", a);
		value out = p;
		for (size_t i = 0; i < p.size(); i++) p[i] = S("changed");
		p.push_back(5);
		return out;
	}
	value nest(rexjson::array &p, rpc_exec_mode m) {
		if (m != rexjson::execute) return fmt("nest %d", (int)m);
		called("nest", jarr());
		return this->call(p.size() ? p[0] : value());
	}
};
struct Derived : public Methods<rexjson::rpc_server<Derived>> {};
struct Plain : public Methods<rexjson::rpc_server<>> {};

// What a method does, for the oracle.
enum { M_SUB, M_SCALE, M_REP, M_FLAG, M_ZERO, M_WIDE, M_MANY, M_EVEN, M_NOTHING, M_FAIL, M_PLUS, M_NAME, M_SET, M_HALF, M_CRAW, M_VERIFIED, M_MUTATE, M_NEST, M_HELP, M_SPEC, M_HELPSPEC, M_COUNT };
struct Reg { int what; S help; int obj; };
struct Expect {
	bool ok = false;
	J result;
	V<int> codes;		// accepted codes of an error
	bool exact = false;	// the whole error is known
	J error;
	V<S> log;
};
struct Model {
	std::map<S, Reg> map;
	int base[2];
	Expect call(const J &req, int mode);
	Expect method(const Reg &g, const J &params, int mode);
};
static const unsigned tb[] = {1, 16, 32, 64, 8, 4, 2};	// rpc bit of each kind
static const int tval[] = {rexjson::null_type, rexjson::bool_type, rexjson::int_type, rexjson::real_type, rexjson::str_type, rexjson::array_type, rexjson::obj_type};
static const char *tname[] = {"null", "boolean", "integer", "real", "string", "array", "object"};
// argument kinds of the wrapped functions: i integer, d double, f float, s string, b boolean
static const char *sig(int what) {
	switch (what) {
	case M_SUB: return "ii"; case M_SCALE: return "df"; case M_REP: return "si"; case M_FLAG: return "b"; case M_ZERO: return ""; case M_WIDE: return "iii";
	case M_MANY: return "isdbis"; case M_EVEN: return "i"; case M_NOTHING: return ""; case M_FAIL: return "i"; case M_PLUS: return "i"; case M_NAME: return "s";
	case M_SET: return "i"; case M_HALF: return ""; default: return NULL;
	}
}
static J specof(unsigned bits, bool names) {
	// the order of the listing is not part of the contract: compared as sets
	J j = jarr();
	for (int k = 0; k < 7; k++) if (bits & tb[k]) j.a.push_back(names ? jstrv(tname[k]) : jint(tval[k]));
	return j.a.size() == 1 ? J(j.a[0]) : j;
}
static void jsortspec(J &j) {
	for (auto &x : j.a) { jsortspec(x); if (j.k == JArr && x.k == JArr) std::sort(x.a.begin(), x.a.end(), [](const J &a, const J &b) { return jdump(a) < jdump(b); }); }
}
static Expect ok(const J &j) { Expect e; e.ok = true; e.result = j; return e; }
static Expect fail(V<int> codes) { Expect e; e.codes = codes; return e; }
static J obj2(int code, const S &msg) { J o = jobj(); jset(o, "code", jint(code)); jset(o, "message", jstrv(msg)); return o; }

static Expect specs(V<unsigned> bits, int mode, const S &help) {
	if (mode == rexjson::help) return ok(jstrv(help));
	J j = jarr();
	for (unsigned b : bits) j.a.push_back(specof(b, mode == rexjson::helpspec));
	Expect e = ok(j);
	return e;
}
static S builtin_help(int what) { return what == M_HELP ? "help [\"command\"]\n" : what == M_SPEC ? "spec <\"name\">\n" : "helpspec <\"name\">\n"; }

Expect Model::method(const Reg &g, const J &params, int mode) {
	if (const char *s = sig(g.what)) {
		if (mode != rexjson::execute) {
			V<unsigned> b;
			for (const char *c = s; *c; c++) b.push_back(*c == 'i' ? 32 : *c == 's' ? 8 : *c == 'b' ? 16 : 64);
			return specs(b, mode, g.help);
		}
		size_t n = strlen(s);
		V<J> a;
		for (size_t i = 0; i < n; i++) {
			if (i >= params.a.size()) return fail({-1, -32602});
			J p = params.a[i];
			bool fits = s[i] == 'i' ? p.k == JInt : s[i] == 's' ? p.k == JStr : s[i] == 'b' ? p.k == JBool : p.k == JInt || p.k == JReal;
			if (!fits) return fail({-1, -32602});
			if (s[i] == 'd' || s[i] == 'f') p = jreal(p.k == JInt ? (double)p.i : p.d);
			if (s[i] == 'f') p.d = (float)p.d;
			a.push_back(p);
		}
		J all = jarr(); all.a = a;
		static const char *nm[] = {"sub", "scale", "rep", "flag", "zero", "wide", "many", "even", "nothing", "fail", "plus", "name", "set", "half"};
		Expect e;
		J logged = all;
		if (g.what == M_PLUS || g.what == M_NAME || g.what == M_HALF) logged.a.insert(logged.a.begin(), jint(base[g.obj]));
		switch (g.what) {
		case M_SUB: e = ok(jint(a[0].i / 2 - a[1].i / 2)); break;
		case M_SCALE: e = ok(jreal(a[0].d * 2 + (float)a[1].d)); break;
		case M_REP: e = ok(jstrv(a[0].s + "|" + std::to_string(a[1].i) + "|" + a[0].s)); break;
		case M_FLAG: case M_NOTHING: e = ok(jstrv("")); break;
		case M_ZERO: e = ok(jint(4000000000l)); break;
		case M_WIDE: e = ok(jint(a[0].i - a[1].i)); break;
		case M_MANY: e = ok(jstrv(a[5].s + a[1].s)); break;
		case M_EVEN: e = ok(jbool(a[0].i % 2 == 0)); break;
		case M_PLUS: e = ok(jint(base[g.obj] / 2 + a[0].i / 2)); break;
		case M_NAME: e = ok(jstrv(a[0].s + std::to_string(base[g.obj]))); break;
		case M_SET: base[g.obj] = (int)a[0].i; e = ok(jstrv("")); break;
		case M_HALF: e = ok(jreal(base[g.obj] / 2.0)); break;
		case M_FAIL: {
			long v = a[0].i;
			switch ((unsigned)v % 5) {
			case 0: e.exact = true; e.error = obj2(-1, "failure " + std::to_string(v)); break;
			case 1: e.exact = true; e.error = obj2(-1, "range " + std::to_string(v)); break;
			case 2: e.exact = true; e.error = obj2((int)v, "thrown object"); jset(e.error, "data", jarr()); break;
			case 3: e.exact = true; e.error = obj2(-1, ""); break;
			default: e = ok(jint(v));
			}
		}
		}
		e.log.push_back(S(nm[g.what]) + jdump(logged));
		return e;
	}
	switch (g.what) {
	case M_CRAW: {
		if (mode != rexjson::execute) return ok(jstrv(fmt("counter raw %d", mode)));
		Expect e = ok(jint(base[g.obj]));
		e.log.push_back("counterraw" + jdump(args(jint(base[g.obj]), jint((int)params.a.size()))));
		return e;
	}
	case M_VERIFIED: {
		if (mode != rexjson::execute) return specs({vt[0], vt[1], vt[2]}, mode, "verified help\n");
		J p = params; p.a.resize(3);
		for (int i = 0; i < 3; i++) if (!(tb[p.a[i].k] & vt[i])) return fail({-32602});
		Expect e = ok(p);
		e.log.push_back("verified[]");
		return e;
	}
	case M_MUTATE: { if (mode != rexjson::execute) return ok(jstrv(fmt("mutate %d", mode))); Expect e = ok(params); e.log.push_back("mutate[]"); return e; }
	case M_NEST: {
		if (mode != rexjson::execute) return ok(jstrv(fmt("nest %d", mode)));
		Expect in = call(params.a.empty() ? J() : params.a[0], rexjson::execute);
		Expect e;
		e.ok = true;
		e.log.push_back("nest[]");
		e.log.insert(e.log.end(), in.log.begin(), in.log.end());
		J o = jobj();
		const J *id = params.a.empty() || params.a[0].k != JObj ? NULL : jget(params.a[0], "id");
		jset(o, "id", id ? *id : J());
		jset(o, "result", in.ok ? in.result : J());
		J err;
		if (!in.ok) { if (in.exact) err = in.error; else { err = obj2(in.codes[0], "*"); } }
		jset(o, "error", err);
		e.result = o;
		return e;
	}
	default: {
		V<unsigned> bits = {g.what == M_HELP ? 9u : 8u};
		if (mode == rexjson::help) { Expect e = ok(jstrv(builtin_help(g.what) + "*")); return e; }
		if (mode != rexjson::execute) return specs(bits, mode, "");
		J p = params; p.a.resize(1);
		if (!(tb[p.a[0].k] & bits[0])) return fail({-32602});
		if (p.a[0].k == JNull) { S s; for (auto &x : map) s += x.first + "\n"; return ok(jstrv(s)); }
		auto it = map.find(p.a[0].s);
		if (it == map.end()) return fail({-32601});
		return method(it->second, jarr(), g.what == M_HELP ? rexjson::help : g.what == M_SPEC ? rexjson::spec : rexjson::helpspec);
	}
	}
}
Expect Model::call(const J &q, int mode) {
	if (q.k != JObj) return fail({-32700, -32600});
	const J *ps = jget(q, "params"), *m = jget(q, "method");
	if (ps && ps->k != JArr) return fail({-32600, -32602});
	if (!m || m->k != JStr) return fail({-32600});
	auto it = map.find(m->s);
	if (it == map.end()) return fail({-32601});
	return method(it->second, ps ? *ps : jarr(), mode);
}
// "*" in an expected string stands for any rest; code alternatives of nested errors are accepted by class.
static bool like(const J &got, const J &want) {
	if (want.k == JStr && !want.s.empty() && want.s.back() == '*' && got.k == JStr) return got.s.compare(0, want.s.size() - 1, want.s, 0, want.s.size() - 1) == 0;
	if (got.k != want.k || got.a.size() != want.a.size() || got.n != want.n) return false;
	if (want.k == JObj && jget(want, "message") && jget(want, "message")->s == "*") {	// a nested error whose class only is known
		const J *a = jget(got, "code"), *b = jget(want, "code");
		if (!a || a->k != JInt || !jget(got, "message")) return false;
		return a->i == b->i || (b->i == -1 && a->i == -32602) || (b->i == -32700 && a->i == -32600) || (b->i == -32600 && a->i == -32602);
	}
	if (want.k == JBool) return got.b == want.b;
	if (want.k == JInt) return got.i == want.i;
	if (want.k == JReal) return eqreal(got.d, want.d);
	if (want.k == JStr) return got.s == want.s;
	for (size_t i = 0; i < want.a.size(); i++) if (!like(got.a[i], want.a[i])) return false;
	return true;
}
static J fromv(const value &v) {
	J j;
	switch (v.get_type()) {
	case rexjson::null_type: break;
	case rexjson::bool_type: j = jbool(v.get_bool()); break;
	case rexjson::int_type: j = jint(v.get_int64()); break;
	case rexjson::real_type: j = jreal(v.get_real()); break;
	case rexjson::str_type: j = jstrv(v.get_str()); break;
	case rexjson::array_type: j = jarr(); for (size_t i = 0; i < v.get_array().size(); i++) j.a.push_back(fromv(v.get_array()[i])); break;
	default: j = jobj(); for (auto &e : v.get_obj()) jset(j, e.first, fromv(e.second));
	}
	return j;
}

static const char *const NAMES[] = {"a", "b", "run", "x.y", "\xc3\xa9", "A", "help2"};
static J rndarg(Rng &r, char c) {
	if (r.p(12)) return rnd(r, 2);
	switch (c) {
	case 'i': case 'd': case 'f': { if (c != 'i' && r.p(60)) return jreal((double)r.r(-9999, 9999) / 8); static const int e[] = {0, 1, -1, 2147483647, -2147483647 - 1}; return jint(r.p(40) ? r.pick(e) : r.r(-100, 100)); }
	case 's': if (r.u(80) == 0) { S b; for (int n = r.r(40, 3000); n > 0; n--) b += (char)r.r(32, 126); feat("large_strings"); return jstrv(b); } return jstrv(jstr(r));
	default: return jbool(r.p(50));
	}
}
static J request(Rng &r, const Model &m, int depth) {
	if (r.p(6)) return rnd(r, 2);
	J q = jobj();
	S name;
	int what = -1;
	if (r.p(88)) { auto it = m.map.begin(); std::advance(it, r.u(m.map.size())); name = it->first; what = it->second.what; }
	else name = r.p(50) ? S(r.pick(NAMES)) : jstr(r);
	if (r.p(95)) jset(q, "method", r.p(96) ? jstrv(name) : rnd(r, 1));
	if (r.p(85)) jset(q, "id", rnd(r, 2));
	if (r.p(93)) {
		J p = jarr();
		const char *s = what >= 0 ? sig(what) : NULL;
		if (s) { for (; *s; s++) p.a.push_back(rndarg(r, *s)); if (r.p(8) && !p.a.empty()) p.a.pop_back(); if (r.p(10)) p.a.push_back(rnd(r, 1)); }
		else if (what == M_HELP || what == M_SPEC || what == M_HELPSPEC) {
			if (r.p(90)) { if (r.p(80)) { auto it = m.map.begin(); std::advance(it, r.u(m.map.size())); p.a.push_back(jstrv(it->first)); } else p.a.push_back(rnd(r, 1)); }
			if (r.p(10)) p.a.push_back(rnd(r, 1));
		}
		else if (what == M_VERIFIED) {
			p.a.push_back(rndarg(r, 'd'));
			if (r.p(80)) { p.a.push_back(r.p(50) ? jstrv("t") : r.p(60) ? J() : rnd(r, 1)); if (r.p(80)) p.a.push_back(r.p(50) ? rnd(r, 2) : r.p(50) ? jobj() : jbool(true)); }
			if (r.p(20)) p.a.push_back(rnd(r, 1));
		}
		else if (what == M_NEST && depth < 3) { if (r.p(90)) p.a.push_back(request(r, m, depth + 1)); }
		else { int n = r.u(4); if (r.u(60) == 0) { n = r.r(20, 300); feat("large_requests"); } for (; n > 0; n--) p.a.push_back(n > 3 ? jint(n) : rnd(r, 2)); }
		jset(q, "params", r.p(95) ? p : rnd(r, 1));
	}
	if (r.p(20)) jset(q, r.p(50) ? "jsonrpc" : "extra", rnd(r, 2));
	return q;
}

template <class Srv> static void reg(Srv &s, const S &name, const Reg &g, Counter *c) {
	Counter *o = &c[g.obj];
	switch (g.what) {
	case M_SUB: s.add(name, rexjson::make_rpc_wrapper(f_sub, g.help)); break;
	case M_SCALE: s.add(name, rexjson::make_rpc_wrapper(f_scale, g.help)); break;
	case M_REP: s.add(name, rexjson::make_rpc_wrapper(f_rep, g.help)); break;
	case M_FLAG: s.add(name, rexjson::make_rpc_wrapper(f_flag, g.help)); break;
	case M_ZERO: s.add(name, rexjson::make_rpc_wrapper(f_zero, g.help)); break;
	case M_WIDE: s.add(name, rexjson::make_rpc_wrapper(f_wide, g.help)); break;
	case M_MANY: s.add(name, rexjson::make_rpc_wrapper(f_many, g.help)); break;
	case M_EVEN: s.add(name, rexjson::make_rpc_wrapper(f_even, g.help)); break;
	case M_NOTHING: s.add(name, rexjson::make_rpc_wrapper(f_nothing, g.help)); break;
	case M_FAIL: s.add(name, rexjson::make_rpc_wrapper(f_fail, g.help)); break;
	case M_PLUS: s.add(name, rexjson::make_rpc_wrapper(o, &Counter::plus, g.help)); break;
	case M_NAME: s.add(name, rexjson::make_rpc_wrapper_const(o, &Counter::name, g.help)); break;
	case M_SET: s.add(name, rexjson::make_rpc_wrapper(o, &Counter::set, g.help)); break;
	case M_HALF: s.add(name, rexjson::make_rpc_wrapper_const(o, &Counter::half, g.help)); break;
	case M_CRAW: s.add(name, o, &Counter::raw); break;
	}
}
template <class Srv> static void reg_own(Srv &s, const S &name, int what);
template <> void reg_own<Derived>(Derived &s, const S &name, int what) {
	if (what == M_VERIFIED) s.add(name, (value (Derived::*)(rexjson::array &, rpc_exec_mode))&Derived::verified);
	else if (what == M_MUTATE) s.add(name, (value (Derived::*)(rexjson::array &, rpc_exec_mode))&Derived::mutate);
	else s.add(name, (value (Derived::*)(rexjson::array &, rpc_exec_mode))&Derived::nest);
}
template <> void reg_own<Plain>(Plain &s, const S &name, int what) {
	if (what == M_VERIFIED) s.add(name, [&s](rexjson::array &p, rpc_exec_mode m) { return s.verified(p, m); });
	else if (what == M_MUTATE) s.add(name, &s, (value (Plain::*)(rexjson::array &, rpc_exec_mode))&Plain::mutate);
	else s.add(name, [&s](rexjson::array &p, rpc_exec_mode m) { return s.nest(p, m); });
}

template <class Srv> static void j04_server(Rng &r) {
	Counter c[2] = {{5}, {-7}};
	Srv srv;
	Model m;
	m.base[0] = 5; m.base[1] = -7;
	m.map["help"] = {M_HELP, "", 0}; m.map["spec"] = {M_SPEC, "", 0}; m.map["helpspec"] = {M_HELPSPEC, "", 0};
	uint64_t h = 0;
	int steps = r.r(3, 25);
	for (int st = 0; st < steps; st++) {
		if (st == 0 || r.p(25)) {
			int regs = st == 0 ? r.r(2, 12) : 1;
			bool many = st == 0 && r.u(40) == 0;
			if (many) { regs = r.r(40, 200); feat("many_methods"); }
			for (int n = regs; n > 0; n--) {
				S name = many ? fmt("m%d", n) + S(r.u(30) ? 0 : r.u(300), 'n') : r.p(85) ? S(r.pick(NAMES)) : r.p(30) ? "help" : jstr(r);
				Reg g = {(int)r.u(M_HELP), "help of " + S(name.c_str()) + "\nmore", (int)r.u(2)};
				if (r.p(5)) g.help = "";
				bool threw = false;
				try {
					if (r.p(4)) {	// no method at all
						feat("refused_registrations");
						try { srv.add(r.p(50) ? name : S(), typename Srv::rpc_method_type()); } catch (std::runtime_error &) { threw = true; }
						CHECK(threw, "empty_method", "a method that is not callable is registered");
						continue;
					}
					if (g.what >= M_VERIFIED) reg_own(srv, name, g.what); else reg(srv, name, g, c);
				} catch (std::runtime_error &) { threw = true; }
				CHECK(threw == name.empty(), "registration", "registering %s %s", show(name).c_str(), threw ? "is refused" : "is accepted");
				if (!threw) { m.map[name] = g; feat("registrations"); }
			}
		}
		J q = request(r, m, 0);
		int mode = r.p(80) ? rexjson::execute : 1 + r.u(3);
		int way = r.u(4);
		S text;
		bool parses = true;
		J idq = q;
		if (way >= 2) {
			jwrite(r, text, q);
			if (r.p(25)) text = jmutate(r, text);
			J back; JP p(text);
			parses = p.run(back, 32) && !p.toodeep;
			if (parses) {
				std::function<void(J &)> norm = [&](J &x) { for (auto &y : x.a) norm(y); if (x.k != JObj) return; J o = jobj(); for (size_t i = 0; i < x.n.size(); i++) jset(o, x.n[i], x.a[i]); x = o; };
				bool lone = false;
				std::function<void(J &)> ls = [&](J &x) { if (x.lone) lone = true; for (bool l : x.nlone) if (l) lone = true; for (auto &y : x.a) ls(y); };
				ls(back);
				norm(back);
				q = back;
				// what the methods do with numbers beyond int or lone surrogates is not theirs to settle
				std::function<bool(const J &)> odd = [&](const J &x) { if (x.k == JInt && (x.i > INT32_MAX || x.i < INT32_MIN)) return true; if (x.k == JReal && !(fabs(x.d) < 1e30)) return true; for (auto &y : x.a) if (odd(y)) return true; return false; };
				if (lone || odd(q)) continue;
			}
		}
		Expect e;
		if (!parses) e = fail({-1, -32700});
		else e = m.call(q, mode);
		crumb(fmt("mode %d way %d request ", mode, way) + (way >= 2 ? show(text, 3000) : jdump(q)));
		g_log.clear();
		value resp, req;
		try {
			if (way >= 2) resp = srv.call(text, (rpc_exec_mode)mode);
			else if (way == 1 && q.k == JObj && jget(q, "method") && jget(q, "method")->k == JStr && jget(q, "params") && jget(q, "params")->k == JArr && jget(q, "id"))
				{ resp = srv.call(jget(q, "method")->s, tov(*jget(q, "id")), tov(*jget(q, "params")).get_array(), (rpc_exec_mode)mode); feat("calls_by_name"); }
			else { req = tov(q); resp = srv.call(req, (rpc_exec_mode)mode); S d = diff(req, q); CHECK(d.empty(), "request_changed", "the request was changed by the call: %s", d.c_str()); }
		} catch (std::exception &x) { viol("exception_to_caller", S("std::exception ") + x.what()); return; }
		catch (...) { viol("exception_to_caller", "an exception"); return; }
		J g = fromv(resp);
		S what = (way >= 2 ? show(text, 1500) : jdump(q)) + " -> " + jdump(g);
		CHECK(g.k == JObj && g.n == (V<S>{"error", "id", "result"}), "response_shape", "%s", what.c_str());
		const J &ge = *jget(g, "error"), &gi = *jget(g, "id"), &gr = *jget(g, "result");
		const J *wid = parses && q.k == JObj ? jget(q, "id") : NULL;
		CHECK(like(gi, wid ? *wid : J()), "wrong_id", "%s", what.c_str());
		if (e.ok) {
			CHECK(ge.k == JNull, "unexpected_error", "expected %s: %s", jdump(e.result).c_str(), what.c_str());
			J a = gr, b = e.result;
			bool plain = true;
			for (auto &x : e.log) if (x != "nest[]") plain = false;
			if (mode != rexjson::execute || plain) { jsortspec(a); jsortspec(b); }
			CHECK(like(a, b), "wrong_result", "expected %s: %s", jdump(e.result).c_str(), what.c_str());
			feat(mode == rexjson::execute ? "succeeded" : "described");
		} else {
			CHECK(gr.k == JNull, "result_with_error", "%s", what.c_str());
			CHECK(ge.k == JObj && jget(ge, "code") && jget(ge, "code")->k == JInt && jget(ge, "message") && jget(ge, "message")->k == JStr, "error_shape", "%s", what.c_str());
			if (e.exact) { CHECK(like(ge, e.error), "wrong_error", "expected %s: %s", jdump(e.error).c_str(), what.c_str()); feat("method_errors"); }
			else {
				CHECK(std::find(e.codes.begin(), e.codes.end(), (int)jget(ge, "code")->i) != e.codes.end(), "wrong_code", "expected code %d: %s", e.codes[0], what.c_str());
				CHECK(!jget(ge, "message")->s.empty(), "no_message", "%s", what.c_str());
				feat(fmt("error%d", e.codes[0]));
			}
		}
		if (g_log != e.log) {
			S a, b; for (auto &x : g_log) a += x + "; "; for (auto &x : e.log) b += x + "; ";
			viol("wrong_calls", "methods called: " + a + " expected: " + b + " for " + what);
			return;
		}
		if (!e.log.empty()) feat("calls", e.log.size());
		CHECK(c[0].base == m.base[0] && c[1].base == m.base[1], "wrong_object", "a method changed another object: %s", what.c_str());
		h = hmix(h, hstr(jdump(q) + (char)mode));
		distinct(hstr(jdump(q) + (char)mode));
	}
}

static void j04(Rng &r) {
	// types to specification and back
	for (int n = 0; n < 4; n++) {
		unsigned t[3] = {(unsigned)r.r(1, 127), (unsigned)r.r(1, 127), 1u << r.u(7)};
		size_t k = r.u(4);
		value s = Derived::create_json_spec(t, k);
		V<unsigned> b = Derived::rpc_types(s.get_array());
		CHECK(b == V<unsigned>(t, t + k), "spec_round_trip", "types %u %u %u become %s", t[0], t[1], t[2], s.write().c_str());
		CHECK(Derived::rpc_types(s.write()) == b, "spec_round_trip", "read back from text: %s", s.write().c_str());
		J hs = fromv(Derived::create_json_helpspec(t, k)), w = jarr();
		for (size_t i = 0; i < k; i++) w.a.push_back(specof(t[i], true));
		jsortspec(hs); jsortspec(w);
		CHECK(like(hs, w), "helpspec", "%s expected %s", jdump(hs).c_str(), jdump(w).c_str());
	}
	if (r.p(50)) j04_server<Derived>(r); else j04_server<Plain>(r);
}

// ================================================================ J05
enum Col { RED = 1, GREEN = -5, BLUE = 70000 };
enum Small : short { SMALL_A, SMALL_B = 7 };
enum { T_INT, T_DBL, T_FLT, T_STR, T_BOOL, T_ENUM, T_SENUM, T_I64, T_SHORT, T_U8, T_RI, T_RD, T_RS, T_COUNT };
static const size_t RN[] = {5, 3, 2};
struct Vars { int i; double d; float f; S s; bool b; Col e; Small se; int64_t l; short sh; uint8_t u8; int ri[6]; double rd[4]; S rs[3]; };
enum { NSLOT = 3 };
struct Node {
	int kind;	// 0 variable, 1 map, 2 array, 3 nothing
	int type, slot, access, leaf;
	V<S> names; V<Node> kids;
};
struct Vals { J v[NSLOT][T_COUNT]; };

struct Hook { bool check; int leaf; S what; bool operator==(const Hook &o) const { return check == o.check && leaf == o.leaf && what == o.what; } };
static V<Hook> g_hooks;
static int g_veto = -1;		// the leaf whose check refuses
static int g_vetokind;

static J curr(const Vars &x, int t) {
	switch (t) {
	case T_INT: return jint(x.i); case T_DBL: return jreal(x.d); case T_FLT: return jreal(x.f); case T_STR: return jstrv(x.s); case T_BOOL: return jbool(x.b);
	case T_ENUM: return jint(x.e); case T_SENUM: return jint((int)x.se); case T_I64: return jint(x.l); case T_SHORT: return jint(x.sh); case T_U8: return jint(x.u8);
	case T_RI: { J j = jarr(); for (size_t k = 0; k < RN[0]; k++) j.a.push_back(jint(x.ri[k])); return j; }
	case T_RD: { J j = jarr(); for (size_t k = 0; k < RN[1]; k++) j.a.push_back(jreal(x.rd[k])); return j; }
	default: { J j = jarr(); for (size_t k = 0; k < RN[2]; k++) j.a.push_back(jstrv(x.rs[k])); return j; }
	}
}
// Writing v to a variable of a type: false when the type refuses it.
static bool conv(int t, const J &old, const J &v, J &out) {
	switch (t) {
	case T_INT: case T_I64: case T_SHORT: case T_U8:
		if (v.k == JInt) { out = jint(v.i); return true; }
		if (v.k == JReal) { out = jint((int64_t)v.d); return true; }
		if (v.k == JBool) { out = jint(v.b); return true; }
		return false;
	case T_DBL: case T_FLT:
		if (v.k != JInt && v.k != JReal) return false;
		out = jreal(v.k == JInt ? (double)v.i : v.d);
		if (t == T_FLT) out.d = (float)out.d;
		return true;
	case T_STR: if (v.k != JStr) return false; out = v; return true;
	case T_BOOL: if (v.k != JBool) return false; out = v; return true;
	case T_ENUM: case T_SENUM: if (v.k != JInt) return false; out = v; return true;
	default: {
		if (v.k != JArr || v.a.size() > old.a.size()) return false;
		out = old;
		for (size_t i = 0; i < v.a.size(); i++) if (!conv(t == T_RI ? T_INT : t == T_RD ? T_DBL : T_STR, old.a[i], v.a[i], out.a[i])) return false;
		return true;
	}
	}
}
static bool same(const J &a, const J &b) { return like(a, b); }

static Vars g_vars[NSLOT];
static int g_ctx[4096];
static property mkleaf(Rng &r, const Node &n, bool hooks) {
	Vars &x = g_vars[n.slot];
	auto acc = (rexjson::property_access)n.access;
	int leaf = n.leaf, t = n.type, slot = n.slot;
	auto chk = [leaf, t, slot](const value &v) {
		g_hooks.push_back({true, leaf, jdump(fromv(v)) + " over " + jdump(curr(g_vars[slot], t))});
		if (g_veto == leaf) { if (g_vetokind == 0) throw std::runtime_error("veto"); else if (g_vetokind == 1) throw std::invalid_argument("veto"); else throw 17; }
	};
	auto mod = [leaf, t, slot](void *ctx) { g_hooks.push_back({false, leaf, jdump(curr(g_vars[slot], t)) + (ctx == &g_ctx[leaf] ? "" : " wrong context")}); };
#define P1(f) (hooks ? property(&x.f, acc, chk, mod, &g_ctx[leaf]) : property(&x.f, acc))
#define PN(f, n) (hooks ? property(&x.f[0], (size_t)n, acc, chk, mod, &g_ctx[leaf]) : property(&x.f[0], (size_t)n, acc))
	switch (n.type) {
	case T_INT: return P1(i); case T_DBL: return P1(d); case T_FLT: return P1(f); case T_STR: return P1(s); case T_BOOL: return P1(b);
	case T_ENUM: return P1(e); case T_SENUM: return P1(se); case T_I64: return P1(l); case T_SHORT: return P1(sh); case T_U8: return P1(u8);
	case T_RI: return PN(ri, RN[0]); case T_RD: return PN(rd, RN[1]); default: return PN(rs, RN[2]);
	}
}
static int g_leaves;
static bool g_leafhook[4096];
static int g_leafmax;
static property mktree(Rng &r, Node &n, int depth) {
	int k = depth > 6 ? (int)r.r(4, 9) : depth > 0 ? r.u(10) : 0;
	if (k < 4 || g_leaves > g_leafmax) {
		if (r.p(3)) { n = Node{3, 0, 0, 0, 0, {}, {}}; return property(); }
		n = Node{0, (int)r.u(T_COUNT), (int)r.u(NSLOT), r.p(75) ? 3 : r.p(50) ? 1 : 2, g_leaves++, {}, {}};
		g_leafhook[n.leaf] = r.p(85);
		return mkleaf(r, n, g_leafhook[n.leaf]);
	}
	if (k < 7) {
		n = Node{1, 0, 0, 0, 0, {}, {}};
		static const char *nm[] = {"a", "b", "c", "name", "0", "x y", "\xc3\xa9", "-1", "]", "A"};
		std::set<S> names;
		for (int c = r.u(4); c > 0; c--) names.insert(r.pick(nm));
		V<S> v(names.begin(), names.end());
		n.names = v; n.kids.resize(v.size());
		V<property> p;
		for (auto &x : n.kids) p.push_back(mktree(r, x, depth - 1));
		typedef rexjson::property_map M;
		switch (v.size()) {
		case 0: return property(M());
		case 1: return M({{v[0], p[0]}});
		case 2: return M({{v[1], p[1]}, {v[0], p[0]}});
		default: { if (v.size() == 3) return M({{v[0], p[0]}, {v[2], p[2]}, {v[1], p[1]}}); return property(M({{v[0], p[0]}, {v[2], p[2]}, {v[1], p[1]}, {v[3], p[3]}})); }
		}
	}
	n = Node{2, 0, 0, 0, 0, {}, {}};
	int c = r.p(5) ? 12 : r.u(4);
	if (r.u(60) == 0) { c = r.r(13, 260); depth = 1; feat("large_trees"); }
	n.kids.resize(c);
	if (c == 2 && r.p(50)) { property a = mktree(r, n.kids[0], depth - 1), b = mktree(r, n.kids[1], depth - 1); return rexjson::property_array({a, b}); }
	property p{rexjson::property_array()};
	for (auto &x : n.kids) p.push_back(mktree(r, x, depth - 1));
	return p;
}
static void paths(const Node &n, const S &at, V<std::pair<S, const Node *>> &o, bool &empty) {
	if (n.kind == 0) o.push_back({at, &n});
	else if (n.kind == 3) empty = true;
	else for (size_t i = 0; i < n.kids.size() && !empty; i++) paths(n.kids[i], n.kind == 1 ? at + "." + n.names[i] : at + "[" + std::to_string(i) + "]", o, empty);
}
// 1 leads to a node, 0 is refused, 2 a spelling left open (a missing dot, leading zeros)
static int nav(Node &n, const S &p, Node *&to) {
	if (n.kind == 3) return 0;
	if (n.kind == 0) { to = &n; return p.empty(); }
	if (p.empty()) return 0;
	int open = 0;
	if (n.kind == 1) {
		size_t b = 0;
		if (p[0] == '.') b = 1; else open = 1;
		size_t e = p.find_first_of(".[", b);
		S name = p.substr(b, e == S::npos ? S::npos : e - b);
		for (size_t i = 0; i < n.names.size(); i++) if (n.names[i] == name && !name.empty()) { int k = nav(n.kids[i], e == S::npos ? S() : p.substr(e), to); return k && open ? 2 : k; }
		return 0;
	}
	if (p[0] != '[') return 0;
	size_t e = p.find(']');
	if (e == S::npos || e == 1) return 0;
	S d = p.substr(1, e - 1);
	if (d.find_first_not_of("0123456789") != S::npos) return 0;
	if (d.size() > 1 && d[0] == '0') { open = 1; d.erase(0, std::min(d.find_first_not_of('0'), d.size() - 1)); }
	if (d.size() > 9 || (size_t)atol(d.c_str()) >= n.kids.size()) return 0;
	int k = nav(n.kids[atol(d.c_str())], p.substr(e + 1), to);
	return k && open ? 2 : k;
}
static Node *anynode(Rng &r, Node &root, S &path) {
	Node *n = &root;
	path = "";
	while (!n->kids.empty() && !r.p(15)) {
		size_t i = r.u(n->kids.size());
		path += n->kind == 1 ? "." + n->names[i] : "[" + std::to_string(i) + "]";
		n = &n->kids[i];
	}
	return n;
}
// The same node by operator[].
static property &index(property &root, const S &path) {
	property *p = &root;
	for (size_t i = 0; i < path.size();) {
		if (path[i] == '.') { size_t e = path.find_first_of(".[", i + 1); if (e == S::npos) e = path.size(); p = &(*p)[path.substr(i + 1, e - i - 1)]; i = e; }
		else { size_t e = path.find(']', i); p = &(*p)[(size_t)atol(path.c_str() + i + 1)]; i = e + 1; }
	}
	return *p;
}

static void j05(Rng &r) {
	enum { NP = 3 };
	Node m[NP];
	S log;
	g_leaves = 0;
	for (auto &x : g_vars) {
		x.i = r.r(-9, 9); x.d = r.r(-9, 9) / 2.0; x.f = r.r(-9, 9) / 4.0; x.s = jstr(r); x.b = r.p(50); x.e = RED; x.se = SMALL_B; x.l = 1ll << 40; x.sh = -3; x.u8 = 200;
		for (int k = 0; k < 6; k++) x.ri[k] = k * 10; for (int k = 0; k < 4; k++) x.rd[k] = k / 2.0; for (int k = 0; k < 3; k++) x.rs[k] = S(k, 's');
	}
	Vals w;
	for (int s = 0; s < NSLOT; s++) for (int t = 0; t < T_COUNT; t++) w.v[s][t] = curr(g_vars[s], t);
	V<property> pv;
	for (int i = 0; i < NP; i++) { g_leaves = i * 1000; g_leafmax = g_leaves + 60; int deep = r.u(40) == 0 ? r.r(8, 30) : (int)r.u(4); if (deep > 6) feat("deep_trees"); pv.push_back(mktree(r, m[i], deep)); }
	property *p = &pv[0];
	uint64_t h = 0;
	for (int st = r.r(4, 40); st > 0; st--) {
		int a = r.u(NP), op = r.u(14);
		S path;
		Node *n = anynode(r, m[a], path);
		h = hmix(hmix(h, op), hstr(path));
		g_hooks.clear(); g_veto = -1;
		switch (op) {
		case 0: case 1: case 2: case 3: {	// write
			J v = rnd(r, 1);
			if (n->kind == 0 && r.p(75)) {	// usually a value that fits
				int t = n->type;
				auto one = [&](int t) -> J {
					switch (t) {
					case T_STR: return jstrv(jstr(r)); case T_BOOL: return jbool(r.p(50)); case T_U8: return jint(r.u(256));
					case T_DBL: case T_FLT: return r.p(50) ? jreal(r.r(-999, 999) / 16.0) : jint(r.r(-99, 99));
					case T_I64: return r.p(50) ? jint((int64_t)r.next()) : jint(r.r(-9, 9));
					case T_INT: return r.p(70) ? jint((int)r.next()) : r.p(50) ? jreal(r.r(-99, 99) / 4.0) : jbool(true);
					default: return jint(r.r(-30000, 30000));
					}
				};
				if (t < T_RI) v = one(t == T_SENUM || t == T_ENUM || t == T_SHORT ? 99 : t);
				else { v = jarr(); for (size_t k = r.u(RN[t - T_RI] + 2); k > 0; k--) v.a.push_back(r.p(6) ? rnd(r, 1) : one(t == T_RI ? T_INT : t == T_RD ? T_DBL : T_STR)); }
			} else if (n->kind == 0 && (n->type == T_SHORT || n->type == T_U8 || n->type == T_SENUM)) {
				if ((v.k == JInt || v.k == JReal)) v = jint(r.u(100));
			}
			if (r.p(12) && n->kind == 0) { g_veto = n->leaf; g_vetokind = r.u(3); }
			log += fmt("p%d", a) + path + " := " + jdump(v) + (g_veto >= 0 ? " (vetoed)" : "") + "; "; crumb(log);
			J out, old;
			bool fits = false, perm = false, veto = false;
			if (n->kind == 0) {
				old = w.v[n->slot][n->type];
				perm = n->access & 2; veto = g_veto == n->leaf && g_leafhook[n->leaf];
				fits = conv(n->type, old, v, out);
			}
			bool expect = n->kind == 0 && perm && !veto && fits, got = true;
			try { property &t = r.p(50) ? p[a].navigate(path) : index(p[a], path); t.set_prop(tov(v)); } catch (...) { got = false; }
			CHECK(got == expect, expect ? "write_refused" : "write_accepted", "%s %s; history %s", path.c_str(), jdump(v).c_str(), log.c_str());
			feat(expect ? "writes" : n->kind != 0 ? "writes_to_trees" : !perm ? "writes_not_permitted" : veto ? "writes_vetoed" : "writes_ill_typed");
			if (expect) w.v[n->slot][n->type] = out;
			if (n->kind == 0 && g_leafhook[n->leaf]) {
				V<Hook> e;
				Hook c = {true, n->leaf, jdump(v) + " over " + jdump(old)};
				if (expect) e = {c, {false, n->leaf, jdump(out)}};
				else if (perm) e = {c};
				bool good = g_hooks == e || (!expect && g_hooks.empty() && !veto) || (!perm && g_hooks == V<Hook>{c});
				if (!good) { S s; for (auto &x : g_hooks) s += fmt("%s leaf %d %s; ", x.check ? "check" : "modified", x.leaf, x.what.c_str()); viol("hooks", "hooks called: " + s + " writing " + jdump(v) + " over " + jdump(old) + " at leaf " + std::to_string(n->leaf) + "; history " + log); return; }
				feat("hook_calls", g_hooks.size());
			} else CHECK(g_hooks.empty(), "hooks", "hooks called for another property; history %s", log.c_str());
			break;
		}
		case 4: case 5: {	// read
			crumb(log + "read " + path);
			bool expect = n->kind == 0 && (n->access & 1), got = true;
			value v;
			try { property &t = r.p(50) ? p[a].navigate(path) : index(p[a], path); v = t.get_prop(); } catch (std::exception &) { got = false; }
			CHECK(got == expect, expect ? "read_refused" : "read_accepted", "reading %s; history %s", path.c_str(), log.c_str());
			if (expect) { S d = diff(v, w.v[n->slot][n->type]); CHECK(d.empty(), "wrong_read", "%s: %s; history %s", path.c_str(), d.c_str(), log.c_str()); feat("reads"); }
			else feat("reads_refused");
			CHECK(g_hooks.empty(), "hooks", "hooks called by reading; history %s", log.c_str());
			break;
		}
		case 6: {	// the variable changes by itself
			int s = r.u(NSLOT);
			g_vars[s].i ^= 1; g_vars[s].s += "!"; g_vars[s].b = !g_vars[s].b; g_vars[s].rd[1] += 0.5;
			for (int t : {T_INT, T_STR, T_BOOL, T_RD}) w.v[s][t] = curr(g_vars[s], t);
			break;
		}
		case 7: {	// enumerate, and back by each path
			V<std::pair<S, const Node *>> want;
			bool empty = false;
			S prefix = r.p(80) ? "" : "root";
			paths(m[a], prefix, want, empty);
			crumb(log + fmt("enumerate p%d", a));
			V<std::pair<S, property *>> got;
			bool threw = false;
			try { p[a].enumerate_children(prefix, [&](const S &s, property &q) { got.push_back({s, &q}); }); } catch (std::exception &) { threw = true; }
			CHECK(threw == empty, "enumeration", "enumeration %s; history %s", threw ? "refused" : "accepted", log.c_str());
			CHECK(got.size() == want.size(), "enumeration", "%zu properties enumerated, there are %zu; history %s", got.size(), want.size(), log.c_str());
			for (size_t i = 0; i < got.size(); i++) {
				CHECK(got[i].first == want[i].first, "enumeration", "property %zu has path %s, expected %s; history %s", i, got[i].first.c_str(), want[i].first.c_str(), log.c_str());
				property *q = NULL;
				try { q = &p[a].navigate(got[i].first.substr(prefix.size())); } catch (std::exception &e) { viol("path_refused", got[i].first + ": " + e.what() + "; history " + log); return; }
				CHECK(q == got[i].second, "other_property", "the path %s leads to another property; history %s", got[i].first.c_str(), log.c_str());
				CHECK((int)q->access() == want[i].second->access, "access", "%s; history %s", got[i].first.c_str(), log.c_str());
				feat("paths");
			}
			break;
		}
		case 8: case 9: {	// any path
			S q = path;
			static const char al[] = ".[]01ab9- xA";
			for (int k = r.u(4); k > 0; k--) {
				size_t at = r.u(q.size() + 1);
				switch (r.u(4)) {
				case 0: q.insert(at, 1, al[r.u(sizeof al - 1)]); break;
				case 1: if (at < q.size()) q.erase(at, 1); break;
				case 2: if (at < q.size()) q[at] = al[r.u(sizeof al - 1)]; break;
				default: { static const char *e[] = {".a", "[0]", "[1]", ".", "[", "]", "[99999999999999999999]", "[-1]", "[ 0]", "[0x]", "[+0]", ".zz", "[4294967296]", "[18446744073709551616]"}; q += r.pick(e); }
				}
			}
			crumb(log + fmt("navigate p%d", a) + q);
			Node *to = NULL;
			int e = nav(m[a], q, to);
			bool got = true;
			property *t = NULL;
			try { t = &p[a].navigate(q); } catch (std::exception &) { got = false; }
			if (e == 2) { feat("open_paths"); break; }
			if (got != (e == 1)) { viol(got ? "path_accepted" : "path_refused", q + "; history " + log); return; }
			if (got) { CHECK((int)t->access() == to->access, "other_property", "%s; history %s", q.c_str(), log.c_str()); if (to->access & 1) { S d = diff(t->get_prop(), w.v[to->slot][to->type]); CHECK(d.empty(), "other_property", "%s: %s; history %s", q.c_str(), d.c_str(), log.c_str()); } }
			feat(got ? "paths_followed" : "paths_refused");
			break;
		}
		case 10: {	// assign: whole trees, parts, itself
			int b = r.u(NP);
			S pb;
			Node *f = anynode(r, m[b], pb);
			if (r.p(30)) { f = &m[b]; pb = ""; }
			std::function<int(const Node &)> size = [&](const Node &x) { int k = 1; for (auto &y : x.kids) k += size(y); return k; };
			if (size(*f) + size(m[a]) > 150) break;
			log += fmt("p%d", a) + path + " = " + fmt("p%d", b) + pb + "; "; crumb(log);
			Node c = *f;
			property &to = index(p[a], path), &from = index(p[b], pb);
			if (r.p(70)) to = from;
			else { property t(from); property u(std::move(t)); to = u; bool dead = false; try { t.get_prop(); } catch (std::exception &) { dead = true; } CHECK(dead, "moved_from", "a property moved from still answers; history %s", log.c_str()); }
			*n = c;
			feat(a == b ? "self_assignments" : "assignments");
			break;
		}
		case 11: {	// append
			int b = r.u(NP);
			S pb;
			Node *f = anynode(r, m[b], pb);
			std::function<int(const Node &)> size = [&](const Node &x) { int k = 1; for (auto &y : x.kids) k += size(y); return k; };
			if (size(*f) + size(m[a]) > 150) break;
			log += fmt("p%d", a) + path + " << " + fmt("p%d", b) + pb + "; "; crumb(log);
			Node c = *f;
			bool got = true;
			property *back = NULL;
			property &to = index(p[a], path);
			try { back = &to.push_back(index(p[b], pb)); } catch (std::exception &) { got = false; }
			CHECK(got == (n->kind == 2), "append", "push_back %s; history %s", got ? "accepted" : "refused", log.c_str());
			if (got) { n->kids.push_back(c); CHECK(back == &to[n->kids.size() - 1], "append", "push_back returns another property; history %s", log.c_str()); feat("appends"); }
			break;
		}
		case 12: {	// as JSON
			V<std::pair<S, const Node *>> want;
			bool bad = false;
			paths(m[a], "", want, bad);
			for (auto &x : want) if (!(x.second->access & 1)) bad = true;
			crumb(log + fmt("json p%d", a));
			J e = jobj();
			for (auto &x : want) jset(e, x.first, w.v[x.second->slot][x.second->type]);
			bool got = true;
			value v;
			try { v = p[a].to_json(); } catch (std::exception &) { got = false; }
			CHECK(got == !bad, "to_json", "to_json %s; history %s", got ? "accepted" : "refused", log.c_str());
			if (got) { S d = diff(v, e); CHECK(d.empty(), "to_json", "%s; history %s", d.c_str(), log.c_str()); feat("as_json"); }
			break;
		}
		default: {	// wrong uses raise errors
			property none;
			int raised = 0, tried = 0;
#define RAISE(x) do { tried++; try { x; } catch (std::exception &) { raised++; } } while (0)
			RAISE(none.get_prop()); RAISE(none.set_prop(1)); RAISE(none.navigate("")); RAISE(none[S("a")]); RAISE(none[(size_t)0]); RAISE(none.access()); RAISE(none.to_json()); RAISE(none.push_back(none));
			property &t = index(p[a], path);
			if (n->kind == 0) { RAISE(t[(size_t)0]); RAISE(t[S("a")]); RAISE(t.navigate(".a")); RAISE(t.navigate("[0]")); RAISE(t.navigate(".")); }
			if (n->kind == 1) { RAISE(t[S("nosuch")]); RAISE(t.access()); RAISE(t.push_back(none)); RAISE(t.get_prop()); RAISE(t.set_prop(tov(rnd(r, 2)))); RAISE(t.navigate("")); }
			if (n->kind == 2) { RAISE(t[n->kids.size()]); RAISE(t[(size_t)-1]); RAISE(t[S("a")]); RAISE(t[S("0a")]); RAISE(t.access()); RAISE(t.get_prop()); RAISE(t.set_prop(tov(rnd(r, 2)))); }
			CHECK(raised == tried, "no_error", "%d of %d wrong uses raised no error at p%d%s; history %s", tried - raised, tried, a, path.c_str(), log.c_str());
			feat("wrong_uses", tried);
		}
		}
		if (g_caseviol) return;
		for (int s = 0; s < NSLOT; s++) {
			for (int t = 0; t < T_COUNT; t++) CHECK(same(curr(g_vars[s], t), w.v[s][t]), "wrong_variable", "variable %d of set %d is %s, expected %s; history %s", t, s, jdump(curr(g_vars[s], t)).c_str(), jdump(w.v[s][t]).c_str(), log.c_str());
			CHECK(g_vars[s].ri[5] == 50 && g_vars[s].rd[3] == 1.5 && g_vars[s].rs[2] == "ss", "wrong_variable", "an element behind the range changed; history %s", log.c_str());
		}
	}
	distinct(h);
}

bool select_property(const S &p) {
	if (p == "J04") g_fn = j04;
	else if (p == "J05") g_fn = j05;
	else return false;
	return true;
}
