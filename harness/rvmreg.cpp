// Monitor for typed registers (V04): setters, getters, conversions, copies, collector-owned arrays,
// immediates of every type, globals and addresses of stack slots.
#include "common.h"
#include "rtypes.h"
#include "rlib/rmem.h"
#include "rlib/rstring.h"
extern "C" {
#include "rlib/rgc.h"
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
#include "rvm/rvmcodemap.h"
}
#include <math.h>
typedef uint64_t u64; typedef int64_t i64;

static u64 anyval(Rng &r) {
	static const u64 E[] = {0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 1};
	switch (r.u(4)) { case 0: return E[r.u(15)]; case 1: return 1ull << r.u(64); case 2: return r.u(1000); default: return r.u(1ull << 32) << 32 | r.u(1ull << 32); }
}
static double anydbl(Rng &r) {
	static const double E[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e308, -1e308, 5e-324, HUGE_VAL, -HUGE_VAL, 3.5, 1e15};
	if (r.p(40)) return E[r.u(12)];
	u64 b = anyval(r); double d; memcpy(&d, &b, 8); return d;
}
// the register as it should look: the first size bytes of the value are compared
struct Want { int type; u64 lo, hi; bool two; unsigned size; unsigned flags; bool sized; };
static u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static S showreg(const rvmreg_t &r) { return fmt("type %u flags %u size %u value 0x%llx", r.type, r.flags, r.size, (unsigned long long)r.v.w); }
static bool same(const rvmreg_t &r, const Want &w) {
	if (r.type != w.type || r.flags != w.flags) return false;
	if (w.sized && r.size != w.size) return false;
	if (w.two) return (u64)r.v.pair.p1 == w.lo && (u64)r.v.pair.p2 == w.hi;
	return (u64)r.v.w == w.lo;
}
struct Made { Want w; S what; robject_t *obj = NULL; };
static char g_text[64] = "some text that a register points to, without owning it at all";
// give *r a value of some type through a setter or a creator
static Made put(Rng &r, rvmreg_t *reg, bool owning) {
	Made m; u64 v = anyval(r); bool create = r.p(40);
	Want w{0, v, 0, false, 0, 0, false};
	switch (r.u(owning ? 19 : 13)) {
	case 0: rvm_reg_setunsigned(reg, v); w.type = RVM_DTYPE_UNSIGNED; m.what = "unsigned"; break;
	case 1: if (create) *reg = rvm_reg_create_signed((rword)v); else rvm_reg_setsigned(reg, (rword)v); w.type = RVM_DTYPE_SIGNED; m.what = "signed"; break;
	case 2: { static const unsigned B[] = {0, 1, 2, 255, 256, 0x80000000u, 0xffff0000u}; unsigned b = B[r.u(7)]; rvm_reg_setboolean(reg, (rboolean)b); w.type = RVM_DTYPE_BOOLEAN; w.lo = b ? 1 : 0; m.what = fmt("boolean %u", b); break; }
	case 3: { double d = anydbl(r); if (create) *reg = rvm_reg_create_double(d); else rvm_reg_setdouble(reg, d); w.type = RVM_DTYPE_DOUBLE; w.lo = bits(d); m.what = fmt("double %a", d); break; }
	case 4: if (create) *reg = rvm_reg_create_pointer((rpointer)v); else rvm_reg_setpointer(reg, (rpointer)v); w.type = RVM_DTYPE_POINTER; m.what = "pointer"; break;
	case 5: if (create) *reg = rvm_reg_create_ophandler((rpointer)v); else rvm_reg_setophandler(reg, (rpointer)v); w.type = RVM_DTYPE_OPHANDLER; m.what = "handler"; break;
	case 6: if (create) *reg = rvm_reg_create_prophandler((rpointer)v); else rvm_reg_setprophandler(reg, (rpointer)v); w.type = RVM_DTYPE_PROPHANDLER; m.what = "property handler"; break;
	case 7: { ruint32 a = (ruint32)v, b = (ruint32)(v >> 32); if (create) *reg = rvm_reg_create_pair(a, b); else rvm_reg_setpair(reg, a, b); w.type = RVM_DTYPE_PAIR; w.lo = a; w.hi = b; w.two = true; m.what = "pair"; break; }
	case 8: { unsigned n = r.p(30) ? (unsigned)-1 : (unsigned)r.u(strlen(g_text) + 1); if (create) *reg = rvm_reg_create_strptr(g_text, n); else rvm_reg_setstrptr(reg, g_text, n); w.type = RVM_DTYPE_STRPTR; w.lo = (u64)g_text; w.sized = true; w.size = n == (unsigned)-1 ? (unsigned)strlen(g_text) : n; m.what = fmt("text of %d", (int)n); break; }
	case 9: case 10: if (create) *reg = rvm_reg_create_swi(v); else rvm_reg_setswi(reg, v); w.type = RVM_DTYPE_SWIID; m.what = "service"; break;
	case 11: rvm_reg_setundef(reg); w.type = RVM_DTYPE_UNDEF; w.lo = 0; m.what = "undefined"; break;
	case 12: if (create) rvm_reg_init(reg); else rvm_reg_cleanup(reg); w.type = 0; w.lo = 0; m.what = "cleared"; break;
	case 13: case 14: {
		S s; int n = (int)(r.p(10) ? r.u(3000) : r.u(20)); for (int i = 0; i < n; i++) s += (char)r.r(1, 255);
		if (r.p(40)) *reg = rvm_reg_create_string_ansi(s.c_str());
		else if (r.p(50)) { Exact x(s); rstr_t rs; rs.str = (char *)x.b(); rs.size = s.size(); *reg = rvm_reg_create_string(&rs); }
		else rvm_reg_setstring(reg, r_string_create_from_ansi(s.c_str()));
		m.obj = (robject_t *)reg->v.p; w.type = RVM_DTYPE_STRING; w.lo = (u64)m.obj; w.flags = RVM_INFOBIT_ROBJECT; m.what = "string";
		if (!m.obj || ((rstring_t *)m.obj)->size != s.size() || memcmp(R_STRING2ANSI(m.obj), s.c_str(), s.size() + 1)) viol("string", "a string register does not hold its text: " + jesc(s));
		break; }
	case 15: m.obj = (robject_t *)r_array_create(sizeof(rvmreg_t)); rvm_reg_setarray(reg, m.obj); w.type = RVM_DTYPE_ARRAY; w.lo = (u64)m.obj; w.flags = RVM_INFOBIT_ROBJECT; m.what = "array"; break;
	case 16: m.obj = (robject_t *)r_harray_create(sizeof(rvmreg_t)); rvm_reg_setharray(reg, m.obj); w.type = RVM_DTYPE_HARRAY; w.lo = (u64)m.obj; w.flags = RVM_INFOBIT_ROBJECT; m.what = "named array"; break;
	default: m.obj = (robject_t *)r_map_create(sizeof(rvmreg_t), 3); if (r.p(50)) rvm_reg_setmap(reg, m.obj); else rvm_reg_setjsobject(reg, m.obj); w.type = RVM_DTYPE_MAP; w.lo = (u64)m.obj; w.flags = RVM_INFOBIT_ROBJECT; m.what = "map"; break;
	}
	m.w = w;
	return m;
}
static bool getters(const rvmreg_t *reg, const Made &m, S &why) {
	if (rvm_reg_gettype(reg) != m.w.type) { why = "gettype"; return false; }
	for (int b = 0; b < 16; b++) if ((rvm_reg_tstflag(reg, (ruint16)(1 << b)) ? 1 : 0) != (int)(m.w.flags >> b & 1)) { why = fmt("tstflag bit %d", b); return false; }
	if (m.w.two) return true;
	u64 v = m.w.lo;
	switch (m.w.type) {
	case RVM_DTYPE_SIGNED: case RVM_DTYPE_UNSIGNED:
		if (rvm_reg_signed(reg) != (rword)v) { why = "signed"; return false; }
		if (rvm_reg_int(reg) != (int)(rword)v) { why = "int"; return false; }
		if ((rvm_reg_boolean(reg) ? 1 : 0) != (v ? 1 : 0) || rvm_reg_boolean(reg) > 1) { why = "boolean"; return false; }
		break;
	case RVM_DTYPE_BOOLEAN: if (rvm_reg_boolean(reg) != (v ? 1u : 0u)) { why = "boolean"; return false; } break;
	case RVM_DTYPE_DOUBLE: { double d = rvm_reg_double(reg); u64 b = bits(d); if (b != v) { why = fmt("double is %a", d); return false; } break; }
	case RVM_DTYPE_POINTER: case RVM_DTYPE_OPHANDLER: case RVM_DTYPE_PROPHANDLER: if (rvm_reg_pointer(reg) != (rpointer)v) { why = "pointer"; return false; } break;
	case RVM_DTYPE_STRING: if (rvm_reg_string(reg) != (rstring_t *)v) { why = "string"; return false; } break;
	case RVM_DTYPE_MAP: if (rvm_reg_jsobject(reg) != (rmap_t *)v) { why = "jsobject"; return false; } break;
	}
	return true;
}
static void values_case(Rng &r) {
	rvmreg_t reg; memset(&reg, (int)r.u(256), sizeof reg);
	int n = (int)r.r(3, 30); S log;
	for (int i = 0; i < n; i++) {
		Made m = put(r, &reg, true); log += m.what + ";"; S why;
		feat("values_set"); feat(fmt("type_%d", m.w.type));
		if (!same(reg, m.w)) viol("set", "after " + log + " the register has " + showreg(reg) + fmt(", expected type %d flags %u value 0x%llx", m.w.type, m.w.flags, (unsigned long long)m.w.lo));
		else if (!getters(&reg, m, why)) viol("get", "after " + log + " the getter disagrees: " + why + "; " + showreg(reg));
		// flags and type can be changed without touching the value
		if (r.p(30)) {
			ruint16 f = (ruint16)r.u(65536), g = (ruint16)r.u(65536); unsigned t = (unsigned)r.u(32); rvmreg_t c = reg;
			rvm_reg_setflag(&c, f); rvm_reg_clrflag(&c, g); rvm_reg_settype(&c, t);
			if (c.flags != (((m.w.flags | f) & ~g) & 65535u) || c.type != t || memcmp(&c.v, &reg.v, sizeof c.v) || c.size != reg.size) viol("flags", fmt("set 0x%x clear 0x%x gives 0x%x", f, g, c.flags));
			feat("flag_changes");
		}
		if (m.obj) { rvm_reg_cleanup(&reg); r_object_destroy(m.obj); if (reg.v.w || reg.type || reg.flags) viol("clear", "a cleared register is not empty"); }
	}
	distinct(hstr(log));
}
// ---- copies: the register and, through the object's own copy function, what it owns
static rvmreg_t *copyreg(rvmreg_t *d, const rvmreg_t *s) { if (d != s) *d = *s; if (rvm_reg_tstflag(d, RVM_INFOBIT_ROBJECT)) { robject_t *o = (robject_t *)rvm_reg_pointer(d); RVM_REG_SETP(d, o->copy ? o->copy(o) : NULL); } return d; }
static rvmreg_t mkstr(const S &s) { return rvm_reg_create_string_ansi(s.c_str()); }
static S word(Rng &r, int most) { S s; int n = (int)r.u((u64)most); while (n-- > 0) s += (char)r.r(1, 255); return s; }
static void copy_case(Rng &r) {
	rvmreg_t src, dst; memset(&src, 0, sizeof src); memset(&dst, 0x5a, sizeof dst);
	switch (r.u(5)) {
	case 0: {                     // plain values
		Made m = put(r, &src, false);
		if (copyreg(&dst, &src) != &dst || !same(dst, m.w) || !same(src, m.w)) viol("copy", "copy of " + m.what + ": " + showreg(dst));
		feat("plain_copies"); break; }
	case 1: {
		S s = word(r, r.p(20) ? 3000 : 30), t = s; src = mkstr(s);
		if (copyreg(&dst, &src) != &dst || dst.type != src.type || dst.flags != src.flags || dst.v.p == src.v.p || !dst.v.p) { viol("copy", "a copied string register is not a string of its own: " + showreg(dst)); break; }
		bool first = r.p(50);     // change one, the other stays
		rstring_t *a = rvm_reg_string(first ? &src : &dst), *b = rvm_reg_string(first ? &dst : &src);
		r_string_cat_len(a, "more", 4);
		if (strcmp(R_STRING2ANSI(b), s.c_str())) viol("copy", "changing a copied string changes the other one: " + jesc(s));
		r_object_destroy((robject_t *)a);
		if (strcmp(R_STRING2ANSI(b), t.c_str())) viol("copy", "destroying a copied string breaks the other one: " + jesc(s));
		r_object_destroy((robject_t *)b); feat("string_copies"); break; }
	case 2: case 3: {
		bool carr = r.p(50); int n = (int)(r.p(20) ? r.u(200) : r.u(20)); V<Want> w;
		robject_t *o = carr ? (robject_t *)r_carray_create(sizeof(rvmreg_t)) : (robject_t *)r_array_create(sizeof(rvmreg_t));
		for (int i = 0; i < n; i++) { rvmreg_t e; Made m = put(r, &e, false); w.push_back(m.w); if (carr) r_carray_add((rcarray_t *)o, &e); else r_array_add((rarray_t *)o, &e); }
		rvm_reg_setarray(&src, o);
		copyreg(&dst, &src);
		robject_t *c = (robject_t *)dst.v.p;
		auto len = [&](robject_t *x) { return (long)(carr ? r_carray_length((rcarray_t *)x) : r_array_length((rarray_t *)x)); };
		auto at = [&](robject_t *x, long i) { return (rvmreg_t *)(carr ? (void *)r_carray_slot((rcarray_t *)x, i) : (void *)r_array_slot((rarray_t *)x, i)); };
		if (!c || c == o || dst.type != RVM_DTYPE_ARRAY || dst.flags != RVM_INFOBIT_ROBJECT || len(c) != n) { viol("copy", "copy of an array register: " + showreg(dst)); r_object_destroy(o); break; }
		for (int i = 0; i < n; i++) if (!same(*at(c, i), w[i])) { viol("copy", fmt("element %d of %d of a copied array: ", i, n) + showreg(*at(c, i))); break; }
		if (n) { long i = (long)r.u((u64)n); rvm_reg_setundef(at(r.p(50) ? c : o, i)); bool ch = same(*at(c, i), w[i]), oh = same(*at(o, i), w[i]); if (w[i].type != RVM_DTYPE_UNDEF && ch == oh) viol("copy", "a copied array shares its elements"); }
		rvmreg_t e; memset(&e, 0, sizeof e); if (carr) r_carray_add((rcarray_t *)c, &e); else r_array_add((rarray_t *)c, &e);
		if (len(o) != n || len(c) != n + 1) viol("copy", "growing a copied array changes the other's length");
		r_object_destroy(o); r_object_destroy(c); feat("array_copies"); break; }
	default: {                    // in place: the register gets an object of its own
		S s = word(r, 30); src = mkstr(s); robject_t *o = (robject_t *)src.v.p;
		copyreg(&src, &src);
		if (src.v.p == o || strcmp(R_STRING2ANSI(src.v.p), s.c_str())) viol("copy", "copying a register onto itself does not duplicate its string");
		r_object_destroy(o); r_object_destroy((robject_t *)src.v.p); feat("copies_in_place"); }
	}
}
// ---- strings to numbers
static void number_case(Rng &r) {
	S s; bool neg = r.p(30); int lead = r.p(20) ? (int)r.r(1, 3) : 0, digits = r.p(8) ? 0 : (int)r.r(1, r.p(30) ? 18 : 9);
	s = S((size_t)lead, ' '); if (neg) s += '-'; else if (r.p(10)) s += '+';
	for (int i = 0; i < digits; i++) s += (char)('0' + r.u(10));
	bool frac = !digits || r.p(45); S num = s;
	if (frac) { s += '.'; for (int i = (int)r.r(1, 8); i > 0; i--) s += (char)('0' + r.u(10)); if (r.p(20)) { s += r.p(50) ? 'e' : 'E'; if (r.p(50)) s += '-'; s += (char)('0' + r.u(10)); } num = s; }
	if (r.p(20)) s += r.p(50) ? " " : "px";
	// exact reference: integers digit by digit, decimals through the C library on the number alone
	i64 iv = 0; { size_t i = (size_t)lead; if (s[i] == '-' || s[i] == '+') i++; for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) iv = iv * 10 + (s[i] - '0'); if (neg) iv = -iv; }
	double dv = strtod(num.c_str(), NULL);
	rvmreg_t src = mkstr(s), dst; memset(&dst, 0x77, sizeof dst);
	int how = (int)r.u(3), ret; bool inplace = r.p(10); robject_t *o = (robject_t *)src.v.p; rvmreg_t *d = inplace ? &src : &dst;
	Want w{0, 0, 0, false, 0, 0, false}; const char *nm;
	if (how == 0) { nm = "number"; ret = rvm_reg_str2num(d, &src); if (frac) { w.type = RVM_DTYPE_DOUBLE; w.lo = bits(dv); } else { w.type = RVM_DTYPE_SIGNED; w.lo = (u64)iv; } }
	else if (how == 1) { nm = "double"; ret = rvm_reg_str2double(d, &src); w.type = RVM_DTYPE_DOUBLE; w.lo = bits(frac ? dv : strtod(num.c_str(), NULL)); }
	else { nm = "signed"; if (fabs(dv) > 9e15) { r_object_destroy(o); return; } ret = rvm_reg_str2signed(d, &src); w.type = RVM_DTYPE_SIGNED; w.lo = frac ? (u64)(i64)dv : (u64)iv; }
	if (ret != 0 || !same(*d, w)) viol("convert", "text " + jesc(s) + " as " + nm + fmt(" gives %d, ", ret) + showreg(*d) + fmt("; expected type %d value 0x%llx", w.type, (unsigned long long)w.lo));
	if (!inplace && (src.v.p != o || src.type != RVM_DTYPE_STRING || strcmp(R_STRING2ANSI(o), s.c_str()))) viol("convert", "conversion changed its source " + jesc(s));
	r_object_destroy(o); feat(fmt("conversions_%d", how)); distinct(hstr(s));
}
// ---- arrays of registers whose objects belong to the collector
static std::map<void *, int> *g_destroyed; static r_object_cleanupfun g_strclean;
static void note_array(robject_t *o) { { NoMon nm; (*g_destroyed)[o]++; } rarray_t *a = (rarray_t *)o; for (size_t i = 0; i < r_array_length(a); i++) { rvmreg_t *e = (rvmreg_t *)r_array_slot(a, i); if (e->flags & RVM_INFOBIT_ROBJECT) r_object_destroy((robject_t *)e->v.p); } r_array_cleanup(o); }
static void note_carray(robject_t *o) { { NoMon nm; (*g_destroyed)[o]++; } rcarray_t *a = (rcarray_t *)o; for (unsigned long i = 0; i < r_carray_length(a); i++) { rvmreg_t *e = (rvmreg_t *)r_carray_slot(a, i); if (e->flags & RVM_INFOBIT_ROBJECT) r_object_destroy((robject_t *)e->v.p); } r_carray_cleanup(o); }
static void note_harray(robject_t *o) { { NoMon nm; (*g_destroyed)[o]++; } rharray_t *h = (rharray_t *)o; rcarray_t *a = h->members; for (unsigned long i = 0; i < r_carray_length(a); i++) { rvmreg_t *e = (rvmreg_t *)r_carray_slot(a, i); if (e->flags & RVM_INFOBIT_ROBJECT) r_object_destroy((robject_t *)e->v.p); } r_harray_cleanup(o); }
static void note_string(robject_t *o) { { NoMon nm; (*g_destroyed)[o]++; } g_strclean(o); }
static void gc_case(Rng &r) {
	std::map<void *, int> dead; g_destroyed = &dead;
	struct Node { robject_t *o; int kind; V<rvmreg_t> e; bool gc; };
	V<Node> nodes; rgc_t *gc = r_gc_create();
	int n = (int)r.r(1, r.p(20) ? 40 : 8); S log;
	for (int i = 0; i < n; i++) {
		Node nd; nd.kind = (int)r.u(4); nd.gc = true;
		switch (nd.kind) {
		case 0: nd.o = (robject_t *)r_array_create(sizeof(rvmreg_t)); nd.o->cleanup = note_array; break;
		case 1: nd.o = (robject_t *)r_carray_create(sizeof(rvmreg_t)); nd.o->cleanup = note_carray; break;
		case 2: nd.o = (robject_t *)r_harray_create(sizeof(rvmreg_t)); nd.o->cleanup = note_harray; break;
		default: nd.o = (robject_t *)r_string_create_from_ansi("owned by the collector"); g_strclean = nd.o->cleanup; nd.o->cleanup = note_string; break;
		}
		r_gc_add(gc, nd.o); nodes.push_back(nd);
	}
	int owned = 0;
	bool cyclic = r.p(60);
	for (int i = 0; i < n; i++) {
		Node &nd = nodes[i]; if (nd.kind == 3) continue;
		int k = (int)(r.p(2) ? r.u(700) : r.p(15) ? r.u(60) : r.u(8));
		if (k > 256) feat("long_collected_arrays");
		for (int j = 0; j < k; j++) {
			rvmreg_t e; memset(&e, 0, sizeof e);
			int c = (int)r.u(10), t = -1;
			if (c < 5) { t = cyclic ? (int)r.u((u64)n) : i + 1 + (int)(i + 1 < n ? r.u((u64)(n - i - 1)) : 0); if (t >= n) t = -1; }
			if (t >= 0) { if (nodes[t].kind == 3) rvm_reg_setstring(&e, (rstring_t *)nodes[t].o); else if (nodes[t].kind == 2) rvm_reg_setharray(&e, nodes[t].o); else rvm_reg_setarray(&e, nodes[t].o); log += fmt("%d>%d;", i, t); }
			else if (c < 7) { e = mkstr("belongs to the array"); g_strclean = ((robject_t *)e.v.p)->cleanup; ((robject_t *)e.v.p)->cleanup = note_string; owned++; log += fmt("%d>own;", i); }
			else put(r, &e, false);
			if (nd.kind == 0) r_array_add((rarray_t *)nd.o, &e); else if (nd.kind == 1) r_carray_add((rcarray_t *)nd.o, &e); else r_harray_add_s((rharray_t *)nd.o, fmt("k%d", j).c_str(), &e);
			nd.e.push_back(e);
		}
	}
	auto len = [&](Node &x) { return (size_t)(x.kind == 0 ? r_array_length((rarray_t *)x.o) : x.kind == 1 ? r_carray_length((rcarray_t *)x.o) : r_harray_length((rharray_t *)x.o)); };
	auto at = [&](Node &x, size_t i) { return x.kind == 0 ? (rvmreg_t *)r_array_slot((rarray_t *)x.o, i) : x.kind == 1 ? (rvmreg_t *)r_carray_slot((rcarray_t *)x.o, i) : (rvmreg_t *)r_harray_slot((rharray_t *)x.o, i); };
	auto room = [&](Node &x) { return x.kind == 1 ? (unsigned long)r_carray_size((rcarray_t *)x.o) : x.kind == 2 ? (unsigned long)r_carray_size(((rharray_t *)x.o)->members) : 0ul; };
	std::set<int> released;       // by reading: the given array and everything it leads to
	V<unsigned long> rooms; for (auto &x : nodes) rooms.push_back(room(x));
	std::function<void(int)> mark = [&](int i) { if (nodes[i].kind == 3 || !released.insert(i).second) return; for (auto &e : nodes[i].e) if (e.flags & RVM_INFOBIT_ROBJECT) for (int t = 0; t < n; t++) if (nodes[t].o == (robject_t *)e.v.p) mark(t); };
	int rounds = (int)r.r(1, 3);
	for (int q = 0; q <= rounds; q++) {
		int from = q == rounds ? 0 : (int)r.u((u64)n), to = q == rounds ? n : from + 1;
		for (int i = from; i < to; i++) { rvm_reg_array_unref_gcdata(nodes[i].o); mark(i); }
		for (int i = 0; i < n; i++) {
			Node &x = nodes[i]; if (x.kind == 3) continue;
			if (len(x) != x.e.size()) { viol("release", fmt("array %d has %zu elements after releasing, not %zu; ", i, len(x), x.e.size()) + log); return; }
			if (x.kind && room(x) != rooms[i]) { viol("release", fmt("array %d has room for %lu after releasing, not %lu; ", i, room(x), rooms[i]) + log); return; }
			for (size_t j = 0; j < x.e.size(); j++) {
				rvmreg_t *g = at(x, j), e = x.e[j]; bool mine = false;
				if (e.flags & RVM_INFOBIT_ROBJECT) for (auto &y : nodes) if (y.o == (robject_t *)e.v.p) mine = true;
				if (mine && released.count(i)) { if (g->v.w || g->type || g->flags) { viol("release", fmt("element %zu of array %d still refers to a collector-owned object; ", j, i) + log); return; } }
				else if (memcmp(&g->v, &e.v, sizeof e.v) || g->type != e.type || g->flags != e.flags) { viol("release", fmt("element %zu of array %d changed; ", j, i) + log); return; }
			}
		}
	}
	if (r.p(50)) { r_gc_deallocateall(gc); r_gc_destroy(gc); } else r_gc_destroy(gc);
	int total = 0; for (auto &x : dead) { total += x.second; if (x.second != 1) viol("release", "an object was destroyed twice; " + log); }
	if (total != n + owned) viol("release", fmt("%d objects destroyed of %d; ", total, n + owned) + log);
	feat("collected_objects", total); feat(cyclic ? "cyclic_collections" : "acyclic_collections");
	distinct(hstr(log));
}
// ---- immediates of every type, handlers called through a register, addresses of stack slots, globals
static int g_handled; static rvm_asmins_t *g_handled_ins;
static void handler(rvmcpu_t *cpu, rvm_asmins_t *ins) { g_handled++; g_handled_ins = ins; RVM_CPUREG_SETU(cpu, R7, RVM_CPUREG_GETU(cpu, R7) * 5 + 1); }
static void code_case(Rng &r) {
	unsigned long size = (unsigned long)r.r(4, 300);
	rvmcpu_t *cpu = rvm_cpu_create(size);
	{ NoMon nm; memset(cpu->stack, 0, size * sizeof(rvmreg_t)); }
	rvm_codegen_t *cg = rvm_codegen_create();
	V<Want> want; V<int> regs; S log;
	int n = (int)r.r(1, 8);
	for (int i = 0; i < n; i++) {
		u64 v = anyval(r); Want w{0, v, 0, false, 0, 0, false}; rvm_asmins_t a; bool c = r.p(50); ruword op = RVM_MOV, dst = (ruword)(R0 + i % 7);
		switch (r.u(9)) {
		case 0: a = c ? rvm_cond_asm(0, op, dst, DA, XX, v) : rvm_asm(op, dst, DA, XX, v); w.type = RVM_DTYPE_UNSIGNED; break;
		case 1: a = c ? rvm_cond_asml(0, op, dst, DA, XX, (long)v) : rvm_asml(op, dst, DA, XX, (long)v); w.type = RVM_DTYPE_SIGNED; break;
		case 2: a = c ? rvm_cond_asmb(0, op, dst, DA, XX, (unsigned)v) : rvm_asmb(op, dst, DA, XX, (unsigned)v); w.type = RVM_DTYPE_BOOLEAN; w.lo = (unsigned)v ? 1 : 0; break;
		case 3: { double d = anydbl(r); a = c ? rvm_cond_asmd(0, op, dst, DA, XX, d) : rvm_asmd(op, dst, DA, XX, d); w.type = RVM_DTYPE_DOUBLE; w.lo = bits(d); break; }
		case 4: a = c ? rvm_cond_asmp(0, op, dst, DA, XX, (rpointer)v) : rvm_asmp(op, dst, DA, XX, (rpointer)v); w.type = RVM_DTYPE_POINTER; break;
		case 5: a = c ? rvm_cond_asms(0, op, dst, DA, XX, v) : rvm_asms(op, dst, DA, XX, v); w.type = RVM_DTYPE_SWIID; break;
		case 6: a = c ? rvm_cond_asmf(0, op, dst, DA, XX, v) : rvm_asmf(op, dst, DA, XX, v); w.type = RVM_DTYPE_FUNCTION; break;
		case 7: a = c ? rvm_cond_asm2(0, op, dst, DA, XX, (ruint32)v, (ruint32)(v >> 32)) : rvm_asm2(op, dst, DA, XX, (ruint32)v, (ruint32)(v >> 32)); w.type = RVM_DTYPE_PAIR; w.lo = (ruint32)v; w.hi = v >> 32; w.two = true; break;
		default: { unsigned long k = r.u(strlen(g_text)); a = c ? rvm_cond_asma(0, op, dst, DA, XX, g_text, k) : rvm_asma(op, dst, DA, XX, g_text, k); w.type = RVM_DTYPE_STRPTR; w.lo = (u64)g_text; w.sized = true; w.size = (unsigned)k; break; }
		}
		log += fmt("r%d<-type %d 0x%llx;", (int)dst, w.type, (unsigned long long)w.lo);
		rvm_codegen_addins(cg, a); want.push_back(w); regs.push_back((int)dst);
	}
	int calls = (int)r.u(4);
	for (int i = 0; i < calls; i++) {
		rvm_asmins_t a = rvm_asm(RVM_CALL, DA, XX, XX, 0);
		if (r.p(50)) { rvm_reg_setophandler(&a.data, (rpointer)handler); rvm_codegen_addins(cg, a); }
		else { rvmreg_t h = rvm_reg_create_ophandler((rpointer)handler); rvm_cpu_setreg(cpu, R8, &h); rvm_codegen_addins(cg, rvm_asm(RVM_CALL, R8, XX, XX, 0)); }
	}
	// the address of a stack slot, written through
	u64 base = r.u(size + 4), off = r.u(size); u64 slot = base + off, val = anyval(r); bool imm = r.p(50);
	int how = (int)r.u(3); if (how == 1) slot = base; if (how == 2) slot = off;
	rvm_codegen_addins(cg, rvm_asm(RVM_MOV, R9, DA, XX, base));
	rvm_codegen_addins(cg, rvm_asm(RVM_MOV, R8, DA, XX, val));
	if (how == 0) { if (imm) rvm_codegen_addins(cg, rvm_asm(RVM_ADDRS, R10, R9, DA, off)); else { rvm_codegen_addins(cg, rvm_asm(RVM_MOV, R7, DA, XX, off)); rvm_codegen_addins(cg, rvm_asm(RVM_ADDRS, R10, R9, R7, 0)); } }
	else if (how == 1) rvm_codegen_addins(cg, rvm_asm(RVM_ADDRS, R10, R9, XX, 0));
	else rvm_codegen_addins(cg, rvm_asm(RVM_ADDRS, R10, XX, DA, off));
	rvm_codegen_addins(cg, rvm_asm(RVM_STR, R8, R10, XX, 0));
	rvm_codegen_addins(cg, rvm_asm(RVM_EXT, XX, XX, XX, 0));
	rvmreg_t start; rvm_reg_setunsigned(&start, 7); rvm_cpu_setreg(cpu, R7, &start);
	g_handled = 0;
	int ret = rvm_cpu_exec(cpu, rvm_codegen_getcode(cg, 0), 0);
	bool ok = slot < size;
	log += fmt(" %d handlers, slot %llu of %lu", calls, (unsigned long long)slot, size);
	if (ret != (ok ? 0 : -1) || cpu->error != (ok ? 0ul : (ruword)RVM_E_NOMEM)) viol("address", fmt("returned %d error %lu; ", ret, (unsigned long)cpu->error) + log);
	else if (ok) {
		rvmreg_t *s = (rvmreg_t *)cpu->stack;
		rvmreg_t *g = rvm_cpu_getreg(cpu, R10);
		if (g->type != RVM_DTYPE_POINTER || g->v.p != &s[slot] || s[slot].v.w != val) viol("address", "the address of a stack slot is not that slot's: " + log);
		for (u64 i = 0; i < size; i++) if (i != slot && s[i].v.w) { viol("address", "another stack slot was written: " + log); break; }
		feat("slot_addresses");
	} else feat("slots_outside");
	for (int i = 0; i < n; i++) {
		bool last = true; for (int j = i + 1; j < n; j++) if (regs[j] == regs[i]) last = false;
		if (regs[i] == R7) last = false;
		rvmreg_t *g = rvm_cpu_getreg(cpu, (ruword)regs[i]);
		if (last && !same(*g, want[i])) { viol("immediate", "register after a move of an immediate: " + showreg(*g) + "; " + log); break; }
	}
	if (g_handled != calls) viol("handler", fmt("%d of %d handlers called; ", g_handled, calls) + log);
	feat("immediates", n); if (calls) feat("handlers_called", calls);
	// globals stay where they are
	V<rvmreg_t *> gl; V<Want> gw; int k = (int)(r.p(1) && r.p(10) ? 65000 + r.u(2000) : r.p(3) ? r.u(1500) : r.p(20) ? r.u(200) : r.u(10));
	for (int i = 0; i < k; i++) { rvmreg_t *g = rvm_cpu_alloc_global(cpu); if (!g || g->type != RVM_DTYPE_UNDEF || g->v.w || g->flags) { viol("global", "a new global is not undefined"); break; } gl.push_back(g); gw.push_back(put(r, g, false).w); }
	for (size_t i = 0; i < gl.size(); i++) if (!same(*gl[i], gw[i])) { viol("global", fmt("global %zu of %d lost its value", i, k)); break; }
	feat("globals", k);
	for (int i = 0; i < 40; i++) { bool in = i < RLST; if ((rvm_cpu_getreg(cpu, (ruword)i) != NULL) != in || (rvm_cpu_setreg(cpu, (ruword)i, &start) == 0) != in) viol("register-number", fmt("register %d", i)); }
	distinct(hstr(log));
	rvm_codegen_destroy(cg); rvm_cpu_destroy(cpu);
}
// ---- names in the code map
static void map_case(Rng &r) {
	rvm_codemap_t *m = rvm_codemap_create();
	struct L { S n; int kind; u64 v; long base; }; V<L> l; std::map<S, long> ix; S log;   // kind 0 unresolved 1 offset 2 pointer
	int n = (int)r.r(3, r.p(20) ? 300 : 40);
	for (int i = 0; i < n; i++) {
		S nm = r.p(50) ? fmt("n%d", (int)r.u(n)) : word(r, 4); for (auto &c : nm) if (!c) c = 'x';
		if (nm.empty()) nm = "e";
		Exact x(nm); bool z = r.p(40); long g; u64 v = r.u(1 << 20); int k = (int)r.u(6);
		bool have = ix.count(nm); long w = have ? ix[nm] : (long)l.size();
		// offsets refer to a label that stands earlier in the map, so that there is always an end
		long base = -1;
		if (k == 0) { V<long> c; for (long j = 0; j < w && j < (long)l.size(); j++) c.push_back(j); if (c.empty()) k = 1; else base = c[r.u(c.size())]; }
		switch (k) {
		case 0: g = z ? rvm_codemap_addoffset_s(m, nm.c_str(), (unsigned long)base, v) : rvm_codemap_addoffset(m, x.b(), (unsigned)nm.size(), (unsigned long)base, v); break;
		case 1: case 2: g = z ? rvm_codemap_addpointer_s(m, nm.c_str(), (rpointer)v) : rvm_codemap_addpointer(m, x.b(), (unsigned)nm.size(), (rpointer)v); break;
		case 3: g = z ? rvm_codemap_lookupadd_s(m, nm.c_str()) : rvm_codemap_lookupadd(m, x.b(), (unsigned)nm.size()); break;
		case 4: g = z ? rvm_codemap_lookup_s(m, nm.c_str()) : rvm_codemap_lookup(m, x.b(), (unsigned)nm.size()); if (!have) w = -1; break;
		default: g = z ? rvm_codemap_invalid_add_s(m, nm.c_str()) : rvm_codemap_invalid_add(m, x.b(), (unsigned)nm.size()); break;
		}
		log += fmt("%d:", k) + nm + ";";
		if (g != w) { viol("names", fmt("got label %ld, expected %ld after ", g, w) + jesc(log)); rvm_codemap_destroy(m); return; }
		if (k != 4) {
			if (!have) { l.push_back({nm, 0, 0, -1}); ix[nm] = w; }
			L &q = l[(size_t)w];
			if (k == 0) { q.kind = 1; q.v = v; q.base = base; } else if (k == 1 || k == 2) { q.kind = 2; q.v = v; } else if (k == 5) q.kind = 0;
		}
		if (rvm_codemap_lastlabel(m) != (long)l.size() - 1) viol("names", "number of labels after " + jesc(log));
		feat("label_steps");
	}
	for (size_t i = 0; i < l.size(); i++) {
		rvm_codelabel_t *err = NULL; u64 v = 0; long at = (long)i; bool def = true; int hops = 0; 
		while (hops++ < 10000) { if (l[at].kind == 2) { v += l[at].v; break; } if (l[at].kind == 0) { def = false; break; } v += l[at].v; at = l[at].base; }
		ruword g = rvm_codemap_resolve(m, (long)i, &err);
		if (def ? g != v || err : g != (ruword)-1 || !err || l[at].n != S(err->name->str, err->name->size)) { viol("names", fmt("label %zu resolves to 0x%llx", i, (unsigned long long)g) + (err ? " with an unresolved name " + jesc(S(err->name->str, err->name->size)) : S()) + "; " + jesc(log)); break; }
		if ((rvm_codemap_validindex(m, (long)i) != 0) != (l[i].kind != 0)) { viol("names", "validity after " + jesc(log)); break; }
		feat(def ? "labels_resolved" : "labels_unresolved");
	}
	if (rvm_codemap_validindex(m, -1) || rvm_codemap_validindex(m, (long)l.size()) || rvm_codemap_label(m, (long)l.size()) || rvm_codemap_label(m, -1)) viol("names", "a label that does not exist is valid");
	if (r.p(30)) { rvm_codemap_clear(m); if (rvm_codemap_lastlabel(m) != -1) viol("names", "cleared map has labels"); for (auto &x : l) if (rvm_codemap_lookup_s(m, x.n.c_str()) >= 0) viol("names", "cleared map finds " + jesc(x.n)); }
	distinct(hstr(log));
	rvm_codemap_destroy(m);
}
static void v04(Rng &r) {
	switch (r.u(12)) {
	case 0: case 1: return values_case(r);
	case 2: case 3: return copy_case(r);
	case 4: case 5: return number_case(r);
	case 6: case 7: return gc_case(r);
	case 8: case 9: return map_case(r);
	default: return code_case(r);
	}
}
bool select_property(const S &p) { if (p != "V04") return false; g_fn = v04; return true; }
