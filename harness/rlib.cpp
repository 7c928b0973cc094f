// L01 sequences and strings, L02 keyed containers, L03 text codec: each case drives the
// real container with a random history next to a plain model and compares after every step.
#include "common.h"
#include <math.h>
#include "rlib/rarray.h"
#include "rlib/rcarray.h"
#include "rlib/rlist.h"
#include "rlib/rstring.h"
#include "rlib/rbuffer.h"
#include "rlib/rhash.h"
#include "rlib/rharray.h"
#include "rlib/rmap.h"
#include "rlib/rutf.h"
#include "rlib/rmem.h"
#include "rlib/rgc.h"
#include "rlib/rcharconv.h"

static S rbytes(Rng &r, size_t n) { S s; for (size_t i = 0; i < n; i++) s += (char)r.u(256); return s; }

// ------------------------------------------------------------------ rarray
struct Slot { S v; bool known; };
static void arr_case(Rng &r) {
	static const size_t sizes[] = {1, 2, 3, 4, 7, 8, 12, 16, 24, 40, 200};
	size_t es = r.pick(sizes);
	size_t K = r.u(250) ? 1 : (size_t)r.r(20, 250);   // now and then an array of many thousand elements
	if (K > 1) { feat("large_arrays"); es = es > 16 ? 8 : es; } else if (r.u(100) == 0) es = (size_t)r.r(200, 9000);
	rarray_t *a = r_array_create(es);
	V<Slot> m;
	size_t high = 0;              // storage below this index may have been written
	S zero(es, 0), hist = fmt("rarray elt %zu:", es);
	int steps = (int)r.r(1, K > 1 || es > 200 ? 25 : 60);
	uint64_t h = es + K * 1000;
	auto cmp = [&](rarray_t *x, V<Slot> &mm, const char *what) -> bool {
		CHECKB(r_array_length(x) == mm.size(), "array-length", "%s: length %zu, model %zu; %s", what, (size_t)r_array_length(x), mm.size(), hist.c_str());
		for (size_t i = 0; i < mm.size(); i++)
			if (mm[i].known) CHECKB(!memcmp(r_array_slot(x, i), mm[i].v.data(), es), "array-content", "%s: slot %zu is %s, model %s; %s", what, i, show(S((char *)r_array_slot(x, i), es)).c_str(), show(mm[i].v).c_str(), hist.c_str());
		CHECKB((r_array_empty(x) != 0) == mm.empty(), "array-empty", "%s: empty() wrong; %s", what, hist.c_str());
		CHECKB(mm.empty() ? r_array_lastslot(x) == NULL : r_array_lastslot(x) == r_array_slot(x, mm.size() - 1), "array-last", "%s: lastslot wrong; %s", what, hist.c_str());
		return true;
	};
	auto grow = [&](size_t n) { while (m.size() < n) { m.push_back(m.size() < high ? Slot{zero, false} : Slot{zero, true}); } if (high < n) high = n; };
	bool ok = true;
	for (int s = 0; s < steps && ok; s++) {
		size_t L = m.size();
		S v = rbytes(r, es);
		Exact d(v);
		bool nul = r.p(10);
		const void *p = nul ? NULL : d.b();
		if (nul) v = zero;
		int op = (int)r.u(11);
		h = hmix(h, op);
		switch (op) {
		case 0: case 1: {
			hist += " add"; crumb(hist);
			size_t ix = r_array_add(a, p);
			if (ix != L) { viol("array-add-index", fmt("add returned %zu, expected %zu; %s", ix, L, hist.c_str())); ok = false; }
			grow(L + 1); m[L] = {v, true};
			break; }
		case 2: {
			size_t i = r.u(L + (r.p(20) ? 9 * K : 1));
			hist += fmt(" insert(%zu)", i); crumb(hist);
			r_array_insert(a, i, p);
			if (i < L) { m.insert(m.begin() + i, Slot{v, true}); if (high < m.size()) high = m.size(); }
			else { grow(i + 1); m[i] = {v, true}; }
			break; }
		case 3: {
			size_t i = r.u(L + (r.p(20) ? 20 * K : 1));
			hist += fmt(" replace(%zu)", i); crumb(hist);
			r_array_replace(a, i, p);
			grow(i + 1); m[i] = {v, true};
			break; }
		case 4: {
			size_t i = r.u(L + 2);
			hist += fmt(" delete(%zu)", i); crumb(hist);
			r_array_delete(a, i);
			if (i < L) m.erase(m.begin() + i);
			break; }
		case 5: {
			hist += " removelast"; crumb(hist);
			size_t n = r_array_removelast(a);
			if (L) m.pop_back();
			if (n != m.size()) { viol("array-removelast", fmt("returned %zu, model %zu; %s", n, m.size(), hist.c_str())); ok = false; }
			break; }
		case 6: {
			size_t n = r.u(L + 30 * K);
			hist += fmt(" setlength(%zu)", n); crumb(hist);
			r_array_setlength(a, n);
			if (n < L) m.resize(n); else grow(n);
			break; }
		case 7: {
			if (!L) break;
			size_t src = r.u(L), n = r.u(L - src + 1), dst = r.u(L + 1);
			hist += fmt(" move(%zu,%zu,%zu)", dst, src, n); crumb(hist);
			int rc = r_array_move(a, dst, src, n);
			bool fits = dst + n <= L;
			if ((rc == 0) != fits) { viol("array-move-rc", fmt("move returned %d, fits %d; %s", rc, fits, hist.c_str())); ok = false; }
			else if (fits) { V<Slot> t(m.begin() + src, m.begin() + src + n); std::copy(t.begin(), t.end(), m.begin() + dst); }
			break; }
		case 8: {
			size_t n = r.u(40 * K);
			hist += fmt(" expand(%zu)", n); crumb(hist);
			r_array_expand(a, n);
			if (a->alloc_size < L + n) { viol("array-expand", fmt("capacity %zu after expand to %zu; %s", (size_t)a->alloc_size, L + n, hist.c_str())); ok = false; }
			break; }
		case 9: {
			size_t i = r.u(L + 5 * K);
			hist += fmt(" slot_expand(%zu)", i); crumb(hist);
			void *q = r_array_slot_expand(a, i);
			memcpy(q, v.data(), es);
			if (nul && i < high) ; // plain write through the slot
			if (i < L) m[i] = {v, true};
			else if (high < i + 1) high = i + 1;   // written beyond the length: its later exposure is unspecified
			break; }
		case 10: {
			hist += " copy"; crumb(hist);
			rarray_t *c = (rarray_t *)r_array_copy((robject_t *)a);
			ok = cmp(c, m, "copy");
			if (ok && r_array_length(c)) {
				memset(r_array_slot(c, 0), 0x5a, es);
				r_array_add(c, NULL);
				ok = cmp(a, m, "source after its copy was changed");
			}
			if (ok && r.p(50)) { // keep the copy instead of the source: it must be complete by itself
				V<Slot> cm = m;
				if (!cm.empty()) cm[0] = {S(es, 0x5a), true};
				if (r_array_length(c) > m.size()) cm.push_back({zero, true});
				r_array_destroy(a); a = c; m = cm; high = m.size();
				// the copy's spare storage was never written
				for (auto &x : m) (void)x;
				ok = cmp(a, m, "copy after its source was destroyed");
			} else r_array_destroy(c);
			break; }
		}
		if (ok) ok = cmp(a, m, "after step");
		h = hmix(h, m.size());
	}
	feat("array_steps", steps);
	distinct(h);
	sample(hist);
	r_array_destroy(a);
}

// ------------------------------------------------------------------ rcarray
static void carr_case(Rng &r) {
	static const size_t sizes[] = {1, 3, 4, 8, 16, 24, 100};
	size_t es = r.pick(sizes);
	size_t K = r.u(250) ? 1 : (size_t)r.r(20, 200);
	if (K > 1) { feat("large_carrays"); es = es > 16 ? 8 : es; } else if (r.u(100) == 0) es = (size_t)r.r(100, 3000);
	rcarray_t *a = r_carray_create(es);
	V<Slot> m; std::map<size_t, char *> where;
	size_t high = 0;
	S zero(es, 0), hist = fmt("rcarray elt %zu:", es);
	int steps = (int)r.r(1, K > 1 || es > 100 ? 25 : 60);
	bool ok = true; uint64_t h = es + 77 + K * 1000;
	auto grow = [&](size_t n) { while (m.size() < n) m.push_back(m.size() < high ? Slot{zero, false} : Slot{zero, true}); if (high < n) high = n; };
	auto cmp = [&](rcarray_t *x, const char *what) -> bool {
		CHECKB(r_carray_length(x) == m.size(), "carray-length", "%s: length %lu, model %zu; %s", what, r_carray_length(x), m.size(), hist.c_str());
		for (size_t i = 0; i < m.size(); i++) if (m[i].known)
			CHECKB(!memcmp(r_carray_slot(x, i), m[i].v.data(), es), "carray-content", "%s: slot %zu is %s, model %s; %s", what, i, show(S(r_carray_slot(x, i), es)).c_str(), show(m[i].v).c_str(), hist.c_str());
		CHECKB((r_carray_empty(x) != 0) == m.empty(), "carray-empty", "%s; %s", what, hist.c_str());
		return true;
	};
	for (int s = 0; s < steps && ok; s++) {
		size_t L = m.size();
		S v = rbytes(r, es); Exact d(v);
		bool nul = r.p(10); const void *p = nul ? NULL : d.b(); if (nul) v = zero;
		int op = (int)r.u(7);
		h = hmix(h, op);
		switch (op) {
		case 0: case 1: { int n = r.p(15) ? (int)r.r(1, 40 * (long)K) : 1; if (K > 1 && n > 1) { hist += fmt(" %d times", n); }
			for (int k = 0; k < n && ok; k++) {
				if (K == 1 || !k) { hist += " add"; crumb(hist); }
				size_t ix = r_carray_add(a, p);
				if (ix != m.size()) { viol("carray-add-index", fmt("add returned %zu; %s", ix, hist.c_str())); ok = false; }
				size_t at = m.size(); grow(at + 1); m[at] = {v, true};
			} break; }
		case 2: { if (!L) break; size_t i = r.u(L); hist += fmt(" replace(%zu)", i); crumb(hist);
			r_carray_replace(a, i, p); m[i] = {v, true}; break; }
		case 3: { size_t n = r.u(L + 50 * K); hist += fmt(" setlength(%zu)", n); crumb(hist);
			r_carray_setlength(a, n); if (n < L) m.resize(n); else grow(n);
			break; }
		case 4: { hist += " inc"; crumb(hist); r_carray_inclength(a); grow(L + 1); break; }
		case 5: { size_t i = r.u(L + 40 * K); hist += fmt(" slot_expand(%zu)", i); crumb(hist);
			char *q = (char *)r_carray_slot_expand(a, i); memcpy(q, v.data(), es);
			if (i < L) m[i] = {v, true}; else if (high < i + 1) high = i + 1;
			break; }
		case 6: { hist += " copy"; crumb(hist);
			rcarray_t *c = (rcarray_t *)r_carray_copy((robject_t *)a);
			ok = cmp(c, "copy");
			if (ok && !m.empty()) { memset(r_carray_slot(c, m.size() - 1), 0x33, es); r_carray_add(c, NULL); ok = cmp(a, "source after its copy was changed");
				if (ok && r.p(40)) { m.back() = {S(es, 0x33), true}; m.push_back({zero, true}); if (high < m.size()) high = m.size(); r_carray_destroy(a); a = c; c = NULL; where.clear(); ok = cmp(a, "copy after its source was destroyed"); } }
			if (c) r_carray_destroy(c);
			break; }
		}
		if (ok) ok = cmp(a, "after step");
		for (size_t i = 0; i < m.size() && ok; i++) {
			char *q = r_carray_slot(a, i);
			auto it = where.find(i);
			if (it == where.end()) where[i] = q;
			else if (it->second != q) { viol("carray-moved", fmt("element %zu moved in memory; %s", i, hist.c_str())); ok = false; }
		}
		h = hmix(h, m.size());
	}
	feat("carray_steps", steps); distinct(h); sample(hist);
	r_carray_destroy(a);
}

// ------------------------------------------------------------------ rlist
struct Node { int id; rlink_t lnk; };
static void list_case(Rng &r) {
	const int N = 24, H = 3;
	V<Node> nodes(N);
	rhead_t heads[H];
	V<std::vector<int>> m(H);
	V<int> on(N, -1);
	for (int i = 0; i < N; i++) { nodes[i].id = i; r_list_init(&nodes[i].lnk); }
	for (int i = 0; i < H; i++) r_list_init(&heads[i]);
	S hist = "rlist:"; uint64_t h = 5;
	int steps = (int)r.r(1, 70);
	for (int s = 0; s < steps; s++) {
		int op = (int)r.u(8), l = (int)r.u(H), n = (int)r.u(N);
		h = hmix(h, op * 8 + l);
		if (op <= 1 && on[n] < 0) { hist += fmt(" addh(%d,%d)", l, n); r_list_addh(&heads[l], &nodes[n].lnk); m[l].insert(m[l].begin(), n); on[n] = l; }
		else if (op <= 3 && on[n] < 0) { hist += fmt(" addt(%d,%d)", l, n); r_list_addt(&heads[l], &nodes[n].lnk); m[l].push_back(n); on[n] = l; }
		else if (op <= 5 && on[n] >= 0) { hist += fmt(" del(%d)", n); r_list_del(&nodes[n].lnk); auto &x = m[on[n]]; x.erase(std::find(x.begin(), x.end(), n)); on[n] = -1; r_list_init(&nodes[n].lnk); }
		else if (op == 6) { int k = (int)r.u(H); if (k == l) continue; hist += fmt(" splice(%d->%d)", k, l); crumb(hist);
			r_list_splice(&heads[k], &heads[l]); m[l].insert(m[l].begin(), m[k].begin(), m[k].end()); for (int x : m[k]) on[x] = l; m[k].clear(); }
		else if (op == 7 && on[n] < 0 && !m[l].empty()) { // insert after an element
			size_t at = r.u(m[l].size()); Node *p = &nodes[m[l][at]]; hist += fmt(" addafter(%d,%d)", m[l][at], n);
			r_list_add(&nodes[n].lnk, &p->lnk, p->lnk.next); m[l].insert(m[l].begin() + at + 1, n); on[n] = l; }
		crumb(hist);
		for (int k = 0; k < H; k++) {
			V<int> f, b, f2; rlink_t *pos;
			size_t guard = 0;
			r_list_foreach(pos, &heads[k]) { f.push_back(r_list_entry(pos, Node, lnk)->id); if (++guard > 100) break; }
			guard = 0;
			r_list_foreachreverse(pos, &heads[k]) { b.push_back(r_list_entry(pos, Node, lnk)->id); if (++guard > 100) break; }
			guard = 0;
			for (pos = r_list_first(&heads[k]); pos && guard++ < 100; pos = r_list_next(&heads[k], pos)) f2.push_back(r_list_entry(pos, Node, lnk)->id);
			std::reverse(b.begin(), b.end());
			V<int> b2; guard = 0;
			for (pos = r_list_last(&heads[k]); pos && guard++ < 100; pos = r_list_prev(&heads[k], pos)) b2.push_back(r_list_entry(pos, Node, lnk)->id);
			std::reverse(b2.begin(), b2.end());
			CHECK(f == m[k] && b == m[k] && f2 == m[k] && b2 == m[k], "list-content", "list %d differs from the model (forward %zu backward %zu model %zu); %s", k, f.size(), b.size(), m[k].size(), hist.c_str());
			CHECK(r_list_count(&heads[k]) == m[k].size(), "list-count", "count %u, model %zu; %s", r_list_count(&heads[k]), m[k].size(), hist.c_str());
			CHECK((r_list_empty(&heads[k]) != 0) == m[k].empty(), "list-empty", "%s", hist.c_str());
			CHECK((r_list_first(&heads[k]) == NULL) == m[k].empty() && (r_list_last(&heads[k]) == NULL) == m[k].empty(), "list-ends", "%s", hist.c_str());
		}
	}
	feat("list_steps", steps); distinct(h); sample(hist);
}

// ------------------------------------------------------------------ rstring
static S rtext(Rng &r, size_t n) { S s; for (size_t i = 0; i < n; i++) { char c = (char)r.r(1, 255); s += c; } return s; }
static void str_case(Rng &r) {
	V<rstring_t *> v; V<S> m;
	S hist = "rstring:"; uint64_t h = 9;
	auto chk = [&](rstring_t *s, const S &w, const char *what) -> bool {
		CHECKB(s && s->size == w.size() && !memcmp(s->str, w.data(), w.size()) && s->str[s->size] == 0, "string-content", "%s: got %s (%zu), model %s; %s", what, s ? show(S(s->str, s->size)).c_str() : "NULL", s ? s->size : 0, show(w).c_str(), hist.c_str());
		CHECKB(!strcmp(R_STRING2ANSI(s), w.c_str()), "string-ansi", "%s", hist.c_str());
		CHECKB((r_string_empty(s) ? true : false) == w.empty(), "string-empty", "%s", hist.c_str());
		return true;
	};
	int steps = (int)r.r(1, 30); bool ok = true;
	for (int i = 0; i < steps && ok; i++) {
		int op = (int)r.u(9);
		S t = rtext(r, r.u(r.p(10) ? (r.u(50) ? 300 : 70000) : 12));
		h = hmix(h, op * 64 + t.size());
		rstring_t *n = NULL; S w;
		switch (op) {
		case 0: { hist += fmt(" ansi(%s)", show(t, 40).c_str()); crumb(hist); Exact e(t + S(1, 0)); n = r_string_create_from_ansi(e.b()); w = t; break; }
		case 1: { hist += fmt(" strlen(%s)", show(t, 40).c_str()); crumb(hist); Exact e(t); n = r_string_create_from_str_len(e.b(), t.size()); w = t; break; }
		case 2: if (m.empty()) break; { size_t k = r.u(m.size()); hist += fmt(" from(%zu)", k); crumb(hist); n = r_string_create_from_string(v[k]); w = m[k]; break; }
		case 3: if (m.empty()) break; { size_t k = r.u(m.size()), l = r.u(m.size()); hist += fmt(" cat(%zu,%zu)", k, l); crumb(hist); n = r_string_cat(v[k], v[l]); w = m[k] + m[l]; break; }
		case 4: if (m.empty()) break; { size_t k = r.u(m.size()); size_t len = r.u(t.size() + 1); hist += fmt(" cat_len(%zu,%s,%zu)", k, show(t, 40).c_str(), len); crumb(hist); Exact e(t.substr(0, len)); r_string_cat_len(v[k], e.b(), len); m[k] += t.substr(0, len); break; }
		case 5: { rint64 x = r.p(30) ? (rint64)r.next() : r.r(-1000, 1000); if (r.p(5)) x = INT64_MIN; hist += fmt(" int(%lld)", (long long)x); n = r_string_create_from_int(x); w = fmt("%lld", (long long)x); break; }
		case 6: { double x = (double)r.r(-100000, 100000) / 64.0; if (r.p(10)) x *= r.p(50) ? 1e30 : pow(10, r.r(100, 303)); hist += fmt(" double(%g)", x); n = r_string_create_from_double(x); w = fmt("%f", x); if (fabs(x) > 1e100) feat("large_double_strings"); if (!n) { viol("string-double", "no string for a number; " + hist); ok = false; } break; }
		case 7: if (m.empty()) break; { size_t k = r.u(m.size()); hist += fmt(" copy(%zu)", k); crumb(hist); n = (rstring_t *)v[k]->obj.copy(&v[k]->obj); w = m[k]; break; }
		case 8: if (m.empty()) break; { size_t k = r.u(m.size()); hist += fmt(" destroy(%zu)", k); crumb(hist); r_string_destroy(v[k]); v.erase(v.begin() + k); m.erase(m.begin() + k); break; }
		}
		if (n) { v.push_back(n); m.push_back(w); }
		for (size_t k = 0; k < m.size() && ok; k++) ok = chk(v[k], m[k], fmt("string %zu", k).c_str());
	}
	// plain helpers
	S t = rtext(r, r.u(20)), u = r.p(50) ? t : rtext(r, r.u(20));
	{
		Exact e(t + S(1, 0)), f(u + S(1, 0));
		char *d = r_strdup(e.b());
		if (S(d) != t) viol("strdup", show(t));
		r_free(d);
		size_t k = r.u(t.size() + 1); Exact g(t.substr(0, k));
		d = r_strndup(g.b(), k);
		if (S(d) != t.substr(0, k)) viol("strndup", show(t));
		r_free(d);
		if ((r_strcmp(e.b(), f.b()) == 0) != (t == u)) viol("strcmp", show(t) + show(u));
		if ((r_stringncmp(e.b(), f.b(), u.size()) != 0) != (t == u)) viol("stringncmp", show(t) + show(u));
		if (r_strlen(e.b()) != t.size() || r_strlen(NULL) != 0) viol("strlen", show(t));
		S full = rbytes(r, r.u(30)); Exact b(full);
		rstr_t *q = r_rstrdup(b.b(), (unsigned)full.size());
		if (!q || q->size != full.size() || memcmp(q->str, full.data(), full.size()) || q->str[q->size]) viol("rstrdup", show(full));
		r_rstr_free(q);
	}
	for (auto x : v) r_string_destroy(x);
	feat("string_steps", steps); distinct(h); sample(hist);
}

// garbage collector lists own what was added to them
static int g_cleaned; static void obj_cleanup(robject_t *o) { g_cleaned++; r_object_cleanup(o); }
static void gc_case(Rng &r) {
	rgc_t *gc = r_gc_create();
	int n = (int)r.u(30), owned = 0; g_cleaned = 0;
	V<robject_t *> mine; 
	for (int i = 0; i < n; i++) {
		robject_t *o = r_object_create(sizeof(robject_t) + r.u(40));
		r_object_init(o, R_OBJECT_USER, obj_cleanup, NULL);
		r_gc_add(gc, o); owned++;
		if (r_object_gcget(o) != gc) viol("gc-owner", "object added to a collector does not name it");
		if (r.p(20)) { int before = g_cleaned; r_object_destroy(o); owned--; if (g_cleaned != before + 1) viol("gc-destroy", "cleanup not run once"); }
		else if (r.p(5)) { int b = g_cleaned; r_gc_deallocateall(gc); if (g_cleaned - b != owned) viol("gc-dealloc", fmt("%d of %d cleaned", g_cleaned - b, owned)); owned = 0; }
		if ((int)r_list_count(r_gc_head(gc)) != owned) viol("gc-count", fmt("%u on the list, %d owned", r_list_count(r_gc_head(gc)), owned));
	}
	int b = g_cleaned;
	r_gc_destroy(gc);
	if (g_cleaned - b != owned) viol("gc-final", fmt("%d of %d cleaned", g_cleaned - b, owned));
	feat("gc_objects", n);
}

// an array used as a stack of numbers, sorted, and lists unlinked while walked; plain string helpers; byte buffers
static void num_case(Rng &r) {
	rarray_t *a = r_array_create(sizeof(long));
	V<long> m; S hist = "numbers:"; bool ok = true; uint64_t h = 21;
	int steps = (int)r.r(1, 60);
	for (int s = 0; s < steps && ok; s++) {
		long v = r.p(60) ? r.r(-9, 9) : (long)r.next();
		int op = (int)r.u(9); h = hmix(h, op);
		switch (op) {
		case 0: case 1: case 2: hist += fmt(" push(%ld)", v); r_array_push(a, v, long); m.push_back(v); break;
		case 3: if (m.empty()) break; { hist += " pop"; long x = r_array_pop(a, long); if (x != m.back()) { viol("array-pop", fmt("popped %ld, pushed %ld; %s", x, m.back(), hist.c_str())); ok = false; } m.pop_back(); break; }
		case 4: if (m.empty()) break; if (r_array_last(a, long) != m.back()) { viol("array-last", hist); ok = false; } break;
		case 5: hist += " sort"; r_array_sort(a, long); std::sort(m.begin(), m.end()); feat("sorted"); break;
		case 6: if (m.empty()) break; { size_t i = r.u(m.size()); r_array_index(a, i, long) = v; m[i] = v; hist += fmt(" [%zu]=%ld", i, v); break; }
		case 7: { size_t n = r.u(m.size() + 1); r_array_setlength(a, n); m.resize(n); hist += fmt(" setlength(%zu)", n); break; }
		case 8: if (m.empty()) break; { hist += " removelast"; r_array_removelast(a); m.pop_back(); break; }
		}
		if (ok && (r_array_length(a) != m.size() || r_array_size(a) < m.size())) { viol("array-length", hist); ok = false; }
		for (size_t i = 0; i < m.size() && ok; i++) if (r_array_index(a, i, long) != m[i]) { viol("array-content", fmt("number %zu is %ld, model %ld; %s", i, r_array_index(a, i, long), m[i], hist.c_str())); ok = false; }
	}
	r_array_destroy(a);
	// a list emptied selectively while it is walked
	{
		int n = (int)r.u(20); rhead_t head; r_list_init(&head); V<Node> nodes(n); V<int> keep;
		for (int i = 0; i < n; i++) { nodes[i].id = i; r_list_init(&nodes[i].lnk); r_list_addt(&head, &nodes[i].lnk); }
		uint64_t mask = r.next(); int seen = 0;
		rlink_t *pos, *nx;
		r_list_for_eachsafe(pos, nx, &head) { Node *x = r_list_entry(pos, Node, lnk); if (x->id != seen++) { viol("list-walk", "a safe walk left the order"); break; } if (mask >> x->id & 1) { if (r.p(50)) r_list_del(pos); else { r_list_unlink(pos->prev, pos->next); r_list_init(pos); } } else keep.push_back(x->id); }
		if (seen != n) viol("list-walk", fmt("a safe walk saw %d of %d", seen, n));
		V<int> got; size_t guard = 0; r_list_foreach(pos, &head) { got.push_back(r_list_entry(pos, Node, lnk)->id); if (++guard > 50) break; }
		if (got != keep) viol("list-content", "what a walk kept is not what is on the list");
	}
	// bytes
	{
		S all = rbytes(r, r.u(40)); rbuffer_t *b = r_buffer_create(all.size());
		S got(b->s, b->size + 1);
		if (b->size != all.size() || got != S(all.size() + 1, 0)) viol("buffer-create", "a new buffer is not zero");
		memcpy(b->s, all.data(), all.size());
		for (int k = (int)r.u(4); k > 0; k--) { S t = rbytes(r, r.u(r.p(20) ? 3000 : 30)); Exact e(t); if (r_buffer_append(b, (void *)e.b(), t.size()) != 0) { viol("buffer-append", "refused"); break; } all += t; feat("buffer_appends"); 
			if (b->size != all.size() || memcmp(b->s, all.data(), all.size()) || b->s[b->size]) { viol("buffer-append", fmt("after appending %zu bytes the buffer holds %lu: %s, expected %zu: %s", t.size(), b->size, show(S(b->s, b->size), 80).c_str(), all.size(), show(all, 80).c_str())); break; } }
		r_buffer_destroy(b);
	}
	// helpers on terminated strings
	{
		auto small = [&](size_t n) { S s; for (size_t i = r.u(n + 1); i > 0; i--) s += "ab "[r.u(3)]; return s; };
		S t = small(12), u = small(3); Exact e(t + S(1, 0)), f(u + S(1, 0));
		size_t at = t.find(u); const char *q = r_strstr(e.b(), f.b());
		if ((q ? (size_t)(q - e.b()) : S::npos) != at) viol("strstr", show(t) + show(u));
		at = t.find('b'); q = r_strchr(e.b(), 'b'); if ((q ? (size_t)(q - e.b()) : S::npos) != at) viol("strchr", show(t));
		size_t n = r.u(6); int c = r_strncmp(e.b(), f.b(), n), w = t.substr(0, n).compare(u.substr(0, n)); if ((c < 0) != (w < 0) || (c > 0) != (w > 0)) viol("strncmp", show(t) + show(u));
		c = r_strcmp(e.b(), f.b()); w = t.compare(u); if ((c < 0) != (w < 0) || (c > 0) != (w > 0)) viol("strcmp", show(t) + show(u));
		{ Exact d(t + S(u.size() + 1, 0)); if (r_strcat(d.p, f.b()) != d.p || S(d.p) != t + u) viol("strcat", show(t) + show(u)); }
		{ size_t k = r.u(5); S add = u.substr(0, k); Exact d(t + S(add.size() + 1, 0)); r_strncat(d.p, f.b(), k); if (S(d.p) != t + add) viol("strncat", show(t) + show(u)); }
		{ size_t k = r.u(20); S full = t + u; Exact d(S(k, 'z')); int x = r_snprintf(d.p, k, "%s%s", e.b(), f.b()); if (x != (int)full.size() || (k && S(d.p) != full.substr(0, k - 1))) viol("snprintf", show(full)); }
		feat("string_helpers");
	}
	feat("number_steps", steps); distinct(h);
}

static void L01(Rng &r) {
	int k = (int)r.u(108);
	if (k >= 100) return num_case(r);
	if (k < 35) arr_case(r); else if (k < 60) carr_case(r); else if (k < 75) list_case(r); else if (k < 95) str_case(r); else gc_case(r);
}

// ------------------------------------------------------------------ L02
// strings with the same multiplicative hash modulo any table size are found by search
static S nextkey(Rng &r, V<S> &pool, bool nulok) {
	if (!pool.empty() && r.p(75)) return r.pick(pool);
	S k;
	switch (r.u(7)) {
	case 0: break;
	case 1: k = S(1, (char)r.r('a', 'c')); break;
	case 2: k = fmt("%ld", r.r(-20, 20)); break;
	case 3: for (int i = (int)r.r(1, 4); i > 0; i--) k += (char)r.r('a', 'b'); break;
	case 4: if (!pool.empty()) { k = r.pick(pool); k += (char)r.r('a', 'c'); } break;
	case 5: if (!pool.empty()) { k = r.pick(pool); if (!k.empty()) k.pop_back(); } break;
	case 6: k = rtext(r, r.u(r.p(10) ? 400 : 9)); break;
	}
	if (nulok && r.p(30)) { k.insert(r.u(k.size() + 1), 1, 0); }
	pool.push_back(k);
	return k;
}

// the numbers a double key can be; the large ones have hundreds of digits, some a tenth of another
static double dkey(Rng &r) {
	if (r.p(80)) return (double)r.r(-40, 40) / 8;
	double x = (double)r.r(1, 2) * pow(2.0, r.p(30) ? (double)r.r(-40, 400) : (double)(400 + 200 * r.u(3)));
	for (int k = (int)r.u(3); k > 0; k--) x *= 10;
	return r.p(30) ? -x : x;
}

static void map_case(Rng &r) {
	size_t es = (size_t)(r.p(50) ? 8 : r.r(1, 40)), nbits = (size_t)r.r(1, r.p(10) ? 16 : 5);
	rmap_t *mp = r_map_create(es, nbits);
	struct E { size_t ix; S key, val; };
	V<E> m; V<S> pool; S zero(es, 0);
	S hist = fmt("rmap elt %zu nbits %zu:", es, nbits); uint64_t h = es * 17 + nbits;
	bool bulk = r.u(400) == 0; if (bulk) feat("large_maps");
	int steps = (int)(bulk ? r.r(1000, 3000) : r.r(1, r.p(10) ? 250 : 60)); bool ok = true;
	auto first = [&](const S &k) { for (auto &e : m) if (e.key == k) return (long)e.ix; return -1L; };
	auto last = [&](const S &k) { for (size_t i = m.size(); i-- > 0;) if (m[i].key == k) return (long)m[i].ix; return -1L; };
	for (int s = 0; s < steps && ok; s++) {
		int op = (int)r.u(12); if (bulk && op > 3 && op < 7 && r.p(70)) op = 0; h = hmix(h, op); if (bulk && hist.size() > 6000) hist = "..." + hist.substr(hist.size() - 3000);
		S v = rbytes(r, es); Exact d(v); bool nul = r.p(15); const void *p = nul ? NULL : d.b(); if (nul) v = zero;
		switch (op) {
		case 0: case 1: case 2: case 3: { S k; size_t ix;
			int how = (int)r.u(4);
			if (how == 0) { long l = r.p(80) ? r.r(-5, 5) : (long)r.next(); k = fmt("%ld", l); hist += fmt(" add_l(%ld)", l); crumb(hist); ix = r_map_add_l(mp, l, p); pool.push_back(k); }
			else if (how == 1 && r.p(50)) { double x = dkey(r); if (fabs(x) > 1e100) feat("large_double_keys"); k = fmt("%.15f", x); hist += fmt(" add_d(%g)", x); crumb(hist); ix = r_map_add_d(mp, x, p); }
			else if (how == 2) { k = nextkey(r, pool, false); hist += fmt(" add_s(%s)", show(k, 30).c_str()); crumb(hist); Exact e(k + S(1, 0)); ix = r_map_add_s(mp, e.b(), p); }
			else { k = nextkey(r, pool, false); hist += fmt(" add(%s)", show(k, 30).c_str()); crumb(hist); Exact e(k); ix = r_map_add(mp, e.b(), k.size(), p); }
			for (auto &e : m) if (e.ix == ix) { viol("map-index-reused", fmt("new entry got index %zu of a live entry; %s", ix, hist.c_str())); ok = false; }
			if (nul) hist += "[null]";
			m.push_back({ix, k, v}); break; }
		case 4: case 5: case 6: { if (m.empty()) { if (r_map_delete(mp, r.u(40))) { viol("map-delete-ghost", hist); ok = false; } break; }
			size_t k = r.u(m.size()); hist += fmt(" del(%zu)", m[k].ix); crumb(hist);
			size_t ix = m[k].ix;
			if (!r_map_delete(mp, ix)) { viol("map-delete", "delete of a live entry refused; " + hist); ok = false; }
			m.erase(m.begin() + k);
			if (ok && (r_map_delete(mp, ix) || r_map_key(mp, ix) || r_map_value(mp, ix) || r_map_next(mp, ix) != (size_t)-1)) { viol("map-ghost", "a deleted entry is still reachable by index; " + hist); ok = false; }
			break; }
		case 7: { if (m.empty()) break; size_t k = r.u(m.size()); hist += fmt(" set(%zu)", m[k].ix); crumb(hist);
			S w = rbytes(r, es); Exact x(w);
			if (r_map_setvalue(mp, m[k].ix, x.b()) != m[k].ix) { viol("map-setvalue", hist); ok = false; }
			m[k].val = w; break; }
		case 8: { size_t ix = (size_t)r.u(500); bool live = false; for (auto &e : m) live |= e.ix == ix; if (live) break;
			S w(es, 1);
			if (r_map_setvalue(mp, ix, w.data()) != (size_t)-1 || r_map_value(mp, ix) || r_map_key(mp, ix)) { viol("map-out-of-range", fmt("index %zu; %s", ix, hist.c_str())); ok = false; }
			break; }
		default: { S k = nextkey(r, pool, false); Exact e(k), z(k + S(1, 0));
			long f = (long)r_map_lookup(mp, e.b(), k.size()), l = (long)r_map_taillookup(mp, e.b(), k.size());
			long f2 = (long)r_map_lookup_s(mp, z.b()), l2 = (long)r_map_taillookup_s(mp, z.b());
			if (f != first(k) || l != last(k) || f2 != f || l2 != l) { viol("map-lookup", fmt("key %s: lookup %ld/%ld tail %ld/%ld, model %ld %ld; %s", show(k).c_str(), f, f2, l, l2, first(k), last(k), hist.c_str())); ok = false; }
			long n = r.r(-5, 5);
			if (!m.empty() && r.p(30)) {	// a number of any size that is in the map
				const S &nk = m[r.u(m.size())].key; char *end; errno = 0; long w = strtol(nk.c_str(), &end, 10);
				if (!errno && !nk.empty() && fmt("%ld", w) == nk) { n = w; if (w != (int)w) feat("long_number_keys"); }
			}
			if ((long)r_map_lookup_l(mp, n) != first(fmt("%ld", n))) { viol("map-lookup-l", fmt("%ld; %s", n, hist.c_str())); ok = false; }
			double x = dkey(r);
			if ((long)r_map_lookup_d(mp, x) != first(fmt("%.15f", x))) { viol("map-lookup-d", fmt("%g; %s", x, hist.c_str())); ok = false; }
			break; }
		}
		if (!ok) break;
		if (bulk && s % 128 && s + 1 < steps) continue;
		// full walk, both directions
		V<size_t> f, b; size_t g = 0;
		for (size_t i = r_map_first(mp); i != (size_t)-1 && g++ < 10000; i = r_map_next(mp, i)) f.push_back(i);
		g = 0;
		for (size_t i = r_map_last(mp); i != (size_t)-1 && g++ < 10000; i = r_map_prev(mp, i)) b.push_back(i);
		std::reverse(b.begin(), b.end());
		V<size_t> w; for (auto &e : m) w.push_back(e.ix);
		if (f != w || b != w) { viol("map-walk", fmt("forward %zu backward %zu model %zu entries, or out of order; %s", f.size(), b.size(), w.size(), hist.c_str())); break; }
		for (auto &e : m) {
			rstring_t *k = r_map_key(mp, e.ix);
			if (!k || S(k->str, k->size) != e.key) { viol("map-key", fmt("index %zu: key %s; %s", e.ix, show(e.key).c_str(), hist.c_str())); ok = false; break; }
			void *x = r_map_value(mp, e.ix);
			if (!x || memcmp(x, e.val.data(), es)) { viol("map-value", fmt("index %zu holds %s, stored %s; %s", e.ix, x ? show(S((char *)x, es)).c_str() : "NULL", show(e.val).c_str(), hist.c_str())); ok = false; break; }
			long fi = (long)r_map_lookup(mp, e.key.data(), e.key.size());
			if (fi != first(e.key)) { viol("map-lookup-all", fmt("key %s: %ld, model %ld; %s", show(e.key).c_str(), fi, first(e.key), hist.c_str())); ok = false; break; }
		}
		h = hmix(h, m.size());
	}
	feat("map_steps", steps); distinct(h); sample(hist);
	r_map_destroy(mp);
}

static size_t samehash(rconstpointer) { return 7; }
static void hash_case(Rng &r) {
	int kind = (int)r.u(4);   // str, long, rstr, rstring
	size_t nbits = (size_t)r.u(6);
	bool collide = r.p(25);
	static const r_hash_equalfunc eq[] = {r_hash_strequal, r_hash_longequal, r_hash_rstrequal, r_hash_rstring_equal};
	static const r_hash_hashfun hf[] = {r_hash_strhash, r_hash_longhash, r_hash_rstrhash, r_hash_rstring_hash};
	rhash_t *hs = r_hash_create(nbits, eq[kind], collide ? samehash : hf[kind]);
	struct E { S key; size_t val; };
	V<E> m; V<S> pool; S hist = fmt("rhash kind %d nbits %zu%s:", kind, nbits, collide ? " colliding" : ""); uint64_t h = kind * 8 + nbits;
	// keys live as long as the table: it stores pointers
	V<void *> keep;
	auto mk = [&](const S &k) -> void * {
		if (kind == 0) { char *p = (char *)malloc(k.size() + 1); memcpy(p, k.c_str(), k.size() + 1); keep.push_back(p); return p; }
		if (kind == 1) { long *p = (long *)malloc(sizeof(long)); *p = atol(k.c_str()); keep.push_back(p); return p; }
		if (kind == 2) { rstr_t *p = r_rstrdup(k.data(), (unsigned)k.size()); keep.push_back(p); return p; }
		rstring_t *p = r_string_create_from_str_len(k.data(), k.size()); keep.push_back(p); return p;
	};
	auto rk = [&]() { if (kind == 1) { long x = r.p(80) ? r.r(-9, 9) : (long)r.next(); return fmt("%ld", x); } return nextkey(r, pool, kind == 2); };
	bool bulk = r.u(400) == 0; if (bulk) feat("large_hashes");
	int steps = (int)(bulk ? r.r(1000, 4000) : r.r(1, 80)); bool ok = true; size_t n = 0;
	for (int s = 0; s < steps && ok; s++) {
		int op = (int)r.u(10); h = hmix(h, op); S k = rk(); void *kp = mk(k); if (bulk && hist.size() > 6000) hist = "..." + hist.substr(hist.size() - 3000);
		if (op < 5) { hist += fmt(" ins(%s,%zu)", show(k, 20).c_str(), n); crumb(hist); if (op & 1) r_hash_insert_index(hs, kp, n); else r_hash_insert_object(hs, kp, (rpointer)n); m.push_back({k, n}); n++; }
		else if (op == 5) { hist += fmt(" rm(%s)", show(k, 20).c_str()); crumb(hist); r_hash_remove(hs, kp); m.erase(std::remove_if(m.begin(), m.end(), [&](E &e) { return e.key == k; }), m.end()); }
		else if (op == 6 && r.p(15)) { hist += " clear"; crumb(hist); r_hash_removeall(hs); m.clear(); }
		V<size_t> want, got, tail; for (auto &e : m) if (e.key == k) want.push_back(e.val);
		size_t g = 0;
		for (rhash_node_t *x = r_hash_nodelookup(hs, NULL, kp); x && g++ < 5000; x = r_hash_nodelookup(hs, x, kp)) got.push_back(r_hash_index(x));
		g = 0;
		for (rhash_node_t *x = r_hash_nodetaillookup(hs, NULL, kp); x && g++ < 5000; x = r_hash_nodetaillookup(hs, x, kp)) tail.push_back((size_t)r_hash_object(x));
		std::reverse(tail.begin(), tail.end());
		if (got != want || tail != want) { viol("hash-chain", fmt("key %s: %zu forward, %zu backward, model %zu; %s", show(k).c_str(), got.size(), tail.size(), want.size(), hist.c_str())); break; }
		size_t f = r_hash_lookup_index(hs, kp), t = r_hash_taillookup_index(hs, kp);
		if (f != (want.empty() ? (size_t)-1 : want.front()) || t != (want.empty() ? (size_t)-1 : want.back())) { viol("hash-lookup", fmt("key %s: %zu %zu; %s", show(k).c_str(), f, t, hist.c_str())); break; }
		if ((size_t)r_hash_lookup_object(hs, kp) != (want.empty() ? 0 : want.front())) { viol("hash-object", hist); break; }
	}
	r_hash_destroy(hs);
	for (void *p : keep) { if (kind == 2) r_rstr_free((rstr_t *)p); else if (kind == 3) r_string_destroy((rstring_t *)p); else free(p); }
	feat("hash_steps", steps); distinct(h); sample(hist);
}

static void harr_case(Rng &r) {
	unsigned es = (unsigned)r.r(1, 24);
	rharray_t *a = r_harray_create(es);
	struct E { S key, val; };
	V<E> m; V<S> pool; S hist = fmt("rharray elt %u:", es); uint64_t h = es; S zero(es, 0);
	bool bulk = r.u(400) == 0; if (bulk) feat("large_harrays");
	int steps = (int)(bulk ? r.r(1000, 3000) : r.r(1, r.p(10) ? 200 : 60)); bool ok = true;
	for (int s = 0; s < steps && ok; s++) {
		int op = (int)r.u(9); h = hmix(h, op); if (bulk && hist.size() > 6000) hist = "..." + hist.substr(hist.size() - 3000);
		bool zs = r.p(30);
		S k = nextkey(r, pool, !zs);
		if (zs && k.find('\0') != S::npos) zs = false;
		Exact e(k), z(k + S(1, 0)), d(rbytes(r, es)); S v(d.b(), es); bool nul = r.p(10); const void *p = nul ? NULL : d.b(); if (nul) v = zero;
		long fi = -1, la = -1; V<size_t> all;
		for (size_t i = 0; i < m.size(); i++) if (m[i].key == k) { if (fi < 0) fi = (long)i; la = (long)i; all.push_back(i); }
		switch (op) {
		case 0: case 1: case 2: { hist += fmt(" add(%s)", show(k, 20).c_str()); crumb(hist);
			long ix = zs ? r_harray_add_s(a, z.b(), p) : r_harray_add(a, e.b(), (unsigned)k.size(), p);
			if (ix != (long)m.size()) { viol("harray-add", fmt("returned %ld, expected %zu; %s", ix, m.size(), hist.c_str())); ok = false; }
			m.push_back({k, v}); break; }
		case 3: { hist += fmt(" replace(%s)", show(k, 20).c_str()); crumb(hist);
			long ix = zs ? r_harray_replace_s(a, z.b(), p) : r_harray_replace(a, e.b(), (unsigned)k.size(), p);
			long w = fi >= 0 ? fi : (long)m.size();
			if (ix != w) { viol("harray-replace", fmt("returned %ld, expected %ld; %s", ix, w, hist.c_str())); ok = false; }
			if (fi >= 0) m[fi].val = v; else m.push_back({k, v});
			break; }
		case 4: { if (m.empty()) break; size_t i = r.u(m.size()); hist += fmt(" set(%zu)", i); crumb(hist); if (r_harray_set(a, (long)i, p)) { viol("harray-set", hist); ok = false; } m[i].val = v; if (r_harray_set(a, -1, p) != -1) { viol("harray-set-negative", hist); ok = false; } break; }
		case 5: { if (!r.p(40)) break; hist += " copy"; crumb(hist);
			rharray_t *c = (rharray_t *)r_harray_copy((robject_t *)a);
			if (r.p(50)) { r_harray_destroy(a); a = c; }
			else { r_harray_add_s(c, "only in the copy", NULL); if (r_harray_lookup_s(a, "only in the copy") != -1) { viol("harray-copy-shared", hist); ok = false; }
				for (size_t i = 0; i < m.size() && ok; i++) if (memcmp(r_harray_get(c, i), m[i].val.data(), es) || r_harray_lookup(c, m[i].key.data(), (unsigned)m[i].key.size()) < 0) { viol("harray-copy", fmt("entry %zu; %s", i, hist.c_str())); ok = false; }
				r_harray_destroy(c); }
			break; }
		default: {
			long f = zs ? r_harray_lookup_s(a, z.b()) : r_harray_lookup(a, e.b(), (unsigned)k.size());
			long l = zs ? r_harray_taillookup_s(a, z.b()) : r_harray_taillookup(a, e.b(), (unsigned)k.size());
			if (f != fi || l != la) { viol(zs ? "harray-lookup-s" : "harray-lookup", fmt("key %s%s: lookup %ld tail %ld, model %ld %ld; %s", show(k).c_str(), zs ? " (_s)" : "", f, l, fi, la, hist.c_str())); ok = false; }
			V<size_t> got, tail; size_t g = 0;
			for (rhash_node_t *x = zs ? r_harray_nodelookup_s(a, NULL, z.b()) : r_harray_nodelookup(a, NULL, e.b(), (unsigned)k.size()); x && g++ < 5000; x = zs ? r_harray_nodelookup_s(a, x, z.b()) : r_harray_nodelookup(a, x, e.b(), (unsigned)k.size())) got.push_back(r_hash_index(x));
			g = 0;
			for (rhash_node_t *x = zs ? r_harray_nodetaillookup_s(a, NULL, z.b()) : r_harray_nodetaillookup(a, NULL, e.b(), (unsigned)k.size()); x && g++ < 5000; x = zs ? r_harray_nodetaillookup_s(a, x, z.b()) : r_harray_nodetaillookup(a, x, e.b(), (unsigned)k.size())) tail.push_back(r_hash_index(x));
			std::reverse(tail.begin(), tail.end());
			if (ok && (got != all || tail != all)) { viol("harray-chain", fmt("key %s: %zu/%zu of %zu; %s", show(k).c_str(), got.size(), tail.size(), all.size(), hist.c_str())); ok = false; }
			break; }
		}
		if (!ok) break;
		if (r_harray_length(a) != m.size()) { viol("harray-length", fmt("%lu vs %zu; %s", r_harray_length(a), m.size(), hist.c_str())); break; }
		if (bulk && s % 64 && s + 1 < steps) continue;
		for (size_t i = 0; i < m.size(); i++) if (memcmp(r_harray_get(a, i), m[i].val.data(), es)) { viol("harray-value", fmt("entry %zu; %s", i, hist.c_str())); ok = false; break; }
		if (r_harray_get(a, m.size() + r.u(20))) { viol("harray-get-range", hist); break; }
	}
	r_harray_destroy(a);
	feat("harray_steps", steps); distinct(h); sample(hist);
}
static void L02(Rng &r) { int k = (int)r.u(3); if (k == 0) map_case(r); else if (k == 1) hash_case(r); else harr_case(r); }

// ------------------------------------------------------------------ L03
static const uint32_t SENT = 0xDEADBEEF;
static bool dec8(const S &b, uint32_t &wc, int &n) { Exact e(b); wc = SENT; n = r_utf8_mbtowc(&wc, (const unsigned char *)e.b(), (const unsigned char *)e.e()); return true; }
static bool dec16(const S &b, uint32_t &wc, int &n) { Exact e(b); wc = SENT; n = r_utf16_mbtowc(&wc, (const unsigned char *)e.b(), (const unsigned char *)e.e()); return true; }

// is b[0..] the start of a strictly well-formed UTF-8 sequence? returns its length and code point
static int wf8(const S &b, uint32_t &cp) {
	if (b.empty()) return 0;
	unsigned char c = b[0]; int n; uint32_t v, lo;
	if (c < 0x80) { cp = c; return 1; }
	if (c >= 0xC2 && c <= 0xDF) { n = 2; v = c & 0x1f; lo = 0x80; }
	else if (c >= 0xE0 && c <= 0xEF) { n = 3; v = c & 0xf; lo = 0x800; }
	else if (c >= 0xF0 && c <= 0xF4) { n = 4; v = c & 7; lo = 0x10000; }
	else return 0;
	if ((int)b.size() < n) return 0;
	for (int i = 1; i < n; i++) { if (((unsigned char)b[i] & 0xC0) != 0x80) return 0; v = v << 6 | ((unsigned char)b[i] & 0x3f); }
	if (v < lo || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return -1;   // right shape, not a scalar value: unspecified
	cp = v; return n;
}
// encode into a buffer of exactly `room` bytes with a guard on each side
static int enc(int which, uint32_t wc, unsigned room, S &out) {
	unsigned char *p = (unsigned char *)malloc(room);
	int n = which == 8 ? r_utf8_wctomb(wc, p, room) : r_utf16_wctomb(wc, p, room);
	out.clear();
	if (n > 0 && n <= (int)room) out.assign((char *)p, (size_t)n);
	free(p);
	return n;
}
static void cp_check(uint32_t c) {
	S w8, w16; put8(w8, c); put16(w16, c);
	bool sur = c >= 0xD800 && c < 0xE000;
	for (int which : {8, 16}) {
		const S &w = which == 8 ? w8 : w16;
		if (sur && which == 8) continue;
		for (unsigned room = 0; room <= 6; room++) {
			S o; int n = enc(which, c, room, o);
			int want = (sur || c > 0x10FFFF || room < w.size()) ? 0 : (int)w.size();
			CHECK(n == want && (!n || o == w), which == 8 ? "utf8-encode" : "utf16-encode", "U+%04X in %u bytes: returned %d %s, expected %d %s", c, room, n, show(o).c_str(), want, show(w).c_str());
		}
		if (sur || c > 0x10FFFF) continue;
		// decode, with what follows being nothing, a byte, or another character
		for (const S &tail : {S(), S("A\0", 2), S("\x80\xbf", 2), S("\xff\xdf", 2), w}) {
			uint32_t v; int n;
			if (which == 8) dec8(w + tail, v, n); else dec16(w + tail, v, n);
			CHECK(n == (int)w.size() && v == c, which == 8 ? "utf8-decode" : "utf16-decode", "U+%04X followed by %s: consumed %d, value U+%04X", c, show(tail).c_str(), n, v);
		}
	}
	distinct(c);
}
static void bytes_check(const S &b) {
	crumb("decode " + show(b));
	for (int which : {8, 16}) {
		size_t at = 0, steps = 0;
		Exact e(b);
		while (1) {
			uint32_t v = SENT;
			const unsigned char *p = (const unsigned char *)e.b() + at, *q = (const unsigned char *)e.e();
			int n = which == 8 ? r_utf8_mbtowc(&v, p, q) : r_utf16_mbtowc(&v, p, q);
			size_t left = b.size() - at;
			if (left == 0) { CHECK(n == 0, "utf-end", "at the end consumed %d", n); break; }
			CHECK(n >= 1 && (size_t)n <= left, which == 8 ? "utf8-progress" : "utf16-progress", "%s at %zu: consumed %d of %zu left", show(b).c_str(), at, n, left);
			S rest = b.substr(at);
			if (which == 8) {
				uint32_t cp = 0; int w = wf8(rest, cp);
				if (w > 0) CHECK(n == w && v == cp, "utf8-decode-text", "%s at %zu: consumed %d value U+%04X, expected %d U+%04X", show(b).c_str(), at, n, v, w, cp);
				if (w == 0) CHECK(n == 1 && v == (unsigned char)rest[0], "utf8-malformed", "%s at %zu: malformed, consumed %d value U+%04X", show(b).c_str(), at, n, v);
			} else if (left >= 2) {
				uint32_t u = (unsigned char)rest[0] | (unsigned char)rest[1] << 8;
				if (u < 0xD800 || u >= 0xE000) CHECK(n == 2 && v == u, "utf16-decode-text", "%s at %zu: consumed %d value U+%04X", show(b).c_str(), at, n, v);
				else {
					uint32_t l = left >= 4 ? ((unsigned char)rest[2] | (unsigned char)rest[3] << 8) : 0;
					if (u < 0xDC00 && l >= 0xDC00 && l < 0xE000) CHECK(n == 4 && v == 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00), "utf16-decode-pair", "%s at %zu: consumed %d value U+%04X", show(b).c_str(), at, n, v);
					else CHECK(n == 1 && v == (unsigned char)rest[0], "utf16-malformed", "%s at %zu: consumed %d value U+%04X", show(b).c_str(), at, n, v);
				}
			} else CHECK(n == 1 && v == (unsigned char)rest[0], "utf16-malformed", "odd last byte: consumed %d value U+%04X", n, v);
			at += (size_t)n;
			if (++steps > b.size()) { viol("utf-steps", show(b)); return; }
		}
		feat(which == 8 ? "utf8_steps" : "utf16_steps", steps);
	}
	distinct(hstr(b));
}
// every scalar value is enumerated over the first cases; the rest is random text and garbage
static void L03(Rng &r) {
	const uint64_t CH = 2048, NCH = 0x110000 / CH;
	if (g_idx < NCH) {
		for (uint32_t c = (uint32_t)(g_idx * CH); c < (g_idx + 1) * CH; c++) cp_check(c);
		feat("code_points", CH);
		return;
	}
	if (g_idx < NCH + 256) { // all two-byte and (sampled) three/four byte sequences by lead byte
		unsigned a = (unsigned)(g_idx - NCH);
		for (unsigned b = 0; b < 256; b++) {
			S s; s += (char)a; bytes_check(s); s += (char)b; bytes_check(s);
			for (int k = 0; k < 6; k++) { S t = s; t += (char)(r.p(60) ? r.r(0x80, 0xbf) : r.u(256)); bytes_check(t); t += (char)(r.p(60) ? r.r(0x80, 0xbf) : r.u(256)); bytes_check(t); }
		}
		return;
	}
	for (int k = 0; k < 50; k++) {
		S b; int n = (int)r.r(1, 12);
		for (int i = 0; i < n; i++) switch (r.u(6)) {
			case 0: b += (char)r.u(256); break;
			case 1: put8(b, (uint32_t)r.u(0x110000)); break;
			case 2: put16(b, (uint32_t)r.u(0x110000)); break;
			case 3: b += (char)r.r(0x80, 0xbf); break;
			case 4: { S t; put8(t, (uint32_t)r.u(0x110000)); b += t.substr(0, r.u(t.size())); break; }
			case 5: { uint32_t c = (uint32_t)r.r(0xD700, 0xE0FF); b += (char)c; b += (char)(c >> 8); break; }
		}
		bytes_check(b);
		uint32_t c = r.p(50) ? (uint32_t)r.r(0x10FFF0, 0x110010) : (uint32_t)r.next();
		cp_check(c);
	}
	// other-case partners come in pairs
	for (unsigned long c = 0; c < 0x500; c++) {
		unsigned long d = r_charicase(c);
		CHECK(r_charicase(d) == c, "icase-pair", "U+%04lX -> U+%04lX -> U+%04lX", c, d, r_charicase(d));
	}
}

bool select_property(const S &p) {
	if (p == "L01") g_fn = L01; else if (p == "L02") g_fn = L02; else if (p == "L03") g_fn = L03; else return false;
	return true;
}
