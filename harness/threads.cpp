// L04: threads hammer the synchronisation primitives; monitors check exclusion, lost updates,
// unique tickets, single destruction and the allocation totals. ThreadSanitizer judges races.
#include "common.h"
#include <thread>
#include <sched.h>
#include "rtypes.h"
#include "rlib/ratomic.h"
#include "rlib/rspinlock.h"
#include "rlib/rref.h"
#include "rlib/rmem.h"

static void nap(Rng &r) { if (r.p(12)) sched_yield(); else if (r.p(1)) usleep((useconds_t)r.u(30)); else for (volatile int i = 0, n = (int)r.u(20); i < n; i++); }
struct Gate { // all threads leave together
	std::atomic<int> left; explicit Gate(int n) : left(n) {}
	void wait() { left--; while (left > 0) sched_yield(); }
};
template <class F> static void par(int n, uint64_t seed, F f) {
	Gate g(n); V<std::thread> t;
	for (int i = 0; i < n; i++) t.emplace_back([&, i] { Rng r(seed * 131 + i); g.wait(); f(i, r); });
	for (auto &x : t) x.join();
}
static int nthreads(Rng &r) { return (int)r.r(2, 6); }

static void spin_case(Rng &r) {
	int n = nthreads(r), iters = (int)r.r(20, 150); uint64_t seed = r.next();
	crumb(fmt("spinlock %d threads %d iterations", n, iters));
	rspinlock_t lk; r_spinlock_init(&lk);
	// plain data guarded only by the lock: any reader outside exclusion is a race for TSan, any overlap shows in `owner`
	struct { long count, owner; long words[8]; } st; memset(&st, 0, sizeof st); st.owner = -1;
	std::atomic<long> bad{0}, got{0}, missed{0}; std::string why; 
	par(n, seed, [&](int me, Rng &q) {
		for (int i = 0; i < iters; i++) {
			if (q.p(40)) { int tries = 0; while (!r_spinlock_trylock(&lk)) { missed++; if (++tries > 3) sched_yield(); } }
			else r_spinlock_lock(&lk);
			if (st.owner != -1) bad++;
			st.owner = me;
			for (int k = 1; k < 8; k++) if (st.words[k] != st.words[0]) bad++;
			st.count++;
			for (int k = 0; k < 8; k++) { st.words[k]++; if (k == 4) nap(q); }
			if (q.p(10) && r_spinlock_trylock(&lk)) bad++;     // held by us: must be refused
			if (st.owner != me) bad++;
			st.owner = -1; got++;
			r_spinlock_unlock(&lk);
			nap(q);
		}
	});
	if (bad || st.count != (long)n * iters || got != st.count) viol("spinlock", fmt("%ld exclusion failures, count %ld of %ld", (long)bad, st.count, (long)n * iters));
	if (!r_spinlock_trylock(&lk)) viol("trylock-free", "try-lock of a free lock refused");
	if (r_spinlock_trylock(&lk)) viol("trylock-held", "try-lock of a held lock granted");
	r_spinlock_unlock(&lk);
	if (!r_spinlock_trylock(&lk)) viol("trylock-free", "try-lock after unlock refused");
	r_spinlock_unlock(&lk);
	feat("lock_acquisitions", (uint64_t)n * iters); feat("trylock_refused", (uint64_t)missed);
	distinct(hmix(hmix(1, n), hmix(iters, missed)));
}
static void atomic_case(Rng &r) {
	int n = nthreads(r), iters = (int)r.r(20, 200); uint64_t seed = r.next();
	crumb(fmt("atomics %d threads %d iterations", n, iters));
	int kind = (int)r.u(5); ratomic_t base = (ratomic_t)(r.p(30) ? r.next() : r.r(-5, 5));
	volatile ratomic_t v; r_atomic_set(&v, base);
	if (r_atomic_get(&v) != base) viol("atomic-set-get", "value not read back");
	if (kind == 0) { // tickets: every value handed out exactly once, before the addition
		V<V<ratomic_t>> got(n); ratomic_t d = (ratomic_t)r.r(1, 3);
		par(n, seed, [&](int me, Rng &q) { for (int i = 0; i < iters; i++) { got[me].push_back(r_atomic_add(&v, d)); if (q.p(10)) nap(q); } });
		V<uint64_t> all; for (auto &g : got) for (auto x : g) all.push_back((uint64_t)(uint32_t)((uint32_t)x - (uint32_t)base));
		std::sort(all.begin(), all.end());
		for (size_t i = 0; i < all.size(); i++) if (all[i] != (uint32_t)(i * (uint32_t)d)) { viol("atomic-add", fmt("ticket %zu is %llu, expected %zu", i, (unsigned long long)all[i], i * (size_t)d)); break; }
		for (auto &g : got) for (size_t i = 1; i < g.size(); i++) if ((uint32_t)g[i] - (uint32_t)base <= (uint32_t)g[i - 1] - (uint32_t)base) { viol("atomic-add-order", "tickets of one thread not increasing"); break; }
	} else if (kind == 1) {
		std::atomic<long> sum{0};
		par(n, seed, [&](int, Rng &q) { for (int i = 0; i < iters; i++) { long d = q.r(-9, 9); sum += d; if (d >= 0) r_atomic_add(&v, (ratomic_t)d); else r_atomic_sub(&v, (ratomic_t)-d); } });
		if ((uint32_t)r_atomic_get(&v) != (uint32_t)((uint32_t)base + (uint32_t)(long)sum)) viol("atomic-sum", fmt("total off by %d", (int)((uint32_t)r_atomic_get(&v) - (uint32_t)base - (uint32_t)(long)sum)));
		ratomic_t before = r_atomic_get(&v);
		if (r_atomic_sub(&v, 5) != before || (uint32_t)r_atomic_get(&v) != (uint32_t)before - 5) viol("atomic-sub-result", "sub does not return the previous value");
	} else if (kind == 2) { // exchange passes unique tokens: each comes back exactly once
		V<V<ratomic_t>> got(n); r_atomic_set(&v, 0);
		par(n, seed, [&](int me, Rng &q) { for (int i = 0; i < iters; i++) { got[me].push_back(r_atomic_exchange(&v, (ratomic_t)(1 + me * iters + i))); if (q.p(10)) nap(q); } });
		V<ratomic_t> all; for (auto &g : got) for (auto x : g) all.push_back(x);
		all.push_back(r_atomic_get(&v));
		std::sort(all.begin(), all.end());
		for (size_t i = 0; i < all.size(); i++) if (all[i] != (ratomic_t)i) { viol("atomic-exchange", fmt("token %zu lost or duplicated", i)); break; }
	} else if (kind == 3) { // compare-and-exchange counter, and its verdict is truthful
		r_atomic_set(&v, 0); std::atomic<long> ok{0}, fail{0};
		par(n, seed, [&](int, Rng &q) { for (int i = 0; i < iters; i++) for (;;) { ratomic_t o = r_atomic_get(&v); if (q.p(5)) nap(q); if (r_atomic_compare_and_exchange(&v, o, o + 1)) { ok++; break; } fail++; } });
		if (r_atomic_get(&v) != (ratomic_t)(n * iters) || ok != (long)n * iters) viol("atomic-cas", fmt("value %ld, successes %ld, expected %ld", (long)r_atomic_get(&v), (long)ok, (long)n * iters));
		if (r_atomic_compare_and_exchange(&v, -7, 3) || r_atomic_get(&v) != (ratomic_t)(n * iters)) viol("atomic-cas-false", "a failing compare-and-exchange succeeded or wrote");
		feat("cas_failures", (uint64_t)fail);
	} else { // publication: data written before a set is visible after the get that sees it
		struct Cell { long a[4]; }; V<Cell> cells(iters); r_atomic_set(&v, 0); std::atomic<long> bad{0};
		par(n, seed, [&](int me, Rng &q) {
			if (me == 0) { for (int i = 0; i < iters; i++) { for (int k = 0; k < 4; k++) cells[i].a[k] = i * 7 + k; r_atomic_set(&v, i + 1); if (q.p(20)) nap(q); } }
			else { long seen = 0; while (seen < iters) { ratomic_t x = r_atomic_get(&v); if (x < seen) bad++; for (long i = seen; i < x; i++) for (int k = 0; k < 4; k++) if (cells[i].a[k] != i * 7 + k) bad++; seen = x; sched_yield(); } }
		});
		if (bad) viol("atomic-publication", fmt("%ld stale reads", (long)bad));
	}
	feat(fmt("atomic_kind%d_ops", kind), (uint64_t)n * iters); distinct(hmix(hmix(2, kind), hmix(n, iters)));
}
static std::atomic<long> g_destroyed;
struct Payload { rref_t ref; long data[4]; };
static void pay_cleanup(robject_t *o) { Payload *p = (Payload *)o; long s = 0; for (int i = 0; i < 4; i++) s += p->data[i]; g_destroyed += 1 + (s != 10 ? 1000 : 0); r_ref_cleanup(o); }
static void ref_case(Rng &r) {
	int n = nthreads(r), iters = (int)r.r(10, 120); uint64_t seed = r.next(); int extra = (int)r.u(3);
	crumb(fmt("refs %d threads %d iterations", n, iters));
	g_destroyed = 0;
	Payload *p = (Payload *)r_object_create(sizeof(Payload));
	for (int i = 0; i < 4; i++) p->data[i] = i + 1;
	r_ref_init((robject_t *)p, R_OBJECT_REF, pay_cleanup, r_ref_copy, (ruint32)(n + extra), RREF_TYPE_SHARED);
	std::atomic<long> zeros{0}, bad{0};
	par(n, seed, [&](int, Rng &q) {   // each thread owns one reference on entry and drops it on exit
		int mine = 1;
		for (int i = 0; i < iters; i++) {
			int op = (int)q.u(3);
			if (op == 0) { if (r_ref_inc(&p->ref) < (ruint32)mine + 1) bad++; mine++; }
			else if (op == 1 && mine > 1) { if (r_ref_dec(&p->ref) < (ruint32)mine - 1) bad++; mine--; }
			else if (r_ref_get(&p->ref) < (ruint32)mine) bad++;
			if (q.p(5)) nap(q);
			if (g_destroyed) bad++;
		}
		while (mine-- > 0) { nap(q); if (r_ref_dec(&p->ref) == 0) zeros++; }
	});
	if (extra) {
		if (zeros || g_destroyed || r_ref_get(&p->ref) != (ruint32)extra) { viol("ref-count", fmt("%u references left, expected %d; destroyed %ld", g_destroyed ? 0 : r_ref_get(&p->ref), extra, (long)g_destroyed)); return; }
		for (int i = extra - 1; i >= 0; i--) if (r_ref_dec(&p->ref) != (ruint32)i) { viol("ref-dec", "wrong remaining count"); return; }
		if (g_destroyed != 1) viol("ref-destroy", fmt("destroyed %ld times", (long)g_destroyed));
	} else if (zeros != 1 || g_destroyed != 1 || bad) viol("ref-destroy", fmt("reached zero %ld times, destroyed %ld times, %ld wrong counts", (long)zeros, (long)g_destroyed, (long)bad));
	rref_type_t ty = r.p(50) ? RREF_TYPE_COW : RREF_TYPE_SHARED;
	rref_t *x = r_ref_create(ty);
	if (r_ref_get(x) != 1 || r_ref_typeget(x) != ty) viol("ref-create", "new reference has the wrong count or type");
	rref_t *y = (rref_t *)r_ref_copy(&x->obj);
	if (r_ref_get(y) != 1 || r_ref_typeget(y) != ty) viol("ref-copy", "copied reference has the wrong count or type");
	r_ref_dec(x); r_ref_dec(y);
	feat("ref_ops", (uint64_t)n * iters); distinct(hmix(hmix(3, n), iters));
}
#ifdef R_DEBUG_MEMALLOC
static void mem_case(Rng &r) {
	int n = nthreads(r), iters = (int)r.r(10, 200); uint64_t seed = r.next();
	crumb(fmt("allocation totals %d threads %d iterations", n, iters));
	size_t base = r_debug_get_allocmem();
	r_debug_reset_maxmem();
	if (r_debug_get_maxmem() != base) viol("mem-peak-reset", "peak after reset is not the current total");
	void *one = r_malloc(100); size_t over = r_debug_get_allocmem() - base - 100;   // bookkeeping per block
	if (over > 64) viol("mem-total", fmt("total rose by %zu for 100 bytes", over + 100));
	r_free(one);
	if (r_debug_get_allocmem() != base) viol("mem-total", "total not restored by free");
	struct Blk { unsigned char *p; size_t n; unsigned char tag; bool cal; };
	V<V<Blk>> held(n); std::atomic<long> bad{0};
	par(n, seed, [&](int me, Rng &q) {
		V<Blk> &h = held[me];
		auto ok = [&](Blk &b) { for (size_t i = 0; i < b.n; i++) if (b.p[i] != b.tag) { bad++; return; } };
		for (int i = 0; i < iters; i++) {
			int op = (int)q.u(5); unsigned char tag = (unsigned char)q.r(1, 255); size_t sz = (size_t)q.u(q.p(5) ? 5000 : 60);
			if (op <= 1) { Blk b{(unsigned char *)(op ? r_malloc(sz) : r_zmalloc(sz)), sz, tag, false}; if (!op) for (size_t k = 0; k < sz; k++) if (b.p[k]) bad++; memset(b.p, tag, sz); h.push_back(b); }
			else if (op == 2 && !h.empty()) { size_t k = q.u(h.size()); if (h[k].cal) continue; ok(h[k]); size_t keep = std::min(sz, h[k].n); h[k].p = (unsigned char *)r_realloc(h[k].p, sz); for (size_t j = 0; j < keep; j++) if (h[k].p[j] != h[k].tag) { bad++; break; } h[k].n = sz; h[k].tag = tag; memset(h[k].p, tag, sz); }
			else if (op == 3 && !h.empty()) { size_t k = q.u(h.size()); ok(h[k]); r_free(h[k].p); h.erase(h.begin() + k); }
			else if (op == 4 && q.p(30)) { size_t m = q.u(6), z = q.u(20); Blk b{(unsigned char *)r_calloc(m, z), m * z, tag, true}; for (size_t k = 0; k < b.n; k++) if (b.p[k]) bad++; memset(b.p, tag, b.n); h.push_back(b); }
			if (q.p(4)) nap(q);
		}
	});
	if (bad) viol("mem-content", fmt("%ld blocks changed behind their owner's back", (long)bad));
	size_t want = 0, cals = 0, calbytes = 0, blocks = 0;
	for (auto &h : held) for (auto &b : h) { blocks++; if (b.cal) { cals++; calbytes += b.n; } else want += b.n + over; }
	size_t total = r_debug_get_allocmem() - base;
	if (!cals ? total != want : (total < want + calbytes || total > want + calbytes + cals * 256)) viol("mem-total", fmt("total %zu with %zu blocks, expected %zu (+%zu in %zu zeroed arrays)", total, blocks, want, calbytes, cals));
	if (r_debug_get_maxmem() < r_debug_get_allocmem()) viol("mem-peak", "peak below the current total");
	for (auto &h : held) for (auto &b : h) r_free(b.p);
	if (r_debug_get_allocmem() != base) viol("mem-total", fmt("%ld bytes unaccounted after everything was freed", (long)(r_debug_get_allocmem() - base)));
	size_t pk = r_debug_get_maxmem();
	void *big = r_malloc(pk - base + 1000);
	if (r_debug_get_maxmem() < pk + 1000) viol("mem-peak", "peak not raised by a larger total");
	r_free(big);
	if (r_debug_get_maxmem() < pk + 1000) viol("mem-peak", "peak lowered by a free");
	r_free(NULL); void *z = r_realloc(NULL, 10); r_free(z);
	if (r_debug_get_allocmem() != base) viol("mem-null", "free(NULL) or realloc(NULL) changed the total");
	feat("alloc_ops", (uint64_t)n * iters); distinct(hmix(hmix(4, n), iters));
}
#endif
static void L04(Rng &r) {
#ifdef R_DEBUG_MEMALLOC
	int k = (int)r.u(10);
	if (k < 8) mem_case(r); else ref_case(r);
#else
	int k = (int)r.u(3);
	if (k == 0) spin_case(r); else if (k == 1) atomic_case(r); else ref_case(r);
#endif
}
bool select_property(const S &p) { g_leakcheck = false; if (p == "L04") { g_fn = L04; return true; } return false; }
