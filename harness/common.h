// Shared runtime for the monitors: seeded cases, violation records, observation
// counters, a crash/hang breadcrumb, and a live-allocation monitor.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <atomic>

typedef std::string S;
template <class T> using V = std::vector<T>;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t u(uint64_t n) { return n ? next() % n : 0; }                 // [0,n)
	long r(long a, long b) { return a + (long)u((uint64_t)(b - a + 1)); } // [a,b]
	bool p(int pct) { return (int)u(100) < pct; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[u(v.size())]; }
	template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[u(N)]; }
	char pick(const std::string &s) { return s[u(s.size())]; }
};

static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static inline uint64_t hbytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
	return h;
}
static inline uint64_t hstr(const S &s, uint64_t h = 1469598103934665603ull) { return hbytes(s.data(), s.size(), h); }

static inline S fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static inline S fmt(const char *f, ...) {
	va_list ap; va_start(ap, f);
	char *p = NULL; int n = vasprintf(&p, f, ap);
	va_end(ap);
	S s = n >= 0 ? S(p, n) : S();
	free(p);
	return s;
}
static inline S show(const S &s, size_t max = 400) {
	S o = "\"";
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c >= 32 && c < 127) o += c;
		else o += fmt("\\x%02x", c);
	}
	if (s.size() > max) o += fmt("...(%zu bytes)", s.size());
	return o + "\"";
}
static inline S jesc(const S &s) {
	S o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
		else o += c;
	}
	return o;
}

// Allocations made by the monitor's own bookkeeping are not counted.
static thread_local int t_nomon;
struct NoMon { NoMon() { t_nomon++; } ~NoMon() { t_nomon--; } };
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_CXX
#endif
#endif
#ifndef MON_CXX
// The code under test is C: what C++ allocates here is the monitor's own.
#include <new>
void *operator new(size_t n) { t_nomon++; void *p = malloc(n ? n : 1); t_nomon--; if (!p) abort(); return p; }
void operator delete(void *p) noexcept { t_nomon++; free(p); t_nomon--; }
void operator delete(void *p, size_t) noexcept { t_nomon++; free(p); t_nomon--; }
#endif

// ---------------------------------------------------------------- state
struct Crumb { volatile uint64_t idx; volatile uint64_t done; char text[1 << 15]; };
static Crumb *g_crumb;
static FILE *g_out;
static uint64_t g_evals, g_viols;
static std::unordered_set<uint64_t> g_distinct;
static std::map<S, uint64_t> g_feat;
static std::vector<S> g_samples;
static bool g_stop, g_replay;
static uint64_t g_seed, g_idx;
static S g_tier = "quick";
static S g_prop;
static std::map<S, S> g_opt;

static inline void crumb(const S &s) {
	if (!g_crumb) return;
	size_t n = std::min(s.size(), sizeof(g_crumb->text) - 1);
	memcpy(g_crumb->text, s.data(), n);
	g_crumb->text[n] = 0;
	if (g_replay) fprintf(stderr, "case: %s\n", s.c_str());
}
static inline void feat(const char *k, uint64_t n = 1) { NoMon nm; g_feat[k] += n; }
static inline void feat(const S &k, uint64_t n = 1) { NoMon nm; g_feat[S(k.data(), k.size())] += n; }
static inline void distinct(uint64_t h) { NoMon nm; if (g_distinct.size() < 8000000) g_distinct.insert(h); }
static inline void sample(const S &s) { NoMon nm; if (g_samples.size() < 3) g_samples.push_back(s.substr(0, 600)); }
static bool g_caseviol;
// A broken property: sig is a short stable class, msg the concrete witness.
static inline void viol(const S &sig, const S &msg) {
	NoMon nm;
	g_viols++;
	g_caseviol = true;
	fprintf(g_out, "V {\"sig\":\"%s\",\"idx\":%llu,\"msg\":\"%s\"}\n", jesc(sig).c_str(),
	        (unsigned long long)g_idx, jesc(msg.substr(0, 6000)).c_str());
	fflush(g_out);
	if (g_replay) fprintf(stderr, "VIOL %s: %s\n", sig.c_str(), msg.c_str());
	if (g_viols >= 8) g_stop = true;
}
#define CHECK(c, sig, ...) do { if (!(c)) { viol(sig, fmt(__VA_ARGS__)); return; } } while (0)
#define CHECKB(c, sig, ...) do { if (!(c)) { viol(sig, fmt(__VA_ARGS__)); return false; } } while (0)

// ---------------------------------------------------------------- live allocations
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
static std::atomic<long> g_live_blocks, g_live_bytes, g_allocs;
static void hook_malloc(const volatile void *p, size_t n) { if (p && !t_nomon) { g_live_blocks++; g_allocs++; g_live_bytes += (long)n; } }
static void hook_free(const volatile void *p) { if (p && !t_nomon) { g_live_blocks--; g_live_bytes -= (long)__sanitizer_get_allocated_size(p); } }
static inline void alloc_monitor() { __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free); }
static inline long live_blocks() { return g_live_blocks; }
#else
static inline void alloc_monitor() {}
static inline long live_blocks() { return 0; }
#endif
// ---------------------------------------------------------------- exact-size buffers
// Input handed to the code under test in its own allocation, so that one byte too far is caught.
struct Exact {
	char *p; size_t n;
	explicit Exact(const S &s) : n(s.size()) { p = (char *)malloc(n); memcpy(p, s.data(), n); }
	~Exact() { free(p); }
	Exact(const Exact &) = delete;
	Exact &operator=(const Exact &) = delete;
	const char *b() const { return p; }
	const char *e() const { return p + n; }
};

// ---------------------------------------------------------------- UTF helpers (reference)
typedef std::vector<uint32_t> U32;
static inline void put8(S &o, uint32_t c) {
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += (char)(0xE0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
	else { o += (char)(0xF0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
}
static inline void put16(S &o, uint32_t c) {
	if (c < 0x10000) { o += (char)(c & 255); o += (char)(c >> 8); }
	else { c -= 0x10000; uint32_t a = 0xD800 + (c >> 10), b = 0xDC00 + (c & 0x3ff); o += (char)(a & 255); o += (char)(a >> 8); o += (char)(b & 255); o += (char)(b >> 8); }
}
static inline S to8(const U32 &u) { S o; for (uint32_t c : u) put8(o, c); return o; }
static inline S to16(const U32 &u) { S o; for (uint32_t c : u) put16(o, c); return o; }

// ---------------------------------------------------------------- driver
typedef std::function<void(Rng &)> CaseFn;
static CaseFn g_fn;
static uint64_t g_case_cpu = 30;
static bool g_leakcheck = true;
static void on_prof(int) {
	static const char m[] = "HANG: case exceeded its CPU limit\n";
	ssize_t w = write(2, m, sizeof(m) - 1); (void)w;
	_exit(97);
}
static inline void arm(uint64_t sec) {
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, NULL);
}
static inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Each harness implements this: choose g_fn for a property id.
bool select_property(const S &prop);
void before_exit() __attribute__((weak));

int main(int argc, char **argv) {
	// usage: harness PROP seed start stride count tier out crumb deadline [k=v...]
	if (argc < 10) { fprintf(stderr, "usage: %s PROP seed start stride count tier out crumb deadline\n", argv[0]); return 2; }
	g_prop = argv[1]; g_seed = strtoull(argv[2], 0, 10);
	uint64_t start = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
	g_tier = argv[6];
	g_out = fopen(argv[7], "w");
	if (!g_out) { perror("out"); return 2; }
	int cf = open(argv[8], O_RDWR | O_CREAT, 0644);
	if (cf < 0 || ftruncate(cf, sizeof(Crumb))) { perror("crumb"); return 2; }
	g_crumb = (Crumb *)mmap(0, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, cf, 0);
	double deadline = atof(argv[9]), t0 = now();
	for (int i = 10; i < argc; i++) {
		S a = argv[i]; size_t e = a.find('=');
		if (e != S::npos) g_opt[a.substr(0, e)] = a.substr(e + 1);
	}
	g_replay = g_opt.count("replay");
	if (g_opt.count("cpu")) g_case_cpu = strtoull(g_opt["cpu"].c_str(), 0, 10);
	signal(SIGPROF, on_prof);
	if (!select_property(g_prop)) { fprintf(stderr, "unknown property %s\n", argv[1]); return 2; }
	alloc_monitor();
	for (uint64_t i = 0; i < count && !g_stop; i++) {
		g_idx = start + i * stride;
		if (now() - t0 > deadline) { g_feat["deadline_reached"]++; break; }
		g_crumb->text[0] = 0;
		g_crumb->idx = g_idx;
		Rng rng(g_seed * 0x100000001b3ull ^ hstr(g_prop) ^ (g_idx * 0x2545F4914F6CDD1Dull));
		g_caseviol = false;
		arm(g_case_cpu);
		Rng again = rng;
		long b0 = live_blocks();
		g_fn(rng);
		if (g_leakcheck && !g_caseviol && live_blocks() != b0) {
			// lazily created process-wide state is not a leak: it does not recur
			b0 = live_blocks();
			g_fn(again);
			if (!g_caseviol && live_blocks() != b0)
				viol("leak", fmt("%ld block(s) not returned after everything was destroyed; case: %s", live_blocks() - b0, g_crumb->text));
		}
		g_evals++;
		if (g_crumb->text[0]) sample(S((const char *)g_crumb->text));
		g_crumb->done = g_idx + 1;
	}
	arm(0);
	if (before_exit) before_exit();
	fprintf(g_out, "S {\"evals\":%llu,\"viols\":%llu,\"feat\":{", (unsigned long long)g_evals, (unsigned long long)g_viols);
	bool first = true;
	for (auto &k : g_feat) { fprintf(g_out, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
	fprintf(g_out, "},\"samples\":[");
	for (size_t i = 0; i < g_samples.size(); i++) fprintf(g_out, "%s\"%s\"", i ? "," : "", jesc(g_samples[i]).c_str());
	fprintf(g_out, "]}\n");
	// distinct hashes, binary, after the text part
	S dpath = S(argv[7]) + ".d";
	FILE *d = fopen(dpath.c_str(), "wb");
	if (d) { for (uint64_t h : g_distinct) fwrite(&h, 8, 1, d); fclose(d); }
	fclose(g_out);
	return g_viols ? 3 : 0;
}
