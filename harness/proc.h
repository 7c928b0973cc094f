// Runs one of the command line tools (built with sanitizers) in the worker's scratch directory.
#pragma once
#include "common.h"
#include <errno.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dlfcn.h>

struct Run { S out, err; int rc = -1, sig = 0; S cmd; };

static inline bool slurp(const S &path, S &o) {
	FILE *f = fopen(path.c_str(), "rb");
	o.clear();
	if (!f) return false;
	char b[65536]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
	fclose(f);
	return true;
}
static inline void spit(const S &path, const S &c) {
	FILE *f = fopen(path.c_str(), "wb");
	if (!f) { perror(path.c_str()); _exit(2); }
	fwrite(c.data(), 1, c.size(), f);
	fclose(f);
}
// A scratch directory of this worker, below its working directory.
static inline S workdir() {
	static S d;
	if (d.empty()) {
		char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) _exit(2);
		d = S(cwd) + fmt("/p%d", (int)getpid());
		mkdir(d.c_str(), 0755);
	}
	return d;
}
static inline S sansig(const S &err) {
	size_t p = err.find("SUMMARY: ");
	if (p != S::npos) {
		S l = err.substr(p + 9, err.find('\n', p) - p - 9), o;
		size_t q = l.find(' ');
		S kind = l.substr(q == S::npos ? 0 : q + 1); kind = kind.substr(0, kind.find(' '));
		size_t in = l.find(" in ");
		o = l.substr(0, l.find(':')) + ":" + kind;
		if (in != S::npos) o += ":" + l.substr(in + 4, l.find(' ', in + 4) - in - 4);
		return o;
	}
	p = err.find("runtime error: ");
	if (p != S::npos) return "UBSan:" + err.substr(p + 15, 60);
	return "tool-crash";
}
// argv[0] is a path. stdin is `in` (a pipe when piped, else a file). Reports crashes, sanitizer reports and hangs.
static inline bool runtool(const V<S> &argv, const S &in, Run &r, const S &dir = workdir(), bool piped = false) {
	S fi = workdir() + "/.in", fo = workdir() + "/.out", fe = workdir() + "/.err";
	r = Run();
	for (auto &a : argv) r.cmd += (r.cmd.empty() ? "" : " ") + (&a == &argv[0] ? a.substr(a.rfind('/') + 1) : show(a, 300));
	int pf[2] = {-1, -1};
	if (piped) { if (pipe(pf)) _exit(2); } else spit(fi, in);
	fflush(NULL);
	pid_t pid = fork();
	if (pid < 0) _exit(2);
	if (!pid) {
		struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, NULL);
		signal(SIGPROF, SIG_DFL); signal(SIGPIPE, SIG_DFL);
		if (chdir(dir.c_str())) _exit(125);
		if (piped) { dup2(pf[0], 0); close(pf[0]); close(pf[1]); }
		else { int f0 = open(fi.c_str(), O_RDONLY); dup2(f0, 0); if (f0 > 2) close(f0); }
		int f1 = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), f2 = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(f1, 1); dup2(f2, 2); close(f1); close(f2);
		struct rlimit rl; rl.rlim_cur = 25; rl.rlim_max = 30; setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &rl);
		rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		alarm(180);
		V<char *> av; for (auto &a : argv) av.push_back((char *)a.c_str());
		av.push_back(NULL);
		execv(av[0], av.data());
		_exit(126);
	}
	if (piped) {
		close(pf[0]);
		signal(SIGPIPE, SIG_IGN);
		size_t o = 0; Rng cut(in.size() + 77);
		while (o < in.size()) { size_t k = std::min(in.size() - o, (size_t)(1 + cut.u(3000))); ssize_t w = write(pf[1], in.data() + o, k); if (w <= 0) break; o += w; }
		close(pf[1]);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	slurp(fo, r.out); slurp(fe, r.err);
	if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.rc = WEXITSTATUS(st);
	feat("tool_runs");
	if (r.sig == SIGXCPU || r.sig == SIGALRM) { viol("hang", r.cmd + " did not finish; case: " + g_crumb->text); return false; }
	if (r.sig == SIGKILL) { feat("tool_killed"); return false; }
	if (r.sig || r.rc == 98) { viol(sansig(r.err), fmt("%s: signal %d exit %d\n%s\ncase: ", r.cmd.c_str(), r.sig, r.rc, r.err.substr(0, 3000).c_str()) + g_crumb->text); return false; }
	if (r.rc == 125 || r.rc == 126) { fprintf(stderr, "cannot run %s\n", argv[0].c_str()); _exit(2); }
	return true;
}
