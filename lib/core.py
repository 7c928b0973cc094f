"""Builds the code under test from /repo's working tree, runs monitored workloads, judges and records them."""
import os, sys, subprocess, hashlib, json, glob, re, time, fcntl, struct, shutil, tempfile, mmap
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RPATK_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 4)
DEFS = ["-DLINUX"]
INC = ["-I" + REPO, "-I" + REPO + "/arch/unix"]
# Undefined behaviour that can bite here.  Left out on purpose because the code base uses the idiom
# harmlessly: unaligned 16-bit reads, the offsetof-by-null-pointer macro, shifting negative values,
# memcpy(x, NULL, 0), double-to-integer casts out of range.
UB = "signed-integer-overflow,integer-divide-by-zero,shift-exponent,bounds,unreachable,return,vla-bound,bool"
VARIANTS = {
    # release allocator under ASan/UBSan; every report is fatal
    "asan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address," + UB,
                 "-fno-sanitize-recover=all", "-w"]),
    "tsan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g", "-fsanitize=thread", "-w"]),
    # the project's own allocation accounting, raced
    "tsandbg": dict(cc="clang", cxx="clang++", flags=["-O1", "-g", "-fsanitize=thread", "-DR_DEBUG_MEMALLOC", "-w"]),
    "asandbg": dict(cc="clang", cxx="clang++", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address," + UB,
                 "-fno-sanitize-recover=all", "-DR_DEBUG_MEMALLOC", "-w"]),
    "opt": dict(cc="gcc", cxx="g++", flags=["-O2", "-g", "-w"]),
    "msan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-w"]),
}
SANENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:"
                    "detect_stack_use_after_return=0:handle_abort=1:strict_string_checks=0:malloc_context_size=12:quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:report_signal_unsafe=0:history_size=4",
    "MSAN_OPTIONS": "exitcode=98:halt_on_error=1",
    "LC_ALL": "C.UTF-8",
}
LIBDIRS = ["rlib", "rex", "rvm", "rpa"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def _hdrhash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/**/*.h", recursive=True)):
        if "/googletest/" in f or "/build/" in f or "/_build/" in f:
            continue
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


_HH = None


def hdrhash():
    global _HH
    if _HH is None:
        _HH = _hdrhash()
    return _HH


class Builder:
    def __init__(self, variant):
        self.v = variant
        self.c = VARIANTS[variant]
        self.dir = os.path.join(BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)

    def obj(self, src, extra=(), deps=()):
        h = hashlib.sha256()
        h.update(hdrhash().encode()); h.update(open(src, "rb").read())
        h.update(repr((self.c, list(extra), src)).encode())
        for d in deps:
            h.update(open(d, "rb").read())
        out = os.path.join(self.dir, os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
        if os.path.exists(out):
            return out
        cxx = src.endswith((".cpp", ".cc"))
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [self.c["cxx"] if cxx else self.c["cc"], "-c"] + (["-std=gnu++17"] if cxx else []) + self.c["flags"] + DEFS + list(extra) + INC + [src, "-o", tmp]
        r = sh(cmd)
        if r.returncode:
            raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, out)
        return out

    def objs(self, srcs, extra=(), deps=()):
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda s: self.obj(s, extra, deps), srcs))

    def lib(self, dirs=LIBDIRS):
        srcs = []
        for d in dirs:
            srcs += sorted(glob.glob("%s/%s/*.c" % (REPO, d)))
        return self.objs(srcs)

    def link(self, name, objs, libs=("-lm", "-lpthread"), cxx=True):
        h = hashlib.sha256(repr((objs, libs, self.c)).encode()).hexdigest()[:24]
        out = os.path.join(self.dir, name + "." + h)
        if os.path.exists(out):
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [self.c["cxx"] if cxx else self.c["cc"]] + self.c["flags"] + list(objs) + list(libs) + ["-o", tmp]
        r = sh(cmd)
        if r.returncode:
            raise BuildError("link failed: %s\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, out)
        return out

    def harness(self, src, dirs=LIBDIRS, extra=(), more=(), libs=("-lm", "-lpthread")):
        p = os.path.join(VERIF, "harness", src)
        deps = sorted(glob.glob(VERIF + "/harness/*.h"))
        with ThreadPoolExecutor(2) as ex:
            fo = ex.submit(self.obj, p, ["-I" + VERIF + "/harness"] + list(extra), deps)
            fl = ex.submit(self.lib, dirs)
            return self.link(os.path.splitext(src)[0], [fo.result()] + fl.result() + list(more), libs)

    def tool(self, name, dirs, libdirs=LIBDIRS, extra=(), skip=(), libs=("-lm",), cxx=False):
        srcs = []
        for d in dirs:
            srcs += [f for f in sorted(glob.glob("%s/%s/*.c" % (REPO, d))) if os.path.basename(f) not in skip]
        return self.link(name, self.objs(srcs, extra) + self.lib(libdirs), libs, cxx)


def rexcc(b):
    return tool(b, "rexcc")


def tool(b, name):
    """One of the command line tools (rexcc, rexgrep, rpagrep) from the current tree."""
    dirs = [name, name + "/unix"]
    return b.tool(name, dirs, extra=["-I%s/%s" % (REPO, d) for d in dirs] + ["-I%s/%s" % (REPO, d) for d in LIBDIRS], libs=("-lm", "-lpthread"))


def rexjson_objs(b, rpc=False):
    """The JSON library, its automaton generated by the generator of the same tree."""
    gen = rexcc(Builder("asan"))
    spec = REPO + "/rexjson/rexjsondfa.rexcc"
    h = hashlib.sha256(gen.encode() + open(spec, "rb").read()).hexdigest()[:16]
    d = os.path.join(BUILD, "gen", h)
    out = os.path.join(d, "rexjsondfa.h")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        env = dict(os.environ); env.update(SANENV)
        r = sh([gen, spec, "-o", tmp], env=env, timeout=120)
        if r.returncode:
            raise BuildError("rexcc failed on rexjsondfa.rexcc\n" + r.stdout.decode(errors="replace")[-3000:])
        os.rename(tmp, out)
    ex = ["-I" + d, "-I" + REPO + "/rexjson"]
    srcs = [REPO + "/rexjson/rexjson++.cpp", REPO + "/rexjson/rexjson.c"]
    if rpc:
        srcs.append(REPO + "/rexjsonrpc/property.cpp")
    return b.objs(srcs, ex)


def json_harness(b):
    return b.harness("json.cpp", dirs=[], more=rexjson_objs(b))


def rpc_harness(b):
    return b.harness("rpc.cpp", dirs=[], extra=["-I" + REPO + "/rexjson"], more=rexjson_objs(b, True))


def tools_harness(b, name, src="tools.cpp", dirs=("rlib",)):
    """The driver of a command line tool; the tool itself is built with sanitizers from the current tree,
    once as released and once with the project's own allocation accounting (its default build)."""
    with ThreadPoolExecutor(2) as ex:
        rel, dbg = ex.map(lambda v: tool(Builder(v), name), ("asan", "asandbg"))
    ex = ['-D%s_BIN="%s"' % (name.upper(), rel), '-D%s_DBG="%s"' % (name.upper(), dbg), '-DREPO_DIR="%s"' % REPO]
    return b.harness(src, dirs=list(dirs), extra=ex, libs=("-lm", "-lpthread", "-ldl"))


def rexcc_harness(b):
    return tools_harness(b, "rexcc")


def rexgrep_harness(b):
    return tools_harness(b, "rexgrep")


def rpagrep_harness(b):
    return tools_harness(b, "rpagrep", "pgrep.cpp")


def prune():
    """Keep the build cache small: drop objects not used for two days, or the oldest beyond 1.5 GB."""
    fs = []
    for root, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(root, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            fs.append((st.st_mtime, st.st_size, p))
    fs.sort(reverse=True)
    tot = 0
    for m, s, p in fs:
        tot += s
        if tot > 1500 << 20 or time.time() - m > 2 * 86400:
            try:
                os.unlink(p)
            except OSError:
                pass


class Result:
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.ndist = 0
        self.feat = {}
        self.samples = []
        self.viols = []      # dicts: sig, idx, msg
        self.notes = []

    def merge(self, o):
        self.evals += o.evals
        self.distinct |= o.distinct
        for k, v in o.feat.items():
            self.feat[k] = self.feat.get(k, 0) + v
        self.samples += o.samples
        self.viols += o.viols
        self.notes += o.notes


def _crash_sig(err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(.*)", err)
    if m:
        fn = re.search(r" in (\w+)", m.group(3))
        return "%s:%s:%s" % (m.group(1), m.group(2), fn.group(1) if fn else "")
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "UBSan:" + m.group(1)[:80]
    m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(", err)
    if m:
        return "ThreadSanitizer:" + m.group(1)
    if "HANG:" in err:
        return "hang"
    if "hard rss limit" in err:
        return "memory-exhausted"
    if "Assertion" in err:
        return "assertion:" + (re.search(r"Assertion.*", err).group(0)[:100])
    return "crash"


def run_worker(binary, prop, seed, start, stride, count, tier, deadline, opts, wid, tmpdir, maxcrash=3):
    """Run one worker over its slice of cases; restart it after a crash so one crash does not hide others."""
    res = Result()
    done = 0
    crashes = 0
    t_end = time.time() + deadline
    env = dict(os.environ); env.update(SANENV)
    while done < count and time.time() < t_end and crashes < maxcrash:
        out = os.path.join(tmpdir, "o%s_%d" % (wid, crashes)); cr = os.path.join(tmpdir, "c%s_%d" % (wid, crashes)); er = os.path.join(tmpdir, "e%s_%d" % (wid, crashes))
        s0 = start + done * stride
        cmd = [binary, prop, str(seed), str(s0), str(stride), str(count - done), tier, out, cr, "%.1f" % max(1, t_end - time.time())] + ["%s=%s" % kv for kv in opts.items()]
        with open(er, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=tmpdir)
            try:
                rc = p.wait(timeout=max(10, t_end - time.time()) + 60)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = -999
        err = open(er, "rb").read().decode(errors="replace")
        finished = False
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    if line.startswith("V "):
                        res.viols.append(json.loads(line[2:]))
                    elif line.startswith("S "):
                        o = json.loads(line[2:]); finished = True
                        res.evals += o["evals"]
                        for k, v in o["feat"].items():
                            res.feat[k] = res.feat.get(k, 0) + v
                        res.samples += o["samples"]
                except ValueError:
                    pass
            if os.path.exists(out + ".d"):
                d = open(out + ".d", "rb").read()
                res.distinct |= set(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
        if finished and rc in (0, 3):
            return res
        if finished and "ThreadSanitizer" in err:
            res.viols.append(dict(sig=_crash_sig(err), idx=s0, msg=err[:5000]))
            return res
        idx, text = -1, ""
        try:
            c = open(cr, "rb").read()
            idx, dn = struct.unpack("<QQ", c[:16]); text = c[16:].split(b"\0")[0].decode("latin1")
        except Exception:
            pass
        if rc == -999:
            res.notes.append("worker timed out at case %d (inconclusive)" % idx)
            return res
        if rc == -9 or (rc in (1, 2) and not finished and idx <= 0 and not err.strip()):
            res.notes.append("worker killed (rc=%s) at case %d (inconclusive)" % (rc, idx))
            return res
        crashes += 1
        res.viols.append(dict(sig=_crash_sig(err), idx=idx, msg="rc=%s case: %s\n%s" % (rc, text[:3000], err[:6000]), crash=True))
        done = (idx - start) // stride + 1 if idx >= start else count
        res.evals += max(0, (idx - s0) // stride)
    return res


def run_cases(binary, prop, seed, count, tier, deadline=240, opts=None, workers=None, first=0):
    workers = workers or JOBS
    workers = max(1, min(workers, count))
    tmpdir = tempfile.mkdtemp(prefix="w_", dir=scratch())
    total = Result()
    try:
        with ThreadPoolExecutor(workers) as ex:
            futs = []
            for w in range(workers):
                n = (count - w + workers - 1) // workers
                futs.append(ex.submit(run_worker, binary, prop, seed, first + w, workers, n, tier, deadline, opts or {}, "%d" % w, tmpdir))
            for f in futs:
                total.merge(f.result())
        # A hang is believed only if the case, alone and with a much larger allowance, hangs again.
        hangs = [v for v in total.viols if v["sig"] == "hang" and v["idx"] >= 0]
        keep = [v for v in total.viols if not (v["sig"] == "hang" and v["idx"] >= 0)]

        def again(v):
            o = dict(opts or {}); o["cpu"] = "90"
            r = run_worker(binary, prop, seed, v["idx"], 1, 1, tier, 200, o, "h%d" % v["idx"], tmpdir, maxcrash=1)
            return any(x["sig"] == "hang" for x in r.viols)
        for i in range(0, len(hangs), 4):
            with ThreadPoolExecutor(4) as ex:
                got = list(ex.map(again, hangs[i:i + 4]))
            keep += [v for v, h in zip(hangs[i:i + 4], got) if h]
            total.notes += ["case %d slow once, not reproduced" % v["idx"] for v, h in zip(hangs[i:i + 4], got) if not h]
            if any(got):
                if len(hangs) > i + 4:
                    total.notes.append("%d further cases ran out of time and were not tried again" % (len(hangs) - i - 4))
                break
        total.viols = keep
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    return total


def build_part(p):
    b = Builder(p.get("variant", "asan"))
    if "build" in p:
        return p["build"](b)
    return b.harness(p["src"], p.get("dirs", LIBDIRS))


def scratch():
    d = os.path.join(BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def finish(prop, tier, seed, res, rule, t0, level="exploration", assumptions=(), replay_cmd="", extra=None):
    known = [k for k in known_findings()["findings"] if k["property"] == prop]
    hit, new = {}, []
    for v in res.viols:
        for k in known:
            if re.search(k["sig"], v["sig"]) and re.search(k["match"], v["msg"], re.S):
                hit.setdefault(k["id"], v)
                break
        else:
            new.append(v)
    for k in known:
        # listed findings are printed whether or not this run's sample happened to reach them again
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["id"] in hit else " (not re-observed in this run)"))
    cov = dict(evaluations=res.evals, distinct_nontrivial=max(len(res.distinct), res.ndist), rule=rule,
               samples=res.samples[:6] or ["(none)"], observed={k: res.feat[k] for k in sorted(res.feat)})
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(assumptions) + res.notes, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: %d cases, %d distinct, %d violation(s), %.1fs" % (prop, tier, res.evals, cov["distinct_nontrivial"], len(new), time.time() - t0))
    for n in res.notes:
        print("note: " + n)
    if new:
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in new:
            if v["sig"] in seen:
                continue
            seen.add(v["sig"])
            path = os.path.join(rd, "%s-%s-%d.txt" % (prop, hashlib.sha256(v["sig"].encode()).hexdigest()[:8], v["idx"]))
            with open(path, "w") as f:
                f.write("property %s\nsignature %s\nseed %d tier %s case %d\nreplay: %s\n\n%s\n" % (
                    prop, v["sig"], seed, tier, v["idx"], replay_cmd.format(idx=v["idx"], part=v.get("part", 0)), v["msg"]))
            print("  [%s] case %d: %s" % (v["sig"], v["idx"], v["msg"][:300].replace("\n", " | ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
