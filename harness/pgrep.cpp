// The grammar grep tool (P10), run as a user runs it and compared with what the grammar defines.
#include "common.h"
#include "peg.h"
#include "proc.h"
enum { RPA_ENCODING_UTF8 = 0, RPA_ENCODING_BYTE = 1, RPA_ENCODING_UTF16LE = 2, RPA_ENCODING_ICASE = 0x100 };
#include "ptext.h"

static const char *tool(Rng &g) { if (g.p(20)) { feat("debug_build_runs"); return RPAGREP_DBG; } return RPAGREP_BIN; }
static S optsof(const V<S> &a) { S o; for (size_t i = 1; i < a.size(); i++) o += " " + show(a[i], 1500); return o; }
static bool permuted(const S &out, V<S> parts) {
	if (parts.size() > 5) return true;
	std::sort(parts.begin(), parts.end());
	do { S o; for (auto &p : parts) o += p; if (o == out) return true; } while (std::next_permutation(parts.begin(), parts.end()));
	return false;
}

// What the tool shows of a piece of text: decoded in the text's encoding, written as UTF-8,
// control characters (tab and line ends excepted) replaced by zero bytes.
static S shown(const S &raw, int enc) {
	U32 u; Text t(raw, (enc & 0xff) == RPA_ENCODING_UTF16LE ? RPA_ENCODING_UTF16LE : RPA_ENCODING_UTF8, u);
	S o;
	for (uint32_t c : u) {
		if ((c < 32 && c != 9 && c != 10 && c != 13) || (c >= 127 && c < 160)) o += '\0';
		else if (c <= 0x10FFFF) put8(o, c);
	}
	return o;
}
enum Mode { SCAN, LINES, MATCH, PARSE, TEXTS, TREE };
struct Case { Grammar gr; int root = 0; V<V<S>> parts; S desc; };
struct Want { S out; V<S> tree; bool matched = false, over = false, aborted = false; int arule = -1; size_t aoff = 0; };

static Want expect(const Case &c, const S &file, Mode mode, int force, bool icase, const S &name) {
	Want w;
	int enc; S data = file;
	bool bom = data.size() >= 2 && data[0] == '\xff' && data[1] == '\xfe';
	if (force == 1) enc = RPA_ENCODING_BYTE;
	else if (force == 2 || bom) { enc = RPA_ENCODING_UTF16LE; if (bom) data = data.substr(2); }
	else enc = RPA_ENCODING_UTF8;
	S head = name.empty() ? "" : name + ":\n";
	auto piece = [&](const S &s) { return shown(s, enc); };
	auto found = [&](const S &s) { if (!w.matched) w.out += head; w.matched = true; w.out += s; };
	if (mode == LINES) {
		size_t unit = enc == RPA_ENCODING_UTF16LE ? 2 : 1;
		for (size_t p = 0; p < data.size();) {
			size_t e = p;
			for (; e < data.size(); e += unit) {
				if (data.size() - e < unit) { e = data.size(); break; }
				if (data[e] == '\n' && (unit == 1 || data[e + 1] == 0)) { e += unit; break; }
			}
			S l = data.substr(p, e - p); p = e;
			U32 u; Text t(l, enc, u); Peg ref(c.gr, u, icase);
			bool hit = false;
			for (size_t q = 0; q < u.size() && !hit; q++) { int m = ref.match(c.root, (int)q); if (ref.over) { w.over = true; return w; } hit = !ref.aborted && m > (int)q; if (ref.aborted) feat("aborts_met"); }
			if (hit) { found(piece(l)); feat("lines_matching"); } else feat("lines_other");
		}
		return w;
	}
	U32 u; Text t(data, enc, u); Peg ref(c.gr, u, icase);
	if (mode == SCAN) {
		for (int q = 0; q < (int)u.size();) {
			int m = ref.match(c.root, q);
			if (ref.over) { w.over = true; return w; }
			if (ref.aborted) feat("aborts_met");
			if (!ref.aborted && m > q) { found(piece(data.substr(t.off[q], t.off[m] - t.off[q])) + "\n"); feat("matches"); q = m; }
			else q++;
		}
		return w;
	}
	int m = ref.match(c.root, 0);
	if (ref.over) { w.over = true; return w; }
	if (ref.aborted) { w.aborted = true; w.arule = ref.arule; w.aoff = t.off[ref.apos]; return w; }
	if (m <= 0) return w;
	w.matched = true;
	if (mode == MATCH) { w.matched = false; found(piece(data.substr(0, t.off[m])) + "\n"); return w; }
	for (auto &e : ref.out) {
		size_t a = t.off[e.at], n = t.off[e.at + e.len] - a;
		const S &nm = c.gr.r[e.rule].name;
		if (mode == TREE) w.tree.push_back((e.end ? "END   " : "START ") + nm);
		else if (e.end && mode == PARSE) w.out += nm + fmt(" (%zu, %zu): ", a, n) + piece(data.substr(a, n)) + "\n";
		else if (e.end) w.out += piece(data.substr(a, n));
		feat("records");
	}
	return w;
}
static S fileparts(Rng &g, const Case &c, V<S> &args) {
	S d = workdir(), desc;
	auto add = [&](const S &s, int i) {
		if (g.p(50)) { args.push_back("-e"); args.push_back(s); desc += " -e"; return true; }
		(void)i; return false;
	};
	(void)add;
	// texts in files are loaded first, so a prefix of the parts may live in files
	size_t k = c.parts[0].size(), nf = g.p(50) ? 0 : g.p(60) ? k : g.u(k + 1);
	V<V<S>> opts;
	for (size_t i = 0; i < k; i++) {
		if (i < nf) { S f = fmt("g%zu", i); spit(d + "/" + f, c.parts[0][i]); args.push_back("-f"); args.push_back(f); feat("grammar_files"); }
		else { args.push_back("-e"); args.push_back(c.parts[0][i]); feat("grammar_args"); }
	}
	return desc;
}
static Case mkcase(Rng &g) {
	Case c;
	Gen gen(g, (int)g.r(1, 5), (g.p(50) ? 1 : 0) | (g.p(50) ? 2 : 0));
	c.gr = gen.grammar();
	S head;
	if (g.p(50)) for (auto &r : c.gr.r) { if (g.p(20)) r.emit = false; if (g.p(20)) r.uid = (uint32_t)g.r(1, 65000); if (g.p(8)) r.abort = true; }
	V<int> o = order_of(g, c.gr.r.size(), g.p(80));
	if (g.p(70)) { o.erase(std::find(o.begin(), o.end(), 0)); o.push_back(0); }
	c.root = o.back();
	c.parts.push_back(parts_of(g, c.gr, (int)g.u(2), o));
	c.desc = "rule " + c.gr.r[c.root].name + " of " + joined(c.parts[0]);
	return c;
}
static S gentext(Rng &g, const Case &c, int as) {
	Sampler sm(g, c.gr);
	U32 u;
	int n = (int)(g.p(8) ? g.r(20, 120) : g.p(30) ? 1 : g.r(1, 8));
	for (int i = 0; i < n; i++) {
		U32 f = sm.text(g.p(75) ? c.root : (int)g.u(c.gr.r.size()), g.p(10) ? 60 : 16);
		u.insert(u.end(), f.begin(), f.end());
		if (g.p(45) && (i + 1 < n || g.p(60))) { if (g.p(15)) u.push_back('\r'); u.push_back('\n'); }
		if (g.p(10)) u.push_back((uint32_t)g.u(32));
		if (g.p(8)) u.push_back((uint32_t)g.r(0x7f, 0x17f));
		// characters at the edges of what one, two, three and four bytes (or one and two units) can hold
		if (g.p(6)) { u.push_back(g.pick({0x7fu, 0x80u, 0x7ffu, 0x800u, 0xfffu, 0x1000u, 0xd7ffu, 0xe000u, 0xfffdu, 0xffffu, 0x10000u, 0x103ffu, 0x10400u, 0x10ffffu, 0x1f600u, 0x40000u, 0xfffffu, 0x100000u, 0x10fc00u})); feat("texts_edge_characters"); }
	}
	if (!u.empty() && g.p(8)) {
		// one character many times over, or everything several times
		if (g.p(60)) { uint32_t c0 = g.pick(u); size_t n = g.r(200, g.p(25) ? 3000 : 700); u.insert(u.begin() + (long)g.u(u.size() + 1), n, c0); }
		else { U32 v = u; size_t n = g.r(200, g.p(25) ? 3000 : 700); while (u.size() < n) u.insert(u.end(), v.begin(), v.end()); }
		feat("texts_long");
	}
	S o = Text(u, as).b;
	if (g.p(15)) {
		int k = (int)g.r(1, 4);
		while (k--) { size_t at = g.u(o.size() + 1); if (g.p(60) || o.empty()) o.insert(at, 1, (char)g.pick({0x80, 0xc3, 0xe2, 0xf0, 0xff, 0xed, 0xa0, 0xd8, 0xdc, 0x0a})); else o.erase(g.u(o.size()), 1); }
		feat("texts_malformed");
	}
	if (g.p(2)) { o = "\xff\xfe"; feat("texts_bom_only"); if (g.p(50)) o += (char)g.u(256); }
	else if (as == RPA_ENCODING_UTF16LE && g.p(60)) o = "\xff\xfe" + o;
	return o;
}
static void refusals(Rng &g) {
	Case c = mkcase(g);
	S d = workdir();
	S all; for (auto &p : c.parts[0]) all += p + "\n";
	spit(d + "/t", "abc\nxyz\n");
	V<S> av = {tool(g)};
	int w = (int)g.u(4); S msg; S text; int line = 0;
	if (w < 2) {
		static const char *bad[] = {"broken ::= (", "broken ::= 'abc", "broken ::= [a", "broken ::= <nope", "broken ::= 'a' )", "broken ::= \"x"};
		S b = g.pick(bad);
		// an open quote or bracket may close in a later rule, so that only the last line is sure to be wrong
		size_t before = all.size();
		text = before ? all + b + "\n" : b + "\n" + all;
		line = before ? 1 + (int)std::count(all.begin(), all.end(), '\n') : 1;
		msg = "Syntax Error"; feat("bad_syntax");
	} else { text = all + "last_rule ::= 'q' <undefined_rule>\n"; msg = "Unresolved Symbol: undefined_rule"; feat("bad_symbol"); }
	if (g.p(50)) { spit(d + "/bad", text); av.insert(av.end(), {"-f", "bad"}); } else av.insert(av.end(), {"-e", text});
	static const char *modes[] = {"-l", "-m", "-p", "-x", "-a", "-i", "-b", "--no-cache"};
	if (g.p(40)) av.push_back(g.pick(modes));
	av.push_back("t");
	crumb("refusal " + show(text, 3000));
	distinct(hstr(text));
	Run r;
	if (!runtool(av, "", r)) return;
	feat("refusals");
	CHECK(r.rc != 0, "bad-accepted", "exit status 0 for %s; printed %s", show(text, 3000).c_str(), show(r.out, 500).c_str());
	CHECK(r.out.find(msg) != S::npos || r.err.find(msg) != S::npos, "no-message", "no message like \"%s\" for %s; printed %s", msg.c_str(), show(text, 3000).c_str(), show(r.out, 500).c_str());
	if (line) {
		int n = 0;
		CHECK(sscanf(r.out.c_str(), "Line: %d,", &n) == 1 && n == line, "wrong-line", "the error is on line %d of %s; printed %s", line, show(text, 3000).c_str(), show(r.out, 500).c_str());
	}
}
static void dumps(Rng &g) {
	Case c = mkcase(g);
	V<S> args; fileparts(g, c, args);
	V<S> av = {tool(g)}; av.insert(av.end(), args.begin(), args.end());
	static const char *kinds[] = {"-L", "--list-rules", "-d", "--dump-code", "--dump-info", "--dump-alias", "--dump-records", "--debug-compile", "--exec-debug", "-h", "-v"};
	S k = g.pick(kinds);
	av.push_back(k);
	if (k == "-d" || k == "--dump-code") av.push_back(g.p(85) ? g.pick(c.gr.r).name : S("nosuchrule"));
	if (g.p(30)) av.push_back("--no-optimizations");
	if (g.p(30)) av.push_back("--no-bitmap");
	// the execution trace of a large grammar runs into hundreds of megabytes
	if (k == "--exec-debug") av = {av[0], "-e", "a ::= 'x'+ | <b>\nb ::= [yz]", k, "-s", g.p(50) ? "aaxxy" : "zz"};
	crumb("dump" + optsof(av));
	Run r;
	if (!runtool(av, "", r)) return;
	feat("dumps");
	if (k == "-L" || k == "--list-rules") for (auto &x : c.gr.r) CHECK(r.out.find(x.name) != S::npos, "list", "the list of rules lacks %s: %s; %s", x.name.c_str(), show(r.out, 1500).c_str(), c.desc.c_str());
}
// The record dump, line by line: number, kind, rule and size of every record.
static bool treeok(const S &out, const V<S> &want, S &why) {
	size_t p = 0, i = 0;
	while (p < out.size()) {
		size_t e = out.find('\n', p); if (e == S::npos) e = out.size();
		S l = out.substr(p, e - p); p = e + 1;
		size_t q = l.find(" ) : ");
		// the text shown at the end of a record may itself span lines
		if (q == S::npos || l.find(": [ s: ") > 12) continue;
		if (i >= want.size()) { why = "an extra record: " + show(l); return false; }
		S rest = q == S::npos ? S() : l.substr(q + 5);
		size_t n = std::min(want[i].size(), (size_t)30);
		if (atol(l.c_str()) != (long)i || rest.compare(0, n, want[i], 0, n)) { why = fmt("record %zu is %s, expected %s", i, show(l).c_str(), want[i].c_str()); return false; }
		i++;
	}
	if (i != want.size()) { why = fmt("%zu records, expected %zu", i, want.size()); return false; }
	return true;
}
static void p10(Rng &g) {
	int k0 = (int)g.u(100);
	if (k0 < 8) { refusals(g); return; }
	if (k0 < 12) { dumps(g); return; }
	Case c = mkcase(g);
	distinct(hstr(c.desc));
	S d = workdir();
	V<S> gargs; fileparts(g, c, gargs);
	for (int k = 0; k < 4; k++) {
		Mode mode = (Mode)g.u(6);
		int as = (int)g.u(10); as = as < 6 ? RPA_ENCODING_UTF8 : as < 8 ? RPA_ENCODING_BYTE : RPA_ENCODING_UTF16LE;
		int force = g.p(75) ? (as == RPA_ENCODING_BYTE ? 1 : as == RPA_ENCODING_UTF16LE ? 2 : 0) : (int)g.u(3);
		bool icase = g.p(25), quiet = g.p(10), stats = g.p(8) && !quiet;
		static const char *ms[] = {"", "-l", "-m", "-p", "-x", "-a"};
		V<S> opt;
		if (mode) opt.push_back(ms[mode]);
		if (force) opt.push_back(force == 1 ? "-b" : "-16");
		if (icase) opt.push_back("-i");
		if (quiet) opt.push_back("-q");
		if (stats) opt.push_back("-t");
		if (g.p(25)) { opt.push_back("--no-optimizations"); feat("switch_optimizations"); }
		if (g.p(25)) { opt.push_back("--no-cache"); feat("switch_cache"); }
		if (g.p(25)) { opt.push_back("--no-bitmap"); feat("switch_bitmap"); }
		for (size_t i = opt.size(); i > 1; i--) std::swap(opt[i - 1], opt[g.u(i)]);
		V<S> av = {tool(g)}, srcs;
		S in, texts; bool piped = false, anyorder = false;
		V<Want> ws;
		auto want = [&](const S &t, const S &name) { ws.push_back(expect(c, t, mode, force, icase, name)); texts += " " + show(t, 1500); };
		int src = (int)g.u(100);
		if (src < 40) {
			int n = (int)(g.p(70) ? 1 : g.r(2, 3));
			for (int i = 0; i < n; i++) {
				S t = gentext(g, c, as), nm = i == 0 && g.p(50) ? d + "/t0" : fmt("t%d", i);
				spit(d + fmt("/t%d", i), t); srcs.push_back(nm);
				if (!t.empty()) want(t, nm);
			}
			feat("from_files");
		} else if (src < 60) {
			in = gentext(g, c, as); if (g.p(10)) { S o; while (o.size() < 3000) o += in + "\n"; if (as == RPA_ENCODING_UTF8) in = o; }
			piped = g.p(50); want(in, "");
			feat(piped ? "from_pipe" : "from_stdin");
		} else if (src < 82) {
			int n = (int)(g.p(80) ? 1 : 2);
			for (int i = 0; i < n; i++) {
				S t = gentext(g, c, as == RPA_ENCODING_UTF16LE ? RPA_ENCODING_UTF8 : as);
				t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
				if (t.empty() || t[0] == '-' || t[0] == '/') t = "x" + t;
				srcs.push_back("-s"); srcs.push_back(t); want(t, "");
				if (isalnum((unsigned char)t[0]) && t.find('/') == S::npos && t.size() < 100 && access((d + "/" + t).c_str(), F_OK)) { spit(d + "/" + t, "a file that happens to have this name"); }
			}
			feat("from_argument");
		} else {
			S dir = d + "/dir", sh = g.p(40) ? "dir" : g.p(50) ? "dir/" : dir;
			mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755); mkdir((dir + "/sub/x.y").c_str(), 0755); mkdir((dir + "/empty").c_str(), 0755);
			static const char *nm[] = {"one", "two.txt", "sub/three", "sub/x.y/four"};
			for (auto n : nm) unlink((dir + "/" + n).c_str());
			for (auto n : nm) if (g.p(60)) { S t = gentext(g, c, as); spit(dir + "/" + n, t); texts += S(" ") + n + "="; if (!t.empty()) want(t, sh + (sh.back() == '/' ? "" : "/") + n); }
			anyorder = true; srcs.push_back(sh);
			feat("from_directory");
		}
		int lay = (int)g.u(4);   // where the options go among the other arguments
		auto put = [&](const V<S> &v) { av.insert(av.end(), v.begin(), v.end()); };
		if (lay == 0) { put(opt); put(gargs); put(srcs); } else if (lay == 1) { put(gargs); put(opt); put(srcs); } else if (lay == 2) { put(srcs); put(gargs); put(opt); } else { put(gargs); put(srcs); put(opt); }
		bool over = false, matched = false, aborted = false; V<S> parts; S all; V<S> tree;
		for (auto &w : ws) {
			over |= w.over; matched |= w.matched; aborted |= w.aborted; tree.insert(tree.end(), w.tree.begin(), w.tree.end());
			S o = w.out;
			if (w.aborted && (mode == PARSE || mode == TEXTS)) {
				o = fmt("Parse Error: Code: 2003%s, Name: %s%s\n", c.gr.r[w.arule].uid ? fmt(", Rule UID: %u", c.gr.r[w.arule].uid).c_str() : "", c.gr.r[w.arule].name.substr(0, 127).c_str(), w.aoff ? fmt(" at Offset: %zu", w.aoff).c_str() : "");
				feat("parse_errors");
			}
			parts.push_back(o); all += o;
		}
		if (over) { feat("reference_limit"); continue; }
		crumb(c.desc + " run" + optsof(av) + " texts" + texts);
		Run r;
		if (!runtool(av, in, r, d, piped)) return;
		// files made to look like the arguments go away again
		if (src >= 60 && src < 82) for (auto &s : srcs) if (isalnum((unsigned char)s[0]) && s.find('/') == S::npos) unlink((d + "/" + s).c_str());
		static const char *mf[] = {"mode_scan", "mode_lines", "mode_match", "mode_parse", "mode_texts", "mode_tree"};
		feat(mf[mode]); feat(matched ? "runs_matched" : "runs_unmatched"); if (icase) feat("runs_icase"); if (quiet) feat("runs_quiet");
		feat(as == RPA_ENCODING_UTF8 ? "texts_utf8" : as == RPA_ENCODING_BYTE ? "texts_byte" : "texts_utf16");
		S ctx = r.cmd + "; texts" + texts + "; " + c.desc;
		S got = r.out;
		if (stats) { size_t p = got.rfind("\ntime: "); CHECK(p != S::npos, "statistics", "-t prints no statistics: %s; %s", show(got, 1500).c_str(), ctx.c_str()); got = got.substr(0, p); feat("runs_statistics"); }
		if (quiet) { CHECK(got.empty(), "quiet", "-q printed %s; %s", show(got).c_str(), ctx.c_str()); }
		else if (mode == TREE) {
			S why;
			if (!aborted && ws.size() == 1) CHECK(treeok(got, tree, why), "tree", "%s; printed %s; %s", why.c_str(), show(got, 1500).c_str(), ctx.c_str());
		}
		else if (anyorder) { CHECK(permuted(got, parts), "output", "printed %s, expected (files in any order) %s; %s", show(got, 1500).c_str(), show(all, 1500).c_str(), ctx.c_str()); }
		else CHECK(got == all, "output", "printed %s, expected %s; %s", show(got, 1500).c_str(), show(all, 1500).c_str(), ctx.c_str());
		CHECK(r.rc == (matched ? 0 : 1), "exit-status", "exit %d although %s matched; %s", r.rc, matched ? "something" : "nothing", ctx.c_str());
	}
}

bool select_property(const S &p) {
	g_leakcheck = false;
	if (p == "P10") g_fn = p10; else return false;
	return true;
}
