// Independent JSON tree, parser and generator used to judge rexjson.
#pragma once
#include <charconv>
#include <cmath>

enum JK { JNull, JBool, JInt, JReal, JStr, JArr, JObj };
struct J {
	JK k = JNull;
	bool b = false;
	int64_t i = 0;
	double d = 0;
	S s;
	bool lone = false;            // string holding half a surrogate pair: no UTF-8 for it exists
	V<J> a;                       // elements, or the members' values in order of appearance
	V<S> n;                       // member names
	V<bool> nlone;
	size_t off = 0, len = 0;      // span of the text
	V<size_t> noff, nlen;         // spans of the names, quotes included
};

enum JT { TNone, TSpace, TStr, TInt, TNum, TTrue, TFalse, TNull, TComma, TColon, TLS, TRS, TLC, TRC };

// Longest token at p; TNone if none starts there.
static JT jlex(const S &t, size_t p, size_t &len) {
	len = 0;
	if (p >= t.size()) return TNone;
	auto at = [&](size_t i) -> int { return i < t.size() ? (unsigned char)t[i] : -1; };
	auto dig = [&](size_t i) { return at(i) >= '0' && at(i) <= '9'; };
	int c = at(p);
	auto one = [&](JT k) { len = 1; return k; };
	switch (c) {
	case ',': return one(TComma);
	case ':': return one(TColon);
	case '[': return one(TLS);
	case ']': return one(TRS);
	case '{': return one(TLC);
	case '}': return one(TRC);
	}
	if (c == ' ' || c == '\t' || c == '\r' || c == '\n') {
		size_t i = p;
		while (at(i) == ' ' || at(i) == '\t' || at(i) == '\r' || at(i) == '\n') i++;
		len = i - p;
		return TSpace;
	}
	if (t.compare(p, 4, "true") == 0) { len = 4; return TTrue; }
	if (t.compare(p, 5, "false") == 0) { len = 5; return TFalse; }
	if (t.compare(p, 4, "null") == 0) { len = 4; return TNull; }
	if (c == '"') {
		size_t i = p + 1;
		for (;;) {
			int x = at(i);
			if (x < 0x20) return TNone;      // end of text or a control character
			if (x == '"') { len = i + 1 - p; return TStr; }
			if (x != '\\') { i++; continue; }
			int e = at(i + 1);
			if (e == 'u') {
				for (int k = 2; k < 6; k++) if (at(i + k) < 0 || !isxdigit(at(i + k))) return TNone;
				i += 6;
			} else if (e > 0 && strchr("\"\\/bfnrt", e)) i += 2;
			else return TNone;
		}
	}
	size_t i = p;
	if (at(i) == '-') i++;
	if (!dig(i)) return TNone;
	if (at(i) == '0') i++; else while (dig(i)) i++;
	size_t e = i;
	bool real = false;
	if (at(i) == '.' && dig(i + 1)) { i++; while (dig(i)) i++; e = i; real = true; }
	if (at(i) == 'e' || at(i) == 'E') {
		size_t q = i + 1;
		if (at(q) == '+' || at(q) == '-') q++;
		if (dig(q)) { while (dig(q)) q++; e = q; real = true; }
	}
	len = e - p;
	return real ? TNum : TInt;
}

static S junesc(const S &q, bool &lone) {
	S o; lone = false;
	uint32_t hi = 0;
	auto flush = [&]() { if (hi) { put8(o, hi); lone = true; hi = 0; } };
	for (size_t i = 0; i < q.size(); i++) {
		if (q[i] != '\\') { flush(); o += q[i]; continue; }
		char e = q[++i];
		if (e == 'u') {
			uint32_t c = strtoul(q.substr(i + 1, 4).c_str(), 0, 16);
			i += 4;
			if (c >= 0xDC00 && c <= 0xDFFF) {
				if (hi) { put8(o, 0x10000 + ((hi - 0xD800) << 10) + (c - 0xDC00)); hi = 0; }
				else { put8(o, c); lone = true; }
			} else if (c >= 0xD800 && c <= 0xDBFF) { flush(); hi = c; }
			else { flush(); put8(o, c); }
			continue;
		}
		flush();
		o += e == 'b' ? '\b' : e == 'f' ? '\f' : e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e;
	}
	flush();
	return o;
}

struct JP {
	const S &t;
	size_t pos = 0, toff = 0, tlen = 0;
	JT tok = TNone;
	size_t depth = 0, maxdepth = 0, maxdepth_ok = 0, values = 0, toodeep_off = 0, deepest_allowed = (size_t)-1;
	bool bad = false; size_t badoff = 0; bool toodeep = false;
	explicit JP(const S &x) : t(x) {}
	void next() {
		do {
			toff = pos;
			tok = jlex(t, pos, tlen);
			pos += tlen;
		} while (tok == TSpace);
	}
	bool fail() { if (!bad) { bad = true; badoff = toff; } return false; }
	bool value(J &v) {
		depth++;
		if (depth > deepest_allowed && !toodeep) { toodeep = true; toodeep_off = toff; }
		maxdepth = std::max(maxdepth, depth);
		values++;
		v = J();
		v.off = toff;
		size_t end = toff + tlen;
		switch (tok) {
		case TNull: v.k = JNull; next(); break;
		case TTrue: case TFalse: v.k = JBool; v.b = tok == TTrue; next(); break;
		case TStr: v.k = JStr; v.s = junesc(t.substr(toff + 1, tlen - 2), v.lone); next(); break;
		case TInt: case TNum: {
			S n = t.substr(toff, tlen);
			v.k = JReal;
			if (tok == TInt) {
				auto r = std::from_chars(n.data(), n.data() + n.size(), v.i);
				if (r.ec == std::errc()) v.k = JInt;
			}
			if (v.k == JReal) {
				auto r = std::from_chars(n.data(), n.data() + n.size(), v.d);
				if (r.ec != std::errc()) {
					// too large or too small for a double: decided by the exponent's sign
					long double l = strtold(n.c_str(), NULL);
					v.d = fabsl(l) > 1 ? (l < 0 ? -INFINITY : INFINITY) : (n[0] == '-' ? -0.0 : 0.0);
				}
			}
			next();
			break;
		}
		case TLS:
			v.k = JArr;
			next();
			if (tok != TRS) {
				v.a.push_back(J());
				if (!value(v.a.back())) return false;
				while (tok == TComma) { next(); v.a.push_back(J()); if (!value(v.a.back())) return false; }
			}
			end = toff + tlen;
			if (tok != TRS) return fail();
			next();
			break;
		case TLC:
			v.k = JObj;
			next();
			if (tok != TRC) {
				for (;;) {
					if (tok != TStr) return fail();
					bool lone;
					v.n.push_back(junesc(t.substr(toff + 1, tlen - 2), lone)); v.nlone.push_back(lone);
					v.noff.push_back(toff); v.nlen.push_back(tlen);
					next();
					if (tok != TColon) return fail();
					next();
					v.a.push_back(J());
					if (!value(v.a.back())) return false;
					if (tok != TComma) break;
					next();
				}
			}
			end = toff + tlen;
			if (tok != TRC) return fail();
			next();
			break;
		default: return fail();
		}
		v.len = end - v.off;
		depth--;
		return true;
	}
	// true: the text begins with a value
	bool run(J &v, size_t levels) { deepest_allowed = levels; next(); return value(v); }
};

// ---------------------------------------------------------------- generation
static void jws(Rng &r, S &o) {
	static const char *w[] = {"", "", "", "", " ", "\t", "\n", "\r\n", "  ", " \n\t "};
	o += r.pick(w);
}
static uint32_t jcp(Rng &r) {
	switch (r.u(9)) {
	case 0: return r.u(32);
	case 1: return r.r(0x80, 0x7ff);
	case 2: return r.r(0x800, 0xd7ff);
	case 3: return r.r(0xe000, 0xffff);
	case 4: return r.r(0x10000, 0x10ffff);
	case 5: { static const uint32_t e[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, '"', '\\', '/', 0, 0x1f, 0x20}; return r.pick(e); }
	default: return r.r(0x20, 0x7e);
	}
}
static S jstr(Rng &r) {
	S o; size_t n = r.p(3) ? r.u(300) : r.u(8);
	for (size_t i = 0; i < n; i++) put8(o, jcp(r));
	return o;
}
// A quoted JSON form of s (valid UTF-8), escapes chosen at random.
static S jquote(Rng &r, const S &s) {
	S o = "\"";
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
		uint32_t cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
		for (size_t k = 1; k < n; k++) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
		const char *sh = cp == '"' ? "\\\"" : cp == '\\' ? "\\\\" : cp == '/' ? "\\/" : cp == 8 ? "\\b" : cp == 12 ? "\\f" : cp == 10 ? "\\n" : cp == 13 ? "\\r" : cp == 9 ? "\\t" : NULL;
		bool must = cp < 0x20 || cp == '"' || cp == '\\';
		if (sh && (must ? r.p(70) : r.p(30))) o += sh;
		else if (must || r.p(12)) {
			const char *f = r.p(50) ? "\\u%04x" : "\\u%04X";
			if (cp < 0x10000) o += fmt(f, cp);
			else { o += fmt(f, 0xD800 + ((cp - 0x10000) >> 10)); o += fmt(f, 0xDC00 + ((cp - 0x10000) & 0x3ff)); }
		} else o += s.substr(i, n);
		i += n;
	}
	return o + "\"";
}
static S jnum(Rng &r) {
	static const char *e[] = {"0", "-0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551615",
		"123456789012345678901234567890", "0.1", "-0.0", "1e5", "1E+5", "1e-5", "1.5e300", "1e400", "-1e400", "1e-400", "2.2250738585072014e-308", "4.9e-324",
		"1.7976931348623157e308", "0.30000000000000004", "9007199254740993", "2147483648", "-2147483649", "0e0", "1.0", "10", "100200300", "5", "-7"};
	if (r.p(40)) return r.pick(e);
	S o = r.p(30) ? "-" : "";
	if (r.p(20)) o += "0"; else { o += (char)('1' + r.u(9)); for (int n = r.u(r.p(10) ? 25 : 5); n > 0; n--) o += (char)('0' + r.u(10)); }
	if (r.p(40)) { o += "."; for (int n = 1 + r.u(r.p(10) ? 25 : 5); n > 0; n--) o += (char)('0' + r.u(10)); }
	if (r.p(25)) { o += r.p(50) ? "e" : "E"; if (r.p(50)) o += r.p(50) ? "+" : "-"; for (int n = 1 + r.u(3); n > 0; n--) o += (char)('0' + r.u(10)); }
	return o;
}
static void jtext(Rng &r, S &o, int depth, int &budget) {
	budget--;
	int k = (depth <= 0 || budget <= 0) ? r.u(6) : r.u(10);
	switch (k) {
	case 0: o += "null"; break;
	case 1: o += r.p(50) ? "true" : "false"; break;
	case 2: case 3: o += jnum(r); break;
	case 4: case 5: o += jquote(r, jstr(r)); break;
	case 6: case 7: {
		o += "["; jws(r, o);
		int n = r.p(15) ? 0 : r.u(5);
		for (int i = 0; i < n; i++) { if (i) { o += ","; jws(r, o); } jtext(r, o, depth - 1, budget); jws(r, o); }
		o += "]";
		break;
	}
	default: {
		o += "{"; jws(r, o);
		int n = r.p(15) ? 0 : r.u(5);
		for (int i = 0; i < n; i++) {
			if (i) { o += ","; jws(r, o); }
			o += r.p(40) ? r.p(50) ? "\"a\"" : "\"b\"" : jquote(r, jstr(r));
			jws(r, o); o += ":"; jws(r, o);
			jtext(r, o, depth - 1, budget); jws(r, o);
		}
		o += "}";
	}
	}
}
// Texts with one part much larger than usual.
static S jlarge(Rng &r, size_t &levels) {
	static const size_t sz[] = {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 70000};
	size_t n = r.pick(sz);
	S t, x;
	int bud = 10;
	switch (r.u(7)) {
	case 0: case 1: {	// a long string or member name, exactly n bytes of content with its last characters varied
		S c; while (c.size() + 8 < n) { S q = jquote(r, jstr(r)); c += r.p(50) ? S("abcdefgh", 1 + r.u(8)) : q.substr(1, q.size() - 2); }
		while (c.size() < n) c += (char)('a' + r.u(26));
		x = "\"" + c + "\"";
		if (r.p(40)) { t = "{" + x + ":"; jtext(r, t, 1, bud); t += "}"; }
		else t = "[0," + x + ",1]";
		break;
	}
	case 2: {	// a long number
		n = r.p(80) ? 20 + r.u(330) : std::min<size_t>(n, 5000);
		S d; while (d.size() < n) d += (char)('0' + r.u(10));
		d[0] = (char)('1' + r.u(9));
		if (r.p(60)) d.insert(1 + r.u(d.size() - 1), ".");
		if (r.p(40)) d += fmt("e%d", r.r(-400, 400));
		if (r.p(30)) d = "-" + d;
		t = "[" + d + "," + jnum(r) + "]";
		break;
	}
	case 3: {	// many elements
		n = std::min<size_t>(n, 4100);
		t = "[";
		for (size_t i = 0; i < n; i++) { if (i) t += ","; int b = 3; if (r.p(90)) t += r.p(50) ? "1" : "null"; else jtext(r, t, 1, b); }
		t += "]";
		break;
	}
	case 4: {	// many members, some more than once
		n = std::min<size_t>(n, 2100);
		t = "{";
		for (size_t i = 0; i < n; i++) { if (i) t += ","; t += fmt("\"k%u\":%zu", r.u(n), i); }
		t += "}";
		break;
	}
	case 5: {	// deep
		n = std::min<size_t>(n, 1025);
		levels = n + r.r(-2, 3);
		S close;
		for (size_t i = 0; i + 1 < n; i++) { if (r.p(50)) { t += r.p(10) ? "[ 1 , " : "["; close += "]"; } else { t += r.p(10) ? "{ \"a\" : 1, \"b\" : " : "{\"k\":"; close += "}"; } }
		t += "1"; t.append(close.rbegin(), close.rend());
		break;
	}
	default: {	// white space
		S w; while (w.size() < n) w += " \t\n\r"[r.u(4)];
		t = r.p(50) ? "[1," + w + "2]" : r.p(50) ? w + "[1,2]" : "{\"a\"" + w + ":" + w + "1}" + w;
	}
	}
	return t;
}
static S jmutate(Rng &r, S s) {
	static const char al[] = "{}[]\",:\\u0123456789abcdefE+-.tnl/ \n\x01\x1f\x7f\x80\xff";
	for (int n = 1 + r.u(3); n > 0; n--) {
		size_t p = s.empty() ? 0 : r.u(s.size());
		char c = r.p(90) ? al[r.u(sizeof(al) - 1)] : (char)r.u(256);
		switch (r.u(6)) {
		case 0: s.insert(p, 1, c); break;
		case 1: if (s.size()) s.erase(p, 1); break;
		case 2: if (s.size()) s[p] = c; break;
		case 3: s = s.substr(0, p); break;
		case 4: s += c; break;
		case 5: if (s.size()) s.insert(r.u(s.size() + 1), s.substr(p, 1 + r.u(6))); break;
		}
	}
	return s;
}
static S jdump(const J &v) {
	switch (v.k) {
	case JNull: return "null";
	case JBool: return v.b ? "true" : "false";
	case JInt: return fmt("%lld", (long long)v.i);
	case JReal: return fmt("%.17g", v.d);
	case JStr: return show(v.s, 80);
	case JArr: { S o = "["; for (auto &x : v.a) o += jdump(x) + ","; return o + "]"; }
	default: { S o = "{"; for (size_t i = 0; i < v.a.size(); i++) o += show(v.n[i], 60) + ":" + jdump(v.a[i]) + ","; return o + "}"; }
	}
}
