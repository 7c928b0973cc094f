// Texts in the engine's encodings, and grammars as they are loaded.
#pragma once
#include "common.h"
#include "peg.h"

// A text in one encoding with the byte offset of every character.
struct Text {
	S b; V<size_t> off; int enc; std::map<size_t, int> idx;
	Text(const U32 &u, int e) : enc(e) {
		for (uint32_t c : u) {
			idx[b.size()] = (int)off.size(); off.push_back(b.size());
			int k = e & 0xff;
			if (k == RPA_ENCODING_UTF8) put8(b, c);
			else if (k == RPA_ENCODING_UTF16LE) put16(b, c);
			else b += (char)c;
		}
		idx[b.size()] = (int)off.size(); off.push_back(b.size());
	}
	// Raw bytes read the way the engine documents: what does not decode counts as one character of its byte's value.
	Text(const S &raw, int e, U32 &u) : b(raw), enc(e) {
		size_t i = 0;
		const unsigned char *p = (const unsigned char *)raw.data();
		size_t n = raw.size();
		while (i < n) {
			uint32_t c = p[i]; size_t k = 1;
			auto tail = [&](size_t m) { if (i + m >= n) return false; return p[i + m] >> 6 == 2; };
			if ((e & 0xff) == RPA_ENCODING_UTF8) {
				if (c >= 0xC2 && c <= 0xDF) { if (tail(1)) { c = (c & 31) << 6 | (p[i + 1] & 63); k = 2; } }
				else if (c >= 0xE0 && c <= 0xEF) { if (tail(1) && tail(2)) { c = (c & 15) << 12 | (p[i + 1] & 63) << 6 | (p[i + 2] & 63); k = 3; } }
				else if (c >= 0xF0 && c <= 0xF4) { if (tail(1) && tail(2) && tail(3)) { c = (c & 7) << 18 | (uint32_t)(p[i + 1] & 63) << 12 | (p[i + 2] & 63) << 6 | (p[i + 3] & 63); k = 4; } }
			} else if ((e & 0xff) == RPA_ENCODING_UTF16LE && i + 1 < n) {
				uint32_t w = p[i] | p[i + 1] << 8;
				if (w < 0xD800 || w >= 0xE000) { c = w; k = 2; }
				else if (w < 0xDC00 && i + 3 < n) { uint32_t v = p[i + 2] | p[i + 3] << 8; if (v >= 0xDC00 && v < 0xE000) { c = 0x10000 + ((w - 0xD800) << 10) + (v - 0xDC00); k = 4; } }
			}
			idx[i] = (int)off.size(); off.push_back(i); u.push_back(c);
			i += k;
		}
		idx[n] = (int)off.size(); off.push_back(n);
	}
	// characters covered by n bytes from character p, or -1 when not on a boundary
	int chars(int p, long n) const { if (n < 0) return -1; auto i = idx.find(off[p] + (size_t)n); return i == idx.end() ? -1 : i->second - p; }
};
static S shenc(int e) { static const char *n[] = {"utf8", "byte", "utf16le"}; return S(n[e & 3]) + (e & RPA_ENCODING_ICASE ? "+icase" : ""); }
static S shu(const U32 &u) { return show(to8(u)); }

// Splits a grammar's rules over several loads, in some order, with directives first.
static V<S> parts_of(Rng &g, const Grammar &gr, int layout, V<int> order, const S &head = "") {
	Printer p(g, gr, layout);
	V<S> parts; S cur = head;
	for (auto &r : gr.r) cur += p.directives(r);
	for (size_t i = 0; i < order.size(); i++) {
		cur += p.rule(gr.r[order[i]]);
		bool cut = layout && g.p(25);
		if (!cut || g.p(50)) cur += p.filler();
		if (cut) { parts.push_back(cur); cur = ""; }
	}
	if (!cur.empty() || parts.empty()) parts.push_back(cur.empty() ? S("\n") : cur);
	return parts;
}
static V<int> order_of(Rng &g, size_t n, bool shuffle) {
	V<int> o; for (size_t i = 0; i < n; i++) o.push_back((int)i);
	if (shuffle) for (size_t i = n; i > 1; i--) std::swap(o[i - 1], o[g.u(i)]);
	return o;
}
static S joined(const V<S> &p) { S o; for (size_t i = 0; i < p.size(); i++) o += (i ? " || " : "") + show(p[i], 1500); return o; }
