// Library values next to the reference trees.
#pragma once
#include "jref.h"
#include "rexjson/rexjson++.h"
#include <cmath>
using rexjson::value;

static bool eqreal(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

// Compares a value of the library with the reference tree; says where they differ.
static S diff(const value &v, const J &j, const S &path = "$") {
	static const char *kn[] = {"null", "boolean", "integer", "real", "string", "array", "object"};
	static const int ty[] = {rexjson::null_type, rexjson::bool_type, rexjson::int_type, rexjson::real_type, rexjson::str_type, rexjson::array_type, rexjson::obj_type};
	if ((int)v.get_type() != ty[j.k]) return fmt("%s is a %s, not a %s (%s)", path.c_str(), v.get_typename().c_str(), kn[j.k], jdump(j).substr(0, 200).c_str());
	switch (j.k) {
	case JNull: return v.is_null() ? "" : path + " is_null() is false";
	case JBool: return v.get_bool() == j.b ? "" : path + " boolean differs";
	case JInt: return v.get_int64() == j.i && v.get_int() == (int)j.i && eqreal(v.get_real(), (double)j.i) ? "" : fmt("%s is %lld, not %lld", path.c_str(), (long long)v.get_int64(), (long long)j.i);
	case JReal: return eqreal(v.get_real(), j.d) ? "" : fmt("%s is %.17g, not %.17g", path.c_str(), v.get_real(), j.d);
	case JStr: return j.lone || v.get_str() == j.s ? "" : path + " is " + show(v.get_str()) + ", not " + show(j.s);
	case JArr:
		if (v.get_array().size() != j.a.size()) return fmt("%s has %zu elements, not %zu", path.c_str(), v.get_array().size(), j.a.size());
		for (size_t i = 0; i < j.a.size(); i++) { S d = diff(v.get_array()[i], j.a[i], path + fmt("[%zu]", i)); if (!d.empty()) return d; }
		return "";
	default: {
		for (bool l : j.nlone) if (l) return "";
		std::map<S, const J *> m;
		for (size_t i = 0; i < j.n.size(); i++) m[j.n[i]] = &j.a[i];
		if (v.get_obj().size() != m.size()) return fmt("%s has %zu members, not %zu", path.c_str(), v.get_obj().size(), m.size());
		for (auto &e : m) {
			auto it = v.get_obj().find(e.first);
			if (it == v.get_obj().end()) return path + " lacks member " + show(e.first);
			S d = diff(it->second, *e.second, path + "." + e.first);
			if (!d.empty()) return d;
		}
		return "";
	}
	}
}

static J jint(int64_t i) { J j; j.k = JInt; j.i = i; return j; }
static J jreal(double d) { J j; j.k = JReal; j.d = d; return j; }
static J jbool(bool b) { J j; j.k = JBool; j.b = b; return j; }
static J jstrv(const S &s) { J j; j.k = JStr; j.s = s; return j; }


// The library's value of a reference tree.
static value tov(const J &j) {
	switch (j.k) {
	case JNull: return value();
	case JBool: return value(j.b);
	case JInt: return value(j.i);
	case JReal: return value(j.d);
	case JStr: return value(j.s);
	case JArr: { rexjson::array a; for (auto &x : j.a) a.push_back(tov(x)); return value(a); }
	default: { rexjson::object o; for (size_t i = 0; i < j.a.size(); i++) o[j.n[i]] = tov(j.a[i]); return value(o); }
	}
}
