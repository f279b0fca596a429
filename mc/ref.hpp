// Reference semantics: an independent reading of the table source format and an ideal interpreter of
// phases (longest match, first codec of the list that accepts, errors counted).  No code shared with the library.
#pragma once
#include "mc.hpp"
#include <fstream>
#include <sstream>
#include <unordered_map>
namespace ref {
// ---- table source
struct Pat { std::vector<int> sym; bool ci; VD val; bool native; S arg; int order; }; // sym: 0..255, -1 any byte, 256 separator
static inline int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
struct Table {
	std::unordered_map<S, VD> exact;       // FROM: byte string; INTER/TO: packed data sequence
	std::vector<Pat> pats;                 // wildcard / case-insensitive / native
	size_t maxlen = 0;                     // FROM: bytes, INTER/TO: data
	bool from = true; bool native = false;
	static S pack(const VD &v, size_t a, size_t n) { S r; for (size_t i = a; i < a + n; i++) { r += char(v[i].d.size()); r += v[i].d; } return r; }
	bool load(const S &path, bool is_from) { std::ifstream f(path); if (!f) return false; std::stringstream s; s << f.rdbuf(); parse(s.str(), is_from); return true; }
	void parse(const S &text, bool is_from) {
		from = is_from; int order = 0; std::istringstream in(text); S l;
		while (std::getline(in, l)) {
			if (l.size() && l.back() == '\r') l.pop_back();
			if (l.empty() || l[0] == '#') continue;
			size_t p = l.find_first_of("\t "); if (p == S::npos) continue;
			S k = l.substr(0, p), v; p = l.find_first_not_of("\t ", p); if (p != S::npos) v = l.substr(p, l.find_first_of("\t\r\n# ", p) - p);
			bool bad = false; Pat e; e.ci = k.size() && k[0] == '!'; if (e.ci) k = k.substr(1);
			bool plain = !e.ci;
			for (size_t i = 0; i < k.size(); i++) {
				if (k[i] == '*') { e.sym.push_back(-1); plain = false; }
				else if (k[i] == ',') e.sym.push_back(256);
				else { if (i + 1 >= k.size() || hv(k[i]) < 0 || hv(k[i + 1]) < 0) { bad = true; break; } e.sym.push_back(hv(k[i]) * 16 + hv(k[i + 1])); i++; }
			}
			if (bad || k.empty()) continue; // header lines
			e.native = v.size() && v[0] == '?'; if (e.native) { e.arg = unhex(v.substr(1)); plain = false; native = true; }
			else if (v.size()) for (auto &x : split(v, ',')) e.val.push_back(Datum(unhex(x)));
			e.order = order++;
			if (plain) {
				S key; size_t n;
				if (from) { for (int c : e.sym) key += char(c); n = e.sym.size(); }
				else { VD seq(1); for (int c : e.sym) if (c == 256) seq.push_back(Datum()); else seq.back().d += char(c); key = pack(seq, 0, seq.size()); n = seq.size(); }
				exact.emplace(key, e.val); // the first of several entries for a key counts
				maxlen = std::max(maxlen, n);
			} else pats.push_back(e);
		}
	}
	// longest entry at pos; returns its length (0: none).  natives are not handled here.
	size_t match(const S &in, size_t pos, VD &val) const {
		size_t best = 0; const VD *bv = nullptr;
		for (size_t n = std::min(maxlen, in.size() - pos); n; n--) { auto it = exact.find(in.substr(pos, n)); if (it != exact.end()) { best = n; bv = &it->second; break; } }
		int lvl = (int)best; int bo = -1;
		for (auto &e : pats) {
			if (e.native) continue;
			size_t n = e.sym.size(); if (pos + n > in.size() || n < best) continue;
			int l = 0; bool ok = true;
			for (size_t i = 0; i < n && ok; i++) { int c = (u8)in[pos + i]; if (e.sym[i] == -1 || e.sym[i] == c) l++; else if (!(e.ci && isalpha(c) && isalpha(e.sym[i]) && tolower(c) == tolower(e.sym[i]) && c < 128)) ok = false; }
			if (!ok) continue;
			if (n > best || l > lvl || (l == lvl && bo >= 0 && e.order < bo)) { best = n; bv = &e.val; lvl = l; bo = e.order; }
		}
		if (best) val = *bv;
		return best;
	}
	size_t match(const VD &in, size_t pos, VD &val) const {
		for (size_t n = std::min(maxlen, in.size() - pos); n; n--) { auto it = exact.find(pack(in, pos, n)); if (it != exact.end()) { val = it->second; return n; } }
		return 0;
	}
};
// ---- codecs as functions: longest match at a position, 0 when none
struct From { virtual size_t at(const S &in, size_t pos, VD &out) = 0; virtual void start() {} virtual ~From() {} };
struct Data { virtual size_t at(const VD &in, size_t pos, VD &out) = 0; virtual void start() {} virtual ~Data() {} };
struct TFrom : From { const Table *t; TFrom(const Table *x) : t(x) {} size_t at(const S &in, size_t pos, VD &out) override { return t->match(in, pos, out); } };
struct TData : Data { const Table *t; TData(const Table *x) : t(x) {} size_t at(const VD &in, size_t pos, VD &out) override { return t->match(in, pos, out); } };
static inline VD from(const std::vector<From *> &cs, const S &in, u64 &ierr) {
	VD r; for (auto c : cs) c->start();
	for (size_t p = 0; p < in.size();) {
		VD o; size_t n = 0;
		for (auto c : cs) { o.clear(); if ((n = c->at(in, p, o))) break; }
		if (!n) { ierr++; p++; continue; }
		for (auto &x : o) r.push_back(x);
		p += n;
	}
	return r;
}
static inline VD inter(const std::vector<Data *> &cs, const VD &in) {
	VD r; for (auto c : cs) c->start();
	for (size_t p = 0; p < in.size();) {
		VD o; size_t n = 0;
		for (auto c : cs) { o.clear(); if ((n = c->at(in, p, o))) break; }
		if (!n) { r.push_back(in[p++]); continue; }
		for (auto &x : o) r.push_back(x);
		p += n;
	}
	return r;
}
static inline VD to(const std::vector<Data *> &cs, const VD &in, u64 &oerr) {
	VD r; for (auto c : cs) c->start();
	for (size_t p = 0; p < in.size();) {
		VD o; size_t n = 0;
		for (auto c : cs) { o.clear(); if ((n = c->at(in, p, o))) break; }
		if (!n) { oerr++; p++; continue; }
		for (auto &x : o) r.push_back(x);
		p += n;
	}
	return r;
}
static inline S cat(const VD &v) { S r; for (auto &x : v) r += x.d; return r; }
static std::map<S, Table *> cache;
static inline Table *table(const S &dir, const S &name) { // name like "from/_CP949"
	auto &t = cache[name]; if (!t) { t = new Table; if (!t->load(dir + "/" + name + ".txt", name.compare(0, 5, "from/") == 0)) { fprintf(stderr, "no reference table %s\n", name.c_str()); exit(3); } }
	return t;
}
} // namespace ref
