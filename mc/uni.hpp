// Unicode character data (golden/unidata) and the normalization algorithm written from UAX #15.
#pragma once
#include "mc.hpp"
#include <fstream>
#include <sstream>
#include <unordered_map>
namespace ucd {
typedef std::vector<u32> T;
static std::vector<u8> ccc_(0x110000), asg(0x110000);
static std::unordered_map<u32, T> d, k, up, lo, fold; static std::unordered_map<u64, u32> comp; static std::unordered_map<u32, S> eaw;
static T marks, firsts, seconds, assigned;
static inline T list(const S &s) { T r; for (auto &x : split(s, ',')) r.push_back(strtoul(x.c_str(), 0, 16)); return r; }
static void load(const S &dir) {
	std::ifstream f(dir + "/unidata.txt"); S l; if (!f) { fprintf(stderr, "no unidata\n"); exit(3); } std::set<u32> fs, ss;
	while (std::getline(f, l)) { VS w = split(l, ' '); u32 c = strtoul(w[1].c_str(), 0, 16);
		switch (l[0]) { case 'A': for (u32 x = c, e = strtoul(w[2].c_str(), 0, 16); x <= e; x++) asg[x] = 1; break; case 'C': ccc_[c] = atoi(w[2].c_str()); break;
			case 'D': d[c] = list(w[2]); break; case 'K': k[c] = list(w[2]); break; case 'U': up[c] = list(w[2]); break; case 'L': lo[c] = list(w[2]); break; case 'F': fold[c] = list(w[2]); break; case 'W': eaw[c] = w[2]; break;
			case 'P': { u32 b = strtoul(w[2].c_str(), 0, 16); comp[(u64)c << 32 | b] = strtoul(w[3].c_str(), 0, 16); fs.insert(c); ss.insert(b); break; } } }
	firsts.assign(fs.begin(), fs.end()); seconds.assign(ss.begin(), ss.end());
	for (u32 c = 0; c < 0x110000; c++) { if (ccc_[c]) marks.push_back(c); if (asg[c] && !(c >= 0xD800 && c < 0xE000)) assigned.push_back(c); }
}
enum { OTHER = 0x80000000u }; // an element that is no character: starts anew
static inline int ccc(u32 c) { return c < 0x110000 ? ccc_[c] : 0; }
static T decompose(const T &in, bool compat) {
	T r; auto &m = compat ? k : d;
	for (u32 c : in) {
		if (c >= 0xAC00 && c < 0xD7A4) { u32 s = c - 0xAC00; r.push_back(0x1100 + s / 588); r.push_back(0x1161 + s % 588 / 28); if (s % 28) r.push_back(0x11A7 + s % 28); continue; }
		auto it = m.find(c); if (it == m.end()) r.push_back(c); else r.insert(r.end(), it->second.begin(), it->second.end());
	}
	for (size_t i = 0; i < r.size();) { if (!ccc(r[i])) { i++; continue; } size_t j = i; while (j < r.size() && ccc(r[j])) j++; std::stable_sort(r.begin() + i, r.begin() + j, [](u32 a, u32 b) { return ccc(a) < ccc(b); }); i = j; }
	return r;
}
static u32 pair(u32 a, u32 b) {
	if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xAC00 + ((a - 0x1100) * 21 + b - 0x1161) * 28;
	if (a >= 0xAC00 && a < 0xD7A4 && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11C3) return a + b - 0x11A7;
	auto it = comp.find((u64)a << 32 | b); return it == comp.end() ? 0 : it->second;
}
static T compose(const T &in) {
	T r; int st = -1, last = -1; // position of the last starter, class of the last character kept after it
	for (u32 c : in) {
		int cc = ccc(c); u32 p;
		if (st >= 0 && (last < cc || last == -1) && !(last == -1 && (int)r.size() - 1 != st) && (p = pair(r[st], c))) { r[st] = p; continue; }
		if (cc == 0) { st = r.size(); last = -1; } else last = cc;
		r.push_back(c);
	}
	return r;
}
static T nf(const T &t, int form) { T x = decompose(t, form & 1); return form & 2 ? compose(x) : x; } // 0 NFD 1 NFKD 2 NFC 3 NFKC
static const char *forms[] = {"nfd", "nfkd", "nfc", "nfkc"};
static VD data(const T &t) { VD r; for (u32 c : t) r.push_back(c & OTHER ? Datum(S("\x03") + char(c)) : Datum(uni(c))); return r; }
static S str(const T &t) { S r; for (u32 c : t) r += (r.size() ? "," : "") + fmt("%X", c); return r; }
} // namespace ucd
