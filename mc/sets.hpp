// Filters, scorers and widths as sets of code points (golden/sets, golden/unidata)
#pragma once
#include "uni.hpp"
namespace sets {
struct R { u32 a, b; int w; };
static std::map<S, std::vector<R>> filt, scor;
static std::map<S, int> types = {{"UNICODE", 1}, {"01", 1}, {"1", 1}, {"CNS11643", 2}, {"02", 2}, {"2", 2}, {"BYTE", 3}, {"03", 3}, {"3", 3}, {"ANSI", 0x1B}, {"1B", 0x1B}};
static void load(const S &dir) {
	for (auto f : {"filters", "scorers"}) { std::ifstream i(dir + "/" + f + ".txt"); S l; if (!i) { fprintf(stderr, "no sets\n"); exit(3); } while (std::getline(i, l)) { VS w = split(l, ' '); (w.size() > 3 ? scor : filt)[w[0]].push_back({(u32)strtoul(w[1].c_str(), 0, 16), (u32)strtoul(w[2].c_str(), 0, 16), w.size() > 3 ? atoi(w[3].c_str()) : 1}); } }
}
static inline S upper(S s) { for (auto &c : s) c = toupper(c); return s; }
static inline bool known(const S &f) { S n = upper(f); return types.count(n) || filt.count(n); }
static inline int in(const std::vector<R> &v, const S &d) { if (d.empty() || d[0] != 1) return 0; u64 c = 0; for (size_t i = 1; i < d.size(); i++) { c = c << 8 | (u8)d[i]; } for (auto &r : v) if (c >= r.a && c <= r.b) return r.w; return 0; }
static inline bool accepts(const S &f, const S &d) { if (f.empty()) return true; S n = upper(f); auto t = types.find(n); if (t != types.end()) return d.size() && (u8)d[0] == t->second; return in(filt.at(n), d); }
static inline int score(const S &s, const S &d) { return in(scor.at(upper(s)), d); }
// 'F', 'H', 'A', 0: no width, '?': not defined (unassigned)
static inline char width(const S &d) {
	if (d.size() < 2 || d[0] != 1) return 0; u64 c = 0; for (size_t i = 1; i < d.size(); i++) { if (c >> 56) return 0; c = c << 8 | (u8)d[i]; } if (c > 0x10FFFF) return 0;
	if (c < 0x20 || (c >= 0x7F && c < 0xA0)) return 0; if (!ucd::asg[c]) return '?'; if (c >= 0xD800 && c < 0xE000) return '?';
	auto e = ucd::eaw.find(c); if (e == ucd::eaw.end()) return 'H'; return e->second == "A" ? 'A' : e->second == "F" || e->second == "W" ? 'F' : 'H';
}
static inline VS names() { VS r; for (auto &t : types) r.push_back(t.first); for (auto &f : filt) r.push_back(f.first); return r; }
}
