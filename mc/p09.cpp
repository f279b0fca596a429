// P09: normalization forms against the algorithm of UAX #15 on independent character data.
#include "mc.hpp"
#include "uni.hpp"
using ucd::T;
static S chk(Conv &c, int f, const T &t) {
	VD w = ucd::data(ucd::nf(t, f)), g = c.run_list(ucd::data(t)); eval(); sh->trans++;
	return w == g && !*c.ie && !*c.oe ? "" : fmt("gives %s instead of %s", show(g).c_str(), show(w).c_str());
}
struct X { Conv c; int f; T cur, prev; X(int f_) : c(S("pass:") + ucd::forms[f_] + ":pass"), f(f_) { g_describe = [this] { return fmt("%d ", f) + ucd::str(cur) + " " + ucd::str(prev); }; } ~X() { g_describe = nullptr; }
	bool operator()(const T &t) { prev.swap(cur); cur = t; sh->states++; S r = chk(c, f, t); if (r.empty()) return true; violation(g_describe(), r); return false; } };
// texts of n elements
static const int NTX = 14;
static T longtx(int kind, int n) {
	T t; auto rep = [&](std::initializer_list<u32> l, int k) { for (int i = 0; i < k; i++) for (u32 c : l) t.push_back(c); };
	switch (kind) { case 0: t.push_back(0x65); rep({0x301}, n); break; case 1: t.push_back(0x6F); rep({0x301}, n); t.push_back(0x323); break; case 2: t.push_back(0x6F); rep({0x345}, n / 3); rep({0x301}, n / 3); rep({0x323}, n - n / 3 * 2); break; case 3: t.push_back(0x61); rep({0x301, 0x323}, n); break; case 4: rep({0x1100}, n); rep({0x1161, 0x11A8}, 1); break; case 5: rep({0x1100, 0x1161, 0x11A8}, n); break; case 6: rep({0xAC01}, n); break;
		case 7: rep({0x61, 0x301}, n); break; case 8: rep({0x61}, n); rep({0x301}, 1); break; case 9: rep({0x1EAD, 0x345, 0x31B}, n); break; case 10: rep({0xFB03, 0xFDFA}, n); break; case 11: t.push_back(0x6F); for (int i = 0; i < n; i++) t.push_back(ucd::marks[(i * 7919 + n) % ucd::marks.size()]); t.push_back(0x61); break; case 12: rep({0x334}, n); t.push_back(0x61); rep({0x301}, 2); break; default: t.push_back(0x1100); rep({0x327}, n); t.push_back(0x1161); }
	return t;
}
static S replay(const S &d) { ucd::load(g_data); VS w = split(d, ' '); if (w[0] == "run" && w.size() == 4) { Conv c(S("pass:") + ucd::forms[atoi(w[1].c_str())] + ":pass"); if (!c.p) return "cannot be created"; S r = chk(c, atoi(w[1].c_str()), longtx(atoi(w[2].c_str()), atoi(w[3].c_str()))); return r.substr(0, 200); } if (w.size() < 2) return "bad descriptor"; int f = atoi(w[0].c_str()); Conv c(S("pass:") + ucd::forms[f] + ":pass"); if (!c.p) return "cannot be created"; if (w.size() > 2 && w[2].size()) { c.run_list(ucd::data(ucd::list(w[2]))); } return chk(c, f, ucd::list(w[1])); }
static void all() {
	ucd::load(g_data);
	u64 NA = ucd::assigned.size(), CH = (NA + 4095) / 4096;
	explore("every character, alone and among others", 4 * CH, [&](u64 it) {
		X x(it & 3); if (it < 4 && !x({})) return;
		for (u64 i = it / 4 * 4096; i < std::min(NA, (it / 4 + 1) * 4096); i++) { u32 c = ucd::assigned[i]; if (!x({c}) || !x({0x61, c, 0x301}) || !x({c, 0x323, 0x301, 0x61}) || !x({0x41, 0x301, c, 0x323}) || !x({c, c}) || !x({0x1100, c, 0x1161, 0x11A8})) return; }
		sh->nontrivial++; outcome(it * 7919);
	});
	explore("data which are no characters, unassigned code points", 4 * 0x110, [&](u64 it) {
		X x(it & 3); for (u32 c = it / 4 * 4096; c < (it / 4 + 1) * 4096; c++) { if (c == 0) for (int b = 0; b < 256; b++) { u32 o = ucd::OTHER | b; if (!x({o}) || !x({0x65, o, 0x301}) || !x({0x65, 0x323, o, 0x301}) || !x({0x1100, o, 0x1161}) || !x({0x1100, 0x1161, o, 0x11A8}) || !x({o, 0x301, 0x323})) return; }
			if (ucd::asg[c] || (c >= 0xD800 && c < 0xE000)) continue; if (!x({c}) || !x({0x61, c, 0x301})) return; }
	});
	// every first character of a composite (and characters made of it) with every mark or other second
	static T F, Mk; { std::set<u32> f(ucd::firsts.begin(), ucd::firsts.end()), m(ucd::marks.begin(), ucd::marks.end()); for (u32 s : ucd::seconds) m.insert(s); for (auto &e : ucd::d) f.insert(e.first); for (u32 c : {0x20u, 0x1100u, 0x1112u, 0xAC00u, 0xAC01u, 0xD788u, 0xD7A3u, 0xFB1Du, 0x2ADCu, 0x344u, 0x340u, 0x958u}) f.insert(c); for (u32 c : {0x1160u, 0x1161u, 0x1175u, 0x1176u, 0x11A7u, 0x11A8u, 0x11C2u, 0x11C3u, 0x1100u, 0x344u, 0x340u, 0x341u, 0x343u, 0xF73u, 0xF75u, 0xF81u}) m.insert(c); F.assign(f.begin(), f.end()); Mk.assign(m.begin(), m.end()); }
	explore("every first with every second", 4 * F.size(), [&](u64 it) {
		X x(it & 3); u32 a = F[it / 4]; for (u32 m : Mk) if (!x({a, m})) return; sh->nontrivial++; outcome(it * 104729 + 1);
		if (it % 997 == 0) sample(S(ucd::forms[it & 3]) + " " + ucd::str({a, Mk.back()}) + " -> " + ucd::str(ucd::nf({a, Mk.back()}, it & 3)));
	});
	explore("every Hangul syllable and jamo sequence", 4 * 256, [&](u64 it) {
		X x(it & 3); u32 l = 0x1100 + it / 4; for (u32 v = 0x1158; v < 0x1180; v++) { if (!x({l, v})) return; for (u32 t = 0x11A5; t < 0x11C6; t++) if (!x({l, v, t}) || (l < 0x1114 && (!x({l, v, t, t}) || !x({l, v, 0x302E, t})))) return; }
		for (u32 s = 0xAC00 + it / 4 * 44; s < 0xAC00 + (it / 4 + 1) * 44 && s < 0xD7A4; s++) for (u32 t = 0x11A5; t < 0x11C6; t++) if (!x({s, t}) || !x({l, s, t})) return;
	});
	// one mark of every class, and those which compose: base + three marks
	static T base = {0x61, 0x41, 0x65, 0x6F, 0x75, 0x3B1, 0x3C9, 0x397, 0x915, 0x9C7, 0xDD9, 0x1025, 0x304B, 0x5D0, 0x627, 0x1D157, 0x226B, 0x1E63, 0xF71, 0x20, 0x1100, 0x105D2, 0x11131, 0x1B05};
	static T cls; { std::map<int, T> by; for (u32 m : ucd::marks) by[ucd::ccc(m)].push_back(m); for (auto &e : by) { cls.push_back(e.second.front()); if (e.second.size() > 1 && thorough) cls.push_back(e.second.back()); } for (u32 m : {0x300u, 0x301u, 0x302u, 0x308u, 0x304u, 0x307u, 0x30Au, 0x31Bu, 0x323u, 0x327u, 0x328u, 0x342u, 0x345u, 0x313u, 0x338u, 0x3099u, 0x93Cu, 0x9BEu, 0xDCFu, 0x102Eu, 0x1D165u, 0x1D16Eu, 0x344u, 0x1161u}) if (std::find(cls.begin(), cls.end(), m) == cls.end()) cls.push_back(m); }
	u64 B = base.size(), C = cls.size();
	explore("base and three marks", 4 * B * C, [&](u64 it) {
		X x(it & 3); u32 b = base[it / 4 / C], m = cls[it / 4 % C]; for (u32 p : cls) for (u32 q : cls) if (!x({b, m, p, q})) return;
		sh->nontrivial++; outcome(it * 15485863 + 2);
	});
	static T mix = {0x61, 0x6F, 0x41, 0xE9, 0x1EAD, 0x3B1, 0x1F80, 0x300, 0x301, 0x308, 0x304, 0x323, 0x327, 0x31B, 0x345, 0x334, 0x3099, 0x304B, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xFB01, 0x9C7, 0x9BE, ucd::OTHER | 0x41}; u64 N = mix.size();
	explore("all sequences of mixed elements", 4 * N * N, [&](u64 it) {
		X x(it & 3); T t = {mix[it / 4 / N], mix[it / 4 % N]}; int L = thorough ? 3 : 2; u64 n = 1;
		for (int l = 0; l <= L; l++) { for (u64 k = 0; k < n; k++) { T y = t; u64 z = k; for (int i = 0; i < l; i++) { y.push_back(mix[z % N]); z /= N; } if (!x(y)) return; } n *= N; }
		if (it % 331 == 0) sample(S(ucd::forms[it & 3]) + " " + ucd::str(x.cur) + " -> " + ucd::str(ucd::nf(x.cur, it & 3)));
	});
	{ auto sz = sizes(thorough ? 66000 : 4200, thorough ? 300 : 70); explore("texts of any length", 4 * NTX, [&](u64 it) { int f = it & 3, kind = it / 4; S d; g_describe = [&] { return d; }; Conv c(S("pass:") + ucd::forms[f] + ":pass"); if (!c.p) { violation(fmt("run %d %d 1", f, kind), "cannot be created"); return; } for (long n : sz) { d = fmt("run %d %d %ld", f, kind, n); S r = chk(c, f, longtx(kind, n)); sh->states++; outcome(fnv(d)); if (r.size()) { violation(d, r.substr(0, 200)); return; } } sh->nontrivial++; }); }
	explore("long runs of marks", 4 * 64, [&](u64 it) {
		X x(it & 3); static const T sets[] = {{0x301, 0x323}, {0x345, 0x301}, {0x334, 0x308}, {0x31B, 0x323}}; u64 k = it / 4; const T &m = sets[k & 3]; u64 hi = k >> 2; // 16 prefixes of 4
		int n = thorough ? 15 : 12; for (int len = 4; len <= n; len++) for (u64 b = 0; b < (1ull << (len - 4)); b++) { T t = {k & 8 ? 0x41u : 0x6Fu}; for (int i = 0; i < 4; i++) t.push_back(m[hi >> i & 1]); for (int i = 0; i < len - 4; i++) t.push_back(m[b >> i & 1]); if (!x(t)) return; }
		for (int len = 16; len <= 2048; len *= 2) { T t = {0x6F}; for (int i = 0; i < len; i++) t.push_back(((T){0x301, 0x323, 0x345, 0x327, 0x334})[(i * (k + 1)) % 5]); t.push_back(0x61); if (!x(t)) return; }
	});
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
