// P07: the UTF-8 decoder with every combination of its options against a decoder written from the definition.
#include "mc.hpp"
enum { CESU = 1, LOOSE = 2, NUL = 4, OVERLONG = 8, SUPER = 16 };
static S conv(int f, bool ascii) {
	static const char *n[] = {"CESU", "LOOSE", "NUL", "OVERLONG", "SUPER"}; VS a; for (int i = 0; i < 5; i++) if (f >> i & 1) a.push_back(n[i]);
	return S(ascii ? "ascii,_utf-8" : "_utf-8") + (a.size() ? "#" + join(a, "&") : "") + ":pass";
}
// one encoded value at pos: its length, 0 if there is none
static int unit(const S &s, size_t p, int f, u32 &cp) {
	u8 b = s[p]; int n; u32 v;
	if (b < 0xC0) return 0; else if (b < 0xE0) n = 2, v = b & 31; else if (b < 0xF0) n = 3, v = b & 15; else if (b < 0xF8) n = 4, v = b & 7; else if (b < 0xFC) n = 5, v = b & 3; else if (b < 0xFE) n = 6, v = b & 1; else return 0;
	if (p + n > s.size()) return 0;
	for (int i = 1; i < n; i++) { u8 c = s[p + i]; if ((c & 0xC0) != 0x80) return 0; v = v << 6 | (c & 63); }
	static const u32 least[] = {0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000};
	if (v < least[n] && !(f & OVERLONG)) return 0;
	if (v > 0x10FFFF && !(f & SUPER)) return 0;
	if (n > 4 && !(f & SUPER)) return 0;
	if (!v && !(f & NUL)) return 0;
	cp = v; return n;
}
static VD ideal(const S &s, int f, bool ascii, u64 &err) {
	VD r;
	for (size_t p = 0; p < s.size();) {
		u32 c, d; int n, m;
		if (ascii && s[p] && (u8)s[p] < 0x80) { r.push_back(uni((u8)s[p++])); continue; }
		n = unit(s, p, f, c);
		if (n && c >= 0xD800 && c < 0xE000) {
			if ((f & CESU) && c < 0xDC00 && p + n < s.size() && (m = unit(s, p + n, f, d)) && d >= 0xDC00 && d < 0xE000) { r.push_back(uni(0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00))); p += n + m; continue; }
			if (!(f & LOOSE)) n = 0;
		}
		if (!n) { err++; p++; } else { r.push_back(uni(c)); p += n; }
	}
	return r;
}
static S chk(Conv &c, const S &in, int f, bool ascii) {
	u64 e = 0; VD w = ideal(in, f, ascii, e), g = c.decode(in); eval(); sh->trans++;
	return w == g && *c.ie == e ? "" : fmt("decodes to %s errors %zu instead of %s errors %llu", show(g).c_str(), (size_t)*c.ie, show(w).c_str(), (unsigned long long)e);
}
static S desc(int f, bool a, const S &in) { return fmt("%d %d ", f, a) + hex(in) + "  " + conv(f, a); }
static S encn(u32 c, int n);
// a long text: "all LO HI N" every code point in N bytes (0: the shortest), "rep HEX N" a piece N times, "far HEX N HEX" two pieces with N characters between
static S text(const VS &w, size_t i) {
	S r; auto h = [&](size_t k) { return strtoul(w[k].c_str(), 0, 16); };
	if (w[i] == "all") for (u32 c = h(i + 1); c < h(i + 2); c++) { int n = atoi(w[i + 3].c_str()), m = c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; if (!n && c < 0x80) r += char(c); else r += encn(c, std::max(n, m)); }
	else if (w[i] == "rep") { S p = unhex(w[i + 1]); for (int k = atoi(w[i + 2].c_str()); k > 0; k--) r += p; }
	else { r = unhex(w[i + 1]); for (int k = 0; k < atoi(w[i + 2].c_str()); k++) r += encn(0xE9 + k % 500, 2); r += unhex(w[i + 3]); }
	return r;
}
static S chktext(int f, bool a, const VS &w, size_t i) { Conv c(conv(f, a)); if (!c.p) return "cannot be created"; S in = text(w, i); u64 e = 0; VD x = ideal(in, f, a, e), g = c.decode(in); eval(); sh->trans++; size_t p = 0; while (p < x.size() && p < g.size() && x[p] == g[p]) p++;
	return x == g && *c.ie == e ? "" : fmt("differs at character %zu of %zu (%zu given) errors %zu instead of %llu", p, x.size(), g.size(), (size_t)*c.ie, (unsigned long long)e); }
static S replay(const S &d) { VS w = split(d, ' '); if (w[0] == "text" && w.size() > 5) return chktext(atoi(w[1].c_str()), atoi(w[2].c_str()), w, 3); if (w.size() < 3) return "bad descriptor"; int f = atoi(w[0].c_str()); bool a = atoi(w[1].c_str()); Conv c(conv(f, a)); return c.p ? chk(c, unhex(w[2]), f, a) : "cannot be created"; }
struct X { Conv c; int f; bool a; S in; X(int f_, bool a_) : c(conv(f_, a_)), f(f_), a(a_) { g_describe = [this] { return desc(f, a, in); }; }
	~X() { g_describe = nullptr; }
	bool operator()(const S &s) { in = s; sh->states++; S r = chk(c, s, f, a); if (r.empty()) return true; Conv n(conv(f, a)); if (chk(n, s, f, a).empty()) { sh->reuse++; c.reopen(); return true; } violation(desc(f, a, s), r); return false; } };
static S encn(u32 c, int n) { // in n bytes, however long the shortest form
	static const u8 lead[] = {0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC}; S r(n, 0); for (int i = n - 1; i > 0; i--) { r[i] = 0x80 | (c & 63); c >>= 6; } r[0] = lead[n] | c; return r;
}
static void all() {
	explore("every one- and two-byte input, every option set", 64 * 16, [&](u64 it) {
		int f = it / 16 % 32; bool a = it / 512; X x(f, a); if (it % 16 == 0 && !x("")) return;
		for (int b = it % 16 * 16; b < (int)(it % 16) * 16 + 16; b++) { if (!x(S(1, b))) return; for (int d = 0; d < 256; d++) if (!x(S(1, b) + char(d))) return; }
	});
	explore("every three-byte input", 256 * 4, [&](u64 it) {
		int f = (int[]){0, 3, 8, 31}[it / 256]; X x(f, false); int b = it % 256; if (b < 0xC0 && b > 0x90 && !thorough) return;
		for (int d = 0; d < 256; d++) for (int e = 0; e < 256; e++) if (!x(S(1, b) + char(d) + char(e))) return;
	});
	static const u8 cls[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xF9, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF};
	const int C = sizeof cls;
	explore("byte classes", 32 * C, [&](u64 it) {
		int f = it / C; X x(f, f & 1); int L = 4; u64 n = 1;
		for (int l = 1; l < L; l++) { n *= C; for (u64 k = 0; k < n; k++) { S s(1, cls[it % C]); u64 y = k; for (int i = 0; i < l; i++) { s += char(cls[y % C]); y /= C; } if (!x(s)) return; } }
		if (thorough && cls[it % C] >= 0xE0) { n *= C; for (u64 k = 0; k < n; k++) { S s(1, cls[it % C]); u64 y = k; for (int i = 0; i < L; i++) { s += char(cls[y % C]); y /= C; } if (!x(s)) return; } }
	});
	VS tok; for (const char *t : {"41", "C3A9", "E6B8AC", "F09F9880", "EDA080", "EDAFBF", "EDB080", "EDBFBF", "F08DA080", "C080", "C181", "E08080", "E09FBF", "F0808080", "F08FBFBF", "F4908080", "F7BFBFBF", "F888808080", "F880808080", "FC8480808080", "FDBFBFBFBFBF", "80", "C3", "E6B8", "F09F98", "EDA0", "ED", "FF"}) tok.push_back(unhex(t));
	u64 TK = tok.size();
	explore("sequences of encoded values", 32 * TK * TK, [&](u64 it) {
		int f = it / (TK * TK); X x(f, it & 1); S a = tok[it / TK % TK] + tok[it % TK]; if (!x(a)) return;
		for (u64 i = 0; i < TK; i++) { if (!x(a + tok[i])) return; for (u64 j = 0; j < TK; j++) { if (!x(a + tok[i] + tok[j])) return; if (thorough) for (u64 k = 0; k < TK; k++) if (!x(a + tok[i] + tok[j] + tok[k])) return; } }
		sh->nontrivial++; outcome(it * 7919); if (it % 5003 == 0) { u64 e = 0; VD w = ideal(x.in, f, it & 1, e); sample(desc(f, it & 1, x.in) + " -> " + show(w) + fmt(" errors %llu", (unsigned long long)e)); }
	});
	explore("every code point in every length", 32 * 272, [&](u64 it) {
		int f = it / 272; u32 lo = it % 272 * 0x1000; if (!thorough && __builtin_popcount(f) != 0 && f != 31 && f != 8 && f != 3 && lo >= 0x12000 && lo < 0x10F000) return; X x(f, false);
		for (u32 c = lo; c < lo + 0x1000; c++) for (int n = 2; n <= 6; n++) { if (c >> (n == 2 ? 11 : 5 * n + 1)) continue; if (!x(encn(c, n))) return; }
		sh->nontrivial++;
	});
	auto lng = [&](int f, bool a, const S &spec) { S d = fmt("text %d %d ", f, a) + spec; g_describe = [d] { return d; }; sh->states++; S r = chktext(f, a, split(d, ' '), 3); g_describe = nullptr; if (r.size()) violation(d, r); return r.empty(); };
	explore("every code point in one text", 32 * 2 * 4, [&](u64 it) { // one conversion sees them all, one after another
		int f = it / 8, k = it & 3; bool a = it >> 2 & 1; if (k == 3) { for (auto s : {"all 0 110000 4", "all 10F000 112000 5", "all D7F0 E010 6"}) if (!lng(f, a, s)) return; } else if (!lng(f, a, fmt("all %X %X 0", k * 0x60000, std::min(0x112000, (k + 1) * 0x60000)))) return;
		sh->nontrivial++;
	});
	auto sz = sizes(20000, thorough ? 400 : 140);
	explore("texts of any length", 32 * TK, [&](u64 it) {
		int f = it / TK; const S &t = tok[it % TK]; int n = 0;
		for (int z : sz) if (!lng(f, ++n & 1, "rep " + hex(t) + fmt(" %ld", z))) return;
		for (int z : sz) { if (z > 700) continue; const S &u = tok[(it + z) % TK]; if (!lng(f, z & 1, "far " + hex(t) + fmt(" %ld ", z) + hex(u)) || !lng(f, z & 1, "rep " + hex(t + u) + fmt(" %ld", z))) return; }
		sh->nontrivial++;
	});
	explore("beyond U+10FFFF", 32 * 64, [&](u64 it) {
		int f = it / 64; X x(f, false); u32 step = thorough ? 257 : 4099;
		for (u64 c = (it % 64) * 0x2000000ull; c < (it % 64 + 1) * 0x2000000ull; c += step) for (int n = 4; n <= 6; n++) { if (c >> (5 * n + 1)) continue; if (!x(encn(c, n))) return; }
		for (u32 base : {0x110000u, 0x1FFFFFu, 0x200000u, 0x3FFFFFFu, 0x4000000u, 0x7FFFFFFFu}) for (int d = -3; d <= 3; d++) { u64 c = (u64)base + d; if (c > 0x7FFFFFFF) continue; for (int n = 4; n <= 6; n++) if (!(c >> (5 * n + 1)) && !x(encn(c, n))) return; }
	});
	explore("surrogate pairs", 32 * 64, [&](u64 it) {
		int f = it / 64; X x(f, false); if (!thorough && !(f == CESU || f == (CESU | LOOSE) || f == LOOSE || f == 31)) { if (it % 64) return; }
		for (u32 h = 0xD800 + it % 64 * 16; h < 0xD800 + it % 64 * 16 + 16; h++) for (u32 l = 0xDC00; l < 0xE000; l += (thorough ? 1 : 3)) if (!x(encn(h, 3) + encn(l, 3))) return;
	});
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
