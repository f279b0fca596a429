// P08: every scalar value through every Unicode encoding, against encoders written from the standards, and back;
// decoders on every byte sequence over the classes that matter.
#include "mc.hpp"
#include "ref.hpp"
#include <array>
static S be(u32 v, int n) { S r; for (int i = n - 1; i >= 0; i--) r += char(v >> 8 * i); return r; }
static S rev(const S &s, size_t u) { S r; for (size_t i = 0; i < s.size(); i += u) { S x = s.substr(i, u); std::reverse(x.begin(), x.end()); r += x; } return r; }
static S u16(u32 c) { if (c < 0x10000) return be(c, 2); if (c > 0x10FFFF) return ""; c -= 0x10000; return be(0xD800 + (c >> 10), 2) + be(0xDC00 + (c & 1023), 2); }
static S gb4(u32 n) { S r(4, 0); r[3] = 0x30 + n % 10; n /= 10; r[2] = 0x81 + n % 126; n /= 126; r[1] = 0x30 + n % 10; n /= 10; r[0] = 0x90 + n; return r; }
// name, decoder, expected bytes ("" none, "?" whatever decodes back)
struct Enc { S to, from; std::function<S(u32)> f; };
static std::vector<Enc> encs() {
	auto le16 = [](u32 c) { return rev(u16(c), 2); }; auto le32 = [](u32 c) { return rev(be(c, 4), 4); }; auto b32 = [](u32 c) { return be(c, 4); };
	auto c2 = [](u32 c) { return c > 0xFFFF ? S() : be(c, 2); }; auto l2 = [](u32 c) { return c > 0xFFFF ? S() : rev(be(c, 2), 2); };
	auto hx = [](u32 c) { return "&#x" + (c < 0x100 ? fmt("%02X", c) : c < 0x10000 ? fmt("%04X", c) : fmt("%06X", c)) + ";"; };
	auto dec = [](u32 c) { return fmt("&#%u;", c); };
	auto esc = [](const char *p) { S q = p; return [q](u32 c) { return c > 0xFFFF ? S("-") : q + fmt("%04X", c); }; };
	auto gb = [](u32 c) { return c >= 0x10000 ? gb4(c - 0x10000) : S("?"); };
	return {{"utf-8", "utf-8", utf8}, {"utf-16be", "utf-16be", u16}, {"utf-16le", "utf-16le", le16}, {"utf-16", "utf-16le", le16}, {"utf-32be", "utf-32be", b32}, {"utf-32le", "utf-32le", le32}, {"utf-32", "utf-32le", le32},
		{"ucs-4", "utf-32le", le32}, {"ucs-4be", "utf-32be", b32}, {"ucs-4le", "utf-32le", le32}, {"ucs-2be", "ucs-2be", c2}, {"ucs-2le", "ucs-2le", l2}, {"ucs-2", "ucs-2", l2},
		{"htmlentity", "htmlentity", hx}, {"ascii-hex-numeric-html-entity", "ncr", hx}, {"ascii-dec-numeric-html-entity", "ascii-numeric-html-entity", dec},
		{"java", "escape", esc("\\u")}, {"source", "escape", esc("\\u")}, {"url", "escape", esc("%u")}, {"gb18030", "gb18030", gb}, {"gb18030,any#1a", "gb18030", gb}};
}
static S sc1(Conv &to, Conv &from, const Enc &e, u32 c) {
	S want = e.f(c), got = to.encode({Datum(uni(c))}); eval(); sh->trans++; size_t oe = *to.oe;
	if (want == "-") return "";
	if (want.empty()) { if (got.size() || oe != 1) return fmt("U+%04X cannot be held, but gives %s errors %zu", c, hex(got).c_str(), oe); return ""; }
	if (want == "?" ? oe || got.empty() : got != want || oe) return fmt("U+%04X encodes to %s errors %zu instead of %s", c, hex(got).c_str(), oe, hex(want).c_str());
	VD back = from.decode(got); eval(); sh->trans++; if (c == 0 && (e.from == "utf-8" || e.from == "gb18030")) return ""; // NUL is the 00 codec's
	if (back != VD{Datum(uni(c))} || *from.ie) return fmt("U+%04X encoded as %s decodes to %s errors %zu", c, hex(got).c_str(), show(back).c_str(), (size_t)*from.ie);
	return "";
}
static bool skip(const Enc &e, u32 c) { return c == 0 && (e.to == "utf-8" || e.to.compare(0, 7, "gb18030") == 0); }
struct D16 : ref::From { bool big; D16(bool b) : big(b) {} u32 g(const S &s, size_t p) { return big ? (u8)s[p] << 8 | (u8)s[p + 1] : (u8)s[p + 1] << 8 | (u8)s[p]; }
	size_t at(const S &s, size_t p, VD &o) override { if (p + 2 > s.size()) return 0; u32 a = g(s, p); if (a >> 10 != 0x36) { o.push_back(uni(a)); return 2; } if (p + 4 > s.size()) return 0; u32 b = g(s, p + 2); if (b >> 10 != 0x37) return 0; o.push_back(uni(0x10000 + ((a & 1023) << 10) + (b & 1023))); return 4; } };
struct D32 : ref::From { bool big; D32(bool b) : big(b) {} size_t at(const S &s, size_t p, VD &o) override { if (p + 4 > s.size()) return 0; u32 v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (u8)s[p + (big ? i : 3 - i)]; o.push_back(uni(v)); return 4; } };
struct DByte : ref::From { size_t at(const S &s, size_t p, VD &o) override { o.push_back(S("\x03") + s[p]); return 1; } };
static const char *decs[] = {"utf-16be", "utf-16le", "utf-32be", "utf-32le", "ucs-2", "ucs-2be", "utf-16be,byte", "utf-16le,byte", "utf-32be,byte", "utf-32le,byte"};
static std::vector<ref::From *> model(const S &d) { static D16 b(true), l(false); static D32 B(true), L(false); static DByte y; ref::From *f = d.find("32be") != S::npos ? (ref::From *)&B : d.find("32le") != S::npos ? (ref::From *)&L : d.find("be") != S::npos ? (ref::From *)&b : &l; std::vector<ref::From *> r{f}; if (d.find(",byte") != S::npos) r.push_back(&y); return r; }
static S dc(Conv &c, const S &d, const S &in) { u64 e = 0; VD w = ref::from(model(d), in, e), g = c.decode(in); eval(); sh->trans++; return w == g && *c.ie == e ? "" : fmt("decodes to %s errors %zu instead of %s errors %llu", show(g).c_str(), (size_t)*c.ie, show(w).c_str(), (unsigned long long)e); }
// whole texts: UTF-8 in, through the encoding, UTF-8 out
static S txt(Conv &c, Conv &b, const Enc &e, const std::vector<u32> &t) {
	S in, want, wb; u64 oe = 0; bool exact = true; for (u32 x : t) { in += utf8(x); S w = e.f(x); if (w.empty()) oe++; else { want += w; wb += utf8(x); } if (w == "?" || w == "-") exact = false; }
	S out; size_t i, o; c.run1(in, out, i, o); eval(); sh->trans++; if (!exact) { for (u32 x : t) if (e.f(x) == "-") return ""; }
	if ((exact && out != want) || i || o != oe) return fmt("gives %s errors %zu/%zu instead of %s errors 0/%llu", hex(out).c_str(), i, o, hex(want).c_str(), (unsigned long long)oe);
	S back; b.run1(out, back, i, o); eval(); sh->trans++; if (back != wb || i || o) return fmt("%s comes back as %s errors %zu/%zu instead of %s", hex(out).c_str(), hex(back).c_str(), i, o, hex(wb).c_str()); return "";
}
static std::vector<u32> stretch(u32 lo, u32 hi, u32 st) { std::vector<u32> t; u32 n = hi - lo, at = 0; while (std::__gcd(st, n) != 1) st++; for (u32 i = 0; i < n; i++) { u32 c = lo + at; if (c && (c < 0xD800 || c >= 0xE000)) t.push_back(c); at = (at + st) % n; } return t; }
static S replay(const S &d) {
	if (d.compare(0, 5, "long ") == 0) { auto E = encs(); int k; u32 a, b, st; sscanf(d.c_str() + 5, "%d %u %u %u", &k, &a, &b, &st); Conv x("utf-8:" + E[k].to), y(E[k].from + ":utf-8"); return txt(x, y, E[k], stretch(a, b, st)).substr(0, 300); }
	VS w = split(d, ' '); auto E = encs();
	if (w[0] == "scalar") { const Enc &e = E[atoi(w[1].c_str())]; Conv a("pass:" + e.to), b(e.from + ":pass"); return sc1(a, b, e, strtoul(w[2].c_str(), 0, 16)); }
	if (w[0] == "decode") { Conv c(w[1] + ":pass"); return dc(c, w[1], unhex(w[2])); }
	if (w[0] == "text") { const Enc &e = E[atoi(w[1].c_str())]; Conv a("utf-8:" + e.to), b(e.from + ":utf-8"); std::vector<u32> t; for (auto &x : split(w[2], ',')) t.push_back(strtoul(x.c_str(), 0, 16)); return txt(a, b, e, t); }
	return "bad descriptor";
}
static void all() {
	static auto E = encs(); u64 NE = E.size();
	explore("every scalar, every encoding", NE * 272, [&](u64 it) {
		u64 k = it / 272; const Enc &e = E[k]; Conv a("pass:" + e.to), b(e.from + ":pass"); u32 cur; g_describe = [&] { return fmt("scalar %llu %X  ", (unsigned long long)k, cur) + e.to; };
		for (u32 c = it % 272 * 4096; c < (it % 272 + 1) * 4096; c++) { if ((c >= 0xD800 && c < 0xE000) || skip(e, c)) continue; cur = c; sh->states++; S r = sc1(a, b, e, c); if (r.size()) { violation(g_describe(), r); return; } }
		sh->nontrivial++; outcome(it * 7919); if (it % 911 == 0) sample(g_describe() + " -> " + hex(e.f(cur)));
	});
	explore("values beyond U+10FFFF", NE, [&](u64 k) {
		const Enc &e = E[k]; if (e.to.find("utf-16") == S::npos && e.to.find("ucs-2") == S::npos) return; Conv a("pass:" + e.to), b(e.from + ":pass"); u32 cur; g_describe = [&] { return fmt("scalar %llu %X  ", (unsigned long long)k, cur) + e.to; };
		for (u64 c = 0x110000; c < 0x100000000ull; c = c < 0x120000 ? c + 1 : c + c / 64) { cur = c; sh->states++; S r = sc1(a, b, e, c); if (r.size()) { violation(g_describe(), r); return; } }
	});
	static const u8 cls[] = {0x00, 0x41, 0xD7, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xFF, 0x10, 0x11, 0x01}; const u64 C = sizeof cls, D = sizeof decs / sizeof *decs;
	explore("byte sequences over classes", D * C * C, [&](u64 it) {
		S d = decs[it / (C * C)]; Conv c(d + ":pass"); S in; g_describe = [&] { return "decode " + d + " " + hex(in); };
		auto t = [&](const S &s) { in = s; sh->states++; S r = dc(c, d, s); if (r.empty()) return true; Conv n(d + ":pass"); if (dc(n, d, s).empty()) { sh->reuse++; c.reopen(); return true; } violation(g_describe(), r); return false; };
		S h; h += char(cls[it / C % C]); h += char(cls[it % C]); if (it % C == 0 && (!t("") || !t(h.substr(0, 1)))) return; if (!t(h)) return;
		u64 n = 1; for (int l = 1; l <= (thorough ? 5 : 4); l++) { n *= C; for (u64 k = 0; k < n; k++) { S s = h; u64 y = k; for (int i = 0; i < l; i++) { s += char(cls[y % C]); y /= C; } if (!t(s)) return; } }
		sh->nontrivial++; u64 e = 0; VD w = ref::from(model(d), in, e); outcome(fnv(show(w))); if (it % 331 == 0) sample(g_describe() + " -> " + show(w) + fmt(" errors %llu", (unsigned long long)e));
	});
	explore("every pair of UTF-16 units with a lead surrogate", 2 * 1024, [&](u64 it) {
		bool big = it / 1024; u32 h = 0xD800 + it % 1024; S d = big ? "utf-16be" : "utf-16le"; Conv c(d + ":pass"); S in; g_describe = [&] { return "decode " + d + " " + hex(in); };
		for (u32 l = 0; l < 0x10000; l += (l >= 0xDBF0 && l < 0xE010) || thorough || it % 1024 % 341 == 0 ? 1 : 61) { in = be(h, 2) + be(l, 2); if (!big) in = rev(in, 2); sh->states++; S r = dc(c, d, in); if (r.size()) { violation(g_describe(), r); return; } }
	});
	explore("every UTF-16 unit, every UTF-32 word of 21 bits", 2 * 64 + 2 * 512, [&](u64 it) {
		bool w32 = it >= 128; u64 k = w32 ? it - 128 : it; bool big = k & 1; S d = S(w32 ? "utf-32" : "utf-16") + (big ? "be" : "le"); Conv c(d + ":pass"); S in; g_describe = [&] { return "decode " + d + " " + hex(in); };
		u32 n = w32 ? 8192 : 1024; for (u32 v = k / 2 * n; v < (k / 2 + 1) * n; v++) { in = be(v, w32 ? 4 : 2); if (!big) in = rev(in, in.size()); sh->states++; S r = dc(c, d, in); if (r.size()) { violation(g_describe(), r); return; } }
	});
	static const std::vector<u32> rep = {0x41, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0x20AC, 0x6E2C, 0xD7FF, 0xE000, 0xE5E5, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF}; u64 R = rep.size();
	explore("texts", NE * R, [&](u64 it) {
		u64 k = it / R; const Enc &e = E[k]; Conv a("utf-8:" + e.to), b(e.from + ":utf-8"); std::vector<u32> t; g_describe = [&] { S s; for (u32 x : t) s += (s.size() ? "," : "") + fmt("%X", x); return fmt("text %llu ", (unsigned long long)k) + s; };
		auto go = [&](std::vector<u32> v) { t = v; sh->states++; S r = txt(a, b, e, v); if (r.empty()) return true; violation(g_describe(), r); return false; };
		u32 x = rep[it % R]; for (u32 y : rep) { if (!go({x, y})) return; for (u32 z : rep) { if (!go({x, y, z})) return; if (thorough || R * R * R < 1) for (u32 q : rep) if (!go({x, y, z, q})) return; } }
	});
	{ std::vector<std::array<u32, 3>> st = {{0, 0x110000, 1}, {0, 0x110000, 65537}, {0, 0x10000, 257}, {0x10000, 0x110000, 4099}, {0x20, 0x7F, 1}, {0xFF00, 0x10100, 7}}; for (long n : sizes(thorough ? 66000 : 4200, 20)) if (n > 1) { st.push_back({0xFFFFu - u32(n) / 2, 0xFFFFu + u32(n) - u32(n) / 2, 1}); st.push_back({0x4E00u, 0x4E00u + u32(n), 3}); }
	explore("long texts", NE * st.size(), [&](u64 it) { int k = it % NE; auto &q = st[it / NE]; if (E[k].to == "gb18030" && 0) return; S d = fmt("long %d %u %u %u", k, q[0], q[1], q[2]); g_describe = [&] { return d; }; Conv a("utf-8:" + E[k].to), b(E[k].from + ":utf-8"); sh->states++; S r = txt(a, b, E[k], stretch(q[0], q[1], q[2])); outcome(fnv(d)); if (r.size()) violation(d, r.substr(0, 300)); }); }
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
