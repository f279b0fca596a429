// P04: every decoder and encoder table against the frozen published tables, over all codes / all code points.
#include "ref.hpp"
using namespace ref;
// ---- GB18030 four-byte codes, straight from the definition: the BMP characters which have no one- or two-byte code, in order; the supplementary planes from 90308130
static std::vector<u32> gb4; static std::unordered_map<u32, u32> gb4r;
static void gb4_init(const Table *t) {
	std::set<u32> two; for (auto &e : t->exact) if (e.first.size() == 2) two.insert(ununi(e.second[0].d));
	for (u32 c = 0x80; c < 0x10000; c++) if (!(c >= 0xD800 && c < 0xE000) && !two.count(c)) { gb4r[c] = gb4.size(); gb4.push_back(c); }
}
struct GBFrom : From {
	const Table *t; GBFrom(const Table *x) : t(x) {}
	size_t at(const S &in, size_t p, VD &o) override {
		VD v2; size_t n = 0;
		if (p + 2 <= in.size()) { auto it = t->exact.find(in.substr(p, 2)); if (it != t->exact.end()) { n = 2; v2 = it->second; } }
		if (p + 4 <= in.size()) {
			u8 a = in[p], b = in[p + 1], c = in[p + 2], d = in[p + 3];
			if (a >= 0x81 && a <= 0xFE && b >= 0x30 && b <= 0x39 && c >= 0x81 && c <= 0xFE && d >= 0x30 && d <= 0x39) {
				u32 l = (((a - 0x81) * 10 + b - 0x30) * 126 + c - 0x81) * 10 + d - 0x30;
				if (l < gb4.size()) { o.push_back(uni(gb4[l])); return 4; }
				if (l >= 189000 && l - 189000 + 0x10000 <= 0x10FFFF) { o.push_back(uni(l - 189000 + 0x10000)); return 4; }
			}
		}
		o = v2; return n;
	}
};
struct GBTo : Data {
	const Table *t; GBTo(const Table *x) : t(x) {}
	size_t at(const VD &in, size_t p, VD &o) override {
		int64_t c = ununi(in[p].d); if (c < 0 || in[p].d != uni(c)) return 0;
		auto it = t->exact.find(Table::pack(in, p, 1)); if (it != t->exact.end() && it->second[0].d.size() < 4) { o = it->second; return 1; }
		u32 l; if (c >= 0x10000 && c <= 0x10FFFF) l = 189000 + c - 0x10000; else { auto g = gb4r.find(c); if (g == gb4r.end()) return 0; l = g->second; }
		S s(4, 0); s[3] = 0x30 + l % 10; l /= 10; s[2] = 0x81 + l % 126; l /= 126; s[1] = 0x30 + l % 10; s[0] = 0x81 + l / 10; o.push_back(s); return 1;
	}
};
// Microsoft's end-user-defined areas of code page 950: rows of 157
struct UDA : From {
	size_t at(const S &in, size_t p, VD &o) override {
		if (p + 2 > in.size()) return 0; u8 h = in[p], d = in[p + 1]; int col;
		if (d >= 0x40 && d <= 0x7E) col = d - 0x40; else if (d >= 0xA1 && d <= 0xFE) col = d - 0xA1 + 63; else return 0;
		u32 u;
		if (h >= 0xFA && h <= 0xFE) u = 0xE000 + (h - 0xFA) * 157 + col; else if (h >= 0x8E && h <= 0xA0) u = 0xE311 + (h - 0x8E) * 157 + col; else if (h >= 0x81 && h <= 0x8D) u = 0xEEB8 + (h - 0x81) * 157 + col;
		else if (h >= 0xC6 && h <= 0xC8) { int k = (h - 0xC6) * 157 + col - 63; if (k < 0) return 0; u = 0xF6B1 + k; } else return 0;
		o.push_back(uni(u)); return 2;
	}
};
// ---- UTF-8 (strict; ASCII excluded)
struct U8From : From {
	size_t at(const S &in, size_t p, VD &o) override {
		u8 a = in[p]; int n = a >= 0xC2 && a < 0xE0 ? 2 : a >= 0xE0 && a < 0xF0 ? 3 : a >= 0xF0 && a <= 0xF4 ? 4 : 0; if (!n || p + n > in.size()) return 0;
		u32 c = n == 2 ? a & 31 : n == 3 ? a & 15 : a & 7; for (int i = 1; i < n; i++) { u8 b = in[p + i]; if ((b & 0xC0) != 0x80) return 0; c = c << 6 | (b & 63); }
		if ((n == 3 && c < 0x800) || (n == 4 && (c < 0x10000 || c > 0x10FFFF)) || (c >= 0xD800 && c < 0xE000)) return 0;
		o.push_back(uni(c)); return n;
	}
};
struct AnyFrom : From { VD v; AnyFrom(VD x) : v(x) {} size_t at(const S &, size_t, VD &o) override { o = v; return 1; } };
static S up(S s) { for (auto &c : s) c = toupper(c); return s; }
static std::map<S, S> aliases(const S &kind) { std::map<S, S> r; std::ifstream f(g_data + "/" + kind + "/alias"); S l; while (std::getline(f, l)) { size_t h = l.find('#'); if (l.empty() || h == 0) continue; std::istringstream s(l); S a, b; s >> a >> b; if (b.size()) r[a] = b; } return r; }
static std::map<S, S> af, at_;
static VS expand(const S &name, const std::map<S, S> &al, int depth = 0) { auto it = al.find(up(name)); if (it == al.end() || depth > 8) return {up(name)}; VS r; for (auto &x : split(it->second, ',')) for (auto &y : expand(x, al, depth + 1)) r.push_back(y); return r; }
static bool fcodecs(const S &name, std::vector<From *> &v) {
	for (auto &n : expand(name, af)) {
		if (n == "_GB18030") v.push_back(new GBFrom(table(g_data, "from/_GB18030"))); else if (n == "CP950-UDA") v.push_back(new UDA); else if (n == "_UTF-8") v.push_back(new U8From);
		else if (n.find('#') != S::npos) return false;
		else { Table *t = table(g_data, "from/" + n); if (t->native) return false; v.push_back(new TFrom(t)); }
	}
	return true;
}
static bool tcodecs(const S &name, std::vector<Data *> &v) {
	for (auto &n : expand(name, at_)) { if (n == "_GB18030") v.push_back(new GBTo(table(g_data, "to/_GB18030"))); else if (n.find('#') != S::npos) return false; else { Table *t = table(g_data, "to/" + n); if (t->native) return false; v.push_back(new TData(t)); } }
	return true;
}
static const VS FROMS = {"ASCII", "00", "BYTE", "HEX", "BSDCONV-KEYWORD", "BIG5-5C", "FALLBACK-UNICODE", "_CP1251", "_CP1252", "_CP1253", "_CP1254", "_CP1255", "_CP1256", "_CP1257", "_CP1258", "_CP874", "_CP932", "_CP949", "_GB18030", "_GBK", "_HKSCS2004", "_ISO-8859-1", "_JIS0201", "_JIS0208", "_JIS0212", "_SHIFT-JIS", "_UAO250", "_BIG5E", "_BIG5-2003", "_BIG5-ETEN", "_CP936", "_CP950", "_HKSCS1999", "_HKSCS2001", "_GB2312", "_UAO241", "CP950-UDA", "CCCII",
	"BIG5", "BIG5E", "BIG5-2003", "BIG5-ETEN", "MOZ18", "CP1251", "CP1252", "CP1253", "CP1254", "CP1255", "CP1256", "CP1257", "CP1258", "CP874", "CP932", "CP936", "CP949", "CP950", "GB18030", "GB2312", "GBK", "HKSCS1999", "HKSCS2001", "HKSCS2004", "ISO-8859-1", "LATIN1", "SHIFT-JIS", "UAO241", "UAO250", "UTF-8"};
static const VS TOS = {"ASCII", "00", "BYTE", "HEX", "BSDCONV-KEYWORD", "BIG5-5C", "_CP1251", "_CP1252", "_CP1253", "_CP874", "_CP936", "CP936-TRANS", "_CP949", "_CP950", "CP950-TRANS", "_GB18030", "_GBK", "_ISO-8859-1", "_JIS0212", "_SHIFT-JIS", "_UAO250", "CCCII", "_GB2312", "_UAO241", "IBM-37", "ASCII-NAMED-HTML-ENTITY",
	"UAO", "BIG5", "CP1251", "CP1252", "CP1253", "CP874", "CP936", "CP949", "CP950", "GB18030", "GB2312", "GBK", "ISO-8859-1", "JIS", "SHIFT-JIS", "UAO241", "UAO250"};
struct FM { S name; std::vector<From *> m; }; struct TM { S name; std::vector<Data *> m; };
static std::vector<FM> fm; static std::vector<TM> tm_;
static S show(const VD &v, u64 e) { return mc::show(v) + fmt(" errors %llu", (unsigned long long)e); }
static S dec(Conv &c, FM &f, const S &in) { u64 e = 0; VD w = from(f.m, in, e); VD g = c.decode(in); return g == w && *c.ie == e ? "" : "table says " + show(w, e) + ", decoder gives " + show(g, *c.ie); }
static S enc(Conv &c, TM &t, const VD &in) { u64 e = 0; VD w = to(t.m, in, e); VD g = c.run_list(in); return cat(g) == cat(w) && *c.oe == e ? "" : "table says " + show(w, e) + ", encoder gives " + show(g, *c.oe); }
static void setup() {
	af = aliases("from"); at_ = aliases("to"); gb4_init(table(g_data, "from/_GB18030"));
	for (auto &n : FROMS) { FM f{n}; if (!fcodecs(n, f.m)) { fprintf(stderr, "no model for %s\n", n.c_str()); exit(3); } fm.push_back(f); }
	for (auto &n : TOS) { TM t{n}; if (!tcodecs(n, t.m)) { fprintf(stderr, "no model for %s\n", n.c_str()); exit(3); } tm_.push_back(t); }
}
static S fconv(const S &n) { return n + ":pass"; }
static S tconv(const S &n) { return "pass:" + n; }
// everything in one input: all codes, or all code points of a stretch, in some order
static S allcodes(FM &f, int order) {
	S in; auto ok = [&](const S &x) { u64 e = 0; VD r = from(f.m, x, e); return !e && r.size() == 1; }; std::vector<S> v; for (int a = 0; a < 256; a++) { if (ok(S(1, a))) v.push_back(S(1, a)); else for (int b = 0; b < 256; b++) { S x = S(1, a) + char(b); if (ok(x)) v.push_back(x); } }
	size_t n = v.size(), st = order == 0 ? 1 : order == 1 ? n - 1 : order == 2 ? 7919 : 641; if (order == 3) for (int i = 0; i < 256; i += 3) v.push_back(S(1, i)); n = v.size(); if (!n) return ""; while (std::__gcd(st, n) != 1) st++; size_t at = 0; for (size_t i = 0; i < n; i++) { in += v[at]; at = (at + st) % n; }
	Conv c(fconv(f.name)); if (!c.p) return "cannot be created"; u64 e = 0; VD w = from(f.m, in, e), g = c.decode(in); eval(); size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++; return w == g && *c.ie == e ? "" : fmt("%zu bytes: as the table says up to datum %zu of %zu", in.size(), i, w.size());
}
static S allpoints(TM &t, u32 lo, u32 hi, int st) {
	VD in; u32 n = hi - lo, at = 0; while (std::__gcd<u32>(st, n) != 1) st++; for (u32 i = 0; i < n; i++) { in.push_back(uni(lo + at)); at = (at + st) % n; } Conv c(tconv(t.name)); if (!c.p) return "cannot be created"; u64 e = 0; S w = cat(to(t.m, in, e)), g = cat(c.run_list(in)); eval(); size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++; return w == g && *c.oe == e ? "" : fmt("%u characters: as the table says up to byte %zu of %zu", n, i, w.size());
}
static S replay(const S &d) {
	if (fm.empty()) setup();
	VS w = split(d, ' '); if (w.size() < 3) return "bad descriptor";
	if (w[0] == "allcodes") { for (auto &f : fm) if (f.name == w[1]) return allcodes(f, atoi(w[2].c_str())); return "bad descriptor"; } if (w[0] == "allpoints") { for (auto &t : tm_) if (t.name == w[1] && w.size() > 4) return allpoints(t, atoi(w[2].c_str()), atoi(w[3].c_str()), atoi(w[4].c_str())); return "bad descriptor"; }
	if (w[0] == "decode") { for (auto &f : fm) if (f.name == w[1]) { Conv c(fconv(f.name)); return c.p ? dec(c, f, unhex(w[2])) : "cannot be created"; } }
	else for (auto &t : tm_) if (t.name == w[1]) { Conv c(tconv(t.name)); return c.p ? enc(c, t, unshow(w[2])) : "cannot be created"; }
	return "bad descriptor";
}
static void all() {
	setup();
	// per decoder 257 items: all one- and two-byte inputs by lead byte, then contexts
	explore("decoders", fm.size() * 257, [&](u64 it) {
		auto &f = fm[it / 257]; int lead = it % 257; S in; g_describe = [&] { return "decode " + f.name + " " + hex(in); };
		Conv c(fconv(f.name)); if (!c.p) { violation("decode " + f.name + " ", "cannot be created"); return; }
		auto chk = [&](const S &s) {
			in = s; eval(); sh->states++; S w = dec(c, f, s); if (w.empty()) return true;
			Conv x(fconv(f.name)); w = dec(x, f, s); if (w.empty()) { sh->reuse++; c.reopen(); return true; }
			violation("decode " + f.name + " " + hex(s), w); return false;
		};
		if (lead == 256) { chk(""); return; }
		if (!chk(S(1, lead))) return;
		bool three = f.name == "CCCII";
		bool gb = f.name.find("GB18030") != S::npos;
		const u8 tails[] = {0x00, 0x30, 0x41, 0x5C, 0x81, 0xA1, 0xFF};
		u64 h = 0;
		for (int b = 0; b < 256; b++) {
			S s2 = S(1, lead) + char(b); if (!chk(s2)) return;
			u64 e = 0; VD r = from(f.m, s2, e); if (!e && r.size() == 1) { sh->nontrivial++; outcome(fnv(f.name, fnv(s2))); }
			if (three && lead >= 0x20 && lead < 0x80) { for (int t = 0; t < 256; t++) if (!chk(s2 + char(t))) return; }
			else { bool full = thorough; for (u8 t : tails) if (full || e == 0) if (!chk(s2 + char(t))) return; }
			if (gb && lead >= 0x80 && b >= 0x2F && b <= 0x3A) {
				bool every = lead <= 0x85 || (lead >= 0x90 && lead <= 0x91) || lead == 0xE3 || lead == 0xFE || thorough;
				for (int t = 0x80; t <= 0xFF; t++) for (int q = 0x2F; q <= 0x3A; q++) if (every || (t + q) % 7 == 0) if (!chk(s2 + char(t) + char(q))) return;
				for (int t = 0; t < 256; t += 5) for (int q = 0; q < 256; q += 5) if (!chk(s2 + char(t) + char(q))) return;
			}
		}
		if (lead == 0xA4 || lead == 0x41) { u64 e = 0; sample("decode " + f.name + " " + hex(S(1, lead) + "\xA4") + " -> " + show(from(f.m, S(1, lead) + "\xA4", e), e)); }
	});
	explore("all codes in one input", fm.size() * 4, [&](u64 it) { S d = "allcodes " + fm[it / 4].name + fmt(" %d", int(it % 4)); g_describe = [&] { return d; }; sh->states++; S r = allcodes(fm[it / 4], it % 4); outcome(fnv(d)); if (r.size()) violation(d, r); });
	explore("all code points in one input", tm_.size() * 5, [&](u64 it) { u32 st[] = {0, 0, 0x4E00, 0xE000, 0x1F000}, en[] = {0x10000, 0x3000, 0xA000, 0x10000, 0x30000}; int sp[] = {1, 4099, 7919, 1, 257}; int k = it % 5; S d = "allpoints " + tm_[it / 5].name + fmt(" %u %u %d", st[k], en[k], sp[k]); g_describe = [&] { return d; }; sh->states++; S r = allpoints(tm_[it / 5], st[k], en[k], sp[k]); outcome(fnv(d)); if (r.size()) violation(d, r); });
	// two codes in a row: every pair of code classes
	explore("pairs of codes", fm.size(), [&](u64 it) {
		auto &f = fm[it]; S in; g_describe = [&] { return "decode " + f.name + " " + hex(in); };
		Conv c(fconv(f.name));
		const u8 rep[] = {0x00, 0x1B, 0x30, 0x40, 0x41, 0x5C, 0x7E, 0x7F, 0x80, 0x81, 0x88, 0x8E, 0xA0, 0xA1, 0xA4, 0xB0, 0xC6, 0xC9, 0xE0, 0xF9, 0xFA, 0xFE, 0xFF};
		int n = sizeof rep, L = thorough ? 5 : 4;
		std::vector<int> ix; for (int len = 3; len <= L; len++) {
			u64 tot = 1; for (int i = 0; i < len; i++) tot *= n;
			for (u64 k = 0; k < tot; k++) {
				u64 x = k; in.clear(); for (int i = 0; i < len; i++) { in += char(rep[x % n]); x /= n; }
				if (len == 5 && k % 3) continue;
				eval(); S w = dec(c, f, in);
				if (w.size()) { Conv y(fconv(f.name)); w = dec(y, f, in); if (w.size()) { violation("decode " + f.name + " " + hex(in), w); return; } sh->reuse++; c.reopen(); }
			}
		}
	});
	// encoders: every code point
	const int B = 64; u64 per = 0x110000 / B + 1;
	explore("encoders", tm_.size() * B, [&](u64 it) {
		auto &t = tm_[it / B]; u64 lo = (it % B) * per, hi = std::min<u64>(0x110000, lo + per); VD in; g_describe = [&] { return "encode " + t.name + " " + mc::show(in); };
		Conv c(tconv(t.name)); if (!c.p) { violation("encode " + t.name + " ", "cannot be created"); return; }
		auto chk = [&](const VD &v) {
			in = v; eval(); sh->states++; S w = enc(c, t, v); if (w.empty()) return true;
			Conv x(tconv(t.name)); w = enc(x, t, v); if (w.empty()) { sh->reuse++; c.reopen(); return true; }
			violation("encode " + t.name + " " + mc::show(v), w); return false;
		};
		for (u64 u = lo; u < hi; u++) {
			if (!chk({Datum(uni(u))})) return;
			u64 e = 0; VD o = to(t.m, {Datum(uni(u))}, e); if (!e) { outcome(fnv(t.name, u)); sh->nontrivial++; if ((u & 15) == 0 || thorough) if (!chk({Datum(uni(u)), Datum(uni(u ^ 1)), Datum(uni(u))})) return; }
		}
		if (it % B == 0) { // other types of data, and the same bytes under another type
			for (int ty : {0x00, 0x02, 0x03, 0x1B, 0x7F}) for (int a = 0; a < 256; a++) { if (!chk({Datum(S(1, ty) + char(a))})) return; for (int b = 0; b < 256; b += (thorough ? 1 : 15)) if (!chk({Datum(S(1, ty) + char(a) + char(b))})) return; }
			// longer data which begin like a known one
			for (u32 u : {0x41u, 0xA7u, 0x100u, 0x4E00u, 0xFF01u, 0x203Eu}) for (int b = 0; b < 256; b++) { if (!chk({Datum(uni(u) + char(b))})) return; if (!chk({Datum(uni(u) + char(b) + char(b))})) return; }
			if (!chk({Datum(S(1, 1))}) || !chk({})) return;
		}
	});
	// keys of several characters: each key, each proper prefix, each key followed by another character
	explore("sequence keys", tm_.size(), [&](u64 it) {
		auto &t = tm_[it]; VD in; g_describe = [&] { return "encode " + t.name + " " + mc::show(in); }; Conv c(tconv(t.name));
		std::vector<VD> keys;
		for (auto &n : expand(t.name, at_)) { Table *tb = table(g_data, "to/" + n); for (auto &e : tb->exact) { VD k; for (size_t i = 0; i < e.first.size();) { size_t l = (u8)e.first[i]; k.push_back(Datum(e.first.substr(i + 1, l))); i += l + 1; } if (k.size() > 1) keys.push_back(k); } }
		for (auto &k : keys) for (size_t cut = 1; cut <= k.size(); cut++) for (int tail = 0; tail < 4; tail++) {
			in = VD(k.begin(), k.begin() + cut); if (tail == 1) in.push_back(uni(0x41)); if (tail == 2) in.push_back(k[0]); if (tail == 3) in.push_back(uni(0x10FFFD));
			eval(); S w = enc(c, t, in); if (w.size()) { Conv x(tconv(t.name)); w = enc(x, t, in); if (w.size()) { violation("encode " + t.name + " " + mc::show(in), w); return; } sh->reuse++; c.reopen(); }
		}
	});
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
