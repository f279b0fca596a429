// P10: character transformations: every table-driven INTER codec against the frozen tables read by an independent
// interpreter, case mappings against Unicode data, width forms against each other.
#include "mc.hpp"
#include "ref.hpp"
#include "uni.hpp"
static S TD, UD;
static const char *codecs[] = {"UPPER", "LOWER", "CASEFOLD", "FULL", "HALF", "SUPER", "SUB", "UPSIDEDOWN", "ASCIIFOLD", "KANA-PHONETIC", "KANJI", "HANJA", "ZHTW", "ZHCN", "ZHTW-WORDS", "ZH-FUZZY-TW", "ZH-FUZZY-CN", "BMP-TRANS-TW", "BMP-TRANS-CN", "NL2BR", "UNIX", "WIN", "MAC", "ALIAS-FILTER", "_NFC-MAP", "_NFD", "_NFKD", "ZH-BONUS", "ZH-BONUS-PHRASE",
	"ZHTW-WORDS,ZHTW", "ZHTW:ZHTW-WORDS", "ZHCN:ZHTW", "UPPER,LOWER", "FULL:HALF", "HALF:FULL", "SUPER,SUB", "KANA-PHONETIC,KANJI", "ZH-BONUS-PHRASE,ZH-BONUS", "UPSIDEDOWN:UPSIDEDOWN"};
static const int NC = sizeof codecs / sizeof *codecs;
// ZH-BONUS entries carry their weight in front of the data (typed weight first): a table with the weights taken off
static const ref::Table *tab(const S &n) {
	static std::map<S, ref::Table *> bonus;
	if (n.find("BONUS") == S::npos) return ref::table(TD, "inter/" + n);
	auto &t = bonus[n]; if (!t) { t = new ref::Table; std::ifstream f(TD + "/inter/" + n + ".txt"); S l, o; while (std::getline(f, l)) { size_t p = l.find('?'); if (l[0] != '#' && p != S::npos) l = l.substr(0, p) + l.substr(l.find(',', p) + 1); o += l + "\n"; } t->parse(o, false);
		std::vector<S> ext; for (auto &a : t->exact) for (size_t n = 1 + (u8)a.first[0]; n < a.first.size(); n += 1 + (u8)a.first[n]) if (t->exact.count(a.first.substr(0, n))) { ext.push_back(a.first); break; } // scored as soon as an entry is complete
		for (auto &e : ext) t->exact.erase(e); }
	return t;
}
static VD ideal(const S &conv, VD v) {
	for (auto &ph : split(conv, ':')) { std::vector<ref::TData> t; for (auto &c : split(ph, ',')) t.emplace_back(tab(c)); std::vector<ref::Data *> p; for (auto &x : t) p.push_back(&x); v = ref::inter(p, v); }
	return v;
}
static S name(const S &c) { return c.find(':') == S::npos ? c : "pass:" + c + ":pass"; }
static S chk(Conv &c, const S &k, const VD &in) { VD w = ideal(k, in), g = c.run_list(in); eval(); sh->trans++; return w == g && !*c.ie && !*c.oe ? "" : fmt("gives %s instead of %s", show(g).c_str(), show(w).c_str()); }
struct X { Conv c; S k; VD in; X(const S &k_) : c(name(k_)), k(k_) { g_describe = [this] { return "table " + k + " " + show(in); }; } ~X() { g_describe = nullptr; }
	bool operator()(const VD &v) { in = v; sh->states++; S r = chk(c, k, v); if (r.empty()) return true; Conv n(name(k)); if (chk(n, k, v).empty()) { sh->reuse++; c.reopen(); return true; } violation(g_describe(), r); return false; } };
// case against Unicode
static const char *cs[] = {"upper", "lower", "casefold", "nfkd-casefold"};
static ucd::T mp(std::unordered_map<u32, ucd::T> &m, const ucd::T &t) { ucd::T r; for (u32 c : t) { auto i = m.find(c); if (i == m.end()) r.push_back(c); else r.insert(r.end(), i->second.begin(), i->second.end()); } return r; }
static ucd::T fold(int k, const ucd::T &t) { switch (k) { case 0: return mp(ucd::up, t); case 1: return mp(ucd::lo, t); case 2: return mp(ucd::fold, t); } return ucd::nf(mp(ucd::fold, ucd::nf(mp(ucd::fold, ucd::nf(t, 0)), 1)), 1); }
static S chkcase(Conv &c, int k, const ucd::T &t) { VD w = ucd::data(fold(k, t)), g = c.run_list(ucd::data(t)); eval(); sh->trans++; return w == g ? "" : fmt("gives %s instead of %s", show(g).c_str(), show(w).c_str()); }
static S width(Conv &f, Conv &h, u32 c) { // c: an ASCII character, or a full-width form
	u32 w = c == 0x20 ? 0x3000 : c + 0xFEE0; VD a{Datum(uni(c))}, b{Datum(uni(w))}; VD x = f.run_list(a), y = h.run_list(b), z = f.run_list(b), u = h.run_list(a); eval(4); sh->trans += 4;
	return x == b && y == a && z == b && u == a ? "" : fmt("full %s half %s, of the full one %s, of the half one %s", show(x).c_str(), show(y).c_str(), show(z).c_str(), show(u).c_str());
}
// long lists: every STEP-th code point of a range, B between them if not 0, everything N times
static S chklong(Conv &c, const S &k, const VS &w, size_t i) {
	u32 lo = strtoul(w[i].c_str(), 0, 16), hi = strtoul(w[i + 1].c_str(), 0, 16), st = atoi(w[i + 2].c_str()), b = strtoul(w[i + 3].c_str(), 0, 16), n = atoi(w[i + 4].c_str()); VD v;
	for (; n; n--) for (u32 x = lo; x < hi; x += st) { v.push_back(Datum(uni(x))); if (b) v.push_back(Datum(uni(b))); }
	VD o = ideal(k, v), g = c.run_list(v); eval(); sh->trans++; size_t p = 0; while (p < o.size() && p < g.size() && o[p] == g[p]) p++;
	return o == g && !*c.ie && !*c.oe ? "" : fmt("differs at datum %zu of %zu (%zu given) errors %zu %zu: %s instead of %s", p, o.size(), g.size(), (size_t)*c.ie, (size_t)*c.oe, p < g.size() ? show({g[p]}).c_str() : "", p < o.size() ? show({o[p]}).c_str() : "");
}
static void dirs() { TD = g_data; UD = g_data; ucd::load(UD); }
static S replay(const S &d) {
	dirs(); VS w = split(d, ' ');
	if (w[0] == "table") { Conv c(name(w[1])); return c.p ? chk(c, w[1], unshow(w.size() > 2 ? w[2] : "")) : "cannot be created"; }
	if (w[0] == "long" && w.size() > 6) { Conv c(name(w[1])); return c.p ? chklong(c, w[1], w, 2) : "cannot be created"; }
	if (w[0] == "case") { int k = atoi(w[1].c_str()); Conv c(k == 3 ? S("pass:nfkd-casefold:pass") : S(cs[k])); return chkcase(c, k, ucd::list(w[2])); }
	if (w[0] == "width") { Conv f("full"), h("half"); return width(f, h, strtoul(w[1].c_str(), 0, 16)); }
	return "bad descriptor";
}
static void all() {
	dirs();
	for (auto c : codecs) for (auto &p : split(c, ':')) for (auto &q : split(p, ',')) tab(q);
	explore("every code point and other data", NC * 272, [&](u64 it) {
		X x(codecs[it / 272]); VD a = {Datum(uni(0x61))};
		for (u32 c = it % 272 * 4096; c < (it % 272 + 1) * 4096; c++) {
			Datum d(uni(c)); if (!x({d})) return; S o = d.d; o[0] = 3; if (c < 0x10000) { if (!x({Datum(o)})) return; o[0] = 2; if (!x({Datum(o, 1), d})) return; if (!x({Datum(d.d, 1)})) return; if (!x({d, d})) return; }
			if (c < 0x3000 || (c & 15) == 3) { S z = d.d; z.insert(1, 1, 0); if (c && !x({Datum(z)})) return; if (!x({Datum(d.d + S(1, 0))})) return; if (!x({a[0], d, a[0], d})) return; }
		}
		sh->nontrivial++; outcome(it * 7919); if (it % 977 == 0) sample(x.k + " " + show(x.in) + " -> " + show(ideal(x.k, x.in)));
	});
	static const char *ranges[] = {"0 110000 1 0 1", "0 110000 1 61 1", "0 30000 1 301 1", "0 110000 7 0 1", "0 110000 4099 0 60", "0 3000 1 0 9", "61 62 1 0 20000", "E0 100 1 0 700", "30A0 3100 1 3099 99", "4E00 A000 1 0 2", "D 8 1 0 1", "D E 1 0 5000", "A E 3 0 3000", "A B 1 0 5000"};
	const int NR = sizeof ranges / sizeof *ranges;
	explore("long lists", NC * NR, [&](u64 it) { S k = codecs[it % NC], d = "long " + k + " " + ranges[it / NC]; g_describe = [d] { return d; }; Conv c(name(k)); sh->states++; S r = chklong(c, k, split(d, ' '), 2); if (r.size()) violation(d, r); else { r = chklong(c, k, split(d, ' '), 2); if (r.size()) violation(d, r); } g_describe = nullptr; sh->nontrivial++; outcome(fnv(d)); });
	explore("every listed sequence, its beginnings and what may follow", NC * 16, [&](u64 it) {
		S k = codecs[it / 16]; X x(k); std::vector<VD> keys; std::set<Datum> heads; // keys of every table involved
		for (auto &ph : split(k, ':')) for (auto &c : split(ph, ',')) for (auto &e : tab(c)->exact) { VD v; const S &p = e.first; for (size_t i = 0; i < p.size(); i += (u8)p[i] + 1) v.push_back(Datum(p.substr(i + 1, (u8)p[i]))); if (v.size() > 1) { keys.push_back(v); heads.insert(v[0]); } }
		std::sort(keys.begin(), keys.end()); Datum A(uni(0x61)), Z(uni(0x10FFFF));
		for (size_t i = it % 16; i < keys.size(); i += 16) { const VD &v = keys[i];
			VD two = v; two.insert(two.end(), v.begin(), v.end()); if (!x(v) || !x(two)) return;
			for (size_t n = 1; n <= v.size(); n++) for (size_t m = 0; m <= v.size(); m++) { VD p(v.begin(), v.begin() + n); p.insert(p.end(), v.begin(), v.begin() + m); if (!x(p)) return; p.push_back(A); if (!x(p)) return; VD q(v.begin(), v.begin() + n); q.insert(q.begin(), Z); q.insert(q.end(), v.begin() + m, v.end()); if (!x(q)) return; }
			for (auto &h : heads) for (size_t n = 1; n <= v.size(); n++) { VD p(v.begin(), v.begin() + n); p.push_back(h); if (!x(p)) return; p.insert(p.begin(), h); if (!x(p)) return; }
			for (size_t j = 0; j < v.size(); j++) { VD p = v; p[j].mark = 1; if (!x(p)) return; p[j] = A; if (!x(p)) return; p[j].d[0] = 3; if (!x(p)) return; }
		}
		if (keys.size()) { sh->nontrivial++; outcome(it * 104729); }
	});
	explore("all sequences over the characters of short tables", NC, [&](u64 it) {
		S k = codecs[it]; X x(k); std::map<Datum, int> cnt; for (auto &ph : split(k, ':')) for (auto &c : split(ph, ',')) for (auto &e : tab(c)->exact) { const S &p = e.first; for (size_t i = 0; i < p.size(); i += (u8)p[i] + 1) if (p.size() > (u8)p[0] + 1u || tab(c)->exact.size() < 40) cnt[Datum(p.substr(i + 1, (u8)p[i]))]++; }
		std::vector<std::pair<int, Datum>> o; for (auto &e : cnt) o.push_back({-e.second, e.first}); std::sort(o.begin(), o.end()); VD al; for (auto &e : o) if (al.size() < 11) al.push_back(e.second); al.push_back(Datum(uni(0x41))); al.push_back(Datum(uni(0x41), 1)); u64 N = al.size(), n = 1;
		for (int l = 0; l <= (thorough ? 5 : 4); l++) { for (u64 i = 0; i < n; i++) { VD v; u64 z = i; for (int j = 0; j < l; j++) { v.push_back(al[z % N]); z /= N; } if (!x(v)) return; } n *= N; }
	});
	u64 NA = ucd::assigned.size(), CH = (NA + 4095) / 4096;
	explore("case against Unicode data", 4 * CH, [&](u64 it) {
		int k = it & 3; Conv c(k == 3 ? S("pass:nfkd-casefold:pass") : S(cs[k])); ucd::T t; g_describe = [&] { return fmt("case %d ", k) + ucd::str(t); };
		for (u64 i = it / 4 * 4096; i < std::min(NA, (it / 4 + 1) * 4096); i++) { u32 a = ucd::assigned[i]; for (t = {a}; t.size() < 4; t.push_back(t.size() == 1 ? 0x345 : a)) { sh->states++; S r = chkcase(c, k, t); if (r.size()) { violation(g_describe(), r); return; } } }
	});
	explore("full and half width undo each other", 1, [&](u64) { Conv f("full"), h("half"); u32 cur; g_describe = [&] { return fmt("width %X", cur); }; for (u32 c = 0x20; c < 0x7F; c++) { cur = c; sh->states++; S r = width(f, h, c); if (r.size()) violation(g_describe(), r); } });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
