// P20: encodings with shift state: decoders against automata written from the standards, encoders against theirs, and back.
#include "mc.hpp"
#include "ref.hpp"
static S TD;
// ---- decoders
// ISO-2022-JP with JIS X 0201 (Roman, katakana) and JIS X 0212; a truncated sequence at the end leaves the initial state
struct Jis : ref::From { int mode; void start() override { mode = 0; }
	size_t at(const S &s, size_t p, VD &o) override {
		if (s[p] == 0x1B) { struct E { const char *e; int m; }; static const E es[] = {{"\x1B(B", 0}, {"\x1B(J", 1}, {"\x1B(I", 2}, {"\x1B$@", 3}, {"\x1B$B", 3}, {"\x1B$(D", 4}}; S r = s.substr(p, 4); for (auto &e : es) { S w = e.e; if (r.compare(0, w.size(), w) == 0) { mode = e.m; return w.size(); } if (r.size() < w.size() && w.compare(0, r.size(), r) == 0) { mode = 0; return 0; } } return 0; }
		S k; static const char *t[] = {"", "from/_JIS0201", "from/_JIS0201", "from/_JIS0208", "from/_JIS0212"}; if (mode == 0) return 0;
		if (mode < 3) { u8 c = s[p]; if (mode == 2 && c >= 0x21 && c <= 0x5F) c |= 0x80; return ref::table(TD, t[mode])->match(S(1, c), 0, o) ? 1 : 0; }
		if (p + 2 > s.size()) { mode = 0; return 0; } return ref::table(TD, t[mode])->match(s.substr(p, 2), 0, o); } };
// EBCDIC: one byte a code after SI, two after SO; a byte which begins no code there counts for itself
struct Ebc : ref::From { struct T { bool has[256] = {}; VD sb[256]; std::map<S, VD> db; }; T *t; int mode; static std::map<S, T *> cache;
	Ebc(const S &n) { T *&x = cache[n]; if (!x) { x = new T; auto *r = ref::table(TD, "from/" + n); for (auto &e : r->exact) if (e.first.size() == 2) x->db[e.first] = e.second; else if (e.first.size() == 1) { x->has[(u8)e.first[0]] = true; x->sb[(u8)e.first[0]] = e.second; } for (auto &e : r->pats) if (e.native && e.sym.size() == 1) { x->has[e.sym[0]] = true; x->sb[e.sym[0]] = {Datum(e.arg)}; } } t = x; }
	void start() override { mode = 0; }
	size_t at(const S &s, size_t p, VD &o) override { u8 c = s[p]; if (c == 0x0E || c == 0x0F) { mode = c == 0x0E; return 1; } auto i = p + 2 <= s.size() ? t->db.find(s.substr(p, 2)) : t->db.end(); bool d = i != t->db.end(); if (d && (mode || !t->has[c])) { o = i->second; return 2; } if (t->has[c]) { o = t->sb[c]; return 1; } return 0; } };
std::map<S, Ebc::T *> Ebc::cache;
// control sequences: ESC [ ... up to 40-7E, ESC 20-2F ... up to the first other byte, ESC and one byte
struct Ansi : ref::From { size_t at(const S &s, size_t p, VD &o) override { if (s[p] != 0x1B || p + 1 >= s.size()) return 0; size_t q = p + 1; auto in = [&](int a, int b) { return (u8)s[q] >= a && (u8)s[q] <= b; }; if (s[q] == '[') { for (q++; q < s.size() && !in(0x40, 0x7E); q++); } else if (in(0x20, 0x2F)) for (q++; q < s.size() && in(0x20, 0x2F); q++); if (q >= s.size()) return 0; o = {Datum(s.substr(p, q + 1 - p))}; return q + 1 - p; } };
struct Uda : ref::From { size_t at(const S &in, size_t p, VD &o) override { if (p + 2 > in.size()) return 0; u8 h = in[p], d = in[p + 1]; int col; if (d >= 0x40 && d <= 0x7E) col = d - 0x40; else if (d >= 0xA1 && d <= 0xFE) col = d - 0xA1 + 63; else return 0; struct R { int a, b; u32 u; }; static const R rs[] = {{0xFA, 0xFE, 0xE000}, {0x8E, 0xA0, 0xE311}, {0x81, 0x8D, 0xEEB8}, {0xC6, 0xC8, 0xF6B1 - 63}}; for (auto &r : rs) if (h >= r.a && h <= r.b) { if (h == 0xC6 && d < 0xA1) return 0; o = {Datum(uni(r.u + (h - r.a) * 157 + col))}; return 2; } return 0; } };
struct Asc : ref::From { size_t at(const S &s, size_t p, VD &o) override { u8 c = s[p]; if (c == 0 || c > 0x7F) return 0; o = {Datum(S{1, char(c)})}; return 1; } };
struct Byt : ref::From { size_t at(const S &s, size_t p, VD &o) override { o = {Datum(S{3, s[p]})}; return 1; } };
static VD ideal(const S &list, const S &in, u64 &ie) {
	static std::map<S, std::vector<ref::From *>> cache; auto &l = cache[list];
	if (l.empty()) { S x = list; for (auto &c : split(x, ',')) { ref::From *f; auto add = [&](ref::From *g) { l.push_back(g); }; if (c == "jis") { add(new Jis); add(new Asc); } else if (c == "_jis") add(new Jis); else if (c == "ascii") add(new Asc); else if (c == "byte") add(new Byt); else if (c == "ansi-control") add(new Ansi); else if (c == "cp950-uda") add(new Uda); else if (c == "cp950") { add(new Asc); add(new ref::TFrom(ref::table(TD, "from/_CP950"))); add(new Uda); } else { S n = c; for (auto &y : n) y = toupper(y); add(new Ebc(n)); } } }
	ie = 0; return ref::from(l, in, ie);
}
static void noempty(VD &g) { g.erase(std::remove_if(g.begin(), g.end(), [](const Datum &d) { return d.d.empty(); }), g.end()); }
static S chkd(Conv &c, const S &k, const S &in, bool bytewise = false) { u64 ie; VD w = ideal(k, in, ie), g; if (!bytewise) g = c.decode(in); else { c.reset(); for (char x : in) { c.set_input(S(1, x)); c.p->flush = 0; c.go_list(g); } c.set_list({}); c.p->flush = 1; c.go_list(g); } noempty(g); eval(); sh->trans += in.size(); return w == g && *c.ie == ie && !*c.oe ? "" : fmt("gives %s with %zu errors instead of %s with %llu", show(g).c_str(), *c.ie, show(w).c_str(), (unsigned long long)ie); }
struct D { Conv c; S k, in; bool bw; D(const S &k_, bool b = false) : c(k_ + ":pass"), k(k_), bw(b) { if (!c.p) violation("decode " + k + " ", "cannot be created"); g_describe = [this] { return S(bw ? "bytes " : "decode ") + k + " " + hex(in); }; } ~D() { g_describe = nullptr; }
	bool operator()(const S &s) { if (!c.p) return false; in = s; sh->states++; S r = chkd(c, k, s, bw); if (r.empty()) return true; Conv n(k + ":pass"); if (chkd(n, k, s, bw).empty()) { sh->reuse++; c.reopen(); return true; } violation(S(bw ? "bytes " : "decode ") + k + " " + hex(s), r); return false; } };
static bool strs(D &x, const VS &al, int len, const S &pre = "") { if (!x(pre)) return false; if (!len) return !stopping(); for (auto &a : al) if (!strs(x, al, len - 1, pre + a)) return false; return true; }
// ---- encoders
struct En { std::map<S, S> t; };
static En *enc(const S &n) { static std::map<S, En *> cache; En *&x = cache[n]; if (!x) { x = new En; auto *r = ref::table(TD, "to/" + n); for (auto &e : r->pats) if (e.native) { S k; for (int c : e.sym) k += char(c); x->t.emplace(k, e.arg); } } return x; }
static S upper(S n) { for (auto &y : n) y = toupper(y); return n; }
static S encode(const S &k, const VD &in, u64 &oe) { auto &t = enc(upper(k))->t; S r; int m = 0; oe = 0; for (auto &d : in) { auto i = t.find(d.d); if (i == t.end() || i->second == "\x0E" || i->second == "\x0F") { oe++; if (m) r += '\x0F'; m = 0; continue; } int n = i->second.size() > 1; if (n != m) r += n ? '\x0E' : '\x0F'; m = n; r += i->second; } if (m) r += '\x0F'; return r; }
static S norm(const S &s) { S r; int m = 0, w = 0; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x0E' || s[i] == '\x0F') { w = s[i] == '\x0E'; continue; } if (w != m) { r += w ? '\x0E' : '\x0F'; m = w; } r += s[i]; if (w && i + 1 < s.size()) r += s[++i]; } return r + S(m ? "\x0F" : ""); }
static S chke(Conv &c, const S &k, const VD &in, bool piece) { u64 oe; S w = encode(k, in, oe), g; if (!piece) g = c.encode(in); else { c.reset(); for (auto &d : in) { c.set_list({d}); c.p->flush = 0; c.go(g); } c.set_list({}); c.p->flush = 1; c.go(g); } eval(); sh->trans += in.size(); return (oe ? norm(w) == norm(g) && g.size() <= w.size() && (g.empty() || norm(g).size() <= g.size()) : w == g) && *c.oe == oe && !*c.ie ? "" : fmt("gives %s with %zu errors instead of %s with %llu", hex(g).c_str(), *c.oe, hex(w).c_str(), (unsigned long long)oe); }
static S chkr(Conv &c, const S &k, const VD &in) { VD w; u64 oe, ie; S e = encode(k, in, oe); w = ideal(k, e, ie); VD g = c.run_list(in); noempty(g); eval(); sh->trans += in.size(); return g == w && !*c.ie && *c.oe == oe && (oe || in == w || g.size() == in.size()) ? "" : fmt("comes back as %s with %zu input and %zu output errors instead of %s", show(g).c_str(), *c.ie, *c.oe, show(w).c_str()); }
struct E { Conv c; S k; VD in; int kind; E(int kind_, const S &k_) : c(kind_ == 2 ? "pass:" + k_ + "|" + k_ + ":pass" : "pass:" + k_), k(k_), kind(kind_) { if (!c.p) violation(S(kw()) + " " + k + " ", "cannot be created"); g_describe = [this] { return S(kw()) + " " + k + " " + show(in); }; } ~E() { g_describe = nullptr; } const char *kw() { return kind == 2 ? "back" : kind ? "pieces" : "encode"; }
	S chk(Conv &x) { return kind == 2 ? chkr(x, k, in) : chke(x, k, in, kind); }
	bool operator()(const VD &v) { if (!c.p) return false; in = v; sh->states++; S r = chk(c); if (r.empty()) return true; Conv n(c.conv); if (chk(n).empty()) { sh->reuse++; c.reopen(); return true; } violation(g_describe(), r); return false; } };
static bool texts(E &x, const VD &al, int len, VD &v) { if (!x(v)) return false; if (!len) return !stopping(); for (auto &a : al) { v.push_back(a); bool ok = texts(x, al, len - 1, v); v.pop_back(); if (!ok) return false; } return true; }
// the same text comes back
static S chks(Conv &c, const VD &in) { VD g = c.run_list(in); noempty(g); eval(); return g == in && !*c.ie && !*c.oe ? "" : fmt("comes back as %s with %zu input and %zu output errors", show(g).c_str(), *c.ie, *c.oe); }
// whole code pages in one text: "page K KIND STEP" the characters (KIND 0 encoded, 2 there and back, 3 decoded), STEP apart; "jispage LIST KIND"
static S brief(VD w, VD g, size_t e1, u64 e2) { size_t p = 0; while (p < w.size() && p < g.size() && w[p] == g[p]) p++; return w == g && e1 == e2 ? "" : fmt("differs at %zu of %zu (%zu given) errors %zu instead of %llu", p, w.size(), g.size(), e1, (unsigned long long)e2); }
static S page(const S &k, int kind, u64 step) {
	auto &t = enc(upper(k))->t; VD v; S by; Ebc e(upper(k)); u64 er; Conv c(kind == 3 ? k + ":pass" : kind == 2 ? "pass:" + k + "|" + k + ":pass" : "pass:" + k); if (!c.p) return "cannot be created"; eval();
	if (kind == 3) { VS all; for (int b = 0; b < 256; b++) all.push_back(S(1, b)); for (auto &d : e.t->db) all.push_back(d.first); for (size_t i = 0; i < all.size(); i++) by += all[(i * step) % all.size()]; by = "\x0E" + by + "\x0F" + by; VD w = ideal(k, by, er), g = c.decode(by); noempty(g); sh->trans += by.size(); return brief(w, g, *c.ie, er); }
	VD all; for (auto &x : t) { Ebc::T *y = e.t; if (kind == 0 ? x.second != "\x0E" && x.second != "\x0F" : x.second.size() == 1 ? y->has[(u8)x.second[0]] && y->sb[(u8)x.second[0]] == VD{Datum(x.first)} && x.second != "\x0E" && x.second != "\x0F" : y->db.count(x.second) && y->db[x.second] == VD{Datum(x.first)}) all.push_back(Datum(x.first)); }
	for (size_t i = 0; i < all.size(); i++) v.push_back(all[(i * step) % all.size()]); sh->trans += v.size();
	if (kind == 2) { VD g = c.run_list(v); noempty(g); return brief(v, g, *c.ie + *c.oe, 0); }
	S w = encode(k, v, er), g = c.encode(v); size_t p = 0; while (p < w.size() && p < g.size() && w[p] == g[p]) p++; return w == g && *c.oe == er ? "" : fmt("differs at byte %zu of %zu (%zu given) errors %zu instead of %llu", p, w.size(), g.size(), (size_t)*c.oe, (unsigned long long)er);
}
static S jispage(const S &k, int kind) { S in; static const char *es[] = {"\x1B(B", "\x1B(J", "\x1B(I", "\x1B$@", "\x1B$B", "\x1B$(D"}; auto whole = [&](int s) { in += es[s]; for (int a = 0x21; a < 0x7F; a++) { if (s < 3) in += char(a); else for (int b = 0x21; b < 0x7F; b++) { in += char(a); in += char(b); } } };
	if (kind < 6) whole(kind); else if (kind == 6) for (int s = 0; s < 6; s++) whole(s); else for (int a = 0x21; a < 0x7F; a++) for (int b = 0x21; b < 0x7F; b++) { int s = (a * kind + b) % 6; in += es[s]; in += char(a); if (s > 2) in += char(b); }
	Conv c(k + ":pass"); if (!c.p) return "cannot be created"; u64 er; VD w = ideal(k, in, er), g = c.decode(in); noempty(g); eval(); sh->trans += in.size(); return brief(w, g, *c.ie, er); }
// one escape sequence of any length
static S seqlong(int form, long n, int bw) { static const char *h[] = {"\x1B[", "\x1B[", "\x1B(", "\x1B[1m\x1B["}, *t[] = {"m", "~A", "B", "mA\x1B[m"}; Conv c(form == 1 ? "ansi-control,ascii:pass" : "ansi-control:pass"); sh->states++; return c.p ? chkd(c, form == 1 ? "ansi-control,ascii" : "ansi-control", h[form] + S(n, form == 2 ? ' ' : '0') + t[form], bw).substr(0, 600) : "cannot be created"; }
static S replay(const S &d) { TD = g_data; VS w = split(d, ' '); if (w[0] == "seqlong") return seqlong(atoi(w[1].c_str()), atol(w[2].c_str()), atoi(w[3].c_str())); if (w[0] == "page") return page(w[1], atoi(w[2].c_str()), atoi(w[3].c_str())); if (w[0] == "jispage") return jispage(w[1], atoi(w[2].c_str())); S in = w.size() > 2 ? w[2] : ""; if (w[0] == "decode" || w[0] == "bytes") { Conv c(w[1] + ":pass"); return c.p ? chkd(c, w[1], unhex(in), w[0] == "bytes") : "cannot be created"; } Conv c(w[0] == "back" || w[0] == "same" ? "pass:" + w[1] + "|" + w[1] + ":pass" : "pass:" + w[1]); VD v = unshow(in); return !c.p ? "cannot be created" : w[0] == "same" ? chks(c, v) : w[0] == "back" ? chkr(c, w[1], v) : chke(c, w[1], v, w[0] == "pieces"); }
static VS bytes(const S &h) { VS r; for (auto &x : split(h, ' ')) if (x.size()) r.push_back(unhex(x)); return r; }
static void all() {
	TD = g_data; static const char *ib[] = {"ibm-930", "ibm-933", "ibm-935", "ibm-937", "ibm-939"};
	for (auto k : ib) { u64 e; ideal(k, "", e); enc(upper(k)); } for (auto t : {"from/_JIS0201", "from/_JIS0208", "from/_JIS0212", "from/_CP950"}) ref::table(TD, t);
	// by strings of bytes, of sequences
	struct J { const char *list, *al; int len; bool bw; }; static const J js[] = {
		{"jis", "1B 24 28 40 42 44 49 4A 21 30 7E 0A 80 B1", 5, false}, {"_jis", "1B 24 28 42 4A 49 44 30 21 5C", 6, false}, {"jis,byte", "1B 24 28 42 44 30 21 4A B1", 6, false}, {"jis", "1B 24 28 42 49 44 30 21", 5, true},
		{"jis", "1B2842 1B284A 1B2849 1B2440 1B2442 1B242844 1B 1B24 1B28 1B2428 1B2843 1B2441 3021 222F 30 41 5C 7E 0A B1 80", 4, false}, {"_jis", "1B2842 1B284A 1B2849 1B2442 1B242844 1B 1B24 1B2428 3021 30 5C B1 7F", 5, false}, {"jis,byte", "1B2842 1B284A 1B2849 1B2442 1B242844 1B24 3021 30 5C B1 7F", 5, true}, {"ansi-control,jis", "1B2842 1B2442 1B5B6D 1B5B 1B 3021 30 41", 6, false},
		{"ansi-control", "1B 5B 28 30 3B 20 6D 40 7E 7F 4F 80 0A 3F", 5, false}, {"ansi-control,ascii", "1B 5B 28 42 33 6D 7E 80 00", 6, false}, {"ansi-control,byte", "1B 5B 28 30 6D 40 5D FF", 6, false}, {"ansi-control,cp950", "1B 5B 31 6D 28 A4 40 FA 41", 6, false}, {"ansi-control,byte", "1B 5B 28 30 6D 7E 41", 5, true},
		{"cp950-uda", "81 8D 8E A0 C6 C8 FA FE 40 7E 7F A1 FF", 4, false}, {"cp950-uda,byte", "81 8E C6 FA FE 40 A0 A1 41", 5, false}, {"cp950", "81 C6 A4 FA 40 A1 7F 41 FF", 5, true}};
	struct W { int j; S pre; }; std::vector<W> ws; for (int i = 0; i < int(sizeof js / sizeof *js); i++) { auto al = bytes(js[i].al); for (auto &a : al) for (auto &b : al) ws.push_back({i, a + b}); ws.push_back({i, ""}); }
	// every EBCDIC code page: bytes of each class it has
	static std::vector<std::pair<S, VS>> eb; for (auto k : ib) { Ebc e(upper(k)); auto *t = e.t; std::map<int, S> cl; std::set<u8> lead, trail; for (auto &d : t->db) { lead.insert(d.first[0]); trail.insert(d.first[1]); } for (int b = 0; b < 256; b++) if (b != 0x0E && b != 0x0F) { int c = t->has[b] * 4 + lead.count(b) * 2 + trail.count(b); cl[c] += char(b); } VS al{"\x0E", "\x0F"}; for (auto &c : cl) { al.push_back(S(1, c.second[0])); al.push_back(S(1, c.second[c.second.size() / 2])); } auto m = t->db.begin(); std::advance(m, t->db.size() / 2); al.push_back(m->first.substr(0, 1)); al.push_back(m->first.substr(1)); std::sort(al.begin(), al.end()); al.erase(std::unique(al.begin(), al.end()), al.end()); eb.push_back({k, al}); }
	explore("decoders: every string over the bytes and sequences that matter", ws.size(), [&](u64 it) { auto &j = js[ws[it].j]; auto al = bytes(j.al); D x(j.list, j.bw); if (ws[it].pre.empty()) { x(""); for (auto &a : al) x(a); return; } strs(x, al, j.len - 1 + thorough, ws[it].pre); sh->nontrivial++; outcome(fnv(S(j.list) + ws[it].pre)); if (it % 97 == 0) { u64 e; sample(S(j.list) + " " + hex(ws[it].pre) + " -> " + show(ideal(j.list, ws[it].pre, e))); } });
	std::vector<std::pair<int, S>> es; for (int i = 0; i < 5; i++) for (auto &a : eb[i].second) for (auto &b : eb[i].second) es.push_back({i, a + b});
	explore("EBCDIC: every string over bytes of every class", es.size(), [&](u64 it) { auto &e = eb[es[it].first]; { D x(e.first); x(""); strs(x, e.second, 4 + thorough, es[it].second); } { D x(e.first + ",byte"); strs(x, e.second, 2 + thorough, es[it].second); } { D x(e.first, true); strs(x, e.second, 2 + thorough, es[it].second); } sh->nontrivial++; outcome(it); });
	explore("every pair of bytes in every state", 256, [&](u64 it) { for (auto k : ib) { D x(k); for (int b = 0; b < 256; b++) { S p{char(it), char(b)}; for (S pre : {S(), S("\x0E", 1), S("\x0E\x0F", 2)}) for (S post : {S(), S("\x0F\xC1", 2), S("\x0E\x0F\x42", 3), p}) if (!x(pre + p + post)) return; } }
		for (auto k : {"jis", "jis,byte", "_jis"}) { D x(k); for (int b = 0; b < 256; b++) { S p{char(it), char(b)}; for (S pre : {"", "\x1B(B", "\x1B(J", "\x1B(I", "\x1B$@", "\x1B$B", "\x1B$(D", "\x1B$B0", "\x1B(I\x1B$B", "\x1B$B\x1B(J", "\x1B$", "\x1B(", "\x1B$("}) for (S post : {"", "\x1B(BA", "0!", "\x1B$B0!"}) if (!x(pre + p + post)) return; } }
		for (auto k : {"ansi-control", "ansi-control,byte"}) { D x(k); for (int b = 0; b < 256; b++) { S p{char(it), char(b)}; for (S pre : {"", "\x1B", "\x1B[", "\x1B[1;", "\x1B(", "\x1B[?", "\x1B[1\x1B"}) for (S post : {"", "m", "A\x1B[m", "\x1B[1m"}) if (!x(pre + p + post)) return; } }
		{ D x("cp950-uda"), y("cp950-uda,byte"), z("cp950"); for (int b = 0; b < 256; b++) { S p{char(it), char(b)}; for (S post : {S(), S("\xFA\x40", 2), p, S("\x81", 1)}) if (!x(p + post) || !y(p + post) || !z(p + post)) return; } } sh->nontrivial++; outcome(it * 7); });
	explore("long sequences", 32, [&](u64 it) { D a("ansi-control"), b("ansi-control,byte"), c("ansi-control,ascii", true); for (size_t n = it; n < 3000; n += 32) { S z(n, '0'); for (auto t : {"m", "~", "mA", "m\x1B[m"}) if (!a("\x1B[" + z + t) || !b("\x1B[" + z + t) || !c("\x1B[" + z + t)) return; if (!a("\x1B(" + S(n, ' ') + "B") || (n < 300 && (!a("\x1B[" + z) || !b("\x1B[" + z) || !b("\x1B(" + S(n, '(')) || !c("\x1B[" + z)))) return; } D j("jis"), e("ibm-937"); for (size_t n = it; n < 600; n += 32) { S u, v, w; for (size_t i = 0; i < n; i++) { u += "0!"; v += i % 2 ? "\x1B$B" : "\x1B(B"; w += i % 3 ? "\x0E" : "\x0F"; } if (!j("\x1B$B" + u) || !j("\x1B$B" + u + "0") || !j(v + "0!") || !j("\x1B$B0" + u + "\x1B(BA") || !e("\x0E" + S(n, 'K')) || !e("\x0E" + S(n, 'K') + "\x0F" + S(n, 'K')) || !e(w + "KK")) return; } outcome(it * 77); });
	auto qs = sizes(thorough ? 1100000 : 70000); std::reverse(qs.begin(), qs.end()); explore("sequences of any length", qs.size() * 8, [&](u64 it) { S d = fmt("seqlong %d %ld %d", (int)(it % 8 / 2), qs[it / 8], (int)(it % 2)); g_describe = [&] { return d; }; S r = replay(d); if (r.size()) violation(d, r); g_describe = nullptr; outcome(fnv(d)); });
	static const int steps[] = {1, 2, 3, 7, 101, 229, 4099, 5003, 9001, 65537};
	explore("whole code pages in one text", 5 * 3 * 10 + 3 * 15, [&](u64 it) { S d, r; g_describe = [&] { return d; }; sh->states++; if (it < 150) { static const int kinds[] = {0, 2, 3}; int kind = kinds[it / 5 % 3], st = steps[it / 15]; d = fmt("page %s %d %d", ib[it % 5], kind, st); r = page(ib[it % 5], kind, st); } else { static const char *l[] = {"jis", "_jis", "jis,byte"}; int kind = (it - 150) % 15; d = fmt("jispage %s %d", l[(it - 150) / 15], kind); r = jispage(l[(it - 150) / 15], kind); } if (r.size()) violation(d, r); g_describe = nullptr; sh->nontrivial++; outcome(fnv(d)); });
	// encoders
	static std::vector<VD> ab; for (auto k : ib) { auto &t = enc(upper(k))->t; VD v{Datum(uni(0x0E)), Datum(uni(0xE9999)), Datum(S{3, 0x41})}; int s = 0, d = 0; for (auto &e : t) { bool w = e.second.size() > 1; int &n = w ? d : s; n++; if (n == 30 || n == 100 || (w && (n == 5000 || n == 9000))) v.push_back(Datum(e.first)); } ab.push_back(v); }
	explore("encoders: every text over characters of every class", 5 * 3 * 7, [&](u64 it) { int k = it / 21, kind = it / 7 % 3; if (it % 7 >= ab[k].size()) return; E x(kind, ib[k]); VD v{ab[k][it % 7]}; if (!it) x({}); texts(x, ab[k], 5 + thorough - (kind == 1), v); for (size_t i = 7 + it % 7; i < ab[k].size(); i += 7) { v = {ab[k][i]}; texts(x, ab[k], 5 + thorough - (kind == 1), v); } sh->nontrivial++; outcome(it * 5); u64 e; if (it % 9 == 0) sample(S(ib[k]) + " " + show(x.in) + " -> " + hex(encode(ib[k], x.in, e))); });
	explore("encoders: every character in every state", 5 * 16, [&](u64 it) { int k = it / 16; E x(0, ib[k]), y(2, ib[k]), z(1, ib[k]); Datum s, d; for (auto &a : ab[k]) { auto i = enc(upper(ib[k]))->t.find(a.d); if (i == enc(upper(ib[k]))->t.end()) continue; (i->second.size() > 1 ? d : s) = a; } for (u32 c = it % 16; c < 0x110000; c += 16) { Datum u(uni(c)); if (!x({u})) return; if (c < 0x10000) if (!x({s, u, s}) || !x({d, u, d}) || !x({d, u, s}) || !x({s, u, d}) || !x({u, u}) || !y({u}) || !y({s, u, d}) || !y({d, u, s}) || !z({d, u, d}) || !z({s, u, s})) return; } for (auto &o : unshow("0100,03,0341,020102,1B5B6D,01,00,01000041,0141FF,010300FF")) if (!x({o}) || !x({d, o, d}) || !x({s, o, d})) return; outcome(it * 3); });
	// characters every decoder gives and the encoder takes come back as they are, in company
	explore("back and forth: the same text", 5, [&](u64 it) { S k = ib[it]; VD in; Conv c("pass:" + k + "|" + k + ":pass"); g_describe = [&] { return "same " + k + " " + show(in); }; Ebc e(upper(k)); auto &t = enc(upper(k))->t; VD ok; for (auto &x : t) { if (x.second.size() == 1 ? e.t->has[(u8)x.second[0]] && e.t->sb[(u8)x.second[0]] == VD{Datum(x.first)} && x.second != "\x0E" && x.second != "\x0F" : e.t->db.count(x.second) && e.t->db[x.second] == VD{Datum(x.first)}) ok.push_back(Datum(x.first)); } if (ok.size() < 9000) violation("same " + k + " ", fmt("only %zu characters come back", ok.size())); size_t n = ok.size(); for (size_t i = 0; i < n; i++) for (size_t st : {1, 7, 229, 4099}) { in = {ok[i], ok[(i + st) % n], ok[(i * 3 + st) % n], ok[i]}; sh->states++; S r = chks(c, in); if (r.size()) { violation(g_describe(), r); return; } } sh->nontrivial++; outcome(it + 9000); g_describe = nullptr; });
	explore("back and forth: JIS", 1, [&](u64) { VD in; Conv c("pass:jis|jis:pass"); g_describe = [&] { return "same jis " + show(in); }; for (auto t : {"0141", "0141,0142,010A", "0141,014E02,0141"}) { in = unshow(t); sh->states++; S r = chks(c, in); if (r.size()) violation(g_describe(), r); } g_describe = nullptr; });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
