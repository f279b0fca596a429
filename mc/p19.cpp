// P19: escapes, entities and textual notations: decoders against grammars, encoders against their forms, each pair back and forth.
#include "mc.hpp"
#include <fcntl.h>
#include "ref.hpp"
static S TD;
static int dig(int c, int b) { int v = ref::hv(c); return v >= 0 && v < b ? v : -1; }
static S num(const S &s, size_t p, size_t n, int b, u64 &v) { v = 0; if (p + n > s.size()) return "x"; for (size_t i = p; i < p + n; i++) { int d = dig((u8)s[i], b); if (d < 0) return "x"; v = v * b + d; } return ""; }
// ---- decoders
struct Esc : ref::From { size_t at(const S &s, size_t p, VD &o) override {
	u64 v; if (s[p] != '%' && s[p] != '\\') return 0; bool pc = s[p] == '%'; char c = p + 1 < s.size() ? s[p + 1] : 0;
	if (c == 'u') { if (num(s, p + 2, 4, 16, v).size()) return 0; o = {Datum(uni(v))}; return 6; }
	if (pc) { if (num(s, p + 1, 2, 16, v).size()) return 0; o = {Datum(S{3, char(v)})}; return 3; }
	if (c == 'x') { if (num(s, p + 2, 2, 16, v).size()) return 0; o = {Datum(S{3, char(v)})}; return 4; }
	if (num(s, p + 1, 3, 8, v).size() || v > 255) return 0; o = {Datum(S{3, char(v)})}; return 4; } };
struct Num : ref::From { size_t at(const S &s, size_t p, VD &o) override {
	if (s.compare(p, 2, "&#")) return 0; size_t q = p + 2; int b = 10; if (q < s.size() && s[q] == 'x') { b = 16; q++; } u64 v = 0; size_t n = 0; for (; q < s.size() && dig((u8)s[q], b) >= 0; q++, n++) { v = v * b + dig((u8)s[q], b); if (v > 0x10FFFF) return 0; }
	if (!n || q >= s.size() || s[q] != ';') return 0; o = {Datum(uni(v))}; return q + 1 - p; } };
struct Hexs : ref::From { size_t at(const S &s, size_t p, VD &o) override { u64 v; if (num(s, p, 2, 16, v).size()) return 0; o = {Datum(S{3, char(v)})}; return 2; } };
struct Not : ref::From { size_t at(const S &s, size_t p, VD &o) override { S d; u64 v; size_t q = p; while (num(s, q, 2, 16, v).empty()) { d += char(v); q += 2; } if (q == p) return 0; o = {Datum(d)}; return q - p; } };
struct Asc : ref::From { size_t at(const S &s, size_t p, VD &o) override { u8 c = s[p]; if (c == 0 || c > 0x7F) return 0; o = {Datum(S{1, char(c)})}; return 1; } };
struct Byt : ref::From { size_t at(const S &s, size_t p, VD &o) override { o = {Datum(S{3, s[p]})}; return 1; } };
static VD ideal(const S &list, const S &in, u64 &ie) {
	std::vector<ref::From *> l; for (auto &c : split(list, ',')) { ref::From *f; if (c == "escape") f = new Esc; else if (c == "ascii-numeric-html-entity" || c == "htmlentity" || c == "ncr") f = new Num; else if (c == "hex") f = new Hexs; else if (c == "bsdconv") f = new Not; else if (c == "ascii") f = new Asc; else if (c == "byte") f = new Byt; else if (c == "ascii-named-html-entity" || c == "named-htmlentity") f = new ref::TFrom(ref::table(TD, "from/ASCII-NAMED-HTML-ENTITY")); else if (c == "bsdconv-keyword") f = new ref::TFrom(ref::table(TD, "from/BSDCONV-KEYWORD")); else f = nullptr; if (!f) exit(3); l.push_back(f); }
	ie = 0; VD r = ref::from(l, in, ie); for (auto f : l) delete f; return r;
}
static S chkd(Conv &c, const S &k, const S &in) { u64 ie; VD w = ideal(k, in, ie), g = c.decode(in); g.erase(std::remove_if(g.begin(), g.end(), [](const Datum &d) { return d.d.empty(); }), g.end()); eval(); sh->trans++; return w == g && *c.ie == ie && !*c.oe ? "" : fmt("gives %s with %zu errors instead of %s with %llu", show(g).c_str(), *c.ie, show(w).c_str(), (unsigned long long)ie); }
struct D { Conv c; S k, in; D(const S &k_) : c(k_ + ":pass"), k(k_) { if (!c.p) violation("decode " + k + " ", "cannot be created"); g_describe = [this] { return "decode " + k + " " + hex(in); }; } ~D() { g_describe = nullptr; }
	bool operator()(const S &s) { if (!c.p) return false; in = s; sh->states++; S r = chkd(c, k, s); if (r.empty()) return true; Conv n(k + ":pass"); if (chkd(n, k, s).empty()) { sh->reuse++; c.reopen(); return true; } violation(g_describe(), r); return false; } };
static bool strs(D &x, const VS &al, int len, const S &pre = "") { if (!x(pre)) return false; if (!len) return !stopping(); for (auto &a : al) if (!strs(x, al, len - 1, pre + a)) return false; return true; }
// ---- encoders: ESCAPE by its arguments, and its aliases
struct E1 { int f, m; S pre, suf; };
static std::vector<E1> parse(const S &codec) {
	static const std::map<S, S> al = {{"url", "escape#for=unicode&mode=16&prefix=2575,escape#for=byte&mode=16&prefix=25"}, {"ascii-escaped-unicode", "escape#for=unicode&mode=16&prefix=5c75"}, {"source", "escape#for=unicode&mode=16&prefix=5c75"}, {"java", "escape#for=unicode&mode=16&prefix=5c75"}, {"ascii-hex-numeric-html-entity", "escape#for=unicode&mode=16&prefix=262378&suffix=3b"}, {"htmlentity", "escape#for=unicode&mode=16&prefix=262378&suffix=3b"}, {"ascii-dec-numeric-html-entity", "escape#for=unicode&mode=10&prefix=2623&suffix=3b"}};
	std::vector<E1> r; auto i = al.find(codec); for (auto &c : split(i == al.end() ? codec : i->second, ',')) { E1 e{1, 16, "%u", ""}; size_t p = c.find('#'); if (p != S::npos) for (auto &a : split(c.substr(p + 1), '&')) { size_t q = a.find('='); S k = a.substr(0, q), v = a.substr(q + 1); for (auto &x : k) x = tolower(x); for (auto &x : v) x = tolower(x); if (k == "for") e.f = v == "unicode" || v == "1" || v == "01" ? 1 : 3; else if (k == "mode") e.m = v == "hex" ? 16 : v == "dec" ? 10 : v == "oct" ? 8 : atoi(v.c_str()); else (k == "prefix" ? e.pre : e.suf) = unhex(v); } r.push_back(e); } return r;
}
static bool enc1(const E1 &e, const S &d, S &o) { // false: not its business
	if (e.f == 1) { if (e.m == 8 || d.size() < 2 || d[0] != 1) return false; u64 v = 0; for (size_t i = 1; i < d.size(); i++) v = v << 8 | (u8)d[i]; if (e.m == 10) o = e.pre + fmt("%llu", (unsigned long long)v) + e.suf; else { S h = hex(d.substr(1)); if (e.suf.empty() && h.size() < 4) h = S(4 - h.size(), '0') + h; o = e.pre + h + e.suf; } return true; }
	if (d.size() != 2 || d[0] != 3) return false; int b = (u8)d[1]; o = e.pre + (e.m == 16 ? fmt("%02X", b) : e.m == 10 ? fmt("%d", b) : fmt("%03o", b)) + e.suf; return true;
}
// what an encoder list writes; tables from the frozen set
static S enc(const S &list, const VD &in, u64 &oe) {
	S r; oe = 0; for (auto &d : in) { bool ok = false; S l = list; VS cs; { // arguments hold no commas
			cs = split(l, ','); } for (auto &c : cs) { S o; if (c == "ascii") { if (d.d.size() == 2 && d.d[0] == 1 && d.d[1] > 0) { o = d.d.substr(1); ok = true; } if (d.d == S("\x01\x02\xDC", 3)) { o = "~"; ok = true; } } else if (c == "byte") { if (d.d.size() == 2 && d.d[0] == 3) { o = d.d.substr(1); ok = true; } } else if (c == "bsdconv") { o = hex(d.d); ok = true; } else if (c == "hex") { if (d.d.size() == 2 && d.d[0] == 3) { o = hex(d.d.substr(1)); ok = true; } } else if (c == "html-img") { S h; if (d.d.empty() || d.d[0] != 1) continue; ok = true; bool on = false; for (size_t i = 1; i < d.d.size(); i++) { h += fmt(on ? "%02X" : "%X", (u8)d.d[i]); on = true; } o = "<img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-" + h + "\" />"; }
			else if (c == "ascii-named-html-entity" || c == "bsdconv-keyword") { VD v; auto *t = ref::table(TD, c == "bsdconv-keyword" ? "to/BSDCONV-KEYWORD" : "to/ASCII-NAMED-HTML-ENTITY"); if (t->match({d}, 0, v)) { o = ref::cat(v); ok = true; } }
			else for (auto &e : parse(c)) if (enc1(e, d.d, o)) { ok = true; break; } if (ok) { r += o; break; } } if (!ok) oe++; } return r;
}
static S chke(Conv &c, const S &k, const VD &in) { u64 oe; S w = enc(k, in, oe), g = c.encode(in); eval(); sh->trans++; return w == g && *c.oe == oe && !*c.ie ? "" : fmt("gives %s with %zu errors instead of %s with %llu", g.c_str(), *c.oe, w.c_str(), (unsigned long long)oe); }
// what the encoder writes, read back: K is the conversion "encoder|decoder"
static S chkr(Conv &c, const VD &in) { VD g = c.run_list(in); g.erase(std::remove_if(g.begin(), g.end(), [](const Datum &d) { return d.d.empty(); }), g.end()); eval(); sh->trans++; return g == in && !*c.ie && !*c.oe ? "" : fmt("comes back as %s with %zu input and %zu output errors", show(g).c_str(), *c.ie, *c.oe); }
struct Eo { Conv c; S k; VD in; int kind; Eo(int kind_, const S &k_) : c(kind_ ? "pass:" + k_ + ":pass" : "pass:" + k_), k(k_), kind(kind_) { if (!c.p) violation((kind ? "back " : "encode ") + k + " ", "cannot be created"); g_describe = [this] { return (kind ? "back " : "encode ") + k + " " + show(in); }; } ~Eo() { g_describe = nullptr; }
	S chk(Conv &x) { return kind ? chkr(x, in) : chke(x, k, in); }
	bool operator()(const VD &v) { if (!c.p) return false; in = v; sh->states++; S r = chk(c); if (r.empty()) return true; Conv n(c.conv); if (chk(n).empty()) { sh->reuse++; c.reopen(); return true; } violation(g_describe(), r); return false; } };
// ---- logs: kind 0 from/BSDCONV-LOG, 1 to/BSDCONV-LOG, 2..5 to/BSDCONV-OUTPUT; a text for each of several conversions, all in one file; "/" ends one, "+" one call
static S slurp(const S &f) { S r; FILE *p = fopen(f.c_str(), "rb"); if (!p) return r; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) r.append(b, k); fclose(p); return r; }
static S logs(int kind, const S &desc) {
	static const char *cv[] = {"bsdconv-log:pass", "pass:bsdconv-log", "pass:bsdconv-output", "pass:bsdconv-output#stdout", "pass:bsdconv-output#stderr", "pass:bsdconv-output#stderr&stdout", "ascii,bsdconv-log:pass", "pass:ascii,bsdconv-log"}; S f = g_tmp + "/log" + std::to_string(getpid()), r, w; unlink(f.c_str()); setenv("BSDCONV_FROM_LOG", f.c_str(), 1); setenv("BSDCONV_TO_LOG", f.c_str(), 1);
	bool err = kind == 4, std_ = kind >= 2 && kind <= 5; int sv = -1, fd = err ? 2 : 1; fflush(NULL); if (std_) { sv = dup(fd); int n = ::open(f.c_str(), O_CREAT | O_RDWR | O_APPEND, 0600); dup2(n, fd); ::close(n); }
	for (auto &one : split(desc, '/')) { Conv c(cv[kind]); if (!c.p) { r = "cannot be created"; break; } bsdconv_init(c.p); VD g, x; auto calls = split(one, '+'); for (size_t i = 0; i < calls.size(); i++) { VD v = unshow(calls[i]); bool last = i + 1 == calls.size();
			if (kind == 0 || kind == 6) { S b; for (auto &d : v) b += d.d; c.set_input(b); for (char ch : b) if (kind == 6 && ch > 0) x.push_back(Datum(uni((u8)ch))); else w += fmt("%02X\n", (u8)ch); } else { c.set_list(v); for (auto &d : v) if (kind == 7 && d.d.size() == 2 && d.d[0] == 1 && d.d[1] > 0) x.push_back(Datum(d.d.substr(1))); else { w += hex(d.d); if (d.mark) w += " ( MARK )"; w += "\n"; } }
			c.p->flush = last; c.go_list(g); }
		g.erase(std::remove_if(g.begin(), g.end(), [](const Datum &d) { return d.d.empty(); }), g.end()); if (g != x && r.empty()) r = "output " + show(g) + " instead of " + show(x); if ((*c.ie || *c.oe) && r.empty()) r = "errors are counted"; eval(); sh->trans++; }
	fflush(stdout); fflush(stderr); if (std_) { dup2(sv, fd); ::close(sv); } S g = slurp(f); unlink(f.c_str()); for (S q : {" FREE", " ( )"}) { S n; size_t p = 0, e; while ((e = g.find(q, p)) != S::npos) { n.append(g, p, e - p); p = e + q.size(); } g = n + g.substr(p); } // (who frees the data is internal)
	return r.size() ? r : g == w ? "" : fmt("log \"%.300s\" instead of \"%.300s\"", g.c_str(), w.c_str());
}
// one form of any length; kinds 0 to 4 decode, 5 to 8 encode, 9 and 10 both
static S formlong(int k, long n) { S z(n, '0'), f; sh->states++; auto cut = [](S r) { return r.substr(0, 600); };
	if (k < 5) { static const char *l[] = {"ascii-numeric-html-entity", "ascii-numeric-html-entity", "htmlentity,ascii", "bsdconv", "hex"}; Conv c(S(l[k]) + ":pass"); if (!c.p) return "cannot be created"; if (k == 0) f = "&#" + z + "65;&#x41;"; if (k == 1) f = "&#x" + z + "10FFFF;&#65;"; if (k == 2) f = "&#x" + z + "110000;A"; if (k >= 3) { if (k == 3) f = "03"; for (long i = 0; i < n; i++) f += fmt("%02X", (unsigned)(i * 37 + 1) & 255); if (k == 3) f += ",0141"; } return cut(chkd(c, l[k], f)); }
	S b(1, '\3'); for (long i = 0; i < n; i++) b += char(i * 41 + 1); VD v{Datum(uni('A')), Datum(b), Datum(uni('B'))}; if (k < 9) { static const char *l[] = {"bsdconv", "escape#for=byte&mode=hex&prefix=5c78,ascii", "escape#for=byte&mode=oct&prefix=5c,ascii", "escape#for=byte&mode=dec&prefix=26&suffix=3b,ascii"}; Conv c(S("pass:") + l[k - 5]); return c.p ? cut(chke(c, l[k - 5], v)) : "cannot be created"; }
	if (k == 9) { Conv c("pass:bsdconv|bsdconv:pass"); return c.p ? cut(chkr(c, {Datum(b)})) : "cannot be created"; } S p; for (long i = 0; i < n; i++) p += "26"; if (!n) return ""; S cv = "escape#for=unicode&prefix=" + p + "&suffix=" + p; Conv c("pass:" + cv); return c.p ? cut(chke(c, cv, {Datum(uni(0x6E2C)), Datum(uni('A'))})) : "cannot be created"; }
static S replay(const S &d) { TD = g_data; if (d.compare(0, 9, "formlong ") == 0) { VS w = split(d, ' '); return formlong(atoi(w[1].c_str()), atol(w[2].c_str())); } if (d.compare(0, 4, "log ") == 0) { VS w = split(d, ' '); return logs(atoi(w[1].c_str()), w.size() > 2 ? w[2] : ""); } if (d.compare(0, 8, "loglong ") == 0) { VS w = split(d, ' '); S x; long n = atol(w[2].c_str()), m = atol(w[3].c_str()); for (long i = 0; i < n; i++) x += (i ? "," : "") + (w[1] == "0" || w[1] == "6" ? fmt("%02X", (unsigned)(i * 37 & 255)) : S("03") + hex(S(i + 1 == n ? m : 1, char(i * 41)))); return logs(atoi(w[1].c_str()), x); } VS w = split(d, ' '); if (w[0] == "decode") { Conv c(w[1] + ":pass"); return c.p ? chkd(c, w[1], unhex(w[2])) : "cannot be created"; } Conv c(w[0] == "back" ? "pass:" + w[1] + ":pass" : "pass:" + w[1]); VD v = unshow(w.size() > 2 ? w[2] : ""); return !c.p ? "cannot be created" : w[0] == "back" ? chkr(c, v) : chke(c, w[1], v); }
static VS chars(const char *s) { VS r; for (; *s; s++) r.push_back(S(1, *s)); return r; }
static void mutate(D &x, const S &f, const VS &ends) { // every byte in every place; shortened, lengthened, repeated, followed by every byte
	for (auto &e : ends) { for (size_t i = 0; i < f.size(); i++) for (int b = 0; b < 256; b++) { S s = f; s[i] = b; if (!x(s + e)) return; S t = f; t.insert(i, 1, b); if (!x(t + e)) return; } for (size_t i = 0; i <= f.size(); i++) { if (!x(f.substr(0, i) + e) || !x(f.substr(0, i) + f + e) || !x(f.substr(i) + e)) return; } for (int b = 0; b < 256; b++) if (!x(f + S(1, b) + e)) return; if (!x(f + f + e)) return; }
}
static void all() {
	TD = g_data; for (auto t : {"from/ASCII-NAMED-HTML-ENTITY", "to/ASCII-NAMED-HTML-ENTITY", "from/BSDCONV-KEYWORD", "to/BSDCONV-KEYWORD"}) ref::table(TD, t);
	struct J { const char *list, *al; int len; }; static const J js[] = {{"escape", "\\%ux0378aFg", 7}, {"escape,ascii", "\\%ux0371af", 6}, {"escape,byte", "\\%ux0378aF", 6}, {"ascii-numeric-html-entity", "&#xX019Af;g", 7}, {"htmlentity,ascii", "&#x01aF;", 7}, {"ascii-numeric-html-entity,escape,byte", "&#x0;\\%u1", 6}, {"ncr,named-htmlentity,ascii", "&#x1;ltg", 7}, {"named-htmlentity,ascii", "&ltgmpaA;", 7}, {"ascii-named-html-entity", "&LtaMp;#x", 6}, {"hex", "09aFg ", 8}, {"hex,ascii", "09aFg ", 7}, {"bsdconv", "013fA,g\n", 7}, {"bsdconv,ascii", "013fA,g", 7}, {"bsdconv-keyword,bsdconv", "0125Cc, \n?", 7}, {"bsdconv-keyword,ascii", "\\, \t?\n0", 7}, {"bsdconv-keyword,bsdconv,byte", "012C,\\ \xff", 6}};
	struct W { int j; S pre; }; std::vector<W> ws; for (int i = 0; i < int(sizeof js / sizeof *js); i++) { for (auto &a : chars(js[i].al)) for (auto &b : chars(js[i].al)) ws.push_back({i, a + b}); ws.push_back({i, ""}); }
	explore("decoders: every string over the bytes that matter", ws.size(), [&](u64 it) { auto &j = js[ws[it].j]; D x(j.list); if (ws[it].pre.empty()) { x(""); for (auto &a : chars(j.al)) x(a); return; } strs(x, chars(j.al), j.len - 2 - !thorough + 1 - (thorough ? 0 : 1) + thorough, ws[it].pre); sh->nontrivial++; outcome(fnv(S(j.list) + ws[it].pre)); if (it % 97 == 0) { u64 e; sample(S(j.list) + " " + x.in + " -> " + show(ideal(j.list, x.in, e))); } });
	struct M { const char *list, *form; }; static const M ms[] = {{"escape", "%u6E2c"}, {"escape", "\\u00e9"}, {"escape", "%e8"}, {"escape", "\\xA9"}, {"escape", "\\377"}, {"escape", "\\012"}, {"escape", "\\u0000"}, {"escape", "%00"}, {"ascii-numeric-html-entity", "&#35430;"}, {"ascii-numeric-html-entity", "&#x6e2C;"}, {"ascii-numeric-html-entity", "&#0;"}, {"ascii-numeric-html-entity", "&#x10FFFF;"}, {"ascii-numeric-html-entity", "&#1114111;"}, {"ascii-numeric-html-entity", "&#x00041;"}, {"named-htmlentity", "&amp;"}, {"named-htmlentity", "&Auml;"}, {"named-htmlentity", "&dArr;"}, {"named-htmlentity", "&frac12;"}, {"hex", "e6B8aC"}, {"bsdconv", "016E2C"}, {"bsdconv", "0161,03ff"}, {"bsdconv", "0"}, {"bsdconv-keyword,bsdconv", "0161,0120,5C20"}};
	explore("decoders: every form with every byte in every place", sizeof ms / sizeof *ms * 4, [&](u64 it) { auto &m = ms[it / 4]; static const char *l[] = {"", ",ascii", ",byte", ",ascii,byte"}; D x(S(m.list) + l[it % 4]); mutate(x, m.form, {"", "1", "a;", ";", "%41", "&"}); outcome(it); });
	explore("decoders: every number", 272, [&](u64 it) { D e("escape"), h("ascii-numeric-html-entity"), hb("htmlentity,ascii"); for (u32 c = it * 4096; c < (it + 1) * 4096; c++) { for (auto f : {"&#x%X;", "&#x%x;", "&#x00%X;", "&#%u;", "&#0%u;", "&#%u", "&#x%X", "&#x%Xg;"}) if (!h(fmt(f, c))) return; if (!hb(fmt("&#%u;&#x%x;&#%u", c, c, c))) return; if (!h(fmt("&#%u;", c + 0x110000)) || !h(fmt("&#x%X;", c + 0x110000)) || !h(fmt("&#x%X;", c * 4099u + 0xFFFFFu)) || !h(fmt("&#%u;", c * 4099u + 0xFFFFFu)) || !h(fmt("&#1%010u;", c * 4099u)) || !h(fmt("&#x1%08X;", c * 4099u))) return; if (c < 0x10000) for (auto f : {"%%u%04X", "%%u%04x", "\\u%04X", "\\u%04x", "\\u%03X", "%%u%05X"}) if (!e(fmt(f, c))) return; if (c < 512) for (auto f : {"%%%02X", "%%%02x", "\\x%02X", "\\x%02x", "\\%03o", "\\%o", "\\x%X", "%%%X"}) if (!e(fmt(f, c))) return; } });
	explore("decoders: long numbers", 32, [&](u64 it) { D h("ascii-numeric-html-entity"), f("htmlentity,ascii"), b("bsdconv"), g("bsdconv,ascii"); for (size_t n = it; n < 2600; n += 32) { S z(n, '0'); for (auto t : {"65;", "1114111;", "1114112;", "x65;", "65", ";"}) if (!h("&#" + z + t) || (n % 8 == 0 && !f("&#" + z + t))) return; if (!h("&#x" + z + "41;") || !h("&#x" + z + "110000;") || !h("&#" + S(n, '9') + ";") || !h("&#x" + S(n, 'f') + ";") || !b("01" + z) || !g("01" + S(n, 'c') + "," + z)) return; } });
	explore("decoders: every pair and name", 256, [&](u64 it) { D h("hex"), e("escape"), n("named-htmlentity"), na("named-htmlentity,ascii"), k("bsdconv-keyword"); for (int b = 0; b < 256; b++) { S p{char(it), char(b)}; if (!h(p) || !e("%" + p) || !e("\\x" + p) || !e("%u" + p + "0a") || !e("\\uA0" + p) || !e("\\" + p + "7") || !e("\\3" + p) || !k(p) || !k("\\" + p)) return; for (int c = 0; c < 16; c++) if (!h(p + S(1, "09afAFg/:@G` \x80\xff\x10"[c]) + p)) return; }
		size_t i = 0; for (auto &q : ref::table(TD, "from/ASCII-NAMED-HTML-ENTITY")->pats) { if (i++ % 256 != it) continue; S s; for (int c : q.sym) s += char(c); size_t m = 0; for (char c : s) m += isalpha(c) ? 1 : 0; for (u64 v = 0; v < 1ull << m; v++) { S t = s; size_t j = 0; for (auto &c : t) if (isalpha(c)) { if (v >> j++ & 1) c ^= 32; } if (!n(t)) return; } for (size_t j = 0; j <= s.size(); j++) { if (!na(s.substr(0, j)) || !na(s.substr(0, j) + s) || !na(s.substr(0, j) + ";") || !na(s.substr(0, j) + " " + s.substr(j))) return; } mutate(n, s, {""}); } });
	// encoders
	VS en{"url", "source", "java", "ascii-escaped-unicode", "htmlentity", "ascii-hex-numeric-html-entity", "ascii-dec-numeric-html-entity", "ascii,url", "ascii,htmlentity", "ascii-named-html-entity", "ascii-named-html-entity,ascii,htmlentity", "bsdconv", "bsdconv-keyword,bsdconv", "hex", "hex,bsdconv", "html-img", "escape"};
	for (auto f : {"", "unicode", "1", "01", "byte", "3", "03"}) for (auto m : {"", "hex", "16", "dec", "10", "oct", "8"}) for (auto p : {"-", "", "25", "5c75", "262378"}) for (auto s : {"-", "", "3b", "5d7d"}) { VS a; if (*f) a.push_back(S("for=") + f); if (*m) a.push_back(S("mode=") + m); if (*p != '-') a.push_back(S("prefix=") + p); if (*s != '-') a.push_back(S("suffix=") + s); if (a.empty()) continue; S k = "escape#" + join(a, "&"); en.push_back(k); if (*f == 'b' && *p == '2') en.push_back(k + ",escape#for=unicode&prefix=5b&suffix=5d"); }
	for (auto k : {"escape#PREFIX=25&SUFFIX=3B&MODE=HEX&FOR=BYTE", "escape#mode=10&mode=16", "escape#prefix=25&prefix=26"}) en.push_back(k);
	explore("encoders: every character, byte and other datum", en.size() * 4, [&](u64 it) { Eo x(0, en[it / 4]); bool full = it / 4 < 17; Datum t(uni('5')), y(S("\x03\xA9", 2)); VS other{S("\x03", 1), S("\x03\x00", 2), S("\x03\xFF\xFF", 3), S("\x02\x21\x21", 3), S("\x1B[m", 3), S("\x00\x41", 2), S("\x00,", 2), S("\x01", 1)}; if (it % 4 == 0) for (auto &o : other) { if (o.size() == 1 && en[it / 4] != "bsdconv" && o[0] == 1) continue; if (!x({Datum(o)}) || !x({t, Datum(o), y, t})) return; }
		for (u32 c = it % 4; c < 0x110000; c += c < 0x3000 || full ? 4 : 61) { Datum d(uni(c)); if (!x({d})) return; if (c < 0x3000 && !x({d, t, d, y})) return; if (c < 256 && !x({Datum(S{3, char(c)}), d, Datum(S{3, char(c)})})) return; } outcome(it * 31); if (it % 50 == 0) { u64 e; sample(x.k + " " + show(x.in) + " -> " + enc(x.k, x.in, e)); } });
	// back
	struct B { const char *k; bool u, b; u32 top; bool nul; }; static const B bs[] = {{"url|escape", true, true, 0xFFFF, true}, {"source|escape", true, false, 0xFFFF, true}, {"java|escape", true, false, 0xFFFF, true}, {"escape|escape", true, false, 0xFFFF, true}, {"escape#for=unicode&mode=hex|escape", true, false, 0xFFFF, true}, {"escape#for=byte&prefix=25|escape", false, true, 0, true}, {"escape#for=byte&mode=16&prefix=5c78|escape", false, true, 0, true}, {"escape#for=byte&mode=8&prefix=5c|escape", false, true, 0, true}, {"escape#for=3&mode=oct&prefix=5c,url|escape", true, true, 0xFFFF, true}, {"htmlentity|htmlentity", true, false, 0x10FFFF, true}, {"ascii-dec-numeric-html-entity|ncr", true, false, 0x10FFFF, true}, {"escape#mode=dec&prefix=2623&suffix=3b|ascii-numeric-html-entity", true, false, 0x10FFFF, true}, {"escape#prefix=26237830&suffix=3b|ascii-numeric-html-entity", true, false, 0x10FFFF, true}, {"url,htmlentity|escape,htmlentity", true, true, 0xFFFF, true}, {"escape#for=byte&mode=8&prefix=5c,htmlentity|escape,htmlentity", true, true, 0x10FFFF, true}, {"hex|hex", false, true, 0, true}};
	size_t nb = sizeof bs / sizeof *bs;
	explore("back and forth: every character and byte, in every company", nb * 16, [&](u64 it) { auto &b = bs[it / 16]; Eo x(1, b.k); VD co; for (u32 c : {0x30u, 0x46u, 0x61u, 0x75u, 0x3Bu, 0x25u, 0x5Cu, 0xE9u, 0x6E2Cu}) { if (b.u) co.push_back(Datum(uni(c))); if (b.b) co.push_back(Datum(S{3, char(c)})); } if (it % 16 == 0) { x({}); for (auto &p : co) for (auto &q : co) for (auto &r : co) for (auto &s : co) if (!x({p, q, r, s})) return; }
		if (b.b) for (int c = it % 16; c < 256; c += 16) for (auto &q : co) { Datum d(S{3, char(c)}); if (!x({d}) || !x({q, d}) || !x({d, q}) || !x({d, q, d, d})) return; } if (b.u) for (u32 c = it % 16; c <= b.top; c += 16) { Datum d(uni(c)); if (!x({d})) return; if (c < 0x3000 || c % 13 == 0 || thorough) for (auto &q : co) if (!x({q, d}) || !x({d, q, d})) return; } outcome(it * 13); });
	static const char *nb2[] = {"ascii-named-html-entity|named-htmlentity", "bsdconv|bsdconv"};
	explore("back and forth: names and the notation", 32, [&](u64 it) { if (it < 16) { Eo x(1, nb2[0]); auto &t = ref::table(TD, "to/ASCII-NAMED-HTML-ENTITY")->exact; VD v; for (auto &e : t) v.push_back(Datum(e.first.substr(1))); for (size_t i = it; i < v.size(); i += 16) { if (!x({v[i]})) return; for (auto &d : v) if (!x({v[i], d})) return; } return; }
		Eo x(1, nb2[1]); for (u32 c = it - 16; c < 0x110000; c += 16) { Datum d(uni(c)), e(d); if (!x({d})) return; for (u8 t : {0, 2, 3, 4, 0x1B, 0xFF}) { e.d[0] = t; if (!x({e})) return; } } for (size_t n = it - 15; n < 700; n += 16) if (!x({Datum(S(n, char(n)))})) return; });
	explore("logs", 8 * 12, [&](u64 it) { int k = it % 8; static const char *al[] = {"0161", "03FF!", "1B5B6D", "0100", "016E2C!", "0102A3F0", "/", "+", "FF", "80", "00", "0A"}; VS v{al[it / 8]}; std::function<bool()> go = [&]() -> bool { S x; for (auto &e : v) { bool sep = e == "/" || e == "+"; if (!sep && x.size() && x.back() != '/' && x.back() != '+') x += ","; x += e; } S d = fmt("log %d ", k) + x; g_describe = [&] { return d; }; sh->states++; S r = logs(k, x); if (r.size()) { violation(d, r); return false; } if ((int)v.size() == (thorough ? 4 : 3)) return true; for (auto a : al) { v.push_back(a); if (!go()) return false; v.pop_back(); } return true; }; go(); g_describe = nullptr; });
	auto fs = sizes(thorough ? 1100000 : 70000); std::reverse(fs.begin(), fs.end()); explore("forms of any length", fs.size() * 11, [&](u64 it) { S d = fmt("formlong %d %ld", (int)(it % 11), fs[it / 11]); g_describe = [&] { return d; }; S r = replay(d); if (r.size()) violation(d, r); g_describe = nullptr; outcome(fnv(d)); });
	auto ls = sizes(thorough ? 200000 : 20000); std::reverse(ls.begin(), ls.end()); explore("logs of any size", ls.size() * 8, [&](u64 it) { for (int q = 0; q < 2; q++) { S d = fmt("loglong %d %ld %ld", (int)(it % 8), q ? ls[it / 8] : 2, q ? 1 : ls[it / 8]); g_describe = [&] { return d; }; sh->states++; S r = replay(d); if (r.size()) { violation(d, r); return; } } });
	// lists of data, with separators
	explore("back and forth: lists in the notation", 1, [&](u64) { VD al = unshow("0161,0100,016E2C,0103F0,03FF,0300,021234,1B5B6D"); VD v; Conv c("pass:insert#after=002c:bsdconv-keyword,bsdconv|bsdconv-keyword,bsdconv:pass"); g_describe = [&] { return "notation " + show(v); }; std::function<bool()> go = [&]() -> bool { VD g = c.run_list(v), w; for (auto &d : v) { w.push_back(d); w.push_back(Datum(S("\0,", 2))); } g.erase(std::remove_if(g.begin(), g.end(), [](const Datum &d) { return d.d.empty(); }), g.end()); sh->states++; eval(); sh->trans++; if (g != w) { violation("notation " + show(v), "comes back as " + show(g)); return false; } if (v.size() == 4) return true; for (auto &d : al) { v.push_back(d); if (!go()) return false; v.pop_back(); } return true; }; go(); });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
