// P18: text transformations with memory against models written from their documentation: every text over small alphabets
// with every argument, whole and datum by datum.
#include "mc.hpp"
#include "ref.hpp"
#include "sets.hpp"
static S TD;
static VD lst(const S &hexlist) { VD r; if (hexlist.empty()) return r; for (auto &x : split(hexlist, '.')) r.push_back(Datum(unhex(x))); return r; }
struct Arg { S k, v; bool has; };
static std::vector<Arg> args(const S &codec, S &name) { size_t p = codec.find('#'); name = sets::upper(codec.substr(0, p)); std::vector<Arg> r; if (p == S::npos) return r; for (auto &x : split(codec.substr(p + 1), '&')) { size_t q = x.find('='); r.push_back({x.substr(0, q), q == S::npos ? "" : x.substr(q + 1), q != S::npos}); } return r; }
// at a position: a listed sequence, or every datum
struct Rep : ref::Data { VD a, b; size_t at(const VD &in, size_t p, VD &o) override { if (p + a.size() > in.size()) return 0; for (size_t i = 0; i < a.size(); i++) if (in[p + i].d != a[i].d) return 0; o = b; return a.size(); } };
struct Ins : ref::Data { VD b, a; size_t at(const VD &in, size_t p, VD &o) override { o = b; o.push_back(in[p]); o.insert(o.end(), a.begin(), a.end()); return 1; } };
struct All : ref::Data { size_t at(const VD &in, size_t p, VD &o) override { o = {in[p]}; return 1; } };
static bool undefined; // the documentation does not say
static bool ambi(const S &d) { return sets::width(d) == 'A'; }
static VD strings(const VD &in, const S &f, size_t min, const VD &before, const VD &after) { VD r, run; auto end = [&] { if (run.size() && run.size() >= min) { r.insert(r.end(), before.begin(), before.end()); r.insert(r.end(), run.begin(), run.end()); r.insert(r.end(), after.begin(), after.end()); } run.clear(); }; for (auto &d : in) if (sets::accepts(f, d.d)) run.push_back(d); else end(); end(); return r; }
static VD trim(const VD &in, long n, int aw) { VD r; for (auto &d : in) { char w = sets::width(d.d); if (w == '?') undefined = true; int k = w == 'F' ? 2 : w == 'H' ? 1 : w == 'A' ? aw : 0; if (k > n) break; n -= k; r.push_back(d); } return r; }
static VD pad(const VD &in, bool on) { VD r; for (auto &d : in) { r.push_back(d); if (on && ambi(d.d)) r.push_back(Datum(uni(0xA0))); } return r; }
static VD unpad(const VD &in, bool on) { VD r; bool a = false; for (auto &d : in) { if (a && d.d == uni(0xA0)) { a = false; continue; } r.push_back(d); a = on && ambi(d.d); } return r; }
static VD defrag(const VD &in) {
	VD r; for (size_t i = 0; i < in.size(); i++) { r.push_back(in[i]); auto &d = in[i].d; if (!(d.size() == 2 && d[0] == 3 && (u8)d[1] > 0x7F)) continue;
		size_t j = i + 1; while (j < in.size() && in[j].d.size() && in[j].d[0] == 0x1B) j++; if (j == in.size()) continue; auto &t = in[j].d; u8 x = t.size() == 2 && t[0] == 3 ? t[1] : 0; bool lead = (u8)d[1] > 0x80 && (u8)d[1] < 0xFF, trail = (x >= 0x40 && x < 0x7F) || (x > 0xA0 && x < 0xFF); if (j > i + 1 && !(lead && trail)) undefined = true; r.push_back(in[j]); for (size_t k = i + 1; k < j; k++) r.push_back(in[k]); i = j; } return r;
}
static bool ws(const S &d) { return d == uni(9) || d == uni(10) || d == uni(13) || d == uni(32); }
static const char *alias(const S &n) { static const std::map<S, const char *> m = {{"SPLIT", "insert#after=002c"}, {"NOBOM", "replace#01feff"}, {"ZH-STRINGS", "strings#for=cjk"}}; auto i = m.find(n); return i == m.end() ? nullptr : i->second; }
static S ctl; // state of padding: "" or "0"
static VD phase(const S &ph, VD v) {
	std::vector<ref::Data *> l; VD r; bool done = false;
	for (auto c : split(ph, ',')) {
		S n; auto a = args(c, n); if (alias(n)) { c = alias(n); a = args(c, n); }
		if (n == "REPLACE") { auto *p = new Rep; p->a = lst(a[0].k); p->b = lst(a[0].v); l.push_back(p); }
		else if (n == "INSERT") { auto *p = new Ins; for (auto &x : a) (sets::upper(x.k) == "AFTER" ? p->a : p->b) = lst(x.v); l.push_back(p); }
		else if (n == "PASS") l.push_back(new All);
		else if (n == "STRINGS") { S f = "PRINT"; size_t m = 1; VD b, e = {Datum(uni(10))}; for (auto &x : a) { S k = sets::upper(x.k); if (k == "FOR") f = x.v; else if (k == "MIN-LEN") m = atoi(x.v.c_str()); else if (k == "AFTER") e = lst(x.v); else b = lst(x.v); } r = strings(v, f, m, b, e); done = true; }
		else if (n == "TRIM-WIDTH") { long w = 0; int aw = 1; for (auto &x : a) if (isdigit(x.k[0]) || x.k[0] == '-') w = atol(x.k.c_str()); else aw = 2; r = trim(v, w, aw); done = true; }
		else if (n == "AMBIGUOUS-PAD") { r = pad(v, ctl.empty()); done = true; }
		else if (n == "AMBIGUOUS-UNPAD") { r = unpad(v, ctl.empty()); done = true; }
		else if (n == "BIG5-DEFRAG") { r = defrag(v); done = true; }
		else l.push_back(new ref::TData(ref::table(TD, "inter/" + n)));
	}
	if (!done) r = ref::inter(l, v); for (auto x : l) delete x; return r;
}
static VD ideal(const S &conv, VD v) {
	auto ph = split(conv, ':'); std::vector<std::pair<size_t, Datum>> q; size_t start = 0; bool out = false;
	for (auto &p : ph) {
		S n = sets::upper(p);
		if (n == "WHITESPACE-DERAIL") { VD r; for (auto &d : v) if (ws(d.d)) q.push_back({r.size(), d}); else r.push_back(d); v = r; out = true; start = r.size(); }
		else if (n == "WHITESPACE-RERAIL") { VD r; size_t k = 0; if (v.size() > start) undefined = true; for (size_t i = 0; i <= v.size(); i++) { while (k < q.size() && (q[k].first <= i || i == v.size())) r.push_back(q[k++].second); if (i < v.size()) r.push_back(v[i]); } v = r; q.clear(); }
		else v = phase(p, v);
	}
	return v;
}
static S name(const S &c) { return c.find(':') == S::npos && c.find("zh-strings") == S::npos ? c : "pass:" + c + ":pass"; }
// how: 0 one call, 1 datum by datum, 2 in one call without the flag, then an empty one with it
static VD feed(Conv &c, const VD &in, int how) { VD o; c.reset(); if (ctl.size()) bsdconv_ctl(c.p, BSDCONV_CTL_AMBIGUOUS_PAD, NULL, atoi(ctl.c_str())); if (how == 0) { c.set_list(in); c.p->flush = 1; c.go_list(o); } else { if (how == 1) for (auto &d : in) { c.set_list({d}); c.go_list(o); } else { c.set_list(in); c.go_list(o); } c.set_list({}); c.p->flush = 1; c.go_list(o); } o.erase(std::remove_if(o.begin(), o.end(), [](const Datum &d) { return d.d.empty(); }), o.end()); return o; } // (empty data only hold a place)
static S chk(Conv &c, const S &k, const VD &in, int how) { undefined = false; VD w = ideal(k, in); if (undefined) { feed(c, in, how); return ""; } VD g = feed(c, in, how); eval(); sh->trans++; if (g.size() && k.find("zh") == S::npos) sh->nontrivial++; return w == g && !*c.ie && !*c.oe ? "" : fmt("gives %s instead of %s", show(g).c_str(), show(w).c_str()); }
struct X { Conv c; S k; VD in; int how = 0; X(const S &k_) : c(name(k_)), k(k_) { if (!c.p) violation("text " + k + " 0 - ", "cannot be created"); g_describe = [this] { return "text " + k + fmt(" %d ", how) + (ctl.empty() ? "-" : ctl) + " " + show(in); }; } ~X() { g_describe = nullptr; }
	bool operator()(const VD &v, int h) { if (!c.p) return false; in = v; how = h; sh->states++; S r = chk(c, k, v, h); if (r.empty()) return true; Conv n(name(k)); if (chk(n, k, v, h).empty()) { sh->reuse++; c.reopen(); return true; } violation(g_describe(), r); return false; }
	bool both(const VD &v) { return (*this)(v, 0) && (*this)(v, 1); } };
static bool texts(X &x, const VD &al, int len, bool all = false) { // every sequence over al up to len
	VD cur; std::function<bool()> go = [&]() -> bool { if (!x.both(cur) || (all && !x(cur, 2))) return false; if ((int)cur.size() == len) return !stopping(); for (auto &d : al) { cur.push_back(d); if (!go()) return false; cur.pop_back(); } return true; }; bool r = go(); outcome(fnv(x.k)); return r;
}
static VD A(const char *s) { return unshow(s); }
// texts of any size: kind i, size n, variant v; false when there is no such
static const int NSIZED = 16;
static S dots(const VD &v) { S r; for (auto &d : v) r += (r.size() ? "." : "") + hex(d.d); return r; }
static bool sized(int i, long n, int v, S &k, VD &in) {
	auto rep = [&](const char *unit, long m) { VD u = unshow(unit); for (long j = 0; j < m; j++) in.push_back(u[j % u.size()]); }; in.clear(); long m = n + v - 1; if (m < 0) return false;
	switch (i) {
	case 0: k = fmt("trim-width#%ld", n); rep("0161", m); return true; // as wide as the limit, one more, one less
	case 1: k = fmt("trim-width#%ld&ambi-as-wide", n); if (n > 40000) return false; rep("016E2C,010411", n / 2 + v - 1 < 0 ? 0 : n / 2 + v - 1); rep("0161,0162", 2); return true;
	case 2: k = fmt("strings#min-len=%ld", n); rep("0161,0162", m); rep("0101", 1); rep("0162", 3); return true;
	case 3: k = "strings#for=cjk&min-len=2&before=013C"; rep("016E2C", m); rep("0161", 1); rep("018A66", v); return true;
	case 4: k = "whitespace-derail:whitespace-rerail"; rep("0161,0162,0163", n); rep("0120", v); rep("010A", 1); rep("0164", 2); return true;
	case 5: k = "whitespace-derail:replace#0161.0162=0163:whitespace-rerail"; rep("0161", n); rep("0120", 1 + v); rep("0161,0162", 2); rep("0109", 1); return true;
	case 6: k = "whitespace-derail:whitespace-rerail"; rep("0161", v); rep("0120,010A,0120", n); rep("0162", 1); return true;
	case 7: { if (n < 1 || n > 1100) return false; rep("0161", n - 1); in.push_back(Datum(uni('b'))); k = "replace#" + dots(in) + (v ? "=0163" : ""); VD x; for (int j = 0; j < v; j++) x.push_back(Datum(uni('a'))); x.insert(x.end(), in.begin(), in.end()); in = x; in.push_back(Datum(uni('a'))); return true; }
	case 8: if (n > 1100) return false; { VD b; b.swap(in); rep("013C,016E2C,0101", n); b = in; in.clear(); k = S("insert#") + (v ? "after=" : "before=") + dots(b) + (v == 2 ? "&before=0128" : ""); } rep("0161,0162", 2); return true;
	case 9: k = "unix"; rep(v == 0 ? "010D,010A" : v == 1 ? "010D" : "0161,010D,010A", n); return true;
	case 10: k = v == 0 ? "ambiguous-pad" : v == 1 ? "ambiguous-unpad" : "ambiguous-pad:ambiguous-unpad"; rep("010411,01A0,0161", n); return true;
	case 11: k = "big5-defrag"; rep("03A4", 1); rep("1B5B6D,1B5B41", n); if (v) rep("0340", 1); if (v == 2) rep("03A4,0340", 2); return true;
	case 12: k = v == 0 ? "nobom" : v == 1 ? "win" : "upsidedown"; rep(v == 0 ? "01FEFF,0161" : v == 1 ? "0161,010A" : "0161,0162,0131", n); return true;
	case 13: if (n < 1 || n > 5000) return false; { S d("\x03", 1); for (long j = 1; j < n; j++) d += char(j * 37); S o = d; o[n - 1] ^= v == 1 ? 0x80 : 0; if (v == 2) o += d; k = "replace#" + hex(d) + "=0161"; in = {Datum(d), Datum(o), Datum(d)}; } return true; // long data
	case 14: if (n < 1 || n > 5000) return false; { S d("\x03", 1); for (long j = 1; j < n; j++) d += char(j * 41); k = "insert#after=" + hex(d) + (v ? "" : "&before=0128"); in = {Datum(uni('x')), Datum(d)}; } return true;
	case 15: k = "replace#0161.0162=0163"; rep(v == 0 ? "0161,0162" : v == 1 ? "0161,0161,0162" : "0161", n); return true;
	} return false;
}
// the switch for padding, in every place and at every time: ops a m p data, 0 1 switch, i init
static const char *swp[] = {"ambiguous-pad", "upper,ambiguous-pad", "pass#for=cjk,ambiguous-pad", "upper:lower:upper,pass#for=cjk,ambiguous-pad", "ambiguous-pad,pass:ambiguous-pad", "upper:ambiguous-unpad", "upper,ambiguous-unpad", "pass#for=cjk,ambiguous-unpad:lower"};
static S switches(int kind, const S &ops) {
	S k = swp[kind]; static Conv cs[8]; Conv &c = cs[kind]; if (!c.p && !c.open("pass:" + k + ":pass")) return "cannot be created"; c.reset(); VD g, w; bool on = true, up = k.find("upper") != S::npos, un = k.find("unpad") != S::npos, amb = false; int n = kind == 4 ? 2 : 1;
	for (char o : ops) { sh->trans++;
		if (o == '0' || o == '1') { if (un && amb) return ""; /* between a character and its pad */ bsdconv_ctl(c.p, BSDCONV_CTL_AMBIGUOUS_PAD, NULL, o - '0'); on = o == '1'; }
		else if (o == 'i') { c.reset(); on = true; amb = false; }
		else { Datum d(uni(o == 'a' ? 'a' : o == 'm' ? 0xA7 : o == 'c' ? 0x6E2C : 0xA0)); c.set_list({d}); c.go_list(g); if (amb && ((kind == 6 && o == 'a') || (kind == 7 && o == 'c'))) return ""; /* the pad is after what another codec took */ if (un) { if (amb && o == 'p') amb = false; else { w.push_back(d); amb = on && o == 'm'; } } else { w.push_back(d); if (o == 'm' && on) for (int i = 0; i < n; i++) w.push_back(Datum(uni(0xA0))); } } }
	c.set_list({}); c.p->flush = 1; c.go_list(g); eval(); g.erase(std::remove_if(g.begin(), g.end(), [](const Datum &d) { return d.d.empty(); }), g.end()); VD h; for (auto &d : w) h.push_back(d.d == uni('a') && up ? Datum(uni('A')) : d); return g == h ? "" : fmt("gives %s instead of %s", show(g).c_str(), show(h).c_str());
}
static S replay(const S &d) {
	if (d.compare(0, 7, "switch ") == 0) { TD = g_data; ucd::load(TD); sets::load(TD); VS w = split(d, ' '); return switches(atoi(w[1].c_str()), w[2]); }
	if (d.compare(0, 5, "size ") == 0) { TD = g_data; ucd::load(TD); sets::load(TD); VS w = split(d, ' '); S k; VD in; if (!sized(atoi(w[1].c_str()), atol(w[2].c_str()), atoi(w[3].c_str()), k, in)) return "bad descriptor"; Conv c(name(k)); return c.p ? chk(c, k, in, atoi(w[4].c_str())).substr(0, 400) : "cannot be created"; } TD = g_data; ucd::load(TD); sets::load(TD); VS w = split(d, ' '); ctl = w.size() < 4 || w[3] == "-" ? "" : w[3]; Conv c(name(w[1])); return c.p ? chk(c, w[1], unshow(w.size() > 4 ? w[4] : ""), atoi(w[2].c_str())) : "cannot be created"; }
struct Job { S conv; VD al; int len; };
static void all() {
	TD = g_data; ucd::load(TD); sets::load(TD);
	std::vector<Job> j; int T = 1 + thorough;
	// replacing: every pattern of up to three (four) of two data, by every kind of text
	VD ab = A("0161,0162,0163,0161!"); std::vector<S> pat{"0161", "0162"}; size_t at = 0; for (int l = 1; l < 3 + T; l++) { size_t e = pat.size(); for (; at < e; at++) { pat.push_back(pat[at] + ".0161"); pat.push_back(pat[at] + ".0162"); } }
	for (auto &p : pat) for (auto &r : {"", "=", "=0163", "=0161", "=0162.0161", "=002c"}) j.push_back({"replace#" + p + r, ab, 6 + T});
	for (auto &p : {"0161.0162.0161.0162", "0161.0161.0161.0162", "0161.0162.0163.0161.0162", "0161.0162.0161.0161.0162"}) j.push_back({S("replace#") + p + "=0163", A("0161,0162,0163"), 8 + T});
	for (auto p : {"016E2C=0162", "016e2c.0161", "01=0161", "0341=0141", "1b5b6d=", "0161.03ff.002c=0162.03fe"}) j.push_back({S("replace#") + p, A("016E2C,0161,01,0141,0341,1B5B6D,03FF,002C"), 4 + T});
	for (auto p : {"replace#0161.0162=0163,replace#0161=0164", "replace#0161=0164,replace#0161.0162=0163", "replace#0161.0161.0162=0163,replace#0161.0162=0162,pass", "replace#0161.0162=0131:replace#0131.0163=0132", "replace#0161=0162:replace#0162=0163", "replace#0161.0162=,upper", "upper,replace#0161.0162=", "replace#0161.0162.0163=0131,replace#0162.0163=0132,replace#0163=0133"}) j.push_back({p, A("0161,0162,0163,0162!,0141"), 6 + T});
	j.push_back({"nobom", A("01FEFF,0161,01FFFE,01FEFF!"), 6 + T});
	// inserting
	for (auto p : {"insert#after=012c", "insert#before=012c", "insert#after=002c", "insert#after=012c.0120&before=0128", "insert#before=0141.0142.0143&after=0144", "insert#after=", "insert#before=&after=0101", "insert#AFTER=0141", "split", "insert#after=012c:insert#before=0128", "insert#after=0161:replace#0161.0161=0162", "insert#before=016e2c,upper", "upper,insert#after=012c"}) j.push_back({p, A("0161,0142,016E2C,0161!,002C,03FF,0101F600"), 4 + T});
	// strings
	for (auto f : {"", "for=cjk", "for=latin", "for=ascii", "for=unicode", "for=byte", "for=PRINT"}) for (auto m : {"", "min-len=1", "min-len=2", "min-len=3", "min-len=4"}) for (auto a : {"", "after=013b", "after=", "before=013e", "before=013c.013d&after=013b.010a", "after=002c"}) {
		VS v; for (S x : {f, m, a}) if (x.size()) v.push_back(x); if (S(f) == "for=ascii" && !sets::known("ascii")) continue; if (S(f) == "for=latin" && !sets::known("latin")) continue; j.push_back({"strings" + (v.empty() ? S() : "#" + join(v, "&")), A("0161,010A,016E2C,01E9!,03FF"), 5 + T}); if (*m) j.back().al.pop_back(); if (!strcmp(m, "min-len=4")) j.back().len++; }
	j.push_back({"zh-strings", A("0161,016E2C,018A66,010A"), 6 + T}); j.push_back({"strings#min-len=2:strings#min-len=3", A("0161,0162,0101"), 7 + T}); j.push_back({"strings#min-len=3&for=cjk&after=0041", A("0161,016E2C,016E2C!"), 7 + T});
	// trimming
	for (int n = -1; n <= 6; n++) for (auto a : {"", "&ambi-as-wide", "&ambiguous-as-wide"}) { j.push_back({fmt("trim-width#%d%s", n, a), A("0161,016E2C,010411,010A,03FF,0161!"), 5 + T}); if (*a) j.push_back({fmt("trim-width#%s&%d", a + 1, n), A("0161,016E2C,010411"), 4}); }
	for (auto p : {"trim-width#10", "trim-width#9&ambi-as-wide"}) j.push_back({p, A("0161,016E2C,010411"), 10 + T}); j.push_back({"trim-width#3:trim-width#2", A("0161,016E2C,010411"), 5}); j.push_back({"trim-width#2:insert#after=0161:trim-width#3", A("0161,016E2C,010411"), 5}); j.push_back({"trim-width#0", A("0161,010301,010A,01200B,002C"), 5});
	// line ends
	for (auto p : {"unix", "win", "mac", "nl2br", "win:unix", "mac:win", "unix:mac", "unix:nl2br", "mac:unix:win", "unix,upper", "upper,win"}) j.push_back({p, A("010D,010A,0161,010A!,030D"), 6 + T});
	// ambiguous widths
	for (auto p : {"ambiguous-pad", "ambiguous-unpad", "ambiguous-pad:ambiguous-unpad", "ambiguous-unpad:ambiguous-pad", "ambiguous-pad:ambiguous-pad", "ambiguous-unpad:ambiguous-unpad"}) j.push_back({p, A("0161,010411,01A0,01A0A0,03A0,010411!,0120"), 5 + T});
	// white space
	for (auto p : {"whitespace-derail:whitespace-rerail", "whitespace-derail", "whitespace-rerail", "whitespace-derail:upper:whitespace-rerail", "whitespace-derail:replace#0161.0162=0163:whitespace-rerail", "whitespace-derail:replace#0161=:whitespace-rerail", "whitespace-derail:replace#0161.0162.0161:whitespace-rerail:upper", "upper:whitespace-derail:replace#0141.0142=0143:lower:replace#0163.0163=0164:whitespace-rerail", "whitespace-derail:strings#min-len=2&after=:whitespace-rerail", "whitespace-derail:trim-width#2:whitespace-rerail"}) j.push_back({p, A("0161,0162,0120,010A,0120!,0109"), 6 + T});
	j.push_back({"whitespace-derail:whitespace-rerail", A("0161,0109,010A,010D,0120,010B,013000,0320,01A0"), 5}); j.push_back({"whitespace-derail:zhtw:zhtw-words:whitespace-rerail", A("014E4B,01540E,0120,010A,016D4B,018BD5"), 5 + T}); j.push_back({"whitespace-derail:zhtw:replace#016E2C.018A66=0154:whitespace-rerail", A("014E4B,01540E,0120,016D4B,018BD5,010A"), 6});
	// split codes
	j.push_back({"big5-defrag", A("03A4,0340,03FE,1B5B6D,1B4D"), 7 + T}); j.push_back({"big5-defrag", A("03A4,037E,03A1,1B5B6D!,0161,002C,030A"), 5 + T}); j.push_back({"big5-defrag:big5-defrag", A("03A4,0340,1B5B6D"), 7 + T}); j.push_back({"big5-defrag", A("0380,03FF,0381,03FE,037F,03A0,1B5B6D"), 5});
	auto heavy = [](const Job &x) { double w = 1; for (int i = 0; i < x.len; i++) w *= x.al.size(); return w; }; std::stable_sort(j.begin(), j.end(), [&](const Job &a, const Job &b) { return heavy(a) > heavy(b); });
	explore("texts", j.size(), [&](u64 it) { X x(j[it].conv); texts(x, j[it].al, j[it].len, it % 8 == 0); if (it % 40 == 0) sample(x.k + " " + show(x.in) + " -> " + show(ideal(x.k, x.in))); });
	auto SZ = sizes(thorough ? 1100000 : 66000, 260); std::reverse(SZ.begin(), SZ.end());
	explore("texts of any size", SZ.size() * NSIZED, [&](u64 it) { long n = SZ[it / NSIZED]; int i = it % NSIZED; for (int v = 0; v < 3; v++) { S k; VD in; if (!sized(i, n, v, k, in)) continue; for (int how = 0; how < 2; how++) { if (how && n > 66000) break; S d = fmt("size %d %ld %d %d", i, n, v, how); g_describe = [&] { return d; }; sh->states++; Conv c(name(k)); S r = c.p ? chk(c, k, in, how).substr(0, 300) : S("cannot be created"); if (r.size()) { violation(d, r); return; } } } g_describe = nullptr; });
	// each code point in its surroundings
	static const char *cs[] = {"ambiguous-pad", "ambiguous-unpad", "ambiguous-pad:ambiguous-unpad", "trim-width#3", "trim-width#3&ambi-as-wide", "strings#min-len=2", "strings#for=cjk&min-len=2&before=013c", "whitespace-derail:whitespace-rerail", "whitespace-derail", "unix", "win", "mac", "nl2br", "upsidedown", "upsidedown:upsidedown", "nobom", "split", "big5-defrag", "replace#0161.0162=0163"};
	size_t nc = sizeof cs / sizeof *cs;
	explore("every code point", nc * 68, [&](u64 it) { X x(cs[it / 68]); Datum a(uni('a')), p(uni(0xA0)), m(uni(0x411)), s(uni(32)), w(uni(0x6E2C)), nl(uni(13)); for (u32 c = it % 68 * 16384; c < (it % 68 + 1) * 16384; c++) { Datum d(uni(c)), o(d); o.d[0] = 3; if (!x({d}, 0) || !x({a, d, p, a}, 0) || !x({m, d, p, d}, 0) || !x({d, d, s, d}, 0) || !x({w, d, w}, 0) || !x({nl, d, nl, Datum(d.d, 1)}, 0)) return; if (c < 0x10000 || thorough) if (!x({o, d, o}, 1) || !x({d, o, p, Datum(uni(10))}, 0)) return; } outcome(it * 77); });
	explore("padding switched off", 4, [&](u64 it) { ctl = "0"; X x(it == 0 ? "ambiguous-pad" : it == 1 ? "ambiguous-unpad" : it == 2 ? "ambiguous-pad:ambiguous-unpad" : "ambiguous-pad"); if (it == 3) ctl = "1"; if (it == 3) ctl = ""; texts(x, A("0161,010411,01A0,01A0A0,03A0"), 5); ctl = ""; });
	static const char SO[] = "amp01ic"; int SL = thorough ? 7 : 6; u64 SN = 1; for (int i = 0; i < SL - 2; i++) SN *= 7;
	explore("padding switched at any time", SN, [&](u64 it) { for (int y = 0; y < 49; y++) for (int kd = 0; kd < 8; kd++) { S o; u64 x = it * 49 + y; for (int i = 0; i < SL; i++) { o += SO[x % 7]; x /= 7; } S d = fmt("switch %d ", kd) + o; g_describe = [&] { return d; }; sh->states++; S r = switches(kd, o); if (r.size()) { violation(d, r); return; } } });
	explore("mirrored sequences", 1, [&](u64) { X x("upsidedown"); VD al; for (auto &e : ref::table(TD, "inter/UPSIDEDOWN")->exact) { VD v; const S &p = e.first; for (size_t i = 0; i < p.size(); i += (u8)p[i] + 1) v.push_back(Datum(p.substr(i + 1, (u8)p[i]))); al.insert(al.end(), v.begin(), v.end()); if (!x.both(v)) return; v.push_back(v[0]); if (!x.both(v)) return; } for (auto &a : al) for (auto &b : al) { if (!x.both({a, b})) return; } });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
