// P11: counters.  Counting, width and scoring phases against sets of code points; input and output errors against
// what a fallback codec receives instead; named counters and resets.
#include <fcntl.h>
#include <unistd.h>
#include "convs.hpp"
#include "ref.hpp"
#include "sets.hpp"
static S TD;
// ---- counting phases: element of a pipeline -> what it adds for one datum
struct El { S txt; std::function<void(const S &, Ctr &)> add; };
static void wid(const S &d, Ctr &c) { switch (sets::width(d)) { case 'F': c["FULL"]++; break; case 'H': c["HALF"]++; break; case 'A': c["AMBI"]++; break; } }
static El count(S arg) { // arg like "", "x", "for=cjk", "x&for=cjk"
	S f, k = "COUNT"; for (auto &a : split(arg, '&')) if (a.size()) { if (sets::upper(a.substr(0, 4)) == "FOR=") f = a.substr(4); else k = sets::upper(a.substr(0, a.find('='))); }
	return {arg.empty() ? "COUNT" : "COUNT#" + arg, [f, k](const S &d, Ctr &c) { c[k] += sets::accepts(f, d); }}; }
static El score(S with, S as) { return {"SCORE#" + (with.size() ? "with=" + with : S("as=" + (as.size() ? as : "SCORE"))) + (with.size() && as.size() ? "&as=" + as : ""), [=](const S &d, Ctr &c) { c[as.size() ? sets::upper(as) : "SCORE"] += sets::score(with.size() ? with : "CJK", d); }}; }
static std::vector<std::vector<El>> pipes() {
	std::vector<std::vector<El>> v; El W{"WIDTH", wid};
	for (auto &n : sets::names()) v.push_back({count("for=" + n)});
	v.push_back({count("")}); v.push_back({W}); v.push_back({score("cjk", "")}); v.push_back({score("LATIN1", "")}); v.push_back({score("", "")}); v.push_back({score("cjk", "mine")}); v.push_back({score("", "mine")});
	v.push_back({count("a"), count("A&for=cjk"), count("b&for=latin")}); v.push_back({count("for=latin&for=cjk")}); v.push_back({count("x&y")}); v.push_back({W, count(""), W}); v.push_back({count("full"), W, score("cjk", "half")});
	v.push_back({count("IERR"), count("oerr&for=unicode")}); v.push_back({count("for=byte"), W, score("latin1", "s"), count("s&for=hangul"), count("s=ignored&FOR=cyrillic")});
	return v;
}
static S conv(const std::vector<El> &p) { S r; for (auto &e : p) r += (r.size() ? ":" : "") + e.txt; return p.size() == 1 ? r : "pass:" + r + ":pass"; }
static bool undef(const VD &v) { for (auto &d : v) if (sets::width(d.d) == '?') return true; return false; }
static S ctr(const Ctr &c) { S r; for (auto &e : c) if (e.second) r += e.first + "=" + std::to_string(e.second) + " "; return r; }
static S chk(Conv &c, const std::vector<El> &p, const VD &in) {
	Ctr w; for (auto &d : in) for (auto &e : p) e.add(d.d, w);
	VD out = c.run_list(in); eval(); sh->trans++; if (out != in) return fmt("the data come out as %s", show(out).c_str());
	Ctr g = c.counters(); if (undef(in)) for (auto k : {"FULL", "HALF", "AMBI"}) { w.erase(k); g.erase(k); }
	return ctr(w) == ctr(g) ? "" : fmt("counts %s instead of %s", ctr(g).c_str(), ctr(w).c_str());
}
// ---- errors: X alone drops what a fallback would have got
static S low(S s) { for (auto &c : s) c = tolower(c); return s; }
struct Pair { Conv a, b; S ac, bc; bool from; Pair(const S &x, bool f) : from(f) { ac = f ? x + ":pass" : "pass:" + x; bc = f ? x + ",any#7F0102.7F03:pass" : "pass:" + x + ",any#F00DF00DF00D.BEEF"; a.open(ac); b.open(bc); } };
static S errs(Pair &p, const S &bytes, const VD &data) {
	S fd = p.from ? unhex("7F0102") : unhex("F00DF00DF00D"), ft = p.from ? unhex("7F03") : unhex("BEEF");
	VD x = p.from ? p.a.decode(bytes) : p.a.run_list(data), y = p.from ? p.b.decode(bytes) : p.b.run_list(data); eval(2); sh->trans += 2;
	VD z; u64 n = 0; for (size_t i = 0; i < y.size(); i++) if (y[i].d == fd && i + 1 < y.size() && y[i + 1].d == ft) { n++; i++; } else z.push_back(y[i]);
	u64 e = p.from ? *p.a.ie : *p.a.oe, o = p.from ? *p.a.oe : *p.a.ie, be = *p.b.ie + *p.b.oe;
	if (e != n) return fmt("%llu errors counted, a fallback gets %llu", (unsigned long long)e, (unsigned long long)n);
	if (o || be) return "errors on the other side or with a fallback";
	return x == z ? "" : fmt("gives %s, with a fallback %s", show(x).c_str(), show(y).c_str());
}
static const char *froms[] = {"ascii", "utf-8", "_utf-8#cesu", "_utf-8#overlong&nul&super&cesu&loose", "utf-16le", "utf-16be", "utf-32le", "utf-32be", "big5", "cp950", "uao250", "hkscs2004", "gbk", "cp936", "gb2312", "gb18030", "cp949", "shift-jis", "cp932", "cccii", "cp1252", "cp1253", "cp874", "ibm-37", "escape,ascii", "htmlentity,ascii", "ascii-named-html-entity,utf-8", "bsdconv", "hex", "_jis0208", "ansi-control,ascii", "utf-8,big5"};
static const char *tos[] = {"ascii", "utf-8", "utf-16le", "utf-32be", "ucs-2be", "big5", "cp950", "uao250", "cp950-trans,ascii", "gbk", "cp936", "gb2312", "gb18030", "cp949", "shift-jis", "cccii", "cp1252", "cp1253", "iso-8859-1", "ibm-37", "bsdconv", "byte", "ascii,escape#for=unicode", "escape#for=byte", "ascii-named-html-entity", "ascii,byte,ansi-control", "pass#for=cjk", "jis"};
// ---- weights of scoring tables
struct Bonus { std::map<VD, int> w; size_t max = 0; };
static const Bonus &bonus(const S &n) { static std::map<S, Bonus> m; auto it = m.find(n); if (it != m.end()) return it->second; Bonus &b = m[n]; std::ifstream f(TD + "/inter/" + n + ".txt"); S l;
	while (std::getline(f, l)) { size_t t = l.find_first_of("\t "), q = l.find('?'); if (l[0] == '#' || t == S::npos || q == S::npos) continue; VD k; for (auto &x : split(l.substr(0, t), ',')) k.push_back(Datum(unhex(x))); b.w.emplace(k, strtoul(l.substr(q + 1, 2).c_str(), 0, 16)); b.max = std::max(b.max, k.size()); } return b; }
static u64 weigh(const std::vector<S> &cs, const VD &in) { u64 r = 0; for (size_t p = 0; p < in.size();) { size_t n = 0; for (auto &c : cs) { auto &b = bonus(c); for (size_t l = 1; !n && l <= b.max && p + l <= in.size(); l++) { VD k; for (size_t i = 0; i < l; i++) k.push_back(Datum(in[p + i].d)); auto it = b.w.find(k); if (it != b.w.end()) { n = l; r += it->second; } } if (n) break; } p += n ? n : 1; } return r; }
static S wchk(Conv &c, const S &cs, const VD &in) { VD o = c.run_list(in); eval(); sh->trans++; u64 g = c.counters()["SCORE"], w = weigh(split(cs, ','), in); return g == w ? "" : fmt("scores %llu instead of %llu", (unsigned long long)g, (unsigned long long)w); }
// ---- trained scores
static S trained(const VS &w) { // texts of code points which are trained one after the other, the last one is scored
	S f = g_tmp + "/score" + std::to_string(getpid()); unlink(f.c_str()); setenv("BSDCONV_SCORE", f.c_str(), 1); std::map<u32, int> m; S r; u64 want = 0, got;
	for (size_t i = 0; i + 1 < w.size(); i++) { Conv t("SCORE-TRAIN"); if (!t.p) return "no SCORE-TRAIN"; VD d = ucd::data(ucd::list(w[i])); if (t.run_list(d) != d) r = "training changes the data"; for (u32 c : ucd::list(w[i])) if (m[c] < 3) m[c]++; eval(); sh->trans++; }
	{ Conv s("SCORE#WITH=trained"); if (!s.p) return "no SCORE"; VD d = ucd::data(ucd::list(w.back())); if (s.run_list(d) != d) r = "scoring changes the data"; got = s.counters()["SCORE"]; for (u32 c : ucd::list(w.back())) want += m[c]; eval(); sh->trans++; }
	unlink(f.c_str()); return r.size() ? r : got == want ? "" : fmt("scores %llu instead of %llu", (unsigned long long)got, (unsigned long long)want);
}
// scores of a file which holds any weights
static S weights(u32 at, int n, int rot) { // code points at..at+n-1 have weights rot, rot+1, ...
	S f = g_tmp + "/score" + std::to_string(getpid()); setenv("BSDCONV_SCORE", f.c_str(), 1); int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644); S w; for (int i = 0; i < n; i++) w += char(rot + i); if (pwrite(fd, w.data(), n, at) != n) return "cannot prepare"; ::close(fd);
	S r; { Conv s("SCORE#WITH=trained"); if (!s.p) return "no SCORE"; for (int i = -1; i <= n && r.empty(); i++) { if (at + i > 0x10FFFF) continue; int want = i < 0 || i == n ? 0 : (u8)w[i]; VD d{Datum(uni(at + i))}; if (s.run_list(d) != d) r = "scoring changes the data"; int got = s.counters()["SCORE"]; eval(); sh->trans++; if (got != want) r = fmt("U+%04X scores %d instead of %d", at + i, got, want); } VD all; u64 want = 0; for (int k = 0; k < 3; k++) for (int i = 0; i < n; i++) { all.push_back(Datum(uni(at + i))); want += (u8)w[i]; } s.run_list(all); u64 got = s.counters()["SCORE"]; eval(); if (r.empty() && got != want) r = fmt("all together %llu instead of %llu", (unsigned long long)got, (unsigned long long)want); }
	unlink(f.c_str()); return r;
}
// any number of data: what one of them adds, so many times
static S many(int kind, long n) {
	static const char *cv[] = {"pass:count:pass", "pass:count#a&for=cjk:pass", "pass:width:pass", "pass:score#with=cjk:pass", "pass:count:count#b:pass"}; static const char *cb[] = {"utf-8:utf-8", "ascii:null", "utf-8:ascii", "big5:utf-8"}; VD u = unshow("0161,016E2C,010411"); Ctr w; Conv c(kind < 5 ? cv[kind] : cb[kind - 5]); if (!c.p) return "cannot be created";
	if (kind < 5) { VD in; for (long i = 0; i < n; i++) { auto &d = u[i % 3]; in.push_back(d); bool k = sets::accepts("CJK", d.d); switch (kind) { case 0: w["COUNT"]++; break; case 1: w["A"] += k; break; case 2: wid(d.d, w); break; case 3: w["SCORE"] += sets::score("CJK", d.d); break; case 4: w["COUNT"]++; w["B"]++; } } if (c.run_list(in) != in) return "the data are changed"; }
	else { S in; static const char *t[] = {"a\xFF", "\xFF\x80", "a\xE6\xB8\xAC", "\xFF"}; S tk = t[kind - 5]; for (long i = 0; i < n; i++) in += tk; c.run(in); w["IERR"] = kind == 5 || kind == 8 ? n : kind == 6 ? 2 * n : 0; w["OERR"] = kind == 7 ? n : 0; }
	eval(); sh->trans++; return ctr(w) == ctr(c.counters()) ? "" : "counts " + ctr(c.counters()) + "instead of " + ctr(w);
}
// ---- a fallback with every argument
static const char *anyargs[] = {"", "013F", "0141.0142", "0100", "3F.2F", "drop", "error", "error=mine", "ERROR"};
static S fallback(int kind, const VS &a, const S &text) { // text over g (accepted), b (not)
	S cv = "ascii,any" + (a.empty() ? "" : "#" + join(a, "&")); Conv c(kind ? "pass:" + cv : cv + ":pass"); if (!c.p) return "cannot be created"; VD data{Datum(unhex(kind ? "3F" : "013F"))}; S key;
	for (auto &x : a) { if (sets::upper(x.substr(0, 5)) == "ERROR") key = x.size() > 6 ? sets::upper(x.substr(6)) : kind ? "OERR" : "IERR"; else if (x == "drop") data.clear(); else { data.clear(); for (auto &d : split(x, '.')) if (d.size()) data.push_back(Datum(unhex(d))); } }
	VD in, w; S bytes; Ctr n; for (char t : text) { in.push_back(Datum(uni(t == 'g' ? 'a' : 0x6E2C))); bytes += t == 'g' ? 'a' : '\xFF'; if (t == 'g') w.push_back(Datum(kind ? S("a") : uni('a'))); else { w.insert(w.end(), data.begin(), data.end()); if (key.size()) n[key]++; } }
	VD g; if (kind) g = c.run_list(in); else g = c.decode(bytes); g.erase(std::remove_if(g.begin(), g.end(), [](const Datum &d) { return d.d.empty(); }), g.end()); eval(); sh->trans++; if (g != w) return fmt("gives %s instead of %s", show(g).c_str(), show(w).c_str()); return ctr(n) == ctr(c.counters()) ? "" : "counts " + ctr(c.counters()) + "instead of " + ctr(n);
}
// ---- files attached to a running conversion: A, B score files; l list, n no list; texts 1, 2, 3; i init
static S attach(int kind, const S &ops) {
	static const char *cv[] = {"SCORE-TRAIN", "SCORE#WITH=trained", "pass:score-train:score#with=trained:pass", "pass:pass,score#with=trained:pass,score-train:pass", "utf-8:upper:score-train:utf-8"}; S pf = g_tmp + "/attach" + std::to_string(getpid()); setenv("BSDCONV_SCORE", (pf + "E").c_str(), 1); FILE *F[3]; for (int i = 0; i < 3; i++) { F[i] = fopen((pf + "ABl"[i]).c_str(), "wb+"); if (!F[i]) return "cannot prepare"; }
	static const std::vector<std::vector<u32>> tx{{0x41}, {0x41, 0x6E2C, 0x41}, {0x1F600}}; std::map<u32, int> m[2]; for (int i = 0; i < 2; i++) if (kind == 1) { m[i][0x41] = i + 1; m[i][0x6E2C] = 200 - i; for (auto &e : m[i]) { fseek(F[i], e.first, SEEK_SET); fputc(e.second, F[i]); } fflush(F[i]); }
	S r, list; int cur = 0; bool lst = false; u64 score = 0; bool train = kind != 1, sc = kind == 1 || kind == 2;
	{ Conv c(cv[kind]); if (!c.p) r = "cannot be created"; else { bsdconv_ctl(c.p, BSDCONV_CTL_ATTACH_SCORE, F[0], 0); bsdconv_init(c.p); }
		for (char o : ops) { if (r.size()) break; sh->trans++; eval();
			if (o == 'A' || o == 'B') { cur = o - 'A'; bsdconv_ctl(c.p, BSDCONV_CTL_ATTACH_SCORE, F[cur], 0); } else if (o == 'l' || o == 'n') { lst = o == 'l'; bsdconv_ctl(c.p, BSDCONV_CTL_ATTACH_OUTPUT_FILE, lst ? F[2] : NULL, 0); } else if (o == 'i') bsdconv_init(c.p);
			else { auto &t = tx[o - '1']; for (size_t k = 0; k < (kind == 2 ? t.size() : 1); k++) { VD in; S b; for (size_t q = 0; q < t.size(); q++) if (kind != 2 || q == k) { u32 x = t[q]; in.push_back(Datum(uni(x))); b += utf8(x == 0x41 ? 'a' : x); if (train && kind != 3) { if (m[cur][x] == 0 && lst) for (int z = 24; z >= 0; z -= 8) list += char(x >> z); if (m[cur][x] < 3) m[cur][x]++; } if (sc) score += m[cur][x]; }
				bsdconv_init(c.p); if (kind == 4) { S o2; c.set_input(b); c.p->flush = 1; c.go(o2); } else { VD o2; c.set_list(in); c.p->flush = 1; c.go_list(o2); if (o2 != in) r = "the data are changed"; } } }
			if (r.empty() && sc && c.counters()["SCORE"] != score) r = fmt("after %c the score is %llu instead of %llu", o, (unsigned long long)c.counters()["SCORE"], (unsigned long long)score);
			for (int i = 0; i < 2 && r.empty(); i++) { fflush(F[i]); for (u32 x : {0x40u, 0x41u, 0x42u, 0x61u, 0x6E2Cu, 0x1F600u}) { fseek(F[i], x, SEEK_SET); int g = fgetc(F[i]); if (g == EOF) g = 0; if (g != m[i][x]) r = fmt("after %c file %c has %d for U+%04X instead of %d", o, "AB"[i], g, x, m[i][x]); } }
			if (r.empty()) { fflush(F[2]); rewind(F[2]); S g; char b[256]; size_t k; while ((k = fread(b, 1, sizeof b, F[2])) > 0) g.append(b, k); fseek(F[2], 0, SEEK_END); if (g != list) r = fmt("after %c the list is %s instead of %s", o, hex(g).c_str(), hex(list).c_str()); }
		} }
	for (int i = 0; i < 3; i++) { fclose(F[i]); unlink((pf + "ABl"[i]).c_str()); } unlink((pf + "E").c_str()); return r;
}
// ---- resets: after a conversion with six counters, a sequence of resets and conversions
static S resets(const S &ops) {
	Conv c("utf-8:count#one:count#Two&for=cjk:width:ascii"); bsdconv_init(c.p); S in = "a\xE6\xB8\xAC\xD0\x91\xFF"; Ctr one; one["ONE"] = 3; one["TWO"] = 1; one["FULL"] = 1; one["HALF"] = 1; one["AMBI"] = 1; one["IERR"] = 1; one["OERR"] = 2; Ctr w; static const char *nm[] = {"one", "TWO", "Full", "IERR", "oerr"};
	for (char o : ops) {
		if (o == 'c') { S out; c.set_input(in); c.p->flush = 1; c.go(out); eval(); for (auto &e : one) w[e.first] += e.second; }
		else if (o == 'i') bsdconv_init(c.p);
		else if (o == 'a') { bsdconv_counter_reset(c.p, NULL); w.clear(); }
		else { bsdconv_counter_reset(c.p, nm[o - '0']); w[sets::upper(nm[o - '0'])] = 0; }
		sh->trans++; if (ctr(w) != ctr(c.counters())) return fmt("after %c: %s instead of %s", o, ctr(c.counters()).c_str(), ctr(w).c_str());
	}
	return "";
}
static void dirs() { TD = g_data; ucd::load(g_data); sets::load(g_data); }
static S replay(const S &d) {
	dirs(); VS w = split(d, ' ');
	if (w[0] == "count") for (auto &p : pipes()) if (conv(p) == w[1]) { Conv c(w[1]); return c.p ? chk(c, p, unshow(w.size() > 2 ? w[2] : "")) : "cannot be created"; }
	if (w[0] == "named") { std::vector<El> p; for (auto &n : split(unhex(w[1]), ',')) p.push_back(p.size() == 1 ? score("latin1", n) : count(n)); p.push_back(count("")); p.push_back(El{"WIDTH", wid}); Conv c(conv(p)); return c.p ? chk(c, p, unshow(w.size() > 2 ? w[2] : "")) : "cannot be created"; }
	if (w[0] == "from" || w[0] == "to") { Pair p(w[1], w[0] == "from"); if (!p.a.p || !p.b.p) return "cannot be created"; return p.from ? errs(p, unhex(w[2]), {}) : errs(p, "", unshow(w[2])); }
	if (w[0] == "weight") { Conv c(w[1]); return wchk(c, w[1], unshow(w[2])); }
	if (w[0] == "trained") { w.erase(w.begin()); return trained(w); }
	if (w[0] == "weights") return weights(strtoul(w[1].c_str(), 0, 16), atoi(w[2].c_str()), atoi(w[3].c_str()));
	if (w[0] == "many") return many(atoi(w[1].c_str()), atol(w[2].c_str()));
	if (w[0] == "fallback") { VS a; if (w[2] != "-") a = split(w[2], '&'); return fallback(atoi(w[1].c_str()), a, w.size() > 3 ? w[3] : ""); }
	if (w[0] == "attach") return attach(atoi(w[1].c_str()), w[2]);
	if (w[0] == "resets") return resets(w[1]);
	return "bad descriptor";
}
static void all() {
	dirs(); auto P = pipes();
	explore("every code point and other data through every counting phase", P.size() * 17, [&](u64 it) {
		auto &p = P[it / 17]; S cv = conv(p); Conv c(cv); VD in; g_describe = [&] { return "count " + cv + " " + show(in); }; if (!c.p) { violation("count " + cv, "cannot be created"); return; }
		auto go = [&](const VD &v) { in = v; sh->states++; S r = chk(c, p, v); if (r.size()) violation(g_describe(), r); return r.empty(); };
		VD batch; for (u32 x = it % 17 * 65536; x < (it % 17 + 1) * 65536; x++) { if (x >= 0xD800 && x < 0xE000) continue; Datum d(uni(x)); // one by one on both sides of every boundary, else sixteen at a time
			bool edge = (x & 63) == 0; S pd = uni(x ? x - 1 : 0); for (auto &e : p) { Ctr a, b; e.add(d.d, a); e.add(pd, b); if (a != b) edge = true; }
			if (edge) { if (!go({d}) || (x && !go({Datum(pd)}))) return; S o = d.d; for (char t : {0, 2, 3, 0x1B, 0x7F}) { o[0] = t; if (!go({Datum(o, t & 1), d})) return; } o = d.d; o.insert(1, 1, 0); if (x && sets::width(d.d) != '?' && !go({Datum(o)})) return; }
			if (sets::width(d.d) == '?') { if (!go({d})) return; } else { batch.push_back(d); if (batch.size() == 16) { if (!go(batch)) return; batch.clear(); } } }
		if (batch.size() && !go(batch)) return; sh->nontrivial++; outcome(it * 7919); if (it % 397 == 0) sample(cv + " " + show(in) + " -> " + ctr(c.counters()));
	});
	VD mix; for (auto x : {"0141", "01E9", "016E2C", "010411", "0100", "01AC00", "01FF21", "01010348", "01020000", "0341", "1B5B", "02016041"}) mix.push_back(Datum(unhex(x)));
	explore("every sequence of mixed data", P.size(), [&](u64 it) {
		auto &p = P[it]; S cv = conv(p); Conv c(cv); VD in; g_describe = [&] { return "count " + cv + " " + show(in); }; u64 N = mix.size(), n = 1;
		for (int l = 0; l <= (thorough ? 4 : 3); l++) { for (u64 i = 0; i < n; i++) { in.clear(); u64 z = i; for (int j = 0; j < l; j++) { in.push_back(mix[z % N]); z /= N; } sh->states++; S r = chk(c, p, in); if (r.size()) { violation(g_describe(), r); return; } } n *= N; }
	});
	static const char *nn[] = {"a", "ab", "abc", "b", "ba", "cou", "counter", "ier", "ierrs", "oerr2", "ful", "fulls", "scor", "score.", "_", "x-y", "A1"}; const int NN = sizeof nn / sizeof *nn;
	explore("names of counters", NN * NN, [&](u64 it) {
		auto nmp = [&](const VS &names) { std::vector<El> p; for (auto &n : names) p.push_back(p.size() == 1 ? score("latin1", n) : count(n)); p.push_back(count("")); p.push_back(El{"WIDTH", wid}); S cv = conv(p); VD in; Conv c(cv); g_describe = [&] { return "named " + hex(join(names, ",")) + " " + show(in); }; if (!c.p) { violation(g_describe(), "cannot be created"); return false; }
			for (int i = 0; i < 2; i++) { in = i ? VD{mix[0], mix[2], mix[1]} : VD{mix[0]}; sh->states++; S r = chk(c, p, in); if (r.size()) { violation(g_describe(), r); return false; } } return true; };
		S a = nn[it / NN], b = nn[it % NN]; if (!nmp({a, b})) return; for (auto c : nn) if (!nmp({a, b, c})) return; for (int l : {7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300}) { S x = S(l, 'n'); if (!nmp({a, x, b}) || !nmp({x, a, x + b}) || !nmp({x + a, x + b, x})) return; } sh->nontrivial++;
	});
	int NF = sizeof froms / sizeof *froms, NT = sizeof tos / sizeof *tos;
	explore("input errors against a fallback", NF * 256, [&](u64 it) {
		S f = froms[it / 256], b; Pair p(f, true); g_describe = [&] { return "from " + f + " " + hex(b); }; if (!p.a.p || !p.b.p) { if (it % 256 == 0) violation("from " + f + " 00", "cannot be created"); return; }
		auto go = [&](const S &x) { b = x; sh->states++; S r = errs(p, x, {}); if (r.size()) violation(g_describe(), r); return r.empty(); };
		S h(1, char(it % 256)); static const u8 cls[] = {0, 0x0E, 0x1B, 0x21, 0x26, 0x30, 0x35, 0x3B, 0x40, 0x41, 0x5B, 0x5C, 0x61, 0x75, 0x7E, 0x80, 0x81, 0x82, 0xA1, 0xA4, 0xB0, 0xC3, 0xD8, 0xDC, 0xE0, 0xED, 0xF0, 0xFE, 0xFF}; const int N = sizeof cls;
		if (!go(h)) return; for (int i = 0; i < 256; i++) { S t = h + char(i); if (!go(t)) return; for (int j = 0; j < N; j++) { if (!go(t + char(cls[j]))) return; } }
		bool in = false; for (u8 c : cls) in |= c == it % 256; if (in) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) { S t = h + char(cls[i]) + char(cls[j]) + char(cls[k]); if (!go(t)) return; if (thorough) for (int l = 0; l < N; l++) if (!go(t + char(cls[l]))) return; }
		sh->nontrivial++; outcome(it * 104729);
	});
	explore("output errors against a fallback", NT * 68, [&](u64 it) {
		S t = tos[it / 68]; Pair p(t, false); VD in; g_describe = [&] { return "to " + t + " " + show(in); }; if (!p.a.p || !p.b.p) { if (it % 68 == 0) violation("to " + t + " 0141", "cannot be created"); return; }
		auto go = [&](const VD &x) { in = x; sh->states++; S r = errs(p, "", x); if (r.size()) violation(g_describe(), r); return r.empty(); };
		Datum a(uni(0x61)), z(uni(0x6E2C)), m(uni(0x304)), y(unhex("03A4")); VD block;
		for (u32 c = it % 68 * 16384; c < (it % 68 + 1) * 16384; c++) { Datum d(uni(c)); if (!go({d})) return; block.push_back(d); if (block.size() == 64) { if (!go(block)) return; block.clear(); } if (c < 0x3400 || (c & 255) == 7) { S o = d.d; o[0] = 3; Datum b3(o); if (!go({a, d, z}) || !go({d, m, d}) || !go({b3, d, y})) return; } }
		sh->nontrivial++; outcome(it * 1299709);
	});
	static const char *bs[] = {"ZH-BONUS", "ZH-BONUS-PHRASE", "ZH-BONUS-PHRASE,ZH-BONUS", "ZH-BONUS,ZH-BONUS-PHRASE"};
	for (auto b : {"ZH-BONUS", "ZH-BONUS-PHRASE"}) bonus(b);
	explore("weights of scoring tables", 4 * 8, [&](u64 it) {
		S cs = bs[it / 8]; Conv c(cs); VD in; g_describe = [&] { return "weight " + cs + " " + show(in); }; auto go = [&](const VD &x) { in = x; sh->states++; S r = wchk(c, cs, x); if (r.size()) violation(g_describe(), r); return r.empty(); };
		Datum A(uni(0x61)); u64 i = 0; for (auto n : {"ZH-BONUS", "ZH-BONUS-PHRASE"}) for (auto &e : bonus(n).w) { if (i++ % 8 != it % 8) continue; VD k = e.first, d = k; if (!go(k)) return; d.insert(d.end(), k.begin(), k.end()); if (!go(d)) return; d = k; d.insert(d.begin(), A); d.push_back(A); if (!go(d)) return; for (size_t l = 1; l < k.size(); l++) { d.assign(k.begin(), k.begin() + l); if (!go(d)) return; d.push_back(A); if (!go(d)) return; d.insert(d.end(), k.begin(), k.end()); if (!go(d)) return; } }
		sh->nontrivial++;
	});
	static const char *tx[] = {"", "61", "61,61", "61,62,6E2C", "6E2C,61,6E2C,6E2C,6E2C", "0,1F600", "10FFFF"};
	explore("trained scores", 7 * 7 * 7, [&](u64 it) { VS w{tx[it % 7], tx[it / 7 % 7], tx[it / 49]}; if (w[0].empty() && w[1].empty()) w = {w[2]}; else if (w[0].empty()) w.erase(w.begin()); g_describe = [&] { return "trained " + join(w, " "); }; sh->states++; S r = trained(w); if (r.size()) violation(g_describe(), r); });
	static const u32 wa[] = {0x1, 0x61, 0x7F, 0xFF, 0x100, 0x6E2C, 0xFFFE, 0x10000, 0x1FFFF, 0x20000, 0x100000, 0x10FF00};
	explore("files of scores", 12 * 4, [&](u64 it) { S d = fmt("weights %X %d %d", wa[it / 4], it % 4 == 3 ? 40 : 256, (int)(it % 4) * 64); g_describe = [&] { return d; }; sh->states++; VS q = split(d, ' '); S r = weights(wa[it / 4], atoi(q[2].c_str()), atoi(q[3].c_str())); if (r.size()) violation(d, r); });
	auto sz = sizes(thorough ? 17000000 : 1100000, 20); std::reverse(sz.begin(), sz.end());
	explore("any number of data", sz.size() * 9, [&](u64 it) { long n = sz[it / 9]; int k = it % 9; if (n > 2000000 && k > 0) return; S d = fmt("many %d %ld", k, n); g_describe = [&] { return d; }; sh->states++; S r = many(k, n); if (r.size()) violation(d, r); });
	std::vector<VS> fa{{}}; for (size_t i = 0; i < fa.size(); i++) if (fa[i].size() < size_t(thorough ? 4 : 3)) for (auto x : anyargs) { VS v = fa[i]; v.push_back(x); if (v.size() == 1 && v[0].empty()) continue; fa.push_back(v); }
	explore("a fallback with every argument", fa.size() * 2, [&](u64 it) { for (int t = 0; t < 31; t++) { S x; int l = 0, b = t + 1; while (b >> (l + 1)) l++; for (int i = 0; i < l; i++) x += b >> i & 1 ? 'b' : 'g'; auto &a = fa[it / 2]; S d = fmt("fallback %d %s %s", (int)(it % 2), a.empty() ? "-" : join(a, "&").c_str(), x.c_str()); g_describe = [&] { return d; }; sh->states++; S r = fallback(it % 2, a, x); if (r.size()) { violation(d, r); return; } } });
	static const char AO[] = "123ABlni"; int AL = thorough ? 6 : 5; u64 AN = 1; for (int i = 0; i < AL; i++) AN *= 8;
	explore("files attached to running conversions", AN / 64 * 5, [&](u64 it) { for (u64 y = 0; y < 64; y++) { u64 x = it / 5 * 64 + y; S o; for (int i = 0; i < AL; i++) { o += AO[x % 8]; x /= 8; } S d = fmt("attach %d ", (int)(it % 5)) + o; g_describe = [&] { return d; }; sh->states++; S r = attach(it % 5, o); if (r.size()) { violation(d, r); return; } } });
	static const char RO[] = "ci01234a"; int RL = thorough ? 6 : 5; u64 RN = 1; for (int i = 0; i < RL; i++) RN *= 8;
	explore("sequences of conversions and resets", RN / 64, [&](u64 it) { for (u64 y = 0; y < 64; y++) { u64 x = it * 64 + y; S o; for (int i = 0; i < RL; i++) { o += RO[x % 8]; x /= 8; } g_describe = [&] { return "resets " + o; }; sh->states++; S r = resets(o); if (r.size()) { violation("resets " + o, r); return; } } });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
