// P05: the table compiler and the engine's longest match, against an independent matcher that reads the source text.
// Part 1: every ordered table up to a size over small key alphabets, compiled by the tree's own bsdconv-mktable and
// loaded as a codec; every input up to a length.  Part 2: every key of every table source of the tree.
#include "synth.hpp"
// ---- the independent matcher: all entries in order; longest; then the most symbols matched exactly; then listed first
struct Ent { std::vector<int> sym; bool ci; VD val; };
static bool parse_line(S l, Ent &e) {
	if (l.empty() || l[0] == '#') return false;
	size_t p = l.find_first_of("\t "); if (p == S::npos) return false;
	S k = l.substr(0, p), v; p = l.find_first_not_of("\t ", p); if (p != S::npos) v = l.substr(p, l.find_first_of("\t\r\n# ", p) - p);
	e.ci = k[0] == '!'; if (e.ci) k = k.substr(1);
	for (size_t i = 0; i < k.size(); i++) { if (k[i] == '*') e.sym.push_back(-1); else if (k[i] == ',') e.sym.push_back(256); else { e.sym.push_back(ref::hv(k[i]) * 16 + ref::hv(k[i + 1])); i++; } }
	if (v.size()) for (auto &x : split(v, ',')) e.val.push_back(Datum(unhex(x)));
	return true;
}
static std::vector<Ent> parse(const S &text) { std::vector<Ent> r; for (auto &l : split(text, '\n')) { Ent e; if (parse_line(l, e)) r.push_back(e); } return r; }
// in: symbols (bytes, 256 after each datum for INTER/TO)
static const Ent *best(const std::vector<Ent> &t, const std::vector<int> &in, size_t pos) {
	const Ent *b = nullptr; size_t bl = 0; int lv = -1;
	for (auto &e : t) {
		size_t n = e.sym.size(); if (pos + n > in.size() || n < bl) continue; int l = 0; bool ok = true;
		for (size_t i = 0; i < n && ok; i++) { int c = in[pos + i]; if (e.sym[i] == -1 || e.sym[i] == c) l++; else if (!(e.ci && c < 128 && e.sym[i] < 128 && isalpha(c) && isalpha(e.sym[i]) && (c ^ 32) == e.sym[i])) ok = false; }
		if (ok && (n > bl || l > lv)) { b = &e; bl = n; lv = l; }
	}
	return b;
}
struct FM : ref::From { const std::vector<Ent> &t; FM(const std::vector<Ent> &x) : t(x) {} size_t at(const S &in, size_t p, VD &o) override { std::vector<int> v; for (u8 c : in) v.push_back(c); auto *e = best(t, v, p); if (!e) return 0; o = e->val; return e->sym.size(); } };
struct DM : ref::Data { // keys of whole data: the bytes of each, 256 between two; a wildcard stands for any of these
	const std::vector<Ent> &t; DM(const std::vector<Ent> &x) : t(x) {}
	size_t at(const VD &in, size_t p, VD &o) override {
		std::vector<int> v; std::vector<size_t> ends; for (size_t i = p; i < in.size(); i++) { if (i > p) v.push_back(256); for (u8 c : in[i].d) v.push_back(c); ends.push_back(v.size()); }
		std::vector<Ent> ok; for (auto &e : t) if (std::count(ends.begin(), ends.end(), e.sym.size())) ok.push_back(e);
		auto *b = best(ok, v, 0); if (!b) return 0; o = b->val; return std::find(ends.begin(), ends.end(), b->sym.size()) - ends.begin() + 1;
	}
};
static std::vector<S> INS; static std::vector<VD> DINS;
static void inputs() {
	if (INS.size()) return;
	int L = 4; const char a[] = {'A', 'B', 'a', 'C'};
	for (int len = 0; len <= L; len++) { u64 n = 1; for (int i = 0; i < len; i++) n *= 4; for (u64 k = 0; k < n; k++) { S s; u64 x = k; for (int i = 0; i < len; i++) { s += a[x & 3]; x >>= 2; } INS.push_back(s); } }
	const char *d[] = {"\x01\x41", "\x01\x42", "\x01\x41\x42", "\x01\x43"};
	for (int len = 0; len <= L; len++) { u64 n = 1; for (int i = 0; i < len; i++) n *= 4; for (u64 k = 0; k < n; k++) { VD s; u64 x = k; for (int i = 0; i < len; i++) { s.push_back(S(d[x & 3])); x >>= 2; } DINS.push_back(s); } }
}
static S esc(const S &t) { S r; for (char c : t) r += c == '\n' ? S("|") : c == '\t' ? S("~") : c == '\r' ? S("^") : S(1, c); return r; }
static S unesc(const S &t) { S r; for (char c : t) r += c == '|' ? '\n' : c == '~' ? '\t' : c == '^' ? '\r' : c; return r; }
// kind: from inter to
static S check(const S &kind, const S &text, bool twice = false) {
	setdir(); inputs(); S out = g_dir + "/share/bsdconv/" + kind + "/TTT", b1, b2;
	S r = compile(text, out, twice ? &b1 : nullptr); if (r.size()) return r;
	if (twice) { r = compile(text, out, &b2); if (r.size()) return r; if (b1 != b2) return "compiling twice gives different files"; }
	Conv c(kind == "from" ? "ttt:pass" : kind == "inter" ? "ttt" : "pass:ttt"); if (!c.p) return "the compiled table cannot be loaded";
	auto t = parse(text);
	if (kind == "from") {
		FM m(t); std::vector<ref::From *> ms = {&m};
		for (auto &in : INS) { u64 e = 0; VD w = ref::from(ms, in, e), g = c.decode(in); eval(); sh->trans++; if (g != w || *c.ie != e) return "input " + hex(in) + fmt(" gives %s errors %zu, the source says %s errors %llu", show(g).c_str(), (size_t)*c.ie, show(w).c_str(), (unsigned long long)e); }
	} else {
		DM m(t); std::vector<ref::Data *> ms = {&m};
		for (auto &in : DINS) { u64 e = 0; VD w = kind == "to" ? ref::to(ms, in, e) : ref::inter(ms, in), g = c.run_list(in); eval(); sh->trans++; if (g != w || *c.oe != e) return "data " + show(in) + fmt(" give %s errors %zu, the source says %s errors %llu", show(g).c_str(), (size_t)*c.oe, show(w).c_str(), (unsigned long long)e); }
	}
	return "";
}
// ---- the tree's own tables
static VS tables() { VS r; for (const char *k : {"from", "inter", "to"}) { VS n; DIR *d = opendir((g_data + "/" + k).c_str()); if (!d) continue; while (auto *e = readdir(d)) { S f = e->d_name; if (f.size() > 4 && f.substr(f.size() - 4) == ".txt") n.push_back(S(k) + "/" + f.substr(0, f.size() - 4)); } closedir(d); std::sort(n.begin(), n.end()); r.insert(r.end(), n.begin(), n.end()); } return r; }
static bool plain_key(const S &k) { if (k.empty()) return false; size_t i = 0; while (i < k.size()) { if (k[i] == ',') { i++; continue; } if (i + 1 >= k.size() || ref::hv(k[i]) < 0 || ref::hv(k[i + 1]) < 0) return false; i += 2; } return true; }
static S checkcb(const S &text);
static S replay(const S &d) {
	size_t p = d.find(' '), q = d.find(' ', p + 1); S kind = d.substr(0, p);
	if (kind == "tree") {
		S name = d.substr(p + 1, q - p - 1), in = d.substr(q + 1); if (!g_data.size()) return "";
		ref::Table t; if (!t.load(g_data + "/" + name + ".txt", name[0] == 'f')) return "no table"; S k = name.substr(0, name.find('/')), n = name.substr(name.find('/') + 1);
		Conv c(k == "from" ? n + ":pass" : k == "inter" ? n : "pass:" + n); if (!c.p) return "cannot be loaded";
		if (k == "from") { ref::TFrom m(&t); std::vector<ref::From *> ms = {&m}; u64 e = 0; VD w = ref::from(ms, unhex(in), e), g = c.decode(unhex(in)); return w == g && e == *c.ie ? "" : "the source says " + show(w) + ", the codec gives " + show(g); }
		ref::TData m(&t); std::vector<ref::Data *> ms = {&m}; u64 e = 0; VD v = unshow(in), w = k == "to" ? ref::to(ms, v, e) : ref::inter(ms, v), g = c.run_list(v); return w == g && e == *c.oe ? "" : "the source says " + show(w) + ", the codec gives " + show(g);
	}
	if (kind == "call") return checkcb(unesc(d.substr(p + 1)));
	return check(kind, unesc(d.substr(p + 1)), true);
}
// ---- entries handed to a callback: a small codec which gives a mark and the entry's own data. It is called as soon as its key is complete.
static S cbso() { // the codec's shared object, once
	static S so; if (so.size()) return so; S d = g_tmp; { std::ofstream f(d + "/cbt.c"); f << "#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include \"" << g_data << "/../src/bsdconv.h\"\nvoid cbconv(struct bsdconv_instance *ins){ struct data_rt *data_ptr; struct bsdconv_phase *p=THIS_PHASE(ins); DATA_MALLOC(ins, p->data_tail->next); p->data_tail=p->data_tail->next; p->data_tail->data=\"\\003C\"; p->data_tail->len=2; p->data_tail->flags=0; p->data_tail->next=NULL; LISTCPY_ST(ins, p->data_tail, p->state.data, THIS_CODEC(ins)->data_z); p->state.status=NEXTPHASE; }\n"; }
	S cmd = "cc -w -shared -fPIC -D_BSDCONV_INTERNAL -DPREFIX='\"/usr/local\"' -DBSDCONV_PATH='\"/usr/local\"' -o " + d + "/cbt.so " + d + "/cbt.c"; if (system(cmd.c_str())) { (fprintf(stderr, "the callback codec does not compile\n"), exit(2), 0); } return so = d + "/cbt.so"; }
struct CM : ref::From { std::vector<Ent> cb, pl; CM(const std::vector<Ent> &t, const std::vector<bool> &is) { for (size_t i = 0; i < t.size(); i++) (is[i] ? cb : pl).push_back(t[i]); }
	size_t at(const S &in, size_t p, VD &o) override { std::vector<int> v; for (u8 c : in) v.push_back(c); size_t got = 0; for (size_t n = 1; p + n <= in.size(); n++) { std::vector<int> w(v.begin(), v.begin() + p + n); auto pick = [&](std::vector<Ent> &t) -> const Ent * { std::vector<Ent> z; static std::vector<Ent> keep; for (auto &e : t) if (e.sym.size() == n) z.push_back(e); keep = z; return best(keep, w, p); }; if (auto *e = pick(cb)) { o = {Datum(S("\x03" "C"))}; o.insert(o.end(), e->val.begin(), e->val.end()); return n; } if (auto *e = pick(pl)) { o = e->val; got = n; } } return got; } };
static S checkcb(const S &text) {
	S so = cbso(); setdir(); inputs(); S out = g_dir + "/share/bsdconv/from/CBT"; symlink(so.c_str(), (out + ".so").c_str()); S r = compile(text, out); if (r.size()) return r;
	std::vector<Ent> t; std::vector<bool> is; for (auto &l : split(text, '\n')) { S m = l; size_t q = m.find('?'); if (q != S::npos) m.erase(q, 1); Ent e; if (parse_line(m, e)) { t.push_back(e); is.push_back(q != S::npos); } }
	Conv c("cbt:pass"); if (!c.p) return "the compiled table cannot be loaded"; CM m(t, is); std::vector<ref::From *> ms = {&m};
	for (auto &in : INS) { u64 e = 0; VD w = ref::from(ms, in, e), g = c.decode(in); eval(); sh->trans++; if (g != w || *c.ie != e) return "input " + hex(in) + fmt(" gives %s errors %zu, the source says %s errors %llu", show(g).c_str(), (size_t)*c.ie, show(w).c_str(), (unsigned long long)e); }
	return "";
}
static void sweep(const S &name, const S &kind, u64 n, std::function<S(u64)> text, u64 batch = 40) {
	explore(name, (n + batch - 1) / batch, [&](u64 it) {
		S t; g_describe = [&] { return kind + " " + esc(t); };
		for (u64 k = it * batch; k < std::min(n, (it + 1) * batch) && !stopping(); k++) {
			t = text(k); if (t.empty()) continue; sh->states++;
			S r = kind == "call" ? checkcb(t) : check(kind, t, k % 16 == 0); outcome(fnv(t)); sh->nontrivial++;
			if (r.size()) { violation(kind + " " + esc(t), r); return; }
			if (k % 40007 == 11) sample(kind + " " + esc(t));
		}
	});
}
static const char *VAL[] = {"0131", "0132,0133", "013435"};
static S tab(const VS &keys, const VS &vals) { S r; for (size_t i = 0; i < keys.size(); i++) r += keys[i] + "\t" + vals[i] + "\n"; return r; }
static VS words(const VS &sym, int lo, int hi, const char *sep = "") { VS r; for (int len = lo; len <= hi; len++) { u64 n = 1; for (int i = 0; i < len; i++) n *= sym.size(); for (u64 k = 0; k < n; k++) { VS w; u64 x = k; for (int i = 0; i < len; i++) { w.push_back(sym[x % sym.size()]); x /= sym.size(); } r.push_back(join(w, sep)); } } return r; }
static void all() {
	setdir();
	VS k3 = words({"41", "42", "*"}, 1, 3), k2 = words({"41", "42", "*"}, 1, 2), e3 = words({"41", "42"}, 1, 3);
	auto few = [](VS &v) { v.erase(std::remove_if(v.begin(), v.end(), [](const S &x) { return std::count(x.begin(), x.end(), '*') > 1; }), v.end()); }; few(k3); few(k2); // one wildcard: each multiplies the states by 257
	auto withci = [](VS v) { VS r = v; for (auto &x : v) if (x.find("41") != S::npos) r.push_back("!" + x); return r; };
	VS c3 = withci(k3), c2 = withci(k2);
	auto tuples = [&](const S &name, const S &kind, VS ks, int n) { u64 tot = 1; for (int i = 0; i < n; i++) tot *= ks.size(); sweep(name, kind, tot, [=](u64 k) { VS a, v; for (int i = 0; i < n; i++) { a.push_back(ks[k % ks.size()]); v.push_back(VAL[i]); k /= ks.size(); } return tab(a, v); }); };
	tuples("one decoder key", "from", c3, 1);
	tuples("two decoder keys", "from", c3, 2);
	tuples("three short decoder keys", "from", c2, 3);
	tuples("three exact decoder keys", "from", e3, 3);
	VS i2 = words({"41", "61", "*"}, 1, 2), ci2 = i2; for (auto &x : i2) if (x[0] != '*' || x.size() > 1) ci2.push_back("!" + x); // either case listed, either case given
	tuples("two keys of either case", "from", ci2, 2);
	{ VS c1; for (auto &x : words({"41", "61", "42"}, 3, 3)) if (x.find("41") != S::npos || x.find("61") != S::npos) { c1.push_back(x); c1.push_back("!" + x); } tuples("two long keys of either case", "from", c1, 2); }
	// callbacks: one, two and three entries with the same or different data, all handed to a callback or some (then not for keys which overlap: which goes first is not specified)
	{ cbso(); auto vals = VS{"?0131", "?0132,0133", "?0135,0133", "?", "0134"}; auto over = [](const S &a, const S &b) { Ent x, y; parse_line(a + "\t", x); parse_line(b + "\t", y); if (x.sym.size() != y.sym.size()) return false; for (size_t i = 0; i < x.sym.size(); i++) if (x.sym[i] != y.sym[i] && x.sym[i] != -1 && y.sym[i] != -1 && (x.sym[i] | 32) != (y.sym[i] | 32)) return false; return true; };
	  auto calls = [&](const S &name, VS ks, int n, VS vals) { u64 tot = 1; for (int i = 0; i < n; i++) tot *= ks.size() * vals.size(); sweep(name, "call", tot, [=](u64 k) { VS a, v; for (int i = 0; i < n; i++) { a.push_back(ks[k % ks.size()]); k /= ks.size(); v.push_back(vals[k % vals.size()]); k /= vals.size(); } bool any = false; for (int i = 0; i < n; i++) { if (v[i][0] == '?') any = true; for (int j = 0; j < i; j++) if ((v[i][0] == '?') != (v[j][0] == '?') && over(a[i], a[j])) return S(); } return any ? tab(a, v) : S(); }); };
	  VS b1 = {"41", "!41", "!61", "61", "42", "*"}, b2 = {"41", "!41", "!61", "61", "42", "*", "4142", "!4142", "!6161", "41*", "*42", "4141", "414242"}; calls("one entry with a callback", b2, 1, vals); calls("two entries with callbacks", b2, 2, vals); calls("three entries with callbacks", b1, 3, vals); calls("callbacks, one key the beginning of another", VS{"41", "!61", "*", "4142", "!6142", "*42"}, 3, thorough ? vals : VS{"?0131", "?0135,0133", "?"}); }
	// long lines: one value of n bytes, n values, a key of n bytes (its input longer than the sweep's, so checked here), and the line after it
	{ std::vector<int> N; for (int n = 1; n <= (thorough ? 1100 : 130); n++) N.push_back(n); for (int n : {200, 253, 254, 255, 256, 257, 300, 338, 339, 340, 341, 342, 400, 500, 505, 506, 507, 508, 509, 510, 511, 512, 513, 600, 1000, 1020, 1024, 1025, 2000, 4096}) N.push_back(n); u64 n3 = N.size();
	  auto rep = [](int n, auto f) { S r; for (int i = 0; i < n; i++) r += f(i); return r; };
	  sweep("long values", "from", n3 * 2, [=](u64 k) { int n = N[k / 2]; S v = k % 2 ? "01" + rep(n, [](int i) { return fmt("%02X", 1 + i % 250); }) : rep(n, [](int i) { return S(i ? "," : "") + (i % 3 ? "0131" : "0132"); }); return "41\t" + v + "\n42\t0133\n"; }, 1);
	  explore("long keys", n3, [&](u64 it) { S t; g_describe = [&] { return "from " + esc(t); }; int n = N[it]; t = rep(n, [](int i) { return fmt("%02X", 65 + i % 3); }) + "\t0131\n43\t0133\n"; sh->states++; sh->nontrivial++; S r = check("from", t); if (r.size()) { violation("from " + esc(t), r); return; }
	    Conv c("ttt:pass"); auto es = parse(t); FM m(es); std::vector<ref::From *> ms = {&m}; S key; for (int x : es[0].sym) key += char(x); VS ins = {key, key.substr(0, n - 1), key + "C", key + key, key.substr(0, n - 1) + "D", "C" + key};
	    for (auto &in : ins) { u64 e = 0; VD w = ref::from(ms, in, e), g = c.decode(in); eval(); sh->trans++; if (g != w || *c.ie != e) { violation("from " + esc(t), "its own key " + hex(in).substr(0, 60) + "... gives " + show(g).substr(0, 200)); return; } } });
	}
	if (thorough) tuples("three decoder keys", "from", k3, 3);
	VS d3 = words({"0141", "0142", "014142"}, 1, 3, ","), d2 = words({"0141", "0142", "014142"}, 1, 2, ",");
	for (const char *k : {"inter", "to"}) { tuples(S("one ") + k + " key", k, d3, 1); tuples(S("two ") + k + " keys", k, d3, 2); tuples(S("three ") + k + " keys", k, d2, 3); }
	VS w2; for (auto &x : words({"0141", "01*", "0142", "014142", "0141*", "**"}, 1, 2, ",")) if (std::count(x.begin(), x.end(), '*') < (thorough ? 3 : 2)) w2.push_back(x); for (const char *x : {"*", "01*0142", "0141*0142", "014*", "!0141", "!0161,0142", "!014162"}) if (S(x) != "014*") w2.push_back(x);
	for (const char *k : {"inter", "to"}) { tuples(S("two ") + k + " keys with wildcards", k, w2, 2); if (thorough) { VS w1; for (auto &x : w2) if (x.size() < 10) w1.push_back(x); tuples(S("three ") + k + " keys with wildcards", k, w1, 3); } }
	if (thorough) tuples("three long inter keys", "inter", words({"0141", "014142"}, 1, 3, ","), 3);
	// sharing of values
	VS vals = {""}; for (auto &x : words({"41", "42", "4142"}, 1, 3, ",")) vals.push_back(x); if (thorough) for (auto &x : words({"4142", "424142", "42"}, 2, 2, ",")) vals.push_back(x);
	u64 V = vals.size();
	sweep("values of two keys", "from", V * V, [=](u64 k) { return tab({"41", "42"}, {vals[k % V], vals[k / V]}); });
	u64 V2 = thorough ? V : 22; // lists of up to three data over two, then all
	VS vs; vs.push_back(""); for (auto &x : words({"41", "4241"}, 1, 3, ",")) vs.push_back(x); for (auto &x : words({"42"}, 1, 3, ",")) vs.push_back(x); for (auto &x : {"4142", "424241", "4142,41", "42,4142"}) vs.push_back(x);
	if (thorough) vs = vals; u64 n2 = vs.size(); (void)V2;
	sweep("values of three keys", "from", n2 * n2 * n2, [=](u64 k) { return tab({"41", "4142", "43"}, {vs[k % n2], vs[k / n2 % n2], vs[k / n2 / n2]}); });
	// how a line may be written
	VS forms; for (const char *sep : {"\t", " ", "\t\t", " \t", "    "}) for (const char *tail : {"", " ", "\t", "#c", " # c 42", "\t#", " 0142 x"}) for (const char *eol : {"\n", "\r\n"}) for (const char *key : {"4142", "6a", "6A", "!6A", "*6a"}) for (const char *v : {"0131", "01aB", "01Ab,01", "FF,0132"}) forms.push_back(S(key) + sep + v + tail + eol);
	u64 F = forms.size();
	sweep("line forms", "from", F * 5, [=](u64 k) { S l = forms[k % F]; switch (k / F) { case 0: return l; case 1: return "# comment\n" + l + "41\t0133\n"; case 2: return "41\t0133\n" + l; case 3: return "41\t0133\n#x\n" + l + "#y\n"; default: { S x = "43\t0133\n" + l; while (x.size() && (x.back() == '\n' || x.back() == '\r')) x.pop_back(); return x; } } });
	// ---- the tree's tables: each key as it is, each proper prefix, each key followed by another byte or datum
	if (g_data.empty()) return;
	VS ts = tables(); const int CH = 24;
	setenv("BSDCONV_PATH", g_prefix.c_str(), 1);
	explore("the tree's tables", ts.size() * CH, [&](u64 it) {
		S name = ts[it / CH], k = name.substr(0, name.find('/')), n = name.substr(name.find('/') + 1); S in; g_describe = [&] { return "tree " + name + " " + in; };
		ref::Table t; if (!t.load(g_data + "/" + name + ".txt", k == "from")) return;
		if (t.native || t.pats.size() > 64) return; // decided with their code by P04, P07, P08, P19, P20
		Conv c(k == "from" ? n + ":pass" : k == "inter" ? n : "pass:" + n); if (!c.p) return; // not installed by the default build
		if (access((g_prefix + "/share/bsdconv/" + name + ".so").c_str(), F_OK) == 0) return; // a table with code of its own
		sh->nontrivial++; ref::TFrom mf(&t); ref::TData md(&t); std::vector<ref::From *> fs = {&mf}; std::vector<ref::Data *> ds = {&md};
		u64 i = 0;
		for (auto &e : t.exact) {
			if (i++ % CH != it % CH) continue;
			if (stopping()) return;
			if (k == "from") {
				std::vector<S> v; for (size_t l = 1; l <= e.first.size(); l++) v.push_back(e.first.substr(0, l)); v.push_back(e.first + e.first); v.push_back(e.first + S(1, 0)); v.push_back(e.first + "\xFF"); v.push_back(e.first.substr(0, e.first.size() - 1) + "\x01");
				for (auto &s : v) { in = hex(s); u64 er = 0; VD w = ref::from(fs, s, er), g = c.decode(s); eval(); sh->trans++; if (w != g || er != *c.ie) { violation("tree " + name + " " + in, "the source says " + show(w) + ", the codec gives " + show(g)); return; } }
			} else {
				VD key; for (size_t j = 0; j < e.first.size();) { size_t l = (u8)e.first[j]; key.push_back(Datum(e.first.substr(j + 1, l))); j += l + 1; }
				std::vector<VD> v; for (size_t l = 1; l <= key.size(); l++) v.push_back(VD(key.begin(), key.begin() + l)); VD x = key; x.insert(x.end(), key.begin(), key.end()); v.push_back(x); x = key; x.push_back(uni(0x10FFFD)); v.push_back(x);
				x = key; x.back().d += '\x01'; v.push_back(x); if (key.back().d.size() > 2) { x = key; x.back().d.pop_back(); v.push_back(x); }
				for (auto &s : v) { in = show(s); u64 er = 0; VD w = k == "to" ? ref::to(ds, s, er) : ref::inter(ds, s), g = c.run_list(s); eval(); sh->trans++; if (w != g || er != *c.oe) { violation("tree " + name + " " + in, "the source says " + show(w) + ", the codec gives " + show(g)); return; } }
			}
			sh->states++;
		}
	});
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
