// P06: phases, codec lists and error counting against an ideal interpreter, over pipelines of synthetic codecs with
// overlapping keys: every codec list to a length, every pipeline shape, every input to a length.
#include "synth.hpp"
using ref::Table;
// decoders over bytes a b c; transformations over data p q r = 0161 0162 0163; encoders over the same
static const std::map<S, S> SRC = {
	{"from/FA", "61\t0161\n"}, {"from/FAB", "6162\t0162\n"}, {"from/FAAB", "616162\t0163,0161\n62\t0161\n"}, {"from/FBA", "62\t0162\n6261\t0163\n626163\t0162,0162\n"}, {"from/FABC", "616263\t0163\n61\t0162\n"}, {"from/FC", "63\t\n6363\t0161\n"}, {"from/FSTAR", "61*\t0163\n"},
	{"inter/IP", "0161\t0162\n"}, {"inter/IPQ", "0161,0162\t0163\n"}, {"inter/IPPQ", "0161,0161,0162\t0161,0163\n0161\t0161,0161\n"}, {"inter/IQ", "0162\t0161,0163\n0162,0163\t\n"}, {"inter/IR", "0163,0163\t0162\n0163,0161,0163\t0161\n"},
	{"to/TP", "0161\t78\n"}, {"to/TPQ", "0161,0162\t7979\n"}, {"to/TPPQ", "0161,0161,0162\t7A\n0162\t41\n"}, {"to/TQ", "0162\t\n0162,0163\t42,43\n"}, {"to/TR", "0163\t44\n0163,0163,0161\t4545\n"}, {"to/TRAW", "0161\t61\n0162\t62\n0163\t63\n"},
};
static std::map<S, Table> T_;
static void tables_up() {
	setdir(); static pid_t done = 0; if (done == getpid()) return; done = getpid();
	for (auto &e : SRC) { S r = compile(e.second, g_dir + "/share/bsdconv/" + e.first); if (r.size()) { fprintf(stderr, "%s: %s\n", e.first.c_str(), r.c_str()); exit(3); } T_[e.first].parse(e.second, e.first[0] == 'f'); }
}
// from/FSTAR has a wildcard: listed table matcher handles it through pats
struct Phase { int type; VS codecs; }; // 0 from 1 inter 2 to 3 pass-through: built-in PASS
static VS lists(const VS &c, int n) { VS r; for (int len = 1; len <= n; len++) { u64 t = 1; for (int i = 0; i < len; i++) t *= c.size(); for (u64 k = 0; k < t; k++) { VS w; u64 x = k; bool dup = false; for (int i = 0; i < len; i++) { S s = c[x % c.size()]; if (std::count(w.begin(), w.end(), s)) dup = true; w.push_back(s); x /= c.size(); } if (!dup) r.push_back(join(w, ",")); } } return r; }
// the ideal interpreter of a whole conversion string made of the synthetic codecs (and PASS)
static VD ideal(const S &conv, const VD &in, u64 &ie, u64 &oe) {
	VD cur = in; bool first = true;
	for (auto &part : split(conv, '|')) {
		VS ph = split(part, ':'); bool single = ph.size() == 1;
		for (size_t i = 0; i < ph.size(); i++) {
			S l = ph[i]; if (l == "pass") continue;
			const char *k = single ? "inter/" : i == 0 ? "from/" : i + 1 == ph.size() ? "to/" : "inter/";
			if (k[0] == 'f') { std::vector<ref::TFrom> m; m.reserve(8); std::vector<ref::From *> ms; for (auto &c : split(l, ',')) m.emplace_back(&T_[k + c]); for (auto &x : m) ms.push_back(&x); cur = ref::from(ms, ref::cat(cur), ie); }
			else { std::vector<ref::TData> m; m.reserve(8); std::vector<ref::Data *> ms; for (auto &c : split(l, ',')) m.emplace_back(&T_[k + c]); for (auto &x : m) ms.push_back(&x); cur = k[0] == 't' ? ref::to(ms, cur, oe) : ref::inter(ms, cur); }
		}
		(void)first;
	}
	return cur;
}
static VD bytes_in(const S &s) { return {Datum(s)}; }
static bool starts_from(const S &conv) { S p = split(conv, '|')[0]; return p.find(':') != S::npos && split(p, ':')[0] != "pass"; }
// mode 0 one call, 1 byte by byte / datum by datum, 2 everything then an empty flush
static S one(Conv &c, const VD &in, int mode) {
	u64 ie = 0, oe = 0; bool fb = starts_from(c.conv); VD w = ideal(c.conv, in, ie, oe), g;
	c.reset();
	if (mode == 0) { c.set_list(in); c.p->flush = 1; c.go_list(g); }
	else if (mode == 2) { c.set_list(in); c.go_list(g); c.p->flush = 1; c.go_list(g); }
	else { if (fb) for (char x : in[0].d) { c.set_input(S(1, x)); c.go_list(g); } else for (auto &x : in) { c.set_list({x}); c.go_list(g); } c.p->flush = 1; c.go_list(g); }
	VD gg; for (auto &x : g) if (x.d.size()) gg.push_back(x);
	VD ww; for (auto &x : w) if (x.d.size()) ww.push_back(x);
	eval(); sh->trans += mode == 1 ? in.size() + 1 : 1 + (mode == 2);
	if (gg != ww || *c.ie != ie || *c.oe != oe) return fmt("gives %s IERR %zu OERR %zu, ideal %s IERR %llu OERR %llu", show(gg).c_str(), (size_t)*c.ie, (size_t)*c.oe, show(ww).c_str(), (unsigned long long)ie, (unsigned long long)oe);
	return "";
}
static S desc(const S &conv, const VD &in, int mode) { return conv + fmt(" mode %d ", mode) + show(in); }
// long inputs: a pattern over and over, n bytes or data, in pieces of k
static const char *PAT[] = {"a", "ab", "aab", "abc", "bac", "cca", "aaaaaab", "bbbbbbbbc"}; static const int NPAT = 8;
static VD longin(const S &conv, int pat, long n) { S s; while ((long)s.size() < n) s += PAT[pat]; s.resize(n); if (starts_from(conv)) return bytes_in(s); VD r; for (char c : s) r.push_back(Datum(uni((u8)c))); return r; }
static S longone(Conv &c, int pat, long n, long k, const VD *w0 = nullptr, u64 wi = 0, u64 wo = 0) {
	VD in = longin(c.conv, pat, n), w, g; if (w0) w = *w0; else { w = ideal(c.conv, in, wi, wo); } c.reset(); bool fb = starts_from(c.conv);
	for (long p = 0; p < n; p += k) { if (fb) c.set_input(in[0].d.substr(p, k)); else c.set_list(VD(in.begin() + p, in.begin() + std::min(n, p + k))); c.go_list(g); sh->trans++; } c.p->flush = 1; c.go_list(g); eval();
	auto cl = [](const VD &v) { VD r; for (auto &x : v) if (x.d.size()) r.push_back(x); return r; }; g = cl(g); w = cl(w); size_t d = 0; while (d < g.size() && d < w.size() && g[d] == w[d]) d++;
	if (g != w || *c.ie != wi || *c.oe != wo) return fmt("%zu data instead of %zu, different from %zu on; IERR %zu OERR %zu instead of %llu %llu", g.size(), w.size(), d, (size_t)*c.ie, (size_t)*c.oe, (unsigned long long)wi, (unsigned long long)wo); return "";
}
static S replay(const S &d) { tables_up(); if (size_t q = d.find(" long "); q != S::npos) { int pat; long n, k; sscanf(d.c_str() + q, " long %d %ld %ld", &pat, &n, &k); Conv c(d.substr(0, q)); return c.p ? longone(c, pat, n, k) : "cannot be created"; } size_t p = d.find(" mode "); if (p == S::npos) return "bad descriptor"; Conv c(d.substr(0, p)); if (!c.p) return "cannot be created"; return one(c, unshow(d.substr(p + 8)), atoi(d.c_str() + p + 6)); }
static std::vector<VD> bytes(int L) { std::vector<VD> r; for (int len = 0; len <= L; len++) { u64 n = 1; for (int i = 0; i < len; i++) n *= 3; for (u64 k = 0; k < n; k++) { S s; u64 x = k; for (int i = 0; i < len; i++) { s += char('a' + x % 3); x /= 3; } r.push_back(bytes_in(s)); } } return r; }
static std::vector<VD> data(int L, int kinds) { std::vector<VD> r; const Datum a[] = {Datum(uni('a')), Datum(uni('b')), Datum(uni('c')), Datum(uni('a'), 1), Datum(S("\x02\x61"))}; for (int len = 0; len <= L; len++) { u64 n = 1; for (int i = 0; i < len; i++) n *= kinds; for (u64 k = 0; k < n; k++) { VD s; u64 x = k; for (int i = 0; i < len; i++) { s.push_back(a[x % kinds]); x /= kinds; } r.push_back(s); } } return r; }
static void sweep(const S &name, const VS &convs, const std::vector<VD> &ins) {
	explore(name, convs.size(), [&](u64 it) {
		tables_up(); VD in; int mode = 0; g_describe = [&] { return desc(convs[it], in, mode); };
		Conv c(convs[it]); if (!c.p) { violation(desc(convs[it], in, 0), "cannot be created"); return; }
		for (auto &x : ins) {
			in = x; sh->states++; if (x.size() > 1 || (x.size() && x[0].d.size() > 2)) sh->nontrivial++;
			for (mode = 0; mode < 3; mode++) { S r = one(c, x, mode); if (r.size()) { violation(desc(convs[it], in, mode), r); return; } }
			outcome(fnv(show(in), fnv(c.conv)));
		}
		if (it % 97 == 1) sample(desc(convs[it], in, 0));
	});
}
static void all() {
	tables_up();
	VS F, I, O; for (auto &e : SRC) (e.first[0] == 'f' ? F : e.first[0] == 'i' ? I : O).push_back(e.first.substr(e.first.find('/') + 1));
	{ VS lc; for (auto &x : lists(F, 2)) lc.push_back(x + ":pass"); for (auto &x : I) lc.push_back("pass:" + x + ":pass"); for (auto &x : lists(O, 2)) lc.push_back("pass:" + x); for (auto &x : I) lc.push_back("FA,FBA,FC:" + x + ":TRAW|FAAB,FSTAR:IQ:TP,TR"); auto sz = sizes(thorough ? 300000 : 20000, 40);
	explore("long inputs", lc.size() * NPAT, [&](u64 it) { tables_up(); S cv = lc[it / NPAT]; int pat = it % NPAT; S d = cv; g_describe = [&] { return d; }; Conv c(cv); if (!c.p) { violation(d + " long 0 1 1", "cannot be created"); return; } for (long n : sz) { if (n > 300 && (n + it) % 3) continue; u64 wi = 0, wo = 0; VD w = ideal(cv, longin(cv, pat, n), wi, wo); sh->states++; outcome(fnv(show(w), fnv(cv)) + wi); for (long k : {1L, 255L, 256L, 1000L, 65536L, n}) { if (k < 1 || k > n || (k == 1 && n > 5000)) continue; d = cv + fmt(" long %d %ld %ld", pat, n, k); S r = longone(c, pat, n, k, &w, wi, wo); if (r.size()) { violation(d, r); return; } } } sh->nontrivial++; }); }
	VS f3 = lists(F, 3), i3 = lists(I, 3), o3 = lists(O, 3), i2 = lists(I, 2), f2 = lists(F, 2), o2 = lists(O, 2);
	VS c; for (auto &x : f3) c.push_back(x + ":pass"); sweep("decoder lists", c, bytes(thorough ? 8 : 7));
	sweep("transformation lists", i3, data(thorough ? 6 : 5, 5));
	c.clear(); for (auto &x : o3) c.push_back("pass:" + x); sweep("encoder lists", c, data(thorough ? 7 : 6, 3)); sweep("encoder lists, other data", c, data(thorough ? 5 : 4, 5));
	c.clear(); for (auto &x : i2) for (auto &y : i2) c.push_back("pass:" + x + ":" + y + ":TRAW"); sweep("two transformation phases", c, data(thorough ? 6 : 5, 3));
	c.clear(); for (auto &x : I) for (auto &y : I) for (auto &z : I) c.push_back("pass:" + x + ":" + y + ":" + z + ":TRAW"); sweep("three transformation phases", c, data(thorough ? 6 : 5, 3));
	c.clear(); for (auto &x : f2) for (auto &y : I) for (auto &z : o2) c.push_back(x + ":" + y + ":" + z); sweep("decoder, transformation, encoder", c, bytes(thorough ? 6 : 5));
	c.clear(); for (auto &x : f2) for (auto &z : o2) c.push_back(x + ":" + z + "|FA,FC:TR,TP"); for (auto &x : f2) for (auto &y : f2) c.push_back(x + ":TRAW|" + y + ":pass"); sweep("joined conversions", c, bytes(thorough ? 7 : 6));
	c.clear(); for (auto &x : F) for (auto &y : I) for (auto &z : F) for (auto &w : O) c.push_back(x + ":" + y + ":TRAW|" + z + ":" + w); sweep("joined conversions with transformations", c, bytes(thorough ? 6 : 5));
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
