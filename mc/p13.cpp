// P13: editing conversion strings through the API, indices, listings and checks of modules.
#include "alloc.hpp"
#include "synth.hpp"
#include <unordered_set>
#include <array>
#include <fstream>
#include <sstream>
struct Ph { int t; VS c; };
typedef std::vector<Ph> CV;
static bool parse(const S &s, CV &r) {
	r.clear(); for (auto &conv : split(s, '|')) { VS p = split(conv, ':'); for (size_t i = 0; i < p.size(); i++) { Ph x; x.t = p.size() == 1 ? INTER : i == 0 ? FROM : i + 1 == p.size() ? TO : INTER; if (p[i].empty()) return false;
		for (auto &c : split(p[i], ',')) { size_t h = c.find('#'); if (h == 0 || c.empty()) return false; x.c.push_back(h + 1 == c.size() ? c.substr(0, h) : c); } r.push_back(x); } }
	return true;
}
// a FROM phase begins a conversion; the others follow after ':' while one is open
static S spell(const CV &v) { S r; bool open = false; for (size_t i = 0; i < v.size(); i++) { if (i) r += v[i].t == FROM || (v[i].t == INTER && !open) ? "|" : ":"; if (v[i].t != INTER) open = v[i].t == FROM; r += join(v[i].c, ","); } return r; }
enum { IP, RP, IC, RC };
struct Op { int k, t, p, c; S x; };
static S show(const Op &o) { return fmt("%d %d %d %d ", o.k, o.t, o.p, o.c) + hex(o.x); }
static S apply(const S &s, const Op &o, bool &ok) {
	CV v; ok = parse(s, v); if (!ok) return ""; int n = v.size(), p = o.p < 0 ? o.p + n : o.p;
	if (o.k == IP) { if (p > n) p = n; Ph x{o.t, {o.x}}; v.insert(v.begin() + p, x); }
	else if (o.k == RP) { v[p].t = o.t; v[p].c = {o.x}; }
	else { VS &c = v[p].c; int m = c.size(), i = o.c < 0 ? o.c + m : o.c; if (o.k == IC) { if (i > m) i = m; c.insert(c.begin() + i, o.x); } else c[i] = o.x; }
	return spell(v);
}
static char *real(const S &s, const Op &o) { switch (o.k) { case IP: return bsdconv_insert_phase(s.c_str(), o.x.c_str(), o.t, o.p); case RP: return bsdconv_replace_phase(s.c_str(), o.x.c_str(), o.t, o.p); case IC: return bsdconv_insert_codec(s.c_str(), o.x.c_str(), o.p, o.c); } return bsdconv_replace_codec(s.c_str(), o.x.c_str(), o.p, o.c); }
static S chk(const S &s, const Op &o, S *next = nullptr) {
	static const S *cs; static const Op *co; cs = &s; co = &o; g_describe = [] { return "op " + hex(*cs) + " " + show(*co); };
	bool ok; S want = apply(s, o, ok); long live = alloc::live; S copy = s; live = alloc::live; char *r = real(s, o); eval(); sh->trans++;
	if (s != copy) return "changes its argument";
	if (!r) { if (alloc::live != live) return fmt("leaves %ld blocks behind", alloc::live - live); return ok ? "gives nothing instead of " + want : ""; }
	bool same = want == r && ok; long d = alloc::live - live; S got = same ? "" : r; free(r);
	if (!ok) return "takes a malformed string and gives " + got;
	if (!same) return "gives " + got + " instead of " + want; if (d != 1) return fmt("leaves %ld blocks behind", d - 1);
	if (next) *next = want; return "";
}
static std::vector<Op> ops(const S &s, const VS &x, bool neg) {
	CV v; std::vector<Op> r; parse(s, v); int n = v.size();
	for (auto &t : x) { for (int p = neg ? -n : 0; p <= n + (neg ? 2 : 0); p++) for (int ty : {FROM, INTER, TO}) { r.push_back({IP, ty, p, 0, t}); if (p < n) r.push_back({RP, ty, p, 0, t}); }
		for (int p = neg ? -n : 0; p < n; p++) { int m = v[p < 0 ? p + n : p].c.size(); for (int c = neg ? -m : 0; c <= m + (neg ? 2 : 0); c++) { r.push_back({IC, 0, p, c, t}); if (c < m) r.push_back({RC, 0, p, c, t}); } } }
	return r;
}
static const char *bases[] = {"ascii:ascii", "upper", "utf-8,any#013F&ERROR:utf-8", "a#x=y&z:b,c#,d:e", "big5:upper|full|lower:utf-8,3f", "x:y|z:w", "up per:ASCII", "a,b,c:d,e,f", "a:b:c:d:e", "p|q#1&2|r", "a#k=v,b#,c#q:to#z"};
// ---- indices of an instance
static S chkidx(const S &cv) {
	bsdconv_instance *p = bsdconv_create(cv.c_str()); if (!p) return "cannot be created"; char *k = bsdconv_pack(p); S packed = k; free(k); CV v; parse(packed, v); int n = v.size(); S r;
	for (int i = -n; i <= n + 3 && r.empty(); i++) { int w = i < 0 ? i + n : std::min(i, n), g = bsdconv_get_phase_index(p, i); eval(); if (g != w + 1) r = fmt("phase index %d gives %d", i, g); if (w < n) { int m = v[w].c.size(); for (int j = -m; j <= m + 3 && r.empty(); j++) { int ww = j < 0 ? j + m : std::min(j, m), gg = bsdconv_get_codec_index(p, i, j); eval(); if (gg != ww) r = fmt("codec index %d of phase %d gives %d", j, i, gg); } } }
	bsdconv_destroy(p); return r;
}
// ---- listings
static const char *dirs[] = {"from", "inter", "to", "filter", "scorer"};
static const int types[] = {FROM, INTER, TO, 4, SCORER};
static VS listing(int t, bool old = false) { char **l = old ? bsdconv_codecs_list(types[t]) : bsdconv_modules_list(types[t]); VS r; for (char **p = l; *p; p++) { r.push_back(*p); free(*p); } free(l); return r; }
static int nent(const char *d) { int n = 0; DIR *p = opendir(d); if (!p) return -1; while (readdir(p)) n++; closedir(p); return n; }
// k modules, a aliases (a < 0: no alias file; k < 0: no directory), with names of one kind
static S chklist(int t, int k, int a, int kind) {
	S base = g_tmp + fmt("/l%d", (int)getpid()), d = base + "/share/bsdconv/" + dirs[t]; mkdir(base.c_str(), 0755); mkdir((base + "/share").c_str(), 0755); mkdir((base + "/share/bsdconv").c_str(), 0755); VS want, del;
	if (k >= 0) { mkdir(d.c_str(), 0755); bool so = t > 2;
		for (int i = 0; i < k; i++) { S n = kind == 0 ? fmt("M%d", i) : kind == 1 ? fmt("%c%d", "ZAQ9M_-"[i % 7], 99 - i) : S(1 + i * 6, 'A' + i % 26) + fmt("%d", i); want.push_back(n); del.push_back(n + (so ? ".so" : "")); }
		if (k % 2) { for (auto x : {"README", "old.bak", "t.txt"}) { if (so || strchr(x, '.')) del.push_back(x); } }
		for (auto &x : del) { int f = open((d + "/" + x).c_str(), O_CREAT | O_WRONLY, 0644); if (f < 0) return "cannot prepare"; close(f); }
		if (a >= 0) { S x = "# a comment\n"; for (int i = 0; i < a; i++) { S n = kind == 2 ? S(1 + i * 5, 'Q') + fmt("%d", i) : fmt("AL%d", i); x += n + "\tM0" + (i % 3 ? ",M1" : ""); if (i % 5 == 3) { int l = 236 + (a * 7 + k) % 50; while ((int)(x.size() - x.rfind('\n') - 1) < (i % 2 ? l : l * 2)) x += ":M0,M1"[x.size() % 6]; } x += "\n"; if (i % 4 == 1) x += "#off\tM0\n"; if (i % 4 == 2) x += i % 8 == 2 ? "\n" : "a note\n"; if (i % 6 == 5) x += "#" + S(230 + (a + k) % 40, '-') + "\tM0\n"; want.push_back(n); } if (a > 2 && a % 3 == 2) x.pop_back(); std::ofstream(d + "/alias") << x; del.push_back("alias"); } }
	std::sort(want.begin(), want.end()); setenv("BSDCONV_PATH", base.c_str(), 1); S r; int fd = nent("/dev/fd"); VS got = listing(t), again = listing(t, true); long l0 = alloc::live; { char **l = bsdconv_modules_list(types[t]); for (char **p = l; *p; p++) free(*p); free(l); } if (alloc::live != l0) r = fmt("listing leaves %ld blocks behind", alloc::live - l0); eval(3);
	if (got != want || again != want) r = "lists " + join(got != want ? got : again, " ") + " instead of " + join(want, " "); if (nent("/dev/fd") != fd) r = "leaves a descriptor open";
	for (int i = 0; i < 5; i++) if (i != t && listing(i).size()) r = "lists modules of another kind";
	if (k >= 0) { std::set<S> is(del.begin(), del.end()); for (auto &n : want) { bool w = is.count(n + (t > 2 ? ".so" : "")), g = bsdconv_module_check(types[t], n.c_str()), h = bsdconv_codec_check(types[t], n.c_str()); eval(); if (w != g || w != h) r = "check of " + n + fmt(" gives %d", g); } for (auto &n : want) { S q = n; for (auto &c : q) c = tolower(c); if (bsdconv_module_check(types[t], q.c_str()) != (int)is.count(n + (t > 2 ? ".so" : ""))) r = "check of " + q + " differs"; } for (auto n : {"NONE", "M", "", ".", "..", "../M0", "M0x", "old.bak/", "./M0"}) if (bsdconv_module_check(types[t], n)) r = "finds " + S(n); }
	setenv("BSDCONV_PATH", g_prefix.c_str(), 1); for (auto &x : del) unlink((d + "/" + x).c_str()); rmdir(d.c_str()); for (auto x : {"/share/bsdconv", "/share", ""}) rmdir((base + x).c_str()); return r;
}
// the installed ones: listed, checked, resolved and creatable is one thing
static S chkname(int t, const S &n, bool listed) {
	eval(); bool file = bsdconv_module_check(types[t], n.c_str()); char *al = bsdconv_solve_alias(types[t] > 4 ? 9 : types[t], n.c_str()); bool alias = al; S aln = al ? al : ""; free(al); if (t == 4) alias = false;
	S x = t == 0 ? n + ":pass" : t == 2 ? "pass:" + n : t == 1 ? "pass:" + n + ":pass" : t == 3 ? "pass#for=" + n + ":pass" : "pass:score#with=" + n + ":pass";
	bool known; if (n == "FIX" || n == "LOCALE" || (t == 1 && n == "UNICODE")) return ""; if (al && t < 3) { for (auto &ph : split(aln, ':')) for (auto &c : split(ph, ',')) { S m = c.substr(0, c.find('#')); char *a2 = bsdconv_solve_alias(types[t], m.c_str()); bool ok = a2 || bsdconv_module_check(types[t], m.c_str()); free(a2); if (!ok) return ""; } } /* stands for a table which is not installed */ bsdconv_instance *p = bsdconv_create(x.c_str()); known = p || errno == -1 || errno == EINVAL; if (t > 2) known = p; if (p) bsdconv_destroy(p);
	if (t == 4 && n == "TRAINED") return ""; if (known != listed) return n + (listed ? " is listed, but unknown" : " works, but is not listed"); if (listed != (file || alias)) return n + fmt(": listed %d, file %d, alias %d", listed, file, alias); return "";
}
// ---- strings of any size
static const int NBIG = 7;
static S rep(const S &x, int n) { S r; while (n-- > 0) r += x; return r; }
static S bigstr(int kind, int n) { S m; for (int i = 0; i < n; i++) m += fmt("%sc%d", i ? "," : "", i); switch (kind) { case 0: return m + "x:pass"; case 1: return "a,b" + rep(":d,e#f=g", n) + ":h"; case 2: return rep("a:b|", n) + "c:d"; case 3: return "a#" + S(n, 'x') + ":b"; case 4: return "a:b" + rep(",c", n); case 5: return S(n + 1, 'n') + ":b"; default: return "a#k" + rep("&k=v", n) + ",b:" + "c|d"; } }
static S chkbig(int kind, int n, int tl) { S s = bigstr(kind, n), x = tl < 0 ? "u#v" : S(tl + 1, 'y'); CV v; if (!parse(s, v)) return "bad descriptor"; int P = v.size(); std::set<int> at{0, 1, 2, P - 1, P / 2, P / 2 + 1, P - 2, -1, -P, -(P / 2) - 1}; if (P > 40) for (int k : {7, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024}) at.insert(k);
	auto go = [&](const Op &o) { S r = chk(s, o); g_describe = [=] { return fmt("big %d %d %d", kind, n, tl); }; if (r.size() > 200) r = r.substr(0, 90) + " ... " + r.substr(r.size() - 90); return r.empty() ? r : fmt("operation %d %d at %d %d: ", o.k, o.t, o.p, o.c) + r; };
	for (int p : at) { if (p < -P || p > P) continue; for (int t : {FROM, INTER, TO}) { S r = go({IP, t, p, 0, x}); if (r.empty() && p < P) r = go({RP, t, p, 0, x}); if (r.size()) return r; } if (p == P) continue; int m = v[p < 0 ? p + P : p].c.size(); std::set<int> ct{0, 1, m - 1, m / 2, m, -1, -m}; if (m > 40) for (int k : {31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024}) ct.insert(k);
		for (int c : ct) { if (c < -m || c > m) continue; S r = go({IC, 0, p, c, x}); if (r.empty() && c < m) r = go({RC, 0, p, c, x}); if (r.size()) return r; } } return ""; }
// real instances with n codecs in the first list, n transformations or n conversions
static S idxstr(int kind, int n) { return kind == 0 ? rep("ascii,", n) + "ascii:ascii" : kind == 1 ? "ascii" + rep(":upper", n) + ":ascii" : kind == 2 ? rep("ascii:ascii|", n) + "ascii:ascii" : "ascii:ascii" + rep(",ascii", n); }
static S replay(const S &d) {
	VS w = split(d, ' '); g_prefix = getenv("BSDCONV_PATH");
	if (w[0] == "big") return chkbig(atoi(w[1].c_str()), atoi(w[2].c_str()), atoi(w[3].c_str())); if (w[0] == "bigidx") return chkidx(idxstr(atoi(w[1].c_str()), atoi(w[2].c_str())));
	if (w[0] == "op") { Op o{atoi(w[2].c_str()), atoi(w[3].c_str()), atoi(w[4].c_str()), atoi(w[5].c_str()), unhex(w[6])}; return chk(unhex(w[1]), o); }
	if (w[0] == "idx") return chkidx(unhex(w[1]));
	if (w[0] == "list") return chklist(atoi(w[1].c_str()), atoi(w[2].c_str()), atoi(w[3].c_str()), atoi(w[4].c_str()));
	if (w[0] == "name") return chkname(atoi(w[1].c_str()), w[2], atoi(w[3].c_str()));
	return "bad descriptor";
}
static void all() {
	g_prefix = getenv("BSDCONV_PATH"); VS tx = {"full", "utf-8,3f#x=y"}; u64 nb = sizeof bases / sizeof *bases; setenv("BSDCONV_SCORE", (g_tmp + "/score").c_str(), 1); fclose(fopen((g_tmp + "/score").c_str(), "w"));
	// every edit, then every edit of the result, then (again)
	struct It { S s; }; std::vector<S> start; std::vector<u64> of; for (u64 b = 0; b < nb; b++) { u64 n = ops(bases[b], tx, true).size(); for (u64 i = 0; i < n; i++) { start.push_back(bases[b]); of.push_back(i); } }
	explore("edits", start.size(), [&](u64 it) {
		auto first = ops(start[it], tx, true); Op o = first[of[it]]; S a, r = chk(start[it], o, &a); sh->states++; if (r.size()) { violation("op " + hex(start[it]) + " " + show(o), r); return; } outcome(fnv(a));
		std::vector<S> lay{a}; int D = thorough ? 4 : 3; for (int d = 2; d <= D; d++) { std::unordered_set<S> nx; for (auto &s : lay) for (auto &q : ops(s, d == 2 ? tx : VS{tx[it % 2]}, d == 2)) { S b; r = chk(s, q, &b); if (r.size()) { violation("op " + hex(s) + " " + show(q), r); return; } if (b.size() < 60) nx.insert(b); }
			sh->states += nx.size(); for (auto &x : nx) outcome(fnv(x)); lay.assign(nx.begin(), nx.end()); std::sort(lay.begin(), lay.end()); if (d == 3 && lay.size() > 400) { if (D == 3) break; std::vector<S> l; for (size_t i = it % 16; i < lay.size(); i += 16) l.push_back(lay[i]); lay = l; } if (stopping()) return; }
		sh->nontrivial++; if (it % 501 == 7) sample(show(o) + " on " + start[it]);
	});
	{ auto sz = sizes(thorough ? 20000 : 4100, thorough ? 260 : 34); std::vector<std::array<int, 3>> its; for (int k = 0; k < NBIG; k++) for (long n : sz) { if (k != 3 && k != 5 && k != 6 && n > 1030 && !thorough) continue; its.push_back({k, int(n), -1}); } for (long n : sz) its.push_back({0, 3, int(n)}); std::reverse(its.begin(), its.end());
	explore("strings of any size", its.size(), [&](u64 it) { auto a = its[it]; S d = fmt("big %d %d %d", a[0], a[1], a[2]); g_describe = [&] { return d; }; sh->states++; S r = chkbig(a[0], a[1], a[2]); outcome(fnv(d)); if (r.size()) violation(d, r); });
	auto sx = sizes(thorough ? 1030 : 260, 34); explore("indices of many", sx.size() * 4, [&](u64 it) { int n = sx[it / 4]; S d = fmt("bigidx %d %d", int(it % 4), n); g_describe = [&] { return d; }; sh->states++; S r = chkidx(idxstr(it % 4, n)); if (r.size()) violation(d, r); }); }
	// every string of tokens, malformed ones among them
	static const char *tk[] = {"a", "b#x", "#", ",", ":", "|", "c=d", "&"}; int N = 8, L = thorough ? 7 : 6;
	explore("malformed strings", N * N, [&](u64 it) {
		u64 n = 1; for (int l = 0; l <= L - 2; l++) { for (u64 i = 0; i < n; i++) { S s = S(tk[it % N]) + tk[it / N]; u64 z = i; for (int j = 0; j < l; j++) { s += tk[z % N]; z /= N; } sh->states++; for (Op o : {Op{IP, INTER, 0, 0, "u"}, Op{IP, FROM, 9, 0, "v"}, Op{RP, TO, 0, 0, "u"}, Op{RP, INTER, -1, 0, "v#w"}, Op{IC, 0, 0, 0, "u"}, Op{IC, 0, -1, -1, "v#1"}, Op{RC, 0, 0, 0, "u"}, Op{RC, 0, -1, -1, "v"}}) { S r = chk(s, o); if (r.size()) { violation("op " + hex(s) + " " + show(o), r); return; } } } n *= N; if (stopping()) return; } });
	// indices
	VS cvs = {"ascii:ascii", "upper", "utf-8,3f:upper:lower,full:utf-8,3f,ascii", "lower|utf-8:nfc:utf-8", "ascii:ascii|upper|ascii:full:ascii"}; VS fs = {"ascii", "utf-8,3f", "big5", "gb18030"}, is = {"", ":upper", ":nfkd:full,half", ":zhtw", ":pass:pass,pass,pass"}, ts = {"ascii", "utf-8,escape#prefix=25"}; for (auto &f : fs) for (auto &i : is) for (auto &t : ts) { cvs.push_back(f + i + ":" + t); for (auto &f2 : fs) cvs.push_back(f + i + ":" + t + "|" + f2 + ":" + t); }
	explore("indices", cvs.size(), [&](u64 it) { g_describe = [&] { return "idx " + hex(cvs[it]); }; sh->states++; S r = chkidx(cvs[it]); if (r.size()) violation("idx " + hex(cvs[it]), r); });
	// listings of directories with every number of modules and aliases
	int M = thorough ? 60 : 36; explore("listings", 5 * M * 3, [&](u64 it) { int t = it % 5, kind = it / 5 % 3, k = (int)(it / 15) - 1; for (int a = -1; a < (t > 2 ? 0 : M); a++) { if (k < 0 && a >= 0) break; S d = fmt("list %d %d %d %d", t, k, a, kind); g_describe = [&] { return d; }; sh->states++; S r = chklist(t, k, a, kind); if (r.size()) { violation(d, r); return; } } sh->nontrivial++; });
	std::set<S> names; std::set<S> have[5]; for (int t = 0; t < 5; t++) for (auto &n : listing(t)) { have[t].insert(n); names.insert(n); } VS nm(names.begin(), names.end());
	explore("installed modules", nm.size(), [&](u64 it) { for (int t = 0; t < 5; t++) { S d = fmt("name %d ", t) + nm[it] + fmt(" %d", (int)have[t].count(nm[it])); g_describe = [&] { return d; }; sh->states++; S r = chkname(t, nm[it], have[t].count(nm[it])); if (r.size()) violation(d, r); } });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
