// P12: conversion strings.  Accept/reject, resolution of aliases, packing, error code and traces against a model of the grammar
// which reads the alias files and the directories of installed modules.
#include "alloc.hpp"
#include "synth.hpp"
#include <cerrno>
#include <sys/mman.h>
static S up(S s) { for (auto &c : s) c = toupper(c); return s; }
enum { TF, TI, TT, TX };
static std::set<S> mod[4], scorers; static std::map<S, S> alias[4];
static void dirs() {
	static const char *t[] = {"from", "inter", "to", "filter"}; g_prefix = getenv("BSDCONV_PATH");
	for (int i = 0; i < 5; i++) { S d = g_prefix + "/share/bsdconv/" + (i < 4 ? t[i] : "scorer"); DIR *p = opendir(d.c_str()); if (!p) { fprintf(stderr, "no modules\n"); exit(3); }
		while (auto *e = readdir(p)) { S n = e->d_name; size_t q = n.find('.'); if (i >= 3) { if (q != S::npos && n.substr(q) == ".so") (i == 3 ? mod[3] : scorers).insert(n.substr(0, q)); } else if (q == S::npos && n != "alias") mod[i].insert(n); } closedir(p);
		if (i > 3) continue; std::ifstream f(g_data + "/" + t[i] + "/alias"); S l; while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; size_t a = l.find('\t'), b = l.find_first_not_of('\t', a); if (a != S::npos && b != S::npos) alias[i][l.substr(0, a)] = l.substr(b); } }
	alias[TI]["UNICODE"] = mod[TI].count("CNS11643-UNICODE") ? "CNS11643-UNICODE" : "PASS";
}
static S locale() { // the character set of the locale: LC_ALL, LC_CTYPE, LANG in this order
	const char *l = nullptr; for (auto n : {"LC_ALL", "LC_CTYPE", "LANG"}) if ((l = getenv(n))) break; if (!l) return "ASCII"; S s = l; size_t p = s.find('.'); if (p != S::npos) s = s.substr(p + 1); return s.empty() || s == "C" || s == "POSIX" ? "ASCII" : s;
}
// ---- the grammar
struct Cd { S name, args; }; struct Ph { int type; std::vector<Cd> c; };
static bool parse(const S &t, std::vector<Ph> &r) {
	for (auto &cv : split(t, '|')) { VS ph = split(cv, ':'); for (size_t i = 0; i < ph.size(); i++) { if (ph[i].empty()) return false; Ph p; p.type = ph.size() == 1 ? TI : i == 0 ? TF : i + 1 == ph.size() ? TT : TI;
		for (auto &c : split(ph[i], ',')) { size_t h = c.find('#'); Cd d{c.substr(0, h), h == S::npos ? "" : c.substr(h + 1)}; if (d.name.empty()) return false; p.c.push_back(d); } r.push_back(p); } }
	return true;
}
static S unparse(const std::vector<Ph> &v) { S r; for (size_t i = 0; i < v.size(); i++) { if (i) r += ":"; for (size_t j = 0; j < v[i].c.size(); j++) r += (j ? "," : "") + v[i].c[j].name + (v[i].c[j].args.size() ? "#" + v[i].c[j].args : ""); } return r; }
// conversions apart, since one which is a single transformation has no type to tell
static S text(const std::vector<std::vector<Ph>> &v) { VS r; for (auto &c : v) r.push_back(unparse(c)); return join(r, "|"); }
static bool parse2(const S &t, std::vector<std::vector<Ph>> &r) { for (auto &c : split(t, '|')) { r.emplace_back(); if (!parse(c, r.back())) return false; } return true; }
static S expand(const S &a, const S &args) { if (args.empty()) return a; VS r; for (auto &x : split(a, ',')) r.push_back(x + (x.find('#') == S::npos ? "#" : "&") + args); return join(r, ","); }
static bool ishex(const S &s) { for (char c : s) if (!isxdigit((u8)c) && c != '.') return false; return true; }
static bool number(const S &s) { size_t i = s.size() && (s[0] == '-' || s[0] == '+'); return i < s.size() && isdigit((u8)s[i]); }
static std::set<S> broken; // "from/NAME": modules which are there and cannot be loaded
static bool falias(), usable(int t, const S &n);
static bool filter(S f) { f = up(f); if (f.empty() || f.find('/') != S::npos) return false; for (int i = 0; i < 5; i++) { if (mod[TX].count(f)) return !broken.count("filter/" + f); auto it = alias[TX].find(f); if (it == alias[TX].end() || !falias()) return false; f = up(it->second); } return false; }
static bool argsok(int type, const S &name, const S &args) { // codecs whose arguments are checked
	S n = up(name); VS kv; if (args.size()) kv = split(args, '&'); S forv; bool hasfor = false, haswidth = false;
	static const char *t[] = {"from/", "inter/", "to/"}; S id = t[type] + n;
	for (auto &a : kv) { size_t e = a.find('='); bool val = e != S::npos; S k = up(a.substr(0, e)), v = val ? a.substr(e + 1) : "";
		if (id == "from/PASS" || id == "inter/PASS" || id == "to/PASS") { if (k == "FOR") { forv = v; hasfor = val; } else if (k == "UNMARK" && type == TF) ; else if (k == "MARK" && type == TT) ; else if (k == "LIMIT" && type == TI && number(v)) ; else return false; }
		else if (id == "from/ANY" || id == "to/ANY") { if (k == "ERROR" || k == "DROP") ; else if (!ishex(a.substr(0, e))) return false; }
		else if (id == "inter/INSERT") { if (k != "AFTER" && k != "BEFORE") return false; if (!ishex(v)) return false; }
		else if (id == "inter/REPLACE") { if (k.empty() || !ishex(k) || !ishex(v)) return false; }
		else if (id == "inter/COUNT") { if (k == "FOR") { forv = v; hasfor = val; } }
		else if (id == "inter/STRINGS") { if (k == "FOR") { forv = v; hasfor = true; } else if (k == "AFTER" || k == "BEFORE") { if (!ishex(v)) return false; } else if (k == "MIN-LEN") { if (!number(v)) return false; } else return false; }
		else if (id == "inter/TRIM-WIDTH") { if (k == "AMBI-AS-WIDE" || k == "AMBIGUOUS-AS-WIDE") ; else if (number(k)) haswidth = true; else return false; }
		else if (id == "inter/SCORE") { if (k == "WITH") { if ((!scorers.count(up(v)) || broken.count("scorer/" + up(v))) && up(v) != "TRAINED") return false; } else if (k == "AS") { if (!val) return false; } else return false; }
		else if (id == "to/ESCAPE") { if (k == "PREFIX" || k == "SUFFIX") { if (!val || !ishex(v) || v.find('.') != S::npos) return false; } else if (k == "MODE") { S m = up(v); if (m != "HEX" && m != "16" && m != "DEC" && m != "10" && m != "OCT" && m != "8") return false; } else if (k == "FOR") { S m = up(v); if (m != "UNICODE" && m != "1" && m != "01" && m != "BYTE" && m != "3" && m != "03") return false; } else return false; }
	}
	{ auto env = [](const char *e) -> S { const char *v = getenv(e); return v ? S(v) + "\n" : ""; }; auto can = [](const S &f) { struct stat b; if (f.empty()) return false; if (!stat(f.c_str(), &b)) return !S_ISDIR(b.st_mode); size_t q = f.rfind('/'); return q != S::npos && q + 1 < f.size() && !stat(f.substr(0, q).c_str(), &b) && S_ISDIR(b.st_mode); }; // codecs which need a file
	if (id == "from/BSDCONV-LOG" || id == "to/BSDCONV-LOG") { S f = env(type == TF ? "BSDCONV_FROM_LOG" : "BSDCONV_TO_LOG"); if (f.empty() || !can(f.substr(0, f.size() - 1))) return false; }
	S f = env("BSDCONV_SCORE"), h = env("HOME"); bool none = f.empty() && (h.empty() || h.size() - 1 + 15 > 255); if (f.empty() && !none) f = h.substr(0, h.size() - 1) + "/.bsdconv.score\n";
	if (id == "inter/SCORE-TRAIN" && (none || !can(f.substr(0, f.size() - 1)))) return false;
	if (id == "inter/SCORE" && none) { S w; for (auto &a : kv) if (size_t e = a.find('='); e != S::npos && up(a.substr(0, e)) == "WITH") w = up(a.substr(e + 1)); if (w == "TRAINED") return false; } }
	if (type == TI && (n == "ALIAS-FROM" || n == "ALIAS-INTER" || n == "ALIAS-TO") && !(usable(TF, "ASCII") && usable(TT, "PASS"))) return false;
	if (hasfor && !filter(forv)) return false; if ((id == "inter/TRIM-WIDTH" && !haswidth) || (id == "inter/REPLACE" && kv.empty())) return false;
	return true;
}
static const char *kinds[] = {"from", "inter", "to", "filter"};
bool usable(int t, const S &n) { return mod[t].count(n) && !broken.count(S(kinds[t]) + "/" + n); }
static bool canalias(int t) { static const char *a[] = {"ALIAS-FROM", "ALIAS-INTER", "ALIAS-TO", "ALIAS-FILTER"}; return usable(TF, "ASCII") && usable(TT, "ASCII") && usable(TI, "COUNT") && usable(TI, a[t]) && (t == TX || usable(TT, "PASS")); }
static bool falias() { return canalias(TX); }
static bool vital(int t, const S &n) { return t == TI ? n == "ALIAS-FROM" || n == "ALIAS-INTER" || n == "ALIAS-TO" || n == "COUNT" : n == "ASCII" || (t == TT && n == "PASS"); }
// what a string must give: 0 and the packed string, or the error
static int model(const S &in, S &packed) {
	S t; for (char c : in) if (c != '\r' && c != '\n' && c != '\t' && c != '\f' && c != ' ') t += c;
	for (int round = 0; round < 400; round++) {
		std::vector<std::vector<Ph>> v; if (!parse2(t, v)) return EINVAL; bool all = true;
		for (auto &cv : v) { for (auto &p : cv) { for (auto &c : p.c) { S n = up(c.name); if (mod[p.type].count(n)) continue;
			if (vital(p.type, n)) return EDOOFUS; if (!canalias(p.type)) return EOPNOTSUPP; auto it = alias[p.type].find(n); S e = it != alias[p.type].end() ? it->second : n == "LOCALE" && p.type != TI ? locale() : ""; if (e.empty()) return EOPNOTSUPP; c.name = expand(e, c.args); c.args = ""; all = false; break; } if (!all) break; } if (!all) break; }
		if (!all) { t = text(v); continue; }
		for (auto &cv : v) for (auto &p : cv) for (auto &c : p.c) if (broken.count(S(kinds[p.type]) + "/" + up(c.name))) return -1;
		for (auto &cv : v) for (auto &p : cv) for (auto &c : p.c) if (!argsok(p.type, c.name, c.args)) return -1;
		packed = text(v); return 0;
	}
	return EOPNOTSUPP;
}
static S canon(const S &t) { S r; bool arg = false; for (char c : t) { if (c == '#') arg = true; else if (c == ',' || c == ':' || c == '|') arg = false; r += arg ? c : char(toupper(c)); } return r; }
static int lowfd() { int f = dup(0); if (f >= 0) close(f); return f; }
static S pack(bsdconv_instance *p) { char *s = bsdconv_pack(p); S r = s; free(s); return r; }
static S probe(bsdconv_instance *p) { S r; for (auto x : {"a\xC3\xA9\xE6\xB8\xAC\xA4\x40\x1B[m\xFF%u6E2C&amp;Z", "0141"}) { bsdconv_init(p); bsdconv_counter_reset(p, NULL); p->input.data = strdup(x); p->input.len = strlen(x); p->input.flags = F_FREE; p->input.next = NULL; p->flush = 1; p->output_mode = BSDCONV_AUTOMALLOC; p->output.len = 0; bsdconv(p); r += hex(S((char *)p->output.data, p->output.len)) + " "; free(p->output.data); for (auto *e = p->counter; e; e = e->next) if (e->val) r += fmt("%s=%zu ", e->key, e->val); } return r; }
static S errtext(int e) { return e == EINVAL ? "Conversion syntax error" : e == EDOOFUS ? "Unexpected condition" : e == EOPNOTSUPP ? "Unsupported charset/encoding or filter" : ""; }
// a name made of several aliases: which error it gives is not specified
static bool concat(const S &t) { VS parts; S c; for (char x : t) { if (isspace((u8)x) && x != '\v') continue; if (x == ',' || x == ':' || x == '|') { parts.push_back(c); c = ""; } else c += x; } parts.push_back(c);
	for (auto &p : parts) { S n = up(p.substr(0, p.find('#'))); for (int ty = 0; ty < 3; ty++) { std::set<size_t> at{0}; int steps = 0; while (at.size() && steps < 6) { std::set<size_t> nx; for (size_t q : at) { for (auto &a : alias[ty]) if (n.compare(q, a.first.size(), a.first) == 0) nx.insert(q + a.first.size()); if (n.compare(q, 6, "LOCALE") == 0) nx.insert(q + 6); } steps++; if (steps > 1 && nx.count(n.size())) return true; at = nx; } } }
	return false; }
static S chk0(const S &cv, bool run);
// the library writes nothing anywhere by itself: both streams are caught while it runs
static S chk1(const S &cv, bool run) {
	static int cap = -1, old[2]; static pid_t pid = 0; if (pid != getpid()) { pid = getpid(); cap = memfd_create("out", 0); old[0] = dup(1); old[1] = dup(2); }
	fflush(stdout); dup2(cap, 1); dup2(cap, 2); S r = chk0(cv, run); fflush(stdout); fflush(stderr); off_t n = lseek(cap, 0, SEEK_END); dup2(old[0], 1); dup2(old[1], 2);
	if (n > 0) { char b[60] = ""; pread(cap, b, 59, 0); ftruncate(cap, 0); lseek(cap, 0, SEEK_SET); if (r.empty()) r = S("prints ") + b; }
	return r;
}
static S chk0(const S &cv, bool run) {
	S want, r; int e = model(cv, want); long live = alloc::live; int fd = lowfd(); S got, again, p1, p2; S err; {
	errno = 0; bsdconv_instance *p = bsdconv_create(cv.c_str()); int en = errno; eval(); sh->trans++;
	if (!p && e == 0) return "is rejected (" + fmt("%d", en) + ") instead of meaning " + want;
	if (p && e) { S g = pack(p); bsdconv_destroy(p); return "is accepted as " + g; }
	if (!p) { char *m = bsdconv_error(); err = m; free(m); if (en == 0) r = "no error code"; else if (e > 0 && (en != e || err != errtext(e)) && !(e == EOPNOTSUPP && en == EINVAL && concat(cv))) r = fmt("error %d (%s) instead of %d (%s)", en, err.c_str(), e, errtext(e).c_str()); else if (err.empty()) r = "no error text"; }
	else {
		got = pack(p); if (canon(got) != canon(want)) r = "packs to " + got + " instead of " + want;
		else { bsdconv_instance *q = bsdconv_create(got.c_str()); if (!q) r = "its packed form " + got + " is rejected"; else { again = pack(q); if (again != got) r = "its packed form " + got + " packs to " + again; else if (run) { p1 = probe(p); p2 = probe(q); if (p1 != p2) r = "its packed form " + got + " converts differently: " + p1 + "; " + p2; } bsdconv_destroy(q); } }
		bsdconv_destroy(p); } }
	size_t heap = 0; for (S *x : {&got, &again, &p1, &p2, &want, &err, &r}) heap += x->capacity() > 15; long d = alloc::live - live; (void)heap;
	{ S().swap(got); S().swap(again); S().swap(p1); S().swap(p2); S().swap(err); }
	if (r.empty()) { S().swap(r); size_t w = want.capacity() > 15; d = alloc::live - live; (void)w; if (d) return fmt("leaves %ld blocks behind", d); if (lowfd() != fd) return "leaves a descriptor open"; }
	return r;
}
// where the codecs which need files find none: a variable each for the scores, the home, the logs
static const char *FV[] = {"BSDCONV_SCORE", "HOME", "BSDCONV_TO_LOG", "BSDCONV_FROM_LOG"};
static S place(int k) { S b = g_tmp + "/f" + std::to_string(getpid()); mkdir(b.c_str(), 0777); switch (k) { case 0: return ""; case 1: { S f = b + "/there"; FILE *x = fopen(f.c_str(), "a"); if (x) fclose(x); return f; } case 2: unlink((b + "/new").c_str()); return b + "/new"; case 3: return b; case 4: return b + "/none/file"; case 5: return "\n";
	default: { S d = b + "/"; d += S(k - d.size(), 'd'); mkdir(d.c_str(), 0777); unlink((d + "/.bsdconv.score").c_str()); return d; } } } // 200 and more: a directory of that length
static void files(const VS &w) { for (int i = 0; i < 4; i++) { S v = place(atoi(w[i + 1].c_str())); if (v.empty()) unsetenv(FV[i]); else setenv(FV[i], v == "\n" ? "" : v.c_str(), 1); } }
static S vis(const S &s) { return hex(s) + " " + jesc(s); }
static S g_miss;
// the first use of a library leaves traces of its own
static S chk(const S &cv, bool run) { static S c; static bool rn; c = cv; rn = run; g_describe = [] { return g_miss[0] == '!' ? g_miss.substr(1) : g_miss.size() ? g_miss + hex(c) : (rn ? "run " : "str ") + vis(c); }; S r = chk1(cv, run); return r.compare(0, 7, "leaves ") == 0 ? chk1(cv, run) : r; }
// ---- installations which lack modules or hold ones that cannot be loaded
static const char *REM[] = {"from/ASCII", "to/ASCII", "inter/COUNT", "inter/ALIAS-FROM", "inter/ALIAS-INTER", "inter/ALIAS-TO", "inter/ALIAS-FILTER", "from/_UTF-8", "to/_UTF-8", "inter/PASS", "to/PASS"};
static const char *BRK[] = {"from/ASCII", "to/ASCII", "inter/COUNT", "inter/ALIAS-FROM", "inter/ALIAS-FILTER", "from/_UTF-8", "to/_UTF-8", "inter/PASS", "to/PASS", "filter/CJK", "scorer/CJK"};
static const int NREM = 11, NBRK = 11, NWAY = 4;
static VS miss_strings() { return {"ascii:ascii", "utf-8:ascii", "ascii:utf-8", "big5:big5", "upper", "unicode", "pass:upper,pass:pass", "pass:pass#for=cjk:pass", "pass:pass#for=han:pass", "pass:count#for=ascii:pass", "count", "alias-from", "alias-to:alias-inter,count",
	"nosuch:pass", "pass:nosuch", "pass:nosuch:pass", "pass:pass|utf-8:pass", "_utf-8:_utf-8|big5:3f", "byte:byte", "locale:pass", "utf-8,ascii:big5,ascii", "ascii:alias-filter,count#err:ascii", "nosuch:ascii", "ascii:nosuch", "utf-8:nfc:big5", "pass:strings#for=latin:pass", "any#013f:any#3f", "", "pass::pass", "pass:count#for=cjk:pass", "pass:score#with=cjk:pass", "pass#for=cjk:pass", "pass:pass#for=cjk", "pass:strings#for=cjk:pass", "pass:strings#for=latin,count#for=cjk,insert#after=0141:pass"}; }
// which: bits of REM, or 100000 * (way + 1) + index of BRK (way: 0 empty table, 1 directory instead of a table, 2 junk instead of the code, 3 dangling link)
static bool arrange(int which) {
	setdir(); S b = g_dir + "/share/bsdconv/"; auto orig = [&](const S &n) { return g_prefix + "/share/bsdconv/" + n; };
	static std::set<S> full[4], fs; if (full[0].empty()) fs = scorers; scorers = fs; if (full[0].empty()) for (int i = 0; i < 4; i++) full[i] = mod[i]; for (int i = 0; i < 4; i++) mod[i] = full[i]; broken.clear();
	auto restore = [&](const S &n) { for (const char *x : {"", ".so"}) { S f = b + n + x; if (unlink(f.c_str())) rmdir(f.c_str()); if (access(orig(n + x).c_str(), F_OK) == 0) symlink(orig(n + x).c_str(), f.c_str()); } };
	for (auto n : REM) restore(n); for (auto n : BRK) restore(n);
	auto drop = [&](const S &n) { scorers.erase(n.substr(0, 7) == "scorer/" ? n.substr(7) : "-"); for (int t = 0; t < 4; t++) { S k = S(kinds[t]) + "/"; if (n.compare(0, k.size(), k) == 0) mod[t].erase(n.substr(k.size())); } };
	if (which < 100000) { for (int i = 0; i < NREM; i++) if (which >> i & 1) { S n = REM[i]; unlink((b + n).c_str()); unlink((b + n + ".so").c_str()); drop(n); } return true; }
	int way = which / 100000 - 1; S n = BRK[which % 100000], f = b + n, so = f + ".so";
	if (n[0] == 'f' && n[1] == 'i' || n[0] == 's') f = so; if (way == 2) { unlink(so.c_str()); FILE *x = fopen(so.c_str(), "w"); fputs("junk", x); fclose(x); broken.insert(n); return true; }
	unlink(f.c_str()); if (way == 0) fclose(fopen(f.c_str(), "w")); else if (way == 1) mkdir(f.c_str(), 0755); else { symlink("/nonexistent/x", f.c_str()); drop(n); return true; }
	broken.insert(n); return true;
}
// ---- strings of any size: n parts of one kind
static const int NMANY = 18;
static S rep(const S &x, int n) { S r; while (n-- > 0) r += x; return r; }
static S many(int kind, int n) {
	static const char *mix[] = {"ascii", "_utf-8#x=y", "pass", "Byte", "skip"}; S m, u; for (int i = 0; i < n; i++) { m += S(i ? "," : "") + mix[i % 5]; u += fmt(":count#N%d", i); }
	switch (kind) {
		case 0: return rep("ascii,", n) + "pass:pass"; case 1: return m + ":pass"; case 2: return "pass" + rep(":upper", n) + ":pass"; case 3: return rep("pass:pass|", n) + "pass:pass"; case 4: return "pass:pass" + rep(",ascii", n); case 5: return "any#" + rep("0141.", n) + "0142:pass"; case 6: return "any#013f" + rep("&ERROR", n) + ":pass";
		case 7: return rep(" ", n) + "pass" + rep("\t", n) + ":" + rep("\n", n) + "pass" + rep("\r", n); case 8: return S(n, 'a') + ":pass"; case 9: return rep("ascii,", n) + "nosuch:pass"; case 10: return "pass" + S(n, ':') + "pass"; case 11: return "pass:count#" + S(n, 'c') + ":pass"; case 12: return "pass#for=" + S(n, 'f') + ":pass";
		case 13: return "pass:replace#0161=0162" + rep("&0141=0142.0143", n) + ":pass"; case 14: return "pass" + u + ":pass"; case 15: return "pass:insert#after=" + rep("014", n) + ":pass"; case 16: return rep("utf-8,", n) + "pass:pass"; default: return rep("pass|", n) + "pass:nosuch";
	}
}
static S replay(const S &d) {
	dirs(); VS w = split(d, ' '); if (w[0] == "many") { chk("ascii:ascii", true); S c = many(atoi(w[1].c_str()), atoi(w[2].c_str())); return chk(c, true); } if (w[0] == "missing") { arrange(atoi(w[1].c_str())); S t = w.size() > 2 ? unhex(w[2]) : ""; chk(t, true); return chk(t, true); } if (w.size() < 2) return "bad descriptor";
	if (w[0] == "files") { files(w); chk(unhex(w[5]), false); files(w); return chk(unhex(w[5]), false); }
	if (w[0] == "locale") { static const char *n[] = {"LC_ALL", "LC_CTYPE", "LANG"}; for (int i = 0; i < 3; i++) if (w[i + 1] == "-") unsetenv(n[i]); else setenv(n[i], w[i + 1].c_str(), 1); chk(unhex(w[4]), true); return chk(unhex(w[4]), true); }
	if (w[0] == "solve") { int t = atoi(w[1].c_str()); char *r = bsdconv_solve_alias(t + 1 + (t == 3), unhex(w[2]).c_str()); S g = r ? r : "(none)"; free(r); auto it = alias[t].find(up(unhex(w[2]))); S x = it == alias[t].end() ? "(none)" : it->second; return g == x ? "" : "stands for " + g + " instead of " + x; }
	chk("ascii:ascii", false); chk(unhex(w[1]), w[0] == "run"); return chk(unhex(w[1]), w[0] == "run");
}
static void all() {
	dirs(); auto one = [](const S &cv, bool run) { sh->states++; S x = chk(cv, run); if (x.size()) violation((run ? "run " : "str ") + vis(cv), x); outcome(fnv(cv)); return x.empty() && !stopping(); };
	// every sequence of tokens
	static const char *tk[] = {"ascii", "pass", "upper", "nosuch", "skip", "split", ",", ":", "|", "#", "&", "=x", " ", "mark"}; int N = 14, D = thorough ? 6 : 5; u64 total = 1; for (int i = 0; i < D; i++) total *= N;
	explore("sequences of tokens", N * N * N, [&](u64 it) {
		chk("ascii:ascii", true); chk("nosuch:skip#x", false); S h = S(tk[it % N]) + tk[it / N % N] + tk[it / N / N]; if (it < (u64)N) { if (!one(tk[it], true)) return; if (it == 0 && !one("", true)) return; } if (it < (u64)N * N && !one(S(tk[it % N]) + tk[it / N], true)) return;
		u64 n = 1; for (int l = 3; l <= D; l++) { for (u64 i = 0; i < n; i++) { S t = h; u64 z = i; for (int j = 3; j < l; j++) { t += tk[z % N]; z /= N; } if (!one(t, l < 5)) return; } n *= N; } if (it % 311 == 9) sample(h);
	});
	// longer ones out of pieces
	static const char *pc[] = {"pass", "ascii,utf-8", "upper", "nfc", "3f", "big5", "PASS#for=cjk", ":", "|", ","}; int P = 10, PD = thorough ? 7 : 6;
	explore("sequences of pieces", P * P * P, [&](u64 it) {
		chk("ascii:ascii", true); chk("nosuch:skip#x", false); S h = S(pc[it % P]) + pc[it / P % P] + pc[it / P / P]; auto sep = [&](const S &s) { return s == ":" || s == "|" || s == ","; };
		u64 n = 1; for (int l = 3; l <= PD; l++) { for (u64 i = 0; i < n; i++) { VS v{pc[it % P], pc[it / P % P], pc[it / P / P]}; u64 z = i; for (int j = 3; j < l; j++) { v.push_back(pc[z % P]); z /= P; } int bad = 0; for (size_t j = 1; j < v.size(); j++) bad += sep(v[j]) == sep(v[j - 1]); if (bad > 1 || (bad && l > 4)) continue; if (!one(join(v, ""), l < 6)) return; } n *= P; }
	});
	// every name
	struct Nm { int t; S n; }; std::vector<Nm> nm; for (int t = 0; t < 3; t++) { std::set<S> s = mod[t]; for (auto &a : alias[t]) s.insert(a.first); for (auto &x : mod[(t + 1) % 3]) s.insert(x); for (auto &n : s) if (n.compare(0, 6, "SCORE-") && n.find("STDOUT") == S::npos && n.find("OUTPUT") == S::npos && n.find("BSDCONV-LOG") == S::npos) nm.push_back({t, n}); }
	setenv("LC_ALL", "zh_TW.Big5", 1);
	explore("every name in every place", nm.size(), [&](u64 it) {
		auto &x = nm[it]; S lo = x.n, mix = x.n; for (auto &c : lo) c = tolower(c); for (size_t i = 0; i < mix.size(); i += 2) mix[i] = tolower(mix[i]);
		auto in = [&](const S &n) { return x.t == TF ? n + ":pass" : x.t == TI ? "pass:" + n + ":pass" : "pass:" + n; }; auto lists = [&](const S &n) { return x.t == TF ? "pass," + n + ",pass:pass" : x.t == TI ? "pass:pass," + n + ":" + n + ",pass:pass" : "pass:" + n + ",pass|pass:" + n; };
		chk("ascii:ascii", true); chk(in(lo), true); chk(lists(mix), true); bool more = x.t == TF || x.t == TT || alias[x.t].count(x.n) || it % 7 == 0;
		for (auto &n : {x.n, lo, mix}) { if (!one(in(n), true) || !one(lists(n), true) || !one(n, false)) return; }
		for (size_t i = 0; i <= lo.size(); i++) { S base = i < 1 || i == lo.size() || more ? lo : ""; if (base.empty()) continue; for (char c : {' ', '\t', '\n', '\r', '\f'}) { S n = lo; n.insert(i, 1, c); if (!one(in(n), false)) return; } for (char c : {'\x01', '\v', '.', '/', '\xE9', '\xA0', 'x', '*', '=', '\x7F'}) { S n = lo; n.insert(i, 1, c); if (!one(in(n), false)) return; } if (i < lo.size()) { S n = lo; n.erase(i, 1); if (n.size() && !one(in(n), false)) return; n = lo; n[i] ^= 0x80; if (!one(in(n), false)) return; n = lo; n[i]++; if (n[i] != ':' && n[i] != '#' && !one(in(n), false)) return; } }
		for (auto n : {"./" + x.n, "../" + x.n, "../from/" + x.n, x.n + "/", x.n + ".so", x.n + ".", x.n + x.n, x.n + "," + lo, x.n + lo + "#", x.n + "#", x.n + "# ", " \t" + x.n + "\r\n", S(300, 'a') + x.n, S(5000, 'a'), x.n + S(300, '/')}) if (!one(in(n), false)) return;
		if (alias[x.t].count(x.n)) { for (auto &a : alias[x.t]) if (!one(in(x.n + a.first), false)) return; if (alias[x.t][x.n].find(':') == S::npos) for (auto a : {"#ERROR", "#x=y", "#AFTER=0141", "#MARK", "#UNMARK&FOR=CJK", "#0141=0142", "#PREFIX=25", "#FOR=CJK", "#0141.0142&DROP", "#error=mine&013F"}) if (!one(in(x.n + a), true)) return; }
		sh->nontrivial++; if (it % 97 == 5) sample(in(mix));
	});
	// arguments
	struct Ar { const char *cv; VS a; }; std::vector<Ar> ar = {
		{"any#%:pass", {"013F", "0141.0142", "ERROR", "error=X1", "DROP", "zz", "01G1", "01.x", "", "0a0B"}}, {"pass:any#%", {"3F", "41.4243", "ERROR", "error=X1", "DROP", "zz", "01G1", "", "=41"}}, {"pass#%:pass", {"UNMARK", "unmark=1", "FOR=CJK", "for=1b", "for=nosuch", "x", "MARK", ""}}, {"pass:pass#%", {"MARK", "mark=", "FOR=Latin", "for=02", "FOR=", "FOR=./CJK", "UNMARK", "LIMIT=1", ""}},
		{"pass:pass#%:pass", {"FOR=CJK", "LIMIT=3", "limit=0", "LIMIT=x", "LIMIT", "MARK", "FOR=nosuch", "FOR=CJK\xE9", ""}}, {"pass:count#%:pass", {"x", "y=z", "FOR=cjk", "FOR=nosuch", "FOR=1", "FOR=CJK.so"}}, {"pass:insert#%:pass", {"AFTER=0141", "before=0142.0143", "AFTER=", "BEFORE=0g", "AFTER=zz", "x", ""}}, {"pass:replace#%:pass", {"0141", "0141=0142", "0141.0142=", "0141=0142.0143", "zz", "0141=zz", "=0142", ""}},
		{"pass:strings#%:pass", {"FOR=CJK", "FOR=1", "FOR=nosuch", "FOR", "MIN-LEN=3", "MIN-LEN=x", "MIN-LEN", "AFTER=0141", "BEFORE=0142", "AFTER=zz", "y"}}, {"pass:trim-width#%:pass", {"5", "0", "AMBI-AS-WIDE", "ambiguous-as-wide", "x", ""}}, {"pass:score#%:pass", {"WITH=CJK", "with=latin1", "AS=x", "WITH=nosuch", "AS", "WITH", "x", ""}},
		{"pass:escape#%", {"PREFIX=2575", "SUFFIX=3B", "MODE=hex", "MODE=10", "MODE=oct", "MODE=x", "FOR=UNICODE", "for=byte", "FOR=3", "FOR=cjk", "FOR", "x", "PREFIX", "SUFFIX=q", "PREFIX=zz", "MODE", "prefix="}} };
	setenv("BSDCONV_SCORE", (g_tmp + "/score").c_str(), 1); fclose(fopen((g_tmp + "/score").c_str(), "w"));
	explore("arguments", ar.size() * 20, [&](u64 it) {
		auto &x = ar[it / 20]; u64 n = x.a.size(), f = it % 20; if (f >= n) return; S pre = x.cv; size_t q = pre.find('%'); auto mk = [&](const VS &v) { return pre.substr(0, q) + join(v, "&") + pre.substr(q + 1); };
		auto two = [](const VS &v) { std::set<S> s; for (auto &a : v) { S k = up(a.substr(0, a.find('='))); if ((k == "FOR" || k == "AFTER" || k == "BEFORE" || k == "WITH" || k == "AS" || k == "LIMIT" || k == "MIN-LEN" || k == "PREFIX" || k == "SUFFIX" || k == "MODE") && !s.insert(k).second) return true; } return false; }; // what a repeated argument means is not defined
		for (u64 i = 0; i < n; i++) chk(mk({x.a[i]}), true);
		VS v{x.a[f]}; auto go = [&] { if (two(v)) return true; for (auto &a : v) if (a.empty() && v.size() == 1) { S e = mk(v); return one(e, true); } return one(mk(v), true); };
		if (!go()) return; S rep = mk(v); if (!one(rep + "|" + rep, false) || !one(rep + "|nosuch:pass", false) || !one("pass:pass|" + rep, true) || !one("upper:" + rep, false)) return;
		for (u64 i = 0; i < n; i++) { v = {x.a[f], x.a[i]}; if (!go()) return; for (u64 j = 0; j < n; j++) { v = {x.a[f], x.a[i], x.a[j]}; if (!go()) return; if (thorough) for (u64 k = 0; k < n; k++) { v = {x.a[f], x.a[i], x.a[j], x.a[k]}; if (!go()) return; } } } sh->nontrivial++;
	});
	// aliases one step
	explore("what an alias stands for", 4, [&](u64 t) { std::set<S> s; for (int i = 0; i < 4; i++) { for (auto &a : alias[i]) s.insert(a.first); for (auto &m : mod[i]) s.insert(m); } for (auto &n : s) for (int k = 0; k < 3; k++) { if (n == "UNICODE" && t == 1) continue; S x = n; if (k) for (auto &c : x) c = tolower(c); if (k == 2) x += "\xC3"; S d = fmt("solve %d ", (int)t) + hex(x); g_describe = [&] { return d; }; eval(); sh->states++; char *r = bsdconv_solve_alias((int)t + 1 + (t == 3 ? 0 : 0), x.c_str()); S g = r ? r : "(none)"; free(r); auto it = alias[t].find(up(x)); S w = it == alias[t].end() ? "(none)" : it->second; if (g != w) { violation(d, "stands for " + g + " instead of " + w); return; } } });
	{ VS ms = miss_strings(); setenv("LC_ALL", "zh_TW.Big5", 1);
	explore("missing and broken modules", (1 << NREM) + NWAY * NBRK, [&](u64 it) { int which = it < (1u << NREM) ? int(it) : 100000 * (int(it - (1 << NREM)) / NBRK + 1) + int(it - (1 << NREM)) % NBRK; arrange(which); g_miss = fmt("missing %d ", which);
		for (auto &c : ms) { S dd = fmt("missing %d ", which) + hex(c); chk(c, true); sh->states++; S r = chk(c, true); outcome(fnv(dd)); if (r.size()) { violation(dd, r); return; } } sh->nontrivial++; });
	setenv("BSDCONV_PATH", g_prefix.c_str(), 1); }
	// strings of any size
	{ auto sz = sizes(thorough ? 20000 : 4100, thorough ? 260 : 140); std::vector<std::pair<int, int>> its; for (int k = 0; k < NMANY; k++) for (long n : sz) { bool slow = k == 2 || k == 3 || k == 14 || k == 17 || k == 16 || k == 9 || k == 0 || k == 1 || k == 4; if (slow && n > (k == 16 ? 140 : thorough ? 2100 : 1030)) continue; its.push_back({k, int(n)}); } std::reverse(its.begin(), its.end());
	explore("strings of any size", its.size(), [&](u64 it) { auto [k, n] = its[it]; S c = many(k, n); g_miss = fmt("!many %d %d", k, n); chk("ascii:ascii", true); sh->states++; chk(c, true); S r = chk1(c, true); g_miss = ""; outcome(fnv(c)); if (r.size()) { if (r.size() > 300) r = r.substr(0, 150) + " ... " + r.substr(r.size() - 150); violation(fmt("many %d %d", k, n), r); } }); }
	// codecs which need a file
	{ static const int sp[] = {0, 1, 2, 3, 4, 5}, hp[] = {0, 3, 4, 200, 239, 240, 241, 242, 255}; static const char *cs[] = {"pass:score-train:pass", "pass:score#with=trained:pass", "score-train", "utf-8:score#as=x&with=TRAINED,score#with=CJK:big5", "pass:bsdconv-log", "bsdconv-log:pass", "bsdconv-log,ascii:upper:bsdconv-log,ascii", "pass:bsdconv-log|bsdconv-log:nosuch", "pass:score-train,score-train:bsdconv-log", "pass:score-train:escape#x", "bsdconv-log:score-train:any#zz", "pass:bsdconv-stdout", "pass:bsdconv-output", "bsdconv-log:score-train,score#with=trained:bsdconv-log|bsdconv-log:score#with=cjk:bsdconv-log"};
	explore("codecs which need a file", 6 * 9 * 36, [&](u64 it) { S d = fmt("files %d %d %d %d ", sp[it % 6], hp[it / 6 % 9], sp[it / 54 % 6], sp[it / 324]); VS w = split(d, ' '); for (auto c : cs) { S dd = d + hex(c); g_describe = [&] { return dd; }; files(w); sh->states++; chk(c, false); files(w); S r = chk(c, false); outcome(fnv(dd)); if (r.size()) { violation(dd, r); return; } } sh->nontrivial++; });
	setenv("BSDCONV_SCORE", (g_tmp + "/score").c_str(), 1); }
	// the locale
	static const char *lv[] = {"-", "C", "POSIX", "en_US.UTF-8", "zh_TW.Big5", "x.nosuch", "utf-8", "locale", "ja_JP.SHIFT-JIS"};
	explore("locale", 9 * 9 * 9, [&](u64 it) { static const char *n[] = {"LC_ALL", "LC_CTYPE", "LANG"}; u64 z = it; S d = "locale"; for (int i = 0; i < 3; i++) { S v = lv[z % 9]; z /= 9; d += " " + v; if (v == "-") unsetenv(n[i]); else setenv(n[i], v.c_str(), 1); }
		for (auto c : {"locale:pass", "pass:Locale", "LOCALE,3f:locale,3F", "pass:locale:pass", "ascii,locale#x:pass"}) { S dd = d + " " + hex(c); g_describe = [&] { return dd; }; sh->states++; chk(c, true); S r = chk(c, true); if (r.size()) { violation(dd, r); return; } } });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
