// P22: the command line tools against single library calls and the installed files.
#include "convs.hpp"
#include "synth.hpp"
#include <fstream>
#include <sstream>
#include <sys/socket.h>
#include <cerrno>
static S text(size_t n, int k) { static const char *p[] = {"a", "\xC3\xA9", "\xE6\xB8\xAC", "\xF0\xA0\x80\x80", "&amp;", "\xE8\xA9\xA6", "\n"}; S r(k, 'x'); for (size_t i = 0; r.size() < n; i++) r += p[(i * 5 + i / 7) % 7]; r.resize(n); return r; }
struct Out { int code = -1; S out, err; };
static S wdir() { static S d; static pid_t m = 0; if (m != getpid()) { m = getpid(); d = g_tmp + fmt("/k%d", (int)m); mkdir(d.c_str(), 0755); } return d; }
static void put(const S &p, const S &s) { int f = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(f, s.data(), s.size()) != (ssize_t)s.size()) {} close(f); }
static bool g_few; static bool g_rel; // the programs find the modules through a relative path
// in: what stdin gives, cut into packets (one read each); no cuts: a file
static Out cli(const VS &args, const S &in, const std::vector<size_t> *cuts = nullptr, const char *tool = "bsdconv", const char *sink = nullptr) {
	S d = wdir(), exe = g_prefix + "/bin/" + tool; Out r; int fd; eval(); sh->trans++;
	if (!cuts) { put(d + "/.in", in); fd = open((d + "/.in").c_str(), O_RDONLY); } else { int s[2]; socketpair(AF_UNIX, SOCK_SEQPACKET, 0, s); size_t p = 0; for (size_t c : *cuts) { if (send(s[1], in.data() + p, c, MSG_DONTWAIT) < 0) { r.err = "cannot send"; } p += c; } if (p < in.size()) send(s[1], in.data() + p, in.size() - p, MSG_DONTWAIT); close(s[1]); fd = s[0]; }
	S was; if (g_rel) { was = getenv("BSDCONV_PATH"); setdir(); setenv("BSDCONV_PATH", fmt("../w%d", (int)getpid()).c_str(), 1); }
	int o = open(sink ? sink : (d + "/.out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open((d + "/.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); fflush(NULL);
	pid_t p = vfork(); if (p == 0) { dup2(fd, 0); dup2(o, 1); dup2(e, 2); for (int i = 3; i < 64; i++) close(i); { rlimit cl = {15, 20}; setrlimit(RLIMIT_CPU, &cl); } if (g_few) { rlimit m = {24, 24}; setrlimit(RLIMIT_NOFILE, &m); } if (chdir(d.c_str())) _exit(97); std::vector<char *> av; av.push_back((char *)exe.c_str()); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr); execv(exe.c_str(), av.data()); _exit(98); }
	if (g_rel) setenv("BSDCONV_PATH", was.c_str(), 1);
	close(fd); close(o); close(e); int st; double t0 = now(); while (waitpid(p, &st, WNOHANG) == 0) { if (now() - t0 > 60) { kill(p, SIGKILL); waitpid(p, &st, 0); r.code = 1000; break; } usleep(150); } if (r.code < 1000) r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); if (!sink) r.out = slurp(d + "/.out"); r.err += slurp(d + "/.err"); return r;
}
static S q(const S &s) { return s.size() > 120 ? hex(s.substr(0, 50)) + fmt("...(%zu)", s.size()) : hex(s); }
static S lines(S s) { VS v = split(s, '\n'); std::sort(v.begin(), v.end()); return join(v, "\n"); }
static S report(const Res &r) { S s; for (auto &c : r.ctr) if (c.second) s += c.first + fmt(": %zu\n", (size_t)c.second); return s; }
static S cmp(const Out &o, int code, const S &out, const S &err, bool anyerr = false) {
	if (o.code >= 128) return fmt("ends with %d ", o.code) + o.err; if (o.code != code) return fmt("exit status %d instead of %d: ", o.code, code) + o.err; if (o.out != out) { size_t i = 0; while (i < o.out.size() && i < out.size() && o.out[i] == out[i]) i++; return fmt("output differs from byte %zu on: ", i) + q(o.out.substr(i)) + " instead of " + q(out.substr(i)); }
	if (anyerr) return o.err.empty() ? "says nothing" : ""; if (lines(o.err) != lines(err)) return "reports \"" + jesc(o.err) + "\" instead of \"" + jesc(err) + "\""; return "";
}
static const char *convs[] = {"utf-8:utf-16le", "utf-16le:utf-8", "utf-8:utf-8", "big5:utf-8", "utf-8:big5", "utf-8:nfd:utf-8", "gb18030:utf-8", "utf-8,3f:escape", "ascii-named-html-entity,utf-8:ascii,3f", "ibm-937:utf-8", "utf-8:ibm-937", "utf-8:upper:utf-8|utf-8:utf-16be", "utf-8:count#n:win:ascii", "pass:pass", "utf-8,any#013F&ERROR:utf-32be", "ascii:null"};
static const char *inputs[] = {"", "utf-8:utf-16le", "", "utf-8:big5", "", "", "utf-8:gb18030", "", "", "utf-8:ibm-937", "", "", "", "", "", ""};
static S content(int c, size_t n, int k) { S t = text(n + 4, k); if (*inputs[c]) { Conv v(inputs[c]); t = v.run(t).out; while (t.size() < n) t += t + "\x80"; } t.resize(n); if (k == 3 && n > 2) t[n - 2] = '\xFF'; return t; }
static Res lib(const S &conv, const S &in) { static std::map<S, Conv *> m; auto &c = m[conv]; if (!c) c = new Conv(conv); return c->run(in); }
// kinds: one size
static S size1(int c, size_t n, int k, int way) {
	S in = content(c, n, k); Res w = lib(convs[c], in);
	if (way == 0) return cmp(cli({convs[c]}, in), 0, w.out, report(w));
	if (way == 1) { std::vector<size_t> cu; for (size_t p = 0, s = 1; p + s < n; p += s, s = s * 3 % 1021 + 1) { cu.push_back(s); if (cu.size() > 60) break; } return cmp(cli({convs[c]}, in, &cu), 0, w.out, report(w)); }
	if (way == 3) { Out o = cli({convs[c]}, in, nullptr, "bsdconv", "/dev/full"); if (w.out.empty()) return o.code ? "fails on nothing to write" : ""; return o.code == 0 ? "success although nothing could be written" : o.code >= 128 ? "crashes when output fails" : ""; }
	put(wdir() + "/f 1", in); S e = report(w); return cmp(cli({convs[c], "f 1"}, "unused"), 0, w.out, e.size() ? "\nFile: f 1\n" + e : "");
}
static S cut1(int c, size_t n, const std::vector<size_t> &cu) { S in = content(c, n, 1); Res w = lib(convs[c], in); return cmp(cli({convs[c]}, in, &cu), 0, w.out, report(w)); }
// files: g good, e with errors, 0 empty, b big, m missing, d directory; mode: which options
static S files1(int c, const S &f, int mode) {
	VS a{convs[c]}; S d = wdir(); if (mode & 1) a.push_back("-i"); if (mode & 2) a.push_back("-i"); bool inpl = mode; S out, err; int code = 0; std::map<S, S> want; S missing; mkdir((d + "/dir").c_str(), 0755); unlink((d + "/none").c_str());
	for (size_t i = 0; i < f.size(); i++) { S nm = f[i] == 'm' ? "none" : f[i] == 'd' ? "dir" : fmt("%c", f[i]) + (f[i] == 's' ? "" : fmt("%zu", i)); a.push_back(nm); if (f[i] == 'm' || f[i] == 'd') continue; S in = f[i] == '0' ? "" : f[i] == 'g' ? "abc" : f[i] == 'b' ? content(c, 3000, i) : f[i] == 's' ? "same" : "x\xFF\xFEq\x80z"; put(d + "/" + nm, in); want[nm] = in; }
	for (size_t i = 0; i < f.size() && !code; i++) { S nm = a[a.size() - f.size() + i]; if (f[i] == 'm' || f[i] == 'd') { code = 1; break; } Res w = lib(convs[c], want[nm]); if (inpl) want[nm] = w.out; else out += w.out; S e = report(w); if (e.size()) err += "\nFile: " + nm + "\n" + e; }
	Out o = cli(a, "stdin is not read"); S r = cmp(o, code, out, err, code != 0); if (r.empty() && code && o.err.compare(0, err.size(), err) && lines(o.err).find(lines(err)) == S::npos && err.size() && o.err.find("File: ") == S::npos) r = "loses the report of earlier files"; for (auto &x : want) if (r.empty() && slurp(d + "/" + x.first) != x.second) r = "file " + x.first + " holds " + q(slurp(d + "/" + x.first)) + " instead of " + q(x.second);
	for (auto &x : want) unlink((d + "/" + x.first).c_str()); int extra = 0; if (DIR *p = opendir(d.c_str())) { while (auto *e = readdir(p)) if (e->d_name[0] != '.' && S(e->d_name) != "dir" && S(e->d_name) != "f 1") extra++, unlink((d + "/" + e->d_name).c_str()); closedir(p); } if (r.empty() && extra) r = "leaves files behind"; return r;
}
// two or three files with any conversion: each as if it were alone
static S pair1(const S &conv, const VS &ins, int inpl) {
	S d = wdir(), out, err; VS a{conv}; if (inpl) a.push_back("-i"); VS want; for (size_t i = 0; i < ins.size(); i++) { S nm = fmt("p%zu", i); put(d + "/" + nm, ins[i]); a.push_back(nm); Conv c(conv); if (!c.p) return ""; Res w = c.run(ins[i]); want.push_back(inpl ? w.out : ins[i]); if (!inpl) out += w.out; S e = report(w); if (e.size()) err += "\nFile: " + nm + "\n" + e; }
	S r = cmp(cli(a, ""), 0, out, err); for (size_t i = 0; i < ins.size(); i++) { S p = d + fmt("/p%zu", i), g = slurp(p); if (r.empty() && g != want[i]) r = fmt("file %zu holds ", i) + q(g) + " instead of " + q(want[i]); unlink(p.c_str()); } return r;
}
// n files with few descriptors left; files of any name
static S crowd1(int c, int n, int inpl) {
	VS a{convs[c]}, want; if (inpl) a.push_back("-i"); S d = wdir(), out, err; for (int i = 0; i < n; i++) { S nm = fmt("c%d", i), in = content(c, i % 7 == 6 ? 1500 : i % 5, i % 4); if (i % 3 == 1) in += "\xFF"; put(d + "/" + nm, in); a.push_back(nm); Res w = lib(convs[c], in); want.push_back(inpl ? w.out : in); if (!inpl) out += w.out; S e = report(w); if (e.size()) err += "\nFile: " + nm + "\n" + e; }
	g_few = true; S r = cmp(cli(a, ""), 0, out, err); g_few = false; for (int i = 0; i < n; i++) { S p = d + fmt("/c%d", i), g = slurp(p); if (r.empty() && g != want[i]) r = fmt("file %d of %d holds ", i, n) + q(g) + " instead of " + q(want[i]); unlink(p.c_str()); } return r;
}
static S named1(const S &nm, int c, int m) { // m: 1 in place, 2 between two others
	S d = wdir(), out, err; VS a{convs[c]}, nv, want; if (m & 1) a.push_back("-i"); if (m & 2) nv = {"n0", nm, "n1"}; else nv = {nm}; for (size_t p = nm.find('/', 1); p != S::npos; p = nm.find('/', p + 1)) mkdir((d + "/" + nm.substr(0, p)).c_str(), 0755);
	for (size_t i = 0; i < nv.size(); i++) { S in = content(c, 40 + i, i) + "\xFF\xFE!"; put(d + "/" + nv[i], in); a.push_back(nv[i]); Res w = lib(convs[c], in); want.push_back(m & 1 ? w.out : in); if (!(m & 1)) out += w.out; S e = report(w); if (e.size()) err += "\nFile: " + nv[i] + "\n" + e; }
	S r = cmp(cli(a, "not read"), 0, out, err); for (size_t i = 0; i < nv.size(); i++) { S p = d + "/" + nv[i], g = slurp(p); if (r.empty() && g != want[i]) r = fmt("file %zu holds ", i) + q(g) + " instead of " + q(want[i]); unlink(p.c_str()); } for (size_t p = nm.rfind('/'); p != S::npos && p; p = nm.rfind('/', p - 1)) { S dd = d + "/" + nm.substr(0, p); if (dd.back() == '.') continue; int k = 0; if (DIR *x = opendir(dd.c_str())) { while (auto *e = readdir(x)) if (S(e->d_name) != "." && S(e->d_name) != ".." && e->d_type != DT_DIR) { k++; unlink((dd + "/" + e->d_name).c_str()); } closedir(x); } if (k && r.empty()) r = "leaves files behind"; rmdir(dd.c_str()); } return r;
}
// ---- the installed modules
static VS installed(const S &t) { VS r; S d = g_prefix + "/share/bsdconv/" + t; bool so = t == "filter" || t == "scorer"; if (DIR *p = opendir(d.c_str())) { while (auto *e = readdir(p)) { S n = e->d_name; size_t q = n.find('.'); if (so ? q != S::npos && n.substr(q) == ".so" : q == S::npos && n != "alias") r.push_back(n.substr(0, q)); } closedir(p); } std::ifstream f(d + "/alias"); S l; while (std::getline(f, l)) if (l.size() && l[0] != '#') r.push_back(l.substr(0, l.find('\t'))); std::sort(r.begin(), r.end()); return r; }
static S list1(const VS &args) { S w; for (auto t : {"From", "Inter", "To", "Filter", "Scorer"}) { w += S("[") + t + "]\n"; S l = t; l[0] = tolower(l[0]); for (auto &n : installed(l)) w += "\t" + n + "\n"; } return cmp(cli(args, ""), 0, w, ""); }
static S comp1(const S &arg, bool none = false) {
	S a = arg; if (a.size() && (a[0] == '\'' || a[0] == '"')) a = a.substr(1); if (a.size() && (a.back() == '\'' || a.back() == '"')) a.pop_back(); for (auto &c : a) c = toupper(c); size_t p = a.find_last_of(":|,"); S head = p == S::npos ? "" : a.substr(0, p + 1), part = a.substr(head.size()); size_t k = a.find_last_of(":|"); bool to = k != S::npos && a[k] == ':';
	std::set<S> w; for (auto t : {"inter", to ? "to" : "from"}) for (auto &n : installed(t)) if (n.compare(0, part.size(), part) == 0) w.insert(head + n); Out o = cli(none ? VS{} : VS{arg}, "", nullptr, "bsdconv-completion"); VS g = split(o.out, '\n'); if (g.back().empty()) g.pop_back(); if (o.code) return fmt("exit status %d", o.code); std::set<S> gs(g.begin(), g.end()); if (gs.size() != g.size()) return "offers something twice"; if (gs != w) { for (auto &x : gs) if (!w.count(x)) return "offers " + x; for (auto &x : w) if (!gs.count(x)) return "does not offer " + x; } return o.err.size() ? "complains: " + o.err : "";
}
static const char *types[] = {"from", "inter", "to", "filter"};
static void pages() { static pid_t m = 0; if (m == getpid()) return; m = getpid(); setdir(); for (auto t : types) for (auto &n : installed(t)) { S p = slurp(g_data + "/" + t + "/" + n + ".man"); if (p.size()) put(g_dir + "/share/bsdconv/" + t + "/" + n + ".man", p); } }
static S page(S t, S n, int depth = 0) { S T = t; for (auto &c : T) c = toupper(c); for (auto &c : t) c = tolower(c); bool have = false; for (auto &x : installed(t)) have |= x == n; if (!have || depth > 9) return ""; S p = slurp(g_data + "/" + t + "/" + n + ".man"); if (p.compare(0, 10, ".redirect ") == 0) { std::istringstream is(p.substr(10)); S to; is >> to; for (auto &c : to) c = toupper(c); return page(to.substr(0, to.find('/')), to.substr(to.find('/') + 1), depth + 1); } return p.empty() ? "" : T + "/" + n + ":\n" + p; }
static S man1(const S &t, const S &n, bool slash) { S T = t, N = n; for (auto &c : T) c = toupper(c); for (auto &c : N) c = toupper(c); pages(); Out o = slash ? cli({t + "/" + n}, "", nullptr, "bsdconv-man") : cli({t, n}, "", nullptr, "bsdconv-man"); S l = T; for (auto &c : l) c = tolower(c);
	if (l != "from" && l != "inter" && l != "to" && l != "filter") return o.code == 1 && o.out.empty() && o.err.size() ? "" : fmt("unknown type: exit status %d, ", o.code) + o.out; bool have = false, al = false; S to; for (auto &x : installed(l)) have |= x == N; std::ifstream f(g_prefix + "/share/bsdconv/" + l + "/alias"); S ln; while (std::getline(f, ln)) if (ln.compare(0, N.size() + 1, N + "\t") == 0) { al = true; size_t p = ln.find_first_not_of('\t', N.size()); to = ln.substr(p); }
	if (N == "UNICODE" && l == "inter") return ""; S pg = page(l, N); S w = pg.size() ? pg : al ? T + "/" + N + ":\nAlias to " + to + "\n" : have ? "No man page for such codec\n" : "No such codec\n"; return cmp(o, 0, w, ""); }
static S bad1(const S &conv, int mode) { VS a{conv}; if (mode & 2) a.push_back("-i"); S d = wdir(); if (mode & 1) { put(d + "/g", "keep\xFFme"); a.push_back("g"); } Out o = cli(a, "some input"); S r = cmp(o, 1, "", "", true); if (r.empty() && mode & 1 && slurp(d + "/g") != "keep\xFFme") r = "changes the file"; unlink((d + "/g").c_str()); return r; }
// a page made up for from/ASCII; bodies of up to three of these, after to/ASCII and inter/PASS were given pages of their own
static const char *PG[] = {"", "\n", ".redirect to/ASCII", ".redirect TO/ascii\nx", ".redirect from/NOSUCH", ".redirect inter/PASS\n", ".redirect nothing", ".redirect x/y", ".redirect", ".redirect \n", ".redirec to/ASCII", "\n.redirect to/ASCII", " .redirect to/ASCII", "DESC\tx", "@", "%s%n", "#4095", "#4096", "#4097", "#8192", "#100000"};
static const int NPG = sizeof PG / sizeof *PG;
static S body(const S &x) { if (x == "@") return S("a\0b\0", 4); if (x[0] == '#') { S r; size_t n = atoi(x.c_str() + 1); for (size_t i = 0; i < n; i++) r += "line of a page\n"[i % 15]; return r; } return x; }
static S madeup(int i, int j, int k) {
	setdir(); S b = g_dir + "/share/bsdconv/", t[3] = {body(PG[i]), body(PG[j]), body(PG[k])}, n[3] = {"from/ASCII", "to/ASCII", "inter/PASS"}; for (int x = 0; x < 3; x++) { unlink((b + n[x] + ".man").c_str()); put(b + n[x] + ".man", t[x]); }
	int at = 0, code = 0; S w, err; for (int d = 0;; d++) { if (d > 9) return ""; std::istringstream is(t[at].substr(std::min<size_t>(9, t[at].size()))); S to; if (t[at].compare(0, 9, ".redirect") || !(is >> to)) { S N = n[at]; for (auto &c : N) c = toupper(c); w = N + ":\n" + t[at]; break; } for (auto &c : to) c = toupper(c); int nx = -1; for (int x = 0; x < 3; x++) { S N = n[x]; for (auto &c : N) c = toupper(c); if (N == to) nx = x; } if (nx < 0) { if (to == "FROM/NOSUCH") w = "No such codec\n"; else code = 1; break; } at = nx; }
	Out o = cli({"from", "ascii"}, "", nullptr, "bsdconv-man"); for (auto &x : n) unlink((b + x + ".man").c_str()); return cmp(o, code, w, "", code != 0);
}
static S one(VS w);
static S replay(const S &d) {
	g_prefix = getenv("BSDCONV_PATH"); VS w = split(d, ' '); g_rel = w[0] == "rel"; if (g_rel) w.erase(w.begin()); return one(w);
}
static S one(VS w) {
	if (w[0] == "page") return madeup(atoi(w[1].c_str()), atoi(w[2].c_str()), atoi(w[3].c_str()));
	if (w[0] == "size") return size1(atoi(w[1].c_str()), atoi(w[2].c_str()), atoi(w[3].c_str()), atoi(w[4].c_str()));
	if (w[0] == "crowd") return crowd1(atoi(w[1].c_str()), atoi(w[2].c_str()), atoi(w[3].c_str())); if (w[0] == "named") return named1(unhex(w[1]), atoi(w[2].c_str()), atoi(w[3].c_str()));
	if (w[0] == "cut") { std::vector<size_t> c; for (size_t i = 3; i < w.size(); i++) c.push_back(atoi(w[i].c_str())); return cut1(atoi(w[1].c_str()), atoi(w[2].c_str()), c); }
	if (w[0] == "files") return files1(atoi(w[1].c_str()), w[2], atoi(w[3].c_str()));
	if (w[0] == "pair") { VS in; for (size_t i = 3; i < w.size(); i++) in.push_back(unhex(w[i])); return pair1(unhex(w[1]), in, atoi(w[2].c_str())); }
	if (w[0] == "list") { VS a; for (size_t i = 1; i < w.size(); i++) a.push_back(w[i]); return list1(a); }
	if (w[0] == "comp") return comp1(unhex(w[1]), w.size() > 2); if (w[0] == "man") return man1(unhex(w[1]), unhex(w[2]), w[3] == "1"); if (w[0] == "bad") return bad1(unhex(w[1]), atoi(w[2].c_str())); if (w[0] == "usage") return cmp(cli({}, ""), 1, "", "", true);
	return "bad descriptor";
}
static bool rep(S d, std::function<S()> f) { static S cur; if (g_rel) d = "rel " + d; cur = d; g_describe = [] { return cur; }; sh->states++; S r = f(); outcome(fnv(d)); if (r.size()) violation(d, r); return !stopping(); }
static void all() {
	g_prefix = getenv("BSDCONV_PATH"); const int NC = sizeof convs / sizeof *convs; std::vector<int> sz; for (int i = 0; i <= 8; i++) sz.push_back(i); int span = thorough ? 24 : 5; for (int b : {1024, 2048, 4096}) for (int i = b - span; i <= b + span; i++) sz.push_back(i); if (thorough) for (int b : {3072, 8192, 65536, 1 << 20}) for (int i = b - 4; i <= b + 4; i++) sz.push_back(i);
	explore("sizes", NC * sz.size(), [&](u64 it) { int c = it % NC; size_t n = sz[it / NC]; for (int k = 0; k < 4; k++) for (int way = 0; way < 4; way++) { if (!thorough && way == 3 && k) continue; if (!rep(fmt("size %d %zu %d %d", c, n, k, way), [&] { return size1(c, n, k, way); })) return; } sh->nontrivial++; if (it % 61 == 3) sample(fmt("%s, %zu bytes", convs[c], n)); });
	std::vector<std::vector<size_t>> cs; static const size_t ps[] = {1, 2, 1023, 1024, 1025, 3}; for (size_t a : ps) for (size_t b : ps) for (size_t c : ps) cs.push_back({a, b, c});
	explore("arrival in pieces", cs.size(), [&](u64 it) { auto &c = cs[it]; size_t t = c[0] + c[1] + c[2]; S d; for (size_t x : c) d += fmt(" %zu", x); for (int cv : {0, 1, 3, 5, 9}) { if (!rep(fmt("cut %d %zu", cv, t + 2) + d, [&] { return cut1(cv, t + 2, c); })) return; } if (t < 12) for (u64 m = 0; m < (1u << (t - 1)); m++) { std::vector<size_t> q; size_t l = 1; for (size_t i = 0; i + 1 < t; i++) { if (m >> i & 1) { q.push_back(l); l = 1; } else l++; } S dd; for (size_t x : q) dd += fmt(" %zu", x); if (!rep(fmt("cut 1 %zu", t) + dd, [&] { return cut1(1, t, q); })) return; } });
	VS fl; static const char *k = "ge0bmds"; int nk = 7; for (int a = 0; a < nk; a++) { fl.push_back(S(1, k[a])); for (int b = 0; b < nk; b++) { fl.push_back({k[a], k[b]}); for (int c = 0; c < nk; c++) fl.push_back({k[a], k[b], k[c]}); } } if (thorough) { size_t n = fl.size(); for (size_t i = 0; i < n; i++) if (fl[i].size() == 3) for (int c = 0; c < nk; c++) fl.push_back(fl[i] + k[c]); }
	explore("files", fl.size(), [&](u64 it) { for (int c : {0, 4, 12}) for (int m = 0; m < 4; m++) { if (m == 3 && fl[it].size() > 1) continue; if (!rep(fmt("files %d ", c) + fl[it] + fmt(" %d", m), [&] { return files1(c, fl[it], m); })) return; } sh->nontrivial++; if (it % 97 == 5) sample("files " + fl[it]); });
	auto ev = conversions(); ev.push_back({"utf-8:pass#limit=2,upper:utf-8", {"a", "b", "\xE6\xB8\xAC"}}); ev.push_back({"utf-8:pass#for=latin&limit=1,insert#before=012d:utf-8", {"a", "1", "\xE6\xB8\xAC"}});
	explore("several files of every conversion", ev.size(), [&](u64 it) { auto &e = ev[it]; if (strcasestr(e.conv.c_str(), "bsdconv-output") || strcasestr(e.conv.c_str(), "log")) return; VS in{""}; S whole; for (auto &t : e.tok) { in.push_back(t); whole += t; } in.push_back(whole); if (thorough) { in.push_back(whole + whole); } u64 k = 0; size_t cap = thorough ? 40 : 14; if (in.size() > cap) { in.erase(in.begin() + cap - 1, in.end() - 1); }
		auto go = [&](const VS &v, int m) { S dd = "pair " + hex(e.conv) + fmt(" %d", m); for (auto &x : v) dd += " " + hex(x); return rep(dd, [&] { return pair1(e.conv, v, m); }); }; for (auto &x : in) for (auto &y : in) { if (!go(VS{x, y}, k++ % 2)) return; } VS five{whole, "", whole, e.tok[0], whole}; if (!go(five, 0) || !go(five, 1)) return; sh->nontrivial++; });
	std::vector<int> nf{4, 9, 17, 21, 22, 23, 24, 25, 33, 64, 65, 130, 257}; if (thorough) { nf.push_back(1030); nf.push_back(2000); } explore("many files", nf.size() * NC * 2, [&](u64 it) { int n = nf[nf.size() - 1 - it / NC / 2], c = it / 2 % NC, m = it & 1; rep(fmt("crowd %d %d %d", c, n, m), [&] { return crowd1(c, n, m); }); sh->nontrivial++; });
	VS fnm{"a b", "%s", "%n%n%n", "x.XXXXXX", "XXXXXX", ".hidden", "a\nb", "\xFF\xFE", "\xE6\xB8\xAC", "'", "\"", "*", "a#b", "utf-8:utf-8", "--", "-x", "-I", "--help", "./f", "sub/f", "sub//f", "sub/sub2/f", "sub/../sub/f", " ", "a'b\"c", "\\", "f.", "~", "$HOME", "`x`", "-i/f", "-l/f"}; for (long n : sizes(247, 4)) if (n) fnm.push_back(S(n, 'L')); for (int n : {250, 300, 1000, 2000, 3000}) { S x; while ((int)x.size() < n) x += S(97, 'd') + "/"; fnm.push_back(x + "f"); }
	explore("files of any name", fnm.size() * 3, [&](u64 it) { S nm = fnm[it / 3]; int c = (int[]){0, 4, 2}[it % 3]; for (int m = 0; m < 4; m++) if (!rep("named " + hex(nm) + fmt(" %d %d", c, m), [&] { return named1(nm, c, m); })) return; sh->nontrivial++; });
	std::vector<VS> ls{{"-l"}, {"utf-8:utf-8", "-l"}, {"nosuch", "-l"}, {"ascii:ascii", "-i", "-l"}, {"-l", "x"}}; VS bad{"", "nosuch", ":", "utf-8:nosuch", "utf-8", "utf-8:", "utf-8:utf-8|", "a:b:c", "utf-8:upper#:nosuch", "utf-8,,ascii:utf-8", "|", "any#zz:utf-8", "pass:trim-width:pass", "-x", "../from/ASCII:ascii", "utf-8:utf-8 -i", S(9000, 'x'), "utf-8:\xFF"};
	explore("options", ls.size() + bad.size() * 4 + 1, [&](u64 it) { if (it < ls.size()) { rep("list " + join(ls[it], " "), [&] { return list1(ls[it]); }); return; } it -= ls.size(); if (it == bad.size() * 4) { rep("usage", [&] { return cmp(cli({}, ""), 1, "", "", true); }); return; } S b = bad[it / 4]; int m = it % 4; rep("bad " + hex(b) + fmt(" %d", m), [&] { return bad1(b, m); }); });
	VS tk{"u", "UTF-", "z", ":", "|", ",", "'", "\"", "#", "a", "NFC"}; std::vector<S> as{"", "\"\"", "'", "'u"}; for (auto &a : tk) { as.push_back(a); for (auto &b : tk) { as.push_back(a + b); for (auto &c : tk) { as.push_back(a + b + c); if (thorough) for (auto &d : tk) as.push_back(a + b + c + d); } } } std::set<S> nm; for (auto t : {"from", "inter", "to", "filter", "scorer"}) for (auto &n : installed(t)) nm.insert(n); for (auto &n : nm) { as.push_back(n); as.push_back("x:" + n); }
	explore("completion", as.size() + 1, [&](u64 it) { if (it == as.size()) { rep("comp 00 none", [&] { return comp1("", true); }); return; } rep("comp " + hex(as[it]), [&] { return comp1(as[it]); }); });
	VS nv(nm.begin(), nm.end()); nv.push_back("nosuch");
	explore("manual", nv.size(), [&](u64 it) { S lo = nv[it]; for (auto &c : lo) c = tolower(c); for (auto t : {"from", "inter", "TO", "filter", "scorer", "x"}) for (int s = 0; s < 2; s++) if (!rep("man " + hex(t) + " " + hex(lo) + fmt(" %d", s), [&] { return man1(t, lo, s); })) return; });
	explore("made-up pages", NPG * NPG, [&](u64 it) { int i = it % NPG, j = it / NPG; if (S(PG[i]).compare(0, 9, ".redirect") && j) return; for (int k = 0; k < NPG; k++) { bool two = S(PG[j]).compare(0, 9, ".redirect") == 0; if (!two && !(S(PG[i]).find("inter/") != S::npos) && k) break; S d = fmt("page %d %d %d", i, j, k); if (!rep(d, [&] { return madeup(i, j, k); })) return; } });
	VS names = nv; explore("relative module path", names.size() + NC + 6, [&](u64 it) { g_rel = true; if (it < names.size()) { S lo = names[it]; for (auto &c : lo) c = tolower(c); for (auto t : {"from", "inter", "to", "filter"}) for (int s = 0; s < 2; s++) if (!rep("man " + hex(t) + " " + hex(lo) + fmt(" %d", s), [&] { return man1(t, lo, s); })) return; if (it % 3 == 0) rep("comp " + hex(lo), [&] { return comp1(lo); }); return; } it -= names.size();
		if (it < (u64)NC) { for (size_t n : {0, 5, 1030}) for (int way = 0; way < 3; way++) if (!rep(fmt("size %d %zu %d %d", int(it), n, 1, way), [&] { return size1(it, n, 1, way); })) return; return; } it -= NC; static const char *f[] = {"ge", "egb", "gm"}; if (it < 3) { for (int c : {0, 4, 12}) for (int m : {0, 1}) rep(fmt("files %d ", c) + f[it] + fmt(" %d", m), [&] { return files1(c, f[it], m); }); return; }
		if (it == 3) rep("list " + join(ls[0], " "), [&] { return list1(ls[0]); }); if (it == 4) for (auto &b : {bad[1], bad[3], bad[11]}) rep("bad " + hex(b) + " 1", [&] { return bad1(b, 1); }); if (it == 5) for (auto &e : ev) if (e.conv.size() % 5 == 0 && !strcasestr(e.conv.c_str(), "bsdconv-output") && !strcasestr(e.conv.c_str(), "log") && e.tok.size()) { S dd = "pair " + hex(e.conv) + " 0 " + hex(e.tok[0]); rep(dd, [&] { return pair1(e.conv, {e.tok[0]}, 0); }); } });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }