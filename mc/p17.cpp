// P17: several instances in every interleaving of their operations, each against itself alone; what the process owns
// (directory, environment, descriptors, ...) before and after every call, in ordinary and in hostile surroundings.
#include "convs.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <clocale>
#include <cerrno>
#include <fstream>
extern char **environ;
static S g_prefix;
static std::vector<CV> cv;
// two inputs of each conversion, in three pieces each: all tokens in order, cut inside tokens; and all of them backwards
static VS pieces(int c, int k) {
	S s; auto &t = cv[c].tok; size_t n = t.size(); if (k < 2) { for (size_t i = 0; i < n; i++) s += t[k ? n - 1 - i : i]; s += t[k]; s += t[(k * 3 + 2) % n]; } else for (size_t i = 0; i < 2 * n; i++) s += t[(i * (k + 1) + i / n + k) % n];
	size_t a = (s.size() + 2) / 3, b = a + a / 2 + 1; if (b > s.size()) b = s.size(); return {s.substr(0, a), s.substr(a, b - a), s.substr(b)};
}
// operations of one instance: C create, R init, 0 1 2 feed a piece (2 flushes), D destroy
struct Inst { int c, k; S ops; };
// P: one created before, kept for all schedules of a conversion
static Conv *kept(int slot, int c) { static std::map<std::pair<int, int>, Conv *> m; static int last = -1; if (m.size() > 24 && last != c) { auto it = m.begin(); while (it != m.end()) if (it->first.second != c && it->first.first == slot) { delete it->second; it = m.erase(it); } else ++it; } last = c; auto &v = m[{slot, c}]; if (!v) v = new Conv(cv[c].conv); return v; }
struct Run { Conv own, *pv = &own; VS p; S seen; S err;
	void op(char o, const Inst &i, int slot) {
		Conv &v = *pv; if (o == 'P') { pv = kept(slot, i.c); if (!pv->p) err = "cannot be created"; else pv->reset(); return; }
		if (o == 'C') { if (!v.open(i.c == -1 ? S("ascii:nosuch") : cv[i.c].conv) != (i.c == -1)) err = "cannot be created"; if (v.p) v.reset(); return; } if (!v.p) return;
		if (o == 'R') v.reset(); else if (o == 'D') v.close(); else { S out; int n = o - '0'; v.set_input(p[n], n != 1); if (n == 2) v.p->flush = 1; v.go(out); seen += fmt("%c", o) + out + (n == 2 ? "\xFF" + Res{"", v.counters()}.show() : ""); }
	} };
static S sched(const std::vector<Inst> &in, const S &order, VS *seen = nullptr) {
	std::vector<Run> r(in.size()); std::vector<size_t> at(in.size()); for (size_t i = 0; i < in.size(); i++) r[i].p = in[i].c < 0 ? VS(3) : pieces(in[i].c, in[i].k);
	for (char x : order) { int i = x - 'a'; r[i].op(in[i].ops[at[i]++], in[i], i); } if (seen) for (auto &x : r) seen->push_back(x.seen); for (auto &x : r) if (x.err.size()) return x.err; return "";
}
static std::map<S, S> &alone() { static std::map<S, S> m; return m; }
static S one(const std::vector<Inst> &in, const S &order) {
	VS got; S r = sched(in, order, &got); eval(); sh->trans += order.size(); if (r.size()) return r;
	for (size_t i = 0; i < in.size(); i++) { S key = fmt("%d %d ", in[i].c, in[i].k) + in[i].ops; auto it = alone().find(key); if (it == alone().end()) { VS s; sched({in[i]}, S(in[i].ops.size(), 'a'), &s); if (alone().size() > 4000) alone().clear(); it = alone().emplace(key, s[0]).first; } if (it->second != got[i]) return fmt("instance %zu (", i) + cv[in[i].c].conv + ") gives " + hex(got[i]) + " instead of " + hex(it->second); }
	return "";
}
static S showi(const std::vector<Inst> &in, const S &order) { S r = "sched " + order; for (auto &i : in) r += fmt(" %d %d ", i.c, i.k) + i.ops; return r; }
static bool judge(const std::vector<Inst> &in, const S &order) { sh->states++; S r = one(in, order); if (r.size()) { for (auto &i : in) if (i.c >= 0) r += "; " + cv[i.c].conv; violation(showi(in, order), r); return false; } outcome(fnv(showi(in, order))); return !stopping(); }
static void merge(std::vector<int> left, S &cur, std::vector<S> &out) { bool any = false; for (size_t i = 0; i < left.size(); i++) if (left[i]) { any = true; left[i]--; cur += char('a' + i); merge(left, cur, out); cur.pop_back(); left[i]++; } if (!any) out.push_back(cur); }
static std::vector<S> merges(std::vector<int> n) { S c; std::vector<S> o; merge(n, c, o); return o; }
// ---- surroundings
struct Snap { S cwd, env, fds, misc; };
static Snap snap() {
	Snap s; char b[4200]; struct stat st; if (stat(".", &st) == 0) s.cwd = fmt("%llu/%llu ", (unsigned long long)st.st_dev, (unsigned long long)st.st_ino); ssize_t n = readlink("/proc/self/cwd", b, sizeof b); if (n > 0) s.cwd += S(b, n);
	for (char **e = environ; *e; e++) s.env += fmt("%p ", (void *)*e) + S(*e) + "\n";
	for (int i = 0; i < 256; i++) { int f = fcntl(i, F_GETFD), l; if (f < 0) continue; l = fcntl(i, F_GETFL); n = readlink(fmt("/proc/self/fd/%d", i).c_str(), b, sizeof b); s.fds += fmt("%d:%d:%d:%lld:", i, f, l, (long long)lseek(i, 0, SEEK_CUR)) + S(b, n > 0 ? n : 0) + "\n"; }
	mode_t m = umask(0); umask(m); s.misc = fmt("umask %o locale %s ", m, setlocale(LC_ALL, NULL)); for (int i = 1; i < 32; i++) { struct sigaction a; if (sigaction(i, NULL, &a) == 0) s.misc += fmt("%d:%p,", i, (void *)a.sa_handler); } sigset_t q; sigprocmask(SIG_BLOCK, NULL, &q); s.misc += hex(S((char *)&q, 8)); rlimit r; getrlimit(RLIMIT_NOFILE, &r); s.misc += fmt(" %llu", (unsigned long long)r.rlim_cur); s.misc += fmt(" uid %d pgid %d", geteuid(), getpgrp()); return s;
}
static S differ(const Snap &a, const Snap &b, bool more = false) { if (a.cwd != b.cwd) return "working directory was " + a.cwd + ", is " + b.cwd; if (a.env != b.env) return "the environment has changed"; bool same = a.fds == b.fds; if (more) { same = true; for (auto &l : split(a.fds, '\n')) same &= ("\n" + b.fds).find("\n" + l + "\n") != S::npos || l.empty(); } if (!same) return "descriptors were\n" + a.fds + "are\n" + b.fds; if (a.misc != b.misc) return a.misc + " became " + b.misc; return ""; }
// where: 0 ordinary 1 removed directory 2 directory without permissions, as somebody else 3 standard descriptors closed 4 k descriptors left 5 directory and path changed after creation 6 very deep directory
static S here(const S &conv, const S &in, int where, int k, const S &want) {
	return isolated([&]() -> S {
		S d = g_tmp + fmt("/e%d", (int)getpid()); mkdir(d.c_str(), 0777); if (chdir(d.c_str())) return "chdir"; if (where == 1) rmdir(d.c_str()); if (where == 3) for (int i = 0; i < 3; i++) ::close(i);
		if (where == 6) { rmdir(d.c_str()); d = g_tmp + "/deep"; mkdir(d.c_str(), 0777); if (chdir(d.c_str())) return "chdir"; S n(200, 'd'); for (int i = 0; i < 25; i++) { mkdir(n.c_str(), 0755); if (chdir(n.c_str())) return "chdir"; } }
		if (where == 2) { chmod(d.c_str(), 0); if (setgid(65534) || setuid(65534)) return ""; if (access(g_prefix.c_str(), R_OK | X_OK)) return ""; }
		if (where == 4) { rlimit r; getrlimit(RLIMIT_NOFILE, &r); int top = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) top = i; for (int i = 0; i < top; i++) if (fcntl(i, F_GETFD) < 0) dup2(top, i); r.rlim_cur = top + 1 + k; setrlimit(RLIMIT_NOFILE, &r); }
		if (where == 5) { S rel; if (chdir(g_prefix.c_str())) return "chdir"; setenv("BSDCONV_PATH", k ? "./" : "", 1); }
		Snap a = snap(); S r; auto check = [&](const char *what) { if (r.empty()) { r = differ(a, snap(), *what != 'd' && *what != 'e'); if (r.size()) r = S(what) + ": " + r; } };
		bsdconv_instance *p = bsdconv_create(conv.c_str()); int e = errno; check(p ? "create" : "error"); if (!p) { char *t = bsdconv_error(); free(t); check("error"); rmdir(d.c_str()); if (r.empty() && where != 4 && want.size()) r = fmt("cannot be created (errno %d)", e); return r; } Conv v; v.p = p; v.conv = conv; v.ie = bsdconv_counter(p, "IERR"); v.oe = bsdconv_counter(p, "OERR");
		if (where == 5) { unsetenv("BSDCONV_PATH"); if (chdir("/")) return "chdir"; Snap x = snap(); a.cwd = x.cwd; a.env = x.env; }
		bsdconv_init(p); check("init"); S out; v.reset(); v.set_input(in.substr(0, in.size() / 2)); v.go(out); check("first piece"); v.set_input(in.substr(in.size() / 2)); v.p->flush = 1; v.go(out); check("last piece"); S got = out + "\xFF" + Res{"", v.counters()}.show(); char *t = bsdconv_pack(p); free(t); check("pack");
		v.reset(); check("init"); v.set_input(in); v.go(out); v.close(); check("destroy"); if (r.empty() && got != want) r = "gives " + hex(got) + " instead of " + hex(want); if (where < 2) rmdir(d.c_str()); return r;
	}, 60);
}
static S wantof(const S &conv, const S &in) { Conv v(conv); if (!v.p) return ""; S out; v.reset(); v.set_input(in.substr(0, in.size() / 2)); v.go(out); v.set_input(in.substr(in.size() / 2)); v.p->flush = 1; v.go(out); return out + "\xFF" + Res{"", v.counters()}.show(); }
// the other functions
static const char *fn[] = {"list", "check", "alias", "insert", "replace", "error", "create nothing", "create malformed", "create unknown", "create bad arguments", "mkstemp"};
static S other(int f, int where, int k) {
	return isolated([&]() -> S {
		S d = g_tmp + fmt("/o%d", (int)getpid()); mkdir(d.c_str(), 0777); if (chdir(d.c_str())) return "chdir"; if (where == 1) rmdir(d.c_str()); if (where == 3) for (int i = 0; i < 3; i++) ::close(i); rlimit r0; getrlimit(RLIMIT_NOFILE, &r0);
		if (where == 4) { int top = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) top = i; for (int i = 0; i < top; i++) if (fcntl(i, F_GETFD) < 0) dup2(top, i); rlimit r = r0; r.rlim_cur = top + 1 + k; setrlimit(RLIMIT_NOFILE, &r); }
		setenv("BSDCONV_PATH", where == 2 ? "/nonexistent" : g_prefix.c_str(), 1); S r;
		for (int t : {(int)FROM, (int)INTER, (int)TO, 4, (int)SCORER, 0, 99}) for (const char *n : {"UTF-8", "nosuch", "ASCII", "CJK", "BIG5", "", ".", "../from/ASCII"}) { Snap a = snap();
			switch (f) {
				case 0: { char **l = bsdconv_modules_list(t); for (char **q = l; *q; q++) free(*q); free(l); break; } case 1: bsdconv_module_check(t, n); bsdconv_codec_check(t, n); break; case 2: if (t != 99) { char *q = bsdconv_solve_alias(t, n); free(q); } break;
				case 3: { char *q = bsdconv_insert_phase("utf-8:big5", n, INTER, 1); free(q); q = bsdconv_insert_codec("utf-8:big5", n, 0, 1); free(q); break; } case 4: { char *q = bsdconv_replace_phase("utf-8:upper:big5", n, INTER, 1); free(q); q = bsdconv_replace_codec("utf-8:big5", n, 1, 0); free(q); break; }
				case 5: { char *q = bsdconv_error(); free(q); break; } case 6: { auto *p = bsdconv_create(""); if (p) return "the empty conversion can be created"; break; } case 7: { for (const char *c : {":", "a:", "|", "a#", "utf-8:utf-8:", "utf-8,:big5"}) { auto *p = bsdconv_create(c); if (p) bsdconv_destroy(p); } break; }
				case 8: { for (const char *c : {"utf-8:nosuch", "nosuch:utf-8", "utf-8:upper,nosuch:utf-8", "utf-8:nfc:nosuch", "utf-8:pass#for=nosuch:utf-8", "jis:nosuch"}) { auto *p = bsdconv_create(c); if (p) { bsdconv_destroy(p); } } break; }
				case 9: { for (const char *c : {"any#zz:utf-8", "utf-8:trim-width:utf-8", "utf-8:replace:utf-8", "utf-8:count#for=nosuch:utf-8", "utf-8:score#with=nosuch:utf-8", "utf-8:strings#for=nosuch:utf-8", "utf-8:insert#after=zz:utf-8", "utf-8:nfc:escape#mode=zz"}) { auto *p = bsdconv_create(c); if (p) bsdconv_destroy(p); } break; }
				case 10: { char tm[] = "xXXXXXX"; int q = bsdconv_mkstemp(tm); if (q >= 0) { ::close(q); unlink(tm); } break; }
			}
			Snap b = snap(); r = differ(a, b); if (r.size()) return S(fn[f]) + fmt(" %d ", t) + n + ": " + r; eval();
		}
		rmdir(d.c_str()); return r;
	}, 60);
}
// n instances at once (of one conversion, or of all in turn), each fed a piece in turn, destroyed in some order; j of them abandoned
static S crowd(int c, int n, int how) {
	std::vector<Run> r(n); std::vector<Inst> in(n); bool mixed = how & 1; for (int i = 0; i < n; i++) { in[i] = {mixed ? (c + i * 7) % int(cv.size()) : c, i % 3, how & 2 ? "C01D" : "C012D"}; r[i].p = pieces(in[i].c, in[i].k); }
	for (int i = 0; i < n; i++) r[i].op('C', in[i], i); int first = n; for (char o : {'0', '1', '2'}) for (int i = 0; i < n; i++) { int q = how & 4 ? n - 1 - i : i; if (o == '1' && how & 8 && i % 5 == 4) { r[q].op('D', in[q], q); r[q].op('C', in[q], q); r[q].seen = ""; r[q].op('0', in[q], q); } r[q].op(o, in[q], q); sh->trans++; }
	for (int i = 0; i < n; i++) { int q = how & 2 ? n - 1 - i : i; r[q].op('D', in[q], q); }
	std::map<S, S> al; for (int i = 0; i < n; i++) { if (r[i].err.size()) return r[i].err; S key = fmt("%d %d", in[i].c, in[i].k); auto it = al.find(key); if (it == al.end()) { VS s; Inst x = in[i]; x.ops = "C012D"; sched({x}, "aaaaa", &s); it = al.emplace(key, s[0]).first; } if (it->second != r[i].seen) return fmt("instance %d of %d, ", i, n) + cv[in[i].c].conv + ": " + hex(r[i].seen).substr(0, 300) + " instead of " + hex(it->second).substr(0, 300); } return "";
}
static S replay(const S &d) {
	if (d.compare(0, 6, "crowd ") == 0) { g_prefix = getenv("BSDCONV_PATH"); cv = conversions(); int c, n, h; sscanf(d.c_str() + 6, "%d %d %d", &c, &n, &h); return crowd(c, n, h); }
	g_prefix = getenv("BSDCONV_PATH"); cv = conversions(); VS w = split(d, ' ');
	if (w[0] == "sched") { std::vector<Inst> in; for (size_t i = 2; i + 2 < w.size(); i += 3) in.push_back({atoi(w[i].c_str()), atoi(w[i + 1].c_str()), w[i + 2]}); return one(in, w[1]); }
	if (w[0] == "here") { S c = unhex(w[1]), in = unhex(w[2]); return here(c, in, atoi(w[3].c_str()), atoi(w[4].c_str()), wantof(c, in)); }
	if (w[0] == "other") return other(atoi(w[1].c_str()), atoi(w[2].c_str()), atoi(w[3].c_str())); return "bad descriptor";
}
static void all() {
	g_prefix = getenv("BSDCONV_PATH"); cv = conversions(); int n = cv.size(); static std::vector<Inst> gi; static S go;
	// (a) creation to destruction, same conversion with different inputs, neighbours, and one which is refused
	auto full = merges({6, 6}); std::vector<std::vector<Inst>> sets; const S life = "C012RD", life2 = "C01R2D", life3 = "C01D", life4 = "CR012D";
	auto m45 = merges({4, 6}), m555 = merges({3, 3, 3});
	explore("lives of two", n * 2, [&](u64 it) { int c = it / 2; g_describe = [] { return showi(gi, go); }; gi = it % 2 ? std::vector<Inst>{{c, 0, life4}, {(c + 1) % n, 1, life}} : std::vector<Inst>{{c, 0, life}, {c, 1, life4}}; for (auto &o : full) { go = o; if (!judge(gi, o)) break; } sh->nontrivial++; if (it % 53 == 3) sample(showi(gi, full[it % full.size()])); });
	explore("one abandoned or refused", n * 2, [&](u64 it) { int c = it / 2; g_describe = [] { return showi(gi, go); }; gi = it % 2 ? std::vector<Inst>{{c, 0, life3}, {c, 1, life4}} : std::vector<Inst>{{-1, 0, "CCDC"}, {c, 1, life4}}; for (auto &o : m45) { go = o; if (!judge(gi, o)) break; } });
	// (b) every pair of conversions
	auto pr = merges({4, 4}), pq = merges({3, 3});
	explore("every two conversions", (u64)n * n, [&](u64 it) { int a = it / n, b = it % n; if (a > b && !thorough) return; g_describe = [] { return showi(gi, go); }; gi = {{a, 0, thorough ? "C02D" : "P02"}, {b, a == b ? 2 : 1, thorough ? "C02D" : "P02"}}; for (auto &o : thorough ? pr : pq) { go = o; if (!judge(gi, o)) break; } });
	// (c) three of a kind
	explore("three of a kind", n, [&](u64 it) { int c = it; g_describe = [] { return showi(gi, go); }; gi = {{c, 0, thorough ? "C02" : "P02"}, {c, 1, "P02"}, {c, 2, thorough ? "C02" : "P02"}}; for (auto &o : m555) { go = o; if (!judge(gi, o)) break; } });
	explore("many at once", n * 4, [&](u64 it) { int c = it / 4; S d; g_describe = [&] { return d; }; for (int k : it % 4 == 0 ? std::vector<int>{3, 9, 33, 130, 300} : std::vector<int>{5, 65, 257}) { if (k > 256 && c % 8 && !thorough) continue; int how = (c * 5 + it % 4 * 3 + k) & 15; d = fmt("crowd %d %d %d", c, k, how); sh->states++; eval(); S r = crowd(c, k, how); outcome(fnv(d)); if (r.size()) { violation(d, r); return; } } sh->nontrivial++; });
	// (d) surroundings
	struct E { S c, in; }; std::vector<E> es; for (int i = 0; i < n; i++) { VS p = pieces(i, 0); es.push_back({cv[i].conv, p[0] + p[1] + p[2]}); } for (int t = 0; t < 5; t++) { static const int ty[] = {FROM, INTER, TO, 4, SCORER}; char **l = bsdconv_modules_list(ty[t]); for (char **q = l; *q; q++) { S m = *q; free(*q); es.push_back({t == 0 ? m + ":pass" : t == 1 ? "utf-8:" + m + ":pass" : t == 2 ? "utf-8:" + m : t == 3 ? "utf-8:pass#for=" + m + ":utf-8,pass" : "utf-8:score#with=" + m + ":utf-8", "a\xC3\xA9\xE6\xB8\xAC\xFFz"}); } free(l); }
	setenv("BSDCONV_SCORE", (g_tmp + "/score").c_str(), 1); { int f = open((g_tmp + "/score").c_str(), O_CREAT | O_WRONLY, 0666); if (f >= 0) { if (write(f, S(0x110000, 0).data(), 0x110000) < 0) {} ::close(f); } }
	int K = thorough ? 14 : 8;
	explore("surroundings", es.size(), [&](u64 it) { auto &e = es[it]; int w = 0, k = 0; g_describe = [&] { return "here " + hex(e.c) + " " + hex(e.in) + fmt(" %d %d", w, k); }; S want = wantof(e.c, e.in); for (w = 0; w < 7; w++) for (k = 0; k < (w == 4 ? K : w == 5 ? 2 : 1); k++) { if (w == 4 && it % 3 && !thorough && it < (u64)n) continue; eval(); sh->states++; S r = here(e.c, e.in, w, k, want); outcome(fnv(e.c) + w * 100 + k); if (r.size()) { if (w == 2 && e.c.find("SCORE-TRAIN") != S::npos) continue; violation("here " + hex(e.c) + " " + hex(e.in) + fmt(" %d %d", w, k), e.c + ": " + r); if (stopping()) return; } } sh->nontrivial++; });
	explore("other functions", 11 * 5, [&](u64 it) { int f = it / 5, w = it % 5, k = 0; g_describe = [&] { return fmt("other %d %d %d", f, w, k); }; for (k = 0; k < (w == 4 ? K : 1); k++) { sh->states++; S r = other(f, w, k); if (r.size()) violation(fmt("other %d %d %d", f, w, k), r); } });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
