// P15: p15.cpp (sanitized build) and p15l.cpp (plain build, heap balance): every codec on hostile bytes and data, in exact buffers, with hostile arguments, abandoned anywhere.
#include "convs.hpp"
#include "synth.hpp"
#include <array>
#ifdef LEAK
#include "alloc.hpp"
static void empty() {}
#else
#include <sanitizer/asan_interface.h>
static void empty() { static char *b = (char *)malloc(64); ASAN_POISON_MEMORY_REGION(b, 64); g_empty = b + 32; }
#endif
// LEAK: what is on the heap before and after; the first time may fill caches
template<class F> static S balanced(F f) {
	S r = f(); if (r.size()) return r;
#ifdef LEAK
	long d = 0; for (int i = 0; i < 4; i++) { long l = alloc::live; S q = f(); if (q.size()) return q; d = alloc::live - l; if (d == 0) return ""; } return fmt("%ld heap blocks more every time", d);
#endif
	return "";
}
static VS lst(int t) { VS r; char **l = bsdconv_modules_list(t); for (char **p = l; *p; p++) { r.push_back(*p); free(*p); } free(l); return r; }
// a working use of a module which needs arguments
static S use(const S &n) {
	static const std::map<S, S> m = {{"REPLACE", "REPLACE#0161.0162=0163"}, {"TRIM-WIDTH", "TRIM-WIDTH#3"}, {"INSERT", "INSERT#after=002c&before=012c"}, {"SCORE", "SCORE#with=cjk"}, {"STRINGS", "STRINGS#min-len=2&after=013b&before=013a"}, {"ANY", "ANY#013f"}, {"PASS", "PASS#for=unicode"}, {"COUNT", "COUNT#for=cjk&as=x"}, {"SPLIT", "SPLIT"}};
	auto i = m.find(n); return i == m.end() ? n : i->second;
}
// more working uses: every combination of the documented arguments with short, long and empty values
static VS variants(int t, const S &n) {
	VS r; VS hx{"", "5", "0161", "0", "016101620163016401", S(600, '4')}; auto all = [&](const std::vector<VS> &opts) { VS cur{""}; for (auto &o : opts) { VS nx; for (auto &c : cur) for (auto &x : o) nx.push_back(x == "-" ? c : c + (c.size() ? "&" : "") + x); cur = nx; } for (auto &c : cur) if (c.size()) r.push_back(n + "#" + c); };
	auto opt = [](const S &k, const VS &v) { VS o{"-"}; for (auto &x : v) o.push_back(k + "=" + x); return o; };
	if (t == TO && n == "ESCAPE") all({opt("for", {"1", "byte"}), opt("mode", {"hex", "dec", "oct"}), opt("prefix", hx), opt("suffix", hx)});
	if (t == INTER && n == "INSERT") all({opt("after", {"0161", "0161.0162", S(600, '4')}), opt("before", {"0161", "0161.0162", S(600, '4')})});
	if (t == INTER && n == "STRINGS") all({opt("for", {"cjk"}), opt("min-len", {"0", "2", "-1", "2147483647"}), opt("after", {"0161", S(600, '4')}), opt("before", {"0161.0162", S(600, '4')})});
	if (t == INTER && n == "REPLACE") { for (auto f : {"0161", "0161.0162", "0161.0161.0162", "01.0141", "03.03A4"}) for (auto v : {"", "0161", "0161.0162.0163"}) r.push_back(n + "#" + f + "=" + v); r.push_back(n + "#0161"); r.push_back(n + "#0161=0162&0141=0163.0164"); r.push_back(n + "#" + S(600, '4') + "=" + S(602, '4')); }
	if (t == INTER && n == "TRIM-WIDTH") for (auto a : {"0", "1", "2", "-1", "5&ambi-as-wide", "2147483647", "-2147483648"}) r.push_back(n + "#" + a);
	if (t == INTER && n == "PASS") all({opt("for", {"cjk", "unicode"}), opt("limit", {"0", "1", "-1", "2147483647"})});
	if (t == INTER && n == "COUNT") all({opt("for", {"byte"}), {"-", "ierr", "x&y=1"}});
	if (t == INTER && n == "SCORE") all({opt("with", {"latin1"}), opt("as", {"ierr", "x"})});
	if ((t == FROM || t == TO) && n == "ANY") all({{"-", "0161", "0161.0162.03A4", S(600, '4')}, {"-", "error"}, {"-", "drop"}});
	if (t == FROM && n == "PASS") all({opt("for", {"unicode", "byte", "cjk"}), {"-", "unmark"}}); if (t == TO && n == "PASS") all({opt("for", {"unicode", "byte", "cjk"}), {"-", "mark"}});
	if (t == FROM && n == "_UTF-8") all({{"-", "cesu"}, {"-", "loose"}, {"-", "nul"}, {"-", "overlong"}, {"-", "super"}});
	return r;
}
struct Pipe { S conv; bool bytes; };
static std::vector<Pipe> pipes() {
	std::vector<Pipe> r; for (auto &n : lst(INTER)) { { char *a = bsdconv_solve_alias(INTER, n.c_str()); bool multi = a && strchr(a, ':'); free(a); if (multi) { r.push_back({"pass:" + n + ":pass", false}); continue; } } r.push_back({use(n), false}); r.push_back({"pass:" + use(n) + "," + "null:pass", false}); } for (auto &n : lst(TO)) { r.push_back({"pass:" + use(n), false}); r.push_back({"pass:" + use(n) + ",any#3f&error", false}); }
	for (auto &n : lst(INTER)) for (auto &v : variants(INTER, n)) r.push_back({v, false}); for (auto &n : lst(TO)) for (auto &v : variants(TO, n)) r.push_back({"pass:" + v, false}); for (auto &n : lst(FROM)) for (auto &v : variants(FROM, n)) r.push_back({v + ":pass", true});
	for (auto &n : lst(4)) { r.push_back({"pass#for=" + n, false}); r.push_back({"count#for=" + n, false}); r.push_back({"strings#for=" + n, false}); } for (auto &n : lst(SCORER)) r.push_back({"score#with=" + n, false});
	for (auto &n : lst(FROM)) { r.push_back({use(n) + ":pass", true}); r.push_back({use(n) + ",any#013f&error:insert#after=002c:pass", true}); } return r;
}
static const VS &hostile() { static VS v; if (v.empty()) { v.push_back(""); for (auto t : {"00", "01", "02", "03", "04", "1B", "FF"}) for (auto p : {"", "00", "41", "80", "FF", "0301", "4E00", "D800", "010000", "10FFFF", "FFFFFFFF", "0102030405", "E6B8AC41E6B8AC41E6"}) v.push_back(unhex(S(t) + p)); } return v; }
static const VS &few() { static VS v; if (v.empty()) for (auto p : {"", "01", "0100", "0141", "010301", "01AC00", "011161", "01FFFFFFFFFF", "03", "03A4", "0340", "1B", "1B5B6D", "1B0A", "0030", "02", "020121", "01A0", "0128"}) v.push_back(unhex(p)); return v; }
// how: 0 at once with flush, 1 one by one then flush, 2 one by one, then left
static void feed(Conv &c, const VD &in, int how) { VD o; eval(); c.reset(); if (how == 0) { c.set_list(in); c.p->flush = 1; c.go_list(o); return; } for (auto &d : in) { c.set_list({d}); c.go_list(o); } if (how == 1) { c.set_list({}); c.p->flush = 1; c.go_list(o); } }
static void feedb(Conv &c, const S &in, int how) { S o; eval(); c.reset(); if (how == 0) { c.set_input(in); c.p->flush = 1; c.go(o); return; } for (char x : in) { c.set_input(S(1, x)); c.go(o); } if (how == 1) { c.set_list({}); c.p->flush = 1; c.go(o); } }
static S C; static VD D; static S B; static int HOW; static bool BY; static S desc() { return BY ? "bytes " + hex(C) + " " + hex(B) + fmt(" %d", HOW) : "data " + hex(C) + " " + fmt("%d ", HOW) + show(D); }
static void d1(Conv &c, const VD &v, int h) { D = v; HOW = h; sh->states++; feed(c, v, h); }
static void b1(Conv &c, const S &v, int h) { B = v; HOW = h; sh->states++; feedb(c, v, h); }
// ---- arguments
static const char *keys[] = {"", "for", "as", "limit", "mark", "unmark", "after", "before", "min-len", "with", "error", "drop", "prefix", "mode", "cesu", "nul", "ambi-as-wide", "3", "0161", "x"};
static VS vals() { return {"-", "", ".", "0161", "01", "0", "zz", "016", "0161.", ".0161", "0161.0162.0163", "cjk", "nosuch", "-1", "99999999999999999999", S(300, '4'), S(301, '4') + ".", "unicode", "oct", "%", "01,02", S(5000, 'a')}; }
static S arg1(const S &conv) { Conv c(conv); if (!c.p) { char *t = bsdconv_error(); free(t); return ""; } char *k = bsdconv_pack(c.p); free(k); for (auto &in : {S("a\xE6\xB8\xAC\xFF(\n"), S("")}) { feedb(c, in, 0); feedb(c, in, 2); } for (auto &d : few()) feed(c, {Datum(d), Datum(unhex("0141"))}, 0); return ""; }
static S life(const S &conv, const S &in) { { Conv c; c.p = bsdconv_create(conv.c_str()); if (!c.p) return "cannot be created"; bsdconv_destroy(c.p); c.p = nullptr; } { Conv c(conv); feedb(c, in, 2); } { Conv c(conv); feedb(c, in, 0); feedb(c, in, 2); } { Conv c(conv); S o; c.reset(); c.set_input(in); c.p->output_mode = BSDCONV_HOLD; bsdconv(c.p); } { Conv c(conv); c.reset(); c.set_input(in, false); c.p->output_mode = BSDCONV_HOLD; bsdconv(c.p); c.reset(); c.set_input(in, false); } return ""; }
// ---- programs
static S prog(const VS &args, const S &in) {
	S d = g_tmp + fmt("/p%d", (int)getpid()); mkdir(d.c_str(), 0755); S fi = d + "/in"; { FILE *f = fopen(fi.c_str(), "w"); fwrite(in.data(), 1, in.size(), f); fclose(f); } S exe = g_prefix + "/bin/" + args[0]; std::vector<char *> av; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr); eval(); sh->trans++;
	pid_t p = vfork(); if (p == 0) { int f = open(fi.c_str(), O_RDONLY), n = open("/dev/null", O_WRONLY), e = open((d + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(f, 0); dup2(n, 1); dup2(e, 2); if (chdir(d.c_str())) _exit(99); { rlimit cl = {15, 20}; setrlimit(RLIMIT_CPU, &cl); } alarm(100); execv(exe.c_str(), av.data()); _exit(98); } int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) return args[0] + fmt(" dies of signal %d", WTERMSIG(st)); if (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) >= 97) return args[0] + fmt(" %d: ", WEXITSTATUS(st)) + slurp(d + "/err").substr(0, 700); return "";
}
static void envup() { g_prefix = getenv("BSDCONV_PATH"); setenv("BSDCONV_SCORE", (g_tmp + "/score").c_str(), 1); { FILE *f = fopen((g_tmp + "/score").c_str(), "w"); S z(0x110000, 0); fwrite(z.data(), 1, z.size(), f); fclose(f); } setenv("HOME", g_tmp.c_str(), 1); }
static bool mayfail(const S &c) { return strstr(c.c_str(), "CNS11643") || strstr(c.c_str(), "BSDCONV-LOG"); }
// ---- anything of any size: data, runs of data, bytes, names and arguments, what the environment and an installation hold
static S rep(const S &x, long n) { S r; while (n-- > 0) r += x; return r; }
static const int NDK = 16;
static VD sized(int kind, long n) {
	VD r; auto run = [&](const S &h) { Datum d(unhex(h)); for (long i = 0; i < n; i++) r.push_back(d); }; auto one = [&](const S &d) { r.push_back(Datum(unhex("0161"))); r.push_back(Datum(d)); r.push_back(Datum(unhex("0162"))); };
	switch (kind) { case 0: run("0161"); break; case 1: run("016E2C"); break; case 2: run("0320"); break; case 3: run("0120"); break; case 4: run("010301"); break; case 5: run("0128"); break; case 6: run("1B5B6D"); break; case 7: run("03A4"); break; case 8: run("03FF"); break; case 9: { auto &q = few(); for (long i = 0; i < n; i++) r.push_back(Datum(q[i % q.size()])); } break; case 10: { auto &h = hostile(); for (long i = 0; i < n; i++) r.push_back(Datum(h[(i * 31 + n) % h.size()])); } break;
		case 11: one("\x01" + S(n, '\x61')); break; case 12: one("\x03" + S(n, '\xA4')); break; case 13: one("\x1B[" + rep("1;", n) + "m"); break; case 14: one(S(n, '\x02')); break; default: run("01AC00"); }
	return r;
}
static const int NBK = 14;
static S sizedb(int kind, long n) { static const char *u[] = {"61", "E6B8AC", "1B", "1B2442", "0E", "A4", "5C75", "265C", "2623", "3031", "FF", "30314131", "00", "D83D"}; S r; for (S x = unhex(u[kind]); (long)r.size() < n;) r += x; return kind == 8 ? r + S(n, '1') : r; }
static const char *ENVS[] = {"BSDCONV_PATH", "HOME", "LC_ALL", "LC_CTYPE", "LANG", "BSDCONV_SCORE", "BSDCONV_FROM_LOG", "BSDCONV_TO_LOG"};
static S sizedenv(int e, int kind, long n) {
	S v = kind == 0 ? S(n, 'e') : kind == 1 ? rep("/", n) : kind == 2 ? rep("./", n / 2) : kind == 3 ? "x." + S(n, 'E') : kind == 4 ? rep("a.", n) : g_tmp + "/" + S(n, 'q'); S old = getenv(ENVS[e]) ? getenv(ENVS[e]) : "-"; setenv(ENVS[e], v.c_str(), 1);
	for (auto c : {"utf-8:utf-8", "locale:locale", "utf-8:upper:big5", "score", "score-train", "utf-8:score#with=trained:pass", "bsdconv-log:pass", "pass:bsdconv-log", "nosuch:pass", "pass#for=nosuch:pass"}) { eval(); Conv k(c); if (k.p) { feedb(k, "a\xE6\xB8\xAC", 0); feed(k, {Datum(unhex("016E2C"))}, 0); } else free(bsdconv_error()); }
	for (int t : {int(FROM), int(INTER), int(TO), 4, int(SCORER)}) { lst(t); free(bsdconv_solve_alias(t > 4 ? 9 : t, "UTF-8")); bsdconv_module_check(t, "ASCII"); bsdconv_codec_check(t, "NOSUCH"); }
	if (old == "-") unsetenv(ENVS[e]); else setenv(ENVS[e], old.c_str(), 1); return "";
}
static const int NSK = 20;
static S sizedstr(int kind, long n) {
	S u; if (kind == 14) for (long i = 0; i < n; i++) u += fmt(":count#N%ld", i);
	switch (kind) { case 0: return rep("ascii,", n) + "pass:pass"; case 1: return S(n, 'a') + ":" + S(n, 'b'); case 2: return "pass" + rep(":upper", n) + ":pass"; case 3: return rep("pass:pass|", n) + "pass:pass"; case 4: return "pass:pass" + rep(",ascii", n); case 5: return "any#" + rep("0141.", n) + "0142:pass"; case 6: return "any#013f" + rep("&ERROR", n) + ":pass"; case 7: return rep(" ", n) + "pass" + rep("\t", n) + ":pass";
		case 8: return "pass:upper," + S(n, 'a') + ":pass"; case 9: return "pass:count#" + S(n, 'c') + ":pass"; case 10: return "pass:score#as=" + S(n, 's') + ":pass"; case 11: return "pass#for=" + S(n, 'f') + ":pass"; case 12: return "score#with=" + S(n, 'w'); case 13: return "pass:replace#0161=0162" + rep("&0141=0142.0143", n) + ":pass"; case 14: return "pass" + u + ":pass"; case 15: return "insert#after=" + rep("014", n); case 16: return rep("utf-8,", n) + "pass:pass"; case 17: return "pass:escape#prefix=" + rep("41", n) + "&suffix=" + rep("42", n); case 18: return "pass:any#" + rep("41", n); default: return "strings#before=" + rep("0141.", n) + "01&after=01" + rep("41", n); }
}
static S sizedstr1(int kind, long n) { S r = arg1(sizedstr(kind, n)), s = sizedstr(kind, n); eval(); for (int p : {0, -1}) { free(bsdconv_insert_phase(s.c_str(), "upper", INTER, p)); free(bsdconv_insert_codec(s.c_str(), "ascii", p, 0)); free(bsdconv_insert_codec(s.c_str(), "ascii", p, -1)); free(bsdconv_replace_phase(s.c_str(), "upper", INTER, p)); free(bsdconv_replace_codec(s.c_str(), "ascii#x=y", p, -1)); } return r; }
// an alias file of lines whose parts have these sizes, and a module of a long name
static S sizedinst(int kind, long n) {
	setdir(); S d = g_dir + "/share/bsdconv/from", f = d + "/alias", keep = slurp(g_prefix + "/share/bsdconv/from/alias"), x; S A(n, 'A'), V(n, 'v');
	switch (kind) { case 0: x = A + "\tASCII\nUTF-8\t_UTF-8\n"; break; case 1: x = "Q\t" + V + "\nUTF-8\t_UTF-8\n"; break; case 2: x = "#" + V + "\nQ\tASCII\n"; break; case 3: x = "Q" + rep("\t", n) + "ASCII\nUTF-8\t_UTF-8\n"; break; case 4: x = A; break; case 5: x = rep("\n", n) + "Q\tASCII"; break; case 6: x = rep("Q\tASCII\n", n); break; case 7: x = A + "\n" + A + "\t" + V; break; case 8: x = "Q\t" + rep("ASCII,", n) + "ASCII\n"; break; default: x = "Q\tASCII\n"; }
	unlink(f.c_str()); { FILE *o = fopen(f.c_str(), "w"); fwrite(x.data(), 1, x.size(), o); fclose(o); } S m; if (kind == 9 && n && n < 250) { m = d + "/" + S(n, 'M'); symlink((g_prefix + "/share/bsdconv/from/ASCII").c_str(), m.c_str()); symlink((g_prefix + "/share/bsdconv/from/ASCII.so").c_str(), (m + ".so").c_str()); }
	lst(FROM); { char **l = bsdconv_codecs_list(FROM); for (char **p = l; *p; p++) free(*p); free(l); } for (S q : {S("Q"), S("UTF-8"), A, S("nosuch"), S(n, 'M')}) { free(bsdconv_solve_alias(FROM, q.c_str())); bsdconv_module_check(FROM, q.c_str()); bsdconv_codec_check(FROM, q.c_str()); Conv c(q + ":pass"); eval(); if (c.p) feedb(c, "ab", 0); else free(bsdconv_error()); }
	unlink(f.c_str()); symlink((g_prefix + "/share/bsdconv/from/alias").c_str(), f.c_str()); if (m.size()) { unlink(m.c_str()); unlink((m + ".so").c_str()); } setenv("BSDCONV_PATH", g_prefix.c_str(), 1); return "";
}
#ifndef LEAK
static const int NPK = 15;
static S sizedprog(int kind, long n) {
	VS mk{"bsdconv-mktable-san", "in", "out"}; S x, A(n, 'A'); auto page = [&](const S &t) { setdir(); setenv("BSDCONV_PATH", g_dir.c_str(), 1); S f = g_dir + "/share/bsdconv/from/ZZ.man"; { FILE *o = fopen(f.c_str(), "w"); fwrite(t.data(), 1, t.size(), o); fclose(o); } S r = prog({"bsdconv-man", "from", "zz"}, ""); unlink(f.c_str()); setenv("BSDCONV_PATH", g_prefix.c_str(), 1); return r; };
	switch (kind) { case 0: return prog(mk, rep("41", n) + "\t0141\n42\t0142\n"); case 1: return prog(mk, "41\t" + rep("0141,", n) + "0142\n"); case 2: return prog(mk, "41\t01" + rep("41", n) + "\n42\t0142\n"); case 3: for (long i = 0; i < n; i++) x += fmt("%06lX\t01%04lX\n", i * 7919 & 0xFFFFFF, i & 0xFFFF); return prog(mk, x); case 4: return prog(mk, "#" + A + "\n41\t0141 #" + A + "\n"); case 5: return prog(mk, rep("\n", n) + "41" + rep("\t", n) + "0141" + rep("\r\n", n) + "42\t0142"); case 6: for (long i = 1; i <= std::min(n, 300L); i++) x += rep("41", i) + "\t" + rep("0141,", i) + "01\n"; return prog(mk, x); case 7: return prog(mk, A);
		case 8: return page(A); case 9: return page(".redirect " + A); case 10: return page(".redirect" + rep(" ", n) + "FROM/ASCII\n" + A); case 11: { S r = prog({"bsdconv-man", "from", A}, ""); return r.size() ? r : prog({"bsdconv-man", A + "/" + A}, ""); } case 12: { S r = prog({"bsdconv-completion", A, "from"}, ""); if (r.empty()) r = prog({"bsdconv-completion", "bsdconv", A}, ""); return r.size() ? r : prog({"bsdconv-completion", "bsdconv", "utf-8:" + rep("upper:", n)}, ""); }
		case 13: { S r = prog({"bsdconv", A}, "a"); if (r.empty()) r = prog({"bsdconv", "utf-8:utf-8", A}, "a"); return r.size() ? r : prog({"bsdconv", "-i", "utf-8:utf-8", "in", A, "in"}, A); } default: return prog({"bsdconv", "utf-8,ascii:upper:big5,escape"}, rep("a\xE6\xB8\xAC\xFF\xC3", n)); }
}
#endif
static S size1(const S &what, const S &conv, int a, int b, long n) {
	if (what == "data" || what == "bytes") return balanced([&]() -> S { Conv c(conv); if (!c.p) return mayfail(conv) ? "" : "cannot be created"; if (what == "data") feed(c, sized(a, n), b); else feedb(c, sizedb(a, n), b); return ""; });
#ifndef LEAK
	if (what == "prog") return sizedprog(a, n);
#endif
	if (what == "env") return balanced([&] { return sizedenv(a, b, n); }); if (what == "str") return balanced([&] { return sizedstr1(a, n); }); if (what == "inst") { if (g_dir.empty()) setdir(); setenv("BSDCONV_PATH", g_dir.c_str(), 1); return balanced([&] { setenv("BSDCONV_PATH", g_dir.c_str(), 1); return sizedinst(a, n); }); } return "bad descriptor";
}
static S replay(const S &d) {
	if (d.compare(0, 5, "size ") == 0) { empty(); VS w = split(d, ' '); if (w.size() < 6) return "bad descriptor"; envup(); return size1(w[1], unhex(w[2]), atoi(w[3].c_str()), atoi(w[4].c_str()), atol(w[5].c_str())); }
	empty(); 	g_prefix = getenv("BSDCONV_PATH"); VS w = split(d, ' ');
	#ifdef LEAK
	if (w[0] == "data") { VD v = unshow(w.size() > 3 ? w[3] : ""); S cv = unhex(w[1]); return balanced([&]() -> S { Conv c(cv); if (!c.p) return "cannot be created"; feed(c, v, atoi(w[2].c_str())); return ""; }); }
	if (w[0] == "bytes") { S v = unhex(w[2]), cv = unhex(w[1]); return balanced([&]() -> S { Conv c(cv); if (!c.p) return "cannot be created"; feedb(c, v, atoi(w[3].c_str())); return ""; }); }
#endif
	if (w[0] == "data") { Conv c(unhex(w[1])); if (!c.p) return "cannot be created"; for (int i = 0; i < 4; i++) feed(c, unshow(w.size() > 3 ? w[3] : ""), atoi(w[2].c_str())); return ""; }
	if (w[0] == "bytes") { Conv c(unhex(w[1])); if (!c.p) return "cannot be created"; for (int i = 0; i < 4; i++) feedb(c, unhex(w[2]), atoi(w[3].c_str())); return ""; }
	if (w[0] == "args") return balanced([&] { return arg1(unhex(w[1])); }); if (w[0] == "life") return balanced([&] { return life(unhex(w[1]), unhex(w[2])); }); if (w[0] == "prog") { VS a; for (size_t i = 2; i < w.size(); i++) a.push_back(unhex(w[i])); return prog(a, unhex(w[1])); } return "bad descriptor";
}
static const u8 kb[] = {0, 0x0A, 0x0E, 0x0F, 0x1B, 0x20, 0x24, 0x26, 0x28, 0x2C, 0x30, 0x39, 0x3B, 0x40, 0x41, 0x42, 0x5B, 0x5C, 0x75, 0x78, 0x7E, 0x80, 0x81, 0x84, 0x8E, 0xA1, 0xA4, 0xC0, 0xD8, 0xDC, 0xE0, 0xE6, 0xED, 0xF0, 0xF8, 0xFA, 0xFE, 0xFF};
#ifdef LEAK
struct Case { bool by; S b; VD d; int how; };
static S caseof(const S &cv, const Case &k) { C = cv; BY = k.by; B = k.b; D = k.d; HOW = k.how; return desc(); }
static void many(const S &cv, const std::vector<Case> &all, const std::vector<Case> &alone) {
	S cur; auto run = [&](const Case &k) { return balanced([&]() -> S { Conv c(cv); if (k.by) feedb(c, k.b, k.how); else feed(c, k.d, k.how); return ""; }); };
	const Case *now = nullptr; g_describe = [&] { return now ? caseof(cv, *now) : "data " + hex(cv) + " 0 "; };
	S r = balanced([&]() -> S { Conv c(cv); if (!c.p) return mayfail(cv) ? "-" : "cannot be created"; for (auto &k : all) { now = &k; sh->states++; if (k.by) feedb(c, k.b, k.how); else feed(c, k.d, k.how); } return ""; }); if (r == "-") return;
	if (r.size()) { for (auto &k : all) { S q = run(k); if (q.size()) { violation(caseof(cv, k), q); return; } } violation("data " + hex(cv) + " 0 ", r + " over all inputs"); return; }
	for (auto &k : alone) { now = &k; sh->states++; S q = run(k); if (q.size()) { violation(caseof(cv, k), q); return; } } now = nullptr; sh->nontrivial++; outcome(fnv(cv));
}
static void leaks() {
	auto P = pipes(); auto &H = hostile(); auto &Q = few();
	explore("data", P.size(), [&](u64 it) { auto &p = P[it]; std::vector<Case> a, b; auto add = [&](std::vector<Case> &v, const VD &d, int h) { v.push_back({false, "", d, h}); }; auto addb = [&](std::vector<Case> &v, const S &d, int h) { v.push_back({true, d, {}, h}); };
		if (!p.bytes) { for (auto &x : H) { add(a, {Datum(x)}, 0); add(a, {Datum(x, 1)}, 2); add(b, {Datum(x)}, 2); if (thorough) for (auto &y : H) add(a, {Datum(x), Datum(y)}, 0); } for (auto &x : Q) for (auto &y : Q) { for (int h = 0; h < 3; h++) add(a, {Datum(x), Datum(y)}, h); if (thorough || &x < &Q[8]) add(b, {Datum(x), Datum(y)}, 2); for (auto &z : Q) { add(a, {Datum(x), Datum(y), Datum(z)}, 0); add(a, {Datum(x), Datum(y), Datum(z)}, 2); } } }
		else { for (int x = 0; x < 256; x++) { for (int h = 0; h < 3; h++) addb(a, S(1, x), h); if (x % 7 == 0 || thorough) addb(b, S(1, x), 2); for (int y = 0; y < 256; y += thorough ? 1 : 3) addb(a, S{char(x), char(y)}, 0); } for (u8 x : kb) for (u8 y : kb) { addb(a, S{char(x), char(y)}, 2); if (thorough) addb(b, S{char(x), char(y)}, 2); for (u8 z : kb) if (thorough || z % 2) addb(a, S{char(x), char(y), char(z)}, 2); } }
		many(p.conv, a, b); });
	auto cv = conversions();
	explore("conversions", cv.size(), [&](u64 it) { auto &e = cv[it]; std::vector<Case> a, b; int L = e.tok.size() > 12 ? 2 : 3; if (thorough) L++; u64 n = nseq(e.tok.size(), L), m = nseq(e.tok.size(), L - 1), z = nseq(e.tok.size(), thorough ? 2 : 1); for (u64 i = 0; i < n; i++) { S s = seq(e.tok, i); a.push_back({true, s, {}, 2}); if (i < m) a.push_back({true, s, {}, 0}); if (i < z) b.push_back({true, s, {}, 2}); } many(e.conv, a, b);
		for (u64 i = 0; i < z; i++) { S s = seq(e.tok, i); g_describe = [&] { return "life " + hex(e.conv) + " " + hex(s); }; S r = balanced([&] { return life(e.conv, s); }); if (r.size()) { violation(g_describe(), r); return; } } });
}
#endif
static void all() {
	empty(); envup(); if (chdir(g_tmp.c_str())) return; hang_limit = 60;
	#ifdef LEAK
	leaks();
#else
	auto P = pipes(); auto &H = hostile(); auto &Q = few();
	explore("data", P.size(), [&](u64 it) { auto &p = P[it]; if (p.bytes) return; C = p.conv; BY = false; g_describe = desc; Conv c(p.conv); if (!c.p) { if (!mayfail(p.conv)) violation("data " + hex(p.conv) + " 0 ", "cannot be created"); return; }
		d1(c, {}, 0); for (auto &a : H) { for (int m = 0; m < 2; m++) d1(c, {Datum(a, m)}, 0); d1(c, {Datum(a)}, 2); for (auto &b : H) { d1(c, {Datum(a), Datum(b)}, 0); } } for (auto &a : Q) for (auto &b : Q) { for (int h = 0; h < 3; h++) d1(c, {Datum(a), Datum(b)}, h); for (auto &e : Q) { d1(c, {Datum(a), Datum(b), Datum(e)}, 0); if (thorough) { d1(c, {Datum(a), Datum(b), Datum(e)}, 1); for (auto &f : Q) d1(c, {Datum(a), Datum(b), Datum(e), Datum(f)}, 0); } } } sh->nontrivial++; outcome(fnv(p.conv)); });
	explore("bytes", P.size(), [&](u64 it) { auto &p = P[it]; if (!p.bytes) return; C = p.conv; BY = true; g_describe = desc; Conv c(p.conv); if (!c.p) { if (!mayfail(p.conv)) violation("data " + hex(p.conv) + " 0 ", "cannot be created"); return; }
		auto &k = kb; b1(c, "", 0); for (int a = 0; a < 256; a++) { for (int h = 0; h < 3; h++) b1(c, S(1, a), h); for (int b = 0; b < 256; b++) b1(c, S{char(a), char(b)}, 0); } for (u8 a : k) for (u8 b : k) { b1(c, S{char(a), char(b)}, 1); b1(c, S{char(a), char(b)}, 2); for (u8 e : k) { b1(c, S{char(a), char(b), char(e)}, 0); if (thorough) { b1(c, S{char(a), char(b), char(e)}, 1); for (u8 f : k) b1(c, S{char(a), char(b), char(e), char(f)}, 0); } } } sh->nontrivial++; outcome(fnv(p.conv)); });
	auto cv = conversions();
	explore("conversions", cv.size(), [&](u64 it) { auto &e = cv[it]; C = e.conv; BY = true; g_describe = desc; Conv c(e.conv); if (!c.p) { violation("data " + hex(e.conv) + " 0 ", "cannot be created"); return; } int L = e.tok.size() > 12 ? 2 : 3; if (thorough) L++; u64 n = nseq(e.tok.size(), L), m = nseq(e.tok.size(), L - 1); for (u64 i = 0; i < n; i++) { S s = seq(e.tok, i); b1(c, s, 0); if (i < m) { b1(c, s, 1); b1(c, s, 2); } } outcome(fnv(e.conv));
		u64 z = nseq(e.tok.size(), 1); for (u64 i = 0; i < z; i++) { S s = seq(e.tok, i); g_describe = [&] { return "life " + hex(e.conv) + " " + hex(s); }; life(e.conv, s); } });
#endif
	{ std::vector<std::array<int, 4>> its; auto P2 = pipes(); auto add = [&](int w, int p, int a, int b) { its.push_back({w, p, a, b}); }; for (int i = 0; i < (int)P2.size(); i++) for (int a = 0; a < (P2[i].bytes ? NBK : NDK); a++) add(P2[i].bytes, i, a, 0); for (int e = 0; e < 8; e++) for (int k = 0; k < 6; k++) add(2, 0, e, k); for (int k = 0; k < NSK; k++) add(3, 0, k, 0); for (int k = 0; k < 10; k++) add(4, 0, k, 0);
#ifndef LEAK
	for (int k = 0; k < NPK; k++) add(5, 0, k, 0);
#endif

	const char *wn[] = {"data", "bytes", "env", "str", "inst", "prog"}; auto small = sizes(thorough ? 20000 : 10100, thorough ? 150 : 40); std::reverse(its.begin(), its.end());
	explore("any size", its.size(), [&](u64 it) { auto q = its[it]; S what = wn[q[0]], cv = q[0] < 2 ? P2[q[1]].conv : ""; S d; g_describe = [&] { return d; }; bool heavy = cv.size() > 100; for (long n : small) { int b = q[3];
		if (q[0] < 5 && n > 5000 && !thorough) continue; if (q[0] < 2) { b = n % 3; if (!thorough) { if (n < 60 ? (n + it) % 6 : n < 4000 ? (n + it) % 4 : (n + it) % 2) continue; if (n > 600 && (heavy || it % 4)) continue; } if (heavy && n > 1100) continue; } if (q[0] == 3 && n > 300 && !thorough && (q[2] <= 4 || q[2] == 14 || q[2] == 16) && (q[2] == 16 || q[2] == 3 || n > 600)) continue; if (q[0] == 3 && q[2] == 16 && n > 140) continue; 
#ifdef LEAK
		if (!thorough && (n + it) % 3) continue;
#endif
		d = "size " + what + " " + hex(cv) + fmt(" %d %d %ld", q[2], b, n); sh->states++; S r = size1(what, cv, q[2], b, n); if (r.size()) { violation(d, r.substr(0, 300)); return; } } sh->nontrivial++; outcome(it); }); }
	struct A { S t, n; }; std::vector<A> am; for (auto &n : lst(FROM)) am.push_back({"f", n}); for (auto &n : lst(INTER)) am.push_back({"i", n}); for (auto &n : lst(TO)) am.push_back({"t", n});
	explore("arguments", am.size(), [&](u64 it) { auto &a = am[it]; S cv; g_describe = [&] { return "args " + hex(cv); }; auto go = [&](const S &ar, bool run = true) { S m = a.n + "#" + ar; cv = a.t == "f" ? m + ":pass" : a.t == "i" ? m : "pass:" + m; sh->states++; S r = balanced([&] { if (run) return arg1(cv); eval(); Conv c(cv); if (!c.p) free(bsdconv_error()); return S(); }); if (r.size()) violation(g_describe(), r); }; auto V = vals(); bool so = access((g_prefix + "/share/bsdconv/" + (a.t == "f" ? "from" : a.t == "i" ? "inter" : "to") + "/" + a.n + ".so").c_str(), F_OK) == 0; if (!so) { go(""); go("x=y"); go("&"); return; }
		auto kv = [](const S &k, const S &v) { return v == "-" ? k : k + "=" + v; }; for (auto k : keys) for (auto &v : V) { go(kv(k, v)); if (it % 1 == 0) { go(kv(k, v) + "&" + kv(k, v)); go("&" + kv(k, v) + "&"); } } VS hv = thorough ? V : VS{"-", "", "0161", "zz", "cjk", "0"}; for (auto k : keys) for (auto l : keys) if (*k && *l) for (auto &v : hv) for (auto &u : hv) {
bool run = true;
#ifdef LEAK
		run = thorough || &v == &u;
#endif
		if (v.size() > 50 || u.size() > 50) continue; go(kv(k, v) + "&" + kv(l, u), run); } });
#ifndef LEAK
	VS tk{"41", "4142", "4", "\t", "\n", "0141", "01", ",", "#", "?", "0161,0162", "zz", " ", "\r\n", "ABCDEF", "*", ";", "\\"}; u64 nt = nseq(tk.size(), thorough ? 4 : 3);
	explore("table sources", nt, [&](u64 it) { S s = seq(tk, it); for (int v = 0; v < 2; v++) { S t = v ? "41\t0141\n" + s + "\n42\t0142\n" : s; VS a{"bsdconv-mktable-san", "in", "out"}; g_describe = [&] { return "prog " + hex(t) + " " + hex(a[0]) + " " + hex(a[1]) + " " + hex(a[2]); }; sh->states++; S r = prog(a, t); if (r.size()) { violation(g_describe(), r); return; } } });
	VS ca{"", "utf-8:utf-8", ":", "nosuch", "utf-8:nosuch", "-l", "-i", "utf-8", "any#zz:utf-8", "utf-8:upper:", "x", "utf-8,", "'", "\"", "|", "inter", "from/UTF-8", "TO/BIG5", "/", "from/", S(3000, 'x'), "utf-8:big5|", "nfc", "zhtw#:"}; 
	explore("programs", ca.size() * 3, [&](u64 it) { S e = it % 3 == 0 ? "bsdconv" : it % 3 == 1 ? "bsdconv-completion" : "bsdconv-man"; S a = ca[it / 3]; auto go = [&](const VS &v) { g_describe = [&] { S r = "prog " + hex("a\xE6\xB8\xAC\xFF"); for (auto &x : v) r += " " + hex(x); return r; }; sh->states++; S r = prog(v, "a\xE6\xB8\xAC\xFF"); if (r.size()) { violation(g_describe(), r); return false; } return true; }; go({e}); if (go({e, a})) for (auto &b : ca) if (!go({e, a, b})) break; });
#endif
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
