// P16: `bsdconv CONV -i FILE...` under ptrace: every system call of the run as kill point and as failing or short call
// (alone, and in pairs), the named files looked at after every system call.
#include "mc.hpp"
#include <sys/ptrace.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <cerrno>
struct File { S old; int mode; int uid; };
struct Conf { S conv; std::vector<File> f; };
static std::vector<Conf> confs;
static S g_prefix, g_dir;
static S slurp(const S &p) { int f = open(p.c_str(), O_RDONLY); if (f < 0) return "\x01missing"; S r; char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) r.append(b, n); close(f); return r; }
static S text(size_t n) { static const char *p[] = {"a", "\xC3\xA9", "\xE6\xB8\xAC", "\xF0\xA0\x80\x80", "\n", "Z"}; S r; for (size_t i = 0; r.size() < n; i++) r += p[(i * 7 + i / 5) % 6]; while (r.size() > n) { while (((u8)r.back() & 0xC0) == 0x80) r.pop_back(); r.pop_back(); } return r + S(n - r.size(), 'q'); }
static S u16(const S &t) { Conv c("utf-8:utf-16le"); return c.run(t).out; }
static void mk() {
	const char *g = "utf-8:utf-16le", *s = "utf-16le:utf-8";
	confs.push_back({g, {{text(10), 0644, 0}}}); confs.push_back({g, {{"", 0600, 0}}});
	for (size_t n : {1023, 1024, 1025, 4096}) confs.push_back({g, {{text(n), 0640, 0}}});
	confs.push_back({s, {{u16(text(3000)), 0755, 0}}}); confs.push_back({"ascii:utf-8", {{text(50), 04711, 0}}}); confs.push_back({"utf-8:nfd:big5", {{text(2500), 0444, 1234}}});
	confs.push_back({"utf-8:upper:utf-8", {{text(40), 0644, 0}, {text(1030), 0600, 77}, {"x", 0666, 0}}}); confs.push_back({g, {{text(20000), 0644, 0}}});
	if (thorough) { for (size_t n : {1, 2, 2047, 2048, 2049, 4095, 4097, 8192}) confs.push_back({g, {{text(n), 0644, 5}}}); confs.push_back({"utf-8:utf-32be|utf-32be:utf-8", {{text(5000), 0644, 0}, {text(100), 0644, 0}}}); confs.push_back({"pass:null", {{text(3000), 0644, 0}}}); }
}
// fault: at the n-th system call after exec
struct Fault { int n; char k; int v; }; // k: 'k' kill before it, 'K' kill after it, 'e' fails with v, 's' transfers at most v bytes (v<0: all but -v)
typedef std::vector<Fault> FV;
static S show(int c, const FV &f) { S r = fmt("%d", c); for (auto &x : f) r += fmt(" %d%c%d", x.n, x.k, x.v); return r; }
struct Call { long nr; u64 a0, a2; };
static bool chownable() { static int ok = -1; if (ok < 0) { S p = g_dir + "/.own"; int f = open(p.c_str(), O_CREAT | O_WRONLY, 0600); ok = fchown(f, 1234, 0) == 0; close(f); unlink(p.c_str()); } return ok; }
// one run; returns what is wrong; trace: the system calls made
static S run(int ci, const FV &fv, std::vector<Call> *trace = nullptr) {
	const Conf &c = confs[ci]; if (g_dir.empty() || g_dir.find(fmt("/c%d", (int)getpid())) == S::npos) { g_dir = g_tmp + fmt("/c%d", (int)getpid()); mkdir(g_dir.c_str(), 0755); }
	S d = g_dir + "/d"; mkdir(d.c_str(), 0755); VS want; size_t nf = c.f.size(); { Conv v(c.conv); for (auto &f : c.f) want.push_back(v.run(f.old).out); }
	for (size_t i = 0; i < nf; i++) { S p = d + fmt("/f%zu", i); unlink(p.c_str()); int f = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600); if (f < 0 || write(f, c.f[i].old.data(), c.f[i].old.size()) != (ssize_t)c.f[i].old.size()) return "cannot prepare"; if (chownable()) fchown(f, c.f[i].uid, 0); fchmod(f, c.f[i].mode); close(f); }
	S err = g_dir + "/err"; pid_t p = fork();
	if (p == 0) {
		signal(SIGALRM, SIG_DFL); signal(SIGTERM, SIG_DFL); { rlimit cl = {15, 20}; setrlimit(RLIMIT_CPU, &cl); } alarm(100); if (chdir(d.c_str())) _exit(99); int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), z = open("/dev/null", O_RDWR); dup2(z, 0); dup2(e, 1); dup2(e, 2); close(e); close(z); umask(0022);
		std::vector<char *> av; S exe = g_prefix + "/bin/bsdconv"; av.push_back((char *)exe.c_str()); av.push_back((char *)c.conv.c_str()); av.push_back((char *)"-i"); VS nm; for (size_t i = 0; i < nf; i++) nm.push_back(fmt("f%zu", i)); for (auto &n : nm) av.push_back((char *)n.c_str()); av.push_back(nullptr);
		personality(ADDR_NO_RANDOMIZE); ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); execv(exe.c_str(), av.data()); _exit(98);
	}
	int st; waitpid(p, &st, 0); ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC); eval();
	int n = -1; bool in = false, started = false; u64 shown = 0; int pend = 0; S r; bool killed = false, chm = false, cho = false, unl = false, errw = false, stored = true; std::vector<int> isnew(nf, -1);
	auto look = [&] { for (size_t i = 0; i < nf && r.empty(); i++) { S g = slurp(d + fmt("/f%zu", i)); if (g != c.f[i].old && g != want[i]) r = fmt("after system call %d file %zu is neither the old nor the new one: %zu bytes", n, i, g.size()); } };
	std::set<int> watch; long cur = 0; ptrace(PTRACE_SYSCALL, p, 0, 0);
	for (;;) {
		if (waitpid(p, &st, 0) < 0 || WIFEXITED(st) || WIFSIGNALED(st)) break; int sig = WSTOPSIG(st);
		if (sig == SIGTRAP && (st >> 8) == (SIGTRAP | PTRACE_EVENT_EXEC << 8)) { started = true; in = true; ptrace(PTRACE_SYSCALL, p, 0, 0); continue; } // exit of execve follows
		if (sig == (SIGTRAP | 0x80)) {
			user_regs_struct g; ptrace(PTRACE_GETREGS, p, 0, &g);
			if (!started) { in = !in; ptrace(PTRACE_SYSCALL, p, 0, 0); continue; }
			if (!in && g.orig_rax == SYS_getrandom) { in = true; cur = SYS_getrandom; pend = 0; ptrace(PTRACE_SYSCALL, p, 0, 0); continue; } // how often a random name is drawn is not determined
			if (!in) { in = true; n++; sh->trans++; cur = g.orig_rax; pend = 0; if (trace) trace->push_back({cur, g.rdi, g.rdx});
				bool kill1 = false; for (auto &f : fv) if (f.n == n && (cur != SYS_exit_group || f.k == 'k')) { if (f.k == 'k') kill1 = true; else if (f.k == 'K') pend = 1; else if (f.k == 'e') { pend = -f.v; g.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &g); if (cur == SYS_fchmod) chm = true; if (cur == SYS_fchown) cho = true; if (cur == SYS_unlink || cur == SYS_unlinkat) unl = true; if ((cur == SYS_write || cur == SYS_writev) && g.rdi == 2) errw = true; } else if (f.k == 's') { long v = f.v < 0 ? (long)g.rdx + f.v : f.v; if (v > 0 && v < (long)g.rdx) { g.rdx = v; ptrace(PTRACE_SETREGS, p, 0, &g); } } }
				if (kill1) { killed = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
			} else { in = false; if (pend < 0) { g.rax = (long)pend; ptrace(PTRACE_SETREGS, p, 0, &g); } if (n >= 0 && cur != SYS_read && cur != SYS_mmap && cur != SYS_fstat && cur != SYS_mprotect && cur != SYS_pread64) look(); if (pend == 1) { killed = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; } pend = 0; }
			ptrace(PTRACE_SYSCALL, p, 0, 0); continue;
		}
		if (sig == SIGSTOP || sig == SIGTRAP) sig = 0; ptrace(PTRACE_SYSCALL, p, 0, (void *)(long)sig);
	}
	if (r.empty()) { n = -2; look(); } int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; S e = slurp(err);
	if (r.empty() && !killed && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) r = "does not terminate";
	bool nomem = false; for (auto &f : fv) nomem |= f.k == 'e' && f.v == ENOMEM; if (r.empty() && !killed && WIFSIGNALED(st) && !nomem) r = fmt("dies of signal %d", WTERMSIG(st));
	VS left; if (DIR *q = opendir(d.c_str())) { while (auto *x = readdir(q)) if (x->d_name[0] != '.') { S nm = x->d_name; if (nm.size() > 2) left.push_back(nm); } closedir(q); }
	if (r.empty() && code >= 0) {
		size_t k = 0; while (k < nf && slurp(d + fmt("/f%zu", k)) == want[k]) k++; size_t o = nf; while (o > 0 && slurp(d + fmt("/f%zu", o - 1)) == c.f[o - 1].old) o--;
		if (code == 0 && k < nf) r = fmt("exit status 0, but file %zu is still the old one", k); if (code && o > k) r = "files converted after one which failed"; bool diff = false; for (size_t i = 0; i < nf; i++) diff |= want[i] != c.f[i].old; if (code && k == nf && o == nf && diff) r = "failure reported although all files are converted";
		if (code && e.empty() && !errw) r = "fails without saying so"; if (r.empty() && left.size() && !unl) r = "leaves " + left[0] + " behind";
		if (r.empty()) for (size_t i = 0; i < nf; i++) { struct stat s; if (stat((d + fmt("/f%zu", i)).c_str(), &s)) continue; if ((s.st_mode & 07777) != (mode_t)c.f[i].mode && !chm) r = fmt("file %zu has mode %o instead of %o", i, s.st_mode & 07777, c.f[i].mode); if (chownable() && (int)s.st_uid != c.f[i].uid && !cho) r = fmt("file %zu belongs to %d instead of %d", i, (int)s.st_uid, c.f[i].uid); }
		outcome(code * 31 + k * 7 + ci * 1001 + left.size() * 3 + (unl + 2 * chm + 4 * cho) * 100003);
	} else outcome(9 + ci * 1001 + left.size() * 3 + n);
	for (auto &x : left) unlink((d + "/" + x).c_str());
	return r;
}
static std::vector<std::pair<char, int>> kinds(const Call &c) {
	std::vector<std::pair<char, int>> r{{'k', 0}, {'K', 0}}; VS dummy; auto e = [&](std::initializer_list<int> l) { for (int x : l) r.push_back({'e', x}); };
	switch (c.nr) {
		case SYS_openat: case SYS_open: e({ENOENT, EACCES, EMFILE, ENOSPC, EIO}); break; case SYS_read: e({EIO, EINTR}); r.push_back({'s', 1}); r.push_back({'s', -1}); break; case SYS_write: e({ENOSPC, EIO, EINTR, EPIPE}); for (int v : {1, 512, 1024, -1}) r.push_back({'s', v}); break;
		case SYS_rename: case SYS_renameat: case SYS_renameat2: e({EACCES, EXDEV, ENOSPC, EIO}); break; case SYS_mmap: case SYS_brk: case SYS_mremap: e({ENOMEM}); break; case SYS_exit_group: case SYS_exit: break; case SYS_close: e({EIO, ENOSPC}); break; default: e({EPERM, EIO}); }
	return r;
}
static FV parse(const S &d, int &c) { VS w = split(d, ' '); c = atoi(w[0].c_str()); FV f; for (size_t i = 1; i < w.size(); i++) { Fault x; sscanf(w[i].c_str(), "%d%c%d", &x.n, &x.k, &x.v); f.push_back(x); } return f; }
static S replay(const S &d) { g_prefix = getenv("BSDCONV_PATH"); mk(); if (d.compare(0, 2, "t ") == 0) { thorough = true; confs.clear(); mk(); } int c; FV f = parse(d.compare(0, 2, "t ") == 0 ? d.substr(2) : d, c); return run(c, f); }
static bool one(int c, const FV &f) { static int cc; static FV ff; cc = c; ff = f; g_describe = [] { return S(thorough ? "t " : "") + show(cc, ff); }; sh->states++; S r = run(c, f); if (r.size()) violation(S(thorough ? "t " : "") + show(c, f), r); return !stopping(); }
static void all() {
	g_prefix = getenv("BSDCONV_PATH"); mk(); struct It { int c; int n; std::vector<std::pair<char, int>> k; }; std::vector<It> items; std::vector<std::vector<Call>> tr(confs.size());
	for (size_t c = 0; c < confs.size(); c++) { S r = run(c, {}, &tr[c]); if (r.size()) { violation(S(thorough ? "t " : "") + fmt("%zu", c), r); continue; } if (tr[c].size() < 20) { violation(fmt("%zu", c), "system calls cannot be followed"); return; } for (size_t n = 0; n < tr[c].size(); n++) items.push_back({(int)c, (int)n, kinds(tr[c][n])}); g_extra["system calls in fault-free runs"] += tr[c].size(); }
	explore("one fault at every system call", items.size(), [&](u64 it) { auto &x = items[it]; for (auto &k : x.k) if (!one(x.c, {{x.n, k.first, k.second}})) return; sh->nontrivial++; if (it % 397 == 11) sample(show(x.c, {{x.n, x.k.back().first, x.k.back().second}})); });
	// pairs: from the first system call on the file itself on
	struct P { int c, n; std::pair<char, int> k; }; std::vector<P> ps;
	for (size_t c = 0; c < confs.size(); c++) { auto &t = tr[c]; if (t.empty() || (!thorough && c != 0 && c != 4 && c != 9)) continue; size_t from = t.size(); for (size_t n = 0; n < t.size(); n++) if (t[n].nr == SYS_fchmod || t[n].nr == SYS_fchown) { from = n; break; } size_t lo = from > 14 ? from - 14 : 0; for (size_t n = lo; n < t.size(); n++) for (auto &k : kinds(t[n])) if (k.first == 'e' || k.first == 's') ps.push_back({(int)c, (int)n, k}); }
	explore("two faults", ps.size(), [&](u64 it) { auto &x = ps[it]; std::vector<Call> t; FV f{{x.n, x.k.first, x.k.second}}; run(x.c, f, &t); for (size_t n = x.n + 1; n < t.size(); n++) { auto ks = kinds(t[n]); for (size_t i = 0; i < ks.size(); i++) { if (!thorough && ks[i].first == 'e' && i > 4) continue; FV g = f; g.push_back({(int)n, ks[i].first, ks[i].second}); if (!one(x.c, g)) return; } } sh->nontrivial++; });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
