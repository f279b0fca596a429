// Common machinery of the explorers: real library in, every execution out.
//  * Conv      one instance of the real library, driven through the public API only
//  * explore() forks workers over a work list; crashes, sanitizer reports and hangs are
//              attributed to the case that was running, by a description made on demand
//  * report    every violation carries a one-line descriptor which --replay runs again
#pragma once
#include <bsdconv.h>
#undef FILTER
#include <atomic>
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

namespace mc {
typedef std::string S;
typedef std::vector<S> VS;
typedef uint64_t u64;
typedef uint32_t u32;
typedef unsigned char u8;

static inline S hex(const S &s) {
	static const char *d = "0123456789ABCDEF";
	S r; r.reserve(s.size() * 2);
	for (u8 c : s) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}
static inline S unhex(const S &s) {
	S r; int v = -1;
	for (char c : s) {
		int h = (c >= '0' && c <= '9') ? c - '0' : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : -1;
		if (h < 0) continue;
		if (v < 0) v = h; else { r += char(v * 16 + h); v = -1; }
	}
	return r;
}
static inline VS split(const S &s, char sep) {
	VS r; size_t p = 0;
	for (;;) { size_t q = s.find(sep, p); r.push_back(s.substr(p, q == S::npos ? q : q - p)); if (q == S::npos) break; p = q + 1; }
	return r;
}
static inline S join(const VS &v, const char *sep) { S r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }
static inline S fmt(const char *f, ...) {
	char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
	return S(b, n < 0 ? 0 : (n < (int)sizeof b ? n : sizeof b - 1));
}
static inline S utf8(u32 c) {
	S r;
	if (c < 0x80) r += char(c);
	else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
	else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
	return r;
}
// the typed datum of a code point: 01 + minimal big-endian bytes, NUL is 0100
static inline S uni(u32 c) {
	S r("\x01", 1);
	bool on = false;
	for (int sh = 24; sh >= 0; sh -= 8) { u8 b = c >> sh; if (b || on || sh == 0) { r += char(b); on = true; } }
	return r;
}
// -1 when the datum is no code point
static inline int64_t ununi(const S &d) {
	if (d.size() < 2 || d[0] != 1 || d.size() > 5) return -1;
	u32 v = 0; for (size_t i = 1; i < d.size(); i++) v = v << 8 | (u8)d[i];
	return v;
}
static inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull) { for (size_t i = 0; i < n; i++) h = (h ^ ((const u8 *)p)[i]) * 1099511628211ull; return h; }
static inline u64 fnv(const S &s, u64 h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

struct Datum {
	S d; u8 mark = 0;
	Datum() {}
	Datum(const S &s, u8 m = 0) : d(s), mark(m) {}
	bool operator==(const Datum &o) const { return d == o.d && mark == o.mark; }
	bool operator!=(const Datum &o) const { return !(*this == o); }
	bool operator<(const Datum &o) const { return d != o.d ? d < o.d : mark < o.mark; }
};
typedef std::vector<Datum> VD;
static inline S show(const VD &v) { S r; for (auto &x : v) { if (r.size()) r += ','; r += hex(x.d); if (x.mark) r += '!'; } return r; }
static inline VD unshow(const S &s) { VD r; if (s.empty()) return r; for (auto &x : split(s, ',')) { bool m = x.size() && x.back() == '!'; r.push_back(Datum(unhex(x), m)); } return r; }

typedef std::map<S, u64> Ctr;
struct Res {
	S out; Ctr ctr;
	bool operator==(const Res &o) const { return out == o.out && ctr == o.ctr; }
	bool operator!=(const Res &o) const { return !(*this == o); }
	S show() const { S r = hex(out) + " {"; for (auto &c : ctr) if (c.second) r += c.first + "=" + std::to_string(c.second) + " "; return r + "}"; }
};

// the sizes at which something may end: small ones, and both sides of powers of two and ten
static inline std::vector<long> sizes(long max, long small = 34) { std::set<long> r; for (long i = 0; i <= small; i++) r.insert(i); for (long b : {2L, 10L}) for (long x = b; x <= max + 1; x *= b) for (long d = -1; d <= 1; d++) r.insert(x + d); while (r.size() && *r.rbegin() > max) r.erase(std::prev(r.end())); return std::vector<long>(r.begin(), r.end()); }

static void *g_empty = nullptr; // what empty data point to
// One instance of the real library.
struct Conv {
	bsdconv_instance *p = nullptr; S conv;
	std::vector<void *> keep;
	size_t *ie = nullptr, *oe = nullptr;
	Conv() {}
	Conv(const S &c) { open(c); }
	Conv(const Conv &) = delete;
	~Conv() { close(); }
	bool open(const S &c) { close(); conv = c; p = bsdconv_create(c.c_str()); if (p) { ie = bsdconv_counter(p, "IERR"); oe = bsdconv_counter(p, "OERR"); } return p; }
	void close() { if (p) bsdconv_destroy(p); p = nullptr; drop(); }
	void drop() { for (void *k : keep) free(k); keep.clear(); }
	void reopen() { S c = conv; open(c); }
	void reset() { bsdconv_init(p); bsdconv_counter_reset(p, NULL); drop(); }
	void set_input(const S &d, bool owned = true, u8 extra = 0) {
		if (d.empty() && g_empty) { p->input.data = g_empty; p->input.len = 0; p->input.next = NULL; p->input.flags = extra; return; }
		void *b = malloc(d.size() ? d.size() : 1); memcpy(b, d.data(), d.size());
		p->input.data = b; p->input.len = d.size(); p->input.next = NULL; p->input.flags = (owned ? F_FREE : 0) | extra;
		if (!owned) keep.push_back(b);
	}
	// a list of data in one call
	void set_list(const VD &v, bool owned = true) {
		if (v.empty()) { p->input.data = NULL; p->input.len = 0; p->input.flags = 0; p->input.next = NULL; return; }
		set_input(v[0].d, owned, v[0].mark ? F_MARK : 0);
		data_rt *t = &p->input;
		for (size_t i = 1; i < v.size(); i++) {
			data_rt *n = (data_rt *)malloc(sizeof *n);
			n->data = malloc(v[i].d.size() ? v[i].d.size() : 1); memcpy(n->data, v[i].d.data(), v[i].d.size());
			n->len = v[i].d.size(); n->next = NULL; n->flags = (owned ? F_FREE : 0) | (v[i].mark ? F_MARK : 0);
			if (!owned) keep.push_back(n->data);
			if (v[i].d.empty() && g_empty) { if (owned) free(n->data); n->data = g_empty; n->flags &= ~F_FREE; }
			t->next = n; t = n;
		}
	}
	void go(S &out) {
		p->output_mode = BSDCONV_AUTOMALLOC; p->output.len = 0; p->output.data = NULL;
		bsdconv(p);
		out.append((char *)p->output.data, p->output.len);
		free(p->output.data);
	}
	// output data with their boundaries, through BSDCONV_PASS into a list that is ours
	void go_list(VD &out) {
		bsdconv_instance sink; memset(&sink, 0, sizeof sink);
		p->output_mode = BSDCONV_PASS; p->output.data = &sink; p->output.len = 0;
		bsdconv(p);
		if (sink.input.data || sink.input.next) {
			data_rt *d = &sink.input;
			while (d) {
				out.push_back(Datum(S((char *)d->data, d->len), d->flags & F_MARK ? 1 : 0));
				if (d->flags & F_FREE) free(d->data);
				data_rt *n = d->next; if (d != &sink.input) free(d); d = n;
			}
		}
	}
	Ctr counters() { Ctr c; for (auto *e = p->counter; e; e = e->next) c[e->key] = e->val; return c; }
	Res run(const S &in) { Res r; reset(); set_input(in); p->flush = 1; go(r.out); r.ctr = counters(); return r; }
	// fast variant: output only + IERR/OERR
	void run1(const S &in, S &out, size_t &i, size_t &o) { reset(); set_input(in); p->flush = 1; out.clear(); go(out); i = *ie; o = *oe; }
	VD run_list(const VD &in) { VD r; reset(); set_list(in); p->flush = 1; go_list(r); return r; }
	// bytes in, data with boundaries out
	VD decode(const S &in) { VD r; reset(); set_input(in); p->flush = 1; go_list(r); return r; }
	// data in, bytes out
	S encode(const VD &in) { S r; reset(); set_list(in); p->flush = 1; go(r); return r; }
};

// ---------------------------------------------------------------- shared run state
enum { W = 8, MAXV = 64, DLEN = 6000 };
struct Viol { char desc[DLEN]; char detail[DLEN]; };
struct Shared {
	std::atomic<u64> next, evals, states, trans, nontrivial, distinct, reuse;
	std::atomic<int> nv, stop;
	struct { std::atomic<u64> beat; std::atomic<u64> item; char desc[DLEN]; std::atomic<int> has; } slot[W];
	Viol v[MAXV];
	std::atomic<u64> bitmap[1 << 19]; // 2^25 bits
	std::atomic<int> ns;
	char sample[12][400];
	u64 work;
};
static Shared *sh;
static int g_slot = -1;
static std::function<S()> g_describe;
static bool thorough = false;
static S g_out, g_tmp, g_data;
static VS g_args;
static double g_deadline = 0;

static inline void eval(u64 n = 1) { sh->evals.fetch_add(n, std::memory_order_relaxed); if (g_slot >= 0) sh->slot[g_slot].beat.fetch_add(1, std::memory_order_relaxed); }
static inline void beat() { if (g_slot >= 0) sh->slot[g_slot].beat.fetch_add(1, std::memory_order_relaxed); }
static inline void outcome(u64 h) { h ^= h >> 29; u64 b = h & ((1u << 25) - 1), m = 1ull << (b & 63); auto &w = sh->bitmap[b >> 6]; if (!(w.load(std::memory_order_relaxed) & m)) if (!(w.fetch_or(m) & m)) sh->distinct++; }
static inline void sample(const S &s) { if (sh->ns.load(std::memory_order_relaxed) >= 12) return; int i = sh->ns++; if (i < 12) snprintf(sh->sample[i], sizeof sh->sample[0], "%s", s.c_str()); else sh->ns = 12; }
static inline void violation(const S &desc, const S &detail) {
	int i = sh->nv++;
	if (i < MAXV) { snprintf(sh->v[i].desc, DLEN, "%s", desc.c_str()); snprintf(sh->v[i].detail, DLEN, "%s", detail.c_str()); }
	if (i >= 24) sh->stop = 1;
}
static inline bool stopping() { return sh->stop.load(std::memory_order_relaxed); }

static void on_death() {
	if (g_slot < 0) return;
	auto &s = sh->slot[g_slot];
	if (s.has) return;
	s.has = 1;
	if (g_describe) { S d = g_describe(); snprintf(s.desc, DLEN, "%s", d.c_str()); }
}
static void on_signal(int sig) { on_death(); signal(sig, SIG_DFL); if (sig == SIGTERM) _exit(143); raise(sig); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static void worker_init(int i) {
	g_slot = i;
	static char stk[1 << 18]; stack_t ss = {stk, 0, sizeof stk}; sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	sigaction(SIGTERM, &sa, NULL);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	else {
		for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, NULL);
		rlimit r = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &r);
	}
	rlimit c = {0, 0}; setrlimit(RLIMIT_CORE, &c);
}
static S status_text(int st, bool hung) {
	if (hung) return "does not terminate";
	if (WIFSIGNALED(st)) return fmt("crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	if (WEXITSTATUS(st) == 77) return "sanitizer report";
	return fmt("exit status %d", WEXITSTATUS(st));
}
// CPU seconds used so far by a process and everything below it; run: whether any of them is running or waits for a disk or a CPU
static double tree_cpu(pid_t top, bool &run) {
	std::map<pid_t, std::pair<pid_t, double>> ps; std::map<pid_t, char> stt; run = false;
	if (DIR *d = opendir("/proc")) {
		while (dirent *e = readdir(d)) {
			if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
			FILE *f = fopen((S("/proc/") + e->d_name + "/stat").c_str(), "r"); if (!f) continue;
			char b[1024]; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
			char *c = strrchr(b, ')'), st; int pp; unsigned long ut, stm; long cu, cs;
			if (c && sscanf(c + 2, "%c %d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %ld %ld", &st, &pp, &ut, &stm, &cu, &cs) == 6) { pid_t id = atoi(e->d_name); ps[id] = {pp, double(ut + stm + cu + cs) / sysconf(_SC_CLK_TCK)}; stt[id] = st; }
		}
		closedir(d);
	}
	double r = 0; for (auto &x : ps) { pid_t q = x.first; for (int k = 0; k < 50 && q != top && ps.count(q); k++) q = ps[q].first; if (q == top) { r += x.second.second; if (stt[x.first] == 'R' || stt[x.first] == 'D') run = true; } }
	return r;
}
static double hang_limit = 40, g_t0 = 0;
static int g_hangs = 0;
static S g_phase;

// Runs fn(item) for every item in [0,n) on W forked workers, items handed out in order.
static inline void explore(const S &name, u64 n, std::function<void(u64)> fn, int workers = W) {
	if (stopping()) return;
	double t0 = now(); u64 e0 = sh->evals;
	g_phase = name;
	sh->next = 0;
	pid_t pid[W]; u64 lastbeat[W]; double since[W], look[W], cpu0[W]; int idle[W]; bool hung[W];
	int live = 0;
	fflush(NULL);
	auto spawn = [&](int i) {
		sh->slot[i].has = 0; sh->slot[i].desc[0] = 0; sh->slot[i].item = ~0ull;
		pid_t p = fork();
		if (p == 0) {
			worker_init(i);
			for (;;) {
				u64 k = sh->next++;
				if (k >= n || stopping()) break;
				sh->slot[i].item = k;
				fn(k);
				g_describe = nullptr;
			}
			fflush(NULL);
			_exit(0);
		}
		pid[i] = p; lastbeat[i] = sh->slot[i].beat; since[i] = now(); hung[i] = false; look[i] = 0; live++;
	};
	for (int i = 0; i < workers; i++) spawn(i);
	while (live) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p <= 0) {
			usleep(3000);
			double t = now();
			if (sh->nv && !thorough && t - g_t0 > 300) sh->stop = 1;
			for (int i = 0; i < workers; i++) if (pid[i]) {
				u64 b = sh->slot[i].beat;
				if (b != lastbeat[i]) { lastbeat[i] = b; since[i] = t; look[i] = 0; }
				else if (t - since[i] > hang_limit / 2) {
					// a worker hangs if it uses up CPU time without getting anywhere, or waits for something that never comes; one that is merely not given the CPU does not
					if (!hung[i]) {
						if (t - look[i] < 1) continue;
						bool run; double c = tree_cpu(pid[i], run);
						if (look[i] == 0) { cpu0[i] = c; idle[i] = 0; }
						look[i] = t; idle[i] = run ? 0 : idle[i] + 1;
						if (t - since[i] <= hang_limit || (c - cpu0[i] < hang_limit / 4 && idle[i] < 15 && t - since[i] < 400)) continue; hung[i] = true; since[i] = t - hang_limit / 2 + 5; kill(pid[i], SIGTERM); }
					else kill(pid[i], SIGKILL);
				}
			}
			continue;
		}
		for (int i = 0; i < workers; i++) if (pid[i] == p) {
			pid[i] = 0; live--;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
			S d = sh->slot[i].desc[0] ? S(sh->slot[i].desc) : fmt("%s item %llu (no description)", name.c_str(), (unsigned long long)sh->slot[i].item);
			violation(d, status_text(st, hung[i]));
			if (hung[i] && ++g_hangs >= 2) sh->stop = 1; // every further one costs as much again
			if (!stopping()) spawn(i); // carry on with the next item
		}
	}
	fprintf(stderr, "  [%s] %llu items, %llu executions, %.1fs\n", name.c_str(), (unsigned long long)n, (unsigned long long)(sh->evals - e0), now() - t0);
}

// runs one case in a child of its own; "" when it holds, else what is wrong
static inline S isolated(std::function<S()> fn, double limit = 60) {
	int fd[2]; if (pipe(fd)) return "pipe";
	fflush(NULL);
	pid_t p = fork();
	if (p == 0) {
		::close(fd[0]); alarm((unsigned)limit * 2); rlimit cl = {(rlim_t)limit, (rlim_t)limit + 5}; setrlimit(RLIMIT_CPU, &cl); g_slot = -1; if (!__sanitizer_set_death_callback) { rlimit m = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &m); }
		rlimit c = {0, 0}; setrlimit(RLIMIT_CORE, &c);
		S r = fn(); if (write(fd[1], r.data(), r.size()) < 0) {}
		_exit(0);
	}
	::close(fd[1]); S r; char b[4096]; ssize_t k;
	while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, k);
	::close(fd[0]); int st; waitpid(p, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) return status_text(st, WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU)) + (r.size() ? " after: " + r : "");
	return r;
}

static inline S jesc(const S &s) {
	S r;
	for (u8 c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += char(c); }
	return r;
}
static std::map<S, u64> g_extra; // further measured numbers for the evidence
static S g_rule;

static inline void finish() {
	FILE *f = fopen(g_out.c_str(), "w");
	fprintf(f, "{\"evals\":%llu,\"states\":%llu,\"trans\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"reuse_divergence\":%llu,", (unsigned long long)sh->evals, (unsigned long long)sh->states, (unsigned long long)sh->trans,
		(unsigned long long)sh->nontrivial, (unsigned long long)sh->distinct, (unsigned long long)sh->reuse);
	for (auto &e : g_extra) fprintf(f, "\"%s\":%llu,", jesc(e.first).c_str(), (unsigned long long)e.second);
	fprintf(f, "\"stopped\":%d,\"samples\":[", (int)sh->stop);
	int n = std::min(12, (int)sh->ns);
	for (int i = 0; i < n; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(sh->sample[i]).c_str());
	fprintf(f, "],\"violations\":[");
	n = std::min((int)MAXV, (int)sh->nv);
	for (int i = 0; i < n; i++) fprintf(f, "%s{\"desc\":\"%s\",\"detail\":\"%s\"}", i ? "," : "", jesc(sh->v[i].desc).c_str(), jesc(sh->v[i].detail).c_str());
	fprintf(f, "]}\n");
	fclose(f);
}

// argv: OUT TIER [--data FILE] [--tmp DIR] [--replay DESC]
static inline int start(int argc, char **argv, std::function<void()> all, std::function<S(const S &)> replay) {
	if (argc < 3) { fprintf(stderr, "usage\n"); return 2; }
	setvbuf(stdout, NULL, _IOLBF, 0);
	g_out = argv[1]; thorough = !strcmp(argv[2], "thorough");
	S rep; bool dorep = false;
	for (int i = 3; i < argc; i++) {
		S a = argv[i];
		if (a == "--data") g_data = argv[++i];
		else if (a == "--tmp") g_tmp = argv[++i];
		else if (a == "--replay") { rep = argv[++i]; dorep = true; }
		else g_args.push_back(a);
	}
	sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) { perror("mmap"); return 2; }
	signal(SIGPIPE, SIG_IGN);
	if (dorep) {
		S r = isolated([&] { return replay(rep); }, 120);
		printf("%s\n", r.empty() ? "holds" : ("FAILS: " + r).c_str());
		return r.empty() ? 0 : 1;
	}
	g_t0 = now();
	all();
	double t1 = now();
	// every violation is replayed alone before it is reported
	int n = std::min((int)MAXV, (int)sh->nv);
	for (int i = 0; i < n; i++) {
		if (now() - t1 > 100) break;
		S r = isolated([&] { return replay(sh->v[i].desc); }, 45);
		S d = sh->v[i].detail;
		if (r.empty()) d = "(only within the exploration) " + d;
		else d = r;
		snprintf(sh->v[i].detail, DLEN, "%s", d.c_str());
	}
	finish();
	return 0;
}
} // namespace mc
using namespace mc;
