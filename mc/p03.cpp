// P03: whatever way output is taken, and however the ways are mixed, the same bytes are delivered;
// a descriptor that takes less than offered loses nothing; feeding one instance to another is the '|' conversion.
#include "convs.hpp"
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
// ---- a descriptor of our own: write() on it follows a script (0 = take all, n = take n, 99 = EINTR)
static const int FAKEFD = 7777;
static S fd_got; static std::vector<int> fd_script; static size_t fd_pos;
extern "C" ssize_t write(int fd, const void *b, size_t n) {
	if (fd != FAKEFD) return syscall(SYS_write, fd, b, n);
	int a = fd_pos < fd_script.size() ? fd_script[fd_pos] : 0; fd_pos++;
	if (a == 99) { errno = EINTR; return -1; }
	size_t k = a && (size_t)a < n ? a : n;
	fd_got.append((const char *)b, k); return k;
}
enum { M_AUTO, M_AUTOX, M_FILE, M_FD, M_HOLD, M_PRE, M_QUERY, M_PASS, NM };
static const char *MN = "axfdhpql";
// one library call with the input already set; delivers into out
static S call(Conv &c, int m, size_t bs, S &out) {
	auto *p = c.p; static thread_local char buf[1 << 16];
	switch (m) {
		case M_AUTO: c.go(out); break;
		case M_AUTOX: // room asked for after the data
			p->output_mode = BSDCONV_AUTOMALLOC; p->output.data = NULL; p->output.len = 3; bsdconv(p);
			memset((char *)p->output.data + p->output.len, 0x55, 3); out.append((char *)p->output.data, p->output.len); free(p->output.data); break;
		case M_FILE: { char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n); p->output_mode = BSDCONV_FILE; p->output.data = f; bsdconv(p); fclose(f); out.append(b, n); free(b); break; }
		case M_FD: fd_got.clear(); fd_pos = 0; p->output_mode = BSDCONV_FD; p->output.data = (void *)(intptr_t)FAKEFD; bsdconv(p); out += fd_got; break;
		case M_HOLD: p->output_mode = BSDCONV_HOLD; bsdconv(p); break;
		case M_PRE: p->output_mode = BSDCONV_PREMALLOCED; p->output.data = buf; p->output.len = bs; memset(buf, 0xAA, bs + 1); bsdconv(p);
			if (p->output.len > bs || (u8)buf[bs] != 0xAA) return "writes past the caller's buffer";
			out.append(buf, p->output.len); break;
		case M_QUERY: p->output_mode = BSDCONV_PREMALLOCED; p->output.data = NULL; p->output.len = 0; bsdconv(p); break;
		case M_PASS: { VD l; c.go_list(l); for (auto &x : l) out += x.d; break; }
	}
	return "";
}
// modes: one letter per call: piece 1, piece 2, final empty call, then drained with PRE or AUTO
static S run_modes(Conv &c, const S &in, size_t cut, const int *m, size_t bs, bool drain_pre, Res &r) {
	c.reset(); S o, e; size_t pend = 0;
	for (int k = 0; k < 3; k++) {
		c.set_input(k == 0 ? in.substr(0, cut) : k == 1 ? in.substr(cut) : "");
		if (k == 2) c.p->flush = 1;
		e = call(c, m[k], bs, o); if (e.size()) return e;
		sh->trans.fetch_add(1, std::memory_order_relaxed);
	}
	if (drain_pre) {
		c.set_input(""); call(c, M_QUERY, 0, o); size_t left = c.p->output.len, got = 0;
		for (;;) { size_t b = o.size(); c.set_input(""); e = call(c, M_PRE, bs, o); if (e.size()) return e; if (o.size() == b) break; got += o.size() - b; }
		if (got != left) return fmt("announces %zu bytes, delivers %zu", left, got);
	} else { c.set_input(""); c.go(o); }
	r.out = o; r.ctr = c.counters();
	return "";
}
static size_t biggest(Conv &c, const S &in) { size_t n = 1; for (auto &d : c.decode(in)) n = std::max(n, d.d.size()); return n; }
static S desc(const S &conv, const S &in, size_t cut, const int *m, int bsx, bool dp) { return "modes " + conv + " input " + hex(in) + fmt(" cut %zu modes %c%c%c buf+%d drain %d", cut, MN[m[0]], MN[m[1]], MN[m[2]], bsx, dp); }
static S one_modes(const S &conv, const S &in, size_t cut, const int *m, int bsx, bool dp) {
	Conv a(conv), b(conv), c(conv); if (!a.p) return "cannot be created";
	Res x = a.run(in), y; fd_script.clear(); S e = run_modes(b, in, cut, m, biggest(c, in) + bsx, dp, y);
	if (e.size()) return e;
	return x == y ? "" : "whole " + x.show() + ", delivered " + y.show();
}
// ---- descriptor faults
static S fdesc(const S &conv, const S &in, const std::vector<int> &s) { S r = "fd " + conv + " input " + hex(in) + " script"; for (int x : s) r += " " + std::to_string(x); return r; }
static S one_fd(const S &conv, const S &in, const std::vector<int> &s) {
	Conv a(conv), b(conv); if (!a.p) return "cannot be created";
	Res x = a.run(in); S o; b.reset(); b.set_input(in); b.p->flush = 1; fd_script = s; call(b, M_FD, 0, o);
	return x.out == o ? "" : "whole " + hex(x.out) + ", written " + hex(o);
}
// ---- chains
static S chain(Conv &a, Conv &b, const S &in, size_t cut, S &out, Ctr &ctr) {
	a.reset(); b.reset();
	for (int k = 0; k < 2; k++) {
		a.set_input(k ? in.substr(cut) : in.substr(0, cut)); if (k) a.p->flush = 1;
		a.p->output_mode = BSDCONV_PASS; a.p->output.data = b.p; bsdconv(a.p);
		if (k) b.p->flush = 1; b.go(out); sh->trans += 2;
	}
	ctr = a.counters(); for (auto &x : b.counters()) ctr[x.first] += x.second;
	return "";
}
static S cdesc(const S &A, const S &B, const S &in, size_t cut) { return "chain " + A + " INTO " + B + " input " + hex(in) + fmt(" cut %zu", cut); }
static S one_chain(const S &A, const S &B, const S &in, size_t cut) {
	Conv a(A), b(B), ab(A + "|" + B); if (!a.p || !b.p || !ab.p) return "cannot be created";
	Res x = ab.run(in), y; chain(a, b, in, cut, y.out, y.ctr);
	return x == y ? "" : "joined " + x.show() + ", chained " + y.show();
}
// ---- outputs of any size: one call's worth of output taken in mode m (the rest, if m leaves any, in mode m again)
static S bigout(const CV &e, int pat, size_t n, int m, size_t bs, size_t cut, Conv *pc = nullptr, const Res *want = nullptr) {
	S in = longin(e, pat, n); Conv own; if (!pc) { own.open(e.conv); pc = &own; } Conv &c = *pc; if (!c.p) return "cannot be created";
	Res w = want ? *want : c.run(in), r; S er; c.reset(); fd_script.clear(); if (m == M_FD && bs) for (int i = 0; i < 40; i++) { fd_script.push_back(99); fd_script.push_back(int(bs)); }
	auto add = [&](const S &x) { c.set_input(x); if (m == M_FD) { S o; er = call(c, m, bs, o); r.out += o; } else er = call(c, m, bs, r.out); sh->trans++; };
	if (cut) add(in.substr(0, cut)); c.p->flush = cut >= n; if (cut < n) { c.p->flush = 1; add(in.substr(cut)); } else add("");
	if (m == M_QUERY || m == M_HOLD) { size_t left = 0; if (m == M_QUERY) left = c.p->output.len; c.set_input(""); size_t b = r.out.size(); c.go(r.out); if (m == M_QUERY && r.out.size() - b != left) er = fmt("announces %zu bytes, delivers %zu", left, r.out.size() - b); }
	if (m == M_PRE) for (;;) { size_t b = r.out.size(); add(""); if (er.size() || r.out.size() == b) break; }
	r.ctr = c.counters(); if (er.size()) return er; if (r == w) return "";
	size_t i = 0; while (i < w.out.size() && i < r.out.size() && w.out[i] == r.out[i]) i++;
	return fmt("%zu bytes, delivered %zu, the same up to %zu", w.out.size(), r.out.size(), i) + (r.ctr == w.ctr ? "" : ", other counters");
}
static const CV *cvfind(const S &n) { static auto cv = conversions(); for (auto &e : cv) if (e.conv == n) return &e; static CV own; if (n.empty()) return nullptr; own = CV(); own.conv = n; own.tok = {"a"}; return &own; }
static S replay(const S &d) {
	if (d.compare(0, 4, "big ") == 0) { size_t q = d.rfind(" of "); int pat; size_t n, bs, cut; char m; if (q == S::npos || sscanf(d.c_str() + q, " of %d %zu mode %c buf %zu cut %zu", &pat, &n, &m, &bs, &cut) != 5) return "bad descriptor"; auto e = cvfind(d.substr(4, q - 4)); return bigout(*e, pat, n, strchr(MN, m) - MN, bs, cut); }
	size_t i = d.find(" input "); if (i == S::npos) return "bad descriptor";
	S tail = d.substr(i + 7); S in = unhex(tail.substr(0, tail.find(' ')));
	if (d.compare(0, 6, "modes ") == 0) { size_t cut; char a, b, c; int bs, dp; sscanf(strstr(tail.c_str(), " cut "), " cut %zu modes %c%c%c buf+%d drain %d", &cut, &a, &b, &c, &bs, &dp); int m[3] = {int(strchr(MN, a) - MN), int(strchr(MN, b) - MN), int(strchr(MN, c) - MN)}; return one_modes(d.substr(6, i - 6), in, cut, m, bs, dp); }
	if (d.compare(0, 3, "fd ") == 0) { std::vector<int> s; VS w = split(tail.substr(tail.find("script")), ' '); for (size_t k = 1; k < w.size(); k++) s.push_back(atoi(w[k].c_str())); return one_fd(d.substr(3, i - 3), in, s); }
	size_t j = d.find(" INTO "); return one_chain(d.substr(6, j - 6), d.substr(j + 6, i - j - 6), in, atoi(strstr(tail.c_str(), " cut ") + 5));
}
static void all() {
	auto cv = conversions();
	explore("output modes", cv.size() * 4, [&](u64 it) {
		auto &e = cv[it / 4]; int part = it % 4; S in; size_t cut = 0; int m[3] = {0, 0, 0}; bool dp = false; int bsx = 0;
		g_describe = [&] { return desc(e.conv, in, cut, m, bsx, dp); };
		Conv c(e.conv); if (!c.p) { violation(desc(e.conv, "", 0, m, 0, 0), "cannot be created"); return; }
		u64 n = nseq(e.tok.size(), thorough ? 3 : 2);
		for (u64 k = part; k < n && !stopping(); k += 4) {
			in = seq(e.tok, k); Res base = c.run(in); size_t mx = biggest(c, in); sh->states++; outcome(fnv(e.conv, fnv(base.show())));
			if (base.out.size()) sh->nontrivial++;
			bool longin = k >= nseq(e.tok.size(), 2);
			for (cut = 0; cut <= in.size(); cut++) {
				if (cut && cut != 1 && cut != in.size() / 2 && cut != in.size()) continue;
				for (int q = 0; q < NM * NM * NM; q++) {
					m[0] = q % NM; m[1] = q / NM % NM; m[2] = q / NM / NM;
					if (longin && m[0] != m[1]) continue;
					dp = (q + k) & 1; bsx = (q / 7 + k) % 3;
					Res r; S w = run_modes(c, in, cut, m, mx + bsx, dp, r); eval();
					if (w.empty() && r == base) continue;
					w = one_modes(e.conv, in, cut, m, bsx, dp);
					if (w.size()) { violation(desc(e.conv, in, cut, m, bsx, dp), w); return; }
					sh->reuse++; c.reopen();
				}
			}
			if (k == 17) sample(desc(e.conv, in, 1, m, 0, dp) + " -> " + base.show());
		}
	});
	explore("outputs of any size", cv.size() * 3 + 3, [&](u64 it) {
		bool huge = it < 3; it = huge ? it : it - 3; const CV &e = huge ? *cvfind(it < 2 ? "ascii:ascii" : "byte:hex") : cv[it / 3]; int pat = huge ? 1 : it % 3; if (pat > (int)e.tok.size()) return;
		S d = "big " + e.conv + " of 0 0 mode a buf 0 cut 0"; g_describe = [&] { return d; }; Conv c(e.conv); if (!c.p) { violation(d, "cannot be created"); return; }
		std::vector<size_t> ns = {100, 257, 1025, 4097}; if (!pat) ns.push_back(40000); if (huge) ns = {size_t(it ? 66000 : (1 << 24) + 5)};
		for (size_t n : ns) { S in = longin(e, pat, n); Res w = c.run(in); size_t mx = huge ? 2 : biggest(c, in); sh->states++; outcome(fnv(e.conv, fnv(w.show()))); if (w.out.size()) sh->nontrivial++;
			for (int m = 0; m < NM; m++) for (size_t bs : {mx, mx + 1, size_t(255), size_t(256), size_t(257), size_t(1024), size_t(4096), size_t(65535)}) for (size_t cut : {size_t(0), n / 2, n}) {
				if (m != M_PRE && !(m == M_FD && bs >= 255) && bs != mx) continue; if (m == M_PRE && (bs < mx || (n > 30000 && bs < 255) || (n > 70000 && bs < 65535))) continue; if (m == M_PASS && n > 70000) continue; if (n > 70000 && cut) continue;
				d = "big " + e.conv + fmt(" of %d %zu mode %c buf %zu cut %zu", pat, n, MN[m], bs, cut); S r = bigout(e, pat, n, m, m == M_FD && bs == mx ? 0 : bs, cut, &c, &w); eval();
				if (r.size()) { if (m == M_FD && bs == mx) d = "big " + e.conv + fmt(" of %d %zu mode %c buf 0 cut %zu", pat, n, MN[m], cut); violation(d, r); return; } } }
	});
	// every script of partial and interrupted writes
	VS fc = {"utf-8:utf-8", "utf-8:utf-16le", "ascii:insert#before=0128.0129.012A:ascii", "utf-8:ascii-hex-numeric-html-entity", "utf-8:nfd:utf-8", "utf-8:ibm-930"};
	VS fi = {"", "a", "ab", "\xE6\xB8\xAC", "a\xE6\xB8\xAC" "b", "\xC3\xA9\xE6\xB8\xAC\xE8\xA9\xA6"};
	int depth = thorough ? 8 : 6; const int ch[] = {0, 1, 2, 99}; u64 ns = 0, p4 = 1; for (int i = 0; i <= depth; i++) { ns += p4; p4 *= 4; }
	explore("descriptor faults", fc.size() * fi.size(), [&](u64 it) {
		S conv = fc[it / fi.size()], in = fi[it % fi.size()]; std::vector<int> s; g_describe = [&] { return fdesc(conv, in, s); };
		Conv a(conv); Res base = a.run(in);
		for (u64 k = 0; k < ns; k++) {
			u64 x = k, p = 1; int l = 0; while (x >= p) { x -= p; p *= 4; l++; }
			s.clear(); for (int i = 0; i < l; i++) { s.push_back(ch[x & 3]); x >>= 2; }
			a.reset(); a.set_input(in); a.p->flush = 1; fd_script = s; S o; call(a, M_FD, 0, o); eval(); sh->trans++;
			if (o != base.out) { violation(fdesc(conv, in, s), "whole " + hex(base.out) + ", written " + hex(o)); return; }
			outcome(fnv(o, fd_pos + l * 31));
		}
		sample(fdesc(conv, in, {1, 99, 2}) + " -> " + hex(base.out));
	});
	VS B = {"utf-8:utf-16le", "skip,utf-8:utf-8", "big5:utf-8", "gb18030,3f:nfc:utf-8", "jis:utf-8", "byte:hex", "ibm-930:utf-8", "pass:bsdconv", "pass,ascii:pass#for=unicode|pass:bsdconv", "escape,ascii:utf-8", "utf-16le,byte:upper:bsdconv-keyword,bsdconv", "ascii:utf-8|utf-8:ascii"};
	explore("chains", cv.size() * B.size(), [&](u64 it) {
		auto &e = cv[it / B.size()]; S b = B[it % B.size()], in; size_t cut = 0;
		g_describe = [&] { return cdesc(e.conv, b, in, cut); };
		Conv x(e.conv), y(b), xy(e.conv + "|" + b); if (!x.p || !y.p || !xy.p) { violation(cdesc(e.conv, b, "", 0), "cannot be created"); return; }
		u64 n = nseq(e.tok.size(), thorough ? 3 : 2); u64 step = thorough ? 1 : 2;
		for (u64 k = 0; k < n && !stopping(); k += step) {
			in = seq(e.tok, k); Res base = xy.run(in); sh->states++;
			for (cut = 0; cut <= in.size(); cut++) {
				Res r; chain(x, y, in, cut, r.out, r.ctr); eval();
				if (r == base) continue;
				S w = one_chain(e.conv, b, in, cut);
				if (w.size()) { violation(cdesc(e.conv, b, in, cut), w); return; }
				sh->reuse++; x.reopen(); y.reopen(); xy.reopen();
			}
			outcome(fnv(b, fnv(base.show())));
		}
	});
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
