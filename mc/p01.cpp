// P01: every partition of every input gives the result of the single call.
#include "convs.hpp"
enum { EMPTY = 1, LISTIN = 2, BORROW = 4 };
// cut mask bit i: a boundary after byte i
static VS pieces(const S &in, u64 mask) { VS r; S c; for (size_t i = 0; i < in.size(); i++) { c += in[i]; if (mask >> i & 1) { r.push_back(c); c.clear(); } } r.push_back(c); return r; }
static Res feed(Conv &c, const S &in, u64 mask, int mode) {
	Res r; c.reset();
	VS p = pieces(in, mask);
	if (mode & LISTIN) {
		VD l; for (auto &x : p) { l.push_back(Datum(x)); if (mode & EMPTY) l.push_back(Datum("")); }
		c.set_list(l, !(mode & BORROW)); c.p->flush = 1; c.go(r.out);
	} else {
		for (size_t i = 0; i < p.size(); i++) {
			c.set_input(p[i], !(mode & BORROW));
			if (i + 1 == p.size() && !(mode & EMPTY)) c.p->flush = 1;
			c.go(r.out);
			sh->trans.fetch_add(1, std::memory_order_relaxed);
			if (mode & EMPTY) { c.set_input("", !(mode & BORROW)); if (i + 1 == p.size()) c.p->flush = 1; c.go(r.out); }
		}
	}
	r.ctr = c.counters();
	return r;
}
static S after(Conv &c) { S o; c.set_input(""); c.p->flush = 1; c.go(o); return o; }
static S desc(const S &conv, const S &in, u64 mask, int mode) { return conv + " input " + hex(in) + fmt(" cuts %llx mode %d", (unsigned long long)mask, mode); }
static S one(const S &conv, const S &in, u64 mask, int mode) {
	Conv a(conv), b(conv);
	if (!a.p || !b.p) return "cannot be created";
	Res x = a.run(in), y = feed(b, in, mask, mode);
	if (x != y) return "one call gives " + x.show() + ", in pieces " + y.show();
	S z = after(b); if (z.size()) return "a further empty call after the final one gives " + hex(z);
	return "";
}
// long inputs, cut every k bytes (list: as a chain of buffers in one call)
static S longone(const CV &e, int pat, size_t n, size_t k, bool list, Conv *pc = nullptr, const Res *want = nullptr) {
	S in = longin(e, pat, n); Conv own; if (!pc) { own.open(e.conv); pc = &own; } Conv &c = *pc; if (!c.p) return "cannot be created"; Res w = want ? *want : c.run(in), r; c.reset(); VD l;
	for (size_t p = 0; p < n; p += k) { S x = in.substr(p, k); if (list) l.push_back(Datum(x)); else { c.set_input(x); if (p + k >= n) c.p->flush = 1; c.go(r.out); sh->trans++; } } if (list) { c.set_list(l); c.p->flush = 1; c.go(r.out); } r.ctr = c.counters(); eval();
	if (r == w) return ""; size_t d = 0; while (d < r.out.size() && d < w.out.size() && r.out[d] == w.out[d]) d++; Res a, b; a.ctr = w.ctr; b.ctr = r.ctr; return fmt("one call gives %zu bytes, in pieces %zu, which differ from byte %zu on; ", w.out.size(), r.out.size(), d) + a.show() + " " + b.show();
}
static const CV *find(const S &conv) { static auto cv = conversions(); for (auto &e : cv) if (e.conv == conv) return &e; return nullptr; }
static S replay(const S &d) {
	if (size_t p = d.find(" long "); p != S::npos) { auto e = find(d.substr(0, p)); int pat, l; size_t n, k; sscanf(d.c_str() + p, " long %d %zu %zu %d", &pat, &n, &k, &l); return e ? longone(*e, pat, n, k, l) : "bad descriptor"; }
	size_t p = d.find(" input "), q = d.find(" cuts ", p); if (p == S::npos || q == S::npos) return "bad descriptor";
	unsigned long long m = 0; int mode = 0; sscanf(d.c_str() + q, " cuts %llx mode %d", &m, &mode);
	return one(d.substr(0, p), unhex(d.substr(p + 7, q - p - 7)), m, mode);
}
static void all() {
	auto cv = conversions();
	explore("long inputs", cv.size() * 13, [&](u64 it) { auto &e = cv[it / 13]; int pat = it % 13; if (pat > (int)e.tok.size()) return; Conv c(e.conv); S d = e.conv + fmt(" long %d 1 1 0", pat); g_describe = [&] { return d; }; if (!c.p) { violation(d, "cannot be created"); return; }
		for (size_t n : {300, 1030, 4200, 66000}) { if (n > 4200 && pat && !thorough) continue; d = e.conv + fmt(" long %d %zu %zu 0", pat, n, n); Res w = c.run(longin(e, pat, n)); sh->states++; outcome(fnv(e.conv, fnv(w.show()))); if (w.out.size()) sh->nontrivial++; for (size_t k : {1, 3, 127, 255, 256, 257, 1024, 4096, 32767, 65536}) for (int l = 0; l < 2; l++) { if (k >= n || (n > 4200 && k < 1024 && (k != 256 || l))) continue; d = e.conv + fmt(" long %d %zu %zu %d", pat, n, k, l); S r = longone(e, pat, n, k, l, &c, &w); if (r.size()) { violation(d, r); return; } } } });
	struct It { int c; u64 lo, hi; }; std::vector<It> items;
	for (size_t i = 0; i < cv.size(); i++) { u64 n = nseq(cv[i].tok.size(), thorough ? cv[i].tl : cv[i].ql); for (u64 k = 0; k < n; k += 400) items.push_back({(int)i, k, std::min(n, k + 400)}); }
	explore("partitions", items.size(), [&](u64 it) {
		auto &e = cv[items[it].c]; S in; u64 mask = 0; int mode = 0;
		g_describe = [&] { return desc(e.conv, in, mask, mode); };
		Conv c(e.conv);
		if (!c.p) { violation(desc(e.conv, "", 0, 0), "cannot be created"); return; }
		S last;
		for (u64 k = items[it].lo; k < items[it].hi && !stopping(); k++) {
			in = seq(e.tok, k); mask = 0; mode = 0;
			Res base = c.run(in);
			sh->states++; outcome(fnv(e.conv, fnv(base.show())));
			if (base.out.size()) sh->nontrivial++;
			int n = in.size();
			auto tryit = [&](u64 m, int md) {
				mask = m; mode = md; eval();
				Res r = feed(c, in, m, md);
				S z; if (!(md & LISTIN)) z = after(c);
				if (r == base && z.empty()) return true;
				S w = one(e.conv, in, m, md);
				if (w.size()) { violation(desc(e.conv, in, m, md), w); return false; }
				sh->reuse++; c.reopen(); base = c.run(in);
				return true;
			};
			bool ok = true;
			u64 full = n > 1 ? (1ull << (n - 1)) - 1 : 0;
			int lim = thorough ? 7 : 6;
			if (n <= lim + 1) for (u64 m = 0; ok && m <= full; m++) ok = tryit(m, 0);
			else {
				for (int i = 0; ok && i < n - 1; i++) { ok = tryit(1ull << i, 0); for (int j = i + 1; ok && j < n - 1; j++) ok = tryit(1ull << i | 1ull << j, 0); }
				if (ok) ok = tryit(full, 0);
			}
			for (int md : {int(EMPTY), int(LISTIN), EMPTY | LISTIN, int(BORROW), LISTIN | BORROW}) {
				if (ok) ok = tryit(full, md);
				for (int i = 0; ok && i < n - 1; i++) ok = tryit(1ull << i, md);
			}
			if (k == items[it].lo + 37 && it % 97 == 0) sample(desc(e.conv, in, full, 0) + " -> " + base.show());
			if (!ok) break; // one counterexample per block is enough
		}
	});
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
