// P02: after any history (abandoned anywhere), bsdconv_init gives the behaviour of a new instance.
#include "convs.hpp"
enum { FLUSH = 1, HOLDOUT = 2, TWICE = 4, BYTEWISE = 8 };
static void history(Conv &c, const S &h, int mode) {
	for (int k = 0; k < (mode & TWICE ? 2 : 1); k++) {
		c.reset(); S o;
		if (mode & BYTEWISE) for (char x : h) { c.set_input(S(1, x)); if (mode & HOLDOUT) { c.p->output_mode = BSDCONV_HOLD; bsdconv(c.p); } else c.go(o); }
		else c.set_input(h);
		if (mode & FLUSH) c.p->flush = 1;
		if (mode & HOLDOUT) { c.p->output_mode = BSDCONV_HOLD; bsdconv(c.p); } else c.go(o);
	}
}
static S desc(const S &conv, const S &h, int mode, const S &y) { return conv + " history " + hex(h) + fmt(" mode %d then ", mode) + hex(y); }
static S one(const S &conv, const S &h, int mode, const S &y) {
	Conv a(conv), b(conv);
	if (!a.p || !b.p) return "cannot be created";
	Res x = a.run(y); history(b, h, mode); Res z = b.run(y);
	return x == z ? "" : "new instance " + x.show() + ", after history and init " + z.show();
}
// long histories: n bytes of input, or n conversions of one token
static void hist2(Conv &c, const CV &e, int pat, int n, int mode) {
	if (!(mode & 256)) { history(c, longin(e, pat, n), mode); return; }
	for (int i = 0; i < n; i++) history(c, e.tok[pat % e.tok.size()], mode & 255);
}
static S longone(const CV &e, int pat, int n, int mode, const S &y) { Conv a(e.conv), b(e.conv); if (!a.p || !b.p) return "cannot be created"; Res x = a.run(y); hist2(b, e, pat, n, mode); Res z = b.run(y); return x == z ? "" : "new instance " + x.show() + ", after history and init " + z.show(); }
static S replay(const S &d) {
	if (size_t p = d.find(" long "); p != S::npos) { int pat, n, m, o; sscanf(d.c_str() + p, " long %d %d %d then %n", &pat, &n, &m, &o); for (auto &e : conversions()) if (e.conv == d.substr(0, p)) return longone(e, pat, n, m, unhex(d.substr(p + o))); return "bad descriptor"; }
	size_t p = d.find(" history "), q = d.find(" mode ", p), t = d.find(" then ", q); if (t == S::npos) return "bad descriptor";
	return one(d.substr(0, p), unhex(d.substr(p + 9, q - p - 9)), atoi(d.c_str() + q + 6), unhex(d.substr(t + 6)));
}
static void all() {
	auto cv = conversions();
	struct It { int c; u64 lo, hi; }; std::vector<It> items;
	int hl = thorough ? 3 : 2;
	for (size_t i = 0; i < cv.size(); i++) { int l = cv[i].ql >= 5 ? hl + 1 : hl; u64 n = nseq(cv[i].tok.size(), l); for (u64 k = 0; k < n; k += 40) items.push_back({(int)i, k, std::min(n, k + 40)}); }
	explore("histories", items.size(), [&](u64 it) {
		auto &e = cv[items[it].c]; S h, y; int mode = 0;
		g_describe = [&] { return desc(e.conv, h, mode, y); };
		// what a new instance gives, each from an instance of its own
		VS ys; std::vector<Res> want;
		int yl = (e.tok.size() <= 6 ? 3 : 2); if (thorough) yl = e.tok.size() <= 12 ? 3 : 2;
		u64 ny = nseq(e.tok.size(), yl); if (items[it].hi - items[it].lo == 0) return;
		for (u64 k = 0; k < ny; k++) { y = seq(e.tok, k); Conv f(e.conv); if (!f.p) { violation(desc(e.conv, "", 0, ""), "cannot be created"); return; } ys.push_back(y); want.push_back(f.run(y)); }
		Conv c(e.conv);
		for (u64 k = items[it].lo; k < items[it].hi && !stopping(); k++) {
			S full = seq(e.tok, k);
			// every byte prefix that ends inside the last token is a place to abandon
			for (size_t cut = full.size(); ; cut--) {
				h = full.substr(0, cut);
				for (int md : {0, int(FLUSH), int(HOLDOUT), HOLDOUT | FLUSH, int(TWICE), int(BYTEWISE), BYTEWISE | HOLDOUT}) {
					mode = md; sh->states++;
					// small histories meet every next input, longer ones the single tokens
					u64 lim = md == 0 || md == FLUSH ? ny : nseq(e.tok.size(), 1);
					for (u64 j = 0; j < lim; j++) {
						y = ys[j]; history(c, h, md); Res r = c.run(y); eval(); sh->trans += 2;
						if (r != want[j]) {
							S w = one(e.conv, h, md, y);
							if (w.empty()) { w = "after further reuse: " + r.show() + " instead of " + want[j].show(); }
							violation(desc(e.conv, h, md, y), w); c.reopen(); return;
						}
						outcome(fnv(e.conv, fnv(r.show()) + md));
					}
				}
				if (cut <= 1 || full.size() - cut >= 3) break;
			}
			if (k == items[it].lo + 7 && it % 61 == 0) sample(desc(e.conv, h, mode, y) + " -> " + want[ny > 5 ? 5 : 0].show());
		}
	});
	explore("long histories", cv.size() * 13, [&](u64 it) { auto &e = cv[it / 13]; int pat = it % 13; if (pat > (int)e.tok.size()) return; S d = e.conv + fmt(" long %d 1 0 then ", pat); g_describe = [&] { return d; }; VS ys; std::vector<Res> want; for (u64 k = 0; k < nseq(e.tok.size(), 1); k++) ys.push_back(seq(e.tok, k)); S all; for (auto &t : e.tok) all += t; ys.push_back(all);
		for (auto &y : ys) { Conv f(e.conv); if (!f.p) { violation(d, "cannot be created"); return; } want.push_back(f.run(y)); } Conv c(e.conv);
		for (int n : {100, 258, 1030, 4200, 66000}) for (int mode : {0, int(FLUSH), HOLDOUT | FLUSH, int(BYTEWISE), 256, 256 | FLUSH}) { if (n > 300 && (n > 4200 ? !thorough && (pat || mode & BYTEWISE || mode > 255) : (mode & (BYTEWISE | 256)) && !(thorough || (pat == (mode & 256 ? 1 : 0) && n < 2000)))) continue; 
			for (size_t j = 0; j < ys.size(); j++) { if (j && j + 1 < ys.size() && n > 300) continue; d = e.conv + fmt(" long %d %d %d then ", pat, n, mode) + hex(ys[j]); hist2(c, e, pat, n, mode); Res r = c.run(ys[j]); eval(); sh->states++; if (r != want[j]) { S w = longone(e, pat, n, mode, ys[j]); if (w.empty()) w = "after further reuse: " + r.show() + " instead of " + want[j].show(); violation(d, w); return; } outcome(fnv(e.conv, fnv(r.show()) + mode)); } } });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
