// P21: filters, type selection and marks.  Every filter on every code point in each kind of phase; lists of filters with
// limits; typed data with marks through every pair of encoder list and decoder list, joined and handed over, against a model.
#include "ref.hpp"
#include "sets.hpp"
#include <memory>
static S TD;
static void dirs() { TD = g_data; ucd::load(g_data); sets::load(g_data); }
static S up(const S &d) { static auto *t = ref::table(TD, "inter/UPPER"); VD v; return t->match(VD{Datum(d)}, 0, v) && v.size() == 1 ? v[0].d : S(); }
// ---- predicate: the list of data which a filtered PASS lets through
static S pcv(int kind, const S &f) { return kind == 0 ? "pass#for=" + f + ",null" : kind == 1 ? "pass:pass#for=" + f : "pass#for=" + f + ":pass"; }
static S pred(Conv &c, int kind, const S &f, const VD &in) {
	VD w; u64 e = 0; for (auto &d : in) if (sets::accepts(f, d.d)) w.push_back(d); else if (kind) e += kind == 2 ? d.d.size() : 1;
	VD g = c.run_list(in); eval(); sh->trans++; if (g != w) return "lets through " + show(g) + " instead of " + show(w);
	u64 ie = *c.ie, oe = *c.oe; return (kind == 2 ? ie : oe) == e && (kind == 2 ? oe : ie) == 0 ? "" : fmt("IERR %llu OERR %llu with %llu refused", (unsigned long long)ie, (unsigned long long)oe, (unsigned long long)e);
}
// ---- lists of filters with limits
static S limits(const S &list, const VD &in, Conv *pc = nullptr) {
	struct L { S f; int lim; bool null, up; int n = 0; }; std::vector<L> l; for (auto &e : split(list, ',')) { L x{"", 0, e == "null", e == "upper"}; size_t h = e.find('#'); if (h != S::npos) for (auto &a : split(e.substr(h + 1), '&')) { S v = a.substr(a.find('=') + 1); if (a[0] == 'f') x.f = v; else x.lim = atoi(v.c_str()); } l.push_back(x); }
	VD w; for (auto &d : in) { bool done = false; for (auto &x : l) { if (x.null) done = true; else if (x.up) { S o = up(d.d); if (o.size()) { w.push_back(Datum(o)); done = true; } } else if (sets::accepts(x.f, d.d) && (!x.lim || x.n < x.lim)) { x.n++; w.push_back(d); done = true; } if (done) break; } if (!done) w.push_back(d); }
	Conv own; if (!pc) { own.open("pass:" + list + ":pass"); pc = &own; } if (!pc->p) return "cannot be created";
	for (int rep = 0; rep < 2; rep++) { VD g = pc->run_list(in); eval(); sh->trans++; if (g != w) return "gives " + show(g) + " instead of " + show(w); } return "";
}
// ---- marks: encoder list | decoder list
struct T { S txt; int kind; S f; bool mark; const ref::Table *t; }; // kind 0 pass, 1 ascii, 2 byte, 3 table, 4 any
static std::vector<T> tos() { return {{"pass", 0, "", false}, {"pass#mark", 0, "", true}, {"pass#for=unicode", 0, "unicode", false}, {"UNICODE", 0, "unicode", true}, {"pass#mark&for=cjk", 0, "cjk", true}, {"pass#for=byte&mark", 0, "byte", true}, {"ansi-control", 0, "1b", true}, {"pass#for=02", 0, "02", false}, {"ascii", 1, "", false}, {"byte", 2, "", false}, {"_cp949", 3, "", false, ref::table(TD, "to/_CP949")}, {"any#41.80&error", 4, "", true}, {"any#E9.", 4, "", false}}; }
static std::vector<T> froms() { return {{"pass", 0, "", false}, {"skip", 0, "", true}, {"pass#for=unicode", 0, "unicode", false}, {"pass#unmark&for=cjk", 0, "cjk", true}, {"pass#for=ansi&unmark", 0, "ansi", true}, {"pass#for=03", 0, "03", false}, {"ascii", 1, "", false}, {"byte", 2, "", false}, {"_cp949", 3, "", false, ref::table(TD, "from/_CP949")}, {"any#0141.01AC00&error=mine", 4, "", true}, {"any#03FF", 4, "", false}}; }
static VD encode(const std::vector<T> &l, const VD &in, Ctr &c) {
	VD r; for (size_t p = 0; p < in.size(); p++) { auto &d = in[p]; bool ok = false;
		for (auto &t : l) { VD v; switch (t.kind) {
			case 0: if (sets::accepts(t.f, d.d)) { r.push_back(Datum(d.d, d.mark || t.mark)); ok = true; } break;
			case 1: if (d.d.size() == 2 && d.d[0] == 1 && d.d[1] > 0) { r.push_back(Datum(d.d.substr(1))); ok = true; } break;
			case 2: if (d.d.size() == 2 && d.d[0] == 3) { r.push_back(Datum(d.d.substr(1))); ok = true; } break;
			case 3: if (t.t->match(VD{Datum(d.d)}, 0, v)) { for (auto &x : v) r.push_back(Datum(x.d)); ok = true; } break;
			case 4: if (t.mark) { r.push_back(S("\x41")); r.push_back(S("\x80")); c["OERR"]++; } else r.push_back(S("\xE9")); ok = true; break; }
			if (ok) break; }
		if (!ok) c["OERR"]++; }
	return r;
}
static VD decode(const std::vector<T> &l, const VD &in, Ctr &c) {
	S flat; std::vector<std::pair<size_t, size_t>> at; for (size_t i = 0; i < in.size(); i++) for (size_t j = 0; j < in[i].d.size(); j++) { flat += in[i].d[j]; at.push_back({i, j}); }
	VD r; for (size_t p = 0; p < flat.size();) { size_t n = 0; auto &d = in[at[p].first];
		for (auto &t : l) { VD v; switch (t.kind) {
			case 0: if (at[p].second == 0 && sets::accepts(t.f, d.d) && (!t.mark || d.mark)) { r.push_back(Datum(d.d, t.mark ? 0 : d.mark)); n = d.d.size(); } break;
			case 1: if (flat[p] > 0) { r.push_back(Datum(S("\x01") + flat[p])); n = 1; } break;
			case 2: r.push_back(Datum(S("\x03") + flat[p])); n = 1; break;
			case 3: if ((n = t.t->match(flat, p, v))) for (auto &x : v) r.push_back(Datum(x.d)); break;
			case 4: if (t.mark) { r.push_back(unhex("0141")); r.push_back(unhex("01AC00")); c["MINE"]++; } else r.push_back(unhex("03FF")); n = 1; break; }
			if (n) break; }
		if (!n) { c["IERR"]++; p++; } else p += n; }
	return r;
}
static VD between(const S &ph, const VD &in, Ctr &c) {
	if (ph.empty()) return in; VD r;
	for (auto &d : in) {
		if (ph == "upper") { S o = up(d.d); r.push_back(o.size() ? Datum(o) : d); }
		else if (ph == "count") { c["COUNT"]++; r.push_back(d); }
		else if (ph == "insert#before=0178") { r.push_back(unhex("0178")); r.push_back(d); }
		else if (ph == "pass#for=cjk,null") { if (sets::accepts("cjk", d.d)) r.push_back(d); }
		else if (ph == "null") ;
		else abort();
	}
	return r;
}
static const char *PH[] = {"", "upper", "count", "insert#before=0178", "pass#for=cjk,null", "null"};
struct Pipe { std::vector<std::vector<T>> l; VS ph; S txt; }; // l: T F T F ...; ph after each F
static S names(const std::vector<T> &l) { VS v; for (auto &t : l) v.push_back(t.txt); return join(v, ","); }
static void fix(Pipe &p) { p.txt = "pass:"; for (size_t i = 0; i < p.l.size(); i += 2) { if (p.ph[i / 2].size()) p.txt += p.ph[i / 2] + ":"; p.txt += names(p.l[i]) + "|" + names(p.l[i + 1]) + ":"; } if (p.ph.back().size()) p.txt += p.ph.back() + ":"; p.txt += "pass"; }
static S ctr(const Ctr &c) { S r; for (auto &e : c) if (e.second) r += e.first + "=" + std::to_string(e.second) + " "; return r; }
static S marks(Conv &c, std::vector<std::unique_ptr<Conv>> *parts, const Pipe &p, const VD &in) {
	Ctr w; VD m = in; for (size_t i = 0; i < p.l.size(); i += 2) { m = between(p.ph[i / 2], m, w); m = encode(p.l[i], m, w); m = decode(p.l[i + 1], m, w); } m = between(p.ph.back(), m, w);
	VD g = c.run_list(in); eval(); sh->trans++; if (g != m) return "gives " + show(g) + " instead of " + show(m);
	if (ctr(c.counters()) != ctr(w)) return "counts " + ctr(c.counters()) + "instead of " + ctr(w);
	outcome(fnv(show(m)) ^ fnv(p.txt));
	if (parts) { VD x = in; for (auto &q : *parts) { x = q->run_list(x); sh->trans++; } eval(); if (x != m) return "handed over: " + show(x) + " instead of " + show(m); }
	return "";
}
static std::vector<std::unique_ptr<Conv>> partsof(const S &t) { std::vector<std::unique_ptr<Conv>> r; for (auto &x : split(t, '|')) r.emplace_back(new Conv(x)); return r; }
static bool parse(const S &t, Pipe &p) {
	auto ts = tos(), fs = froms(); auto find = [](const std::vector<T> &v, const S &n, std::vector<T> &o) { for (auto &x : split(n, ',')) { bool ok = false; for (auto &e : v) if (e.txt == x) { o.push_back(e); ok = true; break; } if (!ok) return false; } return true; };
	VS cs = split(t, '|'); for (size_t i = 0; i < cs.size(); i++) { VS ph = split(cs[i], ':'); if (ph.size() < 2 || ph.size() > 3) return false; std::vector<T> a, b;
		if (i) { if (!find(fs, ph[0], b)) return false; p.l.push_back(b); } p.ph.push_back(ph.size() == 3 ? ph[1] : ""); if (i + 1 < cs.size()) { if (!find(ts, ph.back(), a)) return false; p.l.push_back(a); } }
	fix(p); return p.txt == t;
}
static VD alphabet() { VD r; for (auto x : {"0141", "0162", "01AC00", "016E2C", "0341", "03B0", "1B5B4D", "02016041", "01E9", "0100"}) for (int m = 0; m < 2; m++) r.push_back(Datum(unhex(x), m)); return r; }
// limits of any size: n data more or less than the limit, some of them not concerned
static S biglimit(long lim, long n, int kind) { VD in; S l = fmt(kind == 2 ? "pass#for=unicode&limit=%ld,null" : kind == 1 ? "pass#limit=%ld,upper" : "pass#limit=%ld,null", lim); for (long i = 0; i < n; i++) { in.push_back(Datum(uni('a' + i % 26), i % 7 == 3)); if (kind == 2 && i % 5 == 1) in.push_back(Datum(unhex("0341"))); } return limits(l, in).substr(0, 200); }
static S replay(const S &d) {
	dirs(); VS w = split(d, ' '); if (w.size() < 2) return "bad descriptor"; if (w[0] == "biglimit") return biglimit(atol(w[1].c_str()), atol(w[2].c_str()), atoi(w[3].c_str())); VD in = unshow(w.back());
	if (w[0] == "filter") { int k = atoi(w[1].c_str()); Conv c(pcv(k, w[2])); return c.p ? pred(c, k, w[2], in) : "cannot be created"; }
	if (w[0] == "limit") return limits(w[1], in);
	if (w[0] == "marks") { Pipe p; if (!parse(w[1], p)) return "bad pipeline"; Conv c(w[1]); auto q = partsof(w[1]); if (!c.p) return "cannot be created"; for (auto &x : q) if (!x->p) return "a part cannot be created"; return marks(c, &q, p, in); }
	return "bad descriptor";
}
static void seqs(const VD &al, int len, std::function<bool(const VD &)> f) { u64 N = al.size(), n = 1; for (int l = 0; l <= len; l++) { for (u64 i = 0; i < n; i++) { VD v; u64 z = i; for (int j = 0; j < l; j++) { v.push_back(al[z % N]); z /= N; } if (!f(v)) return; } n *= N; } }
static void all() {
	dirs(); VS F = sets::names();
	explore("every filter on every code point", F.size() * 3, [&](u64 it) {
		S f = F[it / 3]; int k = it % 3; S cv = pcv(k, f); Conv c(cv); VD in; g_describe = [&] { return fmt("filter %d %s ", k, f.c_str()) + show(in); }; if (!c.p) { violation(g_describe(), "cannot be created"); return; }
		auto go = [&](const VD &v) { in = v; sh->states++; S r = pred(c, k, f, v); if (r.size()) violation(g_describe(), r); return r.empty(); };
		VD batch; bool prev = false; for (u32 x = 0; x < 0x110000; x++) { Datum d(uni(x)); bool a = sets::accepts(f, d.d), edge = a != prev || (x & 0xFF) == 0; batch.push_back(d); if (edge || batch.size() == 64) { if (!go(batch)) return; batch.clear(); }
			if (edge) { for (u32 y : {x ? x - 1 : 0, x}) { S o = uni(y); if (!go({Datum(o)}) || !go({Datum(o, 1), Datum(o)})) return; for (int t : {0, 2, 3, 0x1B, 0x7F}) { o[0] = t; if (!go({Datum(o), d})) return; } o[0] = 1; if (y) { o.insert(1, 1, 0); if (!go({Datum(o)})) return; o = uni(y); o.insert(1, "\x01"); if (o.size() < 5) if (!go({Datum(o)})) return; } } }
			prev = a; }
		if (!go(batch)) return; for (auto x : {"0110FFFF00", "01FFFFFFFF", "01110000", "1B5B306D", "0201", "0300", "03FF", "0000"}) if (!go({Datum(unhex(x)), Datum(uni(0x41))})) return;
		sh->nontrivial++; if (it % 41 == 0) sample(fmt("filter %d ", k) + f);
	});
	static const char *fl[] = {"pass#for=cjk", "pass#limit=1", "pass#for=unicode&limit=2", "pass#limit=2&for=byte", "pass#for=latin", "upper", "null", "pass#for=ansi&limit=1", "pass#limit=3&for=cjk"}; const int NL = 9; auto AL = alphabet(); VD A2; for (size_t i = 0; i < AL.size(); i += 2) if (i != 10 && i != 18) A2.push_back(AL[i]);
	explore("lists of filters with limits", NL + NL * NL + NL * NL * NL, [&](u64 it) {
		VS v; u64 z = it; if (z < NL) v = {fl[z]}; else if ((z -= NL) < NL * NL) v = {fl[z % NL], fl[z / NL]}; else { z -= NL * NL; v = {fl[z % NL], fl[z / NL % NL], fl[z / NL / NL]}; }
		S l = join(v, ","); VD in; g_describe = [&] { return "limit " + l + " " + show(in); }; Conv c("pass:" + l + ":pass"); if (!c.p) { violation(g_describe(), "cannot be created"); return; }
		seqs(A2, v.size() == 3 && !thorough ? 3 : 4, [&](const VD &x) { in = x; sh->states++; S r = limits(l, x, &c); if (r.size()) violation(g_describe(), r); return r.empty(); }); if (it % 97 == 3) sample("limit " + l);
	});
	auto sz = sizes(thorough ? 1000000 : 70000, 260); std::reverse(sz.begin(), sz.end());
	explore("limits of any size", sz.size() * 3, [&](u64 it) { long lim = sz[it / 3]; for (long n : {lim - 1, lim, lim + 1, lim + 300}) { if (n < 0) continue; S d = fmt("biglimit %ld %ld %d", lim, n, (int)(it % 3)); g_describe = [&] { return d; }; sh->states++; S r = biglimit(lim, n, it % 3); if (r.size()) { violation(d, r); return; } } });
	auto ts = tos(), fs = froms(); auto lists = [](const std::vector<T> &v, size_t n) { std::vector<std::vector<T>> r; for (auto &a : v) r.push_back({a}); if (n > 1) for (auto &a : v) for (auto &b : v) r.push_back({a, b}); if (n > 2) for (auto &a : v) for (auto &b : v) for (auto &c : v) if (a.txt != b.txt && b.txt != c.txt && a.txt != c.txt) r.push_back({a, b, c}); return r; };
	auto run = [&](const Pipe &p, const VD &al, int len, bool parts) {
		VD in; g_describe = [&] { return "marks " + p.txt + " " + show(in); }; Conv c(p.txt); std::vector<std::unique_ptr<Conv>> q; if (parts) q = partsof(p.txt); if (!c.p) { violation(g_describe(), "cannot be created"); return; } for (auto &x : q) if (!x->p) { violation(g_describe(), "a part cannot be created"); return; }
		seqs(al, len, [&](const VD &x) { in = x; sh->states++; S r = marks(c, parts ? &q : nullptr, p, x); if (r.size()) violation(g_describe(), r); return r.empty() && !stopping(); }); sh->nontrivial++;
	};
	auto T2 = lists(ts, 2), F2 = lists(fs, 2);
	explore("marks: encoder list and decoder list", T2.size() * F2.size(), [&](u64 it) { Pipe p; p.l = {T2[it / F2.size()], F2[it % F2.size()]}; p.ph = {"", ""}; fix(p); run(p, AL, thorough ? 3 : 2, true); if (it % 4999 == 17) sample("marks " + p.txt); });
	VD A3; for (auto x : {"0141", "01AC00!", "016E2C", "1B5B4D!", "0341", "03B0!"}) A3.push_back(unshow(x)[0]);
	explore("marks: every encoder and decoder on longer data", ts.size() * F2.size() + T2.size() * fs.size(), [&](u64 it) { Pipe p; if (it < ts.size() * F2.size()) p.l = {{ts[it / F2.size()]}, F2[it % F2.size()]}; else { it -= ts.size() * F2.size(); p.l = {T2[it / fs.size()], {fs[it % fs.size()]}}; } p.ph = {"", ""}; fix(p); run(p, A3, thorough ? 5 : 4, false); });
	explore("marks: phases in between", 36 * ts.size() * fs.size(), [&](u64 it) { Pipe p; u64 z = it / 36; p.l = {{ts[z / fs.size()], ts[10]}, {fs[z % fs.size()], fs[6]}}; p.ph = {PH[it % 6], PH[it / 6 % 6]}; fix(p); run(p, AL, thorough ? 3 : 2, false); });
	explore("marks: three conversions", (ts.size() * fs.size()) * (ts.size() * fs.size()), [&](u64 it) { Pipe p; u64 n = ts.size(), m = fs.size(); p.l = {{ts[it % n]}, {fs[it / n % m]}, {ts[it / n / m % n]}, {fs[it / n / m / n]}}; p.ph = {"", "", ""}; fix(p); run(p, AL, thorough ? 2 : 1, true); if (!thorough) run(p, A3, 2, false); });
	if (thorough) { auto T3 = lists(ts, 3), F3 = lists(fs, 3); explore("marks: lists of three", T3.size() * 8, [&](u64 it) { for (u64 j = it % 8; j < F3.size(); j += 8) { Pipe p; p.l = {T3[it / 8], F3[j]}; p.ph = {"", ""}; fix(p); run(p, A3, 2, false); if (stopping()) return; } }); }
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
