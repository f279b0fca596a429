// P14: the per-instance hash and counters against maps; every operation sequence to a depth, two instances.
#include "mc.hpp"
#include "alloc.hpp"
static const char *KEYS[] = {"a", "b", "", "ab", "A"};
static char X, Y;
struct Op { int kind, ins, key, val; }; // 0 set 1 get 2 has 3 del
static S op_s(const Op &o) { static const char *n[] = {"set", "get", "has", "del"}; return fmt("%d%s(%s%s)", o.ins, n[o.kind], KEYS[o.key], o.kind ? "" : o.val == 0 ? "=0" : o.val == 1 ? "=X" : "=Y"); }
static void *VAL(int v) { return v == 0 ? nullptr : v == 1 ? &X : &Y; }
static std::vector<Op> ops(int nins, int nkeys) { std::vector<Op> r; for (int i = 0; i < nins; i++) for (int k = 0; k < nkeys; k++) { for (int v = 0; v < (nkeys > 3 ? 2 : 3); v++) r.push_back({0, i, k, v}); for (int kd = 1; kd < 4; kd++) r.push_back({kd, i, k, 0}); } return r; }
typedef std::map<int, int> M; // key -> val
struct World { bsdconv_instance *p[2]; M m[2]; };
static S apply(World &w, const Op &o) {
	auto *p = w.p[o.ins]; M &m = w.m[o.ins]; auto it = m.find(o.key);
	switch (o.kind) {
	case 0: bsdconv_hash_set(p, KEYS[o.key], VAL(o.val)); m[o.key] = o.val; return "";
	case 1: { void *g = bsdconv_hash_get(p, KEYS[o.key]); void *e = it == m.end() ? nullptr : VAL(it->second); return g == e ? "" : "get returns another value"; }
	case 2: { int g = !!bsdconv_hash_has(p, KEYS[o.key]); return g == (it != m.end()) ? "" : "has says " + std::to_string(g); }
	default: bsdconv_hash_del(p, KEYS[o.key]); m.erase(o.key); return "";
	}
}
// final state against the map, then emptied
static S audit(World &w, int nins, int nkeys, bool rev) {
	for (int i = 0; i < nins; i++) for (int q = 0; q < nkeys; q++) {
		int k = rev ? nkeys - 1 - q : q; auto it = w.m[i].find(k);
		if (!!bsdconv_hash_has(w.p[i], KEYS[k]) != (it != w.m[i].end())) return fmt("instance %d: key '%s' %s", i, KEYS[k], it == w.m[i].end() ? "appears" : "is lost");
		if (bsdconv_hash_get(w.p[i], KEYS[k]) != (it == w.m[i].end() ? nullptr : VAL(it->second))) return fmt("instance %d: key '%s' has another value", i, KEYS[k]);
	}
	return "";
}
static void clear(World &w, int nins, int nkeys) { for (int i = 0; i < nins; i++) { for (int k = 0; k < nkeys; k++) bsdconv_hash_del(w.p[i], KEYS[k]); w.m[i].clear(); } }
static S runops(World &w, const std::vector<Op> &seq, int nins, int nkeys, bool rev) { for (size_t i = 0; i < seq.size(); i++) { S r = apply(w, seq[i]); if (r.size()) return r + " at " + op_s(seq[i]); } return audit(w, nins, nkeys, rev); }
static S show(const std::vector<Op> &s) { VS v; for (auto &o : s) v.push_back(op_s(o)); return join(v, " "); }
static bool parse(const S &d, std::vector<Op> &r) {
	auto all = ops(2, 5); auto a2 = ops(2, 3); all.insert(all.end(), a2.begin(), a2.end());
	for (auto &w : split(d, ' ')) { if (w.empty()) continue; bool ok = false; for (auto &o : all) if (op_s(o) == w) { r.push_back(o); ok = true; break; } if (!ok) return false; }
	return true;
}
// ---- counters
static const char *CN[] = {"X", "x", "Xy", "IERR", "ierr"}; static const int CID[] = {0, 0, 1, 2, 2};
// ops: 0-4 add 1+i to counter i through a fresh lookup, 5-9 reset that name, 10 reset all, 11 init, 12 convert "\xff" (IERR+1), 13-17 add through the cell looked up first
static const int NC = 18;
static S cop(int o) { return o < 5 ? fmt("add(%s)", CN[o]) : o < 10 ? fmt("reset(%s)", CN[o - 5]) : o == 10 ? "reset(all)" : o == 11 ? "init" : o == 12 ? "convert" : fmt("cell(%s)", CN[o - 13]); }
static S counters(const std::vector<int> &seq) {
	Conv c("ascii:ascii"); if (!c.p) return "cannot be created"; bsdconv_init(c.p);
	u64 m[3] = {0, 0, 0}; bsdconv_counter_t *cell[3] = {nullptr, nullptr, bsdconv_counter(c.p, "IERR")};
	for (int o : seq) {
		if (o < 5) { *bsdconv_counter(c.p, CN[o]) += o + 1; m[CID[o]] += o + 1; }
		else if (o < 10) { bsdconv_counter_reset(c.p, CN[o - 5]); m[CID[o - 5]] = 0; }
		else if (o == 10) { bsdconv_counter_reset(c.p, NULL); m[0] = m[1] = m[2] = 0; }
		else if (o == 11) bsdconv_init(c.p);
		else if (o == 12) { S out; c.set_input("\xff"); c.p->flush = 1; c.go(out); m[2]++; }
		else { int i = CID[o - 13]; if (!cell[i]) cell[i] = bsdconv_counter(c.p, CN[o - 13]); *cell[i] += 7; m[i] += 7; }
		if (o < 10) { int i = CID[o % 5]; auto *x = bsdconv_counter(c.p, CN[o % 5]); if (!cell[i]) cell[i] = x; else if (cell[i] != x) return S("the cell of ") + CN[o % 5] + " moved"; }
	}
	for (int i = 0; i < 5; i++) { u64 g = *bsdconv_counter(c.p, CN[i]); if (g != m[CID[i]]) return fmt("counter %s is %llu instead of %llu", CN[i], (unsigned long long)g, (unsigned long long)m[CID[i]]); }
	for (int i = 0; i < 3; i++) if (cell[i] && *cell[i] != m[i]) return "a cell handed out earlier no longer holds the counter";
	return "";
}
static S cdesc(const std::vector<int> &s) { VS v; for (int o : s) v.push_back(std::to_string(o)); VS n; for (int o : s) n.push_back(cop(o)); return "counters " + join(v, ".") + " " + join(n, " "); }
static S leak(const S &how) {
	auto once = [&] { Conv c("utf-8:upper:utf-8"); for (int i = 0; i < 5; i++) { bsdconv_hash_set(c.p, KEYS[i], &X); bsdconv_counter(c.p, fmt("N%d", i).c_str()); } if (how == "del") for (int i = 4; i >= 0; i--) bsdconv_hash_del(c.p, KEYS[i]); };
	once(); once(); long b = alloc::live; for (int i = 0; i < 50; i++) once(); long a = alloc::live;
	return a == b ? "" : fmt("50 instances leave %ld blocks behind", a - b);
}
// names which are beginnings or endings of each other or differ in one place
static S names(int a, int b) {
	VS v; auto put = [&](S s) { for (auto &x : v) if (x == s) return; v.push_back(s); }; put(S(a, 'N')); put(S(b, 'N')); put(S(a, 'N') + S(b, 'M')); put("M" + S(a, 'N')); { S s(a + b, 'N'); s[a] = 'P'; put(s); s[a] = 'N'; s[a - 1] = 'P'; put(s); } static char cell[16];
	Conv c("ascii:ascii"), e("ascii:ascii"); for (int rot = 0; rot < (int)v.size(); rot++) { std::vector<bsdconv_counter_t *> q; for (size_t i = 0; i < v.size(); i++) { auto &n = v[(i + rot) % v.size()]; bsdconv_hash_set(c.p, n.c_str(), &cell[(i + rot) % v.size()]); *bsdconv_counter(e.p, n.c_str()) = 100 + (i + rot) % v.size(); }
		for (size_t i = 0; i < v.size(); i++) { if (bsdconv_hash_get(c.p, v[i].c_str()) != &cell[i]) return fmt("name %d has the value of another", (int)i); S l = v[i]; for (auto &x : l) x = tolower(x); if (*bsdconv_counter(e.p, l.c_str()) != 100 + i) return fmt("counter %d is another one", (int)i); }
		bsdconv_hash_del(c.p, v[rot].c_str()); if (bsdconv_hash_has(c.p, v[rot].c_str())) return "deleted name stays"; for (size_t i = 0; i < v.size(); i++) if ((int)i != rot && !bsdconv_hash_has(c.p, v[i].c_str())) return "another name was deleted";
		bsdconv_counter_reset(e.p, v[rot].c_str()); for (size_t i = 0; i < v.size(); i++) if (*bsdconv_counter(e.p, v[i].c_str()) != ((int)i == rot ? 0 : 100 + i)) return "another counter was reset"; } return "";
}
// n entries at once, deleted in some order, with others set in between
static S crowd(int n, int ord) {
	static std::vector<int> cell(70000); Conv c("ascii:ascii"); std::vector<int> at(n), state(n, 1); for (int i = 0; i < n; i++) { bsdconv_hash_set(c.p, fmt("K%d", i).c_str(), &cell[i]); at[i] = i; } if (ord == 1) std::reverse(at.begin(), at.end()); if (ord == 2) for (int i = 0; i < n; i++) at[i] = i % 2 ? n - 1 - i / 2 : i / 2; if (ord == 3) std::rotate(at.begin(), at.begin() + n / 2, at.end());
	auto look = [&](const char *when) -> S { int st = n > 600 ? n / 97 + 1 : 1; for (int i = 0; i < n; i++) { if (i % st && i > 40 && i < n - 40) continue; S k = fmt("K%d", i); void *w = state[i] == 0 ? nullptr : state[i] == 1 ? &cell[i] : &cell[n]; if (bsdconv_hash_has(c.p, k.c_str()) != (state[i] != 0) || (state[i] && bsdconv_hash_get(c.p, k.c_str()) != w)) return fmt("of %d entries, %d is wrong ", n, i) + when; } return bsdconv_hash_has(c.p, fmt("K%d", n).c_str()) ? "an entry never set is there" : ""; };
	S r = look("after all were set"); for (int i = 0; i < n && r.empty(); i++) { if (i % 3 == 2) { bsdconv_hash_set(c.p, fmt("K%d", at[i]).c_str(), &cell[n]); state[at[i]] = 2; } else { bsdconv_hash_del(c.p, fmt("K%d", at[i]).c_str()); state[at[i]] = 0; } sh->trans++; if (i == n / 2 || i == n / 3) r = look("half way"); } if (r.empty()) r = look("at the end"); if (r.size()) return r;
	std::vector<bsdconv_counter_t *> q; for (int i = 0; i < n; i++) { auto *x = bsdconv_counter(c.p, fmt("C%d", i).c_str()); if (*x) return fmt("counter %d does not start at zero", i); *x = 7 * i + 1; q.push_back(x); } for (int i = 0; i < n; i++) { int j = at[i]; if (bsdconv_counter(c.p, fmt("%c%d", j % 2 ? 'c' : 'C', j).c_str()) != q[j]) return fmt("the cell of counter %d moves", j); if (*q[j] != 7 * (u64)j + 1) return fmt("counter %d is another one", j); if (i % 2) bsdconv_counter_reset(c.p, fmt("C%d", j).c_str()); }
	for (int i = 0; i < n; i++) if (*q[at[i]] != (i % 2 ? 0 : 7 * (u64)at[i] + 1)) return fmt("counter %d after resets of others", at[i]); bsdconv_counter_reset(c.p, NULL); for (int i = 0; i < n; i++) if (*q[i]) return fmt("counter %d is not reset", i); int seen = 0; for (auto *x = c.p->counter; x; x = x->next) seen += x->key[0] == 'C' && isdigit((u8)x->key[1]); if (seen != n) return fmt("%d counters of %d", seen, n); return "";
}
static S replay(const S &d) {
	if (d.compare(0, 6, "crowd ") == 0) { int n, o; sscanf(d.c_str() + 6, "%d %d", &n, &o); return crowd(n, o); }
	if (d.compare(0, 6, "names ") == 0) { int a, b; sscanf(d.c_str() + 6, "%d %d", &a, &b); return names(a, b); }
	if (d.compare(0, 5, "leak ") == 0) return leak(d.substr(5));
	if (d.compare(0, 9, "counters ") == 0) { std::vector<int> s; S l = d.substr(9, d.find(' ', 9) - 9); if (l.size()) for (auto &x : split(l, '.')) s.push_back(atoi(x.c_str())); return counters(s); }
	std::vector<Op> s; if (!parse(d, s)) return "bad descriptor";
	for (int rev = 0; rev < 2; rev++) { Conv a("ascii:ascii"), b("utf-8:utf-8"); World w; w.p[0] = a.p; w.p[1] = b.p; S r = runops(w, s, 2, 5, rev); if (r.size()) return r; }
	return "";
}
static void seqs(const S &name, int nins, int nkeys, int depth) {
	auto os = ops(nins, nkeys); size_t n = os.size();
	explore(name, n * n, [&](u64 it) {
		std::vector<Op> s; g_describe = [&] { return show(s); };
		Conv a("ascii:ascii"), b("utf-8:utf-8"); World w; w.p[0] = a.p; w.p[1] = b.p;
		for (int len = (it == 0 ? 0 : 2); len <= depth; len++) {
			std::vector<size_t> ix(std::max(0, len - 2), 0);
			if (len < 2 && it >= n) continue;
			for (;;) {
				s.clear(); if (len >= 1) s.push_back(os[it / n]); if (len >= 2) s.push_back(os[it % n]); for (size_t x : ix) s.push_back(os[x]);
				bool rev = s.size() & 1; S r = runops(w, s, nins, nkeys, rev); eval(); sh->states++; sh->trans += s.size();
				u64 h = 7; for (int i = 0; i < nins; i++) for (auto &e : w.m[i]) h = h * 131 + e.first * 17 + e.second + i; outcome(h * 0x9E3779B97F4A7C15ull); if (w.m[0].size() > 1) sh->nontrivial++;
				if (r.size()) { violation(show(s), r); return; }
				clear(w, nins, nkeys);
				size_t j = 0; while (j < ix.size() && ++ix[j] == n) ix[j++] = 0;
				if (j == ix.size()) break;
			}
		}
		if (it % 37 == 5) sample(show(s));
	});
}
static void all() {
	seqs("hash, two keys, three values", 1, 2, thorough ? 7 : 6);
	seqs("hash, five keys", 1, 5, thorough ? 5 : 4);
	seqs("hash, three keys", 1, 3, thorough ? 6 : 5);
	seqs("hash, two instances", 2, 2, thorough ? 5 : 4);
	int d = thorough ? 6 : 5;
	explore("counters", NC * NC, [&](u64 it) {
		std::vector<int> s; g_describe = [&] { return cdesc(s); };
		for (int len = 0; len <= d; len++) {
			if (len < 2 && it) continue;
			std::vector<int> ix(std::max(0, len - 2), 0);
			for (;;) {
				s.clear(); if (len >= 1) s.push_back(it / NC); if (len >= 2) s.push_back(it % NC); s.insert(s.end(), ix.begin(), ix.end());
				bool skip = len > 4 && std::count(s.begin(), s.end(), 10) == 0 && len > 5 && (s[0] < 5); // the longest ones only from a state with history
				if (!skip) { S r = counters(s); eval(); sh->states++; sh->trans += s.size(); if (r.size()) { violation(cdesc(s), r); return; } }
				size_t j = 0; while (j < ix.size() && ++ix[j] == NC) ix[j++] = 0;
				if (j == ix.size()) break;
			}
		}
		if (it % 71 == 3) sample(cdesc(s));
	});
	static const int NL[] = {1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000, 5000}; const int NNL = sizeof NL / sizeof *NL;
	explore("long names", NNL * NNL, [&](u64 it) { S d = fmt("names %d %d", NL[it / NNL], NL[it % NNL]); g_describe = [&] { return d; }; sh->states++; S r = names(NL[it / NNL], NL[it % NNL]); eval(); if (r.size()) violation(d, r); });
	{ auto sz = sizes(thorough ? 17000 : 4100, thorough ? 260 : 140); explore("many entries", sz.size() * 4, [&](u64 it) { int n = sz[sz.size() - 1 - it / 4]; S d = fmt("crowd %d %d", n, int(it % 4)); g_describe = [&] { return d; }; sh->states++; S r = crowd(n, it % 4); eval(); outcome(fnv(d)); if (r.size()) violation(d, r); }); }
	explore("release", 2, [&](u64 it) { S h = it ? "del" : "keep"; g_describe = [&] { return "leak " + h; }; S r = leak(h); eval(51); if (r.size()) violation("leak " + h, r); });
}
int main(int argc, char **argv) { return start(argc, argv, all, replay); }
