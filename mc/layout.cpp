// Driver for the index helpers: every case of each section is compared with an elementary definition.
// Input lines "sec=<name> args..."; a line enumerates all cases of that section's bound.
#include "yask_stencil.hpp"
#include "fd_coeff.hpp"
#include "mcrt.hpp"
#include <iostream>
#include <sstream>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <set>
using namespace yask;
using namespace std;
typedef long L;
typedef vector<L> LV;
struct LayoutEntry { const char* perm; int n; L (*lay)(const Indices&, const Indices&); Indices (*unlay)(const Indices&, L); L (*mlay)(const LV&, const LV&); LV (*munlay)(L, const LV&); };
extern vector<LayoutEntry> layout_table();

static L cases = 0;
struct Bad { string s; };
#define REQ(c, msg) do { cases++; if (!(c)) { ostringstream o_; o_ << msg; throw Bad{o_.str()}; } } while (0)
// Exceptions may not leave a parallel region.
static string perr;
#define REQP(c, msg) do { cases++; if (perr.empty() && !(c)) { ostringstream o_; o_ << msg; perr = o_.str(); } } while (0)
static void pdone() { if (perr.size()) { Bad b{perr}; perr.clear(); throw b; } }
static string S(const LV& v) { ostringstream o; o << "("; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }

static LV nums(const string& s) { LV r; istringstream is(s); string w; while (getline(is, w, ',')) if (w.size()) r.push_back(stol(w)); return r; }
static bool nxt(LV& i, L lo, L hi) { for (int k = int(i.size()) - 1; k >= 0; k--) { if (++i[k] <= hi) return true; i[k] = lo; } return false; }

template <typename T> static void idiv(L lo, L hi) {
    for (L a = lo; a <= hi; a++)
        for (L b = 1; b <= hi; b++) {
            L q = a / b; if (a % b && a < 0) q--;
            L m = a - q * b;
            REQ(L(idiv_flr(T(a), T(b))) == q, "idiv_flr(" << a << "," << b << ") = " << L(idiv_flr(T(a), T(b))) << ", expected " << q);
            REQ(L(imod_flr(T(a), T(b))) == m, "imod_flr(" << a << "," << b << ") = " << L(imod_flr(T(a), T(b))) << ", expected " << m);
            L c = q + (m ? 1 : 0);
            REQ(L(ceil_idiv_flr(T(a), T(b))) == c, "ceil_idiv_flr(" << a << "," << b << ") = " << L(ceil_idiv_flr(T(a), T(b))) << ", expected " << c);
            REQ(L(round_up_flr(T(a), T(b))) == c * b, "round_up_flr(" << a << "," << b << ")");
            REQ(L(round_down_flr(T(a), T(b))) == q * b, "round_down_flr(" << a << "," << b << ")");
            if (a >= 0) {
                REQ(L(CEIL_DIV(T(a), T(b))) == c, "CEIL_DIV(" << a << "," << b << ")");
                REQ(L(ROUND_UP(T(a), T(b))) == c * b, "ROUND_UP(" << a << "," << b << ")");
                REQ(L(ROUND_DOWN(T(a), T(b))) == q * b, "ROUND_DOWN(" << a << "," << b << ")");
            }
        }
}

static void combos(int nmax) {
    for (int n = 0; n <= nmax; n++) {
        for (int k = 0; k <= n + 2; k++) {
            set<size_t> all;
            for (size_t m = 0; m < (size_t(1) << n); m++) if (__builtin_popcountl(m) == k) all.insert(m);
            REQ(n_choose_k(n, k) == int(all.size()), "n_choose_k(" << n << "," << k << ") = " << n_choose_k(n, k) << ", expected " << all.size());
            if (k > n) continue;
            set<size_t> got;
            for (int r = 0; r < int(all.size()); r++) {
                size_t m = n_choose_k_set(n, k, r);
                REQ(all.count(m), "n_choose_k_set(" << n << "," << k << "," << r << ") = " << m << " has not " << k << " of " << n << " bits");
                REQ(got.insert(m).second, "n_choose_k_set(" << n << "," << k << "," << r << ") = " << m << " was returned before");
            }
        }
    }
}

static void divs(L nmax) {
    for (L n = 0; n <= nmax; n++)
        for (L p = 1; p <= nmax; p++) {
            L sum = 0, mn = n + 1, mx = -1;
            auto all = div_equally_all_sizes(n, p);
            REQ(L(all.size()) == p, "div_equally_all_sizes(" << n << "," << p << ") has " << all.size() << " parts");
            REQ(div_equally_cumu_size_n(n, p, L(-1)) == 0, "div_equally_cumu_size_n(" << n << "," << p << ",-1)");
            for (L i = 0; i < p; i++) {
                L s = div_equally_size_n(n, p, i);
                REQ(s == all[i], "div_equally sizes of " << n << " in " << p << " disagree at part " << i);
                REQ(i == 0 || s <= all[i - 1], "div_equally_size_n(" << n << "," << p << "," << i << ") grows");
                sum += s; mn = min(mn, s); mx = max(mx, s);
                REQ(div_equally_cumu_size_n(n, p, i) == sum, "div_equally_cumu_size_n(" << n << "," << p << "," << i << ") != " << sum);
            }
            REQ(sum == n && mx - mn <= 1, "parts of " << n << " in " << p << " do not add up or are not equal");
        }
}

// Elementary row/column-major position.
static L pos(const LV& sz, const LV& i, bool fi) {
    L p = 0;
    if (fi) for (int k = int(sz.size()) - 1; k >= 0; k--) p = p * sz[k] + i[k];
    else for (size_t k = 0; k < sz.size(); k++) p = p * sz[k] + i[k];
    return p;
}
static LV tv(const IdxTuple& t) { LV r; for (int i = 0; i < t.get_num_dims(); i++) r.push_back(t[i]); return r; }
static LV iv(const Indices& t) { LV r; for (int i = 0; i < t.get_num_dims(); i++) r.push_back(t[i]); return r; }
static const char* DN[] = { "a", "b", "c", "d", "e", "f" };

static void spaces(int n, L mx, bool fi, int t0, int t1, int omp) {
    LV sz(n, 1);
    do {
        IdxTuple t; for (int i = 0; i < n; i++) t.add_dim_back(DN[i], sz[i]);
        t.set_first_inner(fi);
        Indices ix(t);
        L np = 1; for (L s : sz) np *= s;
        REQ(t.product() == np && ix.product() == np, "product of " << S(sz));
        vector<LV> order;
        LV i(n, 0);
        vector<LV> byp(np);
        for (L q = 0; q < np; q++) {
            // decode independently.
            LV p(n); L r = q;
            if (fi) for (int k = 0; k < n; k++) { p[k] = r % sz[k]; r /= sz[k]; }
            else for (int k = n - 1; k >= 0; k--) { p[k] = r % sz[k]; r /= sz[k]; }
            byp[q] = p;
            IdxTuple pt(t); for (int k = 0; k < n; k++) pt[k] = p[k];
            REQ(pos(sz, p, fi) == q, "driver");
            REQ(L(t.layout(pt)) == q, "Tuple" << S(sz) << ".layout" << S(p) << " = " << t.layout(pt) << ", expected " << q << " fi=" << fi);
            REQ(tv(t.unlayout(q)) == p, "Tuple" << S(sz) << ".unlayout(" << q << ") = " << S(tv(t.unlayout(q))) << ", expected " << S(p) << " fi=" << fi);
            REQ(iv(ix.unlayout(fi, q)) == p, "Indices" << S(sz) << ".unlayout(" << q << ") = " << S(iv(ix.unlayout(fi, q))) << ", expected " << S(p) << " fi=" << fi);
            // non-strict: offsets in another order, with a missing dim.
            IdxTuple rv; for (int k = n - 1; k >= 0; k--) rv.add_dim_back(DN[k], p[k]);
            rv.add_dim_back("zz", 5);
            REQ(L(t.layout(rv, false)) == q, "Tuple" << S(sz) << ".layout(non-strict)" << S(p) << " = " << t.layout(rv, false) << ", expected " << q);
            if (n > 1) {
                IdxTuple ms = rv.remove_dim(DN[0]);
                LV p0 = p; p0[0] = 0;
                REQ(L(t.layout(ms, false)) == pos(sz, p0, fi), "Tuple" << S(sz) << ".layout(missing dim)" << S(p));
            }
        }
        for (L q = 0; q < np; q++) {
            IdxTuple pt(t); for (int k = 0; k < n; k++) pt[k] = byp[q][k];
            t.next_index(pt);
            REQ(tv(pt) == byp[(q + 1) % np], "Tuple" << S(sz) << ".next_index" << S(byp[q]) << " = " << S(tv(pt)));
            Indices pi(t); for (int k = 0; k < n; k++) pi[k] = byp[q][k];
            ix.next_index(fi, pi);
            REQ(iv(pi) == byp[(q + 1) % np], "Indices" << S(sz) << ".next_index" << S(byp[q]) << " = " << S(iv(pi)));
        }
        for (L stop : { np, np / 2 }) {
            L c = 0;
            bool r = t.visit_all_points([&](const IdxTuple& p, size_t id, int th) {
                REQ(L(id) == c && c < np && tv(p) == byp[c], "Tuple" << S(sz) << ".visit_all_points: call " << c << " is " << S(tv(p)) << " #" << id);
                return ++c <= stop; });
            REQ(c == min(stop + 1, np) && r == (stop >= np), "Tuple" << S(sz) << ".visit_all_points made " << c << " calls, returned " << r);
            c = 0;
            r = ix.visit_all_points(fi, [&](const Indices& p, size_t id) {
                REQ(L(id) == c && c < np && iv(p) == byp[c], "Indices" << S(sz) << ".visit_all_points: call " << c << " is " << S(iv(p)) << " #" << id);
                return ++c <= stop; });
            REQ(c == min(stop + 1, np) && r == (stop >= np), "Indices" << S(sz) << ".visit_all_points made " << c << " calls, returned " << r);
        }
        {
            yask_num_threads[0] = t0; yask_num_threads[1] = t1;
            L nth = (t0 ? t0 : omp) * max(1, t1);
            vector<int> seen(np, 0);
            t.visit_all_points_in_parallel([&](const IdxTuple& p, size_t id, int th) {
                REQP(L(id) < np && perr.empty() && tv(p) == byp[id] && !seen[id]++, "Tuple" << S(sz) << ".visit_all_points_in_parallel: " << S(tv(p)) << " #" << id << " with threads " << t0 << "," << t1);
                REQP(th >= 0 && th < nth, "Tuple.visit_all_points_in_parallel: thread " << th << " of " << nth);
                return true; });
            pdone();
            for (L q = 0; q < np; q++) REQ(seen[q] == 1, "Tuple" << S(sz) << ".visit_all_points_in_parallel skips #" << q << " with threads " << t0 << "," << t1);
            seen.assign(np, 0);
            ix.visit_all_points_in_parallel(fi, [&](const Indices& p, size_t id, int th) {
                REQP(L(id) < np && perr.empty() && iv(p) == byp[id] && !seen[id]++, "Indices" << S(sz) << ".visit_all_points_in_parallel: " << S(iv(p)) << " #" << id << " with threads " << t0 << "," << t1);
                REQP(th >= 0 && th < nth, "Indices.visit_all_points_in_parallel: thread " << th << " of " << nth);
                return true; });
            pdone();
            for (L q = 0; q < np; q++) REQ(seen[q] == 1, "Indices" << S(sz) << ".visit_all_points_in_parallel skips #" << q << " with threads " << t0 << "," << t1);
            yask_num_threads[0] = yask_num_threads[1] = 0;
        }
    } while (nxt(sz, 1, mx));
}

static void layouts(int n, L mx) {
    auto tab = layout_table();
    for (auto& e : tab) {
        if (e.n != n) continue;
        LV sz(n, 1);
        do {
            Indices is(idx_t(0), n); for (int k = 0; k < n; k++) is[k] = sz[k];
            L np = 1; for (L s : sz) np *= s;
            LV i(n, 0);
            while (true) {
                // perm names dims slowest first, 1-based.
                L want = 0;
                for (int k = 0; k < n; k++) { int d = e.perm[k] - '1'; want = want * sz[d] + i[d]; }
                Indices ii(idx_t(0), n); for (int k = 0; k < n; k++) ii[k] = i[k];
                L got = e.lay(is, ii);
                REQ(got == want && got >= 0 && got < np, "Layout_" << e.perm << S(sz) << ".layout" << S(i) << " = " << got << ", expected " << want);
                LV back = iv(e.unlay(is, want));
                REQ(back == i, "Layout_" << e.perm << S(sz) << ".unlayout(" << want << ") = " << S(back) << ", expected " << S(i));
                REQ(e.mlay(i, sz) == want, "LAYOUT_" << e.perm << S(i) << S(sz) << " = " << e.mlay(i, sz) << ", expected " << want);
                REQ(e.munlay(want, sz) == i, "UNLAYOUT_" << e.perm << "(" << want << ")" << S(sz) << " = " << S(e.munlay(want, sz)));
                int k = n - 1;
                for (; k >= 0; k--) { if (++i[k] < sz[k]) break; i[k] = 0; }
                if (k < 0) break;
            }
        } while (nxt(sz, 1, mx));
    }
}

// Compact factors.
static void factors(int K, L nmax, L pmax) {
    for (L N = 1; N <= nmax; N++) {
        // All factorizations of N into K factors.
        vector<LV> fs;
        function<void(LV, L)> rec = [&](LV p, L r) {
            if (int(p.size()) == K - 1) { p.push_back(r); fs.push_back(p); return; }
            for (L f = 1; f <= r; f++) if (r % f == 0) { LV q = p; q.push_back(f); rec(q, r / f); }
        };
        rec({}, N);
        LV pre(K, 0);
        do {
            IdxTuple t; for (int i = 0; i < K; i++) t.add_dim_back(DN[i], pre[i]);
            LV g = tv(t.get_compact_factors(N));
            L best = -1, bestk = -1;
            for (auto& f : fs) {
                L m = *max_element(f.begin(), f.end());
                bool keep = true;
                for (int i = 0; i < K; i++) if (pre[i] > 0 && f[i] != pre[i]) keep = false;
                if (best < 0 || m < best) best = m;
                if (keep && (bestk < 0 || m < bestk)) bestk = m;
            }
            L prod = 1; for (L x : g) { prod *= x; REQ(x >= 1, "factors of " << N << " for " << S(pre) << " are " << S(g)); }
            REQ(int(g.size()) == K && prod == N, "factors of " << N << " for " << S(pre) << " are " << S(g));
            L gm = *max_element(g.begin(), g.end());
            if (bestk > 0) {
                for (int i = 0; i < K; i++) REQ(pre[i] == 0 || g[i] == pre[i], "factors of " << N << " for " << S(pre) << " are " << S(g) << ": a given factor is not kept");
                REQ(gm == bestk, "factors of " << N << " for " << S(pre) << " are " << S(g) << ": not compact, a largest factor of " << bestk << " is possible");
            } else
                REQ(gm == best, "factors of " << N << " for " << S(pre) << " are " << S(g) << ": not compact, a largest factor of " << best << " is possible");
        } while (nxt(pre, 0, pmax));
    }
}

// Arithmetic and comparison of tuples and index vectors.
static void arith(int n, L lo, L hi) {
    LV a(n, lo);
    do {
        IdxTuple ta; for (int i = 0; i < n; i++) ta.add_dim_back(DN[i], a[i]);
        Indices ia(ta);
        L s = 0, mn = a[0], mx = a[0]; for (L x : a) { s += x; mn = min(mn, x); mx = max(mx, x); }
        L pr = 1; for (L x : a) pr *= x;
        REQ(ta.sum() == s && ia.sum() == s && ta.min() == mn && ta.max() == mx && ta.product() == pr && ia.product() == pr, "reductions of " << S(a));
        REQ(tv(ia.make_tuple(ta)) == a, "make_tuple of " << S(a));
        for (int i = 0; i < n; i++) {
            LV b; for (int j = 0; j < n; j++) if (j != i) b.push_back(a[j]);
            REQ(tv(ta.remove_dim(i)) == b && tv(ta.remove_dim(string(DN[i]))) == b, "remove_dim(" << i << ") of " << S(a));
            IdxTuple x(ta); x.set_val(DN[i], 77);
            LV c = a; c[i] = 77;
            REQ(tv(x) == c && x[DN[i]] == 77 && x.lookup_posn(DN[i]) == i, "set_val by name in " << S(a));
        }
        LV b(n, lo);
        do {
            IdxTuple tb; for (int i = 0; i < n; i++) tb.add_dim_back(DN[i], b[i]);
            Indices ib(tb);
            LV sum, dif, mul, mi, ma;
            bool lt = false, gt = false, eq = a == b;
            for (int i = 0; i < n; i++) {
                sum.push_back(a[i] + b[i]); dif.push_back(a[i] - b[i]); mul.push_back(a[i] * b[i]); mi.push_back(min(a[i], b[i])); ma.push_back(max(a[i], b[i]));
                if (!lt && !gt) { if (a[i] < b[i]) lt = true; if (a[i] > b[i]) gt = true; }
            }
            string w = S(a) + " and " + S(b);
            REQ(tv(ta.add_elements(tb)) == sum && iv(ia.add_elements(ib)) == sum, "add_elements of " << w);
            REQ(tv(ta.sub_elements(tb)) == dif && iv(ia.sub_elements(ib)) == dif, "sub_elements of " << w);
            REQ(tv(ta.mult_elements(tb)) == mul && iv(ia.mul_elements(ib)) == mul, "mult_elements of " << w);
            REQ(tv(ta.min_elements(tb)) == mi && iv(ia.min_elements(ib)) == mi, "min_elements of " << w);
            REQ(tv(ta.max_elements(tb)) == ma && iv(ia.max_elements(ib)) == ma, "max_elements of " << w);
            REQ((ta == tb) == eq && (ia == ib) == eq && (ta != tb) == !eq && (ia != ib) == !eq, "equality of " << w);
            REQ((ta < tb) == lt && (ia < ib) == lt && (ta > tb) == gt && (ia > ib) == gt && (ta <= tb) == (lt || eq) && (ta >= tb) == (gt || eq), "order of " << w);
            bool dv = true; for (L x : b) if (!x) dv = false;
            if (dv) { LV q; for (int i = 0; i < n; i++) q.push_back(a[i] / b[i]); REQ(iv(ia.div_elements(ib)) == q, "div_elements of " << w); }
            // Other order of dims: by-name matching.
            IdxTuple rb; for (int i = n - 1; i >= 0; i--) rb.add_dim_back(DN[i], b[i]);
            rb.add_dim_front("zz", 9);
            REQ(tv(ta.add_elements(rb, false)) == sum, "add_elements by name of " << w);
            IdxTuple u(ta); u.set_vals(rb, false); REQ(tv(u) == b, "set_vals of " << w);
            u = ta; u.set_vals(rb, true); LV bz = b; bz.push_back(9); REQ(tv(u) == bz, "set_vals (add) of " << w);
            u = ta.make_union_with(rb); LV az = a; az.push_back(9); REQ(tv(u) == az, "make_union_with of " << w);
            REQ(!ta.are_dims_same(rb) && ta.are_dims_same(tb, true), "are_dims_same of " << w);
            IdxTuple rb2 = rb.remove_dim("zz");
            REQ(ta.are_dims_same(rb2) && ta.are_dims_same(rb2, true) == (n == 1), "are_dims_same (order) of " << w);
        } while (nxt(b, lo, hi));
        for (L c = lo; c <= hi; c++) {
            LV sum, dif, mul, mi, ma, dv;
            for (L x : a) { sum.push_back(x + c); dif.push_back(x - c); mul.push_back(x * c); mi.push_back(min(x, c)); ma.push_back(max(x, c)); if (c) dv.push_back(x / c); }
            REQ(tv(ta.add_elements(c)) == sum && iv(ia.add_const(c)) == sum, "add const " << c << " to " << S(a));
            REQ(tv(ta.sub_elements(c)) == dif && iv(ia.sub_const(c)) == dif, "sub const " << c << " from " << S(a));
            REQ(tv(ta.mult_elements(c)) == mul && iv(ia.mul_const(c)) == mul, "mul const " << c << " with " << S(a));
            REQ(tv(ta.min_elements(c)) == mi && iv(ia.min_const(c)) == mi, "min const " << c << " with " << S(a));
            REQ(tv(ta.max_elements(c)) == ma && iv(ia.max_const(c)) == ma, "max const " << c << " with " << S(a));
        }
        LV ng, ab; for (L x : a) { ng.push_back(-x); ab.push_back(x < 0 ? -x : x); }
        REQ(tv(ta.neg_elements()) == ng && tv(ta.abs_elements()) == ab, "neg/abs of " << S(a));
    } while (nxt(a, lo, hi));
}

static void parfor(L lo, L hi, L smax, int t0, int t1, int omp) {
    for (L b = lo; b <= hi; b++) for (L e = lo; e <= hi; e++) for (L s = 1; s <= smax; s++) {
        for (int seq = 0; seq < 2; seq++) {
            yask_num_threads[0] = t0; yask_num_threads[1] = t1;
            map<L, int> seen;
            L nth = (t0 ? t0 : omp) * max(1, t1);
            auto v = [&](idx_t x, idx_t y, idx_t th) {
                REQP(x >= b && x < e && (x - b) % s == 0 && y == min(x + s, e), "yask_parallel_for(" << b << "," << e << "," << s << ") with threads " << t0 << "," << t1 << " visits [" << x << "," << y << ")");
                REQP(!seen[x]++, "yask_parallel_for(" << b << "," << e << "," << s << ") with threads " << t0 << "," << t1 << " visits " << x << " twice");
                REQP(th >= 0 && th < nth, "yask_parallel_for(" << b << "," << e << "," << s << "): thread " << th << " of " << nth);
            };
            if (seq) yask_for(b, e, s, v); else yask_parallel_for(b, e, s, v);
            pdone();
            L n = e > b ? (e - b + s - 1) / s : 0;
            REQ(L(seen.size()) == n, "yask_parallel_for(" << b << "," << e << "," << s << ") with threads " << t0 << "," << t1 << " makes " << seen.size() << " visits, expected " << n);
        }
    }
    yask_num_threads[0] = yask_num_threads[1] = 0;
}

int main(int argc, char** argv) {
    char* prog = nullptr;
    if (argc > 1) {
        int fd = open(argv[1], O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && !ftruncate(fd, 4096)) { void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) prog = (char*)p; }
    }
    string line; L configs = 0; int nfail = 0;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        if (prog) strncpy(prog, line.c_str(), 4095);
        map<string, string> kv;
        istringstream is(line); string w;
        while (is >> w) { auto q = w.find('='); kv[w.substr(0, q)] = q == string::npos ? "" : w.substr(q + 1); }
        auto I = [&](const char* k) { return kv.count(k) ? stol(kv[k]) : 0L; };
        string err;
        mcrt::set_omp_threads(int(I("omp") ? I("omp") : 2));
        mcrt::thread_order = int(I("to")); 
        auto res = mcrt::run_ranks(1, [&](int) {
            omp_set_max_active_levels(I("t1") > 1 ? 2 : 1);
            try {
                string s = kv["sec"];
                if (s == "idiv") { if (I("int")) idiv<int>(I("lo"), I("hi")); else idiv<idx_t>(I("lo"), I("hi")); }
                else if (s == "combo") combos(int(I("n")));
                else if (s == "div") divs(I("n"));
                else if (s == "space") spaces(int(I("n")), I("max"), I("fi"), int(I("t0")), int(I("t1")), int(I("omp") ? I("omp") : 2));
                else if (s == "layout") layouts(int(I("n")), I("max"));
                else if (s == "factors") factors(int(I("k")), I("n"), I("pre"));
                else if (s == "arith") arith(int(I("n")), I("lo"), I("hi"));
                else if (s == "parfor") parfor(I("lo"), I("hi"), I("s"), int(I("t0")), int(I("t1")), int(I("omp") ? I("omp") : 2));
                else throw Bad{"unknown section"};
            }
            catch (Bad& b) { err = b.s; }
        });
        if (err.empty() && !res.ok) err = res.what;
        configs++;
        if (err.size()) { cout << "FAIL " << line << " => " << err << endl; nfail++; }
    }
    if (prog) strcpy(prog, "done");
    cout << "STATS configs=" << configs << " cases=" << cases << endl;
    return nfail ? 1 : 0;
}
