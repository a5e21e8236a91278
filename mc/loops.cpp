#include "loops.hpp"
using namespace std;
// line: index of the description, number of threads, then per dim "b,e,s,a,o,t"
static idx_t flr(idx_t a, idx_t b) { idx_t q = a / b; return (a % b && (a < 0) != (b < 0)) ? q - 1 : q; }

struct Range { vector<pair<idx_t, idx_t>> r; };     // expected sub-ranges of one dim
static Range expect(idx_t b, idx_t e, idx_t s, idx_t a, idx_t o, bool align) {
    Range R;
    if (e <= b) return R;
    idx_t p = b;
    if (align) {
        idx_t aa = min(a, s);
        p = flr(b - o, aa) * aa + o;       // last aligned point that is not after the beginning
    }
    for (; p < e; p += s) R.r.push_back({max(p, b), min(p + s, e)});
    return R;
}
typedef vector<vector<idx_t>> Seq;      // sequence of index tuples (indexed by dim)
// All index tuples of one level in the documented order, given the index of the dim enclosing it (-1: none).
static Seq level_order(const Level& L, const vector<idx_t>& n, const vector<idx_t>& tile, idx_t enc, bool& ordered) {
    Seq out;
    int k = L.dims.size();
    for (int d : L.dims) if (n[d] <= 0) return out;
    vector<idx_t> cur(4, 0);
    if (L.mods & TILE && k >= 2) {
        vector<idx_t> nt(k), ti(k, 0);
        for (int i = 0; i < k; i++) nt[i] = (n[L.dims[i]] + tile[L.dims[i]] - 1) / tile[L.dims[i]];
        while (true) {
            vector<idx_t> lo(k), sz(k), c(k, 0);
            for (int i = 0; i < k; i++) { lo[i] = ti[i] * tile[L.dims[i]]; sz[i] = min(tile[L.dims[i]], n[L.dims[i]] - lo[i]); }
            while (true) {
                for (int i = 0; i < k; i++) cur[L.dims[i]] = lo[i] + c[i];
                out.push_back(cur);
                int i = k - 1;
                while (i >= 0 && ++c[i] == sz[i]) c[i--] = 0;
                if (i < 0) break;
            }
            int i = k - 1;
            while (i >= 0 && ++ti[i] == nt[i]) ti[i--] = 0;
            if (i < 0) break;
        }
        return out;
    }
    bool serp = L.mods & SERP, sq = (L.mods & SQUARE) && k >= 2;
    if (serp && sq && (k > 2 || enc >= 0)) ordered = false;      // order of the combination is not documented
    // Recursive scan; 'prev' is the index of the enclosing dim.
    struct G {
        const Level& L; const vector<idx_t>& n; Seq& out; vector<idx_t> cur; int k; bool serp, sq;
        void go(int i, idx_t prev) {
            if (i == k) { out.push_back(cur); return; }
            int d = L.dims[i];
            if (sq && i == k - 2) {
                int e = L.dims[k - 1];
                auto row_order = [&](idx_t r, bool rev) { for (idx_t j = 0; j < n[e]; j++) { cur[d] = r; cur[e] = rev ? n[e] - 1 - j : j; out.push_back(cur); } };
                for (idx_t p = 0; p < n[d]; p += 2) {
                    bool rev = serp && (p & 2);
                    if (p + 1 == n[d] || n[e] == 1) { row_order(p, rev); if (p + 1 < n[d]) row_order(p + 1, rev); continue; }
                    for (idx_t j = 0; j < n[e]; j++)
                        for (int h = 0; h < 2; h++) { cur[d] = p + (h ^ (j & 1)); cur[e] = rev ? n[e] - 1 - j : j; out.push_back(cur); }
                }
                return;
            }
            for (idx_t j = 0; j < n[d]; j++) {
                idx_t x = serp && prev >= 0 && (prev & 1) ? n[d] - 1 - j : j;
                cur[d] = x;
                go(i + 1, x);
            }
        }
    } g{L, n, out, cur, k, serp, sq};
    g.go(0, enc);
    return out;
}
static Seq order(const Desc& D, size_t l, const vector<idx_t>& n, const vector<idx_t>& tile, idx_t enc, bool& ordered) {
    Seq a = level_order(D.lv[l], n, tile, enc, ordered), out;
    if (l + 1 == D.lv.size()) return a;
    for (auto& p : a)
        for (auto q : order(D, l + 1, n, tile, p[D.lv[l].dims.back()], ordered)) {
            for (int d : D.lv[l].dims) q[d] = p[d];
            out.push_back(q);
        }
    return out;
}
static long execs = 0, visits = 0;
static vector<uint64_t> hashes;

static string run(const string& line) {
    const char* p = line.c_str();
    char* e;
    size_t k = strtol(p, &e, 10); int nt = strtol(e, &e, 10);
    if (k >= descs.size()) return "bad description";
    const Desc& D = descs[k];
    vector<int> dims;
    for (auto& l : D.lv) for (int d : l.dims) dims.push_back(d);
    ScanIndices in;
    for (int d : dims) { in.tile_size[d] = 1; }
    auto srt = dims; sort(srt.begin(), srt.end());
    for (int d : srt) {
        idx_t v[6];
        for (int i = 0; i < 6; i++) { v[i] = strtol(e, &e, 10); if (*e == ',') e++; }
        in.begin[d] = v[0]; in.end[d] = v[1]; in.stride[d] = v[2]; in.align[d] = v[3]; in.align_ofs[d] = v[4]; in.tile_size[d] = v[5];
    }
    bool manual = false;
    for (auto& l : D.lv) manual |= (l.mods & MANUAL) != 0;
    Rec r;
    for (int th = 0; th < (manual ? nt : 1); th++) {
        ScanIndices c = in;
        D.fn(c, nt, th, r);
    }
    execs++; visits += r.v.size();
    // Expected sub-ranges.
    vector<Range> R(4); vector<idx_t> n(4, 1), tile(4, 1);
    idx_t total = 1;
    for (int d : dims) {
        R[d] = expect(in.begin[d], in.end[d], in.stride[d], in.align[d], in.align_ofs[d], D.align);
        n[d] = R[d].r.size(); total *= n[d];
        tile[d] = max(idx_t(1), (in.tile_size[d] + in.stride[d] - 1) / in.stride[d]);
    }
    if (r.over) return "does not stop";
    if (idx_t(r.v.size()) != total) return to_string(r.v.size()) + " sub-ranges visited instead of " + to_string(total);
    bool ordered = true;
    Seq s = order(D, 0, n, tile, -1, ordered);
    uint64_t h = k * 1099511628211ull + nt;
    if (!ordered) {
        auto cmp = [&](auto& a, auto& b) { return a < b; };
        sort(s.begin(), s.end(), cmp);
        stable_sort(r.v.begin(), r.v.end(), [&](const Visit& a, const Visit& b) { for (int d = 0; d < 4; d++) { idx_t x = find(dims.begin(), dims.end(), d) != dims.end() ? a.index[d] : 0, y = find(dims.begin(), dims.end(), d) != dims.end() ? b.index[d] : 0; if (x != y) return x < y; } return false; });
    }
    for (size_t i = 0; i < s.size(); i++)
        for (int d : dims) {
            auto& v = r.v[i];
            if (v.index[d] != s[i][d]) return "visit " + to_string(i) + ": index in dim " + to_string(d) + " is " + to_string(v.index[d]) + " instead of " + to_string(s[i][d]);
            auto x = R[d].r[s[i][d]];
            if (v.start[d] != x.first || v.stop[d] != x.second)
                return "visit " + to_string(i) + ": range in dim " + to_string(d) + " is [" + to_string(v.start[d]) + "," + to_string(v.stop[d]) + ") instead of [" + to_string(x.first) + "," + to_string(x.second) + ")";
            h = (h ^ uint64_t(v.start[d] * 31 + v.stop[d])) * 1099511628211ull;
        }
    hashes.push_back(h);
    return "";
}
int main(int argc, char** argv) {
    int prog = argc > 1 ? open(argv[1], O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
    string l; int c; long bad = 0;
    auto one = [&] {
        if (l.empty()) return;
        if (prog >= 0) { string z = l + '\0'; (void)!pwrite(prog, z.data(), z.size(), 0); }
        string w = run(l);
        if (!w.empty() && bad++ < 20) printf("FAIL %s => %s: %s\n", l.c_str(), descs[strtol(l.c_str(), 0, 10)].name, w.c_str());
        l.clear();
    };
    while ((c = getchar_unlocked()) != EOF) { if (c == '\n') one(); else l += char(c); }
    one();
    if (prog >= 0) (void)!pwrite(prog, "done", 5, 0);
    sort(hashes.begin(), hashes.end()); hashes.erase(unique(hashes.begin(), hashes.end()), hashes.end());
    if (argc > 2) { FILE* f = fopen(argv[2], "wb"); fwrite(hashes.data(), 8, hashes.size(), f); fclose(f); }
    printf("STATS configs=%ld runs=%ld\n", execs, visits);
    return bad ? 1 : 0;
}
