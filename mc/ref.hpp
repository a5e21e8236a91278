// Independent reference semantics: each equation is evaluated once per point and step, in data-flow order,
// on an unbounded step history; scratch variables are evaluated where they are read (inlined).
#pragma once
#include <vector>
#include <string>
#include <map>
#include <stdexcept>
#include <cmath>
#include <algorithm>

namespace yvref {
typedef long L;
inline double yv_imod(double a, double b) { return std::fmod(a, b); }
struct Ctx;
struct VarDef { const char* name; std::vector<std::string> dims; std::vector<int> kind; bool scratch; };
struct EqDef { int var; L sofs; std::vector<L> misc;
    double (*expr)(Ctx&, L, const L*); bool (*dom)(Ctx&, L, const L*); bool (*step)(Ctx&, L, const L*); };
struct Spec { const char* name; const char* step; std::vector<std::string> dims; int dirn;
    std::vector<VarDef> vars; std::vector<EqDef> eqs; };
extern "C++" Spec the_spec;

// One variable's storage: planes by step; each plane is row-major over the non-step dims.
struct Store {
    const VarDef* d = nullptr;
    bool has_step = false;
    L nslots = 1;
    std::vector<L> first, last, stride;   // non-step dims
    std::vector<int> kind;                // non-step dims: domain dim index or 100
    std::map<L, std::vector<double>> planes;
    L size = 1;
    mutable std::vector<L> lo, hi;        // extent of the indices used so far
    void setup(const VarDef& vd, const std::vector<L>& f, const std::vector<L>& l, L slots) {
        d = &vd; first = f; last = l; nslots = slots; has_step = false; kind.clear();
        for (int k : vd.kind) if (k == -1) has_step = true; else kind.push_back(k);
        stride.assign(f.size(), 1); size = 1;
        for (int i = int(f.size()) - 1; i >= 0; i--) { stride[i] = size; size *= (l[i] - f[i] + 1); }
        planes.clear(); lo.clear(); hi.clear();
    }
    // Position of an element used by an equation.
    L use(const L* i) const {
        if (lo.empty()) { lo.assign(i, i + first.size()); hi = lo; }
        else for (size_t k = 0; k < first.size(); k++) { if (i[k] < lo[k]) lo[k] = i[k]; if (i[k] > hi[k]) hi[k] = i[k]; }
        return pos(i);
    }
    L pos(const L* i) const {
        L q = 0;
        for (size_t k = 0; k < first.size(); k++) {
            if (i[k] < first[k] || i[k] > last[k])
                throw std::out_of_range(std::string("equation reads outside the storage of var ") + d->name);
            q += (i[k] - first[k]) * stride[k];
        }
        return q;
    }
    static L md(L a, L n) { L r = a % n; return r < 0 ? r + n : r; }
    // Plane that holds step 't' if present, else the content of its ring slot.
    std::vector<double>* find(L t) {
        if (!has_step) t = 0;
        auto i = planes.find(t);
        if (i != planes.end()) return &i->second;
        return nullptr;
    }
    std::vector<double>& at(L t) {
        auto* p = find(t);
        if (!p) throw std::out_of_range(std::string("step not stored in var ") + d->name);
        return *p;
    }
};

struct Ctx {
    const Spec* sp = nullptr;
    std::vector<Store> st;
    std::vector<L> first, last;            // overall domain
    std::map<std::vector<L>, double> memo; // scratch values
    L evals = 0;
    L writes = 0;                          // elements of stored variables written.
    int depth = 0;

    double rd(int v, L t) { return st[v].at(t)[0]; }
    template <typename... A> double rd(int v, L t, A... a) { L i[] = { L(a)... }; return st[v].at(t)[st[v].use(i)]; }
    double rs(int v, L t) { return sval(v, t, nullptr, 0); }
    template <typename... A> double rs(int v, L t, A... a) { L i[] = { L(a)... }; return sval(v, t, i, sizeof...(A)); }

    double sval(int v, L t, const L* i, int n) {
        std::vector<L> key{ v };
        key.insert(key.end(), i, i + n);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        // Point in the domain dims.
        std::vector<L> p(sp->dims.size(), 0);
        const auto& vd = sp->vars[v];
        std::vector<L> misc;
        for (size_t k = 0; k < vd.kind.size(); k++)
            if (vd.kind[k] >= 100) misc.push_back(i[k]); else p[vd.kind[k]] = i[k];
        for (int e = int(sp->eqs.size()) - 1; e >= 0; e--) {
            auto& q = sp->eqs[e];
            if (q.var != v || q.misc != misc) continue;
            if (q.dom && !q.dom(*this, t, p.data())) continue;
            if (++depth > 50) throw std::logic_error("scratch recursion");
            double r = q.expr(*this, t, p.data());
            depth--;
            evals++;
            memo[key] = r;
            return r;
        }
        throw std::logic_error(std::string("spec reads undefined scratch value of ") + vd.name);
    }

    // Evaluate step 't' for all points of the domain.
    void step(L t) {
        std::vector<std::pair<int, L>> fresh; // (var, step) planes started in this step.
        for (auto& q : sp->eqs) {
            if (sp->vars[q.var].scratch) continue;
            L zero[8] = { 0 };
            auto& s = st[q.var];
            L ts = t + q.sofs;
            std::pair<int, L> key(q.var, ts);
            if (s.has_step && std::find(fresh.begin(), fresh.end(), key) == fresh.end()) {
                fresh.push_back(key);
                // New plane takes over a ring slot: it starts with the slot's content.
                if (!s.find(ts)) {
                    L from = ts - sp->dirn * s.nslots;
                    auto* p = s.find(from);
                    if (!p) throw std::logic_error(std::string("no previous plane in the slot of var ") + s.d->name);
                    s.planes[ts] = *p;
                }
            }
            memo.clear();
            if (q.step && !q.step(*this, t, zero)) continue;
            std::vector<L> p(first);
            std::vector<std::pair<L, double>> upd;
            bool more = true;
            for (size_t k = 0; k < p.size(); k++) if (first[k] > last[k]) more = false;
            while (more) {
                if (!q.dom || q.dom(*this, t, p.data())) {
                    std::vector<L> i;
                    size_t m = 0;
                    for (int k : s.kind) i.push_back(k >= 100 ? q.misc[m++] : p[k]);
                    double v = q.expr(*this, t, p.data());
                    evals++;
                    upd.emplace_back(s.use(i.data()), v);
                }
                int k = int(p.size()) - 1;
                for (; k >= 0; k--) { if (++p[k] <= last[k]) break; p[k] = first[k]; }
                if (k < 0) more = false;
            }
            auto& pl = s.at(s.has_step ? ts : 0);
            for (auto& u : upd) pl[u.first] = u.second;
            writes += L(upd.size());
        }
    }
    void run(L a, L b) {
        if (a <= b) for (L t = a; t <= b; t++) step(t);
        else for (L t = a; t >= b; t--) step(t);
    }
};
}
