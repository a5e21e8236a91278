// Driver: enumerates sequences of variable-access calls on the real kernel and compares every result and the whole
// stored content with an exact map.  One job per input line:
//   mode=<elem|hist|slice|hslice> var=<name> n=<ranks> th=<threads> cm=<chunk mode> depth=<d> user=<spec> alloc=<dim:n,...> misc=<dim:first,...> | <options>
// elem: every single element access on the full candidate grid.  hist: every sequence of element accesses up to 'depth' over a
// reduced grid.  slice: every slice call on the candidate grid.  hslice: sequences mixing slice and element calls.
#include "drv.hpp"
using namespace drv;
using namespace std;

struct Job { map<str, str> kv; str opts, line;
    str get(const str& k, const str& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    L num(const str& k, L d) const { auto i = kv.find(k); return i == kv.end() ? d : stol(i->second); } };
static bool parse(const str& line, Job& j) {
    auto bar = line.find('|');
    if (bar == str::npos) return false;
    j.line = line; j.opts = line.substr(bar + 1);
    istringstream is(line.substr(0, bar)); str w;
    while (is >> w) { auto eq = w.find('='); if (eq == str::npos) return false; j.kv[w.substr(0, eq)] = w.substr(eq + 1); }
    return true;
}
static vector<str> split(const str& s, char c) { vector<str> r; istringstream is(s); str w; while (getline(is, w, c)) r.push_back(w); return r; }

struct Bad { str what; };
[[noreturn]] static void bad(const str& s) { throw Bad{s}; }
static str fmt(const LV& i) { str s = "("; for (size_t k = 0; k < i.size(); k++) s += (k ? "," : "") + to_string(i[k]); return s + ")"; }
static L md(L a, L n) { L r = a % n; return r < 0 ? r + n : r; }

// The model: values by (slot, indices), and the window of valid steps.
struct Model {
    LV first, last;          // per dim; step dim: of window.
    int sd = -1;             // position of step dim.
    L nslots = 1;
    vector<double> val;
    LV strides;
    void setup() {
        strides.assign(first.size(), 1);
        L n = 1;
        for (int k = int(first.size()) - 1; k >= 0; k--) { strides[k] = n; n *= last[k] - first[k] + 1; }
        val.assign(n, 0);
    }
    L pos(const LV& i) const {
        L p = 0;
        for (size_t k = 0; k < i.size(); k++) p += strides[k] * (int(k) == sd ? md(i[k], nslots) : i[k] - first[k]);
        return p;
    }
    bool in(const LV& i, bool step) const {
        for (size_t k = 0; k < i.size(); k++) if ((step || int(k) != sd) && (i[k] < first[k] || i[k] > last[k])) return false;
        return true;
    }
    bool wrap = false;
    void touch(L t) {
        if (sd < 0 || wrap) return;
        if (t < first[sd]) { first[sd] = t; last[sd] = t + nslots - 1; }
        else if (t > last[sd]) { last[sd] = t; first[sd] = t - nslots + 1; }
    }
};

struct Test {
    const Job& j; Stats& st;
    yk_solution_ptr soln; yk_var_ptr v;
    vector<str> dims; vector<int> kind;   // -1 step, 0 domain, 1 misc
    Model m;
    LV dfirst, dlast;
    L ctr = 0;
    bool sp;
    Test(const Job& j, Stats& st) : j(j), st(st) { }
    double next() { ctr++; return double((ctr * 7) % 1000 + 1); }

    void make(int rank) {
        auto env = fac().new_env();
        soln = fac().new_solution(env);
        str rest = soln->apply_command_line_options(j.opts);
        if (rest.find_first_not_of(' ') != str::npos) throw runtime_error("driver: unknown option " + rest);
        str u = j.get("user");
        if (u.size()) {   // new:dim,dim  or fixed:dim.size,dim.size
            auto p = split(u, ':');
            vector<str> dn; vector<idx_t> sz;
            for (auto& d : split(p.size() > 1 ? p[1] : "", ',')) { auto q = split(d, '.'); dn.push_back(q[0]); if (q.size() > 1) sz.push_back(stol(q[1])); }
            v = p[0] == "fixed" ? soln->new_fixed_size_var(j.get("var"), dn, sz) : soln->new_var(j.get("var"), dn);
        } else v = soln->get_var(j.get("var"));
        auto smd = soln->get_misc_dim_names();
        for (auto& a : split(j.get("alloc"), ',')) { auto q = split(a, ':'); v->set_alloc_size(q[0], stol(q[1])); }
        for (auto& a : split(j.get("misc"), ',')) { auto q = split(a, ':'); v->set_first_misc_index(q[0], stol(q[1])); }
        for (auto& a : split(j.get("pad"), ',')) { auto q = split(a, ':'); v->set_left_min_pad_size(q[0], stol(q[1])); v->set_right_min_pad_size(q[0], stol(q[2])); }
        for (auto& a : split(j.get("halo"), ',')) { auto q = split(a, ':'); v->set_left_halo_size(q[0], stol(q[1])); v->set_right_halo_size(q[0], stol(q[2])); }
        soln->prepare_solution();
        if (j.num("start", 0)) { for (auto& q : soln->get_vars()) q->set_all_elements_same(0); soln->run_solution(0, j.num("start", 0) - 1); }
        if (!v->is_storage_allocated()) v->alloc_storage();
        soln->set_step_wrap(j.num("wrap", 0));
        if (j.get("premisc").size()) for (auto& a : split(j.get("premisc"), ',')) { auto q = split(a, ':'); v->set_first_misc_index(q[0], stol(q[1])); }
        dims = v->get_dim_names();
        auto dd = soln->get_domain_dim_names();
        sp = soln->get_element_bytes() == 4;
        idx_t_vec f = v->get_first_local_index_vec(), l = v->get_last_local_index_vec(), al = v->get_alloc_size_vec();
        L tot = 1;
        for (size_t k = 0; k < dims.size(); k++) {
            bool step = dims[k] == soln->get_step_dim_name();
            bool dom = find(dd.begin(), dd.end(), dims[k]) != dd.end();
            kind.push_back(step ? -1 : dom ? 0 : 1);
            m.first.push_back(v->get_first_local_index(dims[k]));
            m.last.push_back(v->get_last_local_index(dims[k]));
            if (m.first[k] != f.at(k) || m.last[k] != l.at(k)) bad("index-vector query differs from the per-dim query in " + dims[k]);
            if (m.last[k] - m.first[k] + 1 != v->get_alloc_size(dims[k]) || v->get_alloc_size(dims[k]) != al.at(k)) bad("allocation size of " + dims[k] + " differs from its index range");
            tot *= al.at(k);
            if (step) { m.sd = int(k); m.nslots = al[k];
                if (v->get_first_valid_step_index() != m.first[k] || v->get_last_valid_step_index() != m.last[k]) bad("valid-step queries differ from local-index queries");
            }
            if (kind[k] == 1 && (v->get_first_misc_index(dims[k]) != m.first[k] || v->get_last_misc_index(dims[k]) != m.last[k])) bad("misc-index queries differ from local-index queries");
            if (dom) {
                L a = v->get_first_rank_domain_index(dims[k]), b = v->get_last_rank_domain_index(dims[k]);
                dfirst.push_back(a); dlast.push_back(b);
                L hl = v->get_left_halo_size(dims[k]), hr = v->get_right_halo_size(dims[k]);
                if (b - a + 1 != v->get_rank_domain_size(dims[k])) bad("rank-domain size of " + dims[k] + " differs from its index range");
                if (v->get_first_rank_halo_index(dims[k]) != a - hl || v->get_last_rank_halo_index(dims[k]) != b + hr) bad("halo indices of " + dims[k] + " do not match the halo sizes");
                if (a - v->get_left_pad_size(dims[k]) != m.first[k] || b + v->get_right_pad_size(dims[k]) != m.last[k]) bad("pad sizes of " + dims[k] + " do not match the index range");
                if (v->get_left_extra_pad_size(dims[k]) != v->get_left_pad_size(dims[k]) - hl || v->get_right_extra_pad_size(dims[k]) != v->get_right_pad_size(dims[k]) - hr) bad("extra-pad sizes of " + dims[k] + " do not match");
                if (v->get_left_extra_pad_size(dims[k]) < 0 || v->get_right_extra_pad_size(dims[k]) < 0) bad("halo of " + dims[k] + " is larger than the padding");
                if (!v->is_fixed_size() && (a != soln->get_first_rank_domain_index(dims[k]) || b != soln->get_last_rank_domain_index(dims[k]))) bad("domain of var and solution differ in " + dims[k]);
            } else { dfirst.push_back(m.first[k]); dlast.push_back(m.last[k]); }
        }
        if (v->get_num_storage_elements() != tot) bad("get_num_storage_elements() differs from the product of the allocation sizes");
        if (v->get_num_dims() != int(dims.size())) bad("get_num_dims() is wrong");
        for (auto& d : dims) if (!v->is_dim_used(d)) bad("is_dim_used() is wrong");
        if (v->is_dim_used("no_such_dim")) bad("is_dim_used() is wrong");
        m.setup(); m.wrap = wrap();
        fill(0);
    }
    bool each(const LV& f, const LV& l, function<void(const LV&)> fn) {
        for (size_t k = 0; k < f.size(); k++) if (f[k] > l[k]) return false;
        LV i = f;
        do fn(i); while (Session::next(i, f, l));
        return true;
    }
    // Give each element its own value, one by one.
    double ival(L q) const { return mode_prod ? ((q * 5 / 3) % 4 == 0 ? -2 : (q % 3 == 0 ? 0.5 : (q % 5 == 1 ? -1 : 1)) ) : neg ? -double((q * 37) % 911 + 1) : double((q * 37) % 911 - 300); }
    bool mode_prod = false, neg = false;
    vector<double> ref0;
    void fill(int) {
        each(m.first, m.last, [&](const LV& i) {
            double x = ival(m.pos(i));
            if (v->set_element(x, i) != 1) bad("set_element" + fmt(i) + " reports no effect");
            m.val[m.pos(i)] = x;
        });
        check("after initialising every element");
        if (addr.empty()) learn();
        auto* b = (char*)v->get_raw_storage_buffer();
        image.assign(b, b + v->get_num_storage_bytes());
    }
    vector<char> image;
    // Address of each element in storage, found by observing which bytes a write changes.
    vector<size_t> addr;
    void learn() {
        size_t es = sp ? 4 : 8;
        addr.assign(m.val.size(), 0);
        set<size_t> used;
        auto* b = (char*)v->get_raw_storage_buffer();
        auto before = snap();
        each(m.first, m.last, [&](const LV& i) {
            L p = m.pos(i);
            v->set_element(123457, i);
            size_t q = 0, cnt = 0;
            for (size_t k = 0; k + es <= before.size(); k += es) if (memcmp(b + k, &before[k], es)) { q = k; cnt++; }
            if (cnt != 1) bad("set_element" + fmt(i) + " of " + v->get_name() + " changes " + to_string(cnt) + " stored values");
            if (!used.insert(q).second) bad("element " + fmt(i) + " of " + v->get_name() + " shares its location with another one");
            addr[p] = q;
            v->set_element(m.val[p], i);
            if (memcmp(b, before.data(), before.size())) bad("rewriting " + fmt(i) + " does not restore the storage");
        });
    }
    // Whole content via the storage.
    void quick(const str& when) {
        window(when);
        auto* b = (char*)v->get_raw_storage_buffer();
        st.compared += m.val.size();
        for (size_t p = 0; p < m.val.size(); p++) {
            double g = sp ? double(*(float*)(b + addr[p])) : *(double*)(b + addr[p]);
            if (!(g == m.val[p])) { check(when); bad(when + ": stored value differs but element reads do not"); }
        }
    }
    // Whole content via element reads.
    void check(const str& when) {
        window(when);
        each(m.first, m.last, [&](const LV& i) {
            double g = v->get_element(i), w = m.val[m.pos(i)];
            st.compared++;
            if (!(g == w)) { ostringstream o; o << when << ": element " << fmt(i) << " of " << v->get_name() << " is " << g << ", expected " << w; bad(o.str()); }
        });
    }
    void window(const str& when) {
        if (m.sd < 0 || j.num("wrap", 0)) return;
        auto& d = dims[m.sd];
        L a = v->get_first_local_index(d), b = v->get_last_local_index(d);
        if (a != m.first[m.sd] || b != m.last[m.sd] || a != v->get_first_valid_step_index() || b != v->get_last_valid_step_index())
            bad(when + ": valid steps of " + v->get_name() + " are " + to_string(a) + ".." + to_string(b) + ", expected " + to_string(m.first[m.sd]) + ".." + to_string(m.last[m.sd]));
    }
    uint64_t hash() const {
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](uint64_t x) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; };
        for (char c : j.get("var") + j.opts) mix(c);
        if (m.sd >= 0) mix(m.first[m.sd]);
        for (double d : m.val) mix(uint64_t(int64_t(d * 2)));
        return h;
    }
    // Quick check that raw storage holds exactly the model's image: positions whose value did not change in the model keep their bytes.
    // (Used after calls that must have no effect.)
    void unchanged(const str& when, const vector<char>& before) {
        auto* b = (char*)v->get_raw_storage_buffer();
        if (memcmp(b, before.data(), before.size())) bad(when + ": storage was modified by a call without effect");
        window(when);
    }
    vector<char> snap() { auto* b = (char*)v->get_raw_storage_buffer(); return vector<char>(b, b + v->get_num_storage_bytes()); }
    // After a write of 'n' elements: at most n elements' bytes differ.
    void changed(const str& when, const vector<char>& before, L n) {
        size_t es = sp ? 4 : 8; L d = 0;
        auto* b = (char*)v->get_raw_storage_buffer();
        for (size_t q = 0; q < before.size(); q += es) if (memcmp(b + q, &before[q], es)) d++;
        if (d > n) bad(when + ": " + to_string(d) + " stored values changed, at most " + to_string(n) + " expected");
        window(when);
    }

    // Candidate indices per dim.  level 0: full grid; 1: reduced.
    LV cand(size_t k, int level) const {
        set<L> s;
        L f = m.first[k], l = m.last[k];
        if (kind[k] == -1) {
            if (level == 0) for (L t = f - m.nslots - 1; t <= l + m.nslots + 1; t++) s.insert(t);
            else if (level == 1) s = {f - 2, f - 1, f, l, l + 1, l + m.nslots + 1};
            else s = {f - 1, f, l, l + 1};
        } else {
            if (level == 0) for (L t = f - 2; t <= l + 2; t++) s.insert(t);
            else if (level == 1) s = {f - 1, f, dfirst[k] - 1, dfirst[k], (dfirst[k] + dlast[k]) / 2, dlast[k], dlast[k] + 1, l, l + 1};
            else if (level == 2) s = {f, (dfirst[k] + dlast[k]) / 2, l, l + 1};
            else s = {f - 1, dlast[k]};
        }
        return LV(s.begin(), s.end());
    }
    void grid(int level, size_t maxpts, function<void(const LV&)> fn) {
        vector<LV> c;
        size_t n = 1;
        for (size_t k = 0; k < dims.size(); k++) { c.push_back(cand(k, level)); n *= c.back().size(); }
        // Shrink until it fits: the longest lists lose their middle.
        while (n > maxpts) {
            size_t b = 0;
            for (size_t k = 0; k < c.size(); k++) if (c[k].size() > c[b].size()) b = k;
            if (c[b].size() <= 2) break;
            n /= c[b].size(); c[b].erase(c[b].begin() + c[b].size() / 2); n *= c[b].size();
        }
        LV z(c.size(), 0), e, i(c.size());
        for (auto& x : c) e.push_back(x.size() - 1);
        LV p = z;
        do { for (size_t k = 0; k < c.size(); k++) i[k] = c[k][p[k]]; fn(i); } while (Session::next(p, z, e));
    }

    // ---- single element calls, checked ----
    // kind of call: 0 get, 1 set strict, 2 set non-strict, 3 add strict, 4 add non-strict, 5 local?
    bool wrap() const { return j.num("wrap", 0); }
    void elem(int op, const LV& i) {
        st.runs++;
        bool ok = m.in(i, !wrap()), okns = m.in(i, false);
        static const char* nm[] = {"get_element", "set_element", "set_element(non-strict)", "add_to_element", "add_to_element(non-strict)", "are_indices_local"};
        str w = str(nm[op]) + fmt(i) + " of " + v->get_name();
        auto before = snap();
        bool thrown = false; L n = 0; double g = 0; bool b = false, bl = false;
        double x = next();
        try {
            switch (op) {
            case 0: g = v->get_element(i); break;
            case 1: n = v->set_element(x, i); break;
            case 2: n = v->set_element(x, i, false); break;
            case 3: n = v->add_to_element(x, i); break;
            case 4: n = v->add_to_element(x, i, false); break;
            case 5: b = v->are_indices_local(i); break;
            }
        } catch (yask_exception& e) { thrown = true; if (!*e.get_message()) bad(w + ": empty exception message"); }
        switch (op) {
        case 0:
            if (thrown == ok) bad(w + (ok ? " is refused" : " is not refused"));
            if (ok && !(g == m.val[m.pos(i)])) { ostringstream o; o << w << " = " << g << ", expected " << m.val[m.pos(i)]; bad(o.str()); }
            unchanged(w, before);
            break;
        case 1: case 2: {
            if (thrown != (op == 1 && !okns)) bad(w + (thrown ? " is refused" : " is not refused"));
            if (!thrown && n != (okns ? 1 : 0)) bad(w + " returns " + to_string(n));
            if (okns) { if (m.sd >= 0) m.touch(i[m.sd]); m.val[m.pos(i)] = x; changed(w, before, 1); }
            else unchanged(w, before);
            break; }
        case 3: case 4:
            if (thrown != (op == 3 && !ok)) bad(w + (thrown ? " is refused" : " is not refused"));
            if (!thrown && n != (ok ? 1 : 0)) bad(w + " returns " + to_string(n));
            if (ok) { m.val[m.pos(i)] += x; changed(w, before, 1); }
            else unchanged(w, before);
            break;
        case 5:
            if (thrown) bad(w + " throws");
            if (b != ok) bad(w + (b ? " is true" : " is false"));
            unchanged(w, before);
            break;
        }
    }
    void wrong_count() {
        if (dims.empty()) return;
        auto before = snap();
        for (int k : {-1, 1}) {
            LV i = dfirst; if (k < 0) i.pop_back(); else i.push_back(0);
            if (i.size() > 4) continue;
            for (int op = 0; op < 5; op++) {
                bool thrown = false;
                try {
                    double buf[4];
                    if (op == 0) v->get_element(i); else if (op == 1) v->set_element(1, i); else if (op == 2) v->add_to_element(1, i, false);
                    else if (op == 3) v->set_elements_in_slice_same(1, i, i, false); else v->get_elements_in_slice(buf, 4, i, i);
                } catch (yask_exception&) { thrown = true; }
                if (!thrown) bad("call with " + to_string(i.size()) + " indices is accepted by " + v->get_name());
                unchanged("call with the wrong number of indices", before);
                st.runs++;
            }
        }
    }
    // Restore the storage and model to a saved state.
    struct Saved { Model m; vector<char> raw; L ctr; };
    Saved save() { return {m, snap(), ctr}; }
    void restore(const Saved& s) {
        // The window cannot be set directly; calls made from different windows are enumerated as such.
        L cur = m.sd >= 0 ? m.first[m.sd] : 0;
        memcpy(v->get_raw_storage_buffer(), s.raw.data(), s.raw.size());
        m = s.m; ctr = s.ctr;
        if (m.sd >= 0 && cur != m.first[m.sd]) {
            // Move the window back through the API: storing to the wanted extreme step.
            LV i = dfirst; i[m.sd] = cur > m.first[m.sd] ? m.first[m.sd] : m.last[m.sd];
            v->set_element(m.val[m.pos(i)], i);
        }
        window("restoring");
    }
    void run_elem() {
        auto s = save();
        size_t cap = j.num("cap", 20000);
        for (int op = 0; op < 6; op++) {
            L k = 0;
            grid(0, cap, [&](const LV& i) {
                elem(op, i);
                if (m.sd >= 0 && m.first[m.sd] != s.m.first[m.sd]) { restore(s); }
                if (++k % 7 == 0) quick("after a series of element calls");
            });
            check("after all single element calls");
            hashes().push_back(hash());
            restore(s);
        }
        wrong_count();
        // Overwriting everything.
        v->set_all_elements_same(42);
        for (auto& x : m.val) x = 42;
        check("after set_all_elements_same");
        st.runs++;
        // format_indices has to accept anything.
        grid(3, 100, [&](const LV& i) { if (v->format_indices(i).empty()) bad("format_indices() is empty"); });
    }
    void hist(int depth, int level, size_t cap, bool slices) {
        if (depth == 0) return;
        auto s = save();
        vector<LV> pts;
        grid(level, cap, [&](const LV& i) { pts.push_back(i); });
        if (pts.size() > cap) {   // evenly spread over the grid
            vector<LV> q;
            for (size_t k = 0; k < cap; k++) q.push_back(pts[k * (pts.size() - 1) / (cap - 1)]);
            pts = q;
        }
        for (auto& i : pts)
            for (int op : {1, 3, 0, 2, 4}) {
                elem(op, i);
                if (op != 0) quick("after a history of calls ending in an access to " + fmt(i));
                hashes().push_back(hash());
                if (depth > 1 && op != 0) hist(depth - 1, level, cap, slices);
                restore(s);
            }
        if (slices) for (auto& i : pts) for (auto& e : pts) {
            bool empty = false; for (size_t k = 0; k < i.size(); k++) if (i[k] > e[k]) empty = true;
            if (empty && (i.size() > 1)) continue;
            for (int op : {2, 4, 5}) {
                slice(op, i, e);
                quick("after a history of calls ending in slice call " + fmt(i) + ".." + fmt(e));
                hashes().push_back(hash());
                if (depth > 1) hist(depth - 1, level, cap, slices);
                restore(s);
            }
        }
    }
    // ---- slices ----
    // 0 get double, 1 get float, 2 set double, 3 set float, 4 same strict, 5 same non-strict, 6 reduce strict, 7 reduce non-strict
    template <typename T> void get(const LV& f, const LV& l, L n, bool ok, const str& w) {
        vector<T> buf(n + 8, T(-12345));
        for (int shortb = 0; shortb < (n > 0 && ok ? 2 : 1); shortb++) {
            bool thrown = false; L r = 0;
            try { r = v->get_elements_in_slice(buf.data() + 4, size_t(n - shortb), f, l); } catch (yask_exception&) { thrown = true; }
            if (thrown != (!ok || shortb)) bad(w + (thrown ? " is refused" : shortb ? " accepts a buffer that is too small" : " is not refused"));
            if (!thrown && r != n) bad(w + " returns " + to_string(r) + ", expected " + to_string(n));
            L q = 4;
            if (!thrown) each(f, l, [&](const LV& i) {
                double x = m.val[m.pos(i)];
                if (!(buf[q] == T(x))) { ostringstream o; o << w << ": value for " << fmt(i) << " is " << buf[q] << ", expected " << x; bad(o.str()); }
                q++; });
            if (!shortb && thrown) { for (L k = 0; k < n; k++) if (buf[4 + k] != T(-12345)) bad(w + ": buffer was written by a refused call"); }
            for (int k = 0; k < 4; k++) if (buf[k] != T(-12345) || buf[n + 4 + k] != T(-12345)) bad(w + " writes outside of the buffer");
        }
    }
    template <typename T> void put(const LV& f, const LV& l, L n, bool ok, const str& w) {
        vector<T> buf(n + 1);
        for (L k = 0; k < n; k++) buf[k] = T(next());
        auto before = snap();
        if (n > 0 && ok) {
            bool thrown = false;
            try { v->set_elements_in_slice(buf.data(), size_t(n - 1), f, l); } catch (yask_exception&) { thrown = true; }
            if (!thrown) bad(w + " accepts a buffer that is too small");
            unchanged(w + " with a buffer that is too small", before);
        }
        bool thrown = false; L r = 0;
        try { r = v->set_elements_in_slice(buf.data(), size_t(n), f, l); } catch (yask_exception&) { thrown = true; }
        if (thrown != !ok) bad(w + (thrown ? " is refused" : " is not refused"));
        if (!thrown && r != n) bad(w + " returns " + to_string(r) + ", expected " + to_string(n));
        if (!thrown) { L q = 0; each(f, l, [&](const LV& i) { m.val[m.pos(i)] = double(buf[q++]); }); changed(w, before, n); }
        else unchanged(w, before);
    }
    void slice(int op, const LV& f, const LV& l) {
        st.runs++;
        static const char* nm[] = {"get_elements_in_slice(double)", "get_elements_in_slice(float)", "set_elements_in_slice(double)", "set_elements_in_slice(float)",
            "set_elements_in_slice_same", "set_elements_in_slice_same(non-strict)", "reduce_elements_in_slice", "reduce_elements_in_slice(non-strict)"};
        str w = str(nm[op]) + fmt(f) + ".." + fmt(l) + " of " + v->get_name();
        bool ok = m.in(f, !wrap()) && m.in(l, !wrap());
        LV cf = f, cl = l;
        bool strict = op != 5 && op != 7;
        if (!strict) for (size_t k = 0; k < f.size(); k++) if (!wrap() || int(k) != m.sd) { cf[k] = max(f[k], m.first[k]); cl[k] = min(l[k], m.last[k]); }
        L n = 1;
        for (size_t k = 0; k < f.size(); k++) n *= max<L>(0, cl[k] - cf[k] + 1);
        if (!ok && strict) {
            n = min<L>(n, 4096);
            // A refused call; give it a buffer large enough for whatever it might want.
            L big = m.val.size() + 64;
            auto before = snap();
            bool thrown = false;
            vector<double> b(big + 1, -12345); vector<float> bf(big + 1, -12345);
            try {
                if (op == 0) v->get_elements_in_slice(b.data(), big, f, l);
                if (op == 1) v->get_elements_in_slice(bf.data(), big, f, l);
                if (op == 2) v->set_elements_in_slice(b.data(), big, f, l);
                if (op == 3) v->set_elements_in_slice(bf.data(), big, f, l);
                if (op == 4) v->set_elements_in_slice_same(3, f, l);
                if (op == 6) v->reduce_elements_in_slice(1, f, l);
            } catch (yask_exception&) { thrown = true; }
            if (!thrown) bad(w + " is not refused");
            for (double x : b) if (x != -12345) bad(w + ": buffer was written by a refused call");
            for (float x : bf) if (x != -12345) bad(w + ": buffer was written by a refused call");
            unchanged(w, before);
            return;
        }
        switch (op) {
        case 0: get<double>(f, l, n, ok, w); break;
        case 1: get<float>(f, l, n, ok, w); break;
        case 2: put<double>(f, l, n, ok, w); break;
        case 3: put<float>(f, l, n, ok, w); break;
        case 4: case 5: {
            double x = next();
            auto before = snap();
            bool thrown = false; L r = 0;
            try { r = v->set_elements_in_slice_same(x, f, l, strict); } catch (yask_exception&) { thrown = true; }
            if (thrown) bad(w + " is refused");
            if (r != n) bad(w + " returns " + to_string(r) + ", expected " + to_string(n));
            each(cf, cl, [&](const LV& i) { m.val[m.pos(i)] = x; });
            if (n) changed(w, before, n); else unchanged(w, before);
            break; }
        case 6: case 7: {
            double sum = 0, sq = 0, prod = 1, mx = -INFINITY, mn = INFINITY;
            each(cf, cl, [&](const LV& i) { double x = m.val[m.pos(i)]; sum += x; sq += x * x; prod *= x; mx = max(mx, x); mn = min(mn, x); });
            auto before = snap();
            int full = mode_prod ? 31 : 27;
            for (int mask : {1, 2, 4, 8, 16, 10, 21, full, 31}) {
                if ((mask & 4) && !mode_prod) continue;
                yk_var::yk_reduction_result_ptr r;
                try { r = v->reduce_elements_in_slice(mask, f, l, strict); } catch (yask_exception& e) { bad(w + " is refused"); }
                if (r->get_num_elements_reduced() != n) bad(w + " reduces " + to_string(r->get_num_elements_reduced()) + " elements, expected " + to_string(n));
                if ((r->get_reduction_mask() & 31) != mask) bad(w + ": wrong mask in result");
                double got[5], want[5] = {sum, sq, prod, mx, mn};
                static const char* rn[] = {"sum", "sum of squares", "product", "max", "min"};
                for (int k = 0; k < 5; k++) {
                    bool thrown = false;
                    try { got[k] = k == 0 ? r->get_sum() : k == 1 ? r->get_sum_squares() : k == 2 ? r->get_product() : k == 3 ? r->get_max() : r->get_min(); }
                    catch (yask_exception&) { thrown = true; }
                    if (thrown != !(mask & (1 << k))) bad(w + ", mask " + to_string(mask) + ": " + rn[k] + (thrown ? " was requested but is refused" : " was not requested but is reported"));
                    if (thrown || (n == 0 && k > 2)) continue;
                    if (!(got[k] == want[k])) { ostringstream o; o << w << ", mask " << mask << ": " << rn[k] << " is " << got[k] << ", expected " << want[k]; bad(o.str()); }
                }
            }
            unchanged(w, before);
            break; }
        }
    }
    void run_slice() {
        size_t cap = j.num("cap", 24);
        vector<LV> pts; set<LV> seen;
        // Slices: product over dims of (first,last) pairs from the candidates.
        vector<vector<pair<L, L>>> pr;
        size_t n = 1;
        for (size_t k = 0; k < dims.size(); k++) {
            LV c = cand(k, 1);
            vector<pair<L, L>> p;
            for (L a : c) for (L b : c) if (a <= b || (a == b + 1)) p.push_back({a, b});
            p.push_back({m.last[k] + 1, m.last[k] + 5}); p.push_back({m.first[k] - 4, m.first[k] - 1});
            p.push_back({m.first[k] - 3, m.last[k] + 3}); p.push_back({m.last[k], m.first[k]});
            pr.push_back(p);
        }
        // Keep at most 'cap' pairs per dim: a fixed spread that contains in-range, crossing, outside and empty ones.
        for (auto& p : pr) {
            size_t per = max<size_t>(5, size_t(pow(double(j.num("slices", 4000)), 1.0 / max<size_t>(1, pr.size()))));
            if (p.size() > per) {
                vector<pair<L, L>> q;
                for (size_t k = 0; k < 4; k++) q.push_back(p[p.size() - 1 - k]);
                double stp = double(p.size() - 4) / double(per - 4);
                for (size_t k = 0; k + 4 < per; k++) q.push_back(p[size_t(k * stp)]);
                p = q;
            }
            n *= p.size();
        }
        auto all = [&](int op, bool write) {
            auto s = save();
            LV z(pr.size(), 0), e, p = z;
            for (auto& x : pr) e.push_back(L(x.size()) - 1);
            L k = 0;
            do {
                LV f, l;
                for (size_t d = 0; d < pr.size(); d++) { f.push_back(pr[d][p[d]].first); l.push_back(pr[d][p[d]].second); }
                slice(op, f, l);
                if (write && ++k % 61 == 0) { quick("after slice call " + fmt(f) + ".." + fmt(l)); hashes().push_back(hash()); }
            } while (Session::next(p, z, e));
            check("after all slice calls");
            restore(s);
        };
        for (int op = 0; op < 6; op++) all(op, op > 1);
        for (int op : {6, 7}) all(op, false);
        neg = true; fill(0); all(6, false);
        mode_prod = true; fill(0); all(6, false); all(7, false);
        (void)n; (void)cap;
    }
    void go() {
        str mode = j.get("mode");
        if (mode == "elem") run_elem();
        else if (mode == "hist" || mode == "hslice") { hist(int(j.num("depth", 2)), int(j.num("level", 2)), j.num("cap", 12), mode == "hslice"); check("at the end of all histories"); }
        else if (mode == "slice") run_slice();
        else throw runtime_error("driver: unknown mode");
    }
};

int main(int argc, char** argv) {
    quiet();
    if (argc > 1) open_progress(argv[1]);
    str line; Stats st; int nfail = 0;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        Job j;
        if (!parse(line, j)) { cerr << "bad job: " << line << endl; return 3; }
        set_progress(line);
        str err;
        mcrt::set_omp_threads(int(j.num("th", 1))); mcrt::chunk_mode = int(j.num("cm", 1)); mcrt::node_of.clear();
        auto res = mcrt::run_ranks(int(j.num("n", 1)), [&](int r) {
            Test t(j, st);
            try { t.make(r); t.go(); }
            catch (Bad& b) { if (err.empty()) err = b.what; }
            catch (yask_exception& e) { if (err.empty()) err = str("unexpected exception: ") + e.get_message(); }
            if (t.soln) { t.v = nullptr; t.soln->end_solution(); t.soln = nullptr; }
        });
        if (err.empty() && !res.ok) err = res.what.size() ? res.what : "run did not finish";
        st.configs++;
        if (err.size()) {
            for (auto& ch : err) if (ch == '\n') ch = ' ';
            cout << "FAIL " << line << " => " << err << endl;
            if (++nfail >= 5) break;
        }
    }
    set_progress("done");
    if (argc > 2) write_hashes(argv[2]);
    print_stats(st);
    return nfail ? 1 : 0;
}
