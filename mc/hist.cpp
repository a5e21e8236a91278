// Driver: histories of writes, fills, exchanges and runs on one or more ranks, compared with one global evaluator.
// Line:  n=<ranks> t0=<t> nodes=.. th=.. cm=.. ops=<op>,<op>,... | <options>
//   ops:  R<k>              run the next k steps on all ranks, then compare all owned elements
//         e:r:v:k:x         set_element on rank r, var v, plane 'newest - k', point variant x
//         a:r:v:k:x         add_to_element
//         s:r:v:k:x         set_elements_in_slice_same (variants: first plane, last plane, whole rank, all steps)
//         b:r:v:k:x         set_elements_in_slice (buffer)
//         f:r:v             set_all_elements_same on rank r (9: all ranks; 8: all ranks, another value on each)
//         w:r:v:x           set_element at the step after the newest one
//         x                 exchange_halos() on all ranks, halo faces compared
//         P                 prepare_solution() again, data must persist
#include "drv.hpp"
using namespace drv;
using namespace std;

struct Op { char k; vector<L> a; str s; };
struct Cfg { int nranks = 1, threads = 1, cmode = 1; L t0 = 0; vector<Op> ops; str opts, line; vector<int> nodes; int salt = 0; };

static bool parse(const str& line, Cfg& c) {
    auto bar = line.find('|');
    if (bar == str::npos) return false;
    c.line = line; c.opts = line.substr(bar + 1);
    istringstream is(line.substr(0, bar));
    str w;
    while (is >> w) {
        auto eq = w.find('=');
        str k = w.substr(0, eq), v = w.substr(eq + 1);
        if (k == "n") c.nranks = stoi(v);
        else if (k == "th") c.threads = stoi(v);
        else if (k == "cm") c.cmode = stoi(v);
        else if (k == "t0") c.t0 = stol(v);
        else if (k == "salt") c.salt = stoi(v);
        else if (k == "nodes") { for (char ch : v) c.nodes.push_back(ch - '0'); }
        else if (k == "ops") {
            istringstream os(v); str o;
            while (getline(os, o, ',')) {
                Op p; p.k = o[0]; p.s = o;
                if (p.k == 'R') p.a.push_back(stol(o.substr(1)));
                else { istringstream ps(o.substr(1)); str q; while (getline(ps, q, ':')) if (q.size()) p.a.push_back(stol(q)); }
                c.ops.push_back(p);
            }
        }
        else return false;
    }
    return true;
}

struct Hist {
    Session& s; const Cfg& c; Stats& st; L serial = 0; L cur;
    LV gstep;   // step operated on (shared between ranks).
    Hist(Session& s, const Cfg& c, Stats& st) : s(s), c(c), st(st), cur(c.t0) { }

    static L newest(const Store& q, int d) { return d > 0 ? q.planes.rbegin()->first : q.planes.begin()->first; }
    // Step index to use on this rank for reference step 'rs'.
    L kstep(int r, int v, L rs) {
        auto kv = s.soln[r]->get_var(yvref::the_spec.vars[v].name);
        auto& q = s.ref.st[v];
        if (!q.has_step) return 0;
        L a = kv->get_first_valid_step_index();
        return a + Store::md(rs - a, q.nslots);
    }
    // Box written by op on rank r.
    void box(int r, int v, char k, int x, LV& f, LV& l) {
        auto& e = s.ext[r][v]; auto& q = s.ref.st[v];
        f = e.dfirst; l = e.dlast;
        bool first = true;
        for (size_t d = 0; d < f.size(); d++) {
            if (q.kind[d] >= 100) { if (k == 'e' || k == 'a' || k == 'w') { f[d] = l[d] = (x & 1) ? l[d] : f[d]; } continue; }
            L mid = (f[d] + l[d]) / 2;
            if (k == 'e' || k == 'a' || k == 'w') {
                L p = (x < 2 || first) ? ((x & 1) ? l[d] : f[d]) : mid;
                f[d] = l[d] = p;
            } else if (first) {
                if (x == 0) l[d] = f[d];
                else if (x == 1) f[d] = l[d];
            }
            first = false;
        }
    }
    bool owns_box(int r, int v, const LV& f, const LV& l) {
        auto& e = s.ext[r][v]; auto& q = s.ref.st[v];
        for (size_t d = 0; d < f.size(); d++)
            if (q.kind[d] < 100 && (f[d] < e.dfirst[d] || l[d] > e.dlast[d])) return false;
        return true;
    }
    static double val(L serial, L i) { return double((serial * 37 + i * 11) % 301) - 140; }

    void write(int r, const Op& o) {
        int tr = int(o.a[0]), v = int(o.a[1]); L k = o.k == 'w' ? -1 : o.a[2]; int x = int(o.k == 'w' ? o.a[2] : o.a[3]);
        auto& vd = yvref::the_spec.vars[v];
        auto kv = s.soln[r]->get_var(vd.name);
        auto& q = s.ref.st[v];
        int d = yvref::the_spec.dirn;
        LV f, l; box(tr, v, o.k, x, f, l);
        bool mine = owns_box(r, v, f, l);
        bool allsteps = o.k == 's' && x == 3 && q.has_step;
        // Phase 1 (all ranks): write.
        if (mine) {
            L ks = 0, ks2 = 0;
            if (q.has_step) {
                L rs = newest(q, d) - d * k;
                ks = ks2 = o.k == 'w' ? rs : kstep(r, v, rs);
                if (allsteps) { ks = kv->get_first_valid_step_index(); ks2 = kv->get_last_valid_step_index(); }
            }
            idx_t_vec a = Session::full(vd, f, ks), b = Session::full(vd, l, ks2);
            L n = 0;
            switch (o.k) {
            case 'e': case 'w': n = kv->set_element(val(serial, 0), a); break;
            case 'a': n = kv->add_to_element(val(serial, 0), a); break;
            case 's': n = kv->set_elements_in_slice_same(val(serial, 0), a, b); break;
            case 'b': {
                vector<double> buf; LV i = f; L m = 0;
                do buf.push_back(val(serial, m++)); while (Session::next(i, f, l));
                n = kv->set_elements_in_slice(buf.data(), buf.size(), a, b); break;
            }
            }
            if (n < 1) s.fail(str("op ") + o.s + " changed no element");
        }
        s.env[r]->global_barrier();
        // Phase 2: reference.
        if (r == 0) {
            vector<L> steps;
            if (!q.has_step) steps.push_back(0);
            else if (allsteps) for (L j = 0; j < q.nslots; j++) steps.push_back(newest(q, d) - d * j);
            else steps.push_back(newest(q, d) - d * k);
            if (o.k == 'w' && q.has_step) {
                L t = steps[0];
                q.planes[t] = *q.find(t - d * q.nslots);
            }
            for (L t : steps) {
                auto& pl = q.at(t);
                LV i = f; L m = 0;
                do {
                    double& y = pl[q.pos(i.data())];
                    if (o.k == 'a') y += val(serial, 0);
                    else y = val(serial, o.k == 'b' ? m : 0);
                    m++;
                } while (Session::next(i, f, l));
            }
        }
    }
    // Fill on rank 'tr' only, on all ranks (9), or on all ranks with a different value on each (8): every stored element of these ranks.
    void fill(int r, const Op& o) {
        int tr = int(o.a[0]), v = int(o.a[1]);
        auto& vd = yvref::the_spec.vars[v];
        auto& q = s.ref.st[v];
        if (tr >= 8 || tr == r) s.soln[r]->get_var(vd.name)->set_all_elements_same(val(serial, tr == 8 ? r : 0));
        s.env[r]->global_barrier();
        if (r == 0) {
            LV f = q.first, l = q.last;
            int d = yvref::the_spec.dirn;
            for (L j = 0; j < (q.has_step ? q.nslots : 1); j++) {
                auto& pl = q.at(q.has_step ? newest(q, d) - d * j : 0);
                LV i = f;
                do {
                    if (tr == 9) { pl[q.pos(i.data())] = val(serial, 0); continue; }
                    for (int w = 0; w < s.nranks; w++) {
                        if (tr < 8 && w != tr) continue;
                        // own domain of w, or outside of the overall domain and stored there.
                        auto& e = s.ext[w][v];
                        bool in = true;
                        for (size_t k = 0; k < i.size(); k++) if (i[k] < e.first[k] || i[k] > e.last[k]) in = false;
                        if (in && s.owned(w, v, i)) pl[q.pos(i.data())] = val(serial, tr == 8 ? w : 0);
                    }
                } while (Session::next(i, f, l));
            }
        }
    }
    // After exchange_halos(): every halo face inside the overall domain holds the owner's values.
    void check_halo(int r, const str& when) {
        auto& sp = yvref::the_spec;
        for (size_t v = 0; v < sp.vars.size(); v++) {
            auto& vd = sp.vars[v];
            if (vd.scratch || s.failed) continue;
            auto kv = s.soln[r]->get_var(vd.name);
            auto& e = s.ext[r][v]; auto& q = s.ref.st[v];
            for (size_t d = 0; d < e.first.size(); d++) {
                if (q.kind[d] >= 100) continue;
                for (int right = 0; right < 2; right++) {
                    L h = right ? kv->get_right_halo_size(e.names[d]) : kv->get_left_halo_size(e.names[d]);
                    LV f = e.dfirst, l = e.dlast;
                    if (right) { f[d] = e.dlast[d] + 1; l[d] = std::min(e.dlast[d] + h, s.glast[q.kind[d]]); }
                    else { l[d] = e.dfirst[d] - 1; f[d] = std::max(e.dfirst[d] - h, s.gfirst[q.kind[d]]); }
                    if (f[d] > l[d]) continue;
                    for (L j = 0; j < (q.has_step ? q.nslots : 1); j++) {
                        L rs = q.has_step ? newest(q, sp.dirn) - sp.dirn * j : 0;
                        L ks = kstep(r, int(v), rs);
                        auto& pl = q.at(rs);
                        LV i = f;
                        do {
                            double got = kv->get_element(Session::full(vd, i, ks)), want = pl[q.pos(i.data())];
                            s.compared++;
                            if (!(got == want)) {
                                ostringstream w; w << when << ": rank " << r << " halo of " << vd.name << "(step " << rs << ";";
                                for (L z : i) w << " " << z;
                                w << ") = " << got << ", owner has " << want;
                                s.fail(w.str()); return;
                            }
                        } while (Session::next(i, f, l));
                    }
                }
            }
        }
    }
};

static str opts_for(const str& all, int r) {
    vector<str> p; istringstream is(all); str w;
    while (getline(is, w, ';')) p.push_back(w);
    str o = p.size() ? p[0] : "";
    if (size_t(r) + 1 < p.size()) o += " " + p[r + 1];
    return o;
}
static void go(const Cfg& c, Stats& st, str& err) {
    Session s(c.nranks);
    s.t0 = c.t0; s.salt = c.salt;
    mcrt::set_omp_threads(c.threads); mcrt::node_of = c.nodes; mcrt::chunk_mode = c.cmode;
    Hist h(s, c, st);
    str trace;
    auto res = mcrt::run_ranks(c.nranks, [&](int r) {
        s.make(r, opts_for(c.opts, r));
        s.soln[r]->prepare_solution();
        s.collect(r);
        s.env[r]->global_barrier();
        if (r == 0) s.make_ref();
        s.env[r]->global_barrier();
        s.init(r);
        s.env[r]->global_barrier();
        auto& sp = yvref::the_spec;
        for (size_t i = 0; i < c.ops.size(); i++) {
            auto& o = c.ops[i];
            if (s.failed) break;
            if (o.k == 'R') {
                L last = h.cur + sp.dirn * (o.a[0] - 1);
                s.soln[r]->run_solution(h.cur, last);
                s.env[r]->global_barrier();
                if (r == 0) { s.ref.run(h.cur, last); h.cur = last + sp.dirn; st.runs++; }
                s.env[r]->global_barrier();
                ostringstream w; w << "after op " << i << " (" << o.s << ")";
                s.compare(r, w.str().c_str());
            }
            else if (o.k == 'x') {
                s.soln[r]->exchange_halos();
                s.env[r]->global_barrier();
                ostringstream w; w << "after op " << i << " (x)";
                h.check_halo(r, w.str());
            }
            else if (o.k == 'P') { s.env[r]->global_barrier(); s.soln[r]->prepare_solution(); s.collect(r); }
            else if (o.k == 'f') h.fill(r, o);
            else h.write(r, o);
            s.env[r]->global_barrier();
            if (r == 0) {
                h.serial++; st.extra["ops"]++; hashes().push_back(s.hash());
                // Keep few planes.
                for (auto& q : s.ref.st) while (q.planes.size() > size_t(q.nslots) + 1) q.planes.erase(sp.dirn > 0 ? q.planes.begin()->first : q.planes.rbegin()->first);
            }
            s.env[r]->global_barrier();
        }
        s.compare(r, "at the end");
        s.soln[r]->end_solution();
        s.env[r]->global_barrier();
        s.soln[r] = nullptr;
    });
    st.configs++;
    st.evals += s.ref.evals; st.compared += s.compared;
    st.extra["msgs"] += res.msgs;
    if (s.failed) err = s.what;
    else if (!res.ok) err = res.what.size() ? res.what : "run did not finish";
}

int main(int argc, char** argv) {
    quiet();
    if (argc > 1) open_progress(argv[1]);
    str line;
    Stats st;
    int nfail = 0;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        Cfg c;
        if (!parse(line, c)) { cerr << "bad config: " << line << endl; return 3; }
        set_progress(line);
        str err;
        try { go(c, st, err); }
        catch (std::exception& e) { err = str("exception: ") + e.what(); }
        if (err.size()) {
            for (auto& ch : err) if (ch == '\n') ch = ' ';
            cout << "FAIL " << line << " => " << err << endl;
            if (++nfail >= 5) break;
        }
    }
    set_progress("done");
    if (argc > 2) write_hashes(argv[2]);
    print_stats(st);
    return nfail ? 1 : 0;
}
