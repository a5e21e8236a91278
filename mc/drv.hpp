// Shared driver code: runs a configuration of a spec on 1..N ranks and compares with the reference.
#pragma once
#include "yask_kernel_api.hpp"
#include "ref.hpp"
#include "mcrt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <sstream>
#include <iostream>
#include <set>
#include <functional>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cmath>

namespace drv {
    using namespace yask;
    using yvref::L;
    using yvref::Ctx;
    using yvref::Store;
    typedef std::vector<L> LV;
    typedef std::string str;

    inline double poison() { return 7777777.0; }
    inline double hval(int v, L slot, L pos, int salt = 0) {
        uint64_t x = uint64_t(v + 1) * 0x9E3779B97F4A7C15ull + uint64_t(slot + 1) * 0xC2B2AE3D27D4EB4Full + uint64_t(pos + 1) * 0x165667B19E3779F9ull + salt * 0x27D4EB2F165667C5ull;
        x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
        return double(int(x % 401) - 150);
    }

    // Shard bookkeeping: the configuration being executed is visible to the parent even if this process dies.
    struct Progress { char cfg[4096]; };
    inline Progress*& progress() { static Progress* p = nullptr; return p; }
    inline void set_progress(const str& s) {
        if (progress()) { strncpy(progress()->cfg, s.c_str(), sizeof(progress()->cfg) - 1); }
    }
    inline void open_progress(const char* file) {
        int fd = open(file, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Progress))) return;
        void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) progress() = (Progress*)p;
        close(fd);
    }

    inline yk_factory& fac() { static yk_factory f; return f; }
    inline void quiet() {
        yask_output_factory of;
        auto* o = getenv("VERIF_DEBUG") ? nullptr : "";
        yk_env::set_debug_output(o ? yask_output_ptr(of.new_null_output()) : yask_output_ptr(of.new_stdout_output()));
    }

    struct Fail { bool bad = false; str what; };

    // Extents of one var on one rank.
    struct Ext { LV first, last, dfirst, dlast; L nslots = 1; std::vector<str> names; };

    // A session: one or more ranks, one solution per rank, one global reference.
    struct Session {
        int nranks = 1;
        Ctx ref;
        L t0 = 0;
        std::vector<std::vector<Ext>> ext;   // [rank][var]
        LV gfirst, glast;                    // overall domain.
        std::vector<yk_solution_ptr> soln;
        std::vector<yk_env_ptr> env;
        int salt = 0;
        double tol = 0;                      // 0: exact
        bool failed = false; str what;
        long compared = 0;

        // Hash of the reference state (all stored planes).
        uint64_t hash() const {
            uint64_t h = 1469598103934665603ull;
            auto mix = [&](uint64_t x) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; };
            for (const char* c = yvref::the_spec.name; *c; c++) mix(*c);
            for (L x : glast) mix(x);
            for (auto& s : ref.st) {
                int k = 0;
                for (auto i = s.planes.rbegin(); i != s.planes.rend() && k < s.nslots + 1; ++i, k++) {
                    mix(i->first);
                    for (double d : i->second) mix(uint64_t(int64_t(d)));
                }
            }
            return h;
        }
        void fail(const str& s) { if (!failed) { failed = true; what = s; } }

        void make(int rank, const str& opts) {
            unsigned h = 0; for (char ch : opts) h = h * 31 + (unsigned char)ch;
            mcrt::guard_side = (h >> 4) & 1;
            env[rank] = fac().new_env();
            soln[rank] = fac().new_solution(env[rank]);
            str rest = soln[rank]->apply_command_line_options(opts);
            if (rest.find_first_not_of(' ') != str::npos) throw std::runtime_error("driver: unknown option(s): " + rest);
        }
        explicit Session(int n) : nranks(n), ext(n), soln(n), env(n) { }

        // Collect extents after prepare_solution() on this rank.
        void collect(int rank) {
            auto& sp = yvref::the_spec;
            auto& s = soln[rank];
            ext[rank].clear();
            ext[rank].resize(sp.vars.size());
            for (size_t v = 0; v < sp.vars.size(); v++) {
                auto& vd = sp.vars[v];
                if (vd.scratch) continue;
                auto kv = s->get_var(vd.name);
                auto& e = ext[rank][v];
                auto names = kv->get_dim_names();
                if (names != vd.dims) throw std::runtime_error("driver: dims of var " + str(vd.name) + " differ from those declared");
                for (size_t d = 0; d < names.size(); d++) {
                    if (vd.kind[d] == -1) { e.nslots = kv->get_alloc_size(names[d]); continue; }
                    e.names.push_back(names[d]);
                    e.first.push_back(kv->get_first_local_index(names[d]));
                    e.last.push_back(kv->get_last_local_index(names[d]));
                    if (vd.kind[d] < 100) {
                        e.dfirst.push_back(s->get_first_rank_domain_index(names[d]));
                        e.dlast.push_back(s->get_last_rank_domain_index(names[d]));
                    } else { e.dfirst.push_back(e.first.back()); e.dlast.push_back(e.last.back()); }
                }
            }
        }
        // Set up the reference from all ranks' extents (called by one rank after all have collected).
        void make_ref() {
            auto& sp = yvref::the_spec;
            ref = Ctx();
            ref.sp = &sp;
            ref.st.resize(sp.vars.size());
            gfirst.assign(sp.dims.size(), 0); glast.clear();
            for (auto& d : sp.dims) glast.push_back(soln[0]->get_overall_domain_size(d) - 1);
            ref.first = gfirst; ref.last = glast;
            for (size_t v = 0; v < sp.vars.size(); v++) {
                auto& vd = sp.vars[v];
                if (vd.scratch) continue;
                LV f = ext[0][v].first, l = ext[0][v].last;
                for (int r = 1; r < nranks; r++)
                    for (size_t k = 0; k < f.size(); k++) {
                        f[k] = std::min(f[k], ext[r][v].first[k]);
                        l[k] = std::max(l[k], ext[r][v].last[k]);
                    }
                auto& st = ref.st[v];
                st.setup(vd, f, l, ext[0][v].nslots);
                L n = st.has_step ? st.nslots : 1;
                for (L k = 0; k < n; k++) {
                    L step = st.has_step ? (sp.dirn > 0 ? t0 - k : t0 + k) : 0;
                    L slot = st.has_step ? Store::md(step, n) : 0;
                    std::vector<double> pl(st.size);
                    for (L q = 0; q < st.size; q++) pl[q] = hval(int(v), slot, q, salt);
                    st.planes[step] = pl;
                }
            }
        }
        static bool next(LV& i, const LV& f, const LV& l) {
            for (int k = int(i.size()) - 1; k >= 0; k--) { if (++i[k] <= l[k]) return true; i[k] = f[k]; }
            return false;
        }
        // May this rank's copy of point 'i' be compared with/initialised from the global array?
        // Yes for its own domain and for everything outside of the overall domain.
        bool owned(int rank, int v, const LV& i) const {
            auto& e = ext[rank][v];
            auto& k = ref.st[v].kind;
            bool mine = true;
            for (size_t d = 0; d < i.size(); d++) {
                if (k[d] >= 100) continue;
                if (i[d] < gfirst[k[d]] || i[d] > glast[k[d]]) return true;
                if (i[d] < e.dfirst[d] || i[d] > e.dlast[d]) mine = false;
            }
            return mine;
        }
        static idx_t_vec full(const yvref::VarDef& vd, const LV& i, L step) {
            idx_t_vec r; size_t m = 0;
            for (int k : vd.kind) r.push_back(k == -1 ? step : i[m++]);
            return r;
        }
        // Write the initial values to this rank's storage.
        void init(int rank) {
            auto& sp = yvref::the_spec;
            for (size_t v = 0; v < sp.vars.size(); v++) {
                auto& vd = sp.vars[v];
                if (vd.scratch) continue;
                auto kv = soln[rank]->get_var(vd.name);
                auto& e = ext[rank][v];
                auto& st = ref.st[v];
                L n = st.has_step ? st.nslots : 1;
                for (L k = 0; k < n; k++) {
                    L rstep = st.has_step ? (sp.dirn > 0 ? t0 - k : t0 + k) : 0;
                    // Any step index with the same ring slot that is currently valid.
                    L kstep = rstep;
                    if (st.has_step) {
                        L a = kv->get_first_valid_step_index();
                        kstep = a + Store::md(rstep - a, n);
                    }
                    auto& pl = st.planes[rstep];
                    std::vector<double> buf;
                    LV i = e.first;
                    do buf.push_back(owned(rank, int(v), i) ? pl[st.pos(i.data())] : poison());
                    while (next(i, e.first, e.last));
                    kv->set_elements_in_slice(buf.data(), buf.size(), full(vd, e.first, kstep), full(vd, e.last, kstep));
                }
            }
        }
        // Do the reported halos and index ranges contain every element the equations use? (one rank)
        void reach() {
            if (failed || nranks != 1) return;
            auto& sp = yvref::the_spec;
            for (size_t v = 0; v < sp.vars.size(); v++) {
                auto& vd = sp.vars[v];
                auto& st = ref.st[v];
                if (vd.scratch || st.lo.empty()) continue;
                auto kv = soln[0]->get_var(vd.name);
                size_t k = 0;
                for (size_t d = 0; d < vd.dims.size(); d++) {
                    if (vd.kind[d] == -1) continue;
                    auto& n = vd.dims[d];
                    std::ostringstream o;
                    if (vd.kind[d] < 100) {
                        L left = gfirst[vd.kind[d]] - st.lo[k], right = st.hi[k] - glast[vd.kind[d]];
                        L hl = kv->get_left_halo_size(n), hr = kv->get_right_halo_size(n);
                        if (hl < left || hr < right) o << "halo of " << vd.name << "() in '" << n << "' is " << hl << "," << hr << " but the equations use " << left << "," << right;
                        if (kv->get_first_rank_halo_index(n) > st.lo[k] || kv->get_last_rank_halo_index(n) < st.hi[k]) o << "halo indices of " << vd.name << "() do not contain those used";
                    } else if (kv->get_first_misc_index(n) > st.lo[k] || kv->get_last_misc_index(n) < st.hi[k])
                        o << "misc range of " << vd.name << "() is " << kv->get_first_misc_index(n) << ".." << kv->get_last_misc_index(n) << " but the equations use " << st.lo[k] << ".." << st.hi[k];
                    if (o.str().size()) { fail(o.str()); return; }
                    k++;
                }
            }
        }
        // Compare this rank's storage with the reference.
        void compare(int rank, const char* when) {
            if (failed) return;
            auto& sp = yvref::the_spec;
            for (size_t v = 0; v < sp.vars.size(); v++) {
                auto& vd = sp.vars[v];
                if (vd.scratch) continue;
                auto kv = soln[rank]->get_var(vd.name);
                auto& e = ext[rank][v];
                auto& st = ref.st[v];
                L a = 0, b = 0;
                if (st.has_step) {
                    a = kv->get_first_valid_step_index(); b = kv->get_last_valid_step_index();
                    if (b - a + 1 != st.nslots) { fail(str("valid-step window of ") + vd.name + " has the wrong size"); return; }
                    // Newest plane must be inside the window.
                    L newest = sp.dirn > 0 ? st.planes.rbegin()->first : st.planes.begin()->first;
                    bool written = st.planes.size() > size_t(st.nslots);
                    if (written && (newest < a || newest > b)) {
                        std::ostringstream o; o << when << ": valid-step window of " << vd.name << " is " << a << ".." << b << " but the newest step is " << newest;
                        fail(o.str()); return;
                    }
                    // The window may have been ahead from the start: map reference steps via slots.
                    a = sp.dirn > 0 ? newest - st.nslots + 1 : newest; b = a + st.nslots - 1;
                }
                for (L t = a; t <= b; t++) {
                    auto* pl = st.find(t);
                    if (!pl) continue;
                    L kt = t;
                    if (st.has_step) { L a2 = kv->get_first_valid_step_index(); kt = a2 + Store::md(t - a2, st.nslots); }
                    size_t n = 1;
                    for (size_t k = 0; k < e.first.size(); k++) n *= (e.last[k] - e.first[k] + 1);
                    std::vector<double> buf(n);
                    kv->get_elements_in_slice(buf.data(), n, full(vd, e.first, kt), full(vd, e.last, kt));
                    LV i = e.first; size_t q = 0;
                    do {
                        if (!owned(rank, int(v), i)) { q++; continue; }
                        compared++;
                        double want = (*pl)[st.pos(i.data())], got = buf[q++];
                        if (!(want == got) && !(tol > 0 && fabs(want - got) <= tol * (1 + fabs(want)))) {
                            std::ostringstream o;
                            o << when << ": rank " << rank << " " << vd.name << "(step " << t << "; ";
                            for (size_t k = 0; k < i.size(); k++) o << (k ? "," : "") << i[k];
                            o << ") = " << got << ", expected " << want;
                            fail(o.str());
                            return;
                        }
                    } while (next(i, e.first, e.last));
                }
            }
        }
    };

    // ---- command line & output of drivers ----
    // Hashes of visited states, written for the parent.
    inline std::vector<uint64_t>& hashes() { static std::vector<uint64_t> h; return h; }
    inline void write_hashes(const char* f) {
        if (FILE* o = fopen(f, "wb")) { fwrite(hashes().data(), 8, hashes().size(), o); fclose(o); }
    }
    struct Stats { long configs = 0, runs = 0, evals = 0, compared = 0, skipped = 0; std::map<str, long> extra; };
    inline void print_stats(const Stats& s) {
        std::cout << "STATS configs=" << s.configs << " runs=" << s.runs << " evals=" << s.evals << " compared=" << s.compared << " skipped=" << s.skipped;
        auto x = s.extra;
        if (mcrt::extra_stats) mcrt::extra_stats(x);
        for (auto& e : x) std::cout << " " << e.first << "=" << e.second;
        std::cout << std::endl;
    }
}
