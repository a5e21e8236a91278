// Driver for C19: all sequences of outcomes of the auto-tuner's trials (within a bound), decided by a clock owned by the
// driver.  Lines:  n= th= t0= mode=o|n|l k=<max deviations> cap=<runs> d0=<ns> every=<runs> act=<run>:<f|t|p|x>,.. dev=12:1,.. | options ; rank options
//   mode o: tuning during run_solution(), one stride per call; l: three strides per call; n: run_auto_tuner_now().
//   mode s: no tuning; statistics of the runs given by ops= (numbers of steps; c = clear).
//   Outcomes of a trial: 0 = much slower than the best, 1 = faster than the best, 2 = slightly slower, 3 = as fast.
#include "drv.hpp"
#include <time.h>
#include <sys/time.h>
using namespace drv;
using namespace std;

static int64_t now_ns[16];
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept {
    int64_t t = now_ns[mcrt::cur_rank() & 15] + 1000000000;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
struct Cfg { int nranks = 1, threads = 1, k = 2, cap = 400, every = 6, base = 0; L t0 = 0; char mode = 'o'; int64_t d0 = int64_t(1) << 44; vector<pair<int, char>> acts; vector<str> ops; vector<pair<int, int>> dev; bool exact = false; str opts, line; };

static bool parse(const str& line, Cfg& c) {
    auto bar = line.find('|');
    if (bar == str::npos) return false;
    c.line = line; c.opts = line.substr(bar + 1);
    istringstream is(line.substr(0, bar)); str w;
    while (is >> w) {
        auto eq = w.find('='); str k = w.substr(0, eq), v = w.substr(eq + 1);
        if (k == "n") c.nranks = stoi(v);
        else if (k == "th") c.threads = stoi(v);
        else if (k == "t0") c.t0 = stol(v);
        else if (k == "mode") c.mode = v.at(0);
        else if (k == "k") c.k = stoi(v);
        else if (k == "cap") c.cap = stoi(v);
        else if (k == "every") c.every = stoi(v);
        else if (k == "d0") c.d0 = stoll(v);
        else if (k == "base") c.base = stoi(v);
        else if (k == "ops") { istringstream ds(v); str d; while (getline(ds, d, ',')) c.ops.push_back(d); }
        else if (k == "act") { istringstream ds(v); str d; while (getline(ds, d, ',')) c.acts.push_back({stoi(d), d.at(d.find(':') + 1)}); }
        else if (k == "dev") { c.exact = true; istringstream ds(v); str d; while (getline(ds, d, ',')) c.dev.push_back({stoi(d), stoi(d.substr(d.find(':') + 1))}); }
        else return false;
    }
    return true;
}
static str opts_for(const str& all, int r) {
    vector<str> p; istringstream is(all); str w;
    while (getline(is, w, ';')) p.push_back(w);
    str o = p.size() ? p[0] : "";
    if (size_t(r) + 1 < p.size()) o += " " + p[r + 1];
    return o;
}
static map<str, str> vals(yk_solution_ptr s) {
    map<str, str> m;
    istringstream is(s->get_command_line_values());
    str l;
    while (getline(is, l)) {
        auto c = l.find(':');
        if (c == str::npos) continue;
        auto trim = [](str x) { while (x.size() && isspace((unsigned char)x.back())) x.pop_back(); size_t i = 0; while (i < x.size() && isspace((unsigned char)x[i])) i++; return x.substr(i); };
        m[trim(l.substr(0, c))] = trim(l.substr(c + 1));
    }
    return m;
}
static const vector<str> levels = { "l", "Mb", "b", "mb", "nb", "pb" };
static bool is_nest(const str& n) {
    auto& sp = yvref::the_spec;
    for (size_t i = 1; i < levels.size(); i++) {
        if (n == levels[i] || n == levels[i] + "t") return true;
        for (auto& d : sp.dims) if (n == levels[i] + d) return true;
    }
    return false;
}
static bool tuning_now = false;     // in run_auto_tuner_now().
struct Viol : runtime_error { using runtime_error::runtime_error; };
// The sizes in force, and whether they are usable.
static str nest(yk_solution_ptr s, const map<str, str>& first, const map<str, str>& m, bool judge) {
    auto& sp = yvref::the_spec;
    str o;
    for (size_t i = 1; i < levels.size(); i++)
        for (auto& d : sp.dims) {
            L v = stol(m.at(levels[i] + d)), p = stol(m.at(levels[i - 1] + d)), f = 2;   // all programs are folded 2 x 2.
            o += levels[i] + d + "=" + m.at(levels[i] + d) + " ";
            if (!judge) continue;
            if (v < 1 || v > p) throw Viol("size " + levels[i] + d + "=" + to_string(v) + " is not within 1.." + to_string(p));
            if (v % f && v != p) throw Viol("size " + levels[i] + d + "=" + to_string(v) + " is neither a multiple of the vector length nor its parent's size " + to_string(p));
        }
    for (str p : { "Mb", "b" }) { o += p + "t=" + m.at(p + "t") + " "; if (stol(m.at(p + "t")) < 0) throw Viol("negative number of steps"); }
    for (auto& e : m) if (!is_nest(e.first) && e.first != "auto_tune" && !(tuning_now && e.first == "exchange_halos")) {
        auto i = first.find(e.first);
        if (i == first.end() || i->second != e.second) throw Viol("setting '" + e.first + "' changed from " + (i == first.end() ? "nothing" : i->second) + " to " + e.second);
    }
    for (auto& d : sp.dims) if (to_string(s->get_block_size(d)) != m.at("b" + d)) throw Viol("get_block_size() is not that in force");
    return o;
}

static Stats st;
struct Rank {
    map<str, str> first; str cur, best; int64_t delta = 0, best_delta = 0;
    bool armed = false, all_regions = false; int runs = 0; set<str> measured;
    bool enabled = true;
};
static vector<Rank> R;

static str execute(const Cfg& c, const vector<pair<int, int>>& dev, int& ntrials) {
    Session s(c.nranks);
    s.t0 = c.t0;
    mcrt::set_omp_threads(c.threads); mcrt::node_of.clear();
    mcrt::thread_order = 0; mcrt::chunk_mode = 1;
    R.assign(c.nranks, Rank());
    memset(now_ns, 0, sizeof(now_ns));
    int trial = 0;
    tuning_now = false;
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](const str& x) { for (unsigned char ch : x) { h ^= ch; h *= 1099511628211ull; } h ^= h >> 29; hashes().push_back(h); };
    int multi = 0; { auto p = c.opts.find("-auto_tune_targets"); if (p != str::npos) multi = c.opts.substr(p + 19, c.opts.find(' ', p + 19) - p - 19).find(',') != str::npos; }
    auto body = [&](int r) {
        Rank& me = R[r];
        s.make(r, opts_for(c.opts, r));
        auto so = s.soln[r];
        auto prep = [&] {
            so->prepare_solution();
            s.collect(r);
            s.env[r]->global_barrier();
            if (r == 0) { s.make_ref(); }
            s.env[r]->global_barrier();
            s.init(r);
            s.env[r]->global_barrier();
        };
        so->call_before_run_solution([&, r](yk_solution& x, idx_t, idx_t) {
            Rank& me = R[r];
            auto n = nest(s.soln[r], me.first, vals(s.soln[r]), true);
            bool was = me.enabled;
            me.enabled = x.is_auto_tuner_enabled();
            if (me.runs++ >= c.cap) throw Viol("tuning has not finished after " + to_string(c.cap) + " runs");
            if (n != me.cur) {
                // A new trial: decide on its outcome.
                if (!me.enabled) { if (me.cur.size() && !was) throw Viol("sizes changed from " + me.cur + "to " + n + "while the tuner is off"); me.cur = n; return; }
                int ch = c.base;
                for (auto& d : dev) if (d.first == trial) ch = d.second;
                if (me.best_delta == 0) { me.delta = c.d0; }
                else me.delta = ch == 1 ? me.best_delta / 32 * 31 : ch == 2 ? me.best_delta / 8 * 9 : ch == 3 ? me.best_delta : me.best_delta * 4;
                trial++; st.extra["trials"]++;
                mix(to_string(r) + n + to_string(me.delta));
                if (me.best_delta == 0 || me.delta < me.best_delta) { me.best_delta = me.delta; me.best = n; }
                me.cur = n; me.measured.insert(n);
            }
            me.armed = true;
        });
        prep();
        me.first = vals(so);
        bool online = c.mode != 'n' && c.mode != 's';
        if (online != so->is_auto_tuner_enabled()) throw Viol("the tuner's state does not follow the option");
        L dirn = yvref::the_spec.dirn, t = c.t0;
        L stride = 1; { L mbt = stol(me.first.at("Mbt")); if (mbt > 1) stride = min<L>(mbt, 10); }
        L nrun = 0;
        auto reinit = [&] {
            s.env[r]->global_barrier();
            if (r == 0) { s.t0 = t; st.evals += s.ref.evals; s.make_ref(); }
            s.env[r]->global_barrier();
            s.init(r);
            s.env[r]->global_barrier();
        };
        auto run = [&](L steps, bool cmp) {
            so->run_solution(t, t + dirn * (steps - 1));
            s.env[r]->global_barrier();
            if (r == 0) { s.ref.run(t, t + dirn * (steps - 1)); st.runs++; }
            s.env[r]->global_barrier();
            t += dirn * steps;
            nrun++;
            if (cmp || nrun % c.every == 0) { s.compare(r, ("after " + to_string(nrun) + " runs").c_str()); reinit(); }
        };
        auto settled = [&](const char* when) {
            auto n = nest(so, me.first, vals(so), true);
            if (c.mode == 'l') return;
            if (me.measured.size() && !me.measured.count(n)) throw Viol(str(when) + ": the sizes " + n + "have never been measured");
            if (!multi && c.acts.empty() && me.best.size() && n != me.best) throw Viol(str(when) + ": the sizes are " + n + "though the fastest were " + me.best);
        };
        if (c.mode == 's') {
            bool scr = false;
            for (auto& v : yvref::the_spec.vars) scr |= v.scratch;
            L steps = 0, w0 = 0, pts = 1; int64_t el = 0;
            for (auto& d : yvref::the_spec.dims) pts *= so->get_overall_domain_size(d);
            me.all_regions = true;
            int k = 0;
            // Work that neighbours repeat in their extended domains is not specified.
            bool exact = c.nranks == 1 || (stol(me.first.at("Mbt")) <= 1 && stol(me.first.at("bt")) <= 1);
            auto ck = [&](const str& when) {
                auto ys = so->get_stats();
                auto bad = [&](const str& what, double got, double want) { ostringstream o; o.precision(15); o << when << ": " << what << " is " << got << ", not " << want; throw Viol(o.str()); };
                if (ys->get_num_steps_done() != steps) bad("number of steps", ys->get_num_steps_done(), steps);
                if (ys->get_num_elements() != pts) bad("number of elements", ys->get_num_elements(), pts);
                if (!scr && exact && ys->get_num_writes_done() != s.ref.writes - w0) bad("number of elements written", ys->get_num_writes_done(), s.ref.writes - w0);
                if (fabs(ys->get_elapsed_secs() - el * 1e-9) > 1e-8) bad("elapsed time", ys->get_elapsed_secs(), el * 1e-9);
                if (ys->get_est_fp_ops_done() < 0) bad("number of operations", ys->get_est_fp_ops_done(), 0);
                st.extra["stats"]++;
                s.env[r]->global_barrier();
                steps = el = 0; w0 = s.ref.writes;      // get_stats() clears the counters.
                s.env[r]->global_barrier();
            };
            ck("before the first run");
            for (auto& o : c.ops) {
                me.delta = 1000003 + 5000 * ++k + 77 * r;
                if (o == "c") { s.env[r]->global_barrier(); so->clear_stats(); steps = el = 0; w0 = s.ref.writes; s.env[r]->global_barrier(); }
                else if (o == "g") ck("again");
                else {
                    L n = stol(o);
                    int64_t b = now_ns[r];
                    so->run_solution(t, t + dirn * (n - 1));
                    el += now_ns[r] - b; now_ns[r] += 123456789;
                    s.env[r]->global_barrier();
                    if (r == 0) { s.ref.run(t, t + dirn * (n - 1)); st.runs++; }
                    s.env[r]->global_barrier();
                    t += dirn * n; steps += n;
                    s.compare(r, "statistics");
                }
                ck("after " + o);
                s.env[r]->global_barrier();
            }
            s.env[r]->global_barrier();
            so->end_solution();
            s.env[r]->global_barrier();
            s.soln[r] = nullptr;
            return;
        }
        if (c.mode == 'n') {
            tuning_now = true;
            so->run_auto_tuner_now(false);
            s.env[r]->global_barrier();
            tuning_now = false;
            if (so->is_auto_tuner_enabled()) throw Viol("the tuner is on after run_auto_tuner_now()");
            settled("after run_auto_tuner_now()");
            auto ys = so->get_stats();
            if (ys->get_num_steps_done() != 0 || ys->get_elapsed_secs() != 0) throw Viol("statistics are not reset by run_auto_tuner_now()");
            me.enabled = false; me.cur = nest(so, me.first, vals(so), true);
            s.env[r]->global_barrier();
            reinit();
        }
        else {
            if (c.mode == 'l') me.all_regions = true;
            size_t ai = 0;
            while (true) {
                bool any = false;
                s.env[r]->global_barrier();
                for (int q = 0; q < c.nranks; q++) any |= s.soln[q]->is_auto_tuner_enabled();
                s.env[r]->global_barrier();
                if (ai < c.acts.size() && c.acts[ai].first <= nrun) {
                    char a = c.acts[ai++].second;
                    if (a == 'f' || a == 't') {
                        so->reset_auto_tuner(a == 't');
                        if (so->is_auto_tuner_enabled() != (a == 't')) throw Viol("reset_auto_tuner() does not set the tuner's state");
                        if (a == 'f') { settled("after reset_auto_tuner(false)"); me.cur = nest(so, me.first, vals(so), true); me.enabled = false; }
                        else { me.best_delta = 0; me.best = ""; me.cur = ""; }
                    }
                    else if (a == 'p') { s.compare(r, "before preparing again"); prep(); s.t0 = c.t0; me.cur = ""; me.best_delta = 0; me.best = ""; me.measured.clear(); t = c.t0; reinit(); }
                    continue;
                }
                if (!any) break;
                run(c.mode == 'l' ? 3 * stride : stride, false);
            }
            settled("when the tuner has finished");
        }
        auto fin = nest(so, me.first, vals(so), true);
        me.runs = 0;
        if (!so->is_auto_tuner_enabled()) me.cur = fin;
        run(stride, true); run(2 * stride, true);
        if (!so->is_auto_tuner_enabled() && nest(so, me.first, vals(so), true) != fin) throw Viol("sizes changed after tuning");
        so->end_solution();
        s.env[r]->global_barrier();
        s.soln[r] = nullptr;
    };
    auto res = mcrt::run_ranks(c.nranks, body);
    ntrials = trial;
    st.compared += s.compared; st.evals += s.ref.evals;
    st.extra["paths"]++;
    if (s.failed) return s.what;
    if (!res.ok) return res.what.size() ? res.what : "did not finish";
    return "";
}
static str devstr(const vector<pair<int, int>>& d) { str o; for (auto& x : d) o += (o.size() ? "," : "") + to_string(x.first) + ":" + to_string(x.second); return o.size() ? o : "-1:0"; }
static bool explore(const Cfg& c, vector<pair<int, int>>& dev, str& err, str& how) {
    int n = 0;
    set_progress(c.line.substr(0, c.line.find('|')) + (c.exact ? "" : "dev=" + devstr(dev) + " ") + c.line.substr(c.line.find('|')));
    err = execute(c, dev, n);
    if (err.size()) { how = devstr(dev); return false; }
    if (c.exact || c.mode == 's' || int(dev.size()) >= c.k) return true;
    for (int p = dev.size() ? dev.back().first + 1 : 1; p < n; p++)
        for (int a = 0; a < 4; a++) {
            if (a == c.base) continue;
            dev.push_back({p, a});
            bool ok = explore(c, dev, err, how);
            dev.pop_back();
            if (!ok) return false;
        }
    return true;
}

int main(int argc, char** argv) {
    quiet();
    if (argc > 1) open_progress(argv[1]);
    mcrt::on_par_begin = [](int level, int) {
        (void)level;
        if (R.empty()) return;
        int r = mcrt::cur_rank();
        if (r < 0 || r >= int(R.size())) return;
        auto& me = R[r];
        if (me.all_regions) now_ns[r] += me.delta;
        else if (me.armed) { me.armed = false; now_ns[r] += me.delta; }
    };
    str line; int nfail = 0;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        Cfg c;
        bool okp = false; try { okp = parse(line, c); } catch (std::exception&) { }
        if (!okp) { cerr << "bad config: " << line << endl; return 3; }
        str err, how;
        auto dev = c.dev;
        st.configs++;
        try { explore(c, dev, err, how); }
        catch (std::exception& e) { err = str("exception: ") + e.what(); }
        if (err.size()) {
            for (auto& ch : err) if (ch == '\n') ch = ' ';
            auto bar = line.find('|');
            cout << "FAIL " << line.substr(0, bar) << (c.exact ? "" : "dev=" + how + " ") << line.substr(bar) << " => " << err << endl;
            if (++nfail >= 5) break;
        }
    }
    set_progress("done");
    if (argc > 2) write_hashes(argv[2]);
    print_stats(st);
    return nfail ? 1 : 0;
}
