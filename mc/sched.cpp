// Driver for C03: all schedules of ranks and messages of a configuration within a bound on the deviations from a
// base schedule.  Lines:  n= t0= ops=r0:1,x,r2:2,w3 k=<max deviations> kinds=<rtcs> pol=<base> sm=<send mode> td=<0|1>
//   part=i/m  (part of the first-level deviations)  dev=12:1,40:2 (exactly this schedule)  nodes=  | options
// pol: c = the running rank continues; r = switch to the next rank at each point; a permutation, e.g. 201 = priorities.
#include "drv.hpp"
namespace mcrt { extern std::vector<int> enabled; }
using namespace drv;
using namespace std;

struct Op { char k; L a, b; };
struct Cfg { int nranks = 2; L t0 = 0; vector<Op> ops; str opts, line; int k = 1, sm = 0, td = 0, pi = 0, pm = 1; str pol = "c", kinds = "rts"; vector<pair<int, int>> dev; bool exact = false; vector<int> nodes; bool may_refuse = false; };

static bool parse(const str& line, Cfg& c) {
    auto bar = line.find('|');
    if (bar == str::npos) return false;
    c.line = line; c.opts = line.substr(bar + 1);
    istringstream is(line.substr(0, bar)); str w;
    while (is >> w) {
        auto eq = w.find('='); str k = w.substr(0, eq), v = w.substr(eq + 1);
        if (k == "n") c.nranks = stoi(v);
        else if (k == "t0") c.t0 = stol(v);
        else if (k == "k") c.k = stoi(v);
        else if (k == "kinds") c.kinds = v;
        else if (k == "pol") c.pol = v;
        else if (k == "sm") c.sm = stoi(v);
        else if (k == "td") c.td = stoi(v);
        else if (k == "mr") c.may_refuse = stoi(v);
        else if (k == "part") { c.pi = stoi(v); c.pm = stoi(v.substr(v.find('/') + 1)); }
        else if (k == "nodes") { for (char ch : v) c.nodes.push_back(ch - '0'); }
        else if (k == "dev") {
            c.exact = true;
            istringstream ds(v); str d;
            while (getline(ds, d, ',')) { auto q = d.find(':'); c.dev.push_back({stoi(d), stoi(d.substr(q + 1))}); }
        }
        else if (k == "ops") {
            istringstream os(v); str o;
            while (getline(os, o, ',')) {
                Op p; p.k = o[0]; p.a = p.b = 0;
                if (o.size() > 1) p.a = stol(o.substr(1));
                auto col = o.find(':'); if (col != str::npos) p.b = stol(o.substr(col + 1));
                c.ops.push_back(p);
            }
        }
        else return false;
    }
    return true;
}

struct Explorer : mcrt::Policy {
    const Cfg& c;
    const vector<pair<int, int>>& dev;
    vector<int> arity;      // alternatives at each choice point.
    size_t di = 0;
    vector<int> prio;
    uint64_t hash = 14695981039346656037ull;
    Explorer(const Cfg& cc, const vector<pair<int, int>>& d) : c(cc), dev(d) {
        if (isdigit(c.pol[0])) for (char ch : c.pol) prio.push_back(ch - '0');
    }
    int choose(mcrt::ChoiceKind kind, int n) override {
        int def = 0;
        if (kind == mcrt::CH_RANK) {
            auto& en = mcrt::enabled;
            if (prio.size()) {
                for (int p : prio) { auto i = find(en.begin(), en.end(), p); if (i != en.end()) { def = int(i - en.begin()); break; } }
            }
            else if (c.pol == "r" && n > 1) {
                // next higher rank after the one that ran last.
                int cur = en[0], best = -1;
                for (int i = 1; i < n; i++) if (en[i] > cur && (best < 0 || en[i] < en[best])) best = i;
                if (best < 0) for (int i = 1; i < n; i++) if (best < 0 || en[i] < en[best]) best = i;
                def = best;
            }
        }
        else if (kind == mcrt::CH_SEND) def = c.sm;
        int pos = int(arity.size());
        bool on = kind == mcrt::CH_RANK ? c.kinds.find('r') != str::npos : kind == mcrt::CH_TEST ? c.kinds.find('t') != str::npos : c.kinds.find('s') != str::npos;
        arity.push_back(on ? n : 1);
        int alt = 0;
        if (di < dev.size() && dev[di].first == pos) alt = dev[di++].second;
        // alternative 0 is the default, the others in order.
        int r = alt == 0 ? def : (alt <= def ? alt - 1 : alt);
        if (r >= n) r = def;
        if (kind == mcrt::CH_RANK) hash = (hash ^ uint64_t(mcrt::enabled[r] + 1)) * 1099511628211ull;
        else hash = (hash ^ uint64_t(100 + 10 * kind + r)) * 1099511628211ull;
        return r;
    }
};

static Stats st;
static shared_ptr<Ctx> ref_cache;

// One execution; fills the arities of its choice points.
static str execute(const Cfg& c, const vector<pair<int, int>>& dev, vector<int>& arity, bool& refused) {
    Session s(c.nranks);
    s.t0 = c.t0;
    mcrt::set_omp_threads(1); mcrt::node_of = c.nodes;
    mcrt::send_mode = c.sm; mcrt::test_default_none = c.td;
    mcrt::choose_rank = mcrt::choose_send = mcrt::choose_test = false;
    Explorer ex(c, dev);
    auto res = mcrt::run_ranks(c.nranks, [&](int r) {
        s.make(r, c.opts);
        try { s.soln[r]->prepare_solution(); }
        catch (yask_exception& e) {
            str m = e.get_message();
            if (c.may_refuse && (m.find("is less than minimum size") != str::npos || m.find("not large enough to split") != str::npos)) refused = true;
            throw;
        }
        s.collect(r);
        s.env[r]->global_barrier();
        if (r == 0) s.make_ref();
        s.env[r]->global_barrier();
        s.init(r);
        s.env[r]->global_barrier();
        // All ranks have reached this point: from here on the schedule is explored.
        mcrt::choose_rank = mcrt::choose_send = mcrt::choose_test = true;
        for (auto& o : c.ops) {
            if (o.k == 'r') s.soln[r]->run_solution(o.a, o.b);
            else if (o.k == 'x') s.soln[r]->exchange_halos();
            else if (o.k == 'w') {
                // Each rank changes its own elements of each var with a step dim at step a.
                for (size_t v = 0; v < s.ref.st.size(); v++) {
                    auto& vd = yvref::the_spec.vars[v];
                    if (vd.scratch || !s.ref.st[v].has_step) continue;
                    auto kv = s.soln[r]->get_var(vd.name);
                    auto& e = s.ext[r][v];
                    LV i = e.dfirst;
                    do kv->add_to_element(1.0 + double(i[0] % 3), Session::full(vd, i, o.a)); while (Session::next(i, e.dfirst, e.dlast));
                }
            }
        }
        // The end of the run is not part of the exploration.
        s.env[r]->global_barrier();
        mcrt::choose_rank = mcrt::choose_send = mcrt::choose_test = false;
        if (r == 0) {
            if (!ref_cache) {
                for (auto& o : c.ops) {
                    if (o.k == 'r') { s.ref.run(o.a, o.b); }
                    else if (o.k == 'w')
                        for (size_t v = 0; v < s.ref.st.size(); v++) {
                            auto& stt = s.ref.st[v];
                            if (yvref::the_spec.vars[v].scratch || !stt.has_step) continue;
                            LV f, l;
                            for (size_t q = 0; q < stt.first.size(); q++) { int k = stt.kind[q]; f.push_back(k < 100 ? s.gfirst[k] : stt.first[q]); l.push_back(k < 100 ? s.glast[k] : stt.last[q]); }
                            LV i = f; auto& pl = stt.at(o.a);
                            do pl[stt.pos(i.data())] += 1.0 + double(i[0] % 3); while (Session::next(i, f, l));
                        }
                }
                ref_cache = make_shared<Ctx>(s.ref);
            }
            else s.ref = *ref_cache;
        }
        s.env[r]->global_barrier();
        s.compare(r, "at the end");
        s.env[r]->global_barrier();
        s.soln[r]->end_solution();
        s.env[r]->global_barrier();
        s.soln[r] = nullptr;
    }, &ex);
    mcrt::choose_rank = mcrt::choose_send = mcrt::choose_test = false;
    arity = ex.arity;
    if (refused) return "";
    st.runs++; st.compared += s.compared; st.extra["msgs"] += res.msgs;
    st.extra["choice_points"] += long(ex.arity.size());
    hashes().push_back(ex.hash);
    if (s.failed) return s.what;
    if (!res.ok) return res.what.size() ? res.what : "run did not finish";
    if (ex.di < dev.size() && c.exact) return "";
    return "";
}

static str devstr(const vector<pair<int, int>>& d) { str o; for (auto& x : d) o += (o.size() ? "," : "") + to_string(x.first) + ":" + to_string(x.second); return o; }

// Depth-first over the sets of deviations.
static bool explore(const Cfg& c, vector<pair<int, int>>& dev, str& err, str& how) {
    vector<int> ar; bool refused = false;
    set_progress(c.line.substr(0, c.line.find('|')) + (dev.size() && !c.exact ? "dev=" + devstr(dev) + " " : "") + c.line.substr(c.line.find('|')));
    err = execute(c, dev, ar, refused);
    if (refused) { st.skipped++; return true; }
    if (err.size()) { how = devstr(dev); return false; }
    if (c.exact || int(dev.size()) >= c.k) return true;
    int from = dev.size() ? dev.back().first + 1 : 0;
    for (int p = from; p < int(ar.size()); p++) {
        if (dev.empty() && p % c.pm != c.pi) continue;
        for (int a = 1; a < ar[p]; a++) {
            dev.push_back({p, a});
            bool ok = explore(c, dev, err, how);
            dev.pop_back();
            if (!ok) return false;
        }
    }
    return true;
}

int main(int argc, char** argv) {
    quiet();
    if (argc > 1) open_progress(argv[1]);
    str line; int nfail = 0;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        Cfg c;
        bool okp = false; try { okp = parse(line, c); } catch (std::exception&) { }
        if (!okp) { cerr << "bad config: " << line << endl; return 3; }
        ref_cache = nullptr;
        str err, how;
        auto dev = c.dev;
        st.configs++;
        try { explore(c, dev, err, how); }
        catch (std::exception& e) { err = str("exception: ") + e.what(); }
        if (err.size()) {
            for (auto& ch : err) if (ch == '\n') ch = ' ';
            auto bar = line.find('|');
            cout << "FAIL " << line.substr(0, bar) << (c.exact ? "" : how.size() ? "dev=" + how + " " : "k=0 ") << line.substr(bar) << " => " << err << endl;
            if (++nfail >= 5) break;
        }
    }
    set_progress("done");
    if (argc > 2) write_hashes(argv[2]);
    print_stats(st);
    return nfail ? 1 : 0;
}
