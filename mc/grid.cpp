// Driver: executes configurations of one compiled program and compares with the pointwise evaluator.
// Configurations are read from stdin, one per line:  <nranks> <mode> <ops> | <options>
//   ops: comma-separated  r<first>:<last>  (run),  c (compare only)  p (prepare again; data re-initialised)
// Output: one line per failing configuration, and STATS.
#include "drv.hpp"
using namespace drv;
using namespace std;

struct Op { char k; L a, b; };
struct Cfg { int nranks = 1; int threads = 1; L t0 = 0; vector<Op> ops; str opts; str line; int salt = 0; double tol = 0; int corder = 0, cmode = 1; bool may_refuse = false; vector<int> nodes; int assign = 0; };

static bool parse(const str& line, Cfg& c) {
    auto bar = line.find('|');
    if (bar == str::npos) return false;
    c.line = line;
    c.opts = line.substr(bar + 1);
    istringstream is(line.substr(0, bar));
    str w;
    while (is >> w) {
        auto eq = w.find('=');
        str k = w.substr(0, eq), v = w.substr(eq + 1);
        if (k == "n") c.nranks = stoi(v);
        else if (k == "th") c.threads = stoi(v);
        else if (k == "t0") c.t0 = stol(v);
        else if (k == "salt") c.salt = stoi(v);
        else if (k == "nodes") { for (char ch : v) c.nodes.push_back(ch - '0'); }
        else if (k == "mr") c.may_refuse = stoi(v);
        else if (k == "ca") c.assign = stoi(v);
        else if (k == "to") c.corder = stoi(v);
        else if (k == "tol") c.tol = stod(v);
        else if (k == "cm") c.cmode = stoi(v);
        else if (k == "ops") {
            istringstream os(v); str o;
            while (getline(os, o, ',')) {
                Op p; p.k = o[0]; p.a = p.b = 0;
                if (p.k == 'r') { auto col = o.find(':'); p.a = stol(o.substr(1, col - 1)); p.b = stol(o.substr(col + 1)); }
                c.ops.push_back(p);
            }
        }
        else return false;
    }
    return true;
}

// "common ; options of rank 0 ; options of rank 1 ..."
static str opts_for(const str& all, int r) {
    vector<str> p; istringstream is(all); str w;
    while (getline(is, w, ';')) p.push_back(w);
    str o = p.size() ? p[0] : "";
    if (size_t(r) + 1 < p.size()) o += " " + p[r + 1];
    return o;
}
// Enumerates the threads of the first 'k' chunks of dynamically scheduled loops; later ones go round robin.
struct Assign : mcrt::Policy {
    size_t k; vector<int> pre, n; size_t pos = 0;
    explicit Assign(size_t k_) : k(k_) {}
    int choose(mcrt::ChoiceKind kind, int nalt) override {
        if (kind != mcrt::CH_CHUNK) return 0;
        size_t p = pos++;
        if (p >= k) return int(p % nalt);
        if (p >= pre.size()) { pre.push_back(0); n.push_back(nalt); }
        return pre[p];
    }
    bool next() {
        pos = 0;
        while (pre.size() && pre.back() + 1 >= n.back()) { pre.pop_back(); n.pop_back(); }
        if (pre.empty()) return false;
        pre.back()++;
        return true;
    }
};
static void go(const Cfg& c, Stats& st, str& err, mcrt::Policy* pol = nullptr) {
    Session s(c.nranks);
    s.t0 = c.t0; s.salt = c.salt; s.tol = c.tol;
    mcrt::set_omp_threads(c.threads); mcrt::node_of = c.nodes;
    mcrt::thread_order = c.corder; mcrt::chunk_mode = c.cmode;
    int done = 0;
    bool refused = false;
    auto res = mcrt::run_ranks(c.nranks, [&](int r) {
        s.make(r, opts_for(c.opts, r));
        bool first = true;
        auto prep = [&] {
            try { s.soln[r]->prepare_solution(); }
            catch (yask_exception& e) {
                // Documented refusal of sizes that cannot be decomposed.
                str m = e.get_message();
                if (c.may_refuse && (m.find("is less than minimum size") != str::npos || m.find("not large enough to split") != str::npos)) refused = true;
                throw;
            }
            s.collect(r);
            s.env[r]->global_barrier();
            if (r == 0) s.make_ref();
            s.env[r]->global_barrier();
            s.init(r);
            first = false;
        };
        prep();
        s.compare(r, "after init");
        for (auto& o : c.ops) {
            if (o.k == 'r') {
                s.soln[r]->run_solution(o.a, o.b);
                s.env[r]->global_barrier();
                if (r == 0) { s.ref.run(o.a, o.b); st.runs++; hashes().push_back(s.hash()); }
                s.env[r]->global_barrier();
                std::ostringstream w; w << "after run " << o.a << ".." << o.b;
                s.compare(r, w.str().c_str());
            }
            else if (o.k == 'p') { s.env[r]->global_barrier(); prep(); }
        }
        s.reach();
        s.soln[r]->end_solution();
        s.env[r]->global_barrier();
        s.soln[r] = nullptr;
        done++;
    }, pol);
    if (refused) { st.skipped++; return; }
    st.configs++;
    st.evals += s.ref.evals; st.compared += s.compared;
    st.extra["msgs"] += res.msgs;
    if (s.failed) err = s.what;
    else if (!res.ok) err = res.what.size() ? res.what : "run did not finish";
}

int main(int argc, char** argv) {
    quiet();
    if (argc > 1) open_progress(argv[1]);
    str line;
    Stats st;
    int nfail = 0;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        Cfg c;
        if (!parse(line, c)) { cerr << "bad config: " << line << endl; return 3; }
        set_progress(line);
        mcrt::choose_chunk = false;
        str err;
        try {
            if (c.assign) {
                Assign a(c.assign);
                mcrt::choose_chunk = true;
                do { go(c, st, err, &a); st.extra["assignments"]++; } while (err.empty() && a.next());
                mcrt::choose_chunk = false;
                if (err.size()) { err += " [chunk owners:"; for (int x : a.pre) err += " " + to_string(x); err += "]"; }
            }
            else go(c, st, err);
        }
        catch (std::exception& e) { err = str("exception: ") + e.what(); }
        if (err.size()) {
            for (auto& ch : err) if (ch == '\n') ch = ' ';
            cout << "FAIL " << line << " => " << err << endl;
            if (++nfail >= 5) break;
        }
    }
    set_progress("done");
    if (argc > 2) write_hashes(argv[2]);
    print_stats(st);
    return nfail ? 1 : 0;
}
