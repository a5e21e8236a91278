// Driver: what options, size setters and preparation do to the settings.  One output line per input line; judged by
// checks/c17.py.
//   P <s|v|a> <hex>...        parse arguments (string, vector or argc/argv form) on a new solution
//   N n=.. th=.. run=.. opts <hex> (rank opts <hex>...) [/ opts ...]   prepare with options; '/' = apply more and prepare again
// Output: X or R<hex of returned rest>, then name=value of every setting that differs from its default.
#include "drv.hpp"
using namespace drv;
using namespace std;

static str unhex(const str& h) {
    str r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(stoi(h.substr(i, 2), nullptr, 16));
    return r;
}
static str hex(const str& s) {
    str r; char b[4];
    for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; }
    return r.empty() ? "-" : r;
}
static map<str, str> vals(yk_solution_ptr s) {
    map<str, str> m;
    istringstream is(s->get_command_line_values());
    str l;
    while (getline(is, l)) {
        auto c = l.find(':');
        if (c == str::npos) continue;
        str n = l.substr(0, c), v = l.substr(c + 1);
        n.erase(0, n.find_first_not_of(' '));
        v.erase(0, v.find_first_not_of(' ') == str::npos ? v.size() : v.find_first_not_of(' '));
        while (v.size() && isspace((unsigned char)v.back())) v.pop_back();
        m[n] = v;
    }
    return m;
}
static map<str, str> base;
static str diff(const map<str, str>& m) {
    str r;
    for (auto& e : m) { auto i = base.find(e.first); if (i == base.end() || i->second != e.second) r += " " + e.first + "=" + hex(e.second); }
    for (auto& e : base) if (!m.count(e.first)) r += " " + e.first + "=gone";
    return r;
}
// Typed getters must report the same as the option values.
static str getters(yk_solution_ptr s, const map<str, str>& m) {
    str bad;
    auto ck = [&](const str& opt, idx_t v) { auto i = m.find(opt); if (i != m.end() && i->second != to_string(v)) bad += " !" + opt + "=" + hex(to_string(v)); };
    for (auto& d : s->get_domain_dim_names()) {
        ck("g" + d, s->get_overall_domain_size(d));
        ck("l" + d, s->get_rank_domain_size(d));
        ck("b" + d, s->get_block_size(d));
        ck("mp" + d, s->get_min_pad_size(d));
        ck("nr" + d, s->get_num_ranks(d));
        ck("ri" + d, s->get_rank_index(d));
    }
    ck("b" + s->get_step_dim_name(), s->get_block_size(s->get_step_dim_name()));
    return bad;
}
static void one(const function<void()>& f) {
    auto res = mcrt::run_ranks(1, [&](int) { f(); });
    if (!res.ok) cout << "! " << hex(res.what) << endl;
}
// Setting by the API instead of by an option ("@b x 5").
static void by_api(yk_solution_ptr s, const str& w, const str& d, idx_t v) {
    if (w == "g") s->set_overall_domain_size(d, v);
    else if (w == "l") s->set_rank_domain_size(d, v);
    else if (w == "b") s->set_block_size(d, v);
    else if (w == "mp") s->set_min_pad_size(d, v);
    else if (w == "nr") s->set_num_ranks(d, v);
    else if (w == "ri") s->set_rank_index(d, v);
    else throw runtime_error("driver: unknown setter " + w);
}
static int teams[8], mteams[8];
static void apply_all(yk_solution_ptr s, const str& o) {
    istringstream is(o); str w, rest;
    while (is >> w) {
        if (w[0] == '@') { str d; idx_t v; is >> d >> v; by_api(s, w.substr(1), d, v); }
        else rest += w + " ";
    }
    str un = s->apply_command_line_options(rest);
    if (un.size()) throw runtime_error("driver: unknown options " + un);
}

int main(int argc, char** argv) {
    quiet();
    one([&] { auto s = fac().new_solution(fac().new_env()); base = vals(s);
              str o = "D"; for (auto& e : base) o += " " + e.first + "=" + hex(e.second); 
              cout << o << endl; });
    mcrt::on_par_begin = [](int level, int n) { if (level >= 0 && level < 8) { teams[level] = n; mteams[level] = max(mteams[level], n); } };
    str line;
    while (getline(cin, line)) {
        istringstream is(line);
        str k; is >> k;
        if (k == "P") {
            str form, w; is >> form;
            vector<str> a;
            while (is >> w) a.push_back(unhex(w));
            one([&] {
                auto s = fac().new_solution(fac().new_env());
                str rest, o;
                try {
                    if (form == "s") rest = s->apply_command_line_options(a.at(0));
                    else if (form == "v") rest = s->apply_command_line_options(a);
                    else {
                        vector<char*> v; str pgm = "pgm"; v.push_back(&pgm[0]);
                        for (auto& x : a) v.push_back(&x[0]);
                        v.push_back(nullptr);
                        rest = s->apply_command_line_options(int(a.size() + 1), v.data());
                    }
                    o = "R" + hex(rest);
                } catch (yask_exception& e) { o = "X"; }
                auto m = vals(s);
                cout << o << diff(m) << getters(s, m) << endl;
                s->apply_command_line_options("-print_suffixes"); // the only global one.
            });
        } else if (k == "N") {
            int n = 1, th = 1, run = 0; str w;
            vector<vector<str>> phase(1);
            while (is >> w) {
                if (w.substr(0, 2) == "n=") n = stoi(w.substr(2));
                else if (w.substr(0, 3) == "th=") th = stoi(w.substr(3));
                else if (w.substr(0, 4) == "run=") run = stoi(w.substr(4));
                else if (w == "/") phase.push_back({});
                else phase.back().push_back(unhex(w));
            }
            mcrt::set_omp_threads(th);
            vector<str> out(n);
            memset(mteams, 0, sizeof(mteams));
            bool refused = false;
            auto res = mcrt::run_ranks(n, [&](int r) {
                auto env = fac().new_env();
                auto s = fac().new_solution(env);
                try {
                    for (auto& p : phase) {
                        apply_all(s, p.at(0));
                        if (size_t(r) + 1 < p.size()) apply_all(s, p[r + 1]);
                        s->prepare_solution();
                    }
                    if (run) { if (r == 0) memset(mteams, 0, sizeof(mteams)); s->run_solution(0, run - 1); }
                } catch (yask_exception& e) { out[r] = "X " + hex(e.get_message()); refused = true; throw; }
                auto m = vals(s);
                str o = "R-" + diff(m) + getters(s, m);
                for (auto& d : s->get_domain_dim_names()) o += " @" + d + "=" + to_string(s->get_first_rank_domain_index(d)) + ":" + to_string(s->get_last_rank_domain_index(d));
                if (run) { o += " @team="; for (int i = 0; i < 3; i++) o += to_string(mteams[i]) + ":"; }
                out[r] = o;
                env->global_barrier();
            });
            if (!res.ok && !refused) { cout << "! " << hex(res.what) << endl; continue; }
            str o;
            for (auto& x : out) o += (o.size() ? " # " : "") + x;
            cout << o << endl;
        }
    }
    return 0;
}
