// Driver: builds small solutions through the compiler API and reports those that are not refused.
// Line: tag | dirn | vars | equations;  var: NAME:tx|x|txm;  point: NAME,step,x,misc;  equation: LHS=P+P..[;lt|ge]
#include "yask_compiler_api.hpp"
#include <iostream>
#include <sstream>
#include <map>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
using namespace yask;
using namespace std;

static vector<string> cut(const string& s, char c) {
    vector<string> r; istringstream is(s); string w;
    while (getline(is, w, c)) r.push_back(w);
    return r;
}

static bool accepted(const string& line) {
    auto f = cut(line, '|');
    yc_factory fac;
    yc_node_factory nf;
    yask_output_factory of;
    auto soln = fac.new_solution("p");
    soln->set_debug_output(of.new_null_output());
    auto t = nf.new_step_index("t"); auto x = nf.new_domain_index("x"); auto m = nf.new_misc_index("m");
    map<string, yc_var_ptr> vars; map<string, string> dims;
    string w;
    for (istringstream is(f[2]); is >> w;) {
        auto c = cut(w, ':');
        vector<yc_index_node_ptr> d;
        for (char k : c[1]) d.push_back(k == 't' ? t : k == 'x' ? x : m);
        dims[c[0]] = c[1];
        vars[c[0]] = c[0][0] == 'S' ? soln->new_scratch_var(c[0], d) : soln->new_var(c[0], d);
    }
    auto point = [&](const string& s) {
        auto c = cut(s, ',');
        vector<yc_number_node_ptr> a;
        auto idx = [&](yc_index_node_ptr i, int o) -> yc_number_node_ptr {
            if (!o) return i;
            return o > 0 ? yc_number_node_ptr(nf.new_add_node(i, nf.new_const_number_node(idx_t(o)))) : nf.new_subtract_node(i, nf.new_const_number_node(idx_t(-o)));
        };
        for (char k : dims.at(c[0])) {
            if (k == 't') a.push_back(idx(t, stoi(c[1])));
            else if (k == 'x') a.push_back(idx(x, stoi(c[2])));
            else a.push_back(nf.new_const_number_node(idx_t(stoi(c[3]))));
        }
        return vars.at(c[0])->new_var_point(a);
    };
    try {
        for (istringstream is(f[3]); is >> w;) {
            auto s = cut(w, ';');
            auto q = s[0].find('=');
            yc_number_node_ptr r;
            for (auto& p : cut(s[0].substr(q + 1), '+')) { auto pt = point(p); r = r ? yc_number_node_ptr(nf.new_add_node(r, pt)) : yc_number_node_ptr(pt); }
            yc_bool_node_ptr cond;
            if (s.size() > 1) {
                auto five = nf.new_const_number_node(idx_t(5));
                cond = s[1] == "lt" ? yc_bool_node_ptr(nf.new_less_than_node(x, five)) : nf.new_not_less_than_node(x, five);
            }
            nf.new_equation_node(point(s[0].substr(0, q)), r, cond);
        }
        soln->set_target("avx2"); soln->set_element_bytes(8);
        soln->output_solution(of.new_string_output());
    }
    catch (yask_exception& e) { return false; }
    return true;
}

int main(int argc, char** argv) {
    char* prog = nullptr;
    if (argc > 1) {
        int fd = open(argv[1], O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (ftruncate(fd, 8192)) return 3;
        prog = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    string line; long n = 0, bad = 0;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        if (prog) { strncpy(prog, line.c_str(), 8190); }
        n++;
        if (accepted(line)) {
            cout << "FAIL " << line << " => compiled instead of being refused" << endl;
            if (++bad >= 5) break;
        }
    }
    if (prog) strcpy(prog, "done");
    cout << "STATS states=" << n << " transitions=" << n << " refused=" << n - bad << endl;
    return bad ? 1 : 0;
}
