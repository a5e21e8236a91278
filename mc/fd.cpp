// Driver: prints FD coefficients computed by the library for every case of a line, as hex floats.
// Input lines:  <kind> <deriv> <a> <eval> <points,...>    kind: c(enter) f(orward) b(ackward) a(rbitrary)
#include "yask_common_api.hpp"
#include <iostream>
#include <sstream>
#include <cstdio>
using namespace std;
int main() {
    string line;
    while (getline(cin, line)) {
        istringstream is(line);
        char k; int d, a; double e; string ps;
        is >> k >> d >> a >> e >> ps;
        vector<double> pts, c; istringstream q(ps); string w;
        while (getline(q, w, ',')) pts.push_back(stod(w));
        try {
            if (k == 'c') c = yask::get_center_fd_coefficients(d, a);
            else if (k == 'f') c = yask::get_forward_fd_coefficients(d, a);
            else if (k == 'b') c = yask::get_backward_fd_coefficients(d, a);
            else c = yask::get_arbitrary_fd_coefficients(d, e, pts);
            for (double x : c) printf("%a ", x);
            printf("\n");
        } catch (yask::yask_exception& x) { printf("X\n"); }
        fflush(stdout);
    }
    return 0;
}
