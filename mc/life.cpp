// Driver: sequences of life-cycle calls on one or two solutions.  Every call is judged: it takes its documented effect, or
// throws and leaves everything a user can observe as it was; at the end the solution must still be usable and correct.
//   ops=<op>[,<op>...] n=<number of solutions> | options
// Ops start with the solution number (1, 2).
#include "drv.hpp"
using namespace drv;
using namespace std;

struct Viol : runtime_error { using runtime_error::runtime_error; };
static Stats st;

struct Sol {
    yk_solution_ptr s;
    bool prep = false;            // prepared, and nothing was changed since.
    bool maybe = false;           // something was changed since then that does not need another preparation, perhaps.
    bool tainted = false;         // a fixed-size var or a var of another solution stands for one used in equations.
    int hooks[4] = { 0, 0, 0, 0 }; L hfirst = -99, hlast = -99;
    bool pend = false;            // options were changed and not applied to the vars yet.
    bool resized = false;         // sizes were changed while there was storage.
};
typedef map<str, str> Snap;
struct World {
    yk_env_ptr env;
    Sol sol[3];
    map<str, yk_var_ptr> v;       // "1A" -> handle
    map<str, int> group;          // handles fused with each other are in the same group.
    int ngroup = 0;
    int grp(const str& h) { auto i = group.find(h); return i == group.end() ? (group[h] = ++ngroup) : i->second; }
    int nsol = 1;
    bool wf = false;             // halos decide on more than the pads: the wave-front sizes follow them.
    L t = 0;
};

static str num(L x) { return to_string(x); }
static uint64_t hashmem(const void* p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
// Everything that can be asked about a var.
static void snap_var(yk_var_ptr v, const str& p, Snap& m, bool content) {
    m[p + "ndims"] = num(v->get_num_dims());
    m[p + "fixed"] = num(v->is_fixed_size());
    m[p + "bytes"] = num(v->get_num_storage_bytes());
    m[p + "elems"] = num(v->get_num_storage_elements());
    m[p + "alloc"] = num(v->is_storage_allocated());
    m[p + "buf"] = num(L(v->get_raw_storage_buffer()));
    auto nm = v->get_dim_names();
    for (size_t i = 0; i < nm.size(); i++) {
        auto& d = nm[i];
        str q = p + d + ".";
        m[q + "alloc_size"] = num(v->get_alloc_size(d));
        m[q + "first"] = num(v->get_first_local_index(d));
        m[q + "last"] = num(v->get_last_local_index(d));
        if (d == "t") { m[q + "first_step"] = num(v->get_first_valid_step_index()); m[q + "last_step"] = num(v->get_last_valid_step_index()); continue; }
        if (d == "m" || d == "q") { m[q + "fm"] = num(v->get_first_misc_index(d)); m[q + "lm"] = num(v->get_last_misc_index(d)); continue; }
        m[q + "lp"] = num(v->get_left_pad_size(d)); m[q + "rp"] = num(v->get_right_pad_size(d));
        m[q + "lh"] = num(v->get_left_halo_size(d)); m[q + "rh"] = num(v->get_right_halo_size(d));
        m[q + "le"] = num(v->get_left_extra_pad_size(d)); m[q + "re"] = num(v->get_right_extra_pad_size(d));
        m[q + "dom"] = num(v->get_rank_domain_size(d));
        m[q + "fd"] = num(v->get_first_rank_domain_index(d)); m[q + "ld"] = num(v->get_last_rank_domain_index(d));
        m[q + "fh"] = num(v->get_first_rank_halo_index(d)); m[q + "lh_i"] = num(v->get_last_rank_halo_index(d));
    }
    if (content && v->is_storage_allocated()) m[p + "content"] = num(L(hashmem(v->get_raw_storage_buffer(), v->get_num_storage_bytes())));
}
static Snap snap(World& w) {
    Snap m;
    for (int k = 1; k <= w.nsol; k++) {
        auto& s = w.sol[k].s;
        if (!s) continue;
        str p = num(k) + ".";
        for (auto& d : s->get_domain_dim_names()) {
            m[p + d + ".rank"] = num(s->get_rank_domain_size(d)); m[p + d + ".overall"] = num(s->get_overall_domain_size(d));
            m[p + d + ".block"] = num(s->get_block_size(d)); m[p + d + ".minpad"] = num(s->get_min_pad_size(d));
            m[p + d + ".nr"] = num(s->get_num_ranks(d)); m[p + d + ".ri"] = num(s->get_rank_index(d));
        }
        str vars, misc;
        for (auto& v : s->get_vars()) { vars += v->get_name(); vars += " "; }
        for (auto& d : s->get_misc_dim_names()) misc += d + " ";
        m[p + "vars"] = vars; m[p + "misc"] = misc;
        m[p + "nvars"] = num(s->get_num_vars());
        m[p + "opts"] = s->get_command_line_values();
    }
    for (auto& e : w.v) snap_var(e.second, e.first + ".", m, true);
    return m;
}
static L get(const Snap& m, const str& k) { auto i = m.find(k); return i == m.end() ? -999 : stoll(i->second); }

// Difference of two snapshots; keys for which skip() holds are ignored.
static str diff(const Snap& a, const Snap& b, function<bool(const str&)> skip) {
    for (auto& e : a) {
        if (skip(e.first)) continue;
        auto i = b.find(e.first);
        if (i == b.end()) return e.first + " is gone";
        if (i->second != e.second) return e.first + " changed from " + (e.second.size() > 80 ? "..." : e.second) + " to " + (e.second.size() > 80 ? "..." : i->second);
    }
    for (auto& e : b) if (!skip(e.first) && !a.count(e.first)) return e.first + " appeared";
    return "";
}
// Do the queries agree with each other, and is the storage what they say?
static void check(World& w, const Snap& m, const str& when) {
    map<L, pair<L, str>> regions;
    for (auto& e : w.v) {
        auto& v = e.second;
        str p = e.first + ".";
        auto bad = [&](const str& x) { throw Viol(when + ": var " + e.first + ": " + x); };
        L prod = 1;
        bool zero = false;
        for (auto& d : v->get_dim_names()) {
            str q = p + d + ".";
            L al = get(m, q + "alloc_size");
            if (al < 0) bad("negative allocation in " + d);
            zero |= al == 0;
            prod *= al;
            L f = get(m, q + "first"), l = get(m, q + "last");
            if (l - f + 1 != al) bad("local indices " + num(f) + ".." + num(l) + " in '" + d + "' but " + num(al) + " elements allocated");
            if (d == "t") { if (get(m, q + "first_step") != f || get(m, q + "last_step") != l) bad("valid steps differ from the local indices"); continue; }
            if (d == "m" || d == "q") { if (get(m, q + "fm") != f || get(m, q + "lm") != l) bad("misc indices differ from the local indices"); continue; }
            L lp = get(m, q + "lp"), rp = get(m, q + "rp"), lh = get(m, q + "lh"), rh = get(m, q + "rh"), dom = get(m, q + "dom");
            if (lp + dom + rp != al) bad("pads " + num(lp) + "," + num(rp) + " and domain " + num(dom) + " in '" + d + "' do not add up to the allocation " + num(al));
            if (lh < 0 || rh < 0 || lp < lh || rp < rh) bad("halos " + num(lh) + "," + num(rh) + " are not within the pads " + num(lp) + "," + num(rp) + " in '" + d + "'");
            if (get(m, q + "le") != lp - lh || get(m, q + "re") != rp - rh) bad("extra pads are not pads less halos in '" + d + "'");
            L fd = get(m, q + "fd"), ld = get(m, q + "ld");
            if (ld - fd + 1 != dom || fd - lp != f || ld + rp != l) bad("domain indices " + num(fd) + ".." + num(ld) + " do not fit the pads and local indices " + num(f) + ".." + num(l) + " in '" + d + "'");
            if (get(m, q + "fh") != fd - lh || get(m, q + "lh_i") != ld + rh) bad("halo indices do not fit in '" + d + "'");
            auto& so = w.sol[e.first[0] - '0'];
            if (so.s && !get(m, p + "fixed") && !so.tainted && !so.pend && dom != so.s->get_rank_domain_size(d))
                bad("domain size " + num(dom) + " in '" + d + "' but that of the solution is " + num(so.s->get_rank_domain_size(d)));
        }
        if (get(m, p + "elems") != prod) bad("number of elements is " + m.at(p + "elems") + ", not " + num(prod));
        L eb = 8;
        if (w.sol[e.first[0] - '0'].s) eb = w.sol[e.first[0] - '0'].s->get_element_bytes();
        if (get(m, p + "bytes") < prod * eb) bad("too few bytes");
        L buf = get(m, p + "buf");
        if ((buf != 0) != (get(m, p + "alloc") != 0)) bad("storage pointer and allocation state differ");
        if (!buf || zero) continue;
        if (buf % 64) bad("storage is not aligned");
        // Both ends of each dim are readable through the API and lie within the storage (guarded).
        idx_t_vec f, l;
        for (auto& d : v->get_dim_names()) { f.push_back(v->get_first_local_index(d)); l.push_back(v->get_last_local_index(d)); }
        if (!v->are_indices_local(f) || !v->are_indices_local(l)) bad("first or last indices are not local");
        volatile double x = v->get_element(f) + v->get_element(l); (void)x;
        volatile char c = ((char*)buf)[0] + ((char*)buf)[get(m, p + "bytes") - 1]; (void)c;
        auto r = regions.find(buf);
        if (r == regions.end()) regions[buf] = { buf + get(m, p + "bytes"), e.first };
        else {
            // The same storage is all right for fused vars only: they agree on everything.
            Snap a, b;
            snap_var(v, "", a, false); snap_var(w.v[r->second.second], "", b, false);
            auto s = diff(a, b, [](const str&) { return false; });
            if (s.size()) bad("shares the storage of " + r->second.second + " but " + s);
        }
    }
    L end = 0; str who;
    for (auto& r : regions) {
        if (r.first < end) throw Viol(when + ": storage of " + r.second.second + " overlaps that of " + who);
        end = r.second.first; who = r.second.second;
    }
}

static yk_var_ptr var(World& w, int k, const str& n) {
    auto i = w.v.find(num(k) + n);
    return i == w.v.end() ? nullptr : i->second;
}
// Fill the vars of the solution, run two steps and compare all values with the evaluated equations.
static void probe(World& w, int k, const str& when) {
    Session s(1);
    s.t0 = w.t; s.salt = int(w.t % 7);
    s.env[0] = w.env; s.soln[0] = w.sol[k].s;
    s.collect(0);
    s.make_ref();
    s.init(0);
    w.sol[k].s->run_solution(s.t0, s.t0 + 1);
    s.ref.run(s.t0, s.t0 + 1);
    s.compare(0, when.c_str());
    st.evals += s.ref.evals; st.compared += s.compared; st.runs++;
    w.t += 2;
    hashes().push_back(s.hash());
    if (s.failed) throw Viol(s.what);
}

enum Must { MAY, OK, THROW };
static void op(World& w, const str& o, bool final = false) {
    int k = o[0] - '0';
    auto& so = w.sol[k];
    auto& s = so.s;
    str c = o.substr(1);
    if (!s && c != "get") return;
    str when = (final ? "finally, " : "op ") + o;
    Snap before = snap(w);
    auto stored = [&](int q) { for (auto& e : w.v) if (e.first[0] - '0' == q && e.second->is_storage_allocated()) return true; return false; };
    bool any = stored(k);
    auto A = var(w, k, "A"), U = var(w, k, "U"), F = var(w, k, "F");
    Must must = MAY;
    function<void()> f, effect = [] {};
    bool content = false;             // may change contents (of 'touch', or of all when empty).
    set<str> touch;                   // handles whose queries may change; "*" for all.
    auto expect = [&](const str& what, L got, L want) { if (got != want) throw Viol(when + " succeeded but " + what + " is " + num(got) + ", not " + num(want)); };
    auto need = [&](const str& what, bool b) { if (!b) throw Viol(when + " succeeded but " + what); };
    auto T = [&](const str& n) { str h = isdigit(n[0]) ? n : num(k) + n; for (auto& e : w.v) if (w.grp(e.first) == w.grp(h)) touch.insert(e.first); };
    auto shared = [&](const str& n) { int c = 0; for (auto& e : w.v) c += w.grp(e.first) == w.grp(num(k) + n); return c > 1; };
    bool prep_after = so.prep, maybe_after = so.maybe;
    if (c[0] == 'D') {                // size of rank domain.
        L n = stoll(c.substr(1));
        f = [&, n] { s->set_rank_domain_size("x", n); s->set_overall_domain_size("x", 0); };
        effect = [&, n] { expect("rank size", s->get_rank_domain_size("x"), n); if (any) so.resized = true; };
        if (!any) must = n < 0 ? THROW : OK;
        touch = { "*" }; prep_after = maybe_after = false;
    } else if (c[0] == 'L') {         // block size.
        f = [&] { s->set_block_size("x", 2); };
        effect = [&] { expect("block size", s->get_block_size("x"), 2); };
        must = OK; prep_after = maybe_after = false;
    } else if (c[0] == 'S') {         // min pad for all vars.
        f = [&] { s->set_min_pad_size("y", 6); };
        effect = [&] { expect("min pad", s->get_min_pad_size("y"), 6);
            for (auto n : { "A", "B", "U" }) if (auto v = var(w, k, n)) if (!v->is_fixed_size() && !so.tainted) need(str("pads of ") + n + " are smaller", v->get_left_pad_size("y") >= 6 && v->get_right_pad_size("y") >= 6); };
        if (!any) must = OK;
        touch = { "*" };
        if (so.prep) { prep_after = false; maybe_after = true; }
    } else if (c[0] == 'h' || c[0] == 'p') {   // halo, min pad of A (x, left only).
        L n = stoll(c.substr(1));
        char q = c[0];
        bool al = A->is_storage_allocated();
        L pad = A->get_left_pad_size("x");
        f = [&, n, q] { if (q == 'h') A->set_left_halo_size("x", n); else A->set_left_min_pad_size("x", n); };
        effect = [&, n, q] {
            if (q == 'h') expect("halo", A->get_left_halo_size("x"), n);
            else need("pad is smaller", A->get_left_pad_size("x") >= n); };
        if (n < 0 || (al && n > pad)) must = THROW;
        else if (!al) must = OK;
        T("A");
        if (q == 'h' || so.prep) { if (so.prep) maybe_after = true; prep_after = false; }
    } else if (c[0] == 'a' || c[0] == 'r') {                  // allocate, release.
        auto v = var(w, k, c.substr(1));
        if (!v) return;
        bool al = c[0] == 'a';
        f = [&, v, al] { al ? v->alloc_storage() : v->release_storage(); };
        effect = [&, v, al] { need(al ? "there is no storage" : "there is still storage", v->is_storage_allocated() == al); };
        must = OK; content = al; T(c.substr(1));
        if (c[1] == 'A' || c[1] == 'B' || so.tainted) {
            if (!al) { maybe_after = so.prep || so.maybe; prep_after = false; }
            else if (!v->is_storage_allocated()) ;            // still not, or again, usable.
        }
    } else if (c[0] == 'N') {         // new var; the name may be taken.
        str n = c.substr(1);
        bool dup = n == "A" || U;
        bool flat = n == "U2";        // with other dims.
        if (flat) { n = "U"; dup = !!U; }
        f = [&, n, flat] { auto v = flat ? s->new_var(n, { "x", "y" }) : s->new_var(n, { "t", "x", "y" }); w.v[num(k) + n] = v; };
        effect = [&, n, flat] { auto v = var(w, k, n); need("it cannot be found", s->get_var(n) == v); need("it has storage", !v->is_storage_allocated()); need("its dims differ", v->get_dim_names() == (flat ? string_vec({ "x", "y" }) : string_vec({ "t", "x", "y" }))); need("it is of fixed size", !v->is_fixed_size()); };
        must = dup ? THROW : OK;
        if (!dup) touch = { num(k) + n };
    } else if (c[0] == 'M') {         // new var with a new misc dim but a name that is taken.
        f = [&] { s->new_var("A", { "x", "q" }); };
        must = THROW;
    } else if (c[0] == 'Q') {         // new var with other dims and no sizes (yet).
        bool dup = !!var(w, k, "Q");
        f = [&] { w.v[num(k) + "Q"] = s->new_var("Q", { "t", "x", "q" }); };
        must = dup ? THROW : OK;
        if (!dup) touch = { num(k) + "Q" };
    } else if (c[0] == 'q') {         // use or size it.
        auto Q = var(w, k, "Q");
        if (!Q) return;
        if (c == "q") {
            f = [&, Q] { Q->set_element(1., { 0, 0, 0 }); };
            effect = [&, Q] { need("the value is not there", Q->get_element({ 0, 0, 0 }) == 1.); };
            content = true;
        } else {
            f = [&, Q] { Q->set_alloc_size("t", 1); Q->set_alloc_size("q", 2); };
            effect = [&, Q] { expect("size", Q->get_alloc_size("q"), 2); };
            if (!Q->is_storage_allocated()) must = OK;
        }
        T("Q");
    } else if (c[0] == 'O') {         // options that need another preparation.
        f = [&] { auto r = s->apply_command_line_options("-Mbt 3 -bx 2 -mpy 7"); need("options are left", r.empty()); };
        must = OK; touch = { "*" }; if (so.prep) maybe_after = true; prep_after = false;
    } else if (c[0] == 'F') {         // new fixed-size var.
        L n = stoll(c.substr(1));
        f = [&, n] { w.v[num(k) + "F"] = s->new_fixed_size_var("F", { "t", "x", "y" }, { 2, n, 5 }); };
        effect = [&, n] { auto v = var(w, k, "F"); need("it is not of fixed size", v->is_fixed_size()); expect("size in x", v->get_rank_domain_size("x"), n); expect("size in t", v->get_alloc_size("t"), 2); need("it has storage", !v->is_storage_allocated()); };
        must = F || n < 0 ? THROW : OK;
        if (must == OK) touch = { num(k) + "F" };
    } else if (c[0] == 'G') {         // size of a dim of the fixed-size var.
        L n = stoll(c.substr(2)); str d = c.substr(1, 1);
        if (!F) return;
        bool al = F->is_storage_allocated();
        L old = F->get_rank_domain_size("x");
        L oldt = F->get_alloc_size("t");
        f = [&, n, d] { F->set_alloc_size(d, n); };
        effect = [&, n, d] { expect("size", d == "t" ? F->get_alloc_size(d) : F->get_rank_domain_size(d), n); if (F->is_storage_allocated()) so.resized = true; };
        if (n < 0 || (d == "t" && n < 1)) must = THROW;
        else if (shared("F")) must = MAY;
        else if (al) must = (d == "t" && n != oldt) ? THROW : MAY;
        else must = OK;
        (void)old;
        if (so.tainted) { prep_after = maybe_after = false; }
        T("F");
    } else if (c[0] == 'V') {         // number of steps of the new var or of A; domain size of A.
        if (c == "VA") { f = [&] { A->set_alloc_size("t", 3); }; must = so.tainted ? MAY : THROW; T("A"); }
        else if (c == "VAx") { f = [&] { A->set_alloc_size("x", 9); }; must = so.tainted ? MAY : THROW; T("A"); }
        else {
            if (!U || !U->is_dim_used("t")) return;
            L n = stoll(c.substr(1));
            f = [&, n] { U->set_alloc_size("t", n); };
            effect = [&, n] { expect("number of steps", U->get_alloc_size("t"), n); };
            if (n < 1 || (U->is_storage_allocated() && n != U->get_alloc_size("t"))) must = THROW;
            else if (shared("U")) must = MAY;
            else if (!U->is_storage_allocated()) must = OK;
            T("U");
            }
        if (so.tainted) prep_after = maybe_after = false;
    } else if (c[0] == '<') {         // fuse: <AU: A becomes U; <A2A: A becomes A of solution 2.
        str a = c.substr(1, 1), b = c.substr(2);
        int kb = isdigit(b[0]) ? b[0] - '0' : k;
        if (isdigit(b[0])) b = b.substr(1);
        auto va = var(w, k, a), vb = var(w, kb, b);
        if (!va || !vb) return;
        bool compat = va->get_dim_names() == vb->get_dim_names();
        f = [&, va, vb] { va->fuse_vars(vb); };
        effect = [&, va, vb, a, b, kb] {
            Snap x, y;
            snap_var(va, "", x, true); snap_var(vb, "", y, true);
            auto d = diff(x, y, [](const str& q) { return q == "fixed"; });
            need("they differ: " + d, d.empty());
            w.group[num(k) + a] = w.grp(num(kb) + b);
            so.tainted = true; w.sol[kb].tainted = true; so.pend |= w.sol[kb].pend; };
        auto steps = [](yk_var_ptr v) { return v->is_dim_used("t") ? v->get_alloc_size("t") : 0; };
        if (!compat) must = THROW;
        else if (a != "U" && steps(va) != steps(vb)) must = THROW;   // used in equations.
        else if (!vb->is_fixed_size() && !vb->is_storage_allocated()) must = OK;
        touch.insert(num(k) + a); T(num(kb) + b);
        prep_after = false; maybe_after = false;
        if (kb != k && !final) { }
    } else if (c[0] == 'f') {         // fuse all vars with those of the other solution.
        int kb = 3 - k;
        if (!w.sol[kb].s) return;
        f = [&, kb] { s->fuse_vars(w.sol[kb].s); };
        effect = [&, kb] {
            for (auto n : { "A", "B" }) {
                Snap x, y;
                snap_var(var(w, k, n), "", x, true); snap_var(var(w, kb, n), "", y, true);
                auto d = diff(x, y, [](const str& q) { return q == "fixed"; });
                need("they differ: " + d, d.empty());
                w.group[num(k) + n] = w.grp(num(kb) + n);
            }
            so.tainted = true; w.sol[kb].tainted = true; so.pend |= w.sol[kb].pend; };
        must = OK;
        for (auto n : { "A", "B", "U", "F" }) {
            touch.insert(num(k) + n);
            if (var(w, k, n) && var(w, kb, n) && var(w, k, n)->get_dim_names() != var(w, kb, n)->get_dim_names()) { must = THROW; break; }
            if (auto a = var(w, k, n)) if (auto b = var(w, kb, n)) {
                T(num(kb) + n);
                if (a->is_dim_used("t") && a->get_alloc_size("t") != b->get_alloc_size("t")) must = MAY;
                for (auto d : { "x", "y" }) if (b->is_storage_allocated() && (b->get_left_halo_size(d) < a->get_left_halo_size(d) || b->get_right_halo_size(d) < a->get_right_halo_size(d))) must = MAY;
            }
        }
        prep_after = maybe_after = false;
    } else if (c == "P") {
        f = [&] { s->prepare_solution(); };
        effect = [&] { for (auto& e : w.v) if (e.first[0] - '0' == k) need("there is no storage for " + e.first, e.second->is_storage_allocated());
            for (auto& d : s->get_domain_dim_names()) { expect("first index", s->get_first_rank_domain_index(d), 0); expect("last index", s->get_last_rank_domain_index(d), s->get_rank_domain_size(d) - 1); }
            for (auto n : { "A", "B" }) { auto v = var(w, k, n); for (auto& d : s->get_domain_dim_names()) expect(str("domain size of ") + n, v->get_rank_domain_size(d), s->get_rank_domain_size(d)); } };
        if (so.prep || (!any && !so.tainted)) must = OK;
        touch = { "*" };
        prep_after = true; maybe_after = false;
    } else if (c == "R") {
        f = [&] { probe(w, k, when); };
        bool all = true;
        for (auto n : { "A", "B" }) all &= var(w, k, n)->is_storage_allocated();
        must = !all ? THROW : so.prep ? OK : so.maybe ? MAY : THROW;
        if (so.tainted && must == THROW && all) must = MAY;
        content = true; T("A"); T("B");
        if (must == THROW) { f = [&] { s->run_solution(w.t, w.t); }; content = false; touch.clear(); }
        else if (!so.prep) {
            // Indices may not be as needed to fill: whatever it does, it must not fail otherwise.
            if (!all) f = [&] { s->run_solution(w.t, w.t); };
        }
    } else if (c == "E") {
        f = [&] { s->end_solution(); };
        effect = [&] { for (auto& e : w.v) if (e.first[0] - '0' == k) need("there is still storage for " + e.first, !e.second->is_storage_allocated()); };
        must = OK;
        for (auto& e : w.v) if (e.first[0] - '0' == k) T(e.first);
        prep_after = maybe_after = false;
    } else if (c == "W") {
        if (!A->is_storage_allocated()) return;
        f = [&] { A->set_all_elements_same(3.); };
        effect = [&] {
            idx_t_vec a, b; size_t n = 1;
            for (auto& d : A->get_dim_names()) { a.push_back(A->get_first_local_index(d)); b.push_back(A->get_last_local_index(d)); n *= b.back() - a.back() + 1; }
            vector<double> q(n);
            A->get_elements_in_slice(q.data(), n, a, b);
            for (double x : q) need("a value is not 3", x == 3.); };
        must = OK; content = true; T("A");
    } else if (c == "X") {            // the solution goes away; handles of its vars may be kept.
        f = [&] { so.s = nullptr; };
        must = OK;
        for (auto i = w.v.begin(); i != w.v.end(); ) if (i->first[0] - '0' == k) i = w.v.erase(i); else ++i;
        A = U = F = nullptr;
        touch = { "*" };
        for (auto i = before.begin(); i != before.end(); ) if (i->first[0] - '0' == k) i = before.erase(i); else ++i;
    } else if (c == "x") {
        f = [&] { so.s = nullptr; };
        must = OK;
        touch = { "*" };
        auto p = num(k) + ".";
        for (auto i = before.begin(); i != before.end(); ) if (i->first.substr(0, 2) == p) i = before.erase(i); else ++i;
    } else throw runtime_error("unknown op " + o);

    if ((so.pend || w.wf || (so.tainted && w.nsol > 1)) && strchr("LDSNQFM", c[0])) { touch = { "*" }; if (any && must == OK) must = MAY; }
    str thrown; bool threw = false;
    int hk[4]; memcpy(hk, so.hooks, sizeof(hk));
    L run_t = w.t;
    try { f(); }
    catch (yask_exception& e) { threw = true; thrown = e.get_message(); }
    st.extra["ops"]++;
    for (auto& ch : thrown) if (ch == '\n') ch = ' ';
    if (threw) st.extra["refused"]++;
    // Hooks are called once per call, before and (when it succeeded) after.
    for (int i = 0; i < 4; i++) {
        int n = so.hooks[i] - hk[i], want = (i < 2 ? c == "P" : c == "R") && (i % 2 == 0 || !threw);
        if (n != want && !(threw && i % 2 == 0 && n == 0)) throw Viol(when + ": hook " + num(i) + " was called " + num(n) + " times");
    }
    if (c == "R" && !threw && (so.hfirst != run_t || so.hlast != run_t + 1)) throw Viol(when + ": hooks were given steps " + num(so.hfirst) + ".." + num(so.hlast));
    if (threw && must == OK) throw Viol(when + " was refused: " + thrown);
    if (!threw && must == THROW) throw Viol(when + " was not refused");
    if (!threw) {
        effect();
        if (c[0] == 'O') so.pend = true;
        else if (strchr("PDLSN", c[0])) so.pend = false;
        so.prep = prep_after; so.maybe = maybe_after;
        if (c[0] == '<' && isdigit(c[2])) { auto& q = w.sol[c[2] - '0']; if (q.prep) { q.prep = false; q.maybe = true; } }
        if (c[0] == 'f' || c == "E" || c[0] == 'r' || c[0] == 'a' || c[0] == 'D' || c[0] == 'h' || c[0] == 'p' || c == "P" || c[0] == 'X' || c[0] == 'x')
            if (so.tainted && w.nsol > 1) { auto& q = w.sol[3 - k]; q.maybe |= q.prep; q.prep = false; }
    } else if (c == "P") { so.prep = false; so.maybe = so.maybe || prep_after; }
    Snap after = snap(w);
    check(w, after, when + (threw ? " (refused)" : ""));
    bool prep_op = c == "P";
    str solk = num(k) + ".";
    auto d = diff(before, after, [&](const str& key) {
        str base = key.substr(0, key.find('.'));
        str item = key.substr(key.rfind('.') + 1);
        bool issol = base.size() == 1;
        if (issol) {
            if (threw) return prep_op;                                            // it may have adjusted settings.
            if (base == num(k) && (prep_op || item == "opts" || c[0] == 'D' || c[0] == 'L' || c[0] == 'S' || c[0] == 'O' || c[0] == 'Q' || c[0] == 'N' || c[0] == 'F' || c[0] == '<' || c[0] == 'f')) return true;
            if (c[0] == '<' || c[0] == 'f') return item == "vars";
            return false;
        }
        if (threw && c == "R" && item == "content" && touch.count(base)) return true;   // filled for the comparison.
        if (threw && !prep_op) return false;
        bool t = touch.count("*") || touch.count(base);
        if (!t) return false;
        // Storage and contents are changed by few calls only.
        bool had = before.count(base + ".alloc") && get(before, base + ".alloc");
        if (item == "buf" || item == "content" || item == "alloc") {
            if (c[0] == 'X') return base[0] - '0' == k;
            if (!had) return true;
            if (c[0] == 'a' || c[0] == 'r' || c[0] == '<' || c[0] == 'f' || c == "E") return true;
            return content && item == "content";
        }
        return true;
    });
    if (d.size()) throw Viol(when + (threw ? " was refused (" + thrown + ") but " : " had a side effect: ") + d);
}

static bool go(const str& line, str& err) {
    auto bar = line.find('|');
    istringstream is(line.substr(0, bar));
    str opts = bar == str::npos ? "" : line.substr(bar + 1), w;
    vector<str> ops;
    World wd;
    while (is >> w) {
        if (w.substr(0, 4) == "ops=") { str o; istringstream q(w.substr(4)); while (getline(q, o, ',')) if (o.size()) ops.push_back(o); }
        else if (w.substr(0, 2) == "n=") wd.nsol = stoi(w.substr(2));
        else return false;
    }
    wd.wf = opts.find("-Mbt") != str::npos;
    mcrt::guard_side = int(ops.size() + line.size()) & 1;
    auto res = mcrt::run_ranks(1, [&](int) {
        wd.env = fac().new_env();
        for (int k = 1; k <= wd.nsol; k++) {
            auto& s = wd.sol[k].s;
            s = k == 1 ? fac().new_solution(wd.env) : fac().new_solution(wd.env, wd.sol[1].s);
            wd.sol[k].pend = k > 1 || opts.find('-') != str::npos;      // settings were copied only.
            if (k == 1) { s->apply_command_line_options(opts); s->set_rank_domain_size("x", 4); s->set_rank_domain_size("y", 5); }
            for (auto v : { "A", "B" }) wd.v[num(k) + v] = s->get_var(v);
            auto* so = &wd.sol[k];
            s->call_before_prepare_solution([so](yk_solution&) { so->hooks[0]++; });
            s->call_after_prepare_solution([so](yk_solution&) { so->hooks[1]++; });
            s->call_before_run_solution([so](yk_solution&, idx_t a, idx_t b) { so->hooks[2]++; so->hfirst = a; so->hlast = b; });
            s->call_after_run_solution([so](yk_solution&, idx_t a, idx_t b) { so->hooks[3]++; if (a != so->hfirst || b != so->hlast) so->hooks[3] = -99; });
        }
        try {
            check(wd, snap(wd), "at first");
            for (auto& o : ops) op(wd, o);
            // Whatever was called, the solutions can be made usable.
            for (int k = 1; k <= wd.nsol; k++) {
                auto& so = wd.sol[k];
                if (!so.s) continue;
                str n = num(k);
                op(wd, n + "P", true);
                if (!so.prep) {
                    st.extra["recovered"]++;
                    for (auto& e : wd.v) e.second->release_storage();
                    for (int j = 1; j <= wd.nsol; j++) if (wd.sol[j].s) for (auto& e : wd.sol[j].s->get_vars()) e->release_storage();
                    bool tainted = so.tainted; // with another size of its own, perhaps.
                    try { op(wd, n + "P", true); }
                    catch (Viol& v) { throw Viol(str(v.what()) + " (after all storage was released)"); }
                    if (!so.prep) { if (tainted) { st.extra["unusable"]++; continue; } throw Viol("cannot be prepared"); }
                }
                op(wd, n + "R", true);
            }
        } catch (Viol& v) { err = v.what(); }
        catch (yask_exception& e) { err = str("unexpected exception: ") + e.get_message(); }
        for (int k = 1; k <= wd.nsol; k++) { if (err.empty() && wd.sol[k].s) wd.sol[k].s->end_solution(); wd.sol[k].s = nullptr; }
        wd.v.clear();
        wd.env = nullptr;
    });
    st.configs++;
    if (err.empty() && !res.ok) err = res.what.size() ? res.what : "did not finish";
    return true;
}

int main(int argc, char** argv) {
    quiet();
    if (argc > 1) open_progress(argv[1]);
    str line;
    int nfail = 0;
    while (getline(cin, line)) {
        if (line.empty()) continue;
        set_progress(line);
        str err;
        try { if (!go(line, err)) { cerr << "bad config: " << line << endl; return 3; } }
        catch (std::exception& e) { err = str("exception: ") + e.what(); }
        if (err.size()) {
            for (auto& ch : err) if (ch == '\n') ch = ' ';
            cout << "FAIL " << line << " => " << err << endl;
            if (++nfail >= 5) break;
        }
    }
    set_progress("done");
    if (argc > 2) write_hashes(argv[2]);
    print_stats(st);
    return nfail ? 1 : 0;
}
