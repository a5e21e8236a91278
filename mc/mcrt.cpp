#include "mcrt.hpp"
#include <mpi.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <cxxabi.h>

namespace mcrt {

    int send_mode = 0;
    bool choose_send = false, choose_test = false, choose_rank = false, choose_chunk = false, test_default_none = false;
    void (*on_par_begin)(int, int) = nullptr;
    void (*on_par_end)(int) = nullptr;
    void (*on_thread)(int, int) = nullptr;
    void (*on_chunk)(int, int, long) = nullptr;
    void (*on_critical)(bool, const void*) = nullptr;
    void (*on_run_begin)() = nullptr;
    uintptr_t team_sp = 0;
    void (*extra_stats)(std::map<std::string, long>&) = nullptr;
    int thread_order = 0, chunk_mode = 1;

    static int default_threads = 1;
    void set_omp_threads(int n) { default_threads = n; }

    // ---- fibers ----
    struct EhGlobals { void* caught; unsigned int uncaught; };
    extern "C" void mcrt_switch(void** save_sp, void* new_sp);
    asm(R"(
.text
.globl mcrt_switch
.type mcrt_switch,@function
mcrt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mcrt_switch,.-mcrt_switch
)");

    static const size_t STACK = 2 << 20;
    static std::vector<char*> free_stacks;
    static char* get_stack() {
        if (free_stacks.size()) { auto* p = free_stacks.back(); free_stacks.pop_back(); return p; }
        char* p = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) abort();
        mprotect(p, 4096, PROT_NONE);
        return p;
    }

    // ---- guarded memory: blocks end (or begin) at an inaccessible page and are filled with a pattern ----
    static std::map<void*, std::pair<char*, size_t>> blocks;
    int guard_side = 0;
    static void* guarded_alloc(size_t align, size_t n) {
        const size_t PG = 4096;
        if (align > PG) align = PG;
        size_t use = (n + align - 1) / align * align;
        size_t pages = (use + PG - 1) / PG * PG;
        if (!pages) pages = PG;
        char* b = (char*)mmap(nullptr, pages + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (b == MAP_FAILED) return nullptr;
        mprotect(b, PG, PROT_NONE); mprotect(b + PG + pages, PG, PROT_NONE);
        memset(b + PG, 0x5A, pages);
        char* p = guard_side == 0 ? b + PG + pages - use : b + PG;
        blocks[p] = {b, pages + 2 * PG};
        return p;
    }
    static bool guarded_free(void* p) {
        auto i = blocks.find(p);
        if (i == blocks.end()) return false;
        munmap(i->second.first, i->second.second);
        blocks.erase(i);
        return true;
    }
    extern "C" void __real_free(void*);
    extern "C" int __wrap_posix_memalign(void** p, size_t align, size_t n) { *p = guarded_alloc(align, n); return *p ? 0 : 12; }
    extern "C" void* __wrap_aligned_alloc(size_t align, size_t n) { return guarded_alloc(align, n); }
    extern "C" void __wrap_free(void* p) { if (!p || !guarded_free(p)) __real_free(p); }

    // OpenMP state.
    struct Workshare { long next = 0, end = 0, incr = 1, chunk = 1; std::vector<int> owner; bool assigned = false; bool init = false; long start = 0; };
    struct Team { int n; int level; std::vector<Workshare> ws; };
    struct Task { int nthreads_var, tid, teamsize, level, active; Team* team; int ws_idx; };

    enum State { READY, BLOCKED, SPINNING, DONE };
    struct Rank {
        int id = 0;
        void* sp = nullptr;
        char* stack = nullptr;
        State state = READY;
        std::function<bool()> ready;    // when BLOCKED.
        long spin_epoch = 0;
        int spins = 0;
        EhGlobals eh { nullptr, 0 };
        std::vector<Task> tasks;
        int max_active = 1;
        int coll_seq = 0;
        std::map<int, int> coll_seqs;
    };

    static std::vector<std::unique_ptr<Rank>> ranks;
    static int current = -1;
    static void* main_sp = nullptr;
    static EhGlobals main_eh;
    static Policy def_pol;
    static Policy* policy = &def_pol;
    static std::function<void(int)> the_body;
    static Result* res = nullptr;
    static long epoch = 0;    // counts visible progress of any rank.
    static long max_ev = 0;
    static bool in_run = false;
    std::vector<int> enabled;        // ranks among which CH_RANK chooses.
    static Rank solo;         // state used outside run_ranks().

    static Rank& me() { return current >= 0 ? *ranks[current] : solo; }
    int cur_rank() { return current >= 0 ? current : 0; }
    void report(const std::string& what) {
        if (res && res->what.empty()) res->what = what;
        else if (!res) { fprintf(stderr, "mcrt: %s\n", what.c_str()); abort(); }
    }

    static void to_main() {
        auto& r = *ranks[current];
        auto* eh = (EhGlobals*)abi::__cxa_get_globals();
        r.eh = *eh; *eh = main_eh;
        mcrt_switch(&r.sp, main_sp);
    }
    static void entry() {
        int id = current;
        try { the_body(id); }
        catch (std::exception& e) { if (res->what.empty()) res->what = std::string("rank ") + std::to_string(id) + " threw: " + e.what(); }
        catch (...) { if (res->what.empty()) res->what = "rank " + std::to_string(id) + " threw an unknown exception"; }
        ranks[id]->state = DONE;
        epoch++;
        to_main();
        abort();
    }
    static void resume(int i) {
        auto& r = *ranks[i];
        current = i;
        auto* eh = (EhGlobals*)abi::__cxa_get_globals();
        main_eh = *eh; *eh = r.eh;
        mcrt_switch(&main_sp, r.sp);
        current = -1;
        res->switches++;
    }

    // A scheduling point of the current rank. If a condition is given, the rank is blocked until it holds.
    static void sched(std::function<bool()> ready = nullptr) {
        if (!in_run) return;
        auto& r = me();
        if (ready && !ready()) { r.state = BLOCKED; r.ready = ready; to_main(); return; }
        if (choose_rank) { r.state = READY; to_main(); }
    }

    static void new_task0(Rank& r) {
        r.tasks.reserve(64);
        r.tasks.clear();
        r.tasks.push_back({ default_threads, 0, 1, 0, 0, nullptr, 0 });
        r.max_active = 1;
    }

    static void mpi_reset(int n);

    Result run_ranks(int n, std::function<void(int)> body, Policy* pol, long max_events) {
        Result rs; res = &rs;
        policy = pol ? pol : &def_pol;
        the_body = body;
        max_ev = max_events;
        epoch = 1;
        ranks.clear();
        for (int i = 0; i < n; i++) {
            ranks.emplace_back(new Rank);
            auto& r = *ranks[i];
            r.id = i;
            r.stack = get_stack();
            new_task0(r);
            uintptr_t top = (uintptr_t(r.stack) + STACK) & ~uintptr_t(63);
            void** s = (void**)top;
            *--s = nullptr;            // alignment + fake return address.
            *--s = (void*)entry;
            for (int k = 0; k < 6; k++) *--s = nullptr;
            r.sp = s;
        }
        mpi_reset(n);
        in_run = true;
        if (on_run_begin) on_run_begin();
        int last = 0;
        long events = 0, seen_epoch = 0;
        const int MAX_SPINS = 200;
        std::vector<int> en;
        bool all_done = false;
        while (true) {
            if (!rs.what.empty()) break;     // a monitor or an exception ended this execution.
            en.clear();
            bool all = true;
            // Canonical order: the rank that ran last first, then ascending.
            for (int k = 0; k < n; k++) {
                int i = k == 0 ? last : (k <= last ? k - 1 : k);
                auto& r = *ranks[i];
                if (r.state == DONE) continue;
                all = false;
                if (r.state == BLOCKED && r.ready()) r.state = READY;
                if (r.state == SPINNING && r.spin_epoch != epoch) r.state = READY;
                if (r.state == READY) en.push_back(i);
            }
            if (all) { all_done = true; break; }
            // Memory shared between ranks may have been changed without a call into this runtime, so
            // spinning ranks are polled again (round-robin) a bounded number of times.
            if (en.empty()) {
                for (int k = 1; k <= n; k++) {
                    int i = (last + k) % n;
                    if (ranks[i]->state == SPINNING && ranks[i]->spins < MAX_SPINS) {
                        ranks[i]->spins++; ranks[i]->state = READY; en.push_back(i); break; }
                }
            }
            else if (epoch != seen_epoch) { seen_epoch = epoch; for (auto& r : ranks) r->spins = 0; }
            if (en.empty()) {
                rs.deadlock = true;
                std::string s = "no rank can make progress:";
                for (auto& r : ranks)
                    s += " rank " + std::to_string(r->id) + "=" +
                        (r->state == BLOCKED ? "blocked" : r->state == SPINNING ? "spinning" : r->state == DONE ? "finished" : "?");
                rs.what = s;
                break;
            }
            if (++events > max_ev) { rs.deadlock = true; rs.what = "event limit reached (livelock?)"; break; }
            int c = 0;
            if (en.size() > 1 && choose_rank) enabled = en, c = policy->choose(CH_RANK, int(en.size()));
            last = en[c];
            resume(last);
        }
        rs.ok = all_done && rs.what.empty();
        in_run = false;
        for (auto& r : ranks)
            if (r->state == DONE) free_stacks.push_back(r->stack);
            // Abandoned fibers keep their stacks (only after a violation).
        ranks.clear();
        mpi_reset(0);
        res = nullptr;
        policy = &def_pol;
        return rs;
    }

    // ---- MPI ----
    struct Msg { int src, dst, tag, comm; const char* sbuf; char* rbuf; size_t n, cap; std::vector<char> data;
        bool send_posted = false, recv_posted = false, delivered = false, send_done = false, recv_done = false; int mode = 0; size_t recvd = 0;
        std::vector<char> snapshot; };
    typedef std::shared_ptr<Msg> MsgP;
    struct Req { MsgP m; bool is_send; };
    static std::map<int, Req> reqs;
    static int next_req = 1;
    static std::list<MsgP> pending_send, pending_recv; // unmatched.
    struct Coll { int arrived = 0, left = 0; std::string kind; std::vector<std::vector<char>> bufs; std::vector<char> out; };
    static std::map<std::pair<int, int>, Coll> colls;
    struct WinInfo { int comm = 0; std::vector<void*> base; std::vector<size_t> sz; };
    static std::map<int, WinInfo> wins;
    static std::map<int, int> win_of_comm_seq;
    static int next_win = 1;
    static int nr = 1;
    // comms: MPI_COMM_WORLD and one derived comm holding the same ranks.
    static const int SHM_COMM = 0x5000;
    std::vector<int> node_of;      // node of each rank; empty means all are on one node.
    static int node(int r) { return size_t(r) < node_of.size() ? node_of[r] : 0; }
    // Ranks of a communicator (or of the group with the same handle).
    static std::vector<int> members(int comm) {
        std::vector<int> m;
        for (int r = 0; r < nr; r++)
            if (comm < SHM_COMM || comm >= SHM_COMM + 64 || node(r) == comm - SHM_COMM) m.push_back(r);
        return m;
    }
    static int index_in(int comm, int r) {
        auto m = members(comm);
        for (size_t i = 0; i < m.size(); i++) if (m[i] == r) return int(i);
        return -1;
    }

    static void mpi_reset(int n) {
        nr = n ? n : 1;
        reqs.clear(); next_req = 1; pending_send.clear(); pending_recv.clear(); colls.clear();
        for (auto& w : wins) for (auto* p : w.second.base) guarded_free(p);
        wins.clear(); next_win = 1; win_of_comm_seq.clear();
    }

    static void deliver(Msg& m) {
        if (m.delivered) return;
        const char* src = m.data.data();
        if (m.mode >= 2) {
            src = m.sbuf;
            if (memcmp(src, m.snapshot.data(), m.n))
                report("send buffer of rank " + std::to_string(m.src) + " changed before the message to rank " +
                       std::to_string(m.dst) + " was taken from it");
        }
        if (m.n > m.cap) { report("message truncated: receive buffer too small"); }
        memcpy(m.rbuf, src, std::min(m.n, m.cap));
        m.recvd = m.n;
        m.delivered = true;
        m.send_done = true;
        m.recv_done = true;
        epoch++;
    }
    static bool early(const Msg& m) { return m.mode == 0 || m.mode == 2; }
    static void match(MsgP m) {
        // Both halves are now in m.
        if (early(*m)) deliver(*m);
    }
    static bool completable(const Req& r) {
        auto& m = *r.m;
        if (r.is_send) return m.send_done || m.mode < 2 || m.recv_posted;
        return m.recv_done || m.send_posted;
    }
    static void complete(const Req& r) {
        auto& m = *r.m;
        if (r.is_send) { if (m.mode < 2) m.send_done = true; else deliver(m); }
        else deliver(m);
    }
    static void fill_status(MPI_Status* s, const Req& r) {
        if (s == MPI_STATUS_IGNORE || !s) return;
        memset(s, 0, sizeof(*s));
        s->MPI_SOURCE = r.m->src; s->MPI_TAG = r.m->tag; s->MPI_ERROR = MPI_SUCCESS;
        size_t n = r.is_send ? r.m->n : r.m->recvd;
        memcpy(&s->count_lo, &n, sizeof(int));
    }
    static void mpi_point(std::function<bool()> f = nullptr) {
        if (res) res->mpi_calls++;
        sched(f);
    }
    static int comm_seq(int comm) { return me().coll_seqs[comm]++; }

    // Run a collective: each rank contributes 'in'; 'fin' combines when all arrived.
    static std::vector<char> collective(int comm, const std::string& kind, const void* in, size_t n,
                                        std::function<std::vector<char>(std::vector<std::vector<char>>&)> fin) {
        if (!in_run) { std::vector<std::vector<char>> b(1); b[0].assign((const char*)in, (const char*)in + n); return fin(b); }
        mpi_point();
        int seq = comm_seq(comm);
        auto key = std::make_pair(comm, seq);
        auto& c = colls[key];
        int cn = int(members(comm).size()), ci = index_in(comm, current);
        if (ci < 0) { report("collective operation on a communicator this rank is not part of"); return {}; }
        if (c.arrived == 0) { c.kind = kind; c.bufs.resize(cn); }
        else if (c.kind != kind)
            report("ranks disagree on the collective operation: " + c.kind + " vs. " + kind);
        c.bufs[ci].assign((const char*)in, (const char*)in + n);
        c.arrived++;
        epoch++;
        if (c.arrived == cn) c.out = fin(c.bufs);
        sched([key, cn] { return colls[key].arrived == cn; });
        std::vector<char> out = colls[key].out;
        if (++colls[key].left == cn) colls.erase(key);
        return out;
    }
}

using namespace mcrt;
extern "C" {
    void yv_pause(void) {
        if (!in_run) { fprintf(stderr, "mcrt: spinning outside of a run\n"); abort(); }
        if (res) res->pauses++;
        auto& r = me();
        r.state = SPINNING; r.spin_epoch = epoch;
        to_main();
    }
    // Called (via guarded hook) after a change to memory shared between ranks.
    void yv_shared_point(int wrote) {
        if (!in_run) return;
        if (wrote) epoch++;
        sched();
    }

    int MPI_Initialized(int* f) { *f = 1; return 0; }
    int MPI_Init_thread(int*, char***, int, int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
    int MPI_Init(int*, char***) { return 0; }
    int MPI_Finalize(void) { return 0; }
    int MPI_Abort(MPI_Comm, int code) { report("MPI_Abort called"); if (in_run) { me().state = BLOCKED; me().ready = [] { return false; }; to_main(); } abort(); }
    int MPI_Comm_rank(MPI_Comm c, int* r) { *r = in_run ? index_in((int)c, cur_rank()) : 0; return 0; }
    int MPI_Comm_size(MPI_Comm c, int* n) { *n = in_run ? int(members((int)c).size()) : 1; return 0; }
    int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { *g = (MPI_Group)c; return 0; }
    int MPI_Comm_split_type(MPI_Comm c, int, int, MPI_Info, MPI_Comm* out) {
        collective((int)c, "split", nullptr, 0, [](std::vector<std::vector<char>>&) { return std::vector<char>(); });
        *out = (MPI_Comm)(SHM_COMM + (in_run ? node(cur_rank()) : 0)); return 0; }
    int MPI_Comm_free(MPI_Comm*) { return 0; }
    int MPI_Group_free(MPI_Group*) { return 0; }
    int MPI_Group_translate_ranks(MPI_Group g, int n, const int a[], MPI_Group h, int b[]) {
        auto m = members((int)g);
        for (int i = 0; i < n; i++) { int k = index_in((int)h, m.at(a[i])); b[i] = k < 0 ? MPI_UNDEFINED : k; }
        return 0; }
    int MPI_Info_create(MPI_Info* i) { *i = (MPI_Info)1; return 0; }
    int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
    int MPI_Info_free(MPI_Info*) { return 0; }
    int MPI_Barrier(MPI_Comm c) {
        collective((int)c, "barrier", nullptr, 0, [](std::vector<std::vector<char>>&) { return std::vector<char>(); });
        return 0; }
    static size_t tsize(MPI_Datatype t) {
        if (t == MPI_INTEGER8 || t == MPI_DOUBLE || t == MPI_LONG || t == MPI_INT64_T) return 8;
        if (t == MPI_INT || t == MPI_FLOAT) return 4;
        if (t == MPI_BYTE || t == MPI_CHAR) return 1;
        report("unsupported MPI datatype"); return 1; }
    int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
        size_t sz = n * tsize(t);
        auto o = collective((int)c, "bcast" + std::to_string(root) + "/" + std::to_string(sz), b, sz,
                            [=](std::vector<std::vector<char>>& v) { return v[v.size() > (size_t)root ? root : 0]; });
        memcpy(b, o.data(), std::min(sz, o.size()));
        return 0; }
    int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
        if (tsize(t) != 8 || t == MPI_DOUBLE) report("unsupported MPI_Allreduce type");
        size_t sz = n * 8;
        std::vector<char> in((const char*)(s == MPI_IN_PLACE ? r : s), (const char*)(s == MPI_IN_PLACE ? r : s) + sz);
        auto o = collective((int)c, "allreduce" + std::to_string((long)op) + "/" + std::to_string(sz), in.data(), sz, [=](std::vector<std::vector<char>>& v) {
            std::vector<char> out = v[0];
            for (int i = 0; i < n; i++) {
                long long a; memcpy(&a, &v[0][i * 8], 8);
                for (size_t k = 1; k < v.size(); k++) {
                    long long x; memcpy(&x, &v[k][i * 8], 8);
                    if (op == MPI_SUM) a += x; else if (op == MPI_MIN) a = std::min(a, x); else if (op == MPI_MAX) a = std::max(a, x);
                    else report("unsupported MPI_Op");
                }
                memcpy(&out[i * 8], &a, 8);
            }
            return out; });
        memcpy(r, o.data(), sz);
        return 0; }

    static MsgP find_match(std::list<MsgP>& l, int src, int dst, int tag, int comm) {
        for (auto i = l.begin(); i != l.end(); ++i)
            if ((*i)->src == src && (*i)->dst == dst && (*i)->tag == tag && (*i)->comm == comm) { auto m = *i; l.erase(i); return m; }
        return nullptr;
    }
    int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* rq) {
        mpi_point();
        size_t sz = n * tsize(t);
        auto m = find_match(pending_send, src, cur_rank(), tag, (int)c);
        bool matched = bool(m);
        if (!m) { m = std::make_shared<Msg>(); m->src = src; m->dst = cur_rank(); m->tag = tag; m->comm = (int)c; pending_recv.push_back(m); }
        m->rbuf = (char*)b; m->cap = sz; m->recv_posted = true;
        // The content of a posted receive buffer is undefined until completion.
        memset(b, 0xff, sz);
        int id = next_req++;
        reqs[id] = { m, false };
        *rq = (MPI_Request)id;
        epoch++;
        if (matched) match(m);
        return 0; }
    int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* rq) {
        mpi_point();
        size_t sz = n * tsize(t);
        auto m = find_match(pending_recv, cur_rank(), dst, tag, (int)c);
        bool matched = bool(m);
        if (!m) { m = std::make_shared<Msg>(); m->src = cur_rank(); m->dst = dst; m->tag = tag; m->comm = (int)c; pending_send.push_back(m); }
        m->sbuf = (const char*)b; m->n = sz; m->send_posted = true;
        m->mode = choose_send ? policy->choose(CH_SEND, 4) : send_mode;
        m->data.assign((const char*)b, (const char*)b + sz);
        if (m->mode >= 2) m->snapshot = m->data;
        if (res) res->msgs++;
        int id = next_req++;
        reqs[id] = { m, true };
        *rq = (MPI_Request)id;
        epoch++;
        if (matched) match(m);
        return 0; }
    static bool is_null(MPI_Request r) { return r == MPI_REQUEST_NULL; }
    static Req* get(MPI_Request r, const char* fn) {
        auto i = reqs.find((int)r);
        if (i == reqs.end()) { report(std::string(fn) + " on an invalid or already completed request"); return nullptr; }
        return &i->second; }
    int MPI_Wait(MPI_Request* rq, MPI_Status* st) {
        if (is_null(*rq)) { mpi_point(); return 0; }
        int id = (int)*rq;
        if (!get(*rq, "MPI_Wait")) { mpi_point([] { return false; }); return 1; }
        mpi_point([id] { auto i = reqs.find(id); return i != reqs.end() && completable(i->second); });
        Req r = reqs[id];
        complete(r);
        fill_status(st, r);
        reqs.erase(id);
        *rq = MPI_REQUEST_NULL;
        epoch++;
        return 0; }
    int MPI_Waitall(int n, MPI_Request a[], MPI_Status* s) { for (int i = 0; i < n; i++) MPI_Wait(&a[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]); return 0; }
    int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st) {
        mpi_point();
        if (is_null(*rq)) { *flag = 1; return 0; }
        auto* r = get(*rq, "MPI_Test");
        *flag = 0;
        if (!r) return 1;
        if (completable(*r)) {
            bool yes = !test_default_none;
            if (choose_test) { int c = policy->choose(CH_TEST, 2); if (c) yes = !yes; }
            if (yes) { Req q = *r; complete(q); fill_status(st, q); reqs.erase((int)*rq); *rq = MPI_REQUEST_NULL; *flag = 1; epoch++; }
        }
        return 0; }
    int MPI_Testsome(int n, MPI_Request a[], int* outcount, int idx[], MPI_Status st[]) {
        mpi_point();
        int active = 0, cnt = 0;
        std::vector<int> can;
        for (int i = 0; i < n; i++) if (!is_null(a[i])) { active++; auto* r = get(a[i], "MPI_Testsome"); if (r && completable(*r)) can.push_back(i); }
        if (!active) { *outcount = MPI_UNDEFINED; return 0; }
        std::vector<int> take;
        if (can.size()) {
            // Alternatives: all, none, each one alone.
            int alts = can.size() > 1 ? 2 + int(can.size()) : 2;
            int c = choose_test ? policy->choose(CH_TEST, alts) : 0;
            if (test_default_none) c = c == 0 ? 1 : c == 1 ? 0 : c;
            if (c == 0) take = can; else if (c > 1) take.push_back(can[c - 2]);
        }
        for (int i : take) {
            auto* r = get(a[i], "MPI_Testsome"); if (!r) continue;
            Req q = *r; complete(q);
            if (st != MPI_STATUSES_IGNORE) fill_status(&st[cnt], q);
            idx[cnt++] = i;
            reqs.erase((int)a[i]); a[i] = MPI_REQUEST_NULL; epoch++;
        }
        *outcount = cnt;
        return 0; }
    int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { int b; memcpy(&b, &s->count_lo, sizeof(int)); *n = b / int(tsize(t)); return 0; }

    // Shared-memory windows.
    int MPI_Win_allocate_shared(MPI_Aint sz, int, MPI_Info, MPI_Comm c, void* base, MPI_Win* w) {
        void* p = nullptr;
        if (!(p = guarded_alloc(64, sz ? sz : 1))) abort();
        memset(p, 0, sz);
        struct PS { void* p; size_t s; } ps { p, size_t(sz) };
        auto o = collective((int)c, "win_alloc", &ps, sizeof(ps), [&](std::vector<std::vector<char>>& v) {
            int id = next_win++;
            auto& wi = wins[id]; wi.comm = (int)c;
            for (auto& x : v) { PS q; memcpy(&q, x.data(), sizeof(q)); wi.base.push_back(q.p); wi.sz.push_back(q.s); }
            std::vector<char> out(sizeof(int)); memcpy(out.data(), &id, sizeof(int)); return out; });
        int id; memcpy(&id, o.data(), sizeof(int));
        *(void**)base = p;
        *w = (MPI_Win)id;
        return 0; }
    int MPI_Win_shared_query(MPI_Win w, int r, MPI_Aint* sz, int* unit, void* base) {
        auto& wi = wins[(int)w];
        if (r == MPI_PROC_NULL) { // lowest rank with memory.
            for (r = 0; size_t(r) + 1 < wi.sz.size() && !wi.sz[r]; r++) ; }
        if (r < 0 || size_t(r) >= wi.sz.size()) { report("MPI_Win_shared_query: bad rank"); return 1; }
        // Sizes are known to all after the collective allocation.
        *sz = wi.sz[r]; *unit = 1; *(void**)base = wi.base[r];
        return 0; }
    int MPI_Win_lock_all(int, MPI_Win) { return 0; }
    int MPI_Win_unlock_all(MPI_Win) { return 0; }
    // Collective over the ranks of the window; its memory is gone afterwards.
    int MPI_Win_free(MPI_Win* w) {
        auto i = wins.find((int)*w);
        if (i == wins.end()) { if (in_run) report("MPI_Win_free: bad window"); return 1; }
        if (in_run && !std::uncaught_exceptions()) {
            int id = i->first;
            collective(i->second.comm, "win_free", &id, sizeof(id), [&](std::vector<std::vector<char>>& v) {
                for (auto& x : v) if (x != v[0]) report("MPI_Win_free: ranks free different windows");
                for (auto* p : wins[id].base) guarded_free(p);
                wins.erase(id);
                return std::vector<char>(); });
        }
        *w = MPI_WIN_NULL; return 0; }
    double MPI_Wtime(void) { return 0; }

    // ---- OpenMP ----
    static Rank& omp_me() { auto& r = me(); if (r.tasks.empty()) new_task0(r); return r; }
    static Task& task() { return omp_me().tasks.back(); }
    int omp_get_thread_num(void) { return task().tid; }
    int omp_get_num_threads(void) { return task().teamsize; }
    int omp_get_max_threads(void) { return task().nthreads_var; }
    int omp_get_num_procs(void) { return default_threads; }
    int omp_get_level(void) { return task().level; }
    int omp_get_active_level(void) { return task().active; }
    int omp_in_parallel(void) { return task().active > 0; }
    int omp_get_max_active_levels(void) { return omp_me().max_active; }
    void omp_set_max_active_levels(int n) { omp_me().max_active = n; }
    void omp_set_num_threads(int n) { task().nthreads_var = n > 0 ? n : 1; }
    void omp_set_nested(int) { }
    void omp_set_dynamic(int) { }
    double omp_get_wtime(void) { return 0; }
    void omp_init_lock(int* l) { *l = 0; }
    void omp_destroy_lock(int* l) { }
    void omp_set_lock(int* l) { if (on_critical) on_critical(true, l); }
    void omp_unset_lock(int* l) { if (on_critical) on_critical(false, l); }
    int omp_test_lock(int* l) { if (on_critical) on_critical(true, l); return 1; }

    static void run_team(void (*fn)(void*), void* data, unsigned nt, std::function<void(Team&)> setup) {
        auto& r = omp_me();
        Task parent = r.tasks.back();
        int n = nt ? int(nt) : parent.nthreads_var;
        if (parent.active >= r.max_active) n = 1;
        Team team; team.n = n; team.level = parent.level + 1;
        if (setup) setup(team);
        team_sp = (uintptr_t)__builtin_frame_address(0);
        if (on_par_begin) on_par_begin(team.level, n);
        for (int k = 0; k < n; k++) {
            int tid = thread_order == 0 ? k : n - 1 - k;
            r.tasks.push_back({ parent.nthreads_var, tid, n, parent.level + 1, parent.active + (n > 1 ? 1 : 0), &team, 0 });
            if (on_thread) on_thread(team.level, tid);
            fn(data);
            r.tasks.pop_back();
        }
        if (on_par_end) on_par_end(team.level);
    }
    void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned flags) { run_team(fn, data, nt, nullptr); }
    static char unnamed_lock, atomic_lock;
    void GOMP_critical_start(void) { if (on_critical) on_critical(true, &unnamed_lock); }
    void GOMP_critical_end(void) { if (on_critical) on_critical(false, &unnamed_lock); }
    void GOMP_critical_name_start(void** n) { if (on_critical) on_critical(true, n); }
    void GOMP_critical_name_end(void** n) { if (on_critical) on_critical(false, n); }
    void GOMP_atomic_start(void) { if (on_critical) on_critical(true, &atomic_lock); }
    void GOMP_atomic_end(void) { if (on_critical) on_critical(false, &atomic_lock); }
    bool GOMP_single_start(void) {
        auto& t = task();
        return t.tid == (thread_order == 0 ? 0 : t.teamsize - 1); }
    void GOMP_barrier(void) { if (task().teamsize > 1) report("barrier inside a team is not supported by this runtime"); }

    static Workshare* ws_begin(long start, long end, long incr, long chunk) {
        auto& t = task();
        static Workshare solo_ws;
        if (!t.team) { solo_ws = Workshare(); solo_ws.start = solo_ws.next = start; solo_ws.end = end; solo_ws.incr = incr; solo_ws.chunk = chunk > 0 ? chunk : 1; solo_ws.init = true; return &solo_ws; }
        if (size_t(t.ws_idx) >= t.team->ws.size()) t.team->ws.resize(t.ws_idx + 1);
        auto& w = t.team->ws[t.ws_idx];
        if (!w.init) {
            w.start = w.next = start; w.end = end; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1; w.init = true;
            long iters = incr > 0 ? (end - start + incr - 1) / incr : (start - end - incr - 1) / -incr;
            if (iters < 0) iters = 0;
            long nch = (iters + w.chunk - 1) / w.chunk;
            for (long i = 0; i < nch; i++) {
                int o = 0, n = t.teamsize;
                if (choose_chunk && n > 1) o = policy->choose(CH_CHUNK, n);
                else if (chunk_mode == 1) o = int(i % n);
                else if (chunk_mode == 2) o = n - 1 - int(i % n);
                w.owner.push_back(o);
            }
        }
        return &w; }
    static bool ws_next(Workshare& w, long* a, long* b) {
        auto& t = task();
        // Give this thread its next chunk.
        while (true) {
            size_t i;
            for (i = 0; i < w.owner.size(); i++) if (w.owner[i] == t.tid) break;
            if (i == w.owner.size()) return false;
            w.owner[i] = -1;
            *a = w.start + long(i) * w.chunk * w.incr;
            *b = *a + w.chunk * w.incr;
            if (w.incr > 0 ? *b > w.end : *b < w.end) *b = w.end;
            if (on_chunk) on_chunk(t.level, t.tid, *a);
            return true;
        } }
    bool mcrt_loop_start(long s, long e, long inc, long ch, long* a, long* b) {
        auto* w = ws_begin(s, e, inc, ch);
        if (!task().team) { if (inc > 0 ? s >= e : s <= e) return false; w->next = e; *a = s; *b = e; return true; }
        return ws_next(*w, a, b); }
    bool mcrt_loop_next(long* a, long* b) {
        auto& t = task();
        if (!t.team) return false;
        return ws_next(t.team->ws[t.ws_idx], a, b); }
    void mcrt_loop_end(void) { auto& t = task(); t.ws_idx++; }
#define LOOPS(k) \
    bool GOMP_loop_##k##_start(long s, long e, long i, long c, long* a, long* b) { return mcrt_loop_start(s, e, i, c, a, b); } \
    bool GOMP_loop_##k##_next(long* a, long* b) { return mcrt_loop_next(a, b); }
    LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
    bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return mcrt_loop_start(s, e, i, 1, a, b); }
    bool GOMP_loop_runtime_next(long* a, long* b) { return mcrt_loop_next(a, b); }
    bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return mcrt_loop_start(s, e, i, 1, a, b); }
    bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return mcrt_loop_next(a, b); }
    void GOMP_loop_end(void) { mcrt_loop_end(); }
    void GOMP_loop_end_nowait(void) { mcrt_loop_end(); }
#define PLOOP(k) \
    void GOMP_parallel_loop_##k(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, long c, unsigned) { \
        run_team(fn, data, nt, [=](Team& t) { \
            t.ws.resize(1); auto& w = t.ws[0]; w.start = w.next = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; w.init = true; \
            long it = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / -i; if (it < 0) it = 0; \
            for (long q = 0; q < (it + w.chunk - 1) / w.chunk; q++) { int o = 0; \
                if (choose_chunk && t.n > 1) o = policy->choose(CH_CHUNK, t.n); \
                else if (chunk_mode == 1) o = int(q % t.n); else if (chunk_mode == 2) o = t.n - 1 - int(q % t.n); \
                w.owner.push_back(o); } }); }
    PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
}
