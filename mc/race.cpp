// Happens-before monitor for the OpenMP teams executed by mcrt. Linked into drivers whose kernel objects are compiled
// with -fsanitize=thread; the __tsan_* entry points below replace the sanitizer's run-time library.
//
// The teams are fork-join and executed depth first, so two accesses are ordered unless their paths
// [(team, thread), ...] differ first in the thread number of one team. Two accesses to one byte, at least one of them a write,
// that are not ordered and hold no common lock are reported: in every other interleaving of the same assignment they race.
// An execution without reports is equivalent to all interleavings of its thread bodies.
#include "mcrt.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <malloc.h>
#include <unistd.h>
#include <atomic>

extern "C" char __libc_single_threaded;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

namespace {
    const int MAXD = 4, MAXR = 16;
    struct Strand { int depth; uint32_t team[MAXD]; int16_t tid[MAXD]; uint32_t locks; };
    struct Per { int depth = 0; uint32_t team[MAXD]; int16_t tid[MAXD]; int nthr[MAXD]; uintptr_t sp[MAXD]; uint32_t locks = 0; uint32_t strand = 0; int guard = 0; bool live = false; };
    Per per[MAXR];
    const size_t NSTR = 1 << 21;
    Strand* strands; uint32_t nstr = 1;
    uint32_t nteam = 0;
    struct Cell { uint64_t key; uint32_t epoch; uint32_t w[8], r[8]; uint32_t wp[8], rp[8]; };
    const size_t NCELL = 1 << 20;
    Cell* cells; size_t ncell = 0;
    uint32_t epoch = 1;
    int live_ranks = 0;
    bool in_rt = false;
    long n_acc = 0, n_teams = 0, n_strands = 0;

    void init() {
        if (strands) return;
        strands = (Strand*)__libc_calloc(NSTR, sizeof(Strand));
        cells = (Cell*)__libc_calloc(NCELL, sizeof(Cell));
    }
    inline int rank() { int r = mcrt::cur_rank(); return r < 0 ? 0 : r % MAXR; }
    inline uint32_t strand(Per& p) {
        if (!p.strand) {
            if (nstr >= NSTR) { nstr = 1; }
            auto& s = strands[nstr];
            s.depth = p.depth; s.locks = p.locks;
            memcpy(s.team, p.team, sizeof(s.team)); memcpy(s.tid, p.tid, sizeof(s.tid));
            p.strand = nstr++; n_strands++;
        }
        return p.strand;
    }
    // First level at which the two are concurrent, or -1.
    inline int par_level(const Strand& a, const Strand& b) {
        int d = a.depth < b.depth ? a.depth : b.depth;
        for (int i = 0; i < d; i++) {
            if (a.team[i] != b.team[i]) return -1;
            if (a.tid[i] != b.tid[i]) return i;
        }
        return -1;
    }
    char* where(uint32_t off, char* buf) {
        // Function and line, if addr2line can tell.
        snprintf(buf, 400, "0x%x", off);
        char cmd[600], exe[400];
        ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
        if (n <= 0) return buf;
        exe[n] = 0;
        snprintf(cmd, sizeof(cmd), "addr2line -sCfie %s 0x%x 2>/dev/null", exe, off);
        if (FILE* f = popen(cmd, "r")) {
            char fn[300] = "", ln[80] = "";
            if (fgets(fn, sizeof(fn), f)) fn[strcspn(fn, "\n")] = 0;

            if (fgets(ln, sizeof(ln), f)) ln[strcspn(ln, "\n")] = 0;
            pclose(f);
            if (fn[0]) { fn[160] = 0; snprintf(buf, 400, "%s at %s", fn, ln); }
        }
        return buf;
    }
    int reported = 0; uintptr_t dbg_a;
    void race(const Strand& a, const Strand& b, bool aw, bool bw, uint32_t ap, uint32_t bp, int lev) {
        if (reported++) return;
        char x[400], y[400], m[1200];
        snprintf(m, sizeof(m), "data race at team level %d: %s by thread %d in %s; %s by thread %d in %s", lev + 1,
                 aw ? "write" : "read", a.tid[lev], where(ap, x), bw ? "write" : "read", b.tid[lev], where(bp, y));
        mcrt::report(m);
        if (getenv("RACE_DEBUG")) { auto& p = per[rank()]; fprintf(stderr, "addr %lx sp %lx depth %d sp0 %lx sp1 %lx pcs %x %x\n", dbg_a, (long)__builtin_frame_address(0), p.depth, p.sp[0], p.sp[1], ap, bp); }
    }
    Cell* find(uint64_t key) {
        size_t h = (key * 0x9E3779B97F4A7C15ull) >> 44;
        for (size_t k = 0; k < NCELL; k++) {
            auto& c = cells[(h + k) & (NCELL - 1)];
            if (c.epoch != epoch) {
                if (++ncell > NCELL * 3 / 4) { mcrt::report("race monitor: table full"); return nullptr; }
                memset(&c, 0, sizeof(c)); c.key = key; c.epoch = epoch; return &c; }
            if (c.key == key) return &c;
        }
        return nullptr;
    }
    void record(uintptr_t a, size_t n, bool wr, uint32_t pp, uint32_t id, int own) {
        auto& me = strands[id];
        dbg_a = a;
        for (size_t i = 0; i < n; ) {
            uint64_t key = (a + i) >> 3;
            auto* c = find(key);
            if (!c) break;
            for (int b = int((a + i) & 7); b < 8 && i < n; b++, i++) {
                if (c->w[b] == id) { if (!wr) continue; }
                if (c->w[b]) {
                    auto& o = strands[c->w[b]];
                    int l = par_level(o, me);
                    if (l >= 0 && l < own) { c->w[b] = c->r[b] = 0; }
                    else if (l >= own && !(o.locks & me.locks)) race(o, me, true, wr, c->wp[b], pp, l);
                }
                if (c->r[b]) {
                    auto& o = strands[c->r[b]];
                    int l = par_level(o, me);
                    if (l >= 0 && l < own) c->r[b] = 0;
                    else if (wr) { if (l >= own && !(o.locks & me.locks)) race(o, me, false, true, c->rp[b], pp, l); }
                    if (!wr && l < 0) { c->r[b] = id; c->rp[b] = pp; }
                }
                if (wr) { c->w[b] = id; c->wp[b] = pp; }
                else if (!c->r[b]) { c->r[b] = id; c->rp[b] = pp; }
            }
        }
    }
    // A store that does not change memory (the compiler copies shared scalars back after nested teams) counts as a read.
    struct Pending { bool on = false; uintptr_t a; size_t n; uint32_t pp, id; int own; unsigned char old[256]; } pend;
    void settle() {
        if (!pend.on) return;
        pend.on = false;
        bool same = pend.n <= sizeof(pend.old);
        for (size_t i = 0; same && i < pend.n; i++) same = ((volatile unsigned char*)pend.a)[i] == pend.old[i];
        record(pend.a, pend.n, !same, pend.pp, pend.id, pend.own);
    }
    void access(uintptr_t a, size_t n, bool wr, uintptr_t pc, uint32_t xlock = 0) {
        if (!live_ranks || in_rt) return;
        auto& p = per[rank()];
        if (!p.live) return;
        in_rt = true;
        settle();
        in_rt = false;
        if (p.guard) return;
        // Team members' own stack frames.
        uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
        int own = 0;
        if (a >= sp && a < p.sp[0]) {
            for (own = 1; own < p.depth && a < p.sp[own]; own++) ;
            if (own == p.depth) return;        // private to this thread.
        }
        in_rt = true;
        n_acc++;
        uint32_t pp = uint32_t(pc);   // linked with -no-pie.
        uint32_t id;
        if (xlock) { auto o = p.locks; auto os = p.strand; p.locks |= xlock; p.strand = 0; id = strand(p); p.locks = o; p.strand = os; }
        else id = strand(p);
        if (wr) {
            pend.on = true; pend.a = a; pend.n = n; pend.pp = pp; pend.id = id; pend.own = own;
            for (size_t i = 0; i < n && i < sizeof(pend.old); i++) pend.old[i] = ((volatile unsigned char*)a)[i];
        }
        else record(a, n, false, pp, id, own);
        in_rt = false;
    }
    void forget(void* q, size_t n) {
        if (!live_ranks || in_rt || !q) return;
        settle();
        for (uint64_t k = (uintptr_t)q >> 3; k <= ((uintptr_t)q + n - 1) >> 3 && n; k++) {
            size_t h = (k * 0x9E3779B97F4A7C15ull) >> 44;
            for (size_t j = 0; j < NCELL; j++) {
                auto& c = cells[(h + j) & (NCELL - 1)];
                if (c.epoch != epoch) break;
                if (c.key == k) { memset(c.w, 0, sizeof(c.w)); memset(c.r, 0, sizeof(c.r)); break; }
            }
        }
    }
    void par_begin(int level, int n) {
        init();
        settle();
        auto& p = per[rank()];
        if (p.depth >= MAXD) { mcrt::report("race monitor: too many levels"); return; }
        int d = p.depth++;
        p.team[d] = ++nteam; p.tid[d] = 0; p.nthr[d] = n; p.sp[d] = mcrt::team_sp; p.strand = 0;
        if (n > 1) n_teams++;
        if (!p.live) { p.live = true; live_ranks++; }
    }
    void par_end(int level) {
        settle();
        auto& p = per[rank()];
        p.depth--; p.strand = 0;
        if (!p.depth) {
            p.live = false;
            if (!--live_ranks) { epoch++; ncell = 0; nstr = 1; for (auto& q : per) q.strand = 0; }
        }
    }
    void thread(int level, int tid) {
        settle();
        auto& p = per[rank()];
        if (p.depth) p.tid[p.depth - 1] = tid;
        p.strand = 0;
    }
    const void* lock_ids[28]; int nlocks = 0;
    void critical(bool enter, const void* id) {
        settle();
        auto& p = per[rank()];
        int k = 0;
        while (k < nlocks && lock_ids[k] != id) k++;
        if (k == nlocks && nlocks < 28) lock_ids[nlocks++] = id;
        uint32_t bit = 2u << k;
        if (enter) p.locks |= bit; else p.locks &= ~bit;
        p.strand = 0;
    }
    struct Hook { Hook() {
        __libc_single_threaded = 0;
        mcrt::on_par_begin = par_begin; mcrt::on_par_end = par_end; mcrt::on_thread = thread; mcrt::on_critical = critical;
        mcrt::on_run_begin = [] { live_ranks = 0; pend.on = false; for (auto& q : per) q = Per(); reported = 0; epoch++; ncell = 0; nstr = 1; };
        mcrt::extra_stats = [](std::map<std::string, long>& m) { m["teams"] += n_teams; m["accesses"] += n_acc; m["strands"] += n_strands; n_teams = n_acc = n_strands = 0; };
    } } hook;
}
#define PC ((uintptr_t)__builtin_return_address(0) - 1)
extern "C" {
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, PC); }
    void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
#define ACC(n) \
    void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC, 1); } \
    void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC, 1); }
    ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
    // Whole vectors are loaded to use some of their lanes; which ones is not visible here. Scalar builds see single elements.
    void __tsan_read_range(void* p, unsigned long n) { if (n == 32 || n == 64) return; access((uintptr_t)p, n, false, PC); }
    void __tsan_write_range(void* p, unsigned long n) { access((uintptr_t)p, n, true, PC); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { access((uintptr_t)p, sizeof(T), false, PC, 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((uintptr_t)p, sizeof(T), true, PC, 1); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
    AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
    void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
    void __tsan_atomic_signal_fence(int) { }

    // Block accesses by library calls of the instrumented objects.
    void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
    void* __wrap_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return __real_memcpy(d, s, n); }
    void* __wrap_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return __real_memmove(d, s, n); }
    void* __wrap_memset(void* d, int v, size_t n) { access((uintptr_t)d, n, true, PC); return __real_memset(d, v, n); }
    // Initialisation of local statics is synchronised by its guard.
    int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
    int __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (r) per[rank()].guard++; return r; }
    void __wrap___cxa_guard_release(uint64_t* g) { per[rank()].guard--; __real___cxa_guard_release(g); }
    void __wrap___cxa_guard_abort(uint64_t* g) { per[rank()].guard--; __real___cxa_guard_abort(g); }

    // The allocator synchronises reuse of memory.
    void* malloc(size_t n) { void* p = __libc_malloc(n); forget(p, n); return p; }
    void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); forget(p, a * b); return p; }
    void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p != q) forget(p, n); return p; }
    void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); forget(p, n); return p; }
    void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
    int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
    void free(void* p) { if (live_ranks && !in_rt) settle(); __libc_free(p); }
}
