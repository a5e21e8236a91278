// Controlled runtime: MPI ranks are fibers of one process, OpenMP threads are executed by the rank's fiber; every
// source of nondeterminism (rank order, message completion, chunk assignment) is a call to choose().
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <cstdint>
#include <stdexcept>

namespace mcrt {

    enum ChoiceKind { CH_RANK, CH_TEST, CH_SEND, CH_CHUNK, CH_TORDER };

    // Decides each nondeterministic step. Return a value in [0, n).
    // 'info' is kind-specific (e.g., index of the default alternative is always 0).
    struct Policy {
        virtual ~Policy() {}
        virtual int choose(ChoiceKind kind, int n) { return 0; }
    };

    struct Result {
        bool ok = false;          // all ranks finished w/o exception.
        bool deadlock = false;
        std::string what;         // first problem.
        long switches = 0, mpi_calls = 0, msgs = 0, pauses = 0;
    };

    // Run 'body(rank)' on each rank. Any number of ranks >= 1.
    Result run_ranks(int nranks, std::function<void(int)> body, Policy* pol = nullptr, long max_events = 20000000);

    int cur_rank();
    extern std::vector<int> node_of; // node of each rank (shared memory works within a node); empty: one node.
    extern int guard_side;        // where allocated blocks touch an inaccessible page: 0 at their end, 1 at their begin.
    void set_omp_threads(int n);  // default number of threads (OMP_NUM_THREADS).

    // A monitor found a violation (e.g., buffer misuse). Recorded as first problem.
    void report(const std::string& what);

    // Message-buffer behaviour when no CH_SEND choice is wanted:
    // 0: eager send, early delivery; 1: eager, late; 2: rendezvous (sender's buffer is read late), early; 3: rendezvous, late.
    extern int send_mode;
    extern bool choose_send;      // ask policy for each message.
    extern bool choose_test;      // ask policy for each test.
    extern bool choose_rank;      // ask policy at each scheduling point.
    extern bool test_default_none; // tests report nothing unless the policy says otherwise.
    extern bool choose_chunk;     // ask policy which thread gets each chunk.

    // Hooks around each OpenMP work item (used by footprint monitors).
    extern void (*on_par_begin)(int level, int nthreads);
    extern void (*on_par_end)(int level);
    extern void (*on_thread)(int level, int tid);          // start of thread body.
    extern void (*on_chunk)(int level, int tid, long start); // dynamic chunk given to thread.
    extern void (*on_critical)(bool enter, const void* lock);
    extern uintptr_t team_sp;                                 // frames of the members of a new team are below.
    extern void (*on_run_begin)();                            // each run_ranks().
    extern void (*extra_stats)(std::map<std::string, long>&); // adds counters of a monitor.
    // Order in which thread bodies are executed: 0 ascending, 1 descending.
    extern int thread_order;
    // Chunk assignment when !choose_chunk: 0 = all chunks to first thread executed, 1 = round robin, 2 = reverse round robin.
    extern int chunk_mode;
}
