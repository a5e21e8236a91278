// Driver for C14: runs generated loop nests on all inputs of a grid and checks the visits.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <unistd.h>
#include <vector>
#include "common_utils.hpp"
#include "idiv.hpp"
typedef std::int64_t idx_t;
#ifndef YCAT
#define YCAT2(a, b) a##b
#define YCAT(a, b) YCAT2(a, b)
#endif
#ifndef host_assert
#define host_assert(x) do { if (!(x)) { fprintf(stderr, "assertion failed: %s\n", #x); abort(); } } while (0)
#endif
struct ScanIndices {
    idx_t begin[4], end[4], stride[4], align[4], align_ofs[4], tile_size[4], start[4], stop[4], index[4];
    ScanIndices(bool = false) { memset(this, 0, sizeof *this); }
};
struct Visit { idx_t start[4], stop[4], index[4]; };
struct Rec {
    std::vector<Visit> v;
    bool over = false;
    void visit(const ScanIndices& b) {
        if (v.size() > 20000) { over = true; return; }
        Visit x;
        memcpy(x.start, b.start, sizeof x.start); memcpy(x.stop, b.stop, sizeof x.stop); memcpy(x.index, b.index, sizeof x.index);
        v.push_back(x);
    }
};
// One level: dims of one loop() and its modifiers.
enum { SERP = 1, SQUARE = 2, TILE = 4, OMP = 8, MANUAL = 16, NESTED = 32 };
struct Level { std::vector<int> dims; int mods; };
struct Desc { const char* name; std::vector<Level> lv; bool align; void (*fn)(ScanIndices&, int, int, Rec&); };
extern std::vector<Desc> descs;
