// Coordinates on a grid: signed integers of a few bits times a power of two. Arithmetic on them is
// exact, so the executor turns it into integer arithmetic and the solver decides it exactly.
#pragma once
#include "gen.h"
static inline int64_t any_int (const char *name, int bits)
{
    uint64_t v = vs_sym (name, bits);
    return (int64_t) (v << (64 - bits)) >> (64 - bits);
}
struct grid_point { int64_t v[3]; };
static inline grid_point any_grid (int bx, int by, int bz)
{
    grid_point g;
    g.v[0] = bx ? any_int ("gx", bx) : 0; g.v[1] = by ? any_int ("gy", by) : 0; g.v[2] = bz ? any_int ("gz", bz) : 0;
    return g;
}
static inline void place (point_record &p, const grid_point &g, double scale)
{
    p.x = (double) g.v[0] * scale; p.y = (double) g.v[1] * scale; p.z = (double) g.v[2] * scale;
}
// branch-free helpers on integers
static inline int64_t imin (int64_t a, int64_t b) { return a < b ? a : b; }
static inline int64_t imax (int64_t a, int64_t b) { return a > b ? a : b; }
