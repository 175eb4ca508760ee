// C27: the parallel loops, with every iteration on a thread of its own. The executor compares what the
// threads read and write, and runs them in both orders.
#include "apps.h"
#include "grid.h"
#include "spoc/affine.h"
#include <random>
static void team (size_t n) { vs_threads ((int) n); vs_race (1); }
static void alone () { vs_race (0); vs_threads (1); }
static size_t team_size (size_t n) { return vs_choose ("shared", 0, 1) ? n : 2; }
extern "C" void point_loops ()
{
    namespace A = spoc::affine;
    const size_t n = 3;
    const point_records p = any_points (n, 1);
    bool ok = true;
    for (auto &q : p) ok &= (q.x == q.x) & (q.y == q.y) & (q.z == q.z);
    vs_assume (ok);
    const int op = (int) vs_choose ("op", 0, 10);
    point_records a = p, b = p;
    point_record d (1); d.x = 1.5; d.y = -2; d.z = 0.25;
    auto run = [&] (point_records &v)
    {
        switch (op)
        {
            case 0: A::add_x (v, 1.5); break;
            case 1: A::add_y (v, 1.5); break;
            case 2: A::add_z (v, 1.5); break;
            case 3: A::add (v, d); break;
            case 4: A::rotate_x (v, 90); break;
            case 5: A::rotate_y (v, 90); break;
            case 6: A::rotate_z (v, 90); break;
            case 7: A::scale_x (v, 0.5); break;
            case 8: A::scale_y (v, 0.5); break;
            case 9: A::scale_z (v, 0.5); break;
            default: spoc::utils::quantize (v, 0.5); break;
        }
    };
    alone (); run (a);
    team (team_size (n)); run (b);
    alone ();
    vs_check (diff (a, b) == 0, "the result does not depend on the threads");
    vs_reach ("end");
}
extern "C" void voxel_loops ()
{
    const size_t n = 3;
    point_records p = any_points (n, 0);
    for (size_t k = 0; k < n; ++k) place (p[k], k ? any_grid (3, 3, 3) : grid_point {{-4, -4, -4}}, 0.5);
    std::vector<size_t> idx {2, 0, 1};
    const int how = (int) vs_choose ("how", 0, 1);
    auto run = [&] { return how ? spoc::voxel::get_voxel_indexes (p, idx, 1.5) : spoc::voxel::get_voxel_indexes (p, 1.5); };
    alone ();
    const auto a = run ();
    team (team_size (n));
    const auto b = run ();
    alone ();
    vs_check (a.size () == n && b.size () == n, "one voxel per point");
    uint64_t d = 0;
    for (size_t k = 0; k < n; ++k) d |= vs_ne (a[k].i, b[k].i) | vs_ne (a[k].j, b[k].j) | vs_ne (a[k].k, b[k].k);
    vs_check (d == 0, "the result does not depend on the threads");
    vs_reach ("end");
}
extern "C" void search_loops ()
{
    const size_t n = 3;
    point_records p = any_points (n, 0);
    for (size_t k = 0; k < n; ++k) { place (p[k], k ? any_grid (2, 1, 0) : grid_point {{-2, -1, 0}}, 0.5); p[k].z = 7; }
    const int how = (int) vs_choose ("how", 0, 3);
    const size_t limit = pick ("limit", {1, 32});
    const std::vector<size_t> who {2, 0}, among {0, 1, 2};
    typedef std::vector<std::vector<size_t>> lists;
    std::vector<int> called;
    auto run = [&] () -> lists
    {
        lists got (n); called.assign (n, 0);
        // a user's operation that follows the advice: each call has its own slot
        auto op = [&] (size_t i, const std::vector<size_t> &v) { got[i] = v; ++called[i]; };
        if (how == 0) spoc::radius_search::radius_search_all (p, 0.5, op, limit);
        else if (how == 1) spoc::radius_search::radius_search_all_neighbors (p, who, 0.5, op, limit);
        else if (how == 2) spoc::radius_search::radius_search_indexes (p, who, 0.5, op, limit);
        else got = spoc::radius_search::radius_search_get_neighbors (p, 0.5);
        return got;
    };
    alone ();
    const lists a = run ();
    team (team_size (n));
    const lists b = run ();
    alone ();
    for (size_t k = 0; k < n; ++k)
    {
        if (how < 3) vs_check (called[k] == (how == 0 || k < who.size () ? 1 : 0), "each point is searched once");
        vs_check (a[k] == b[k], "the result does not depend on the threads");
    }
    vs_reach ("end");
}
// columns of a compressed file: compressed by one thread each, put together by all
extern "C" void column_loops ()
{
    const size_t n = vs_choose ("n", 1, 3), ne = vs_choose ("ne", 0, 2);
    point_records p = any_columns (n, ne);
    const spoc_file f ("w", true, p);
    alone ();
    std::stringstream s, t;
    spoc::io::write_spoc_file (s, f);
    team (team_size (9));
    spoc::io::write_spoc_file (t, f);
    alone ();
    vs_check (diff (s.str (), t.str ()) == 0, "the file does not depend on the threads");
    team (n);
    spoc_file g = spoc::io::read_spoc_file (t);
    alone ();
    vs_check (diff (f, g) == 0, "the file is read back by any number of threads");
    vs_reach ("end");
}
