// Helpers shared by every harness; implemented by shim.cpp in the IR and by native.cpp in replays.
#pragma once
#include "vs.h"
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
// files (in memory in the IR, in a scratch directory natively)
void vs_file_put (const std::string &name, const std::string &data);
bool vs_file_get (const std::string &name, std::string &data);
void vs_file_remove (const std::string &name);
std::string vs_file_name (size_t k);  // the k-th file that exists
void vs_buckets (bool on);          // model: hash tables of known keys with many buckets instead of one
size_t vs_file_count ();              // files that exist
void vs_disk_limit (uint64_t bytes);  // no file (nor stdout) can grow beyond this from now on
void vs_alloc_limit (uint64_t bytes); // a single allocation above this throws bad_alloc
uint64_t vs_draw (uint64_t lo, uint64_t hi);
void vs_rng_mode (int symbolic);
// run a program's main; stdin/stdout/stderr are redirected
struct vs_run_result { int rc; std::string out, err; };
typedef int (*vs_main_fn) (int, char **);
vs_run_result vs_run (vs_main_fn f, const std::vector<std::string> &args, const std::string &in = std::string ());
// decimal text: in the IR a symbolic number is printed as a fixed-size token that reads back as
// the same number (or, for a double printed with p < 17 digits, as the number rounded to p digits)
// minus: 1 when the number is printed with a minus sign
bool vs_get_int (const std::string &s, size_t &pos, uint64_t &v, uint64_t *minus = nullptr);
bool vs_get_double (const std::string &s, size_t &pos, double &v);
