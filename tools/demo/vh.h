// Stand-in for the check's helper header: only what the small simulations need.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <mpi.h>
struct VmpiOpts {}; struct VmpiResult { bool ok = true; };
namespace vh {
inline std::string fmt(const char * f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
}
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "DEMO FAILS: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(stderr); _exit(1); } } while (0)
#include <unistd.h>
