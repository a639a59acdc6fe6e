// Runtime of the generated drivers: prints observations, one per line.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP
#include "CoolDiff.hpp"
#include <cstdio>
#include <cstdlib>
#include <complex>
#include <string>
#include <unistd.h>
#include <sys/resource.h>

static int g_prog = 0, g_step = 0;
using RealT = Real;

// numbers of the scalar type
inline Type N(double re) { return (Type)(RealT)re; }
#if defined(USE_COMPLEX_MATH)
inline Type N(double re, double im) { return Type((RealT)re, (RealT)im); }
#else
inline Type N(double re, double) { return (Type)re; }
#endif
inline void S(int step) { g_step = step; printf("S %d %d\n", g_prog, step); fflush(stdout); }
inline void O(int idx, const Type& v) {
  printf("O %d %d %d %a %a\n", g_prog, g_step, idx, (double)std::real(v), (double)std::imag(v));
}
inline void I(int idx, long v) { printf("O %d %d %d %ld 0\n", g_prog, g_step, idx, v); }
// a matrix: number of rows, of columns, then the entries
template <class M> inline void OM(M& m) {
  I(0, (long)m.getNumRows()); I(1, (long)m.getNumColumns());
  const size_t n = m.getNumElem();
  for (size_t i = 0; i < n; ++i) O(2 + (int)i, m[i]);
}

namespace R1 = CoolDiff::TensorR1;
namespace R2 = CoolDiff::TensorR2;
template <class T> inline T& MU(const T& t) { return const_cast<T&>(t); }

// operators defined by a user of the library
inline Type fCube(Type u) { return u * u * u; }
inline Type dCube(Type u) { return (Type)3 * u * u; }
UNARY_SCALAR_OPERATOR(CubeS, fCube, dCube)
inline Type fMix(Type u, Type v) { return u * v * v + std::sin(u); }
inline Type dMixU(Type u, Type v) { return v * v + std::cos(u); }
inline Type dMixV(Type u, Type v) { return (Type)2 * u * v; }
BINARY_SCALAR_OPERATOR(MixS, fMix, dMixU, dMixV)
UNARY_MATRIX_OPERATOR(CubeM, fCube, dCube)

struct Prog { int id; void (*fn)(); };
inline int run_all(Prog* p, int n, int argc, char** argv) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  static char buf[1 << 16];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  for (int i = argc > 1 ? atoi(argv[1]) : 0; i < n; ++i) {
    g_prog = p[i].id; g_step = -1;
    printf("P %d\n", g_prog); fflush(stdout);
    p[i].fn();
  }
  printf("DONE\n"); fflush(stdout);
  _exit(0);
}
#endif
