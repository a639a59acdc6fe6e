// Interpreter of behaviours of spec/MatStore.tla.
#include "rt.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>

using MV = Matrix<Variable>; using MT = Matrix<Type>; using ME = Matrix<Expression>;
static const char* CPU = "CPUMemoryStrategy";

[[noreturn]] static void fail(const std::string& why) {
  fprintf(stderr, "%s\n", why.c_str());
  fflush(stdout); _exit(77);
}

struct Machine {
  MT* o[9] = {}; bool own[9] = {};
  Type ext[3][10];
  MV* v[5] = {};
  ME* x[4] = {}; ME* y[4] = {};
  std::vector<std::string> tok; size_t at = 0;

  std::string next() { if (at >= tok.size()) fail("line too short"); return tok[at++]; }
  int nexti() { return atoi(next().c_str()); }
  double nextd() { return strtod(next().c_str(), nullptr); }
  Type nextn() { double a = nextd(), b = nextd(); return N(a, b); }
  // destroys what slot k holds
  void drop(int k) { if (o[k] && own[k]) delete o[k]; o[k] = nullptr; own[k] = false; }
  void put(int k, MT* m, bool mine = true) { drop(k); o[k] = m; own[k] = mine; }
  static void show(MT& m, int via) {
    if (via == 0) { OM(m); return; }
    const MT& c = m;
    const size_t r = c.getNumRows(), n = c.getNumColumns();
    I(0, (long)r); I(1, (long)n);
    int q = 2;
    if (via == 4) {             // the printed form, row by row
      std::ostringstream os; os << c;
      std::istringstream all(os.str());
      std::string line;
      size_t rows = 0;
      while (std::getline(all, line)) {
        ++rows;
        std::istringstream ls(line);
        size_t cols = 0;
        for (Type t; ls >> t; ++cols) O(q++, t);
        if (cols != n) { I(0, -(long)cols); }
      }
      if (rows != r) { I(1, -(long)rows); }
      return;
    }
    if (via == 5) { MT& e = R2::Eval(m); I(0, (long)e.getNumRows()); I(1, (long)e.getNumColumns()); for (size_t l = 0; l < e.getNumElem(); ++l) O(q++, e[l]); return; }
    for (size_t i = 0; i < r; ++i)
      for (size_t j = 0; j < n; ++j)
        O(q++, via == 1 ? c(i, j) : via == 2 ? c.getRowPtr(i)[j] : c.getMatrixPtr()[i * n + j]);
  }
  void showv(MV& m) {
    I(0, (long)m.getNumRows()); I(1, (long)m.getNumColumns());
    for (size_t l = 0; l < m.getNumElem(); ++l) O(2 + (int)l, R1::Eval(m[l]));
  }
  void step(const std::string& a) {
    if (a == "x") { int e = nexti(); for (int i = 0; i < 10; ++i) ext[e][i] = nextn(); }
    else if (a == "new") {
      int k = nexti(), r = nexti(), c = nexti(); std::string how = next(); Type t = nextn();
      if (how == "val") put(k, new MT(r, c, t));
      else if (how == "zero") put(k, new MT(r, c));
      else put(k, &MT::MatrixFactory::CreateMatrix(r, c, t), false);
      OM(*o[k]);
    }
    else if (a == "newx") { int k = nexti(), r = nexti(), c = nexti(), e = nexti(); put(k, new MT(r, c, ext[e])); OM(*o[k]); }
    else if (a == "copyc") { int k = nexti(), j = nexti(); put(k, new MT(*o[j])); OM(*o[k]); }
    else if (a == "copya") { int k = nexti(), j = nexti(); *o[k] = *o[j]; OM(*o[k]); }
    else if (a == "movec") { int k = nexti(), j = nexti(); put(k, new MT(std::move(*o[j]))); OM(*o[k]); }
    else if (a == "movea") { int k = nexti(), j = nexti(); *o[k] = std::move(*o[j]); OM(*o[k]); }
    else if (a == "del") drop(nexti());
    else if (a == "set") {
      int k = nexti(), l = nexti(), via = nexti(); Type t = nextn(); MT& m = *o[k]; int c = (int)m.getNumColumns();
      if (via == 1) m(l / c, l % c) = t; else if (via == 2) m[l] = t; else if (via == 3) m.getRowPtr(l / c)[l % c] = t; else m.getMatrixPtr()[l] = t;
    }
    else if (a == "extset") { int e = nexti(), l = nexti(); ext[e][l] = nextn(); }
    else if (a == "copyd") { int k = nexti(), j = nexti(); o[k]->copyData(*o[j]); OM(*o[k]); }
    else if (a == "copyp") { int k = nexti(); o[k]->copyData(ext[nexti()]); OM(*o[k]); }
    else if (a == "reshape") { int k = nexti(), r = nexti(); o[k]->reshape(r, nexti()); OM(*o[k]); }
    else if (a == "getblock") {
      int j = nexti(), k = nexti(); size_t w[4]; for (auto& z : w) z = nexti();
      o[j]->getBlockMat({w[0], w[1]}, {w[2], w[3]}, o[k]); OM(*o[k]);
    }
    else if (a == "setblock") {
      int k = nexti(), j = nexti(); size_t w[4]; for (auto& z : w) z = nexti();
      o[k]->setBlockMat({w[0], w[1]}, {w[2], w[3]}, o[j]); OM(*o[k]);
    }
    else if (a == "pad") { int j = nexti(), k = nexti(), p = nexti(), q = nexti(); o[j]->pad(p, q, o[k]); OM(*o[k]); }
    else if (a == "row" || a == "col") {
      int j = nexti(), k = nexti(), i = nexti(), tmp = nexti();
      MT t = a == "row" ? (tmp ? MT(*o[j]).getRow(i) : o[j]->getRow(i)) : (tmp ? MT(*o[j]).getColumn(i) : o[j]->getColumn(i));
      put(k, new MT(std::move(t))); OM(*o[k]);
    }
    else if (a == "read") { int k = nexti(); show(*o[k], nexti()); }
    else if (a == "extread") { int e = nexti(); I(0, 1); I(1, 10); for (int i = 0; i < 10; ++i) O(2 + i, ext[e][i]); }
    else if (a == "express") { int q = nexti(); std::string op = next(); int i = nexti(), j = nexti(); x[q] = op == "+" ? new ME(*o[i] + *o[j]) : new ME(*o[i] ^ *o[j]); }
    else if (a == "evalx") { OM(R2::Eval(*x[nexti()])); }
    else if (a == "newv") {
      int k = nexti(), r = nexti(), c = nexti();
      delete v[k]; v[k] = new MV(r, c);
      for (int l = 0; l < r * c; ++l) (*v[k])[l] = nextn();
    }
    else if (a == "copyv") {
      std::string how = next(); int k = nexti(), j = nexti();
      if (how == "copya") *v[k] = *v[j];
      else { auto n = how == "copyc" ? new MV(*v[j]) : new MV(std::move(*v[j])); delete v[k]; v[k] = n; }
      showv(*v[k]);
    }
    else if (a == "setv") { int k = nexti(), l = nexti(); (*v[k])[l] = nextn(); }
    else if (a == "linkv") { int k = nexti(), l = nexti(), j = nexti(), m = nexti(); (*v[k])[l] = (*v[j])[m]; }
    else if (a == "readv") { showv(*v[nexti()]); }
    else if (a == "expressv") { int q = nexti(); std::string op = next(); int i = nexti(), j = nexti(); y[q] = op == "+" ? new ME(*v[i] + *v[j]) : new ME(*v[i] ^ *v[j]); }
    else if (a == "evaly") { OM(R2::Eval(*y[nexti()])); }
    else if (a == "dery") { int q = nexti(); OM(R2::DevalF(*y[q], *v[nexti()])); }
    else fail("no action " + a);
  }
};

int main(int argc, char** argv) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  static char buf[1 << 16];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  std::ifstream in(argv[1]);
  int skip = argc > 2 ? atoi(argv[2]) : 0, seen = 0;
  Machine* m = nullptr;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string first; ls >> first;
    if (first.empty()) continue;
    if (first == "P") {
      int id; ls >> id;
      if (++seen <= skip) { m = nullptr; continue; }
      g_prog = id; g_step = -1;
      printf("P %d\n", g_prog); fflush(stdout);
      m = new Machine;
      continue;
    }
    if (!m) continue;
    S(atoi(first.c_str()));
    std::string a; ls >> a;
    m->tok.clear(); m->at = 0;
    for (std::string t; ls >> t;) m->tok.push_back(t);
    m->step(a);
  }
  printf("DONE\n"); fflush(stdout);
  _exit(0);
}
