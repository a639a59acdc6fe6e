// Interpreter of behaviours of spec/MatProg.tla: executes their actions
// through the public interface of the library.
#pragma once
#include "rt.hpp"
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>

using MV = Matrix<Variable>; using MT = Matrix<Type>; using MP = Matrix<Parameter>; using ME = Matrix<Expression>;
struct Leaf { char kind; void* o; Type t; size_t i; };
struct Leaves {
  std::vector<Leaf> l;
  MV& X(int n) { return *(MV*)l[n].o; }
  MT& T(int n) { return *(MT*)l[n].o; }
  MP& P(int n) { return *(MP*)l[n].o; }
  ME& S(int n) { return *(ME*)l[n].o; }
  ME& E(int n) { return *(ME*)l[n].o; }
  Variable& v(int n) { return *(Variable*)l[n].o; }
  Parameter& p(int n) { return *(Parameter*)l[n].o; }
  Expression& e(int n) { return *(Expression*)l[n].o; }
  Type t(int n) { return l[n].t; }
  size_t n(int k) { return l[k].i; }
};
struct Builder {
  ME* (*mk)(Leaves&) = nullptr;
  void (*as)(ME&, Leaves&) = nullptr;
  MT& (*ev)(Leaves&) = nullptr;
  MT& (*df)(Leaves&, MV&) = nullptr;
};
extern std::map<std::string, Builder> g_shapes;

template <class F> void reg(const char* key, F f) {
  static F g = f;
  Builder b;
  b.mk = [](Leaves& l) { return new ME(g(l)); };
  b.as = [](ME& e, Leaves& l) { e = g(l); };
  b.ev = [](Leaves& l) -> MT& { return R2::Eval(MU(g(l))); };
  b.df = [](Leaves& l, MV& x) -> MT& { return R2::DevalF(MU(g(l)), x); };
  g_shapes[key] = b;
}
