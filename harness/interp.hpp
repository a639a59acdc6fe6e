// Interpreter of behaviours of spec/ScalarProg.tla: executes their actions
// through the public interface of the library.
#pragma once
#include "rt.hpp"
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>

struct Leaf { char kind; Variable* v; Parameter* p; Expression* e; Type t; int i; };
struct Leaves {
  std::vector<Leaf> l;
  Variable& V(int n) { return *l[n].v; }
  Parameter& P(int n) { return *l[n].p; }
  Expression& E(int n) { return *l[n].e; }
  Type T(int n) { return l[n].t; }
  int I(int n) { return l[n].i; }
};
struct Builder {
  Expression* (*mk)(Leaves&) = nullptr;
  void (*as)(Expression&, Leaves&) = nullptr;
  Type (*ev)(Leaves&) = nullptr;
  Type (*df)(Leaves&, Variable&) = nullptr;
  Type (*sd)(Leaves&, Variable&) = nullptr;
};
extern std::map<std::string, Builder> g_shapes;

template <class F> Builder& reg(const char* key, F f) {
  static F g = f;
  Builder b;
  b.mk = [](Leaves& l) { return new Expression(g(l)); };
  b.as = [](Expression& e, Leaves& l) { e = g(l); };
  return g_shapes[key] = b;
}
// also queries on the unnamed expression
template <class F> void regt(const char* key, F f) {
  static F g = f;
  Builder& b = reg(key, f);
  b.ev = [](Leaves& l) -> Type { return R1::Eval(g(l)); };
  b.df = [](Leaves& l, Variable& x) -> Type { return R1::DevalF(g(l), x); };
  b.sd = [](Leaves& l, Variable& x) -> Type { return R1::Eval(R1::SymDiff(g(l), x)); };
}
