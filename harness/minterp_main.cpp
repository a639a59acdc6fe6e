#include "minterp.hpp"

std::map<std::string, Builder> g_shapes;
void register_all();

[[noreturn]] static void fail(const std::string& why) {
  fprintf(stderr, "%s\n", why.c_str());
  fflush(stdout); _exit(77);
}

struct Machine {
  std::vector<MV*> X = std::vector<MV*>(32, nullptr);
  std::vector<MT*> T = std::vector<MT*>(32, nullptr);
  std::vector<MP*> P = std::vector<MP*>(32, nullptr);
  std::vector<ME*> S = std::vector<ME*>(32, nullptr), E = std::vector<ME*>(32, nullptr);
  std::vector<Variable*> v = std::vector<Variable*>(8, nullptr);
  std::vector<Parameter*> p = std::vector<Parameter*>(8, nullptr);
  std::vector<Expression*> e = std::vector<Expression*>(8, nullptr);
  std::vector<MT*> held = std::vector<MT*>(16, nullptr);
  MV* Y = nullptr;
  std::vector<std::string> tok; size_t at = 0;

  std::string next() { if (at >= tok.size()) fail("line too short"); return tok[at++]; }
  int nexti() { return atoi(next().c_str()); }
  double nextd() { return strtod(next().c_str(), nullptr); }
  Type nextn() { double a = nextd(), b = nextd(); return N(a, b); }

  // scalar terms, each operation in an expression of its own
  Expression* term() {
    std::string o = next();
    if (o == "v") return new Expression(*v[nexti()]);
    if (o == "p") return new Expression(*p[nexti()]);
    if (o == "X") { int s = nexti(), k = nexti(); return new Expression((*X[s])[k]); }
    if (o == "sin") { auto a = term(); return new Expression(sin(*a)); }
    if (o == "exp") { auto a = term(); return new Expression(exp(*a)); }
    auto a = term(), b = term();
    if (o == "+") return new Expression(*a + *b);
    if (o == "-") return new Expression(*a - *b);
    if (o == "*") return new Expression(*a * *b);
    fail("no term " + o);
  }
  // a tree in prefix form: the key of its shape, the operands in order
  std::string tree(Leaves& l) {
    std::string o = next();
    Leaf f{}; f.kind = o[0];
    if (o == "X") f.o = X[nexti()];
    else if (o == "T") f.o = T[nexti()];
    else if (o == "P") f.o = P[nexti()];
    else if (o == "S") f.o = S[nexti()];
    else if (o == "E") f.o = E[nexti()];
    else if (o == "v") f.o = v[nexti()];
    else if (o == "p") f.o = p[nexti()];
    else if (o == "e") f.o = e[nexti()];
    else if (o == "t") f.t = nextn();
    else if (o == "N") {
      int r = nexti(), c = nexti();
      auto m = new MT(r, c);
      for (int i = 0; i < r * c; ++i) (*m)[i] = nextn();
      f.kind = 'T'; f.o = m; o = "T";
    } else {
      int k = nexti();          // operands that are trees
      int n = nexti();          // integers after them
      std::string key = o;
      for (int i = 0; i < k; ++i) key += " " + tree(l);
      for (int i = 0; i < n; ++i) { Leaf g{}; g.kind = 'i'; g.i = nexti(); l.l.push_back(g); }
      return key;
    }
    l.l.push_back(f);
    return o;
  }
  const Builder& builder(Leaves& l) {
    std::string key = tree(l);
    auto it = g_shapes.find(key);
    if (it == g_shapes.end()) fail("no builder for " + key);
    return it->second;
  }
  template <class F> void leaf(F f) {
    std::string o = next(); int s = nexti();
    if (o == "X") f(*X[s]); else if (o == "T") f(*T[s]); else if (o == "P") f(*P[s]); else f(*S[s]);
  }
  // entries without a query of a matrix: reads each operand directly
  void frame() {
    std::string o = next(); int s = nexti();
    auto dims = [](auto& m) { I(0, (long)m.getNumRows()); I(1, (long)m.getNumColumns()); };
    if (o == "T") { OM(*T[s]); }
    else if (o == "X") { dims(*X[s]); for (size_t i = 0; i < X[s]->getNumElem(); ++i) O(2 + (int)i, R1::Eval((*X[s])[i])); }
    else { dims(*P[s]); for (size_t i = 0; i < P[s]->getNumElem(); ++i) O(2 + (int)i, R1::Eval((*P[s])[i])); }
  }
  void step(const std::string& a) {
    if (a == "v") { for (int i = 1; at < tok.size(); ++i) v[i] = new Variable(nextn()); }
    else if (a == "p") { for (int i = 1; at < tok.size(); ++i) p[i] = new Parameter(nextn()); }
    else if (a == "X") { int s = nexti(), r = nexti(), c = nexti(); X[s] = new MV(r, c); for (int i = 0; i < r * c; ++i) (*X[s])[i] = nextn(); }
    else if (a == "T") { int s = nexti(), r = nexti(), c = nexti(); T[s] = new MT(r, c); for (int i = 0; i < r * c; ++i) (*T[s])[i] = nextn(); }
    else if (a == "P") { int s = nexti(), r = nexti(), c = nexti(); P[s] = new MP(r, c); for (int i = 0; i < r * c; ++i) (*P[s])[i] = nextn(); }
    else if (a == "S") { int s = nexti(), r = nexti(), c = nexti(); S[s] = new ME(r, c); for (int i = 0; i < r * c; ++i) (*S[s])[i] = *term(); }
    else if (a == "e") { int s = nexti(); e[s] = term(); }
    else if (a == "Y") { int r = nexti(), c = nexti(); Y = new MV(r, c); for (int i = 0; i < r * c; ++i) (*Y)[i] = *v[nexti()]; }
    else if (a == "new") { int k = nexti(); Leaves l; E[k] = builder(l).mk(l); }
    else if (a == "decl") { int k = nexti(); Leaves l; auto& b = builder(l); E[k] = new ME(); b.as(*E[k], l); }
    else if (a == "assign") { int k = nexti(); Leaves l; builder(l).as(*E[k], l); }
    else if (a == "setx") { int s = nexti(), k = nexti(); for (; at < tok.size(); ++k) (*X[s])[k] = nextn(); }
    else if (a == "sett") { int s = nexti(), k = nexti(); for (; at < tok.size(); ++k) (*T[s])[k] = nextn(); }
    else if (a == "setp") { int s = nexti(), k = nexti(); for (; at < tok.size(); ++k) (*P[s])[k] = nextn(); }
    else if (a == "setv") { int i = nexti(); *v[i] = nextn(); }
    else if (a == "setq") { *p[1] = nextn(); }
    else if (a == "mode") { CoolDiff::GlobalParameters::setCPUHandler(nexti() ? CoolDiff::GlobalParameters::CPUHandlerType::NAIVE : CoolDiff::GlobalParameters::CPUHandlerType::EIGEN); }
    else if (a == "eval") { OM(R2::Eval(*E[nexti()])); }
    else if (a == "teval") { Leaves l; OM(builder(l).ev(l)); }
    else if (a == "leval") { leaf([](auto& m) { OM(R2::Eval(m)); }); }
    else if (a == "fwd") { int k = nexti(); OM(R2::DevalF(*E[k], *X[nexti()])); }
    else if (a == "fwdy") { OM(R2::DevalF(*E[nexti()], *Y)); }
    else if (a == "tfwd") { int s = nexti(); Leaves l; OM(builder(l).df(l, *X[s])); }
    else if (a == "lfwd") { int x = nexti(); leaf([&](auto& m) { OM(R2::DevalF(m, *X[x])); }); }
    else if (a == "pre") { R2::PreComp(*E[nexti()]); }
    else if (a == "rev") { int k = nexti(); OM(R2::DevalR(*E[k], *X[nexti()])); }
    else if (a == "revv") { int k = nexti(); OM(R2::DevalR(*E[k], *v[nexti()])); }
    else if (a == "hold") { int k = nexti(), h = nexti(); held[h] = &R2::Eval(*E[k]); OM(*held[h]); }
    else if (a == "look") { OM(*held[nexti()]); }
    else if (a == "frame") frame();
    else if (a == "const") {
      std::string w = next(); int n = nexti(), m = nexti();
      auto& M = w == "eye" ? R2::MatrixBasics::EyeRef("CPUMemoryStrategy", n)
              : w == "ones" ? R2::MatrixBasics::OnesRef("CPUMemoryStrategy", n, m) : R2::MatrixBasics::ZerosRef("CPUMemoryStrategy", n, m);
      OM(MU(M));
    }
    else fail("no action " + a);
  }
};

int main(int argc, char** argv) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  static char buf[1 << 16];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  register_all();
  std::ifstream in(argv[1]);
  int skip = argc > 2 ? atoi(argv[2]) : 0, seen = 0;
  Machine* m = nullptr;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string first; ls >> first;
    if (first.empty()) continue;
    if (first == "P") {
      int id; ls >> id;
      if (++seen <= skip) { m = nullptr; continue; }
      g_prog = id; g_step = -1;
      printf("P %d\n", g_prog); fflush(stdout);
      CoolDiff::GlobalParameters::setCPUHandler(CoolDiff::GlobalParameters::CPUHandlerType::EIGEN);
      m = new Machine;   // nothing is ever freed: the library refers to the operands
      continue;
    }
    if (!m) continue;
    S(atoi(first.c_str()));
    std::string a; ls >> a;
    m->tok.clear(); m->at = 0;
    for (std::string t; ls >> t;) m->tok.push_back(t);
    m->step(a);
  }
  printf("DONE\n"); fflush(stdout);
  _exit(0);
}
