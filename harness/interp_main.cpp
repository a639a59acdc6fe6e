#include "interp.hpp"
#include <memory>

std::map<std::string, Builder> g_shapes;
void register_all();

struct Node {
  std::string op; std::vector<Node> kid; Leaf leaf{};
};

struct Machine {
  std::vector<Variable*> x = std::vector<Variable*>(16, nullptr);
  std::vector<Parameter*> p = std::vector<Parameter*>(16, nullptr);
  std::vector<Expression*> e = std::vector<Expression*>(16, nullptr);
  std::vector<std::string> tok; size_t at = 0;
  int n = 0; // number of the action

  std::string next() { return tok[at++]; }
  int nexti() { return atoi(tok[at++].c_str()); }
  double nextd() { return strtod(tok[at++].c_str(), nullptr); }
  Type nextn() { double a = nextd(), b = nextd(); return N(a, b); }

  Node tree() {
    Node nd; nd.op = next();
    const std::string& o = nd.op;
    if (o == "V") { nd.leaf.kind = 'V'; nd.leaf.v = x[nexti()]; }
    else if (o == "P") { nd.leaf.kind = 'P'; nd.leaf.p = p[nexti()]; }
    else if (o == "E") { nd.leaf.kind = 'E'; nd.leaf.e = e[nexti()]; }
    else if (o == "T") { nd.leaf.kind = 'T'; nd.leaf.t = nextn(); }
    else if (o == "I") { nd.leaf.kind = 'I'; nd.leaf.i = nexti(); }
    else {
      int k = arity(o);
      for (int i = 0; i < k; ++i) nd.kid.push_back(tree());
    }
    return nd;
  }
  static int arity(const std::string& o) {
    return (o == "+" || o == "-" || o == "*" || o == "/" || o == "^" || o == "ProductS" || o == "MixS") ? 2 : 1;
  }
  static void flatten(const Node& n, std::string& key, Leaves& l) {
    if (!key.empty()) key += " ";
    key += n.op;
    if (n.kid.empty()) l.l.push_back(n.leaf);
    for (auto& k : n.kid) flatten(k, key, l);
  }
  static bool mentions(const Node& n, Expression* self) {
    if (n.kid.empty()) return n.leaf.kind == 'E' && n.leaf.e == self;
    for (auto& k : n.kid) if (mentions(k, self)) return true;
    return false;
  }
  static const Builder* find(const Node& n, Leaves& l, bool temp) {
    std::string key; l.l.clear(); flatten(n, key, l);
    auto it = g_shapes.find(key);
    if (it == g_shapes.end() || (temp && !it->second.ev)) return nullptr;
    return &it->second;
  }
  // replace the subtree by an expression of its own
  Node named(const Node& n) {
    Node r; r.op = "E"; r.leaf.kind = 'E'; r.leaf.e = make(n);
    return r;
  }
  Expression* make(const Node& n) {
    if (n.kid.empty()) {
      switch (n.leaf.kind) {
        case 'V': return new Expression(*n.leaf.v);
        case 'P': return new Expression(*n.leaf.p);
        default: return new Expression(*n.leaf.e);
      }
    }
    Leaves l; const Builder* b = match(n, l, nullptr, false);
    return b->mk(l);
  }
  // the builder of this tree; subtrees are given names until there is one
  const Builder* match(Node n, Leaves& l, Expression* self, bool temp) {
    if (auto b = find(n, l, temp)) return b;
    auto ok = [&](const Node& k) { return !k.kid.empty() && !(self && mentions(k, self)); };
    Node m = n; bool any = false;
    for (auto& k : m.kid) for (auto& g : k.kid) if (ok(g)) { g = named(g); any = true; }
    if (any) if (auto b = find(m, l, temp)) return b;
    for (size_t i = m.kid.size(); i-- > 0;) {
      if (!ok(m.kid[i])) continue;
      Node q = m; q.kid[i] = named(m.kid[i]);
      if (auto b = find(q, l, temp)) return b;
    }
    Node q = m;
    for (auto& k : q.kid) if (ok(k)) k = named(k);
    if (auto b = find(q, l, temp)) return b;
    if (temp) return nullptr;
    for (auto& k : q.kid) if (k.op == "V" || k.op == "P") k = named(k);
    if (auto b = find(q, l, temp)) return b;
    std::string key; Leaves t; flatten(q, key, t);
    fprintf(stderr, "no builder for %s\n", key.c_str());
    fflush(stdout); _exit(77);
  }
  void assign(Expression& t, const Node& n) {
    if (n.kid.empty()) {
      switch (n.leaf.kind) {
        case 'V': t = *n.leaf.v; break;
        case 'P': t = *n.leaf.p; break;
        default: t = *n.leaf.e;
      }
      return;
    }
    Leaves l; match(n, l, &t, false)->as(t, l);
  }
  std::vector<int> ilist() { int k = nexti(); std::vector<int> r; while (k--) r.push_back(nexti()); return r; }
  Vector<Variable> vec(const std::vector<int>& l) { Vector<Variable> v; for (int i : l) v.push_back(*x[i]); return v; }
  void mat(Matrix<Variable>& m, const std::vector<int>& l) { for (size_t i = 0; i < l.size(); ++i) m[i] = *x[l[i]]; }
  size_t mr(size_t k) { return n % 2 ? k : 1; }
  size_t mc(size_t k) { return n % 2 ? 1 : k; }

  void step(const std::string& line) {
    tok.clear(); at = 0;
    std::istringstream is(line); std::string w;
    while (is >> w) tok.push_back(w);
    n = nexti();
    S(n);
    const std::string a = next();
    if (a == "start") {
      int k = nexti(); for (int i = 1; i <= k; ++i) x[i] = new Variable(nextn());
      k = nexti(); for (int i = 1; i <= k; ++i) p[i] = new Parameter(nextn());
    } else if (a == "new") { int k = nexti(); e[k] = make(tree()); }
    else if (a == "decl") { int k = nexti(); e[k] = new Expression; assign(*e[k], tree()); }
    else if (a == "assign") { int k = nexti(); assign(*e[k], tree()); }
    else if (a == "set") { int i = nexti(); *x[i] = nextn(); }
    else if (a == "pset") { int i = nexti(); *p[i] = nextn(); }
    else if (a == "vnew") { int i = nexti(); x[i] = new Variable(*x[nexti()]); }
    else if (a == "vcopy") { int i = nexti(); *x[i] = *x[nexti()]; }
    else if (a == "vfresh") { int i = nexti(); *x[i] = Variable(nextn()); }
    else if (a == "pnew") { int i = nexti(); p[i] = new Parameter(*p[nexti()]); }
    else if (a == "pcopy") { int i = nexti(); *p[i] = *p[nexti()]; }
    else if (a == "pdecl") { int i = nexti(); p[i] = new Parameter(nextn()); }
    else if (a == "pfresh") { int i = nexti(); *p[i] = Parameter(nextn()); }
    else if (a == "vget") O(0, R1::Eval(*x[nexti()]));
    else if (a == "pget") O(0, R1::Eval(*p[nexti()]));
    else if (a == "eval") O(0, R1::Eval(*e[nexti()]));
    else if (a == "fwd") { int k = nexti(); O(0, R1::DevalF(*e[k], *x[nexti()])); }
    else if (a == "pre") R1::PreComp(*e[nexti()]);
    else if (a == "prec") R1::PreCompCache(*e[nexti()]);
    else if (a == "rev") { int k = nexti(); O(0, R1::DevalR(*e[k], *x[nexti()])); }
    else if (a == "sym") {
      int k = nexti(), i = nexti(), m = nexti();
      auto& d = R1::SymDiff(*e[k], *x[i]);
      if (!e[m]) e[m] = new Expression(d); else *e[m] = d;
    }
    else if (a == "teval" || a == "tfwd" || a == "tsym") {
      int i = a == "teval" ? 0 : nexti();
      Node t = tree(); Leaves l; const Builder* b = match(t, l, nullptr, true);
      if (b) O(0, a == "teval" ? b->ev(l) : a == "tfwd" ? b->df(l, *x[i]) : b->sd(l, *x[i]));
      else {
        Expression* q = make(t);
        O(0, a == "teval" ? R1::Eval(*q) : a == "tfwd" ? R1::DevalF(*q, *x[i]) : R1::Eval(R1::SymDiff(*q, *x[i])));
      }
    }
    else {
      int k = nexti(); auto l = ilist(); size_t c = l.size();
      Vector<Variable> v = vec(l);
      Matrix<Variable> m(mr(c), mc(c)); mat(m, l);
      if (a == "jac") { auto& j = n % 2 ? R2::JacobianR(*e[k], v) : R2::JacobianR(*e[k], m); for (size_t q = 0; q < c; ++q) O(q, j[q]); }
      else if (a == "fwdmat") { auto& j = n % 3 ? R2::DevalF(*e[k], m) : R2::DevalF(*e[k], m, false); for (size_t q = 0; q < c; ++q) O(q, j[q]); }
      else if (a == "revmat") { auto& j = R2::DevalR(*e[k], m); for (size_t q = 0; q < c; ++q) O(q, j[q]); }
      else if (a == "grad") { auto& j = n % 2 ? R2::SymGradient(*e[k], v) : R2::SymGradient(*e[k], m); for (size_t q = 0; q < c; ++q) O(q, R1::Eval(j[q])); }
      else if (a == "symmat") { auto& j = R2::SymMatDiff(*e[k], m); for (size_t q = 0; q < c; ++q) O(q, R1::Eval(j[q])); }
      else if (a == "hessr") {
        auto& h = n % 2 ? R2::HessianR(*e[k], v) : R2::HessianR(*e[k], m);
        for (size_t q = 0; q < c; ++q) for (size_t r = 0; r < c; ++r) O(q * c + r, h(q, r));
      } else if (a == "hesss") {
        auto& h = n % 2 ? R2::SymHessian(*e[k], v) : R2::SymHessian(*e[k], m);
        for (size_t q = 0; q < c; ++q) for (size_t r = 0; r < c; ++r) O(q * c + r, R1::Eval(h(q, r)));
      } else { fprintf(stderr, "unknown action %s\n", a.c_str()); fflush(stdout); _exit(77); }
    }
  }
};

// interp FILE [START]: lines "P id" begin a behaviour, other lines are actions
int main(int argc, char** argv) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  static char buf[1 << 16];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  register_all();
  std::ifstream in(argv[1]);
  int start = argc > 2 ? atoi(argv[2]) : 0, i = -1;
  std::string line;
  Machine* m = nullptr;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line[0] == 'P') {
      ++i;
      if (i < start) continue;
      g_prog = atoi(line.c_str() + 2); g_step = -1;
      printf("P %d\n", g_prog); fflush(stdout);
      m = new Machine; // objects of finished behaviours stay alive
    } else if (i >= start) m->step(line);
  }
  printf("DONE\n"); fflush(stdout);
  _exit(0);
}
