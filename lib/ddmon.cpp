// Monitor for the decision-diagram package: executes a script of public operations read from stdin and, after each one, walks the
// diagrams and tables it can see and reports what it found.  One line of output per command: "R <numbers...>", "E <what was thrown>",
// plus "V <violated invariant>" lines.  Compiled with sanitizers by the checks; holds no oracle of its own for the numbers.
#include "dd/MDDPackage.hpp"

#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using P = dd::MDDPackage;
using dd::fp;
using Mat = std::vector<dd::ComplexValue>;
using C = std::complex<double>;

static bool tinyWeights = false;
static size_t base = 0; // the lowest line operations are about
static std::unique_ptr<P> pkg;
static std::map<int, P::vEdge> vs;
static std::map<int, P::mEdge> ms;
static std::vector<size_t> dims;
static unsigned long nodesSeen = 0, sharedSeen = 0, checks = 0;

static C num(const dd::Complex& w) { return {dd::CTEntry::val(w.real), dd::CTEntry::val(w.img)}; }

static void viol(const std::string& s) { std::printf("V %s\n", s.c_str()); }

template <class N> static bool zeroW(const dd::Edge<N>& e) { return e.weight == dd::Complex::zero; }

// ---- the table of numbers
static void scanNumbers(const dd::ComplexNumbers& cn, unsigned long& c) {
  using T = dd::ComplexTable<>;
  const auto& t = cn.complexTable.getTable();
  for (size_t key = 0; key < t.size(); ++key) {
    for (auto* e = t[key]; e != nullptr; e = e->next) {
      if (++c > 5000000) {
        viol("the table of numbers has a cycle");
        return;
      }
      if (static_cast<size_t>(T::hash(e->value)) != key || !(e->value > 0) || (e->next != nullptr && !(e->value < e->next->value))) {
        viol("the table of numbers is out of order");
      }
    }
  }
  if (c != cn.complexTable.getCount()) {
    viol("the table of numbers holds another number of them than it counts");
  }
}

// ---- structural invariants of everything reachable from an edge
template <class N> static void walk(const dd::Edge<N>& top, const char* what) {
  constexpr bool mat = std::is_same_v<N, P::mNode>;
  if (top.nextNode == nullptr) {
    viol(std::string(what) + ": the root points to nothing");
    return;
  }
  std::set<const N*> seen;
  std::vector<const N*> todo;
  if (!top.isTerminal()) {
    todo.push_back(top.nextNode);
  }
  std::map<std::vector<std::tuple<const N*, const void*, const void*>>, const N*> unique;
  while (!todo.empty()) {
    const N* n = todo.back();
    todo.pop_back();
    if (!seen.insert(n).second) {
      ++sharedSeen;
      continue;
    }
    ++nodesSeen;
    ++checks;
    if (n->varIndx < static_cast<int>(base) || static_cast<size_t>(n->varIndx) >= dims.size()) {
      viol(std::string(what) + ": a node belongs to no line");
      return;
    }
    const size_t d = dims[static_cast<size_t>(n->varIndx)];
    if (n->edges.size() != (mat ? d * d : d)) {
      viol(std::string(what) + ": a node has the wrong number of edges");
      return;
    }
    double norm = 0, mx = 0, unit = 1;
    std::vector<std::tuple<const N*, const void*, const void*>> key;
    for (const auto& e : n->edges) {
      if (e.nextNode == nullptr) {
        viol(std::string(what) + ": an edge points to nothing");
        return;
      }
      const auto w = num(e.weight);
      if (!std::isfinite(w.real()) || !std::isfinite(w.imag())) {
        viol(std::string(what) + ": a weight is not a number");
      }
      norm += std::norm(w);
      mx = std::max(mx, std::abs(w));
      unit = std::min(unit, std::abs(w - 1.));
      key.emplace_back(e.nextNode, e.weight.real, e.weight.img);
      if (zeroW(e) && !e.isTerminal()) {
        viol(std::string(what) + ": an edge of weight zero leads to a node");
      }
      if (!e.isTerminal()) {
        if (e.nextNode->varIndx != n->varIndx - 1) {
          viol(std::string(what) + ": an edge skips a line");
        }
        todo.push_back(e.nextNode);
      } else if (!zeroW(e) && n->varIndx != static_cast<int>(base)) {
        viol(std::string(what) + ": an edge of weight other than zero ends before the last line");
      }
    }
    if (!mat && std::abs(norm - 1) > 1e-8) {
      viol(std::string(what) + ": a vector node is not normalised");
    }
    // weights below the root of the tolerance count as equally large
    if (mat && (tinyWeights ? unit > 1e-12 : std::abs(mx - 1) > 1e-5)) {
      viol(std::string(what) + ": a matrix node is not normalised");
    }
    if (!unique.emplace(key, n).second) {
      viol(std::string(what) + ": two nodes are equal");
    }
  }
}

// ---- dense values by following the edges
static void dense(const P::vEdge& e, C amp, size_t line, std::vector<C>& out, size_t at, const std::vector<size_t>& stride) {
  amp *= num(e.weight);
  if (e.isTerminal()) {
    if (line == base) {
      out[at] = amp;
    }
    return;
  }
  for (size_t k = 0; k < e.nextNode->edges.size(); ++k) {
    dense(e.nextNode->edges[k], amp, line - 1, out, at + k * stride[line - 1], stride);
  }
}
static void dense(const P::mEdge& e, C amp, size_t line, std::vector<C>& out, size_t r, size_t c, size_t n, const std::vector<size_t>& stride) {
  amp *= num(e.weight);
  if (e.isTerminal()) {
    if (line == base) {
      out[r * n + c] = amp;
    }
    return;
  }
  const size_t d = dims[line - 1];
  for (size_t i = 0; i < d; ++i) {
    for (size_t j = 0; j < d; ++j) {
      dense(e.nextNode->edges[i * d + j], amp, line - 1, out, r + i * stride[line - 1], c + j * stride[line - 1], n, stride);
    }
  }
}
static std::pair<std::vector<size_t>, size_t> strides(size_t lines) {
  std::vector<size_t> s(lines);
  size_t t = 1;
  for (size_t i = 0; i < lines; ++i) {
    s[i] = t;
    t *= i < base ? 1 : dims[i];
  }
  return {s, t};
}
static std::vector<C> values(const P::vEdge& e) {
  const size_t lines = e.isTerminal() ? (zeroW(e) ? dims.size() : base) : static_cast<size_t>(e.nextNode->varIndx) + 1;
  auto [s, n] = strides(lines);
  std::vector<C> out(n);
  dense(e, 1., lines, out, 0, s);
  return out;
}
static std::vector<C> values(const P::mEdge& e) {
  const size_t lines = e.isTerminal() ? (zeroW(e) ? dims.size() : base) : static_cast<size_t>(e.nextNode->varIndx) + 1;
  auto [s, n] = strides(lines);
  std::vector<C> out(n * n);
  dense(e, 1., lines, out, 0, 0, n, s);
  return out;
}

// flags are promises about the matrix below a node
static void flags(const P::mEdge& e, const char* what) {
  std::set<const P::mNode*> seen;
  std::vector<const P::mNode*> todo;
  if (e.nextNode != nullptr && !e.isTerminal()) {
    todo.push_back(e.nextNode);
  }
  while (!todo.empty()) {
    const auto* n = todo.back();
    todo.pop_back();
    if (!seen.insert(n).second) {
      continue;
    }
    if (n->identity || n->symmetric) {
      const P::mEdge f{const_cast<P::mNode*>(n), dd::Complex::one};
      const auto m = values(f);
      const auto k = static_cast<size_t>(std::llround(std::sqrt(static_cast<double>(m.size()))));
      bool id = true, sy = true;
      for (size_t i = 0; i < k; ++i) {
        for (size_t j = 0; j < k; ++j) {
          id = id && std::abs(m[i * k + j] - C(i == j ? 1. : 0.)) < 1e-9;
          sy = sy && std::abs(m[i * k + j] - m[j * k + i]) < 1e-9;
        }
      }
      ++checks;
      if (n->identity && !id) {
        viol(std::string(what) + ": a node marked as identity is none");
      }
      if (n->symmetric && !sy) {
        viol(std::string(what) + ": a node marked as symmetric is not");
      }
    }
    for (const auto& x : n->edges) {
      if (!x.isTerminal()) {
        todo.push_back(x.nextNode);
      }
    }
  }
}

static void out(const std::vector<C>& v) {
  std::printf("R %zu", v.size());
  for (const auto& x : v) {
    std::printf(" %.17g %.17g", x.real(), x.imag());
  }
  std::printf("\n");
}
static bool quiet = false; // packages too large to write all values down
static void out(const P::vEdge& e, const char* what) {
  walk(e, what);
  if (quiet) {
    return out(std::vector<C>{});
  }
  out(values(e));
}
static void out(const P::mEdge& e, const char* what) {
  walk(e, what);
  if (quiet) {
    return out(std::vector<C>{});
  }
  flags(e, what);
  out(values(e));
}

template <class T> static Mat vec(const T& a) { return Mat(a.begin(), a.end()); }

// ---- the gate matrices of the package by name and dimension
static Mat named(const std::string& g, size_t d, fp a, fp b, size_t l, size_t m) {
  using namespace dd;
#define BYDIM(N2, N3, N4, N5, N6, N7)                                                                                                         \
  switch (d) {                                                                                                                                \
  case 2:                                                                                                                                     \
    return vec(N2);                                                                                                                           \
  case 3:                                                                                                                                     \
    return vec(N3);                                                                                                                           \
  case 4:                                                                                                                                     \
    return vec(N4);                                                                                                                           \
  case 5:                                                                                                                                     \
    return vec(N5);                                                                                                                           \
  case 6:                                                                                                                                     \
    return vec(N6);                                                                                                                           \
  default:                                                                                                                                    \
    return vec(N7);                                                                                                                           \
  }
  if (g == "i") {
    BYDIM(Imat, I3, I4, I5, I6, I7)
  }
  if (g == "pi") {
    BYDIM(Pimat(l), Pi3(l), Pi4(l), Pi5(l), Pi6(l), Pi7(l))
  }
  if (g == "h") {
    BYDIM(H(), H3(), H4(), H5(), H6(), H7())
  }
  if (g == "x") {
    BYDIM(Xmat, X3, X4, X5, X6, X7)
  }
  if (g == "xdag") {
    BYDIM(Xmat, X3dag, X4dag, X5dag, X6dag, X7dag)
  }
  if (g == "z") {
    BYDIM(Zmat, Z3(), Z4(), Z5(), Z6(), Z7())
  }
  if (g == "s") {
    BYDIM(Smat, S3(), S4(), S5(), S6(), S7())
  }
  if (g == "r") {
    BYDIM(RXY(a, b), RXY3(a, b, l, m), RXY4(a, b, l, m), RXY5(a, b, l, m), RXY6(a, b, l, m), RXY7(a, b, l, m))
  }
  if (g == "rz") {
    BYDIM(RZ(a), RZ3(a, l, m), RZ4(a, l, m), RZ5(a, l, m), RZ6(a, l, m), RZ7(a, l, m))
  }
  if (g == "rh") {
    BYDIM(RH(), RH3(l, m), RH4(l, m), RH5(l, m), RH6(l, m), RH7(l, m))
  }
  if (g == "virtrz") {
    BYDIM(VirtRZ(a, l), VirtRZ3(a, l), VirtRZ4(a, l), VirtRZ5(a, l), VirtRZ6(a, l), VirtRZ7(a, l))
  }
  if (g == "embx") {
    BYDIM(embX2(a), embX3(a, l, m), embX4(a, l, m), embX5(a, l, m), embX6(a, l, m), embX7(a, l, m))
  }
  // matrices of one dimension only
  if (g == "y") {
    return vec(Ymat);
  }
  if (g == "sdag") {
    return vec(Sdagmat);
  }
  if (g == "t") {
    return vec(Tmat);
  }
  if (g == "tdag") {
    return vec(Tdagmat);
  }
  if (g == "sx") {
    return vec(SXmat);
  }
  if (g == "sxdag") {
    return vec(SXdagmat);
  }
  if (g == "v") {
    return vec(Vmat);
  }
  if (g == "vdag") {
    return vec(Vdagmat);
  }
  if (g == "rx") {
    return vec(RXmat(a));
  }
  if (g == "ry") {
    return vec(RYmat(a));
  }
  if (g == "rzq") {
    return vec(RZmat(a));
  }
  if (g == "phase") {
    return vec(Phasemat(a));
  }
  if (g == "u2") {
    return vec(U2mat(a, b));
  }
  if (g == "u3") {
    return vec(U3mat(a, b, 0.7 * a - b));
  }
  // and of three levels
  if (g == "u301") {
    return vec(U301(a, b, 0.7 * a - b));
  }
  if (g == "pi02") {
    return vec(PI02);
  }
  if (g == "pi02dag") {
    return vec(P_I02DAG);
  }
  if (g == "x01") {
    return vec(X01);
  }
  if (g == "z01") {
    return vec(Z01);
  }
  throw std::logic_error("no such matrix in the monitor");
}

static dd::QuantumRegister qr(int i) { return static_cast<dd::QuantumRegister>(i); }

static std::string silent(void (*f)(std::istringstream&), std::istringstream& in) {
  std::ostringstream sink;
  auto* old = std::cout.rdbuf(sink.rdbuf());
  try {
    f(in);
  } catch (...) {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  return sink.str();
}

static void run(std::istringstream& in) {
  std::string op;
  in >> op;
  int k = 0, a = 0, b = 0;
  const auto n = static_cast<dd::QuantumRegisterCount>(dims.size() - base);
  const auto readMat = [&](size_t d) {
    Mat m(d * d);
    for (auto& x : m) {
      in >> x.r >> x.i;
    }
    return m;
  };
  const auto readControls = [&] {
    size_t c = 0;
    in >> c;
    dd::Controls cs;
    for (size_t i = 0; i < c; ++i) {
      int q = 0, l = 0;
      in >> q >> l;
      cs.insert(dd::Control{qr(q), static_cast<dd::Control::Type>(l)});
    }
    return cs;
  };
  if (op == "pkg") {
    size_t c = 0;
    in >> c;
    std::vector<size_t> ds(c);
    for (auto& d : ds) {
      in >> d;
    }
    vs.clear();
    ms.clear();
    pkg = std::make_unique<P>(c, ds);
    dims = ds;
    std::printf("R 0\n");
  } else if (op == "quiet") {
    in >> a;
    quiet = a != 0;
    std::printf("R 0\n");
  } else if (op == "up") { // from here on everything is about lines a and above
    in >> a;
    base = static_cast<size_t>(a);
    std::printf("R 0\n");
  } else if (op == "drop") {
    in >> a;
    vs.erase(a);
    ms.erase(a);
    std::printf("R 0\n");
  } else if (op == "tiny") {
    in >> a;
    tinyWeights = a != 0;
    std::printf("R 0\n");
  } else if (op == "zero") {
    in >> k;
    vs[k] = pkg->makeZeroState(n, base);
    out(vs[k], "makeZeroState");
  } else if (op == "basis") {
    in >> k;
    std::vector<size_t> st(dims.size());
    for (size_t i = base; i < st.size(); ++i) {
      in >> st[i];
    }
    vs[k] = pkg->makeBasisState(n, st, base);
    out(vs[k], "makeBasisState");
  } else if (op == "ident") {
    in >> k;
    ms[k] = base == 0 ? pkg->makeIdent(n) : pkg->makeIdent(qr(static_cast<int>(base)), qr(static_cast<int>(dims.size()) - 1));
    out(ms[k], "makeIdent");
  } else if (op == "identlow") { // identity on lines 0..a
    in >> k >> a;
    ms[k] = pkg->makeIdent(0, qr(a));
    out(ms[k], "makeIdent");
  } else if (op == "gate") { // gate slot target controls named-or-matrix
    std::string g;
    in >> k >> a;
    const auto cs = readControls();
    in >> g;
    const auto d = dims.at(static_cast<size_t>(a));
    Mat m;
    if (g == "mat") {
      m = readMat(d);
    } else {
      fp p = 0, q = 0;
      size_t l = 0, h = 0;
      in >> p >> q >> l >> h;
      m = named(g, d, p, q, l, h);
    }
    if (cs.empty()) {
      ms[k] = pkg->makeGateDD(m, n, qr(a), base);
    } else if (cs.size() == 1) {
      ms[k] = pkg->makeGateDD(m, n, *cs.begin(), qr(a), base);
    } else {
      ms[k] = pkg->makeGateDD(m, n, cs, qr(a), base);
    }
    out(ms[k], "makeGateDD");
  } else if (op == "cex") {
    int lev = 0, la = 0, lb = 0, dag = 0;
    fp phi = 0;
    in >> k >> a >> b >> lev >> la >> lb >> phi >> dag;
    ms[k] = pkg->cex(n, static_cast<dd::Control::Type>(lev), phi, static_cast<size_t>(la), static_cast<size_t>(lb), qr(a), qr(b), dag != 0);
    out(ms[k], "cex");
  } else if (op == "csum") {
    int dag = 0;
    in >> k >> a >> b >> dag;
    ms[k] = pkg->csum(n, qr(a), qr(b), dag != 0);
    out(ms[k], "csum");
  } else if (op == "mv") {
    in >> k >> a >> b;
    vs[k] = pkg->multiply(ms.at(a), vs.at(b), qr(static_cast<int>(base)));
    out(vs[k], "multiply");
  } else if (op == "mm") {
    in >> k >> a >> b;
    ms[k] = pkg->multiply(ms.at(a), ms.at(b), qr(static_cast<int>(base)));
    out(ms[k], "multiply");
  } else if (op == "addv") {
    in >> k >> a >> b;
    vs[k] = pkg->add(vs.at(a), vs.at(b));
    out(vs[k], "add");
  } else if (op == "addm") {
    in >> k >> a >> b;
    ms[k] = pkg->add(ms.at(a), ms.at(b));
    out(ms[k], "add");
  } else if (op == "ct") {
    in >> k >> a;
    ms[k] = pkg->conjugateTranspose(ms.at(a));
    out(ms[k], "conjugateTranspose");
  } else if (op == "tr") {
    in >> k >> a;
    ms[k] = pkg->transpose(ms.at(a));
    out(ms[k], "transpose");
  } else if (op == "kronm") { // built on their own lines: a over identlow
    in >> k >> a >> b;
    ms[k] = pkg->kronecker(ms.at(a), ms.at(b));
    out(ms[k], "kronecker");
  } else if (op == "lowbasis") { // basis state of lines 0..a
    in >> k >> a;
    std::vector<size_t> st(static_cast<size_t>(a) + 1);
    for (auto& s : st) {
      in >> s;
    }
    vs[k] = pkg->makeBasisState(static_cast<dd::QuantumRegisterCount>(a + 1), st);
    out(vs[k], "makeBasisState");
  } else if (op == "lowgate") { // gate on the lowest lines only
    int lines = 0;
    in >> k >> lines >> a;
    const auto cs = readControls();
    const auto m = readMat(dims.at(static_cast<size_t>(a)));
    ms[k] = pkg->makeGateDD(m, static_cast<dd::QuantumRegisterCount>(lines), cs, qr(a));
    out(ms[k], "makeGateDD");
  } else if (op == "inner") {
    in >> a >> b;
    const auto v = pkg->innerProduct(vs.at(a), vs.at(b));
    out({C(v.r, v.i)});
  } else if (op == "fid") {
    in >> a >> b;
    out({C(pkg->fidelity(vs.at(a), vs.at(b)), 0)});
  } else if (op == "getvec") {
    in >> a;
    out(pkg->getVector(vs.at(a)));
  } else if (op == "getmat") {
    in >> a;
    out(pkg->getVectorizedMatrix(ms.at(a)));
  } else if (op == "path") { // amplitude by levels, top line first
    in >> a;
    std::vector<size_t> p(dims.size());
    for (auto& x : p) {
      in >> x;
    }
    const auto v = pkg->getValueByPath(vs.at(a), p);
    out({C(v.r, v.i)});
  } else if (op == "spath") { // amplitude by string, character i for line i
    std::string s;
    in >> a >> s;
    const auto v = pkg->getValueByPath(vs.at(a), s);
    out({C(v.r, v.i)});
  } else if (op == "smpath") {
    std::string s;
    in >> a >> s;
    const auto v = pkg->getValueByPath(ms.at(a), s);
    out({C(v.r, v.i)});
  } else if (op == "mpath") {
    in >> a;
    std::vector<size_t> p(dims.size()), q(dims.size());
    for (auto& x : p) {
      in >> x;
    }
    for (auto& x : q) {
      in >> x;
    }
    const auto v = pkg->getValueByPath(ms.at(a), p, q);
    out({C(v.r, v.i)});
  } else if (op == "repr") {
    size_t i = 0, t = 0;
    in >> i >> t;
    std::vector<C> r;
    for (const auto x : pkg->getReprOfIndex(i, t)) {
      r.emplace_back(static_cast<double>(x));
    }
    out(r);
  } else if (op == "count") {
    in >> a;
    std::unordered_set<P::vNode*> s;
    out({C(pkg->nodeCount(vs.at(a), s), 0)});
  } else if (op == "samev") {
    in >> a >> b;
    out({C(vs.at(a) == vs.at(b) ? 1 : 0, 0)});
  } else if (op == "samem") {
    in >> a >> b;
    out({C(ms.at(a) == ms.at(b) ? 1 : 0, 0)});
  } else if (op == "spread") {
    int c = 0;
    in >> k >> a >> c;
    std::vector<dd::QuantumRegister> lines(static_cast<size_t>(c));
    for (auto& l : lines) {
      int x = 0;
      in >> x;
      l = qr(x);
    }
    auto s = vs.at(a);
    vs[k] = c == 2 ? pkg->spread2(n, lines, s) : c == 3 ? pkg->spread3(n, lines, s) : pkg->spread5(n, lines, s);
    out(vs[k], "spread");
  } else if (op == "value") { // the table of numbers: how close is what is stored, and is it stored once
    fp r = 0, i = 0;
    in >> r >> i;
    const auto w = pkg->complexNumber.lookup(r, i);
    const auto u = pkg->complexNumber.lookup(r, i);
    if (w != u) {
      viol("lookup: the same number is stored twice");
    }
    out({num(w)});
  } else if (op == "near") { // no two numbers within the tolerance are stored beside each other
    int c = 0;
    in >> c;
    std::vector<C> r;
    std::vector<dd::Complex> ws;
    for (int j = 0; j < c; ++j) {
      fp x = 0, y = 0;
      in >> x >> y;
      ws.push_back(pkg->complexNumber.lookup(x, y));
      r.push_back(num(ws.back()));
    }
    for (size_t i = 0; i < ws.size(); ++i) {
      for (size_t j = 0; j < i; ++j) {
        const auto p = r[i], q = r[j];
        if ((ws[i].real != ws[j].real && std::abs(p.real() - q.real()) <= dd::ComplexTable<>::tolerance()) ||
            (ws[i].img != ws[j].img && std::abs(p.imag() - q.imag()) <= dd::ComplexTable<>::tolerance())) {
          viol("lookup: two entries for numbers within the tolerance");
        }
      }
    }
    out(r);
  } else if (op == "all") { // everything built so far still means what it meant
    for (auto& [i, e] : vs) {
      walk(e, "later");
      (void)i;
    }
    for (auto& [i, e] : ms) {
      walk(e, "later");
      (void)i;
    }
    std::vector<C> cs;
    for (auto& [i, e] : vs) {
      const auto x = values(e);
      C s = 0;
      for (size_t j = 0; j < x.size(); ++j) {
        s += x[j] * std::polar(1., 0.37 * static_cast<double>(j));
      }
      cs.emplace_back(i);
      cs.push_back(s);
    }
    for (auto& [i, e] : ms) {
      const auto x = values(e);
      C s = 0;
      for (size_t j = 0; j < x.size(); ++j) {
        s += x[j] * std::polar(1., 0.37 * static_cast<double>(j));
      }
      cs.emplace_back(i);
      cs.push_back(s);
    }
    out(cs);
  } else if (op == "tables") { // every stored node is where its hash says, once
    unsigned long c = 0;
    const auto scan = [&](auto& table, const char* what) {
      int line = 0;
      for (const auto& t : table.getTables()) {
        for (size_t key = 0; key < t.size(); ++key) {
          for (auto* p = t[key]; p != nullptr; p = p->next) {
            ++c;
            if (p->varIndx != line) {
              viol(std::string(what) + ": a node is stored under another line");
            }
            if (table.hash(p) != key) {
              viol(std::string(what) + ": a stored node was changed afterwards");
            }
            for (auto* q = p->next; q != nullptr; q = q->next) {
              if (q->edges == p->edges) {
                viol(std::string(what) + ": a node is stored twice");
              }
            }
          }
        }
        ++line;
      }
      if (c > 5000000) {
        viol(std::string(what) + ": the table has a cycle");
      }
    };
    scan(pkg->vUniqueTable, "vector nodes");
    scan(pkg->mUniqueTable, "matrix nodes");
    checks += c;
    out({C(static_cast<double>(c), 0), C(static_cast<double>(pkg->vUniqueTable.getNodeCount() + pkg->mUniqueTable.getNodeCount()), 0)});
    // the numbers: counted rightly, in order, each in the bucket of its value
    unsigned long k = 0;
    scanNumbers(pkg->complexNumber, k);
    checks += k;
  } else if (op == "numbers") { // a table of its own, with references taken, given back and collected
    unsigned seed = 0;
    int n = 0;
    in >> seed >> n;
    std::mt19937 gen(seed);
    auto cn = std::make_unique<dd::ComplexNumbers>();
    using T = dd::ComplexTable<>;
    std::map<dd::CTEntry*, std::pair<fp, int>> model; // entry -> value and references
    std::vector<dd::Complex> held;
    unsigned long collected = 0;
    const auto fixed = [](const dd::CTEntry* e) { return e == &T::zero || e == &T::one || e == &T::sqrt2_2; };
    const auto part = [](dd::CTEntry* e) { return dd::CTEntry::getAlignedPointer(e); };
    std::map<fp, int> halves;
    for (int i = 0; i < n; ++i) {
      const int what = static_cast<int>(gen() % 16);
      if (what < 9) {
        const auto draw = [&gen, seed]() -> fp {
          // around a few borders of buckets, within the tolerance of each other and farther
          const fp border = (static_cast<fp>(100 * (gen() % 12) + seed % 60000) + 0.5) / static_cast<fp>(T::MASK);
          const fp off = (static_cast<fp>(gen() % 41) - 20.) * (gen() % 2 == 0 ? 2e-14 : 1e-9);
          const fp x = gen() % 3 != 0 ? border + off : static_cast<fp>(gen() % 1000000) / 900001.;
          const fp special[] = {0., 1., 0.5, dd::SQRT2_2};
          const fp y = gen() % 8 == 0 ? special[gen() % 4] : x;
          return gen() % 2 == 0 ? y : -y;
        };
        const fp r = draw(), m = draw();
        auto c = cn->lookup(r, m);
        if (std::abs(dd::CTEntry::val(c.real) - r) > 2 * T::tolerance() || std::abs(dd::CTEntry::val(c.img) - m) > 2 * T::tolerance()) {
          viol("numbers: another number comes back");
        }
        if (gen() % 2 == 0) {
          dd::ComplexNumbers::incRef(c);
          held.push_back(c);
          if (c != dd::Complex::one && c != dd::Complex::zero) {
            for (auto* e : {part(c.real), part(c.img)}) {
              if (!fixed(e)) {
                auto& x = model[e];
                x.first = e->value;
                ++x.second;
              }
            }
          }
        }
      } else if (what < 14) {
        if (!held.empty()) {
          const auto at = gen() % held.size();
          const auto c = held[at];
          held[at] = held.back();
          held.pop_back();
          dd::ComplexNumbers::decRef(c);
          if (c != dd::Complex::one && c != dd::Complex::zero) {
            for (auto* e : {part(c.real), part(c.img)}) {
              if (!fixed(e) && --model[e].second == 0) {
                model.erase(e);
              }
            }
          }
        }
      } else {
        unsigned long before = 0, after = 0;
        scanNumbers(*cn, before);
        const bool force = gen() % 3 != 0;
        const auto gone = cn->garbageCollect(force);
        collected += gone;
        scanNumbers(*cn, after);
        if (before - after != gone) {
          viol("numbers: more or fewer are collected than said");
        }
        if (force || gone != 0) {
          // 0.5 is kept for good
          unsigned long want = 1;
          for (const auto& [e, x] : model) {
            want += e->value == 0.5 ? 0U : 1U;
            (void)x;
          }
          if (after != want) {
            viol("numbers: not exactly those without reference are collected");
          }
        }
      }
      for (const auto& [e, x] : model) {
        if (e->value != x.first || static_cast<int>(e->refCount) != x.second + (x.first == 0.5 ? 1 : 0)) {
          viol("numbers: one that is referenced changed");
          break;
        }
      }
    }
    for (const auto& [e, x] : model) {
      if (part(cn->lookup(x.first, 0.).real) != e) {
        viol("numbers: one that is referenced is not found again");
        break;
      }
    }
    const auto kept = model.size();
    // outgrow the first block, then back to the beginning
    for (int i = 1; n > 1000 && i < 3000; ++i) {
      (void)cn->lookup(static_cast<fp>(i) / 3001., 0.);
    }
    for (int i = 0; i < 3; ++i) {
      (void)cn->getCached(0.1, 0.2);
    }
    if (cn->cacheCount() != 6) {
      viol("numbers: numbers taken from the cache are miscounted");
    }
    cn->clear();
    unsigned long left = 0;
    scanNumbers(*cn, left);
    for (int i = 1; n > 1000 && i < 4000; ++i) {
      const fp x = static_cast<fp>(i) / 4001.;
      if (cn->lookup(x, 0.).real->value != x) {
        viol("numbers: another number comes back after clearing the table");
        break;
      }
      (void)cn->getCached(x, x);
    }
    const unsigned long cached = n > 1000 ? 2 * 3999 : 0;
    const auto again = cn->lookup(0.3, -0.7);
    if (left != 0 || cn->cacheCount() != cached || std::abs(num(again) - C(0.3, -0.7)) > 1e-12 || cn->lookup(0.3, -0.7) != again) {
      viol("numbers: clearing the table leaves something behind");
    }
    bool refused = false;
    try {
      dd::ComplexNumbers::decRef(again);
    } catch (const std::runtime_error&) {
      refused = true;
    }
    if (!refused) {
      viol("numbers: a reference is given back that was not taken");
    }
    ++checks;
    out({C(static_cast<double>(kept), static_cast<double>(collected))});
  } else if (op == "statics") { // the shared constants keep their values
    out({num(dd::Complex::one), num(dd::Complex::zero), C(dd::ComplexTable<>::sqrt2_2.value, 0),
         C(P::vNode::terminalNode.varIndx == -1 && P::mNode::terminalNode.varIndx == -1 && P::mNode::terminalNode.identity &&
               P::mNode::terminalNode.symmetric,
           0)});
  } else if (op == "cache") {
    out({C(static_cast<double>(pkg->complexNumber.cacheCount()), 0)});
  } else if (op == "stats") {
    out({C(static_cast<double>(nodesSeen), 0), C(static_cast<double>(sharedSeen), 0), C(static_cast<double>(checks), 0)});
  } else {
    throw std::logic_error("no such command: " + op);
  }
}

int main(int argc, char** argv) {
  std::ifstream file;
  if (argc > 1) {
    file.open(argv[1]);
  }
  std::istream& src = argc > 1 ? file : std::cin;
  std::string line;
  while (std::getline(src, line)) {
    std::istringstream in(line);
    try {
      silent(run, in);
    } catch (const std::logic_error& e) {
      std::printf("E logic %s\n", e.what());
    } catch (const std::exception& e) {
      std::printf("E other %s\n", e.what());
    }
    std::printf(".\n");
    std::fflush(stdout);
  }
  return 0;
}
