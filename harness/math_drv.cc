// Programs of vector, sparse vector and matrix operations; logs what every handle shows after each of them.
#include <sol/math/matrix.h>
#include <sol/math/vector.h>
#include <sol/math/sparse_vector.h>
#include <sstream>
#include <stdexcept>
#include "isolate.h"
using namespace sol::math;
using namespace sol::math::expr;
using std::string;
typedef Vector<float> V; typedef SVector<float> S; typedef Matrix<float> M;

template <class C> static string Nums(const C& c, size_t n) { string s = "["; for (size_t i = 0; i < n; ++i) s += iso::F("%s%d", i ? "," : "", iso::Bits(c[i])); return s + "]"; }

template <class D, class X> static void Put(D& d, char op, const X& x) {
  switch (op) { case '+': d += x; break; case '-': d -= x; break; case '*': d *= x; break; case '/': d /= x; break; default: d.assign(x); }
}

static void Case(const string& line) {
  V v[4]; S s[2]; M m[2];
  for (auto& x : v) x.resize(0);
  for (auto& x : s) x.clear();
  for (auto& x : m) x.resize({1, 0});
  std::istringstream in(line);
  string tok;
  while (in >> tok) {
    // name,op,i,j,k,n,x
    char name[16]; char op = 0; int i = 0, j = 0, k = 0, n = 0; float x = 0;
    if (sscanf(tok.c_str(), "%15[a-z0-9],%c,%d,%d,%d,%d,%f", name, &op, &i, &j, &k, &n, &x) != 7) throw std::logic_error("bad op " + tok);
    string a = name; using namespace sol::math::expr;
    bool skip = false, thrown = false; float ret = 0; string text = "[]";
    try {
      if (a == "vnew") v[i] = V(n);
      else if (a == "vctor") { V t(v[j]); v[i] = t; }
      else if (a == "vcopy") v[i] = v[j];
      else if (a == "vcopyto") v[i].copyto(v[j]);
      else if (a == "vset") { if ((size_t)n < v[i].size()) v[i][n] = x; else skip = true; }
      else if (a == "push") v[i].push_back(x);
      else if (a == "pop") v[i].pop_back();
      else if (a == "resize") v[i].resize(n);
      else if (a == "clear") v[i].clear();
      else if (a == "fill") { if ((size_t)n <= v[i].size()) v[i].slice_op([x](float& e) { e = x; }, n); else skip = true; }
      else if (a == "fillto") { if ((size_t)k <= (size_t)n && (size_t)n <= v[i].size()) v[i].slice_op([x](float& e) { e += x; }, k, n); else skip = true; }
      else if (a == "vs") { if (op == '=') v[i] = x; else Put(v[i], op, x); }
      else if (a == "vv") { if (v[j].size()) Put(v[i], op, v[j]); else skip = true; }
      else if (a == "lin") { if (v[j].size() && v[k].size()) Put(v[i], op, x * v[j] + v[k]); else skip = true; }
      else if (a == "l2m") { if (v[j].size() && v[k].size()) Put(v[i], op, L2(v[j]) - v[k]); else skip = true; }
      else if (a == "tv") { if (v[j].size() && v[k].size()) Put(v[i], op, truncate(v[j], L1(v[k]))); else skip = true; }
      else if (a == "tru") { if (v[j].size()) Put(v[i], op, truncate(v[j], x)); else skip = true; }
      else if (a == "sqr") { if (v[j].size()) Put(v[i], op, Sqrt(L1(v[j]))); else skip = true; }
      else if (a == "sub") { if (v[j].size()) Put(v[i], op, x - v[j]); else skip = true; }
      else if (a == "vmul") { if (v[j].size() && v[k].size()) Put(v[i], op, v[j] * v[k]); else skip = true; }
      else if (a == "vdiv") { if (v[j].size() && v[k].size()) Put(v[i], op, v[j] / v[k]); else skip = true; }
      else if (a == "vsub") { if (v[j].size() && v[k].size()) Put(v[i], op, v[j] - v[k]); else skip = true; }
      else if (a == "vxs") { if (v[j].size()) Put(v[i], op, v[j] / x); else skip = true; }
      else if (a == "xv") { if (v[j].size()) Put(v[i], op, x / v[j]); else skip = true; }
      else if (a == "pls") { if (v[j].size()) Put(v[i], op, v[j] + x); else skip = true; }
      else if (a == "adag") { if (v[j].size() && v[k].size()) Put(v[i], op, v[j] / (Sqrt(L1(v[k])) + x)); else skip = true; }
      else if (a == "strk") Put(v[i], op, truncate(s[j], x));
      else if (a == "ssq") Put(v[i], op, Sqrt(L1(s[j])));
      else if (a == "spl") Put(v[i], op, s[j] + x);
      else if (a == "smi") Put(v[i], op, x - s[j]);
      else if (a == "dsd") { if (v[k].size() >= v[i].size()) Put(v[i], op, v[k] - s[j]); else skip = true; }
      else if (a == "sdd") { if (v[k].size() >= v[i].size()) Put(v[i], op, s[j] / v[k]); else skip = true; }
      else if (a == "stv") { if (v[k].size() >= v[i].size()) Put(v[i], op, truncate(v[k], L1(s[j]))); else skip = true; }
      else if (a == "cs") Put(v[i], op, x * s[j]);
      else if (a == "s2") Put(v[i], op, L2(s[j]) / x);
      else if (a == "sl") { if (v[k].size() >= v[i].size()) Put(v[i], op, v[k].slice(s[j]) * x); else skip = true; }
      else if (a == "sd") { if (v[k].size() >= v[i].size()) Put(v[i], op, s[j] * v[k]); else skip = true; }
      else if (a == "dot") { if (v[i].size() && v[j].size()) ret = dotmul(v[i], v[j]); else skip = true; }
      else if (a == "dpl") { if (v[i].size() && v[j].size()) ret = dotplus(v[i], v[j]); else skip = true; }
      else if (a == "dmi") { if (v[i].size() && v[j].size()) ret = dotminus(v[i], v[j]); else skip = true; }
      else if (a == "ddv") { if (v[i].size() && v[j].size()) ret = dotdiv(v[i], v[j]); else skip = true; }
      else if (a == "red") { if (v[i].size()) ret = reduce<op::plus>(v[i]); else skip = true; }
      else if (a == "rede") { if (v[i].size() && v[j].size()) ret = reduce<op::plus>(v[i] * v[j]); else skip = true; }
      else if (a == "back") { if (v[i].size()) { const V& c = v[i]; ret = c.back(); if (c.back() != v[i].back()) ret = x; } else skip = true; }
      else if (a == "front") { if (v[i].size()) { const V& c = v[i]; ret = c.front(); if (c.front() != v[i].front()) ret = x; } else skip = true; }
      else if (a == "each") { const V& c = v[i]; if ((size_t)n <= c.size()) c.slice_op([&ret](const float& e) { ret += e; }, n); else skip = true; }
      else if (a == "vreserve") { if ((size_t)n >= v[i].capacity()) v[i].reserve(n); else skip = true; }
      else if (a == "dots") ret = dotmul(v[i], s[j]);
      else if (a == "n1") ret = Norm1(v[i]);
      else if (a == "n2") ret = Norm2(v[i]);
      else if (a == "n1s") ret = Norm1(s[j]);
      else if (a == "n2s") ret = Norm2(s[j]);
      else if (a == "spush") s[j].push_back((sol::index_t)n, x);
      else if (a == "sclear") s[j].clear();
      else if (a == "scopy") s[j] = s[k];
      else if (a == "sctor") { S t(s[k]); s[j] = t; }
      else if (a == "sop") Put(s[j], op, x);
      else if (a == "mnew") m[i] = M({(size_t)n, (size_t)k});
      else if (a == "mresize") m[i].resize({(size_t)n, (size_t)k});
      else if (a == "mcopy") m[i] = m[j];
      else if (a == "mcopyto") m[i].copyto(m[j]);
      else if (a == "mset") { if ((size_t)n < m[i].rows() && (size_t)k < m[i].cols()) m[i](k, n) = x; else skip = true; }
      else if (a == "mget") { if ((size_t)n < m[i].rows() && (size_t)k < m[i].cols()) { const M& c = m[i]; ret = c(k, n); } else skip = true; }
      else if (a == "mex") { if ((size_t)n < m[i].rows() && (size_t)k < m[i].cols()) ret = (m[i] * x)(k, n); else skip = true; }
      else if (a == "ms") { if (op == '=') m[i] = x; else Put(m[i], op, x); }
      else if (a == "mm") { if (m[j].size()) Put(m[i], op, m[j]); else skip = true; }
      else if (a == "mlin") { if (m[j].size()) Put(m[i], op, x * m[j] + m[j]); else skip = true; }
      else if (a == "text") {
        std::stringstream ss; ss << v[i];
        V t(v[i].size());
        if (v[i].size()) ss >> t; else if (ss.str() != "[]") ret = 1;
        if (!ss) ret = 2;
        text = Nums(t, t.size());
      }
      else throw std::logic_error("unknown " + a);
    } catch (std::logic_error&) { throw; } catch (std::runtime_error&) { thrown = true; }
    if (skip) continue;
    string ev = iso::F("{\"e\":\"op\",\"name\":\"%s\",\"op\":\"%c\",\"i\":%d,\"j\":%d,\"k\":%d,\"n\":%d,\"x\":%d,\"thr\":%s,\"ret\":%d,\"text\":%s,\"v\":[",
                       name, op, i + 1, j + 1, k + 1, n, iso::Bits(x), thrown ? "true" : "false", iso::Bits(ret), text.c_str());
    for (int h = 0; h < 4; ++h) ev += string(h ? "," : "") + Nums(v[h], v[h].size());
    ev += "],\"s\":[";
    for (int h = 0; h < 2; ++h) {
      ev += string(h ? "," : "") + "{\"i\":[";
      for (size_t q = 0; q < s[h].size(); ++q) ev += iso::F("%s%u", q ? "," : "", (unsigned)s[h].index(q));
      ev += "],\"v\":" + Nums(s[h].values(), s[h].size()) + iso::F(",\"dim\":%u}", (unsigned)s[h].dim());
    }
    ev += "],\"m\":[";
    for (int h = 0; h < 2; ++h) ev += string(h ? "," : "") + iso::F("{\"r\":%zu,\"c\":%zu,\"d\":", m[h].rows(), m[h].cols()) + Nums(m[h], m[h].size()) + "}";
    iso::Ev(ev + "]}");
  }
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  return iso::Run(argv[1], argv[2], 20, Case);
}
