#include "h.h"
#include <algorithm>
#include <numeric>
#include <list>
#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
#include "NdArray/src/Operations.cpp"
using Euclid::NdArray::NdArray;
using V = std::vector<size_t>;
using H::str;
static size_t prod(const V& s) { size_t p = 1; for (auto x : s) p *= x; return p; }
// reference: an array is a list of flat positions into a data vector, in row-major order of its own shape
template <typename T> struct Ref {
  std::shared_ptr<std::vector<T>> data; V shape; std::vector<size_t> pos; std::vector<std::string> names;
};
static size_t rm(const V& shape, const V& c) { size_t r = 0; for (size_t i = 0; i < shape.size(); ++i) r = r * shape[i] + c[i]; return r; }
static V unrm(size_t i, const V& shape) { V c(shape.size()); for (size_t k = shape.size(); k-- > 0;) { c[k] = i % shape[k]; i /= shape[k]; } return c; }
template <typename F> static void coords(const V& shape, F f) { size_t n = prod(shape); for (size_t i = 0; i < n; ++i) f(unrm(i, shape), i); }
static std::vector<V> shapes() {
  std::vector<V> r;
  size_t e = H::thorough() ? 4 : 3;
  for (size_t n = 1; n <= 4; ++n) {
    size_t tot = 1; for (size_t i = 0; i < n; ++i) tot *= (n == 4 && !H::thorough() ? 3 : e + 1);
    size_t b = n == 4 && !H::thorough() ? 3 : e + 1;
    for (size_t x = 0; x < tot; ++x) { V s; size_t y = x; for (size_t i = 0; i < n; ++i) { s.push_back(y % b); y /= b; } r.push_back(s); }
  }
  for (auto p : H::pool(0, 40)) for (size_t q : {1, 2, 3}) { r.push_back({(size_t)p}); r.push_back({(size_t)p, q}); r.push_back({q, (size_t)p}); r.push_back({q, (size_t)p, 2}); }
  for (auto p : H::pool(41, 3000)) r.push_back({(size_t)p});
  r.push_back({2, 1, 2, 1, 2}); r.push_back({2, 2, 2, 2, 2, 2}); r.push_back({1, 1, 1, 1, 1, 1, 1}); r.push_back({3, 2, 1, 2, 3, 2, 1, 2}); r.push_back({17}); r.push_back({16, 33}); r.push_back({100, 3}); r.push_back({257});
  r.push_back({2,1,1,2,1,1,1,2,1,1,1,3});
  return r;
}
template <typename T> static std::vector<T> fill(size_t n, int k) { std::vector<T> d(n); for (size_t i = 0; i < n; ++i) d[i] = T(1 + i * 3 + k); return d; }
template <typename T, typename A> static T& at_n(A& a, const V& c) {
  switch (c.size()) { case 1: return a.at(c[0]); case 2: return a.at(c[0], c[1]); case 3: return a.at(c[0], c[1], c[2]); case 4: return a.at(c[0], c[1], c[2], c[3]); default: return a.at(c); }
}
template <typename T> static void compare(NdArray<T>& a, const Ref<T>& r, const char* w, bool bads = false) {
  const NdArray<T>& ca = a;
  H::eq(str(a.shape()), str(r.shape), (std::string(w) + ": shape").c_str());
  H::eq(a.size(), r.pos.size(), (std::string(w) + ": size").c_str());
  H::eq(str(a.attributes()), str(r.names), (std::string(w) + ": attributes").c_str());
  coords(r.shape, [&](const V& c, size_t i) {
    T e = (*r.data)[r.pos[i]];
    if (!(a.at(c) == e) || !(ca.at(c) == e)) H::fail(std::string(w) + ": at(" + str(c) + ") got " + std::to_string(a.at(c)) + " expected " + std::to_string(e));
    if (c.size() <= 4 && (!(at_n<T>(a, c) == e) || !(at_n<const T>(ca, c) == e))) H::fail(std::string(w) + ": at(i,j,...)" + str(c));
  });
  if (!(bads || H::below(10) == 0)) return;
  // every bad coordinate is refused
  for (size_t k = 0; k < r.shape.size(); ++k) {
    V c(r.shape.size(), 0); 
    for (size_t bad : {r.shape[k], r.shape[k] + 1, size_t(-1)}) { c[k] = bad; H::throws<std::out_of_range>([&] { ca.at(c); }, true, (std::string(w) + ": at with an axis out of bounds").c_str());
      H::throws<std::out_of_range>([&] { a.at(c); }, true, (std::string(w) + ": at with an axis out of bounds").c_str());
      for (size_t j = 0; j < r.shape.size(); ++j) if (j != k && r.shape[j] > 0) { V d = c; d[j] = r.shape[j] - 1; H::throws<std::out_of_range>([&] { ca.at(d); }, true, (std::string(w) + ": at with an axis out of bounds").c_str()); } }
  }
  V lc(r.shape.size() + 1, 0), sc(r.shape.size() - 1, 0);
  H::throws<std::out_of_range>([&] { a.at(lc); }, true, "at with too many coordinates");
  H::throws<std::out_of_range>([&] { a.at(sc); }, true, "at with too few coordinates");
  H::throws<std::out_of_range>([&] { ca.at(lc); }, true, "at with too many coordinates");
  H::throws<std::out_of_range>([&] { ca.at(sc); }, true, "at with too few coordinates");
}
template <typename T> static Ref<T> mk(const V& s, const std::vector<T>& d) { Ref<T> r; r.data = std::make_shared<std::vector<T>>(d); r.shape = s; r.pos.resize(d.size()); std::iota(r.pos.begin(), r.pos.end(), 0); return r; }
// writes through at() reach exactly one element
template <typename T> static void writes(NdArray<T>& a, Ref<T>& r) {
  size_t n = r.pos.size(); if (n == 0) return;
  for (size_t t = 0; t < std::min<size_t>(n, 6); ++t) {
    size_t i = t < 2 ? (t ? n - 1 : 0) : H::below(n);
    T v = T(5000 + H::below(1000));
    a.at(unrm(i, r.shape)) = v; (*r.data)[r.pos[i]] = v;
    coords(r.shape, [&](const V& c, size_t k) { if (!(a.at(c) == (*r.data)[r.pos[k]])) H::fail("write through at(" + str(unrm(i, r.shape)) + ") changed/missed element " + str(c)); });
  }
}
template <typename T> static void addressing() {
  for (auto& s : shapes()) {
    size_t n = prod(s);
    auto d = fill<T>(n, 0);
    H::input("shape " + str(s) + " data 1,4,7..", n > 1);
    NdArray<T> a(s, d); auto r = mk<T>(s, d); compare(a, r, "NdArray(shape,data)", true); writes(a, r);
    if (!d.empty()) { H::eq(d[0], fill<T>(n, 0)[0], "constructor copies the data"); }
    NdArray<T> z(s); auto rz = mk<T>(s, std::vector<T>(n)); compare(z, rz, "NdArray(shape)"); writes(z, rz);
    auto dm = d; NdArray<T> m(s, std::move(dm)); auto rmv = mk<T>(s, d); compare(m, rmv, "NdArray(shape,data&&)");
    NdArray<T> it(s, d.begin(), d.end()); auto ri = mk<T>(s, d); compare(it, ri, "NdArray(shape,begin,end)");
    std::vector<T> lg(d); lg.push_back(T(1)); std::vector<T> shrt(d); if (n) shrt.pop_back();
    H::throws<std::invalid_argument>([&] { NdArray<T> x(s, lg); }, true, "NdArray with too much data");
    H::throws<std::invalid_argument>([&] { NdArray<T> x(s, lg.begin(), lg.end()); }, true, "NdArray with too much data (iterators)");
    { auto l2 = lg; H::throws<std::invalid_argument>([&] { NdArray<T> x(s, std::move(l2)); }, true, "NdArray with too much data (moved)"); }
    if (n) { H::throws<std::invalid_argument>([&] { NdArray<T> x(s, shrt); }, true, "NdArray with too little data");
      H::throws<std::invalid_argument>([&] { NdArray<T> x(s, shrt.begin(), shrt.end()); }, true, "NdArray with too little data (iterators)");
      auto s2 = shrt; H::throws<std::invalid_argument>([&] { NdArray<T> x(s, std::move(s2)); }, true, "NdArray with too little data (moved)"); }
    // names
    if (n < 600) for (size_t k : {1, 2, 3, 5}) {
      std::vector<std::string> names; for (size_t j = 0; j < k; ++j) names.push_back(std::string(1, char('A' + j)) + (j % 2 ? "x" : ""));
      V s2 = s; s2.push_back(k);
      auto d2 = fill<T>(n * k, 7);
      H::input("shape " + str(s) + " names " + str(names), n > 0);
      NdArray<T> b(s, names, d2); auto rb = mk<T>(s2, d2); rb.names = names; compare(b, rb, "NdArray(shape,names,data)");
      NdArray<T> b0(s, names); auto rb0 = mk<T>(s2, std::vector<T>(n * k)); rb0.names = names; compare(b0, rb0, "NdArray(shape,names)");
      const NdArray<T>& cb = b;
      coords(s, [&](const V& c, size_t i) { for (size_t j = 0; j < k; ++j) {
        T e = d2[i * k + j];
        if (!(b.at(c, names[j]) == e) || !(cb.at(c, names[j]) == e)) H::fail("at(" + str(c) + "," + names[j] + ")");
        if (c.size() == 1 && !(b.at(c[0], names[j]) == e)) H::fail("at(i,name)");
        if (c.size() == 2 && !(b.at(c[0], c[1], names[j]) == e)) H::fail("at(i,j,name)");
      } });
      if (n) { V c0(s.size(), 0); b.at(c0, names[k - 1]) = T(777); H::eq(b.at([&] { V q = c0; q.push_back(k - 1); return q; }()), T(777), "write through an attribute name"); }
      for (std::string bad : {"", "nope", "a", "A ", "AB"}) if (std::find(names.begin(), names.end(), bad) == names.end())
        H::throws<std::out_of_range>([&] { cb.at(V(s.size(), 0), bad); }, true, "at with an unknown attribute");
      for (size_t q = 0; q < s.size(); ++q) { V c(s.size(), 0); c[q] = s[q]; H::throws<std::out_of_range>([&] { cb.at(c, names[0]); }, true, "at(coords,name) out of bounds"); H::throws<std::out_of_range>([&] { b.at(c, names[k-1]); }, true, "at(coords,name) out of bounds"); }
      H::throws<std::out_of_range>([&] { b.at(V(s.size() + 1, 0), names[0]); }, true, "at(coords,name) with too many coordinates");
      H::throws<std::out_of_range>([&] { b.at(V(s.size() - 1, 0), names[0]); }, true, "at(coords,name) with too few coordinates");
      auto lg2 = d2; lg2.push_back(T(1));
      H::throws<std::invalid_argument>([&] { NdArray<T> x(s, names, lg2); }, true, "named array with too much data");
    }
  }
  // duplicated names: the first wins
  NdArray<T> dup(V{2}, std::vector<std::string>{"a", "b", "a"}, fill<T>(6, 0));
  H::input("duplicated attribute names"); H::eq(dup.at(V{1}, "a"), T(1 + 3 * 3), "first attribute of that name");
  NdArray<T> il{{2, 3}}; H::eq(il.size(), size_t(6), "initializer_list shape");
}
template <typename T> static void iter_check(NdArray<T>& a, const Ref<T>& r, const char* w) {
  size_t i = 0; const NdArray<T>& ca = a; size_t n = r.pos.size();
  for (auto it = a.begin(); it != a.end(); ++it, ++i) { if (i >= n) H::fail(std::string(w) + ": iteration goes past the last element"); if (!(*it == (*r.data)[r.pos[i]])) H::fail(std::string(w) + ": iteration order at " + std::to_string(i)); }
  H::eq(i, n, (std::string(w) + ": number of elements iterated").c_str());
  i = 0; for (auto& v : ca) { if (i >= n) H::fail("const iteration goes past the end"); if (!(v == (*r.data)[r.pos[i]])) H::fail(std::string(w) + ": const iteration order"); ++i; }
  H::eq(i, n, (std::string(w) + ": number of elements const-iterated").c_str());
  H::eq((size_t)(a.end() - a.begin()), n, "end()-begin()");
  auto it = ca.begin();
  for (i = 0; i < n; ++i) {
    T e = (*r.data)[r.pos[i]];
    H::check(ca.begin()[i] == e && a.begin()[i] == e, std::string(w) + ": begin()[i]");
    { auto b = ca.begin(); H::check(*(b + i) == e, std::string(w) + ": *(begin()+i)"); auto en = ca.end(); H::check(*(en - (n - i)) == e, std::string(w) + ": *(end()-n)"); 
      auto b2 = a.begin(); b2 += i; H::check(*b2 == e, "+="); auto e2 = a.end(); e2 -= (n - i); H::check(*e2 == e, "-="); H::check(b2 == e2 && !(b2 != e2), "iterator ==");
      H::eq((long)(b2 - a.begin()), (long)i, "iterator difference"); H::check(!(a.end() < b2) && b2 < a.end() && a.end() > b2, "iterator order"); 
      if (i) { H::check(a.begin() < b2 && b2 > a.begin() && b2 != a.begin(), "iterator order"); } }
    { const auto cit = ca.begin() + i; const auto mit = a.begin() + i; H::check(*cit == e && cit[0] == e && *mit == e && mit[0] == e, std::string(w) + ": reading through a const iterator");
      if (i + 1 < n) { T e1 = (*r.data)[r.pos[i + 1]], el = (*r.data)[r.pos[n - 1]]; H::check(cit[1] == e1 && mit[1] == e1 && cit[n - 1 - i] == el && mit[n - 1 - i] == el, std::string(w) + ": const iterator [k]");
        auto m2 = a.begin() + i; auto c2 = ca.begin() + i; H::check(m2[1] == e1 && c2[1] == e1 && m2[n - 1 - i] == el && c2[n - 1 - i] == el, std::string(w) + ": iterator [k]"); } }
    { auto p = a.begin() + i; auto& pr = ++p; H::check(&pr == &p && p - a.begin() == (long)i + 1, "++it"); auto& q = (p -= 1); H::check(&q == &p && *p == e, "-= returns the iterator"); auto& q2 = (p += 1); H::check(&q2 == &p, "+= returns the iterator"); }
    auto old = it++; H::check(*old == e, std::string(w) + ": it++ returns the previous position");
  }
  H::check(it == ca.end(), "it++ reaches end()");
  if (n) { auto k = H::below(n); *(a.begin() + k) = T(4242); H::check(a.at(unrm(k, r.shape)) == T(4242), std::string(w) + ": write through an iterator"); a.at(unrm(k, r.shape)) = (*r.data)[r.pos[k]]; }
}
template <typename T> static void ops(NdArray<T> a, Ref<T> r, int depth, std::string hist, bool iters) {
  H::input(hist, r.pos.size() > 1);
  compare(a, r, "view", depth > 0); if (iters) iter_check(a, r, "view");
  if (depth == 0) { writes(a, r); return; }
  const NdArray<T>& ca = a;
  if (r.shape.size() > 1) {
    size_t sub = prod(V(r.shape.begin() + 1, r.shape.end()));
    for (size_t i = 0; i < r.shape[0]; ++i) { if (r.shape[0] > 4 && i > 1 && i + 1 < r.shape[0]) continue;
      Ref<T> q; q.data = r.data; q.shape = V(r.shape.begin() + 1, r.shape.end()); q.names = r.names; for (size_t j = 0; j < sub; ++j) q.pos.push_back(r.pos[i * sub + j]);
      ops<T>(a.slice(i), q, depth - 1, hist + " slice(" + std::to_string(i) + ")", iters);
      NdArray<T> cs = ca.slice(i); compare(cs, q, "const slice"); }
    size_t last = r.shape.back(), outer = prod(V(r.shape.begin(), r.shape.end() - 1));
    for (size_t i = 0; i < last; ++i) { if (last > 4 && i > 1 && i + 1 < last) continue;
      Ref<T> q; q.data = r.data; q.shape = V(r.shape.begin(), r.shape.end() - 1); for (size_t j = 0; j < outer; ++j) q.pos.push_back(r.pos[j * last + i]);
      ops<T>(a.rslice(i), q, depth - 1, hist + " rslice(" + std::to_string(i) + ")", iters);
      NdArray<T> cs = ca.rslice(i); compare(cs, q, "const rslice"); }
  }
  for (size_t bad : {r.shape[0], r.shape[0] + 3, size_t(-1)}) { H::throws<std::out_of_range>([&] { a.slice(bad); }, true, "slice out of bounds"); H::throws<std::out_of_range>([&] { ca.slice(bad); }, true, "slice out of bounds"); }
  for (size_t bad : {r.shape.back(), r.shape.back() + 3, size_t(-1)}) { H::throws<std::out_of_range>([&] { a.rslice(bad); }, true, "rslice out of bounds"); H::throws<std::out_of_range>([&] { ca.rslice(bad); }, true, "rslice out of bounds"); }
  if (r.shape.size() == 1) { H::throws<std::out_of_range>([&] { a.slice(0); }, true, "slice of a 1d array"); H::throws<std::out_of_range>([&] { a.rslice(0); }, true, "rslice of a 1d array"); }
  // reshape
  size_t n = r.pos.size();
  std::vector<V> targets{{n}, {1, n}, {n, 1}, {1, n, 1}};
  for (size_t d = 2; d <= 5; ++d) if (n % d == 0) { targets.push_back({d, n / d}); targets.push_back({n / d, d}); if ((n / d) % 2 == 0) targets.push_back({d, 2, n / d / 2}); }
  { V rev(r.shape.rbegin(), r.shape.rend()); targets.push_back(rev); }
  for (auto& t : targets) {
    NdArray<T> b(a); // shares the data, own geometry
    if (!r.names.empty()) { H::throws<std::invalid_argument>([&] { b.reshape(t); }, true, "reshape of an array with attribute names"); compare(b, r, "after refused reshape"); continue; }
    NdArray<T>& res = b.reshape(t); H::check(&res == &b, "reshape returns the array itself");
    Ref<T> q = r; q.shape = t; ops<T>(b, q, depth - 1, hist + " reshape(" + str(t) + ")", iters);
    NdArray<T> c(a); if (t.size() == 1) c.reshape(t[0]); if (t.size() == 2) c.reshape(t[0], t[1]); if (t.size() == 3) c.reshape(t[0], t[1], t[2]);
    if (t.size() <= 3) compare(c, q, "reshape(i,j,..)");
  }
  if (r.names.empty()) { NdArray<T> b(a); for (V t : {V{n + 1}, V{n, 2}, V{2, n + 1}, V{3, n}}) if (prod(t) != n) { H::throws<std::range_error>([&] { b.reshape(t); }, true, "reshape to another number of elements"); compare(b, r, "after refused reshape"); } }
  compare(a, r, "original after operations on copies");
  // copy
  NdArray<T> c = ca.copy(); Ref<T> q = r; q.data = std::make_shared<std::vector<T>>(*r.data);
  compare(c, q, "copy"); if (iters) iter_check(c, q, "copy");
  H::check(c == a && !(c != a), "a copy compares equal");
  if (n) { size_t i = H::below(n); c.at(unrm(i, r.shape)) = T(31337); (*q.data)[q.pos[i]] = T(31337); compare(c, q, "written copy"); compare(a, r, "original after writing to the copy"); 
           H::check(!(c == a) && c != a, "arrays that differ in one element compare different"); }
  if (n) { NdArray<T> sh(a); size_t i = H::below(n); T old = (*r.data)[r.pos[i]]; a.at(unrm(i, r.shape)) = T(999); (*r.data)[r.pos[i]] = T(999); compare(sh, r, "view sharing the data"); sh.at(unrm(i, r.shape)) = old; (*r.data)[r.pos[i]] = old; compare(a, r, "original after writing through a view"); }
}
template <typename T> static void views(bool iters) {
  auto ss = shapes();
  for (auto& s : ss) { size_t n = prod(s); if (n > 300) continue; int depth = n <= 12 ? 2 : 1; if (H::thorough() && n <= 36) depth = 2;
    ops<T>(NdArray<T>(s, fill<T>(n, 0)), mk<T>(s, fill<T>(n, 0)), depth, "NdArray" + str(s), iters);
    if (n <= 12) { std::vector<std::string> names{"x", "y"}; V s2 = s; s2.push_back(2); auto r = mk<T>(s2, fill<T>(2 * n, 0)); r.names = names;
      ops<T>(NdArray<T>(s, names, fill<T>(2 * n, 0)), r, 1, "NdArray" + str(s) + " names x,y", iters); } }
  // three-step view chains
  for (V s : {V{2, 3, 2}, V{3, 2, 2, 2}, V{2, 2, 3}, V{4, 3}, V{2, 6, 2}}) { size_t n = prod(s); ops<T>(NdArray<T>(s, fill<T>(n, 0)), mk<T>(s, fill<T>(n, 0)), H::thorough() ? 3 : 2, "NdArray" + str(s), iters); }
}
template <typename T> static void concat_eq() {
  auto ss = shapes();
  for (auto& s : ss) for (size_t k : {0, 1, 2, 3, 5}) {
    size_t n = prod(s); if (n > 2000) continue;
    V o = s; o[0] = k; size_t no = prod(o);
    H::input("concatenate " + str(s) + " with " + str(o), n && no);
    NdArray<T> a(s, fill<T>(n, 0)), b(o, fill<T>(no, 50));
    NdArray<T>& res = a.concatenate(b); H::check(&res == &a, "concatenate returns the array itself");
    V e = s; e[0] += k; H::eq(str(a.shape()), str(e), "concatenate: shape");
    auto d = fill<T>(n, 0); auto d2 = fill<T>(no, 50); d.insert(d.end(), d2.begin(), d2.end());
    coords(e, [&](const V& c, size_t i) { if (!(a.at(c) == d[i])) H::fail("concatenate: element " + str(c) + " got " + std::to_string(a.at(c)) + " expected " + std::to_string(d[i])); });
    if (no) { if (a.size() == n + no) {} else if (a.size() == n) H::known("concatenate-size", "size() and iteration still cover " + std::to_string(n) + " elements of " + std::to_string(n + no)); else H::fail("concatenate: size"); }
    compare(b, mk<T>(o, fill<T>(no, 50)), "argument of concatenate");
    if (no && k < 4) { NdArray<T> a2(s, fill<T>(n, 0)); V big = o; big.insert(big.begin(), 2); NdArray<T> bb(big, fill<T>(2 * no, 9)); auto sl = bb.slice(1); a2.concatenate(sl);
      auto dd = fill<T>(n, 0); auto f = fill<T>(2 * no, 9); dd.insert(dd.end(), f.begin() + no, f.end()); coords(e, [&](const V& c, size_t i) { if (!(a2.at(c) == dd[i])) H::fail("concatenate with a slice: element " + str(c)); });
      NdArray<T> a3(s, fill<T>(n, 0)); V big2 = o; big2.push_back(3); NdArray<T> b3(big2, fill<T>(3 * no, 9)); auto rs = b3.rslice(2); a3.concatenate(rs);
      dd = fill<T>(n, 0); f = fill<T>(3 * no, 9); for (size_t i = 0; i < no; ++i) dd.push_back(f[3 * i + 2]); coords(e, [&](const V& c, size_t i) { if (!(a3.at(c) == dd[i])) H::fail("concatenate with an rslice: element " + str(c)); }); }
    for (size_t ax = 1; ax < s.size(); ++ax) { V w = o; w[ax]++; NdArray<T> bad(w); NdArray<T> a4(s, fill<T>(n, 0)); H::throws<std::length_error>([&] { a4.concatenate(bad); }, true, "concatenate with a mismatching axis"); compare(a4, mk<T>(s, fill<T>(n, 0)), "after refused concatenate"); }
    { V w = s; w.push_back(1); NdArray<T> bad(w); NdArray<T> a4(s, fill<T>(n, 0)); H::throws<std::length_error>([&] { a4.concatenate(bad); }, true, "concatenate with more axes"); }
    // equality
    NdArray<T> x(s, fill<T>(n, 0)), y(s, fill<T>(n, 0)); H::check(x == y && !(x != y), "equal arrays compare equal");
    if (n) { for (size_t i : {size_t(0), n / 2, n - 1}) { NdArray<T> z(s, fill<T>(n, 0)); z.at(unrm(i, s)) = T(-1); H::check(!(x == z) && x != z, "arrays that differ at one element compare different"); } }
    V p = s; p.push_back(1); NdArray<T> w(p, fill<T>(n, 0)); H::check(!(x == w) && x != w, "different shapes compare different");
  }
}
static void operations() {
  for (auto& s : shapes()) {
    size_t n = prod(s);
    if (n <= 3000) {
      H::input("unravel_index over " + str(s), n > 1);
      for (size_t i = 0; i < n; ++i) { auto c = Euclid::NdArray::unravel_index(i, s); if (c != unrm(i, s)) H::fail("unravel_index(" + std::to_string(i) + "," + str(s) + ") gives " + str(c)); }
      for (size_t b : {n, n + 1, 2 * n + 1, size_t(-1), size_t(1) << 40, size_t(1) << 32}) if (b >= n) H::throws<std::out_of_range>([&] { Euclid::NdArray::unravel_index(b, s); }, true, ("unravel_index beyond the end: " + std::to_string(b)).c_str());
    }
    if (n > 700) continue;
    for (int variant = 0; variant < 3; ++variant) {
      std::vector<double> d(n); for (size_t i = 0; i < n; ++i) d[i] = variant == 0 ? double(i * 2 + 1) : variant == 1 ? (double)((i * 7919) % 31) - 15.5 : (double)H::below(5) - 2;
      NdArray<double> a(s, d);
      V big = s; big.push_back(2); std::vector<double> bd(2 * n); for (size_t i = 0; i < n; ++i) { bd[2 * i + 1] = d[i]; bd[2 * i] = 1e6; }
      NdArray<double> bg(big, bd); NdArray<double> view = bg.rslice(1);
      for (NdArray<double>* ap : {&a, &view}) {
        NdArray<double>& x = *ap;
        H::input(std::string(ap == &a ? "dense" : "view") + " array " + str(s) + " = " + (n < 30 ? str(d) : "..."), n > 1);
        double t = 0; for (auto v : d) t += v;
        H::near(Euclid::NdArray::sum(x), t, "sum of all elements");
        if (n) { size_t mx = std::max_element(d.begin(), d.end()) - d.begin(), mn = std::min_element(d.begin(), d.end()) - d.begin();
          auto cx = Euclid::NdArray::argmax(x), cn = Euclid::NdArray::argmin(x);
          H::eq(x.at(cx), d[mx], "argmax addresses a largest element"); H::eq(x.at(cn), d[mn], "argmin addresses a smallest element"); 
          H::eq(str(cx), str(unrm(mx, s)), "argmax"); H::eq(str(cn), str(unrm(mn, s)), "argmin"); }
        for (int ax = -(int)s.size(); ax < (int)s.size(); ++ax) {
          size_t k = ax < 0 ? s.size() + ax : ax; V os = s; os.erase(os.begin() + k); if (os.empty()) os = {1};
          std::vector<double> e(prod(os), 0.0), tz(prod(os), 0.0); std::vector<double> knots; double kx = -1; for (size_t q = 0; q < s[k]; ++q) { kx += variant == 0 ? 0.5 + (q * 5 % 3) : variant == 1 ? 1.25 - (q * 7 % 4) : (double)H::below(7) - 3; knots.push_back(kx); }
          coords(s, [&](const V& c, size_t i) { V o = c; o.erase(o.begin() + k); if (o.empty()) o = {0}; size_t p = rm(os, o); e[p] += d[i]; if (c[k] > 0) { V cp = c; cp[k]--; tz[p] += (d[i] + d[rm(s, cp)]) * (knots[c[k]] - knots[c[k] - 1]) / 2; } });
          auto r = Euclid::NdArray::sum(x, ax); H::eq(str(r.shape()), str(os), "shape of the sum along an axis");
          coords(os, [&](const V& c, size_t i) { H::near(r.at(c), e[i], ("sum along axis " + std::to_string(ax) + " at " + str(c)).c_str()); });
          auto z = Euclid::NdArray::trapz(x, knots.begin(), knots.end(), ax); H::eq(str(z.shape()), str(os), "shape of the integral along an axis");
          coords(os, [&](const V& c, size_t i) { H::near(z.at(c), tz[i], ("integral along axis " + std::to_string(ax) + " at " + str(c)).c_str(), 1e-9, 1e-9); });
          auto kb = knots; kb.push_back(99); H::throws<std::length_error>([&] { Euclid::NdArray::trapz(x, kb.begin(), kb.end(), ax); }, true, "trapz with too many knots");
          if (!knots.empty()) { kb = knots; kb.pop_back(); H::throws<std::length_error>([&] { Euclid::NdArray::trapz(x, kb.begin(), kb.end(), ax); }, true, "trapz with too few knots"); }
        }
        for (int ax : {(int)s.size(), (int)s.size() + 4}) { H::throws<std::out_of_range>([&] { Euclid::NdArray::sum(x, ax); }, true, "sum over an axis that does not exist"); std::vector<double> k; H::throws<std::out_of_range>([&] { Euclid::NdArray::trapz(x, k.begin(), k.end(), ax); }, true, "trapz over an axis that does not exist"); }
      }
    }
  }
}
int main(int argc, char** argv) {
  return H::run(argc, argv, [](const std::string& p) {
    if (p == "C01") { addressing<double>(); addressing<int>(); }
    if (p == "C02") { views<double>(false); if (H::thorough()) views<int>(false); }
    if (p == "C03") { views<double>(true); concat_eq<double>(); concat_eq<int>(); }
    if (p == "C04") operations();
  });
}
