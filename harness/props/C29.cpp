// C29 items are plain values: histories of copies, moves, swaps, containers, self assignment
#include "../gen.hpp"
#include <list>
#include <sstream>
#include <memory>
#include <numeric>
#include <optional>
#include <variant>
#include <functional>
#include <deque>
char const *const kProperty = "C29";
char const *const kRule =
    "pick one of the 9 types and run a generated history of 3 to 40 steps on a pool of items (copy, move, swap, self and "
    "chained assignment, containers, sort, erase and insert, pass by value, capture, throw, update from own operands, "
    "component writes, snapshots) next to a model that keeps eight doubles per item; after every step all items are compared "
    "bit for bit with the model, at the end the snapshots too; non-trivial = at least two distinct items and three kinds of step";
using namespace vt;
namespace {
// not-a-number payloads are not specified, every other bit is
bool sameBits(double a, double b) { return bitsOf(a) == bitsOf(b) || (std::isnan(a) && std::isnan(b)); }
template <class T> bool is(T const &x, D8 const &d) {
  D8 e = d8(x);
  for (int i = 0; i < 8; ++i)
    if (Has<T>::g[ref::kGrade[i]] && !sameBits(e[i], d[i])) return false;
  return true;
}
template <class T> D8 mask(D8 d) {
  for (int i = 0; i < 8; ++i)
    if (!Has<T>::g[ref::kGrade[i]]) d[i] = 0;
  return d;
}
template <class T> std::vector<int> const &comps() {
  static std::vector<int> const v = [] {
    std::vector<int> r;
    for (int i = 0; i < 8; ++i)
      if (Has<T>::g[ref::kGrade[i]]) r.push_back(i);
    return r;
  }();
  return v;
}
// the double that stores component i, through the public members
template <class T> double &slot(T &x, int i) {
  if constexpr (std::is_same_v<T, g3::Scalar> || std::is_same_v<T, g3::TriVector>) {
    return x.theData[0];
  } else if constexpr (std::is_same_v<T, g3::Vector>) {
    return x.theData[i - 1];
  } else if constexpr (std::is_same_v<T, g3::BiVector>) {
    return x.theData[i - 4];
  } else {
    if constexpr (Has<T>::g[0])
      if (i == 0) return x.theSca.theData[0];
    if constexpr (Has<T>::g[1])
      if (i >= 1 && i < 4) return x.theVec.theData[i - 1];
    if constexpr (Has<T>::g[2])
      if (i >= 4 && i < 7) return x.theBiv.theData[i - 4];
    if constexpr (Has<T>::g[3])
      if (i == 7) return x.theTri.theData[0];
    std::abort();
  }
}
template <class T> VT_NOINLINE T byValue(T x) { return x; }
template <class T> VT_NOINLINE T const &byRef(T const &x) { return x; }
template <class T> VT_NOINLINE void assignTo(T &dst, T const &src) { dst = src; }
template <class T> struct Wrap { // an item inside user data
  int before = 7;
  T item;
  double after = 9;
};
template <class T> struct Hist {
  Ctx &c;
  Gen &g;
  std::vector<T> a;
  std::vector<D8> m;
  std::vector<std::pair<std::unique_ptr<T const>, D8>> snaps;
  std::string log;
  Hist(Ctx &cc, Gen &gg) : c(cc), g(gg) {}
  D8 values() {
    D8 d = d8(g.template item<T>());
    if (g.pick(8) == 0) d[comps<T>()[g.pick(comps<T>().size())]] = g.special();
    return mask<T>(d);
  }
  size_t at() { return g.pick(a.size()); }
  void verify(char const *step) {
    if (a.size() != m.size()) c.fail(std::string(step) + ": wrong number of items");
    for (size_t i = 0; i < a.size(); ++i) {
      ++c.comparisons;
      if (!is(a[i], m[i]))
        c.fail("after '" + log + "': item " + std::to_string(i) + " is " + str(a[i]) + ", should be " + str(fromD8<T>(m[i])));
      for (size_t k = 0; k < comps<T>().size(); ++k)
        c.checkf(sameBits(byRef(a[i])[k], m[i][comps<T>()[k]]), [&] { return "after '" + log + "': item " + std::to_string(i) + " reads another component at " + std::to_string(k); });
    }
  }
  void need(bool ok, char const *what) {
    c.checkf(ok, [&] { return std::string(what) + " after '" + log + "'"; });
  }
  // the result of arithmetic: equal values, whose bits (zero signs) become the model's
  void arith(size_t i, D8 const &want, char const *what) {
    for (int q : comps<T>()) {
      double got = slot(a[i], q);
      need(got == want[q] || (std::isnan(got) && std::isnan(want[q])), what);
    }
    m[i] = d8(a[i]);
  }
  // results of everything that can be asked of an item and its partner
  static std::vector<uint64_t> answers(T const &x, T const &y) {
    std::vector<uint64_t> r;
    auto put = [&](auto const &v) {
      typedef std::decay_t<decltype(v)> V;
      if constexpr (std::is_arithmetic_v<V>) {
        double const q = (double)v;
        r.push_back(std::isnan(q) ? 1 : bitsOf(q));
      } else
        for (double q : d8(v)) r.push_back(std::isnan(q) ? 1 : bitsOf(q));
    };
    put(g3::magSq(x)), put(g3::magnitude(x)), put(g3::ampSq(x)), put(g3::amplitude(x)), put(g3::direction(x));
    put(g3::pairMagDirFrom(x).first), put(g3::pairMagDirFrom(x).second);
    put(-x), put(reverse(x)), put(oddverse(x)), put(dirverse(x)), put(g3::dual(x));
    put(x + y), put(x - y), put(x * y), put(2. * x), put(x * .5), put(g3::MultiVector(x) * g3::MultiVector(y));
    put(g3::isValid(x)), put(g3::nearlyEquals(x, y)), put(g3::nearlyEquals(x, y, 1.));
    if constexpr (Has<T>::g[0] + Has<T>::g[1] + Has<T>::g[2] + Has<T>::g[3] == 1) put(g3::inverse(x));
    if constexpr (std::is_same_v<T, g3::ComPlex>) put(g3::inverse<g3::ComPlex>(x));
    if constexpr (std::is_same_v<T, g3::MultiVector>) put(g3::inverse<g3::MultiVector>(x)), put(g3::exp(x));
    if constexpr (std::is_same_v<T, g3::BiVector>) put(g3::exp(x));
    if constexpr (std::is_same_v<T, g3::Spinor>) put(g3::exp(x)), put(g3::logG2(x)), put(g3::sqrtG2(x));
    if constexpr (!std::is_same_v<T, g3::ComPlex> && !std::is_same_v<T, g3::DirPlex>) put(x == y);
    std::ostringstream o;
    o << x;
    bool text = true; // the sign of a not-a-number is not specified
    for (double q : d8(x)) text = text && !std::isnan(q);
    if (text) r.push_back(std::hash<std::string>()(o.str()));
    return r;
  }
  unsigned long kinds = 0;
  void step() {
    unsigned k = (unsigned)g.pick(38);
    kinds |= 1ul << k;
    size_t i = at(), j = at(), l = at();
    if (log.size() > 300) log = "..." + log.substr(log.size() - 250);
    log += " " + std::to_string(k) + ":" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(l);
    switch (k) {
    case 0: a[i] = a[j], m[i] = m[j]; break;
    case 1: assignTo(a[i], a[j]), m[i] = m[j]; break;
    case 2: // chained
      a[i] = a[j] = a[l];
      m[i] = m[j] = m[l];
      break;
    case 3: { // copy construction in every notation
      T x(a[j]), y{a[j]}, z = a[j];
      auto w = a[j];
      need(is(x, m[j]) && is(y, m[j]) && is(z, m[j]) && is(w, m[j]), "a copy differs from its source");
      a[i] = w, m[i] = m[j];
      break;
    }
    case 4: { // move construction and move assignment, also onto itself: values have nothing to hand over
      T src = a[j];
      T x(std::move(src));
      need(is(src, m[j]) && is(x, m[j]), "an item differs after a move from it");
      src = x;
      T y;
      y = std::move(x);
      need(is(y, m[j]) && is(src, m[j]) && is(x, m[j]), "a moved item differs from its source");
      T *volatile same = &y;
      y = std::move(*same);
      need(is(y, m[j]), "an item differs after a move onto itself");
      a[i] = std::move(y), m[i] = m[j];
      break;
    }
    case 5: { // swap through the standard library
      using std::swap;
      swap(a[i], a[j]);
      std::swap(m[i], m[j]);
      break;
    }
    case 6: { // new values
      D8 d = values();
      a[i] = fromD8<T>(d), m[i] = d;
      break;
    }
    case 7: { // component write; other items and components stay
      int q = comps<T>()[g.pick(comps<T>().size())];
      double x = g.pick(8) ? g.num() : g.special();
      size_t ix = 0;
      while (comps<T>()[ix] != q) ++ix;
      T const &view = a[i];
      double const &live = view[ix];
      slot(a[i], q) = x, m[i][q] = x;
      need(sameBits(live, x), "a component reference shows an old value");
      break;
    }
    case 8: { // growth, with an element of itself
      if (a.size() > 12) break;
      a.push_back(a[j]), m.push_back(m[j]);
      break;
    }
    case 9: {
      if (a.size() > 12) break;
      a.insert(a.begin() + (long)i, a[j]);
      D8 v = m[j];
      m.insert(m.begin() + (long)i, v);
      break;
    }
    case 10: {
      if (a.size() < 3) break;
      a.erase(a.begin() + (long)i), m.erase(m.begin() + (long)i);
      break;
    }
    case 11: { // stable sort by one component
      size_t q = g.pick(comps<T>().size());
      int ci = comps<T>()[q];
      std::stable_sort(a.begin(), a.end(), [q](T const &x, T const &y) { return bitsOf(x[q]) < bitsOf(y[q]); });
      std::stable_sort(m.begin(), m.end(), [ci](D8 const &x, D8 const &y) { return bitsOf(x[ci]) < bitsOf(y[ci]); });
      break;
    }
    case 12: std::reverse(a.begin(), a.end()), std::reverse(m.begin(), m.end()); break;
    case 13: std::rotate(a.begin(), a.begin() + (long)i, a.end()), std::rotate(m.begin(), m.begin() + (long)i, m.end()); break;
    case 14: { // through library holders
      std::optional<T> o = a[j];
      std::variant<int, T> v = 3;
      v = *o;
      std::map<int, T> mp;
      mp[4] = std::get<T>(v);
      mp.emplace(5, mp[4]);
      std::pair<T, T> p{mp[4], mp.at(5)};
      std::tuple<T, double, T> t{p.second, 1., p.first};
      std::array<T, 3> ar{std::get<0>(t), std::get<2>(t), p.first};
      auto copy = ar;
      o.reset();
      need(is(copy[0], m[j]) && is(copy[1], m[j]) && is(copy[2], m[j]), "an item in a holder differs");
      a[i] = copy[g.pick(3)], m[i] = m[j];
      break;
    }
    case 15: a[i] = byValue(a[j]), m[i] = m[j]; break;
    case 16: { // captured by value: later changes do not reach it
      T x = a[j];
      auto f = [x] { return x; };
      std::function<T()> h = f;
      D8 d = values();
      x = fromD8<T>(d);
      a[i] = h(), m[i] = m[j];
      need(is(x, d), "an item changed with a captured copy");
      break;
    }
    case 17: { // thrown and caught by value
      if (g.pick(4)) break;
      try {
        throw a[j];
      } catch (T &e) {
        a[i] = e;
      }
      m[i] = m[j];
      break;
    }
    case 18: { // update in place from its own value
      D8 want = m[i];
      for (int q : comps<T>()) want[q] = -want[q];
      a[i] = -a[i];
      arith(i, want, "an item updated in place is wrong");
      break;
    }
    case 19: {
      D8 want = m[i];
      for (int q = 4; q < 8; ++q) want[q] = -want[q];
      a[i] = g3::reverse(a[i]);
      arith(i, want, "an item updated in place is wrong");
      break;
    }
    case 20: {
      D8 want = m[i];
      for (int q : {1, 2, 3, 7}) want[q] = -want[q];
      a[i] = g3::oddverse(a[i]);
      arith(i, want, "an item updated in place is wrong");
      break;
    }
    case 21: {
      D8 want = m[i];
      for (int q = 1; q < 7; ++q) want[q] = -want[q];
      a[i] = g3::dirverse(a[i]);
      arith(i, want, "an item updated in place is wrong");
      break;
    }
    case 22: // sums and differences, any of the three may be one item
    case 23:
    case 24: {
      T const x = a[j], y = a[l];
      D8 want{};
      for (int q : comps<T>()) want[q] = k == 22 ? m[j][q] + m[l][q] : m[j][q] - m[l][q];
      if (k == 24)
        a[i] = byRef(a[j]) + (-a[l]);
      else if (k == 22)
        a[i] = a[j] + a[l];
      else
        a[i] = a[j] - a[l];
      if (i != j) need(is(a[j], d8(x)), "an operand changed");
      if (i != l) need(is(a[l], d8(y)), "an operand changed");
      arith(i, want, "a sum of items of the pool is wrong");
      break;
    }
    case 25: { // scaled in place
      double s = g.num();
      D8 want{};
      for (int q : comps<T>()) want[q] = s * m[i][q];
      if (g.pick(2))
        a[i] = s * a[i];
      else
        a[i] = a[i] * s;
      arith(i, want, "an item scaled in place is wrong");
      break;
    }
    case 26: // products in place, as with operands of their own
      if constexpr (std::is_same_v<T, decltype(std::declval<T>() * std::declval<T>())>) {
        T const x = byValue(a[j]), y = byValue(a[l]);
        T const want = x * y;
        a[i] = a[j] * a[l];
        need(is(a[i], d8(want)), "a product written over its operand differs from one in a new item");
        m[i] = d8(a[i]);
      }
      break;
    case 27: { // multiple sums in one expression over the pool
      T const x = byValue(a[i]), y = byValue(a[j]), z = byValue(a[l]);
      T const want = (x + y) - (z + x);
      T const got = (a[i] + a[j]) - (a[l] + a[i]);
      need(is(got, d8(want)), "an expression over one item twice differs from one over copies");
      break;
    }
    case 28: { // algorithms: fold
      T acc = g3::zero<T>();
      D8 want{};
      for (size_t q = 0; q < m.size(); ++q)
        for (int e : comps<T>()) want[e] = want[e] + m[q][e];
      acc = std::accumulate(a.begin(), a.end(), acc);
      for (int q : comps<T>()) {
        double got = slot(acc, q);
        need(got == want[q] || (std::isnan(got) && std::isnan(want[q])), "accumulate over the pool is wrong");
      }
      break;
    }
    case 29: { // transform in place
      std::transform(a.begin(), a.end(), a.begin(), [](T const &x) { return -x; });
      for (size_t e = 0; e < m.size(); ++e) {
        D8 want = m[e];
        for (int q : comps<T>()) want[q] = -want[q];
        arith(e, want, "an item transformed in place is wrong");
      }
      break;
    }
    case 30: // find, count, equality follow the components (of the types that compare)
      if constexpr (!std::is_same_v<T, g3::ComPlex> && !std::is_same_v<T, g3::DirPlex>) {
      bool finite = true;
      for (D8 const &d : m)
        for (double x : d) finite = finite && !std::isnan(x);
      if (!finite) break;
      T const key = a[j];
      long n = 0, first = -1;
      for (size_t q = 0; q < m.size(); ++q)
        if (m[q] == m[j]) {
          ++n;
          if (first < 0) first = (long)q;
        }
      need(std::count(a.begin(), a.end(), key) == n, "count of equal items is wrong");
      need(std::find(a.begin(), a.end(), key) - a.begin() == first, "find gives another item");
      break;
    }
    case 31: // snapshots that nothing may touch
      if (snaps.size() < 6) snaps.emplace_back(std::make_unique<T const>(a[j]), m[j]);
      break;
    case 32: { // in raw storage
      alignas(T) unsigned char raw[sizeof(T) * 2];
      T *p = new (raw) T(a[j]), *q = new (raw + sizeof(T)) T(a[l]);
      need(is(*p, m[j]) && is(*q, m[l]), "a placed item differs");
      *p = *q;
      need(is(*p, m[l]) && is(*q, m[l]), "assignment in raw storage");
      a[i] = *p, m[i] = m[l];
      p->~T(), q->~T();
      break;
    }
    case 33: { // in user data, with neighbours
      Wrap<T> w{1, a[j], 2}, v = w;
      v.item = a[l];
      need(w.before == 1 && w.after == 2 && v.before == 1 && v.after == 2, "a member beside an item changed");
      need(is(w.item, m[j]) && is(v.item, m[l]), "an item in user data differs");
      std::deque<Wrap<T>> q{w, v};
      std::list<T> li{q[0].item, q[1].item};
      a[i] = li.back(), m[i] = m[l];
      break;
    }
    case 34: { // copy algorithms over overlapping ranges
      size_t n = a.size() / 2;
      if (g.pick(2)) {
        std::copy(a.begin() + (long)(a.size() - n), a.end(), a.begin());
        std::copy(m.begin() + (long)(m.size() - n), m.end(), m.begin());
      } else {
        std::copy_backward(a.begin(), a.begin() + (long)n, a.end());
        std::copy_backward(m.begin(), m.begin() + (long)n, m.end());
      }
      break;
    }
    case 37: // whatever an item went through, only its components count
      need(answers(a[i], a[j]) == answers(fromD8<T>(m[i]), fromD8<T>(m[j])), "a function of a used item differs from that of a new item with the same components");
      break;
    case 36: { // a result is an item of its own, however it is bound: later changes of the operands do not reach it
      T x = a[j], y = a[l];
      auto &&r0 = -x;
      auto &&r1 = g3::reverse(x);
      auto &&r2 = g3::oddverse(x);
      auto &&r3 = g3::dirverse(x);
      auto &&r4 = g3::dual(x);
      auto &&r5 = x + y;
      auto &&r6 = x - y;
      auto &&r7 = x * y;
      auto &&r8 = 1. * x;
      auto &&r9 = x * 1.;
      auto &&r10 = g3::direction(x);
      auto &&r11 = g3::ampSq(x);
      auto &&r12 = g3::MultiVector(x) + g3::MultiVector(y);
      auto &&r13 = g3::one<g3::Scalar>() * x;
      // of temporaries, which are gone by now
      auto &&t1 = g3::reverse(byValue(x));
      auto &&t2 = g3::oddverse(byValue(x));
      auto &&t3 = g3::dirverse(byValue(x));
      auto &&t4 = byValue(x) + byValue(y);
      auto &&t5 = g3::dual(byValue(x));
      auto copies = std::make_tuple(T(r0), T(r1), T(r2), T(r3), r4, r5, r6, r7, T(r8), T(r9), r10, r11, r12, r13);
      auto sameAll = [&] {
        auto q = [](auto const &p, auto const &w) { return is(p, d8(w)); };
        return q(r0, std::get<0>(copies)) && q(r1, std::get<1>(copies)) && q(r2, std::get<2>(copies)) &&
               q(r3, std::get<3>(copies)) && q(r4, std::get<4>(copies)) && q(r5, std::get<5>(copies)) &&
               q(r6, std::get<6>(copies)) && q(r7, std::get<7>(copies)) && q(r8, std::get<8>(copies)) &&
               q(r9, std::get<9>(copies)) && q(r10, std::get<10>(copies)) && q(r11, std::get<11>(copies)) &&
               q(r12, std::get<12>(copies)) && q(r13, std::get<13>(copies));
      };
      x = fromD8<T>(values()), y = fromD8<T>(values());
      need(sameAll(), "a result changed with its operand");
      need(is(t1, d8(std::get<1>(copies))) && is(t2, d8(std::get<2>(copies))) && is(t3, d8(std::get<3>(copies))) &&
               is(t4, d8(std::get<5>(copies))) && is(t5, d8(std::get<4>(copies))),
           "the result for a temporary differs");
      break;
    }
    case 35: { // the whole pool
      std::vector<T> b = a;
      a.clear();
      a.shrink_to_fit();
      a = b;
      b.assign(a.size(), a[j]);
      for (T const &x : b) need(is(x, m[j]), "a filled vector differs");
      a.reserve(a.size() + 7);
      break;
    }
    }
  }
};
} // namespace
void property(Ctx &c) {
  static Rng const rgs[4] = {{}, {}, {-300, 300, -300, 300, true}, {-323, -300, -323, 300, true}};
  Gen g(c, rgs[c.draw(4)]);
  withType(g.pick(9), All9{}, [&](auto tag) {
    typedef typename decltype(tag)::type T;
    c.label(Nm<T>::s);
    Hist<T> h(c, g);
    size_t n = 2 + g.pick(4);
    for (size_t k = 0; k < n; ++k) {
      D8 d = h.values();
      h.a.push_back(fromD8<T>(d)), h.m.push_back(d);
    }
    h.verify("start");
    c.show("first", [&] { return str(h.a[0]); });
    c.show("second", [&] { return str(h.a[1]); });
    c.nontriv = h.m[0] != h.m[1];
    size_t steps = 3 + g.pick(38);
    for (size_t k = 0; k < steps; ++k) {
      h.step();
      h.verify("step");
    }
    for (auto const &s : h.snaps) h.need(is(*s.first, s.second), "a snapshot changed");
    c.nontriv = c.nontriv && __builtin_popcountl(h.kinds) >= 3;
    c.show("steps (kind:items)", [&] { return h.log; });
  });
}
