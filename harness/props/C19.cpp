// C19 text round trips
#include "../gen.hpp"
#include <iomanip>
#include <locale>
#include <sstream>
char const *const kProperty = "C19";
char const *const kRule =
    "generate 1..4 items of random types, write them one after another with operator<< (or io::enote / "
    "io::fixed at a random digit count), read all back from the same stream with operator>>; every value must "
    "come back within half a unit of the last written digit, valid, and nothing may be left over; "
    "non-trivial = at least one nonzero component and at least four numbers";
using namespace vt;
template <class T> static constexpr bool hasEnote() {
  return !std::is_same_v<T, g3::ComPlex> && !std::is_same_v<T, g3::DirPlex>;
}
// a stream locale of the application: decimal comma, grouped digits
struct OddPunct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
static std::locale const &odd() {
  static std::locale const l(std::locale::classic(), new OddPunct);
  return l;
}
struct Item {
  size_t type;
  D8 d;
  int fmt;    // 0 operator<<, 1 enote, 2 fixed
  int digits; // after the point
};
void property(Ctx &c) {
  Gen g(c, Rng{-6, 3, -250, 250, true});
  std::vector<Item> items;
  size_t n = 1 + g.pick(4);
  std::ostringstream out;
  // an application may have configured its stream any way it likes
  if (g.pick(6) == 0) out.imbue(odd());
  switch (g.pick(6)) {
  case 4: out << std::fixed << std::setprecision(0) << std::showpoint; break;
  case 5: out << std::hexfloat << std::left << std::setfill('_'); break;
  case 1: out << std::scientific << std::setprecision(2); break;
  case 2: out << std::hex << std::uppercase << std::setprecision(1); break;
  case 3: out << std::showpos; break;
  }
  int numbers = 0;
  bool nz = false;
  for (size_t k = 0; k < n; ++k) {
    Item it{};
    it.type = g.pick(9);
    it.fmt = (int)g.pick(3);
    withType(it.type, All9{}, [&](auto t) {
      typedef typename decltype(t)::type T;
      T x = g.template item<T>();
      D8 d = d8(x);
      if (it.fmt != 1 && g.pick(4))
        for (double &v : d)
          if (std::fabs(v) > 1e6) v = std::fmod(v, 1e6);
      x = fromD8<T>(d);
      it.d = d8(x);
      c.show("item", [&] { return str(x); });
      for (int i = 0; i < 8; ++i)
        if (Has<T>::g[ref::kGrade[i]]) ++numbers, nz = nz || it.d[i] != 0;
      if (k) out << (g.pick(2) ? " " : "\n");
      if constexpr (hasEnote<T>()) {
        if (it.fmt == 1) {
          if (g.pick(2)) {
            it.digits = 15;
            out << g3::io::enote(x);
          } else {
            it.digits = 1 + (int)g.pick(17);
            out << g3::io::enote(x, (size_t)it.digits);
          }
        } else if (it.fmt == 2) {
          if (g.pick(2)) {
            it.digits = 6;
            out << g3::io::fixed(x);
          } else {
            it.digits = 1 + (int)g.pick(14);
            out << g3::io::fixed(x, (size_t)(1 + g.pick(6)), (size_t)it.digits);
          }
        } else {
          it.digits = 6;
          out << x;
        }
      } else {
        it.fmt = 0;
        it.digits = 6;
        out << x;
      }
    });
    items.push_back(it);
  }
  c.nontriv = nz && numbers >= 4;
  std::string const text = out.str();
  if (c.verbose) c.showStr("text", text);
  std::istringstream in(text);
  for (auto const &it : items)
    withType(it.type, All9{}, [&](auto t) {
      typedef typename decltype(t)::type T;
      T y = g3::null<T>();
      in >> y;
      c.label(std::string(it.fmt == 0 ? "<< " : it.fmt == 1 ? "enote " : "fixed ") + Nm<T>::s);
      c.check(!in.fail(), "stream failed while reading back");
      c.check(g3::isValid(y), "value read back is not valid");
      D8 e = d8(y);
      for (int i = 0; i < 8; ++i)
        if (Has<T>::g[ref::kGrade[i]]) {
          LD v = it.d[i], lim;
          if (it.fmt == 1)
            lim = 0.5001L * std::pow(10.0L, -(LD)it.digits) * std::fabs(v) * 10 + 2 * kEps * std::fabs(v);
          else
            lim = 0.5001L * std::pow(10.0L, -(LD)it.digits) + 2 * kEps * std::fabs(v);
          if (it.fmt == 1) { // half unit of the last digit at the value's own decade
            LD ex = v == 0 ? 0 : std::floor(std::log10(std::fabs(v)) + 1e-12L);
            lim = 0.5001L * std::pow(10.0L, ex - it.digits) + (it.digits >= 16 ? 0 : kEps * std::fabs(v));
          }
          if (it.fmt == 1 && it.digits >= 16) lim = 0; // 17 significant digits identify a double
          nearS(c, "component read back", e[i], v, lim);
        }
    });
  // nothing left but white space
  double extra;
  in >> extra;
  c.check(in.fail() && in.eof(), "text left over after reading everything back");
}
