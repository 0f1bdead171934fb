// C21 text formats
#include "../gen.hpp"
#include <iomanip>
#include <locale>
#include <sstream>
char const *const kProperty = "C21";
char const *const kRule =
    "generate an item and digit counts, compare io::fixed, io::enote and operator<< character by character with a "
    "snprintf model of the documented layout, on streams with arbitrary flags, and check the stream's flags, "
    "precision, fill and locale-independent state are unchanged; non-trivial = at least one nonzero component";
using namespace vt;
static std::string fx(double v, size_t before, size_t after) {
  char b[512];
  std::snprintf(b, sizeof b, " %*.*f", (int)(before + after + 2), (int)after, v);
  return b;
}
static std::string en(double v, size_t after) {
  char b[512];
  std::snprintf(b, sizeof b, "%*.*e", (int)(after + 7), (int)after, v);
  return b;
}
template <class T, class F> static std::string join(D8 const &d, F const &f, char const *inside, char const *between) {
  std::string s;
  bool firstGrade = true;
  static int const lo[4] = {0, 1, 4, 7}, cnt[4] = {1, 3, 3, 1};
  for (int k = 0; k < 4; ++k)
    if (Has<T>::g[k]) {
      if (!firstGrade) s += between;
      firstGrade = false;
      for (int i = 0; i < cnt[k]; ++i) s += (i ? inside : "") + f(d[lo[k] + i]);
    }
  return s;
}
// a stream locale of the application: decimal comma, grouped digits
struct OddPunct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
static std::locale const &odd() {
  static std::locale const l(std::locale::classic(), new OddPunct);
  return l;
}
template <class T> static void one(Ctx &c, Gen &g) {
  T x = g.item<T>();
  if (g.chance(1, 20)) x = g3::null<T>();
  D8 d = d8(x);
  for (double &v : d)
    if (std::fabs(v) > 1e307) v = 1e307;
  x = fromD8<T>(d);
  c.show("x", [&] { return str(x); });
  size_t before = g.pick(8) ? g.pick(13) : g.pick(41), after = g.pick(8) ? g.pick(18) : g.pick(41);
  c.nontriv = anyNonzero(d);
  c.label(Nm<T>::s);
  auto same = [&](char const *what, std::string const &got, std::string const &want) {
    c.checkf(got == want, [&] { return std::string(what) + ": got '" + got + "' want '" + want + "'"; });
  };
  auto sign = [](double v) { return std::isnan(v) ? std::fabs(v) : v; };
  for (double &v : d) v = sign(v);
  if constexpr (!std::is_same_v<T, g3::ComPlex> && !std::is_same_v<T, g3::DirPlex>) {
    same("fixed", g3::io::fixed(x, before, after),
         join<T>(d, [&](double v) { return fx(v, before, after); }, "", "  "));
    same("fixed default", g3::io::fixed(x), join<T>(d, [&](double v) { return fx(v, 3, 6); }, "", "  "));
    same("enote", g3::io::enote(x, after), join<T>(d, [&](double v) { return en(v, after); }, " ", "  "));
    same("enote default", g3::io::enote(x), join<T>(d, [&](double v) { return en(v, 15); }, " ", "  "));
  }
  if constexpr (!std::is_same_v<T, double>) {
    std::ostringstream o;
    if (g.pick(4) == 0) o.imbue(odd());
    if (g.pick(4) == 0) o.width(1 + g.pick(12)); // never wider than one number
    switch (g.pick(7)) {
    case 0: break;
    case 4: o << std::internal << std::setfill('0') << std::fixed << std::setprecision(0); break;
    case 5: o << std::unitbuf << std::showpoint << std::oct << std::setprecision((int)g.pick(25)); break;
    case 1: o << std::scientific << std::setprecision(3); break;
    case 2: o << std::hex << std::showbase << std::uppercase; break;
    case 3: o << std::left << std::setfill('*') << std::showpos; break;
    default: o << std::boolalpha << std::hexfloat << std::setprecision(11); break;
    }
    auto fl = o.flags();
    auto pr = o.precision();
    auto fi = o.fill();
    auto const lo = o.getloc();
    o << x;
    same("operator<<", o.str(), join<T>(d, [&](double v) { return fx(v, 3, 6); }, "", " "));
    c.check(o.flags() == fl, "operator<< changed the stream's format flags");
    c.check(o.precision() == pr, "operator<< changed the stream's precision");
    c.check(o.fill() == fi, "operator<< changed the stream's fill character");
    c.check(o.getloc() == lo, "operator<< changed the stream's locale");
    c.check(o.good(), "operator<< spoiled the stream state");
    // insertion chains: the stream itself is returned
    std::ostringstream p;
    p.flags(fl & ~std::ios::unitbuf);
    p << x << "|" << x;
    same("chained operator<<", p.str(),
         join<T>(d, [&](double v) { return fx(v, 3, 6); }, "", " ") + "|" +
             join<T>(d, [&](double v) { return fx(v, 3, 6); }, "", " "));
  }
}
void property(Ctx &c) {
  Gen g(c, c.draw(4) ? Rng{-6, 3, -90, 90, true} : Rng{-323, 307, -323, 307, true});
  size_t i = g.pick(10);
  withType(i, All10{}, [&](auto t) { one<typename decltype(t)::type>(c, g); });
}
