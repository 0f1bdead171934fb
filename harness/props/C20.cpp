// C20 extraction from arbitrary text
#include "../gen.hpp"
#include <iterator>
#include <locale>
#include <sstream>
char const *const kProperty = "C20";
char const *const kRule =
    "generate text from tokens (numbers in many notations, nan/inf words, subnormal and overflowing numbers, "
    "junk, separators, truncation) or raw characters, extract 1..3 items from it, and compare with a model that "
    "reads the same text with standard double extraction: a grade is set to the numbers read when all are valid "
    "and the stream is good, and to nulls otherwise; never stale, never crashing; non-trivial = at least one "
    "grade extracted and the text not purely valid, or all extracted from >= 4 numbers";
using namespace vt;
static std::string token(Gen &g) {
  char b[64];
  switch (g.pick(17)) {
  case 8: { // a long one
    std::string s = g.pick(2) ? "-" : "";
    size_t z = g.pick(3) ? g.pick(30) : g.pick(600), n = g.pick(3) ? g.pick(20) : g.pick(400);
    s.append(z, g.pick(3) ? '0' : (char)('0' + g.pick(10)));
    if (g.pick(2)) s += '.';
    for (size_t i = 0; i < n; ++i) s += (char)('0' + (i * 7 + z) % 10);
    if (g.pick(3) == 0) s += "e-" + std::string(g.pick(40), '0') + std::to_string(g.pick(400));
    return s;
  }
  case 0: std::snprintf(b, sizeof b, "%.17g", g.num()); return b;
  case 1: std::snprintf(b, sizeof b, "%.3f", g.num()); return b;
  case 2: std::snprintf(b, sizeof b, "%.15e", g.num()); return b;
  case 3: std::snprintf(b, sizeof b, "%d", (int)g.pick(2001) - 1000); return b;
  case 4: std::snprintf(b, sizeof b, "+%d", (int)g.pick(100)); return b;
  case 5: return g.pick(2) ? "0" : "-0.0";
  case 6: {
    static char const *const w[] = {"nan", "inf", "-inf", "NaN", "null", "1e400", "-1e999", "4e-320", "1e-310",
                                    "0x1p3", "1e", "1.2.3", "--1", "1e+", ".", "-", "+", "e5", ".5", "5.", "1,5",
                                    "1d3", "1_000", "0x", "2.2250738585072014e-308", "1.7976931348623157e308"};
    return w[g.pick(sizeof w / sizeof *w)];
  }
  case 7: {
    std::string s;
    size_t n = g.pick(6);
    for (size_t i = 0; i < n; ++i) s += (char)(g.pick(4) ? 1 + g.pick(126) : g.pick(256));
    return s;
  }
  default: std::snprintf(b, sizeof b, "%g", g.num()); return b;
  }
}
struct OneByte : std::streambuf {
  std::string s;
  size_t i = 0;
  char ch = 0;
  explicit OneByte(std::string const &t) : s(t) {}
  int_type underflow() override {
    if (i >= s.size()) return traits_type::eof();
    ch = s[i++];
    setg(&ch, &ch, &ch + 1);
    return traits_type::to_int_type(ch);
  }
};
// a stream locale of the application: decimal comma, grouped digits
struct OddPunct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
static std::locale const &odd() {
  static std::locale const l(std::locale::classic(), new OddPunct);
  return l;
}
struct Model {
  std::istringstream in;
  explicit Model(std::string const &s) : in(s) {}
  bool one(double &x) {
    in >> x;
    return !in.fail() && (x == 0 || std::fpclassify(x) == FP_NORMAL);
  }
  // a grade of n numbers; all null when anything goes wrong
  bool grade(double *p, int n) {
    bool ok = true;
    for (int i = 0; ok && i < n; ++i) ok = one(p[i]);
    if (!ok)
      for (int i = 0; i < n; ++i) p[i] = NAN;
    return ok;
  }
};
// true if f reports a failure of its stream by throwing
template <class F> static bool throws(F f) {
  try {
    f();
  } catch (std::ios_base::failure const &) {
    return true;
  }
  return false;
}
void property(Ctx &c) {
  Gen g(c, Rng{-6, 6, -60, 60, true});
  std::string text;
  size_t n = g.pick(28);
  for (size_t i = 0; i < n; ++i) {
    text += token(g);
    switch (g.pick(8)) {
    case 0: text += "\n"; break;
    case 1: text += g.pick(3) ? "\t " : g.pick(2) ? "\r\n" : "\v\f"; break;
    case 2: if (g.pick(4) == 0) break; text += " "; break;
    case 3: if (g.pick(4) == 0) { text += ", "; break; } text += "  "; break;
    default: text += " ";
    }
  }
  if (g.pick(6) == 0 && !text.empty()) text.resize(g.pick(text.size()));
  for (char ch : text) c.note((uint64_t)(unsigned char)ch);
  if (c.verbose) c.showStr("text", text);
  // the bytes may come from memory or one at a time from a source that cannot seek
  std::stringbuf mem(text, std::ios::in);
  OneByte slow(text);
  bool const trickle = g.pick(4) == 0;
  std::istream in(trickle ? static_cast<std::streambuf *>(&slow) : &mem);
  Model m(text);
  // an application may have configured its stream any way it likes
  switch (g.pick(8)) {
  case 0: in >> std::noskipws; break;
  case 1: in >> std::hex; break;
  case 2: in >> std::boolalpha >> std::dec; in.precision(2); break;
  case 3: in.flags(in.flags() & ~std::ios::basefield); in.precision(30); break;
  default: break;
  }
  m.in.flags(in.flags());
  m.in.precision(in.precision());
  if (g.pick(10) == 0) in.imbue(odd()), m.in.imbue(odd());
  if (g.pick(20) == 0) { // something went wrong, or the text ended, before
    static std::ios::iostate const st[] = {std::ios::failbit, std::ios::eofbit, std::ios::badbit};
    std::ios::iostate const s = st[g.pick(3)];
    in.setstate(s), m.in.setstate(s);
  }
  // or ask for failures to be thrown
  if (in.good() && g.pick(5) == 0) {
    static std::ios::iostate const ms[] = {std::ios::failbit, std::ios::badbit, std::ios::failbit | std::ios::badbit};
    std::ios::iostate const s = ms[g.pick(3)];
    in.exceptions(s), m.in.exceptions(s);
  }
  auto const mask0 = in.exceptions();
  auto const flags0 = in.flags();
  auto const prec0 = in.precision();
  size_t k = 1 + g.pick(3);
  int good = 0, bad = 0;
  bool thrown = false;
  for (size_t q = 0; q < k && !thrown; ++q) {
    size_t ty = g.pick(10);
    if (ty == 9) { // array form
      auto arr = [&](auto a) {
        int const n = (int)a.size();
        double w[8];
        for (int i = 0; i < n; ++i) w[i] = a[i] = i + 1;
        bool gr = false;
        bool const it = throws([&] { in >> a; }), mt = throws([&] { gr = m.grade(w, n); });
        c.check(it == mt, it ? "extraction threw where reading numbers does not" : "extraction did not throw where reading numbers does");
        if ((thrown = it)) {
          ++bad;
          return;
        }
        (gr ? good : bad)++;
        for (int i = 0; i < n; ++i)
          c.check(std::isnan(w[i]) ? std::isnan(a[i]) : bitsOf(a[i]) == bitsOf(w[i]), "array element differs from the model");
      };
      switch (g.pick(4)) {
      case 0: arr(std::array<double, 1>{}); break;
      case 1: arr(std::array<double, 2>{}); break;
      case 2: arr(std::array<double, 5>{}); break;
      default: arr(std::array<double, 3>{});
      }
    } else
      withType(ty, All9{}, [&](auto t) {
        typedef typename decltype(t)::type T;
        T x = g.template item<T>(); // stale content that must not survive a failure
        bool const it = throws([&] { in >> x; });
        D8 w{};
        static int const lo[4] = {0, 1, 4, 7}, cnt[4] = {1, 3, 3, 1};
        bool all = true;
        bool const mt = throws([&] {
          for (int gr = 0; gr < 4; ++gr)
            if (Has<T>::g[gr]) {
              bool ok = m.grade(&w[lo[gr]], cnt[gr]);
              all = all && ok;
              (ok ? good : bad)++;
            }
        });
        c.check(it == mt, it ? "extraction threw where reading numbers does not" : "extraction did not throw where reading numbers does");
        if ((thrown = it)) { // then the item itself is not specified
          ++bad;
          return;
        }
        D8 d = d8(x);
        if (c.verbose) c.showStr("read", str(x));
        for (int i = 0; i < 8; ++i)
          if (Has<T>::g[ref::kGrade[i]])
            c.checkf(std::isnan(w[i]) ? std::isnan(d[i]) : bitsOf(d[i]) == bitsOf(w[i]), [&] {
              return std::string("component ") + std::to_string(i) + " of " + Nm<T>::s + " is " + num17(d[i]) +
                     ", model says " + num17(w[i]);
            });
        c.check(g3::isValid(x) == all, "validity of the extracted item");
      });
    c.check(in.flags() == flags0 && in.precision() == prec0, "extraction changed the stream's formatting state");
    c.check(in.exceptions() == mask0, "extraction changed what the stream throws for");
    c.check(in.fail() == m.in.fail(), "stream fail state differs from the model");
    c.check(in.bad() == m.in.bad(), "stream bad state differs from the model");
    c.check(in.eof() == m.in.eof(), "stream eof state differs from the model");
  }
  in.exceptions(std::ios::goodbit), m.in.exceptions(std::ios::goodbit);
  // what was not read is still there
  in.clear(), m.in.clear();
  typedef std::istreambuf_iterator<char> It;
  std::string const rest(It(in), It{}), want(It(m.in), It{});
  c.checkf(rest == want, [&] { return "left in the stream: '" + rest.substr(0, 60) + "', model says '" + want.substr(0, 60) + "'"; });
  if (thrown) c.label("thrown");
  c.label(bad ? (good ? "partly good" : "nothing good") : "all good");
  c.nontriv = good && (bad || good >= 2);
}
