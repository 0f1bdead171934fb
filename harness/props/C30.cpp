// C30 every call returns normally, whatever bits its arguments hold
#include "calls.hpp"
#include <csetjmp>
#include <functional>
#include <sys/time.h>
#ifdef VT_MEMCHECK
#include <valgrind/memcheck.h>
#endif
char const *const kProperty = "C30";
char const *const kRule =
    "generate 1..3 calls (the table of C24, and indexing, formatting, printing and reading with extreme parameters) on arguments "
    "which hold any bit patterns (subnormal, infinite, not a number, up to the largest finite ones); each call must return within "
    "half a second of CPU time, without exception, crash, sanitizer or memcheck report, runaway allocation or memory kept by "
    "repeated calls; non-trivial = an argument of the case holds a component which is not zero and not within 1e-100 to 1e100";
using namespace vt;
// ---------------------------------------------------------------- memory in use
#if !defined(VT_FUZZ) && !defined(VT_MEMCHECK)
#define VT_COUNT_MEMORY 1
#include <malloc.h>
namespace {
size_t gLive = 0, gPeak = 0;
void *take(size_t n, size_t al) {
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  gLive += malloc_usable_size(p);
  if (gLive > gPeak) gPeak = gLive;
  return p;
}
void give(void *p) {
  if (p) gLive -= malloc_usable_size(p), std::free(p);
}
} // namespace
void *operator new(size_t n) { return take(n, 0); }
void *operator new[](size_t n) { return take(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
void operator delete(void *p, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::align_val_t) noexcept { give(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { give(p); }
#endif
namespace {
// ---------------------------------------------------------------- calls that do not return
// The process's own CPU time is sampled by a timer that ticks every half second; a call which is still the same one at the
// third tick has run for a second at least.
sigjmp_buf gOut;
volatile std::sig_atomic_t gIn = 0, gTicks = 0;
unsigned patience() {
#ifdef VT_MEMCHECK
  return 40;
#else
  return 3;
#endif
}
void tick(int) {
  if (gIn && (unsigned)++gTicks >= patience()) {
    gIn = 0;
    siglongjmp(gOut, 1);
  }
}
void startTimer() {
  static bool const once = [] {
    struct sigaction a {};
    a.sa_handler = tick;
    sigemptyset(&a.sa_mask);
    a.sa_flags = SA_NODEFER | SA_RESTART;
    sigaction(SIGPROF, &a, nullptr);
    itimerval tv{};
    tv.it_interval.tv_usec = tv.it_value.tv_usec = 500000;
    setitimer(ITIMER_PROF, &tv, nullptr);
    return true;
  }();
  (void)once;
}
// 0: returned; 1: did not return in time; 2: threw
template <class F> VT_NOINLINE int guarded(F &&f, std::string &what) {
  gTicks = 0;
  if (sigsetjmp(gOut, 0)) return 1;
  gIn = 1;
  int r = 0;
  try {
    f();
  } catch (std::exception const &e) {
    gIn = 0, r = 2, what = e.what();
  } catch (...) {
    gIn = 0, r = 2, what = "(not a std::exception)";
  }
  gIn = 0;
  return r;
}
double extreme(Gen &g) {
  switch (g.pick(5)) {
  case 0: return g.special();
  case 1: { // any magnitude
    double const x = std::ldexp(1. + g.unit(), (int)g.pick(2097) - 1074);
    return g.pick(2) ? x : -x;
  }
  case 2: return 0.;
  default: return g.num();
  }
}
D8 anyBits(Gen &g) {
  D8 d;
  switch (g.pick(6)) {
  case 0: // every component of about the same, arbitrary size
  {
    int const e = (int)g.pick(2097) - 1074;
    for (double &x : d) x = std::ldexp(2 * g.unit() - 1, e);
    if (g.pick(2)) d[g.pick(8)] = 0.;
    break;
  }
  case 1: // everyday, with one or two extreme components
    d = g.octet();
    d[g.pick(8)] = extreme(g);
    if (g.pick(2)) d[g.pick(8)] = extreme(g);
    break;
  case 2: // one component only
    d.fill(g.pick(2) ? 0. : -0.);
    d[g.pick(8)] = extreme(g);
    break;
  case 3: { // the same bits everywhere
    d.fill(extreme(g));
    break;
  }
  default:
    for (double &x : d) x = extreme(g);
  }
  return d;
}
bool isExtreme(double x) { return x != 0 && !(std::fabs(x) > 1e-100 && std::fabs(x) < 1e100); }
size_t anySize(Gen &g) { // index or count
  switch (g.pick(4)) {
  case 0: return ~(size_t)0 - g.pick(20);
  case 1: return (size_t)1 << g.pick(64);
  case 2: return (g.c.draw(1ull << 32) << 32) | g.c.draw(1ull << 32);
  default: return g.pick(12);
  }
}
std::string anyText(Gen &g) {
  std::string s;
  for (size_t n = g.pick(12); n--;) {
    char b[64];
    switch (g.pick(8)) {
    case 0: s += (char)g.pick(256); break;
    case 1: s += std::string(g.pick(400), (char)('0' + g.pick(10))); break;
    case 2: std::snprintf(b, sizeof b, "%.17g", g.special()), s += b; break;
    case 3: std::snprintf(b, sizeof b, "1e%d", (int)g.pick(20000) - 10000), s += b; break;
    case 4: s += g.pick(2) ? "nan" : "inf"; break;
    case 5: s += std::string(g.pick(300), ' '); break;
    default: std::snprintf(b, sizeof b, "%.6g", g.num()), s += b;
    }
    if (g.pick(8)) s += ' ';
  }
  return s;
}
struct Job {
  std::string name;
  std::function<void(Out &)> run;
};
template <class T> Job ownJob(Gen &g, D8 const &a, D8 const &b) {
  std::string const n = Nm<T>::s;
  T const x = fromD8<T>(a), y = fromD8<T>(b);
  switch (g.pick(6)) {
  case 0: {
    size_t const k = anySize(g);
    return {n + "[" + std::to_string(k) + "]", [=](Out &o) {
              // beyond the components of a type the index must not be looked up, within it must not differ
              double v[2] = {0, 0};
              if constexpr (std::is_same_v<T, double>)
                v[0] = x;
              else
                v[0] = x[k];
              o.n.assign(v, v + 2);
            }};
  }
  case 1: { // many digits
    size_t const m = g.pick(3) ? g.pick(20) : g.pick(700), d = g.pick(3) ? g.pick(20) : g.pick(700);
    return {n + " fixed/enote with " + std::to_string(m) + "," + std::to_string(d), [=](Out &o) {
              if constexpr (!std::is_same_v<T, g3::ComPlex> && !std::is_same_v<T, g3::DirPlex>) {
                o.t += g3::io::fixed(x, m, d);
                o.t += g3::io::enote(y, d);
              }
            }};
  }
  case 2: { // printing in any format
    int const w = (int)g.pick(3) * (int)g.pick(500), p = (int)g.pick(3) * (int)g.pick(400) - 1, f = (int)g.pick(64);
    return {n + " << width " + std::to_string(w) + " precision " + std::to_string(p), [=](Out &o) {
              std::ostringstream s;
              if (f & 1) s << std::fixed;
              if (f & 2) s << std::scientific;
              if (f & 4) s << std::showpos;
              if (f & 8) s << std::uppercase;
              if (f & 16) s << std::left;
              if (f & 32) s << std::showpoint;
              s.precision(p), s.width(w);
              if constexpr (!std::is_same_v<T, double>) s << x;
              o.t = s.str();
            }};
  }
  case 3: { // from any text
    std::string const t = anyText(g);
    return {n + " >>", [=](Out &o) {
              std::istringstream s(t);
              T r = x;
              for (int k = 0; k < 3; ++k) s >> r; // also from a stream that has failed
              put(o, d8(r));
            }};
  }
  case 4: { // comparison with any tolerance
    double const tol = extreme(g);
    return {n + " nearlyEquals", [=](Out &o) {
              put(o, g3::nearlyEquals(x, y, tol)), put(o, g3::nearlyEquals(y, x, tol));
              put(o, g3::nearlyEqualsAbs(a[0], b[0], tol)), put(o, g3::nearlyEqualsRel(a[0], b[0], tol));
            }};
  }
  default: // and decomposition, products with a double
    return {n + " parts", [=](Out &o) {
              put(o, g3::isValid(x));
              if constexpr (!std::is_same_v<T, double>) {
                put(o, d8(a[0] * x)), put(o, d8(x * b[7]));
                g3::MultiVector const m(x);
                put(o, d8(g3::exp(m))), put(o, d8(g3::inverse<g3::MultiVector>(m)));
                put(o, g3::magnitude(m));
              }
            }};
  }
}
// the table of C24: functions more often than the many products and sums
std::vector<std::vector<size_t>> const &byKind() {
  static std::vector<std::vector<size_t>> const v = [] {
    std::vector<std::vector<size_t>> r(2);
    for (size_t i = 0; i < calls().size(); ++i)
      r[i < 199 ? 0 : 1].push_back(i);
    return r;
  }();
  return v;
}
} // namespace
void property(Ctx &c) {
  startTimer();
  Gen g(c, Rng{-6, 6, -320, 308, true});
  size_t const n = 1 + g.pick(3);
  std::vector<Job> jobs;
  for (size_t k = 0; k < n; ++k) {
    In in;
    in.a = anyBits(g);
    in.b = g.pick(4) == 0 ? in.a : anyBits(g);
    in.c = g.pick(2) ? in.b : anyBits(g);
    in.s = extreme(g);
    in.skip = 0;
    if (g.pick(6) == 0) special(g, in);
    for (D8 const *d : {&in.a, &in.b})
      for (double x : *d) {
        c.note(bitsOf(x));
        if (isExtreme(x)) c.nontriv = true;
      }
    if (c.verbose) c.showStr("arguments", str(in.a) + " " + str(in.b) + " " + num17(in.s));
    if (g.pick(3) == 0)
      withType(g.pick(10), All10{}, [&](auto t) {
        typedef typename decltype(t)::type T;
        jobs.push_back(ownJob<T>(g, in.a, in.b));
      });
    else {
      auto const &tab = byKind()[g.pick(4) != 0];
      size_t const which = tab[g.pick(tab.size())];
      jobs.push_back({calls()[which].name, [=](Out &o) { o = calls()[which].run(in); }});
    }
    if (c.verbose) c.showStr("call", jobs.back().name);
    std::string const &l = jobs.back().name;
    c.label(l.find('[') != std::string::npos ? "index" : l.find("+-") != std::string::npos ? "sum" : l.find('*') != std::string::npos ? "product" : l.substr(0, l.find(' ', 7)));
  }
  bool const many = g.pick(400) == 0; // also look at the memory kept by repeated calls
  for (auto const &j : jobs) {
    std::string what;
#ifdef VT_MEMCHECK
    unsigned long const errs = VALGRIND_COUNT_ERRORS;
#endif
    Out o;
#ifdef VT_COUNT_MEMORY
    gPeak = gLive;
    size_t const before = gLive;
#endif
    int const r = guarded([&] { j.run(o); }, what);
    ++c.comparisons;
    c.checkf(r != 1, [&] { return j.name + " does not return within a second of CPU time"; });
    c.checkf(r != 2, [&] { return j.name + " throws: " + what; });
#ifdef VT_COUNT_MEMORY
    c.checkf(gPeak - before < (16u << 20), [&] { return j.name + " allocates " + std::to_string(gPeak - before) + " bytes"; });
    if (many) {
      size_t live[4] = {gLive, 0, 0, 0};
      for (size_t b = 0; b < 3; ++b) {
        for (size_t k = 0; k < (size_t)64 << b; ++k) {
          Out p;
          j.run(p);
        }
        live[b + 1] = gLive;
      }
      c.checkf(!(live[0] < live[1] && live[1] < live[2] && live[2] < live[3]), [&] {
        return "repeated calls of " + j.name + " keep memory: " + std::to_string(live[3] - live[0]) + " bytes after 448 calls";
      });
    }
#endif
#ifdef VT_MEMCHECK
    for (double const &x : o.n) (void)VALGRIND_CHECK_MEM_IS_DEFINED(&x, sizeof x);
    (void)VALGRIND_CHECK_MEM_IS_DEFINED(o.t.data(), o.t.size());
    c.checkf(VALGRIND_COUNT_ERRORS == errs, [&] { return j.name + " uses memory which nobody wrote, or reads out of bounds (memcheck)"; });
#endif
  }
}
