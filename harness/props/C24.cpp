// C24 purity: no output, inputs untouched, results independent of history
#include "calls.hpp"
#include <memory>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
char const *const kProperty = "C24";
char const *const kRule =
    "generate a history of 2..12 API calls (278 kinds) with inputs, run it, then run its first call again and "
    "the whole history backwards: results must be bit-identical per call (and, for sampled calls, to the result "
    "of that call alone in a process that has made no other call), inputs and constants unchanged, the global "
    "streams' formatting, the locale and the rounding mode unchanged and nothing written to standard output or "
    "error, nothing taken from the program's random sequence, no change of or dependence on its environment; inputs include related, nearly equal and invalid ones; non-trivial = at least 3 distinct calls in "
    "the history, or 3 of one call";
using namespace vt;

// Environment of the program. While 'alive', every variable is one the user keeps changing.
static struct {
  bool alive = false, set = false;
} env;
extern "C" char **environ;
extern "C" char *getenv(char const *name) noexcept {
  static char one[] = "1";
  if (env.alive) return env.set ? one : nullptr;
  size_t n = std::strlen(name);
  for (char **e = environ; e && *e; ++e)
    if (std::strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
static uint64_t envHash() {
  uint64_t h = 0;
  for (char **e = environ; e && *e; ++e) h = h * 1099511628211u ^ (uint64_t)(uintptr_t)*e;
  return h;
}
// A process forked before any library call; it forks again per request, so that each
// requested call runs alone in a process without history.
struct Zygote {
  int to = -1, from = -1;
  static bool rd(int fd, void *p, size_t n) {
    for (char *q = (char *)p; n;) {
      ssize_t k = read(fd, q, n);
      if (k <= 0) return false;
      q += k, n -= (size_t)k;
    }
    return true;
  }
  static bool wr(int fd, void const *p, size_t n) {
    for (char const *q = (char const *)p; n;) {
      ssize_t k = write(fd, q, n);
      if (k <= 0) return false;
      q += k, n -= (size_t)k;
    }
    return true;
  }
  struct Req {
    size_t call;
    In in;
  };
  static void serve(int in, int out) {
    R().crashPath.clear(), R().statsPath.clear(), R().hashPath.clear();
    std::signal(SIGPIPE, SIG_DFL);
    Req q;
    while (rd(in, &q, sizeof q)) {
      pid_t p = fork();
      if (p == 0) {
        Out o = calls()[q.call].run(q.in);
        std::string b;
        uint64_t h[2] = {o.n.size(), o.t.size()};
        b.append((char *)h, sizeof h), b.append((char *)o.n.data(), 8 * o.n.size()), b.append(o.t);
        wr(out, b.data(), b.size());
        _exit(0);
      }
      int st = -1;
      if (p < 0 || waitpid(p, &st, 0) != p || st != 0) _exit(1); // the reader sees the end of the pipe
    }
    _exit(0);
  }
  Zygote() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return;
    pid_t p = fork();
    if (p == 0) {
      close(a[1]), close(b[0]);
      serve(a[0], b[1]);
    }
    close(a[0]), close(b[1]);
    if (p > 0) to = a[1], from = b[0];
    std::signal(SIGPIPE, SIG_IGN);
  }
  // false: no answer
  bool fresh(size_t call, In const &in, Out &o) {
    if (to < 0) return false;
    Req q{call, in};
    uint64_t h[2];
    if (!wr(to, &q, sizeof q) || !rd(from, h, sizeof h)) {
      close(to), close(from), to = -1;
      return false;
    }
    o.n.resize(h[0]), o.t.resize(h[1]);
    return rd(from, o.n.data(), 8 * h[0]) && rd(from, &o.t[0], h[1]);
  }
};
struct StreamState { // of a global stream, and of the process
  std::ios::fmtflags f;
  std::streamsize p, w;
  std::ios::iostate s, x;
  char fill;
  explicit StreamState(std::ios &o)
      : f(o.flags()), p(o.precision()), w(o.width()), s(o.rdstate()), x(o.exceptions()), fill(o.fill()) {}
  bool operator==(StreamState const &o) const {
    return f == o.f && p == o.p && w == o.w && s == o.s && x == o.x && fill == o.fill;
  }
};
struct World {
  StreamState o{std::cout}, e{std::cerr}, l{std::clog}, i{std::cin};
  int round = std::fegetround();
  uint64_t vars = envHash();
  std::string cloc = std::setlocale(LC_ALL, nullptr);
  std::locale loc, ol = std::cout.getloc(), il = std::cin.getloc();
  std::string differs(World const &w) const {
    if (!(o == w.o && e == w.e && l == w.l && i == w.i)) return "changed the state of a global stream";
    if (vars != w.vars) return "changed the environment";
    if (round != w.round) return "changed the rounding mode";
    if (cloc != w.cloc || !(loc == w.loc && ol == w.ol && il == w.il)) return "changed the locale";
    return "";
  }
};
// What a program may have set up before it calls the library: a global locale of its own, formatting of the
// global streams, a rounding mode, and errno and floating-point flags left by its own computations.
struct Ambient {
  struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "ja"; }
  };
  bool on, noise;
  std::locale was;
  int round = std::fegetround();
  std::ios fmt{nullptr}, efmt{nullptr};
  Ambient(Gen &g, bool active) : on(active), noise(false) {
    if (!on) return;
    fmt.copyfmt(std::cout), efmt.copyfmt(std::cerr);
    static std::locale const own(std::locale::classic(), new Comma);
    size_t what = 1 + g.pick(31);
    if (what & 1) std::locale::global(own);
    if (what & 2) {
      static std::ios::fmtflags const fl[] = {std::ios::hex | std::ios::showbase, std::ios::fixed | std::ios::showpos,
                                              std::ios::scientific | std::ios::uppercase, std::ios::left | std::ios::boolalpha};
      std::cout.flags(fl[g.pick(4)]), std::cout.precision((int)g.pick(20)), std::cout.fill('*'), std::cout.width((int)g.pick(9));
      std::cerr.flags(fl[g.pick(4)] | std::ios::unitbuf), std::cerr.precision(3);
    }
    if (what & 4) {
      static int const rd[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
      std::fesetround(rd[g.pick(3)]);
    }
    noise = what & 8;
    env.alive = what & 16;
  }
  void left(bool first) const { // by computations of the program, before one call
    env.set = first;
    if (!noise) return;
    errno = first ? ERANGE : 0;
    if (first)
      std::feraiseexcept(FE_ALL_EXCEPT);
    else
      std::feclearexcept(FE_ALL_EXCEPT);
  }
  ~Ambient() {
    if (!on) return;
    env.alive = false;
    std::locale::global(was);
    std::fesetround(round), std::feclearexcept(FE_ALL_EXCEPT);
    std::cout.copyfmt(fmt), std::cerr.copyfmt(efmt);
  }
};
struct Capture { // everything written to descriptors 1 and 2 and the C++ global streams while alive
  static int memfd() {
    static int fd = memfd_create("out", MFD_CLOEXEC);
    return fd;
  }
#ifdef VT_FUZZ
  static constexpr int kFds = 1; // sanitizer reports go to descriptor 2
#else
  static constexpr int kFds = 2;
#endif
  int saved[2];
  std::ostringstream o, e, l;
  std::streambuf *bo, *be, *bl;
  std::unique_ptr<World> before;
  bool done = false;
  Capture() {
    std::cout.flush();
    std::fflush(stdout);
    if (ftruncate(memfd(), 0) != 0) {}
    lseek(memfd(), 0, SEEK_SET);
    for (int i = 0; i < kFds; ++i) saved[i] = dup(1 + i), dup2(memfd(), 1 + i);
    bo = std::cout.rdbuf(o.rdbuf()), be = std::cerr.rdbuf(e.rdbuf()), bl = std::clog.rdbuf(l.rdbuf());
    before.reset(new World);
  }
  std::string finish() {
    if (done) return "";
    done = true;
    std::string w = before->differs(World());
    std::fflush(stdout);
    std::cout.rdbuf(bo), std::cerr.rdbuf(be), std::clog.rdbuf(bl);
    off_t n = lseek(memfd(), 0, SEEK_CUR);
    for (int i = 0; i < kFds; ++i) dup2(saved[i], 1 + i), close(saved[i]);
    if (n > 0) return "wrote to standard output or error (descriptor)";
    if (!o.str().empty()) return "wrote to std::cout: " + o.str().substr(0, 80);
    if (!e.str().empty()) return "wrote to std::cerr: " + e.str().substr(0, 80);
    if (!l.str().empty()) return "wrote to std::clog: " + l.str().substr(0, 80);
    return w;
  }
  ~Capture() { finish(); }
};
// another input, close to one already used: what a remembered result would be confused by
static In nearIn(Gen &g, In const &o) {
  In i = o;
  D8 &d = g.pick(3) == 0 ? i.b : i.a;
  switch (g.pick(8)) {
  case 0: d[g.pick(8)] = g.num(); break;
  case 1: {
    double &x = d[g.pick(8)];
    x = Gen::ulps(x, g.pick(2) ? 1 : -1);
    break;
  }
  case 2: d[g.pick(8)] *= 1 + g.mag(-15, -3); break;
  case 3:
    for (double &x : d) x = -x;
    break;
  case 4: { // the same components in other places
    size_t a = 1 + g.pick(3), b = 4 + g.pick(3);
    std::swap(d[a], d[b]), std::swap(d[1], d[2]), std::swap(d[5], d[6]);
    break;
  }
  case 5: std::swap(i.a, i.b); break;
  case 6: {
    size_t k = g.pick(8);
    d[k] = -d[k];
    break;
  }
  default: i.s = g.num();
  }
  return i;
}
void property(Ctx &c) {
  static Zygote zygote; // before any library call of this process
  Gen g(c, c.draw(5) ? Rng{-3, 3, -12, 12, true} : Rng{-150, 150, -150, 150, true});
  auto const &cs = calls();
  size_t n = 2 + g.pick(11);
  std::vector<size_t> which;
  std::vector<In> in;
  bool sameCall = g.pick(3) == 0; // a run of one call with different inputs: catches remembered results
  for (size_t i = 0; i < n; ++i) {
    which.push_back(sameCall && i ? which[0] : g.pick(cs.size()));
    size_t how = i ? g.pick(6) : 5;
    in.push_back(how == 0 ? in[g.pick(in.size())] : how == 1 ? nearIn(g, in[g.pick(in.size())]) : genIn(g));
    if (g.pick(40) == 0) { // an invalid or extreme component
      static double const bad[] = {NAN, INFINITY, 0., -0., 4e-320, 1e300};
      In &x = in.back();
      (g.pick(3) ? x.a : x.b)[g.pick(8)] = bad[g.pick(6)];
    }
  }
  size_t const fresh = g.pick(24) == 0 ? g.pick(n) : n; // which call to repeat without history
  size_t distinct = 0;
  for (size_t i = 0; i < n; ++i) {
    bool seen = false;
    for (size_t j = 0; j < i; ++j) seen = seen || which[j] == which[i];
    distinct += !seen;
  }
  c.nontriv = distinct >= 3 || (sameCall && n >= 3);
  if (c.verbose)
    for (size_t i = 0; i < n; ++i) c.showStr("call", cs[which[i]].name + " a=" + str(in[i].a));
  c.label(sameCall ? "repeated call" : "mixed calls");
  bool const amb = g.pick(4) == 0;
  if (amb) c.label("program with locale, formats, rounding or flags of its own");
  std::vector<In> const before = in;
  std::vector<Out> first(n), second(n);
  Out again;
  std::string wrote;
  {
    Ambient set(g, amb);
    Capture cap;
    std::srand(20261120);
    static int const chance = std::rand();
    std::srand(20261120);
    for (size_t i = 0; i < n; ++i) set.left(true), first[i] = cs[which[i]].run(in[i]);
    set.left(false), again = cs[which[0]].run(in[0]);
    for (size_t i = n; i-- > 0;) set.left(false), second[i] = cs[which[i]].run(in[i]);
    wrote = cap.finish();
    if (std::rand() != chance) wrote += " took from the program's random sequence";
  }
  c.checkf(wrote.empty(), [&] { return "a call " + wrote; });
  c.checkf(again == first[0], [&] { return "repeating " + cs[which[0]].name + " after other calls gives another result"; });
  for (size_t i = 0; i < n; ++i) {
    c.checkf(second[i] == first[i], [&] { return cs[which[i]].name + " depends on the calls made before it"; });
    c.check(std::memcmp(&before[i], &in[i], sizeof(In)) == 0, "an input was modified");
  }
  Out alone;
  if (fresh < n && !amb && zygote.fresh(which[fresh], in[fresh], alone)) {
    c.label("compared to a process without history");
    c.checkf(first[fresh] == alone, [&] { return cs[which[fresh]].name + " gives another result in a process without history"; });
  }
}
