// C25 concurrent use: calls on distinct objects need no synchronisation
#include "calls.hpp"
#include <atomic>
#include <fcntl.h>
#include <memory>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
char const *const kProperty = "C25";
char const *const kRule =
    "generate a batch of 8..40 API calls (278 kinds) with inputs, run it sequentially for the expected results, "
    "then on 2..6 threads at once, each in its own generated rotation of the batch and sharing the same const "
    "inputs, under ThreadSanitizer; or a hot batch of 2..8 calls of 1..3 kinds, repeated by all threads; or a batch "
    "on the threads of a new process that has made no call before, so that they share every first use; every "
    "thread's results must be bit-identical to the sequential ones and no data race reported; non-trivial = at "
    "least 4 distinct calls, or a hot batch, and 2 threads";
using namespace vt;
#if defined(__SANITIZE_THREAD__)
static size_t const kHot = 12, kFresh = 4;
#else
static size_t const kHot = 400, kFresh = 3;
#endif
namespace {
// one persistent pool: thread creation is slow under the sanitizer
struct Pool {
  std::vector<std::thread> th;
  std::atomic<unsigned> gen{0}, left{0};
  std::atomic<bool> quit{false};
  std::vector<size_t> const *which = nullptr;
  std::vector<In> const *in = nullptr;
  std::vector<std::vector<Out>> res;
  std::vector<size_t> rot;
  size_t active = 0;
  size_t reps = 1;
  std::atomic<size_t> bad{0}; // 1 + index of a call that changed its mind
  void work(size_t me) {
    unsigned seen = 0;
    for (;;) {
      unsigned gnow;
      while ((gnow = gen.load(std::memory_order_acquire)) == seen && !quit.load()) std::this_thread::yield();
      if (quit.load()) return;
      seen = gnow;
      if (me < active) {
        size_t n = which->size();
        for (size_t k = 0; k < n; ++k) {
          size_t i = (k + rot[me]) % n;
          res[me][i] = calls()[(*which)[i]].run((*in)[i]);
        }
        for (size_t q = 1; q < reps; ++q)
          for (size_t k = 0; k < n; ++k) {
            size_t i = (k * (me + 1) + q) % n;
            if (!(res[me][i] == calls()[(*which)[i]].run((*in)[i]))) bad.store(i + 1);
          }
      }
      left.fetch_sub(1, std::memory_order_acq_rel);
    }
  }
  void start() {
    res.resize(6), rot.resize(6);
    calls();
    for (size_t i = 0; i < 6; ++i) th.emplace_back([this, i] { work(i); });
  }
  ~Pool() {
    quit = true;
    for (auto &t : th) t.join();
  }
};
// A process forked before any library call and before any thread; it forks again per
// batch, so that the threads of the batch meet the first use of everything in it.
struct Zygote {
  int to = -1, from = -1;
  static bool rd(int fd, void *p, size_t n) {
    for (char *q = (char *)p; n;) {
      ssize_t k = read(fd, q, n);
      if (k <= 0) return false;
      q += k, n -= (size_t)k;
    }
    return true;
  }
  static bool wr(int fd, void const *p, size_t n) {
    for (char const *q = (char const *)p; n;) {
      ssize_t k = write(fd, q, n);
      if (k <= 0) return false;
      q += k, n -= (size_t)k;
    }
    return true;
  }
  struct Ans {
    uint64_t code, call; // 0 held, 1 another result, 2 data race, 3 crash, 4 no answer
  };
  static Ans batch(std::vector<size_t> const &which, std::vector<In> const &in, std::vector<size_t> const &rot) {
    size_t const n = which.size(), nt = rot.size();
    std::vector<std::vector<Out>> res(nt, std::vector<Out>(n));
    calls(), gRace = 0;
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        ready.fetch_add(1);
        while (ready.load() < nt) {} // start together
        for (size_t k = 0; k < n; ++k) {
          size_t i = (k + rot[t]) % n;
          res[t][i] = calls()[which[i]].run(in[i]);
        }
      });
    for (auto &t : th) t.join();
    if (gRace) return {2, 0};
    for (size_t i = 0; i < n; ++i) {
      Out const want = calls()[which[i]].run(in[i]);
      for (size_t t = 0; t < nt; ++t)
        if (!(res[t][i] == want)) return {1, which[i]};
    }
    return {0, 0};
  }
  static void serve(int in, int out) {
    R().crashPath.clear(), R().statsPath.clear(), R().hashPath.clear();
    std::signal(SIGPIPE, SIG_DFL);
    size_t h[2];
    while (rd(in, h, sizeof h)) {
      std::vector<size_t> which(h[0]), rot(h[1]);
      std::vector<In> ins(h[0]);
      if (!rd(in, which.data(), 8 * h[0]) || !rd(in, rot.data(), 8 * h[1]) || !rd(in, ins.data(), sizeof(In) * h[0])) break;
      pid_t p = fork();
      if (p == 0) {
        Ans const a = batch(which, ins, rot);
        wr(out, &a, sizeof a);
        _exit(0);
      }
      int st = -1;
      Ans a{4, 0};
      if (p > 0 && waitpid(p, &st, 0) == p && st == 0) continue;
      if (p > 0 && st != -1 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) a.code = 3;
      wr(out, &a, sizeof a);
    }
    _exit(0);
  }
  Zygote() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return;
    pid_t p = fork();
    if (p == 0) {
      close(a[1]), close(b[0]);
      serve(a[0], b[1]);
    }
    close(a[0]), close(b[1]);
    if (p > 0) to = a[1], from = b[0];
    std::signal(SIGPIPE, SIG_IGN);
  }
  Ans fresh(std::vector<size_t> const &which, std::vector<In> const &in, std::vector<size_t> const &rot) {
    size_t const h[2] = {which.size(), rot.size()};
    Ans a{4, 0};
    if (to < 0 || !wr(to, h, sizeof h) || !wr(to, which.data(), 8 * h[0]) || !wr(to, rot.data(), 8 * h[1]) ||
        !wr(to, in.data(), sizeof(In) * h[0]) || !rd(from, &a, sizeof a))
      a = {4, 0};
    return a;
  }
};
} // namespace
void property(Ctx &c) {
  static Zygote zygote; // before any library call and any thread of this process
  Gen g(c, Rng{-3, 3, -12, 12, true});
  auto const &cs = calls();
  // broad: many kinds of call at once; hot: all threads in the same one to three calls,
  // again and again with few inputs, so that they meet inside them
  bool const hot = g.pick(2);
  std::vector<size_t> which;
  std::vector<In> in;
  size_t n = 8 + g.pick(33), reps = 1;
  if (hot) {
    n = 2 + g.pick(7);
    reps = kHot / 2 + g.pick(kHot);
    size_t kinds[3], nk = 1 + g.pick(3);
    for (size_t i = 0; i < nk; ++i) kinds[i] = g.pick(cs.size());
    for (size_t i = 0; i < n; ++i) which.push_back(kinds[g.pick(nk)]), in.push_back(genIn(g));
  } else
    for (size_t i = 0; i < n; ++i) {
      which.push_back(g.pick(cs.size()));
      in.push_back(i && g.pick(3) == 0 ? in[g.pick(in.size())] : genIn(g));
    }
  size_t nt = 2 + g.pick(5);
  bool const fresh = g.pick(kFresh) == 0;
  size_t distinct = 0;
  for (size_t i = 0; i < n; ++i) {
    bool seen = false;
    for (size_t j = 0; j < i; ++j) seen = seen || which[j] == which[i];
    distinct += !seen;
  }
  c.nontriv = hot || distinct >= 4;
  c.label(std::to_string(nt) + (hot ? " threads, hot" : " threads"));
  if (c.verbose)
    for (size_t i = 0; i < n && i < 6; ++i) c.showStr("call", cs[which[i]].name + " a=" + str(in[i].a));
  if (fresh) {
    std::vector<size_t> rot;
    for (size_t t = 0; t < nt; ++t) rot.push_back(g.pick(3) ? g.pick(n) : 0);
    Zygote::Ans const a = zygote.fresh(which, in, rot);
    c.label(a.code == 4 ? "first use: no answer" : "first use in a new process");
    c.check(a.code != 2, "data race reported by ThreadSanitizer among the first calls of a process");
    c.check(a.code != 3, "a process whose first calls are made by several threads crashed");
    c.checkf(a.code != 1, [&] { return cs[a.call].name + " gave another result on a thread, in a process without history"; });
    return;
  }
  static std::unique_ptr<Pool> pool;
  if (!pool) {
    pool.reset(new Pool);
    pool->start();
  }
  for (size_t t = 0; t < nt; ++t) {
    pool->rot[t] = g.pick(n);
    pool->res[t].assign(n, Out{});
  }
  pool->which = &which, pool->in = &in, pool->active = nt, pool->reps = reps;
  pool->bad.store(0);
  pool->left.store(6, std::memory_order_release);
  pool->gen.fetch_add(1, std::memory_order_acq_rel);
  while (pool->left.load(std::memory_order_acquire) != 0) std::this_thread::yield();
  c.checkf(pool->bad.load() == 0, [&] { return cs[which[pool->bad.load() - 1]].name + " gave two results for one input on one thread"; });
  // sequential result afterwards: the threads meet any lazily made state first
  for (size_t i = 0; i < n; ++i) {
    Out const want = cs[which[i]].run(in[i]);
    for (size_t t = 0; t < nt; ++t)
      c.checkf(pool->res[t][i] == want, [&] { return cs[which[i]].name + " gave another result on a thread"; });
  }
}
