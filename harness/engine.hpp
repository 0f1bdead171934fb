// Property-test engine: choice tapes, deterministic random driver, libFuzzer
// driver, shrinking, replay, coverage statistics.  One property per binary.
//
// A test case is a *choice tape*: the sequence of bounded integers the
// generators drew.  Random mode fills the tape from a PRNG seeded with
// (VERIF_SEED, property, shard, case index); fuzz mode decodes libFuzzer's bytes
// into the tape (and continues deterministically from a hash of the bytes when
// they run out); replay and shrink modes read the tape back.  The property body
// is the same in every mode.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <ctime>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vt {

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hashStr(char const *s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}
inline uint64_t bitsOf(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
inline std::string num17(double d) {
  char buf[64];
  std::snprintf(buf, sizeof buf, "%.17g", d);
  return buf;
}
inline std::string hexd(double d) {
  char buf[64];
  std::snprintf(buf, sizeof buf, "%a", d);
  return buf;
}

struct Fail {
  std::string msg;
};

// ---------------------------------------------------------------- choices
struct Src {
  std::vector<uint64_t> tape;
  size_t pos = 0;
  enum Mode { kRandom, kBytes, kReplay } mode = kRandom;
  uint64_t rng = 0;
  uint8_t const *data = nullptr;
  size_t size = 0, bpos = 0;

  void startRandom(uint64_t seed) {
    mode = kRandom, rng = seed, tape.clear(), pos = 0;
  }
  void startBytes(uint8_t const *d, size_t n) {
    mode = kBytes, data = d, size = n, bpos = 0, tape.clear(), pos = 0;
    rng = 0x1234;
    for (size_t i = 0; i < n; ++i) rng = mix64(rng ^ d[i]);
  }
  void startReplay(std::vector<uint64_t> t) {
    mode = kReplay, tape = std::move(t), pos = 0;
  }
  uint64_t rnd() {
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t x = rng;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  // uniform in [0,n); n==0 means the full 64 bit range
  uint64_t draw(uint64_t n) {
    if (n == 1) return 0;
    uint64_t v;
    if (mode == kReplay) {
      v = pos < tape.size() ? tape[pos] : 0;
      if (n) v %= n;
      if (pos < tape.size()) tape[pos] = v;
      ++pos;
      return v;
    }
    if (mode == kBytes && bpos < size) {
      int k = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
      v = 0;
      for (int i = 0; i < k; ++i)
        v |= (uint64_t)(bpos < size ? data[bpos++] : 0) << (8 * i);
    } else
      v = rnd();
    if (n) v = (mode == kBytes) ? v % n : (uint64_t)(((unsigned __int128)v * n) >> 64);
    tape.push_back(v);
    ++pos;
    return v;
  }
};

// ---------------------------------------------------------------- context
struct Ctx {
  Src src;
  uint64_t h = 0;        // hash of the generated values
  bool nontriv = false;  // by the property's stated rule
  bool verbose = false;  // record a description of the case
  std::string desc;
  std::vector<double> pool; // literals mined from the code under test
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> known; // excluded known findings, by key
  std::vector<std::string> knownKeys;
  uint64_t comparisons = 0;

  uint64_t draw(uint64_t n) {
    uint64_t v = src.draw(n);
    return v;
  }
  void note(uint64_t v) { h = mix64(h ^ v); }
  void note(double v) { h = mix64(h ^ bitsOf(v)); }
  void reset() {
    h = 0x5bd1e995;
    nontriv = false;
    desc.clear();
  }
  void label(char const *s) { ++labels[s]; }
  void label(std::string const &s) { ++labels[s]; }
  template <class F> void show(char const *name, F const &f) {
    if (verbose) desc += std::string(desc.empty() ? "" : "; ") + name + "=" + f();
  }
  void showStr(char const *name, std::string const &v) {
    if (verbose) desc += std::string(desc.empty() ? "" : "; ") + name + "=" + v;
  }
  [[noreturn]] void fail(std::string const &m) { throw Fail{m}; }
  void check(bool ok, char const *m) {
    ++comparisons;
    if (!ok) throw Fail{m};
  }
  template <class F> void checkf(bool ok, F const &f) {
    ++comparisons;
    if (!ok) throw Fail{f()};
  }
  bool isKnown(std::string const &key) {
    for (auto const &k : knownKeys)
      if (k == key) {
        ++known[key];
        return true;
      }
    return false;
  }
};

} // namespace vt

// Provided by each property file:
extern char const *const kProperty;
extern char const *const kRule;
void property(vt::Ctx &c);

namespace vt {

// ---------------------------------------------------------------- running
struct Run {
  Ctx ctx;
  std::string crashPath; // where to dump the tape when a case fails or crashes
  std::string statsPath, hashPath;
  uint64_t evals = 0, nontrivial = 0;
  std::vector<uint64_t> hashes;
  size_t hashCap = 6000000;
  std::vector<std::string> samples;
  std::vector<std::string> ntSamples;
  bool fuzzing = false;
  uint64_t seed = 0, shard = 0, index = 0;
};
inline Run &R() {
  static Run *r = new Run;
  return *r;
}
inline std::atomic<uint64_t> gTick{0};

inline std::string jsonEsc(std::string const &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\')
      o += '\\', o += (char)ch;
    else if (ch < 32 || ch > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += (char)ch;
  }
  return o;
}

inline void dumpTape(char const *why, std::string const &msg) {
  if (R().crashPath.empty()) return;
  FILE *f = std::fopen(R().crashPath.c_str(), "w");
  if (!f) return;
  std::fprintf(f, "property %s\n", kProperty);
  std::fprintf(f, "why %s\n", why);
  std::string m = msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  std::fprintf(f, "message %s\n", m.c_str());
  std::fprintf(f, "origin %s %" PRIu64 " %" PRIu64 " %" PRIu64 "\n", R().fuzzing ? "fuzz" : "random",
               R().seed, R().shard, R().index);
  std::fprintf(f, "pool %zu", R().ctx.pool.size());
  for (double d : R().ctx.pool) std::fprintf(f, " %s", hexd(d).c_str());
  std::fprintf(f, "\nknown %zu", R().ctx.knownKeys.size());
  for (auto const &k : R().ctx.knownKeys) std::fprintf(f, " %s", k.c_str());
  std::fprintf(f, "\ntape %zu", R().ctx.src.tape.size());
  for (uint64_t v : R().ctx.src.tape) std::fprintf(f, " %" PRIu64, v);
  std::fprintf(f, "\n");
  std::fclose(f);
}

inline void onSignal(int sig) {
  char b[64];
  std::snprintf(b, sizeof b, "signal %d", sig);
  dumpTape("crash", b);
  _exit(77);
}
inline void onDeath() { dumpTape("sanitizer", "sanitizer report (see log)"); }

inline uint64_t gLastTick = ~0ull;
inline void onTimer(int) {
  uint64_t t = gTick.load();
  if (t == gLastTick) { // one case used > 20 s of CPU (they take microseconds)
    dumpTape("hang", "a single case used more than 20 s of CPU time");
    _exit(78);
  }
  gLastTick = t;
}

// returns true when the case passed
// ThreadSanitizer reports are turned into ordinary failures of the case they occur in
inline std::atomic<int> gRace{0};
inline bool runOne(std::string *msg) {
  Run &r = R();
  r.ctx.reset();
  ++gTick;
  try {
    gRace = 0;
    property(r.ctx);
    if (gRace) {
      if (msg) *msg = "data race reported by ThreadSanitizer";
      return false;
    }
    return true;
  } catch (Fail const &f) {
    if (msg) *msg = f.msg;
    return false;
  } catch (std::exception const &e) {
    if (msg) *msg = std::string("unexpected exception: ") + e.what();
    return false;
  }
}

inline void account() {
  Run &r = R();
  ++r.evals;
  if (r.ctx.nontriv) {
    ++r.nontrivial;
    if (r.hashes.size() < r.hashCap) r.hashes.push_back(r.ctx.h);
  }
}

inline void writeStats() {
  Run &r = R();
  if (r.statsPath.empty()) return;
  std::sort(r.hashes.begin(), r.hashes.end());
  r.hashes.erase(std::unique(r.hashes.begin(), r.hashes.end()), r.hashes.end());
  if (!r.hashPath.empty()) {
    FILE *f = std::fopen(r.hashPath.c_str(), "wb");
    if (f) {
      std::fwrite(r.hashes.data(), 8, r.hashes.size(), f);
      std::fclose(f);
    }
  }
  FILE *f = std::fopen(r.statsPath.c_str(), "w");
  if (!f) return;
  std::fprintf(f, "{\"evaluations\":%" PRIu64 ",\"nontrivial\":%" PRIu64
                  ",\"distinct\":%zu,\"comparisons\":%" PRIu64 ",\"rule\":\"%s\",\"labels\":{",
               r.evals, r.nontrivial, r.hashes.size(), r.ctx.comparisons, jsonEsc(kRule).c_str());
  bool first = true;
  for (auto const &kv : r.ctx.labels) {
    std::fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jsonEsc(kv.first).c_str(), kv.second);
    first = false;
  }
  std::fprintf(f, "},\"known\":{");
  first = true;
  for (auto const &kv : r.ctx.known) {
    std::fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jsonEsc(kv.first).c_str(), kv.second);
    first = false;
  }
  std::fprintf(f, "},\"samples\":[");
  first = true;
  for (auto const &s : r.ntSamples) {
    std::fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(s).c_str());
    first = false;
  }
  std::fprintf(f, "]}\n");
  std::fclose(f);
}

inline bool readReplay(char const *path, std::vector<uint64_t> &tape) {
  std::ifstream in(path);
  if (!in) return false;
  std::string line;
  bool got = false;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string key;
    ls >> key;
    size_t n = 0;
    if (key == "pool") {
      ls >> n;
      R().ctx.pool.clear();
      std::string tok;
      while (n-- && ls >> tok) R().ctx.pool.push_back(std::strtod(tok.c_str(), nullptr));
    } else if (key == "known") {
      ls >> n;
      R().ctx.knownKeys.clear();
      std::string tok;
      while (n-- && ls >> tok) R().ctx.knownKeys.push_back(tok);
    } else if (key == "tape") {
      ls >> n;
      tape.clear();
      uint64_t v;
      while (n-- && ls >> v) tape.push_back(v);
      got = true;
    }
  }
  return got;
}

inline bool fails(std::vector<uint64_t> const &t, std::string *msg, std::vector<uint64_t> *used) {
  R().ctx.src.startReplay(t);
  bool ok = runOne(msg);
  if (!ok && used) {
    *used = R().ctx.src.tape;
    if (used->size() > R().ctx.src.pos) used->resize(R().ctx.src.pos);
  }
  return !ok;
}

// Hypothesis-style tape shrinker: delete blocks, zero blocks, lower values.
inline std::vector<uint64_t> shrink(std::vector<uint64_t> t, std::string *msg) {
  std::vector<uint64_t> used;
  if (!fails(t, msg, &used)) return t;
  t = used;
  auto better = [](std::vector<uint64_t> const &a, std::vector<uint64_t> const &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  int budget = 40000;
  std::time_t const until = std::time(nullptr) + 90;
  auto attempt = [&](std::vector<uint64_t> const &cand) {
    if (std::time(nullptr) > until) budget = 0;
    if (budget-- <= 0) return false;
    std::string m;
    std::vector<uint64_t> u;
    if (fails(cand, &m, &u) && better(u, t)) {
      t = u;
      *msg = m;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    for (size_t len : {16u, 8u, 4u, 2u, 1u})
      for (size_t i = 0; i + len <= t.size() && budget > 0;) {
        auto c = t;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c))
          progress = true;
        else
          ++i;
      }
    for (size_t i = 0; i < t.size() && budget > 0; ++i) {
      if (!t[i]) continue;
      auto c = t;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      // binary descent
      uint64_t lo = 0, hi = i < t.size() ? t[i] : 0;
      while (lo + 1 < hi && budget > 0 && i < t.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = t;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
          hi = i < t.size() ? std::min(t[i], mid) : 0;
        } else
          lo = mid;
      }
    }
  }
  return t;
}

inline void recordSample() {
  Run &r = R();
  if (r.ntSamples.size() >= 12) return;
  // keep samples spread over the run: first few, then powers
  if (!r.ctx.nontriv) return;
  r.ntSamples.push_back(r.ctx.desc.substr(0, 900));
}

#ifdef VT_FUZZ
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv,
                                   int (*cb)(uint8_t const *data, size_t size));
inline void installHandlers();
inline int fuzzOne(uint8_t const *data, size_t size) {
  Run &r = R();
  static bool once = (installHandlers(), true); // libFuzzer has installed its own by now
  (void)once;
  r.ctx.src.startBytes(data, size);
  std::string msg;
  bool want = r.ntSamples.size() < 3 && (r.evals % 997) == 500;
  r.ctx.verbose = want;
  bool ok = runOne(&msg);
  account();
  if (want) recordSample();
  if (!ok) {
    dumpTape("oracle", msg);
    std::fprintf(stderr, "ORACLE FAILURE: %s\n", msg.c_str());
    _exit(76);
  }
  return 0;
}
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(VT_FUZZ)
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
#define VT_HAVE_DEATH 1
#endif
inline void installHandlers() {
#ifdef VT_HAVE_DEATH
  __sanitizer_set_death_callback(onDeath);
#endif
  // on a stack of its own, to see endless recursion too
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt, ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) {
    struct sigaction a {};
    a.sa_handler = onSignal;
    a.sa_flags = SA_ONSTACK;
    sigaction(s, &a, nullptr);
  }
}

inline int mainImpl(int argc, char **argv) {
  Run &r = R();
  std::string mode = argc > 1 ? argv[1] : "random";
  uint64_t seed = 1, shard = 0, cases = 1000, from = 0, soft = 0;
  std::string in, out;
  std::vector<std::string> rest;
  std::vector<std::string> hashFiles;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = std::strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--shard") shard = std::strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--from") from = std::strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--cases") cases = std::strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--soft") soft = std::strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--stats") r.statsPath = nxt();
    else if (a == "--hashes") r.hashPath = nxt();
    else if (a == "--crash") r.crashPath = nxt();
    else if (a == "--in") in = nxt();
    else if (a == "--out") out = nxt();
    else if (a == "--pool") {
      std::ifstream f(nxt());
      std::string tok;
      while (f >> tok) r.ctx.pool.push_back(std::strtod(tok.c_str(), nullptr));
    } else if (a == "--known") r.ctx.knownKeys.push_back(nxt());
    else if (a == "--") {
      for (++i; i < argc; ++i) rest.push_back(argv[i]);
    } else hashFiles.push_back(a);
  }
  if (mode == "merge") {
    std::vector<uint64_t> all;
    for (auto const &p : hashFiles) {
      FILE *f = std::fopen(p.c_str(), "rb");
      if (!f) continue;
      uint64_t buf[4096];
      size_t n;
      while ((n = std::fread(buf, 8, 4096, f)) > 0) all.insert(all.end(), buf, buf + n);
      std::fclose(f);
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    std::printf("%zu\n", all.size());
    return 0;
  }
  installHandlers();
  {
    std::signal(SIGVTALRM, onTimer);
    itimerval tv{};
    tv.it_interval.tv_sec = 20;
    tv.it_value.tv_sec = 20;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  }
  if (mode == "replay") {
    std::vector<uint64_t> t;
    if (!readReplay(in.c_str(), t)) {
      std::fprintf(stderr, "cannot read %s\n", in.c_str());
      return 2;
    }
    r.ctx.verbose = true;
    r.ctx.src.startReplay(t);
    std::string msg;
    bool ok = runOne(&msg);
    std::printf("case: %s\n", r.ctx.desc.c_str());
    if (ok) {
      std::printf("PASS\n");
      return 0;
    }
    std::printf("FAIL: %s\n", msg.c_str());
    return 1;
  }
  if (mode == "shrink") {
    std::vector<uint64_t> t;
    if (!readReplay(in.c_str(), t)) return 2;
    std::string msg;
    std::vector<uint64_t> u;
    if (!fails(t, &msg, &u)) return 0; // does not reproduce
    t = shrink(t, &msg);
    r.ctx.verbose = true;
    fails(t, &msg, &u);
    r.ctx.src.tape = t;
    r.crashPath = out;
    dumpTape("oracle", msg);
    FILE *f = std::fopen(out.c_str(), "a");
    if (f) {
      std::string d = r.ctx.desc;
      std::replace(d.begin(), d.end(), '\n', ' ');
      std::fprintf(f, "case %s\n", d.c_str());
      std::fclose(f);
    }
    return 1;
  }
#ifdef VT_FUZZ
  if (mode == "fuzz") {
    std::vector<char *> av;
    av.push_back(argv[0]);
    for (auto &s : rest) av.push_back(const_cast<char *>(s.c_str()));
    av.push_back(nullptr);
    int ac = (int)av.size() - 1;
    char **ap = av.data();
    r.fuzzing = true;
    std::atexit([] { writeStats(); });
    int rc = LLVMFuzzerRunDriver(&ac, &ap, fuzzOne);
    return rc;
  }
#endif
  if (mode == "random") {
    uint64_t base = mix64(mix64(seed) ^ hashStr(kProperty) ^ mix64(shard * 7919 + 13));
    r.seed = seed, r.shard = shard;
    std::time_t const t0 = std::time(nullptr);
    for (uint64_t i = from; i < cases; ++i) {
      // a slow machine: stop early, report what was explored
      if (soft && i % 512 == 0 && std::time(nullptr) - t0 >= (std::time_t)soft) break;
      r.index = i;
      r.ctx.src.startRandom(mix64(base ^ mix64(i)));
      bool want = i < 4 ? (i % 2 == 0) : (r.ntSamples.size() < 6 && i % 1009 == 0);
      r.ctx.verbose = want;
      std::string msg;
      bool ok = runOne(&msg);
      account();
      if (want) recordSample();
      if (!ok) {
        dumpTape("oracle", msg);
        std::fprintf(stderr, "ORACLE FAILURE (shard %" PRIu64 " case %" PRIu64 "): %s\n", shard, i,
                     msg.c_str());
        writeStats();
        return 1;
      }
    }
    writeStats();
    return 0;
  }
  std::fprintf(stderr, "unknown mode %s\n", mode.c_str());
  return 2;
}
} // namespace vt

#if defined(__SANITIZE_THREAD__)
// called by the ThreadSanitizer runtime under its locks: only set the flag
extern "C" void __tsan_on_report(void *) { vt::gRace.store(1, std::memory_order_relaxed); }
#endif
#ifndef VT_NO_MAIN
int main(int argc, char **argv) { return vt::mainImpl(argc, argv); }
#endif
