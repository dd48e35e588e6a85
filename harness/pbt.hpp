// Property-based testing engine: choice-sequence generators, forked workers, universal shrinking, replay.
//
// A target is a function void(pbt::Case&). It draws every random decision from the case's choice source,
// so that a case is a finite sequence of integers. Any failure (a failed PCHECK, an escaped exception, a
// crash, a sanitizer report, a hang) is shrunk by editing that sequence and re-running the target in a
// forked child, and the shrunk sequence is the replay file.
#pragma once
#include <algorithm>
#include <array>
#include <cctype>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(std::string_view s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return mix(h);
}

struct Fail {
  std::string msg;
};
struct Discard {};

// ---------------------------------------------------------------------------------------------- choices
constexpr size_t MAX_CHOICES = 1u << 20;
struct Record { // shared with the parent, so that it survives a crash
  uint32_t n;
  uint32_t v[MAX_CHOICES];
};

struct Src {
  bool                         replaying = false;
  const std::vector<uint32_t>* in        = nullptr;
  size_t                       pos       = 0;
  uint64_t                     st        = 0;
  Record*                      rec       = nullptr;

  uint32_t next32() {
    st += 0x9E3779B97F4A7C15ull;
    return static_cast<uint32_t>(mix(st) >> 16);
  }
  // uniform in [0,n); n>=1. Zero is the simplest choice.
  uint32_t below(uint32_t n) {
    uint32_t r;
    if (n <= 1)
      return 0;
    if (replaying) {
      r = pos < in->size() ? (*in)[pos] : 0;
      ++pos;
      if (r >= n)
        r = n - 1;
    } else {
      r = static_cast<uint32_t>((static_cast<uint64_t>(next32()) * n) >> 32);
    }
    if (rec && rec->n < MAX_CHOICES)
      rec->v[rec->n++] = r;
    return r;
  }
  int  range(int lo, int hi) { return hi <= lo ? lo : lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); }
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; } // shrinks to false
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(static_cast<uint32_t>(v.size()))];
  }
};

constexpr int MAX_LABELS = 96;
struct Case {
  Src&                       s;
  std::ostringstream         desc;       // canonical description of the input: identity of the case
  bool                       nontrivial = false;
  std::vector<std::string>   labels;
  uint64_t                   checks = 0; // oracle comparisons made
  explicit Case(Src& src) : s(src) {}
  void label(const char* l) { labels.emplace_back(l); }
};

#define PCHECK(cond, ...)                                                                                              \
  do {                                                                                                                 \
    ++c.checks;                                                                                                        \
    if (!(cond)) {                                                                                                     \
      std::ostringstream os_;                                                                                          \
      os_ << #cond << " failed: " << __VA_ARGS__;                                                                      \
      throw ::pbt::Fail{os_.str()};                                                                                    \
    }                                                                                                                  \
  } while (0)
#define PFAIL(...)                                                                                                     \
  do {                                                                                                                 \
    std::ostringstream os_;                                                                                            \
    os_ << __VA_ARGS__;                                                                                                \
    throw ::pbt::Fail{os_.str()};                                                                                      \
  } while (0)

struct Target {
  std::string                name;
  std::function<void(Case&)> fn;
  double                     weight;
};
inline std::vector<Target>& targets() {
  static std::vector<Target> t;
  return t;
}
struct Reg {
  Reg(std::string n, std::function<void(Case&)> f, double w = 1.0) { targets().push_back({std::move(n), std::move(f), w}); }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b)  PBT_CAT2(a, b)
#define PBT_REG(name, fn, w) static ::pbt::Reg PBT_CAT(reg_, __COUNTER__)(name, fn, w)

template <class V>
std::string show(const V& v) {
  std::ostringstream o;
  o << '[';
  bool first = true;
  for (auto&& x : v) {
    if (!first)
      o << ' ';
    first = false;
    if constexpr (requires { o << x; })
      o << x;
    else if constexpr (requires { o << x.first << x.second; })
      o << '(' << x.first << ',' << x.second << ')';
    else
      o << show(x);
  }
  o << ']';
  return o.str();
}

// ---------------------------------------------------------------------------------------------- running
enum Status : int { ST_OK = 0, ST_FAIL = 1, ST_CRASH = 2, ST_HANG = 3 };

struct Shared {
  volatile int      cur_target;
  volatile uint64_t cur_index;
  volatile int      running;  // inside a case
  volatile int      done;     // worker finished its plan
  volatile int      fail_target;
  volatile uint64_t fail_index;
  char              fail_msg[4096];
  uint64_t          evals, nontriv, checks, discarded;
  uint64_t          target_evals[256];
  uint32_t          nlabels;
  char              label[MAX_LABELS][48];
  uint64_t          label_n[MAX_LABELS];
  char              sample[24][700];
  uint32_t          nsamples;
  uint64_t          nhash;
};
constexpr uint64_t MAX_HASH = 6u << 20;

template <class T>
T* share(size_t bytes = sizeof(T)) {
  void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return static_cast<T*>(p);
}

inline int case_cpu_limit = 30; // seconds of CPU per case before it counts as a hang
inline void arm(int sec) {
  itimerval tv{};
  tv.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// Runs one case in this process. Returns ST_OK or ST_FAIL; a crash does not return.
inline int run_case(const Target& t, Src& src, std::string& msg, Case& c) {
  try {
    t.fn(c);
    return ST_OK;
  } catch (const Discard&) {
    c.nontrivial = false;
    c.label("discarded");
    return ST_OK;
  } catch (const Fail& f) {
    msg = f.msg;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
  } catch (...) { msg = "unexpected exception of unknown type"; }
  return ST_FAIL;
}

struct Outcome {
  int                   status = ST_OK;
  std::string           msg;
  std::string           desc;
  std::vector<uint32_t> used;
};

struct IsoShared {
  volatile int status;
  char         msg[8192];
  char         desc[60000];
  Record       rec;
};
inline std::string errfile_tail(const char* path, size_t maxn = 6000) {
  std::ifstream f(path);
  std::string   s((std::istreambuf_iterator<char>(f)), {});
  if (s.size() > maxn)
    s.resize(maxn);
  return s;
}
inline void put(char* dst, size_t cap, const std::string& s) {
  size_t n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

// Where the running isolated case keeps its description. publish() stores it before a step that may end the process.
inline IsoShared*& published() {
  static IsoShared* p = nullptr;
  return p;
}
inline void put(char*, size_t, const std::string&);
inline void publish(Case& c) {
  if (published()) put(published()->desc, sizeof published()->desc, c.desc.str());
}

// Runs a case in a forked child: either from a seed, or from a sequence of choices.
inline Outcome run_isolated(const Target& t, const std::vector<uint32_t>* choices, uint64_t seed, int cpu_limit) {
  static IsoShared* sh = share<IsoShared>();
  sh->status           = -1;
  sh->msg[0] = sh->desc[0] = 0;
  sh->rec.n                = 0;
  char errpath[64];
  snprintf(errpath, sizeof errpath, "/tmp/pbt_err_%d", static_cast<int>(getpid()));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errpath, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
    }
    Src src;
    src.replaying = choices != nullptr;
    src.in        = choices;
    src.st        = seed;
    src.rec       = &sh->rec;
    Case c(src);
    // keep the description visible after a crash
    struct D {
      Case&      c;
      IsoShared* sh;
    };
    arm(cpu_limit);
    std::string msg;
    static Case*      pc;
    static IsoShared* psh;
    pc  = &c;
    psh = sh;
    auto onabrt = [](int sig) {
      put(psh->desc, sizeof psh->desc, pc->desc.str());
      signal(sig, SIG_DFL);
      raise(sig);
    };
#ifndef PBT_PLAIN_SIGNALS // (handlers do not go with the thread sanitizer; see publish())
    signal(SIGABRT, onabrt);
    signal(SIGPROF, onabrt);
#endif
    published() = sh;
    int st = run_case(t, src, msg, c);
    arm(0);
    put(sh->msg, sizeof sh->msg, msg);
    put(sh->desc, sizeof sh->desc, c.desc.str());
    sh->status = st;
    _exit(0);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.used.assign(sh->rec.v, sh->rec.v + sh->rec.n);
  o.desc = sh->desc;
  if (sh->status == ST_OK || sh->status == ST_FAIL) {
    o.status = sh->status;
    o.msg    = sh->msg;
  } else if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGPROF) {
    o.status = ST_HANG;
    o.msg    = "the case did not finish within its CPU limit";
  } else {
    o.status = ST_CRASH;
    std::ostringstream m;
    if (WIFSIGNALED(ws))
      m << "killed by signal " << WTERMSIG(ws);
    else
      m << "exited with status " << WEXITSTATUS(ws);
    m << "\n" << errfile_tail(errpath);
    o.msg = m.str();
  }
  unlink(errpath);
  return o;
}

// Shrinks a failing choice sequence. Any failure counts as the failure.
inline Outcome shrink(const Target& t, Outcome best, double max_s) {
  auto     t0    = std::chrono::steady_clock::now();
  auto     spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  int      lim   = best.status == ST_HANG ? 3 : 10;
  uint64_t tries = 0;
  auto     attempt = [&](std::vector<uint32_t> cand) -> bool {
    if (spent() > max_s || tries > 20000)
      return false;
    ++tries;
    Outcome o = run_isolated(t, &cand, 0, lim);
    if (o.status == ST_OK)
      return false;
    auto better = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
      if (a.size() != b.size())
        return a.size() < b.size();
      return a < b;
    };
    if (!better(o.used, best.used))
      return false;
    best = std::move(o);
    return true;
  };
  bool progress = true;
  while (progress && spent() < max_s) {
    progress = false;
    // delete chunks
    for (size_t k = std::max<size_t>(1, best.used.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.used.size() && spent() < max_s;) {
        auto cand = best.used;
        cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + k));
        if (attempt(std::move(cand)))
          progress = true;
        else
          i += k;
      }
      if (k == 1)
        break;
    }
    // delete one element and decrement an earlier count
    for (size_t i = 0; i < best.used.size() && i < 40 && spent() < max_s; ++i) {
      if (best.used[i] == 0)
        continue;
      for (size_t len = 1; len <= 4; ++len) {
        bool hit = false;
        for (size_t j = i + 1; j + len <= best.used.size() && spent() < max_s; ++j) {
          auto cand = best.used;
          cand[i] -= 1;
          cand.erase(cand.begin() + static_cast<long>(j), cand.begin() + static_cast<long>(j + len));
          if (attempt(std::move(cand))) {
            progress = hit = true;
            break;
          }
        }
        if (hit)
          break;
      }
    }
    // zero chunks, then minimise single values
    for (size_t k = std::max<size_t>(1, best.used.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.used.size() && spent() < max_s; i += k) {
        auto cand = best.used;
        bool any  = false;
        for (size_t j = i; j < i + k; ++j)
          if (cand[j]) {
            cand[j] = 0;
            any     = true;
          }
        if (any && attempt(std::move(cand)))
          progress = true;
      }
      if (k == 1)
        break;
    }
    for (size_t i = 0; i < best.used.size() && spent() < max_s; ++i) {
      uint32_t lo = 0, hi = best.used[i];
      while (lo < hi && spent() < max_s) {
        uint32_t mid  = lo + (hi - lo) / 2;
        auto     cand = best.used;
        if (i >= cand.size())
          break;
        cand[i] = mid;
        if (attempt(std::move(cand))) {
          progress = true;
          if (i >= best.used.size())
            break;
          hi = best.used[i];
        } else
          lo = mid + 1;
      }
    }
  }
  return best;
}

inline uint64_t case_seed(uint64_t seed, const std::string& target, uint64_t index) {
  return mix(mix(seed * 0x2545F4914F6CDD1Dull + 17) ^ hash_str(target) ^ mix(index + 0xABCDEF));
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += static_cast<char>(ch);
  }
  return o;
}

struct Options {
  uint64_t    seed   = 1;
  uint64_t    cases  = 1000; // per target of weight 1
  double      time_s = 30;
  int         jobs   = 8;
  std::string out;     // JSON result
  std::string replay_dir;
  bool        first = false;
  std::string only;    // run a single target
  uint64_t    skip_lo = 0;
};

// One worker's stream: every target in turn, blocks of cases, interleaved.
inline void worker(const Options& o, int w, Shared* sh, uint64_t* hashes, std::set<int> skip, uint64_t start_round) {
  auto  t0 = std::chrono::steady_clock::now();
  auto& ts = targets();
  constexpr uint64_t B = 8;
  uint64_t           max_n = 0;
  for (auto& t : ts)
    max_n = std::max<uint64_t>(max_n, static_cast<uint64_t>(o.cases * t.weight));
  uint64_t rounds = max_n / (B * static_cast<uint64_t>(o.jobs)) + 1;
  for (uint64_t r = start_round; r < rounds; ++r) {
    for (size_t ti = 0; ti < ts.size(); ++ti) {
      if (skip.count(static_cast<int>(ti)))
        continue;
      if (!o.only.empty() && ts[ti].name != o.only)
        continue;
      uint64_t n = static_cast<uint64_t>(o.cases * ts[ti].weight);
      for (uint64_t b = 0; b < B; ++b) {
        uint64_t idx = (r * static_cast<uint64_t>(o.jobs) + static_cast<uint64_t>(w)) * B + b;
        if (idx >= n)
          break;
        Src src;
        src.st = case_seed(o.seed, ts[ti].name, idx);
        Case c(src);
        sh->cur_target = static_cast<int>(ti);
        sh->cur_index  = idx;
        sh->running    = 1;
        arm(case_cpu_limit);
        std::string msg;
        int         st = run_case(ts[ti], src, msg, c);
        sh->running    = 0;
        sh->evals++;
        sh->target_evals[ti]++;
        sh->checks += c.checks;
        if (st == ST_FAIL) {
          put(sh->fail_msg, sizeof sh->fail_msg, msg);
          sh->fail_index  = idx;
          sh->fail_target = static_cast<int>(ti);
          _exit(10);
        }
        std::string d = c.desc.str();
        if (c.nontrivial) {
          sh->nontriv++;
          if (sh->nhash < MAX_HASH)
            hashes[sh->nhash++] = hash_str(d) ^ hash_str(ts[ti].name);
          if (w == 0 && sh->nsamples < 24 && sh->target_evals[ti] >= 3 && sh->nsamples < ti + 2 && d.size() > 10) {
            put(sh->sample[sh->nsamples], sizeof sh->sample[0], ts[ti].name + ": " + d);
            sh->nsamples++;
          }
        }
        for (auto& l : c.labels) {
          uint32_t k = 0;
          while (k < sh->nlabels && l != sh->label[k])
            ++k;
          if (k == sh->nlabels && k < MAX_LABELS) {
            put(sh->label[k], sizeof sh->label[0], l);
            sh->nlabels++;
          }
          if (k < MAX_LABELS)
            sh->label_n[k]++;
        }
      }
    }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > o.time_s)
      break;
  }
  arm(0);
  sh->done = 1;
  _exit(0);
}

inline std::string show_choices(const std::vector<uint32_t>& v) {
  std::ostringstream o;
  for (size_t i = 0; i < v.size(); ++i)
    o << (i ? " " : "") << v[i];
  return o.str();
}

inline int run_all(const Options& o) {
  auto  t0 = std::chrono::steady_clock::now();
  auto& ts = targets();
  struct W {
    pid_t         pid = 0;
    Shared*       sh;
    uint64_t*     hashes;
    std::set<int> skip;
    int           respawns = 0;
  };
  std::vector<W> ws(static_cast<size_t>(o.jobs));
  auto           spawn = [&](int w, uint64_t start_round) {
    auto& x = ws[static_cast<size_t>(w)];
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      char err[64];
      snprintf(err, sizeof err, "/dev/null");
      int fd = open(err, O_WRONLY);
      dup2(fd, 2);
      dup2(fd, 1);
      Options oo = o;
      oo.time_s  = std::max(0.0, o.time_s - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
      worker(oo, w, x.sh, x.hashes, x.skip, start_round);
    }
    x.pid = p;
  };
  for (int w = 0; w < o.jobs; ++w) {
    ws[static_cast<size_t>(w)].sh              = share<Shared>();
    ws[static_cast<size_t>(w)].sh->fail_target = -1;
    ws[static_cast<size_t>(w)].hashes          = share<uint64_t>(MAX_HASH * 8);
    spawn(w, 0);
  }
  struct F {
    uint64_t    index;
    int         worker;
    std::string msg;
  };
  std::map<int, F> failures; // first failure per target (lowest index seen)
  int              alive = o.jobs;
  constexpr uint64_t B = 8;
  while (alive) {
    int   st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0)
      break;
    for (int w = 0; w < o.jobs; ++w) {
      auto& x = ws[static_cast<size_t>(w)];
      if (x.pid != p)
        continue;
      if (x.sh->done) {
        --alive;
        break;
      }
      // failed case: either reported or crashed
      int         ti  = x.sh->fail_target >= 0 ? static_cast<int>(x.sh->fail_target) : static_cast<int>(x.sh->cur_target);
      uint64_t    idx = x.sh->fail_target >= 0 ? x.sh->fail_index : x.sh->cur_index;
      std::string m   = x.sh->fail_target >= 0 ? std::string(x.sh->fail_msg)
                                               : std::string("crash or sanitizer report");
      if (o.first) { // mutation campaigns only need to know that something failed
        std::ofstream(o.out) << "{\"violations\":[{\"target\":\"" << jesc(ts[static_cast<size_t>(ti)].name)
                             << "\",\"message\":\"" << jesc(m.substr(0, 400)) << "\"}],\"flaky\":0}\n";
        std::fflush(nullptr);
        for (auto& y : ws)
          if (y.pid != p)
            kill(y.pid, SIGKILL);
        _exit(1);
      }
      x.sh->fail_target = -1;
      auto it           = failures.find(ti);
      if (it == failures.end() || idx < it->second.index)
        failures[ti] = F{idx, w, m};
      x.skip.insert(ti);
      uint64_t round = idx / (B * static_cast<uint64_t>(o.jobs));
      if (x.skip.size() < ts.size() && x.skip.size() < 12 && failures.size() < 6)
        spawn(w, round + 1);
      else
        --alive;
      break;
    }
  }
  // merge
  uint64_t                        evals = 0, nontriv = 0, checks = 0;
  std::vector<uint64_t>           all;
  std::map<std::string, uint64_t> labels, per_target;
  std::vector<std::string>        samples;
  for (auto& x : ws) {
    evals += x.sh->evals;
    nontriv += x.sh->nontriv;
    checks += x.sh->checks;
    all.insert(all.end(), x.hashes, x.hashes + x.sh->nhash);
    for (uint32_t k = 0; k < x.sh->nlabels; ++k)
      labels[x.sh->label[k]] += x.sh->label_n[k];
    for (size_t i = 0; i < ts.size() && i < 256; ++i)
      per_target[ts[i].name] += x.sh->target_evals[i];
    for (uint32_t k = 0; k < x.sh->nsamples; ++k)
      samples.push_back(x.sh->sample[k]);
  }
  std::sort(all.begin(), all.end());
  uint64_t distinct = static_cast<uint64_t>(std::unique(all.begin(), all.end()) - all.begin());
  double   gen_s    = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();

  std::ostringstream viol;
  int                nv = 0, flaky = 0, shrunk = 0;
  for (auto& [ti, f] : failures) {
    const Target& t = ts[static_cast<size_t>(ti)];
    Outcome       first;
    bool          repro = false;
    for (int k = 0; k < 3 && !repro; ++k) {
      first = run_isolated(t, nullptr, case_seed(o.seed, t.name, f.index), case_cpu_limit);
      repro = first.status != ST_OK;
    }
    std::string file = t.name;
    for (auto& ch : file)
      if (!std::isalnum(static_cast<unsigned char>(ch)) && ch != '.' && ch != '-')
        ch = '_';
    std::string path = o.replay_dir + "/" + file + ".replay";
    std::ofstream rf(path);
    if (repro) {
      Outcome m = shrunk < 2 ? shrink(t, first, 40.0) : first;
      ++shrunk;
      int hits = 0;
      Outcome last;
      for (int k = 0; k < 3; ++k) {
        Outcome r = run_isolated(t, &m.used, 0, case_cpu_limit);
        if (r.status != ST_OK) {
          ++hits;
          last = r;
        }
      }
      if (hits == 0)
        last = m;
      rf << "target: " << t.name << "\nmode: choices\nchoices: " << show_choices(m.used) << "\nstatus: "
         << (last.status == ST_FAIL ? "check failed" : last.status == ST_HANG ? "hang" : "crash") << "\nreplayed: " << hits
         << "/3\nfound_at: seed " << o.seed << " case " << f.index << "\ninput: " << last.desc << "\nmessage: " << last.msg
         << "\n";
      if (nv++)
        viol << ",";
      viol << "{\"target\":\"" << jesc(t.name) << "\",\"replay\":\"" << jesc(path) << "\",\"message\":\""
           << jesc(last.msg.substr(0, 1500)) << "\",\"input\":\"" << jesc(last.desc.substr(0, 1500)) << "\",\"replayed\":" << hits << "}";
    } else {
      // depends on the history of the worker process: replay the whole stream up to the failing case
      rf << "target: " << t.name << "\nmode: stream\nworker: " << f.worker << "\njobs: " << o.jobs << "\nseed: " << o.seed
         << "\ncases: " << o.cases << "\nindex: " << f.index << "\nmessage: " << f.msg << "\n";
      rf.flush();
      // re-run that stream once
      Shared*   sh = share<Shared>();
      uint64_t* hs = share<uint64_t>(MAX_HASH * 8);
      sh->fail_target = -1;
      pid_t p         = fork();
      if (p == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        dup2(fd, 1);
        worker(o, f.worker, sh, hs, {}, 0);
      }
      int st;
      waitpid(p, &st, 0);
      if (!sh->done) {
        if (nv++)
          viol << ",";
        viol << "{\"target\":\"" << jesc(t.name) << "\",\"replay\":\"" << jesc(path) << "\",\"message\":\""
             << jesc("depends on earlier cases in the same process: " + f.msg) << "\",\"input\":\"\",\"replayed\":1}";
      } else
        ++flaky;
    }
  }
  std::ofstream js(o.out);
  js << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct
     << ",\"checks\":" << checks << ",\"gen_s\":" << gen_s << ",\"flaky\":" << flaky << ",\"violations\":[" << viol.str()
     << "],\"labels\":{";
  bool fst = true;
  for (auto& [k, v] : labels) {
    js << (fst ? "" : ",") << "\"" << jesc(k) << "\":" << v;
    fst = false;
  }
  js << "},\"targets\":{";
  fst = true;
  for (auto& [k, v] : per_target) {
    js << (fst ? "" : ",") << "\"" << jesc(k) << "\":" << v;
    fst = false;
  }
  js << "},\"samples\":[";
  for (size_t i = 0; i < samples.size() && i < 24; ++i)
    js << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
  js << "]}\n";
  return nv ? 1 : flaky ? 2 : 0;
}

inline int replay(const std::string& file) {
  std::ifstream                      f(file);
  std::string                        line;
  std::map<std::string, std::string> kv;
  while (std::getline(f, line)) {
    auto p = line.find(": ");
    if (p != std::string::npos && !kv.count(line.substr(0, p)))
      kv[line.substr(0, p)] = line.substr(p + 2);
  }
  for (auto& t : targets())
    if (t.name == kv["target"]) {
      if (kv["mode"] == "choices") {
        std::vector<uint32_t> ch;
        std::istringstream    is(kv["choices"]);
        uint32_t              x;
        while (is >> x)
          ch.push_back(x);
        Outcome o = run_isolated(t, &ch, 0, case_cpu_limit);
        std::cout << "target: " << t.name << "\ninput: " << o.desc << "\nresult: "
                  << (o.status == ST_OK ? "passed" : "FAILED") << "\n" << o.msg << "\n";
        return o.status == ST_OK ? 0 : 1;
      }
      Options o;
      o.seed  = std::stoull(kv["seed"]);
      o.jobs  = std::stoi(kv["jobs"]);
      o.cases = std::stoull(kv["cases"]);
      o.time_s = 600;
      Shared*   sh = share<Shared>();
      uint64_t* hs = share<uint64_t>(MAX_HASH * 8);
      sh->fail_target = -1;
      pid_t p         = fork();
      if (p == 0)
        worker(o, std::stoi(kv["worker"]), sh, hs, {}, 0);
      int st;
      waitpid(p, &st, 0);
      std::cout << (sh->done ? "passed" : "FAILED (stream)") << " " << sh->fail_msg << "\n";
      return sh->done ? 0 : 1;
    }
  std::cerr << "no such target: " << kv["target"] << "\n";
  return 2;
}

inline int main_(int argc, char** argv) {
  Options o;
  std::string rp;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto        nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      o.seed = std::stoull(nx());
    else if (a == "--cases")
      o.cases = std::stoull(nx());
    else if (a == "--time")
      o.time_s = std::stod(nx());
    else if (a == "--jobs")
      o.jobs = std::stoi(nx());
    else if (a == "--out")
      o.out = nx();
    else if (a == "--replay-dir")
      o.replay_dir = nx();
    else if (a == "--first")
      o.first = true;
    else if (a == "--only")
      o.only = nx();
    else if (a == "--replay")
      rp = nx();
    else if (a == "--list") {
      for (auto& t : targets())
        std::cout << t.name << "\n";
      return 0;
    }
  }
  if (!rp.empty())
    return replay(rp);
  return run_all(o);
}
} // namespace pbt

#ifndef PBT_NO_MAIN
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:handle_abort=0:hard_rss_limit_mb=1800:abort_on_error=1:detect_stack_use_after_return=0:"
         "allocator_may_return_null=0:print_legend=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:abort_on_error=1"; }
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
