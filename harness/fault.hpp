// Fault injection: the k-th allocation fails, or the k-th call of a caller-supplied function throws, while armed.
// Every block allocated while armed is tracked until it is freed, whenever that is.
#pragma once
#include <cstdlib>
#include <functional>
#include <new>
#include <string>
#include <unordered_set>
#include "pbt.hpp"
namespace fault {
struct Boom { // not a std::exception: it must come through as what it is
  long at;
};
template <class T>
struct Malloc {
  using value_type = T;
  Malloc()         = default;
  template <class U> Malloc(const Malloc<U>&) {}
  T*   allocate(size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { std::free(p); }
  template <class U> bool operator==(const Malloc<U>&) const { return true; }
};
using Set = std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, Malloc<void*>>;
struct State {
  bool armed      = false;
  int  quiet      = 0;
  long allocs     = 0, ticks = 0;   // since armed
  long fail_alloc = -1, fail_tick = -1;
  bool fired      = false;
  Set  live;
};
inline State& state() {
  static State* s = new (std::malloc(sizeof(State))) State();
  return *s;
}
// The code under test runs in the scope of an Armed; the harness's own code within it under a Quiet.
struct Armed {
  Armed() { state().armed = true; }
  ~Armed() { state().armed = false; }
  Armed(const Armed&) = delete;
};
struct Quiet {
  Quiet() { ++state().quiet; }
  ~Quiet() { --state().quiet; }
  Quiet(const Quiet&) = delete;
};
inline void tick() { // called by every function handed to the library
  auto& s = state();
  if (!s.armed || s.quiet) return;
  if (s.ticks++ == s.fail_tick) s.fired = true, throw Boom{s.fail_tick};
}
inline void* get(size_t n, size_t align, bool may_throw) {
  auto& s = state();
  if (may_throw && s.armed && !s.quiet)
    if (s.allocs++ == s.fail_alloc) s.fired = true, throw std::bad_alloc();
  void* p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
  if (!p) {
    if (may_throw) throw std::bad_alloc();
    return nullptr;
  }
  if (s.armed && !s.quiet) s.live.insert(p);
  return p;
}
inline void put(void* p) noexcept {
  if (!p) return;
  auto& s = state();
  if (!s.live.empty()) s.live.erase(p);
  std::free(p);
}
inline void reset(long fa = -1, long ft = -1) {
  auto& s = state();
  s.allocs = s.ticks = 0, s.fail_alloc = fa, s.fail_tick = ft, s.fired = false, s.quiet = 0, s.armed = false;
  s.live.clear();
}
// run() performs the operation on fresh outputs (the library's part under Armed) and describes what came out of it.
// after(failed) judges the state left behind: called after the undisturbed run, after each failed one and after the
// repetition. The same operation with one fault, chosen among all there could be, must throw just that and leak
// nothing; repeated without a fault it must give what it gave at first.
template <class Run, class After>
void sweep(pbt::Case& c, const std::string& what, Run run, After after, int tries = 3) {
  reset();
  std::string want   = run();
  long        allocs = state().allocs, ticks = state().ticks;
  PCHECK(state().live.empty(), what << ": " << state().live.size() << " blocks are never freed");
  after(false);
  if (allocs + ticks == 0) return;
  for (int i = 0; i < tries; ++i) {
    bool at = ticks && (!allocs || c.s.chance(2, 3));
    long k  = c.s.range(0, static_cast<int>((at ? ticks : allocs) - 1));
    std::ostringstream how;
    how << what << (at ? ", a supplied function throwing at call " : ", out of memory at allocation ") << k << " of "
        << (at ? ticks : allocs);
    c.desc << "\n  " << how.str();
    reset(at ? -1 : k, at ? k : -1);
    enum { nothing, right, wrong } out = nothing;
    std::string got;
    try {
      got = run();
    } catch (const Boom& b) {
      out = at && b.at == k ? right : wrong;
    } catch (const std::bad_alloc&) {
      out = at ? wrong : right;
    } catch (const pbt::Fail&) {
      throw;
    } catch (...) {
      out = wrong;
    }
    bool fired = state().fired;
    size_t left = state().live.size();
    reset();
    PCHECK(fired, how.str() << ": never got there, the operation is not repeatable");
    PCHECK(out != nothing, how.str() << ": the exception was lost, the call returned with " << got);
    PCHECK(out == right, how.str() << ": another exception came out");
    PCHECK(left == 0, how.str() << ": " << left << " blocks are never freed");
    after(true);
    got = run();
    PCHECK(got == want, how.str() << ": repeated afterwards it gives " << got << " instead of " << want);
    left = state().live.size();
    reset();
    PCHECK(left == 0, how.str() << ": repeated afterwards it leaks");
    after(false);
    c.nontrivial = true;
    if (at) c.label("function threw");
    else c.label("out of memory");
  }
}
} // namespace fault
void* operator new(size_t n) { return fault::get(n, 0, true); }
void* operator new[](size_t n) { return fault::get(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return fault::get(n, static_cast<size_t>(a), true); }
void* operator new[](size_t n, std::align_val_t a) { return fault::get(n, static_cast<size_t>(a), true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fault::get(n, 0, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fault::get(n, 0, false); }
void  operator delete(void* p) noexcept { fault::put(p); }
void  operator delete[](void* p) noexcept { fault::put(p); }
void  operator delete(void* p, size_t) noexcept { fault::put(p); }
void  operator delete[](void* p, size_t) noexcept { fault::put(p); }
void  operator delete(void* p, std::align_val_t) noexcept { fault::put(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { fault::put(p); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { fault::put(p); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { fault::put(p); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { fault::put(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { fault::put(p); }
