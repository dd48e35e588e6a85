// A value type that owns memory and counts its live instances: double destruction is a double free under ASan, a
// value never destroyed leaves live() above where it started.
#pragma once
#include <compare>
#include <ostream>
#include <utility>
struct Tracked {
  int* p = nullptr; // null: moved from
  static long& live() {
    static long n = 0;
    return n;
  }
  Tracked() : p(new int(0)) { ++live(); }
  Tracked(int v) : p(new int(v)) { ++live(); }
  Tracked(const Tracked& o) : p(o.p ? new int(*o.p) : nullptr) { ++live(); }
  Tracked(Tracked&& o) noexcept : p(std::exchange(o.p, nullptr)) { ++live(); }
  Tracked& operator=(const Tracked& o) {
    if (this != &o) {
      delete p;
      p = nullptr;
      p = o.p ? new int(*o.p) : nullptr;
    }
    return *this;
  }
  Tracked& operator=(Tracked&& o) noexcept {
    if (this != &o) {
      delete p;
      p = std::exchange(o.p, nullptr);
    }
    return *this;
  }
  ~Tracked() {
    --live();
    delete p;
  }
  int  get() const { return p ? *p : -999999; }
  operator int() const { return get(); }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
  friend auto operator<=>(const Tracked& a, const Tracked& b) { return a.get() <=> b.get(); }
  friend std::ostream& operator<<(std::ostream& o, const Tracked& t) { return o << t.get(); }
};
struct LiveGuard { // every value created in the scope must be gone at the end
  long at = Tracked::live();
  long delta() const { return Tracked::live() - at; }
};
