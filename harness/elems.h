// Instrumented element types and allocators used by the container harnesses.
#ifndef VERIF_ELEMS_H_
#define VERIF_ELEMS_H_

#include <compare>
#include <map>
#include <string.h>

#include "best/memory/allocator.h"
#include "best/memory/layout.h"
#include "mc.h"

namespace el {
inline int g_live = 0;    // live instrumented objects
inline int g_copies = 0;  // copies + copy assignments made

constexpr int Moved = -7;  // value of a moved-from object

// Address-sensitive element: must be moved with its move constructor, never by
// copying bytes.
struct Trk {
  static constexpr unsigned Live = 0x600dbeef, Dead = 0xdeadbeef;
  int v = 0;
  unsigned magic = Live;
  const Trk* self = this;

  Trk() { ++g_live; }
  explicit Trk(int x) : v(x) { ++g_live; }
  Trk(int x, int y) : v(x * 100 + y) { ++g_live; }
  Trk(const Trk& o) : v(o.get()) { ++g_live, ++g_copies; }
  Trk(Trk&& o) : v(o.get()) {
    ++g_live;
    o.v = Moved;
  }
  Trk& operator=(const Trk& o) {
    check("assign to");
    v = o.get();
    ++g_copies;
    return *this;
  }
  Trk& operator=(Trk&& o) {
    check("assign to");
    if (this == &o) return *this;
    v = o.get();
    o.v = Moved;
    return *this;
  }
  ~Trk() {
    check("destroy");
    magic = Dead;
    --g_live;
  }
  void check(const char* what) const {
    if (magic != Live || self != this)
      mc::fail("%s of an object that is not alive (magic %x, %s)", what, magic,
               self == this ? "in place" : "bytewise-moved");
  }
  int get() const {
    check("read");
    return v;
  }
  bool operator==(const Trk& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Trk& o) const {
    return get() <=> o.get();
  }
};

// Like Trk, small enough to be stored inline by default and without padding:
// identity is tracked through a registry rather than stored.
struct Sml {
  unsigned char v = 0;
  unsigned char tag = 0x5a;
  Sml() { ++g_live; }
  explicit Sml(int x) : v((unsigned char)x) { ++g_live; }
  Sml(int x, int y) : v((unsigned char)(x * 100 + y)) { ++g_live; }
  Sml(const Sml& o) : v((unsigned char)o.get()) { ++g_live, ++g_copies; }
  Sml(Sml&& o) : v((unsigned char)o.get()) {
    ++g_live;
    o.v = 0xf9;
  }
  Sml& operator=(const Sml& o) {
    check();
    v = (unsigned char)o.get();
    ++g_copies;
    return *this;
  }
  Sml& operator=(Sml&& o) {
    check();
    if (this == &o) return *this;
    v = (unsigned char)o.get();
    o.v = 0xf9;
    return *this;
  }
  ~Sml() {
    check();
    tag = 0xde;
    --g_live;
  }
  void check() const {
    if (tag != 0x5a) mc::fail("use of an object that is not alive (tag %x)", tag);
  }
  int get() const {
    check();
    return v;
  }
  bool operator==(const Sml& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Sml& o) const {
    return get() <=> o.get();
  }
};

// Owns an identity; may be relocated by copying bytes.
struct BEST_RELOCATABLE Rel {
  static constexpr int Max = 1 << 16;
  static inline unsigned char alive[Max];
  static inline int next = 1;
  static void reset() {
    memset(alive, 0, size_t(next < Max ? next : Max));
    next = 1;
  }
  int v = 0;
  int id;

  void born() {
    if (next >= Max) mc::fail("harness error: id space");
    id = next++;
    alive[id] = 1;
    ++g_live;
  }
  Rel() { born(); }
  explicit Rel(int x) : v(x) { born(); }
  Rel(int x, int y) : v(x * 100 + y) { born(); }
  Rel(const Rel& o) : v(o.get()) { born(), ++g_copies; }
  Rel(Rel&& o) : v(o.get()) {
    born();
    o.v = Moved;
  }
  Rel& operator=(const Rel& o) {
    check("assign to");
    v = o.get();
    ++g_copies;
    return *this;
  }
  Rel& operator=(Rel&& o) {
    check("assign to");
    if (this == &o) return *this;
    v = o.get();
    o.v = Moved;
    return *this;
  }
  ~Rel() {
    check("destroy");
    alive[id] = 0;
    --g_live;
  }
  void check(const char* what) const {
    if (id <= 0 || id >= next || !alive[id])
      mc::fail("%s of an object that is not alive (id %d)", what, id);
  }
  int get() const {
    check("read");
    return v;
  }
  bool operator==(const Rel& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Rel& o) const {
    return get() <=> o.get();
  }
};

// Over-aligned.
struct alignas(32) Ovr : Trk {
  using Trk::Trk;
  int get() const {
    if (reinterpret_cast<uintptr_t>(this) % 32)
      mc::fail("misaligned element at %p", (const void*)this);
    return Trk::get();
  }
  bool operator==(const Ovr& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Ovr& o) const {
    return get() <=> o.get();
  }
};

template <typename T>
T make(int v) {
  return T(v);
}
template <typename T>
int val(const T& t) {
  if constexpr (requires { t.get(); }) return t.get();
  else return int(t);
}
template <typename T>
constexpr bool tracked = requires(const T& t) { t.get(); };

inline void reset() {
  g_live = 0;
  g_copies = 0;
  Rel::reset();
}

// A checking allocator. Allocators with equal ids are interchangeable.
struct Heap {
  struct Block {
    size_t size, align;
    int id;
    void* base;
  };
  static inline std::map<void*, Block>* blocks = nullptr;
  static inline int g_allocs = 0;
  static void reset() {
    mc::Internal in;
    if (!blocks) blocks = new std::map<void*, Block>;
    for (auto& [p, b] : *blocks) ::free(b.base);
    blocks->clear();
    g_allocs = 0;
  }
  static size_t live() { return blocks->size(); }

  int id = 0;

  best::ptr<void> alloc(best::layout l) {
    mc::Internal in;
    ++g_allocs;
    size_t a = l.align() < 16 ? 16 : l.align();
    void* p = nullptr;
    if (posix_memalign(&p, a, l.size() ? l.size() : 1)) mc::fail("harness: out of memory");
    memset(p, 0xa5, l.size());
    (*blocks)[p] = Block{l.size(), l.align(), id, p};
    return p;
  }
  best::ptr<void> zalloc(best::layout l) {
    auto p = alloc(l);
    memset(p.raw(), 0, l.size());
    return p;
  }
  void take(void* p, best::layout l, const char* what) {
    auto it = blocks->find(p);
    if (it == blocks->end()) mc::fail("%s of memory that is not allocated", what);
    Block b = it->second;
    if (b.size != l.size() || b.align != l.align())
      mc::fail("%s with layout %zu:%zu of memory allocated with %zu:%zu", what,
               l.size(), l.align(), b.size, b.align);
    if (b.id != id)
      mc::fail("%s with allocator %d of memory of allocator %d", what, id, b.id);
  }
  best::ptr<void> realloc(best::ptr<void> p, best::layout o, best::layout n) {
    take(p.raw(), o, "realloc");
    auto q = alloc(n);
    memcpy(q.raw(), p.raw(), o.size() < n.size() ? o.size() : n.size());
    dealloc(p, o);
    return q;
  }
  void dealloc(best::ptr<void> p, best::layout l) {
    take(p.raw(), l, "dealloc");
    mc::Internal in;
    ::free(p.raw());
    blocks->erase(p.raw());
  }
  bool operator==(const Heap& o) const { return id == o.id; }
};
}  // namespace el
#endif
