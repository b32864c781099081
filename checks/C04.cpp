/* C04: an element pool hands each element out at most once and takes each back once. */
#include "mc.h"
#include "CppPotpourri.h"
#include "ElementPool.h"
#include <deque>
#include <algorithm>

static int ctor_count = 0, dtor_count = 0;
template <int N> struct Elem {
  uint8_t body[N];
  Elem()  { ctor_count++; memset(body, 0x5A, N); }
  ~Elem() { dtor_count++; }
};

/* A small object, so that what is at stake is in its address and content. */
template <int N> static void sequences(unsigned depth, unsigned cap, unsigned limit, bool own, bool prune) {
  typedef Elem<N> T;
  int64_t blocks = mc::live_blocks();
  ctor_count = dtor_count = 0;
  uint8_t* arena = own ? nullptr : (uint8_t*) malloc(cap * sizeof(T));
  {
    ElementPool<T> pool(cap, limit, (T*) arena);
    MC_CHECK(pool.allocated(), "allocated", "the pool did not allocate");
    MC_CHECK(pool.allocated(), "allocated", "the pool did not stay allocated");
    if (cap) MC_CHECK(ctor_count == (int) cap, "constructed", "%d elements constructed in a pool of %u", ctor_count, cap);
    std::deque<T*> avail;              // learned as they first come out: null is "not yet seen"
    std::vector<T*> seen, out, heap;   // preallocated seen; out (all); heap elements out
    std::vector<uint8_t> mark;         // the content written to each one that is out
    unsigned freecount = cap, low = cap, draws = 0, frees = 0;
    for (unsigned i = 0; i < cap; i++) avail.push_back(nullptr);
    uint8_t stamp = 1;
    for (unsigned d = 0; d < depth; d++) {
      if (prune) {
        std::string key;
        for (auto p : avail) key += (char) (p ? 'A' + (std::find(seen.begin(), seen.end(), p) - seen.begin()) : '?');
        key += '|';
        for (auto p : out) { auto i = std::find(seen.begin(), seen.end(), p); key += (char) (i == seen.end() ? 'h' : 'A' + (i - seen.begin())); }
        key += '|'; key += (char) low; key += (char) pool.overdrawLimit();
        mc::state(key, depth - d);
      }
      unsigned k = mc::choose(2 + out.size());
      if (k == 0) {
        T* e = pool.take();
        if (freecount > 0) {
          MC_CHECK(e != nullptr, "starved", "take() gave nothing with %u available", freecount);
          MC_CHECK(pool.inPool(e), "early-overdraw", "take() went to the heap with %u available", freecount);
          MC_CHECK(out.end() == std::find(out.begin(), out.end(), e), "double-take", "take() handed out an element that is already out");
          T* w = avail.front(); avail.pop_front(); freecount--;
          (void) w;
          if (seen.end() == std::find(seen.begin(), seen.end(), e)) seen.push_back(e);
          auto it = std::find(avail.begin(), avail.end(), e);          // keep the model's order in step if the pool is not FIFO
          if (it != avail.end()) { *it = w; }
          MC_CHECK(seen.size() <= cap, "strange", "more than %u distinct preallocated elements", cap);
          if (arena) MC_CHECK(((uint8_t*) e >= arena) && ((uint8_t*) e + sizeof(T) <= arena + cap * sizeof(T)) && (0 == (((uint8_t*) e - arena) % sizeof(T))), "arena", "an element outside the memory given to the pool");
        }
        else if (heap.size() < pool.overdrawLimit()) {
          MC_CHECK(e != nullptr, "overdraw", "take() refused an overdraw: %u of %u outstanding", (unsigned) heap.size(), pool.overdrawLimit());
          MC_CHECK(!pool.inPool(e), "inPool", "a heap element is reported to be in the pool");
          MC_CHECK(out.end() == std::find(out.begin(), out.end(), e), "double-take", "take() handed out an element that is already out");
          heap.push_back(e); draws++;
        }
        else {
          MC_CHECK(e == nullptr, "limit", "take() overdrew beyond the limit of %u", pool.overdrawLimit());
        }
        mc::op("take() -> %s", !e ? "nothing" : pool.inPool(e) ? "pool" : "heap");
        if (e) { out.push_back(e); mark.push_back(stamp); memset(e->body, stamp++, N); }
        if (freecount < low) low = freecount;
      }
      else if (k == 1) {
        if (limit == 0) throw mc::Prune();
        uint32_t nl = mc::choose(limit + 2);
        pool.overdrawLimit(nl);
        mc::op("overdrawLimit(%u)", nl);
        MC_CHECK(pool.overdrawLimit() == nl, "setlimit", "overdrawLimit() is not what was set");
      }
      else {
        unsigned i = k - 2;
        T* e = out[i];
        auto h = std::find(heap.begin(), heap.end(), e);
        for (int b = 0; b < N; b++) MC_CHECK(e->body[b] == mark[i], "content", "an element's content was disturbed while it was out");
        int dt = dtor_count;
        int8_t r = pool.give(e);
        mc::op("give(#%u) -> %d", i, r);
        if (h != heap.end()) {
          MC_CHECK(r == 0, "give-heap", "give() of a heap element returned %d", r);
          MC_CHECK(dtor_count == dt + 1, "give-heap-free", "give() of a heap element did not destroy it");
          heap.erase(h); frees++;
        }
        else {
          MC_CHECK(r == 1, "give-pool", "give() of a preallocated element returned %d", r);
          MC_CHECK(dtor_count == dt, "give-pool-free", "give() destroyed a preallocated element");
          avail.push_back(e); freecount++;
        }
        out.erase(out.begin() + i); mark.erase(mark.begin() + i);
      }
      MC_CHECK(pool.available() == freecount, "available", "available() is %u, model %u", pool.available(), freecount);
      MC_CHECK(pool.capacity() == cap, "capacity", "capacity() is %u", pool.capacity());
      MC_CHECK(pool.lowWaterMark() == low, "watermark", "lowWaterMark() is %u, model %u", pool.lowWaterMark(), low);
      MC_CHECK(pool.overdraws() == draws, "overdraws", "overdraws() is %u, model %u", pool.overdraws(), draws);
      MC_CHECK(pool.overdrawsFreed() == frees, "overdrawsFreed", "overdrawsFreed() is %u, model %u", pool.overdrawsFreed(), frees);
      for (auto p : seen) MC_CHECK(pool.inPool(p), "inPool", "a preallocated element is no longer recognised");
      for (size_t i = 0; i < out.size(); i++) for (int b = 0; b < N; b++) MC_CHECK(out[i]->body[b] == mark[i], "content", "an element's content was disturbed while it was out");
    }
    if (arena) MC_CHECK(pool.inPool((T*) arena) && !pool.inPool((T*) (arena + cap * sizeof(T))) && !pool.inPool((T*) (arena - 1)), "inPool", "what lies next to the pool is taken for a part of it, or its first element is not");
    while (!out.empty()) { pool.give(out.back()); out.pop_back(); }
    MC_CHECK(pool.available() == cap, "drained", "%u of %u available after everything came back", pool.available(), cap);
    /* Everything can be handed out again, each element once. */
    std::vector<T*> again;
    for (unsigned i = 0; i < cap; i++) {
      T* e = pool.take();
      MC_CHECK(e && pool.inPool(e) && (again.end() == std::find(again.begin(), again.end(), e)), "again", "after everything came back, take() %u of %u is wrong", i, cap);
      again.push_back(e);
    }
    for (auto e : again) pool.give(e);
  }
  free(arena);
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

static void defaults() {             // a pool made without a limit does not overdraw
  ElementPool<Elem<3>> pool(2); pool.allocated(); mc::op("a pool of two, made without a limit");
  MC_CHECK(pool.overdrawLimit() == 0, "default", "the limit of a pool made without one is %u", pool.overdrawLimit());
  Elem<3>* a = pool.take(); Elem<3>* b = pool.take(); MC_CHECK(a && b && !pool.take(), "default", "the pool of two gave nothing, or a third");
  pool.give(a); pool.give(b);
}

template <int SZ> static void scale(std::vector<unsigned> caps) {
  int64_t blocks = mc::live_blocks();
  {
    unsigned cap = caps[mc::choose(caps.size())]; bool lifo = mc::flip(); unsigned extra = mc::choose(3);
    mc::op("pool of %u, %u beyond, returned %s", cap, extra, lifo ? "last first" : "first first");
    ElementPool<Elem<SZ>> pool(cap, 2);
    pool.allocated();
    for (int round = 0; round < 3; round++) {
      std::vector<Elem<SZ>*> out;
      for (unsigned i = 0; i < cap + extra; i++) {
        Elem<SZ>* e = pool.take();
        MC_CHECK(e, "scale", "take() %u of %u gave nothing", i, cap);
        MC_CHECK(pool.inPool(e) == (i < cap), "scale", "take() %u of %u is from the wrong place", i, cap);
        out.push_back(e);
      }
      std::vector<Elem<SZ>*> s(out); std::sort(s.begin(), s.end());
      MC_CHECK(std::unique(s.begin(), s.end()) == s.end(), "scale", "an element was handed out twice");
      if (lifo) std::reverse(out.begin(), out.end());
      for (auto e : out) pool.give(e);
      MC_CHECK(pool.available() == cap, "scale", "%u of %u available after everything came back", pool.available(), cap);
    }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks were not released", (long) (mc::live_blocks() - blocks));
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  std::vector<mc::Config> c;
  for (unsigned cap = 1; cap <= (T ? 5 : 4); cap++) for (unsigned lim = 0; lim <= 2; lim++)
    c.emplace_back("cap" + std::to_string(cap) + "/od" + std::to_string(lim), [=]() { sequences<4>(T ? 16 : 13, cap, lim, lim != 1, true); }, 3, "all histories of takes, gives and limit changes to depth 13 (thorough 16), up to state equality");
  c.emplace_back("odd-size", [=]() { sequences<7>(T ? 13 : 11, 3, 1, false, true); }, 3, "7 byte elements in memory given by the caller");
  c.emplace_back("flat", [=]() { sequences<4>(T ? 9 : 8, 3, 1, true, false); }, 3, "capacity 3, every history of 8 (thorough 9) operations, states not merged");
  c.emplace_back("defaults", defaults, 0, "the default limit");
  c.emplace_back("scale", []() { scale<3>({17, 255, 256, 257, 300}); }, 1, "pools of 17..300 elements, filled and drained three times");
  c.emplace_back("scale/bytes", []() { scale<300>({218, 219, 230, 500}); }, 1, "elements of 300 bytes: pools either side of 65536 bytes, and twice that");
  return mc::main(argc, argv, "C04", c, {"elements are only given back to the pool they came from, once; the pool is asked whether it is allocated before its first use, as its documentation requires"});
}
