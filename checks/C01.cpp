/* C01: the ring buffer is a bounded FIFO, whatever the history of operations and wherever its read index is. */
#include "mc.h"
#include "CppPotpourri.h"
#include "RingBuffer.h"
#include <deque>
#include <string.h>

template <class T> struct Vals {};
/* Values that differ in one byte only (so that a comparison or copy of part of an element shows). */
template <> struct Vals<uint8_t>  { static uint8_t  v(unsigned i) { static const uint8_t  a[] = {0x01, 0x80, 0x00}; return a[i]; } };
template <> struct Vals<uint16_t> { static uint16_t v(unsigned i) { static const uint16_t a[] = {0x0001, 0x0100, 0x0101}; return a[i]; } };
template <> struct Vals<uint32_t> { static uint32_t v(unsigned i) { static const uint32_t a[] = {0x11223344, 0x11223345, 0x91223344}; return a[i]; } };
template <> struct Vals<uint64_t> { static uint64_t v(unsigned i) { static const uint64_t a[] = {0x1122334455667788ULL, 0x9122334455667788ULL, 0x1122334455667789ULL}; return a[i]; } };

template <class T> static void compare(RingBuffer<T>& rb, const std::deque<T>& q, unsigned cap, const char* after) {
  MC_CHECK(rb.capacity() == cap, "capacity", "after %s: capacity() %u, not %u", after, rb.capacity(), cap);
  MC_CHECK(rb.count() == q.size(), "count", "after %s: count() %u, model %u", after, rb.count(), (unsigned) q.size());
  MC_CHECK(rb.vacancy() == cap - q.size(), "vacancy", "after %s: vacancy() %u, model %u", after, rb.vacancy(), (unsigned) (cap - q.size()));
  for (unsigned i = 0; i < q.size(); i++) {
    T got = rb.peek(i, false);
    MC_CHECK(0 == memcmp(&got, &q[i], sizeof(T)), "peek-index", "after %s: peek(%u) is not element %u", after, i, i);
  }
  if (q.empty()) for (unsigned i = 0; i <= cap; i++) { T got = rb.peek(i, false), none = (T) 0; MC_CHECK(0 == memcmp(&got, &none, sizeof(T)), "peek-empty", "after %s: peek(%u) of an empty buffer yields an element", after, i); }
  T p = rb.peek();
  T want = q.empty() ? (T) 0 : q.front();
  MC_CHECK(0 == memcmp(&p, &want, sizeof(T)), "peek", "after %s: peek() is not the oldest element", after);
  std::vector<T> buf(cap + 2, (T) 0x5A);
  int n = rb.peek(buf.data(), cap + 1);
  MC_CHECK(n == (int) q.size(), "peek-many", "after %s: peek(buf, %u) returned %d, model %u", after, cap + 1, n, (unsigned) q.size());
  for (unsigned i = 0; i < buf.size(); i++) {
    T w = (i < q.size()) ? q[i] : (T) 0x5A;
    MC_CHECK(buf[i] == w, "peek-many-data", "after %s: peek(buf, ...) wrote a wrong element %u", after, i);
  }
  for (unsigned k = 0; k < 3; k++) {
    T val = Vals<T>::v(k);
    bool in = false;
    for (auto& e : q) in |= (e == val);
    MC_CHECK(rb.contains(val) == in, "contains", "after %s: contains(value %u) is %d", after, k, (int) !in);
  }
}

template <class T> static void sequences(unsigned cap, unsigned depth, bool prune) {
  RingBuffer<T> rb(cap);
  std::deque<T> q;
  unsigned r = 0;          // how far the read index has travelled
  auto pop = [&]() { T t = q.front(); q.pop_front(); r = (r + 1) % cap; return t; };
  if (mc::flip()) { mc::op("allocated()"); MC_CHECK(rb.allocated(), "allocated", "allocated() failed"); }
  compare<T>(rb, q, cap, "construction");
  for (unsigned d = 0; d < depth; d++) {
    if (prune) {
      std::string key((const char*) &cap, sizeof(cap));
      key.append((const char*) &r, sizeof(r));
      for (auto& e : q) key.append((const char*) &e, sizeof(T));
      key += "|";
      for (unsigned i = 0; i < cap; i++) { T t = rb.peek(i, true); key.append((const char*) &t, sizeof(T)); }
      mc::state(key, depth - d);
    }
    const char* name = "";
    switch (mc::choose(9)) {
      case 0: {
        unsigned k = mc::choose(3); T v = Vals<T>::v(k);
        int ret = rb.insert(v);
        mc::op("insert(v%u) -> %d", k, ret); name = "insert";
        if (q.size() < cap) { MC_CHECK(ret == 0, "insert-ret", "insert() into a buffer with room returned %d", ret); q.push_back(v); }
        else                MC_CHECK(ret < 0, "insert-full", "insert() into a full buffer returned %d", ret);
        break; }
      case 1: {
        unsigned n = mc::choose(cap + 2);
        unsigned k = mc::choose(3);
        std::vector<T> src;
        for (unsigned i = 0; i < n; i++) src.push_back(Vals<T>::v((k + i) % 3));
        T dummy = 0;
        int ret = rb.insert(n ? src.data() : &dummy, n);
        mc::op("insert({%u elements from v%u}) -> %d", n, k, ret); name = "bulk insert";
        if ((0 == n) || (q.size() >= cap)) { MC_CHECK(ret < 0, "bulk-none", "bulk insert of %u with %u vacant returned %d", n, (unsigned) (cap - q.size()), ret); }
        else {
          unsigned take = (unsigned) (cap - q.size()) < n ? (unsigned) (cap - q.size()) : n;
          MC_CHECK(ret == (int) take, "bulk-count", "bulk insert of %u with %u vacant returned %d", n, (unsigned) (cap - q.size()), ret);
          for (unsigned i = 0; i < take; i++) q.push_back(src[i]);
        }
        break; }
      case 2: {
        T got = rb.get();
        mc::op("get()"); name = "get";
        T want = q.empty() ? (T) 0 : pop();
        MC_CHECK(0 == memcmp(&got, &want, sizeof(T)), "get", "get() did not return the oldest element");
        break; }
      case 3: {
        unsigned n = mc::choose(cap + 2);
        std::vector<T> buf(cap + 3, (T) 0x5A);
        int ret = rb.get(buf.data(), n);
        mc::op("get(buf, %u) -> %d", n, ret); name = "bulk get";
        if (0 == n) { MC_CHECK(ret < 0, "bulkget-zero", "get(buf, 0) returned %d", ret); }
        else {
          unsigned take = (unsigned) q.size() < n ? (unsigned) q.size() : n;
          MC_CHECK(ret == (int) take, "bulkget-count", "get(buf, %u) of %u returned %d", n, (unsigned) q.size(), ret);
          for (unsigned i = 0; i < buf.size(); i++) {
            T w = (i < take) ? pop() : (T) 0x5A;
            MC_CHECK(buf[i] == w, "bulkget-data", "get(buf, %u): element %u is wrong", n, i);
          }
        }
        break; }
      case 4: {
        unsigned n = mc::choose(cap + 2);
        int ret = rb.cull(n);
        mc::op("cull(%u) -> %d", n, ret); name = "cull";
        if (0 == n) { MC_CHECK(ret < 0, "cull-zero", "cull(0) returned %d", ret); }
        else {
          unsigned take = (unsigned) q.size() < n ? (unsigned) q.size() : n;
          MC_CHECK(ret == (int) take, "cull-count", "cull(%u) of %u returned %d", n, (unsigned) q.size(), ret);
          for (unsigned i = 0; i < take; i++) pop();
        }
        break; }
      case 5:
        rb.clear(); mc::op("clear()"); name = "clear"; q.clear(); r = 0;
        break;
      case 6: {
        unsigned k = mc::choose(3); T v = Vals<T>::v(k);
        bool in = false;
        for (auto& e : q) in |= (e == v);
        int ret = rb.insertIfAbsent(v);
        mc::op("insertIfAbsent(v%u) -> %d", k, ret); name = "insertIfAbsent";
        if (in)                   MC_CHECK(ret == -2, "iia-present", "insertIfAbsent() of a present value returned %d", ret);
        else if (q.size() >= cap) MC_CHECK(ret < 0, "iia-full", "insertIfAbsent() into a full buffer returned %d", ret);
        else { MC_CHECK(ret == 0, "iia-ret", "insertIfAbsent() returned %d", ret); q.push_back(v); }
        break; }
      case 7: {
        int a = rb.insert((T*) nullptr, 1);
        int b = rb.get((T*) nullptr, 1);
        int e = rb.peek((T*) nullptr, 1);
        mc::op("null buffers -> %d %d %d", a, b, e); name = "null buffers";
        MC_CHECK((a < 0) && (b < 0) && (e < 0), "null", "a null buffer was accepted (%d %d %d)", a, b, e);
        break; }
      case 8: {
        unsigned n = mc::choose(cap + 2);
        std::vector<T> buf(cap + 3, (T) 0x5A);
        int ret = rb.peek(buf.data(), n);
        mc::op("peek(buf, %u) -> %d", n, ret); name = "bulk peek";
        if (0 == n) { MC_CHECK(ret < 0, "bulkpeek-zero", "peek(buf, 0) returned %d", ret); }
        else {
          unsigned take = (unsigned) q.size() < n ? (unsigned) q.size() : n;
          MC_CHECK(ret == (int) take, "bulkpeek-count", "peek(buf, %u) of %u returned %d", n, (unsigned) q.size(), ret);
          for (unsigned i = 0; i < buf.size(); i++) {
            T w = (i < take) ? q[i] : (T) 0x5A;
            MC_CHECK(buf[i] == w, "bulkpeek-data", "peek(buf, %u): element %u is wrong", n, i);
          }
        }
        break; }
    }
    compare<T>(rb, q, cap, name);
  }
}

/* Element numbers, counts and byte offsets beyond 255 and 65535: a ring of the given capacity is taken round its seam by
   bulk and single operations, and every element carries its own sequence number. */
template <class T> static void scale(const std::vector<unsigned>& caps) {
  const unsigned cap = caps[mc::choose(caps.size())];
  const unsigned start = mc::choose(2) ? cap - 3 : 0, kind = mc::choose(3);
  mc::op("a ring of %u elements of %u bytes, from index %u, %s", cap, (unsigned) sizeof(T), start, kind == 0 ? "one by one" : kind == 1 ? "in bulk" : "alternating");
  RingBuffer<T> rb(cap);
  uint32_t in = 1, out = 1; unsigned held = 0;
  auto item = [](uint32_t v) { T t; memset(&t, 0, sizeof(T)); memcpy(&t, &v, sizeof(T) < 4 ? sizeof(T) : 4); memcpy((uint8_t*) &t + sizeof(T) - 1, &v, 1); return t; };
  auto same = [&](const T& t, uint32_t v) { T w = item(v); return 0 == memcmp(&t, &w, sizeof(T)); };
  auto ok = [&](const char* w) {
    MC_CHECK(rb.capacity() == cap && rb.count() == held && rb.vacancy() == cap - held, "scale", "%s: capacity %u count %u vacancy %u, with %u of %u held", w, rb.capacity(), rb.count(), rb.vacancy(), held, cap);
    for (unsigned i : {0u, 1u, 254u, 255u, 256u, 257u, held / 2, held - 2, held - 1})
      if (i < held) MC_CHECK(same(rb.peek(i, false), out + i), "scale", "%s: peek(%u) of %u is wrong", w, i, held);
    if (held) MC_CHECK(rb.contains(item(in - 1)), "scale", "%s: the newest element is not contained", w);
    if (sizeof(T) >= 4) MC_CHECK(!rb.contains(item(0)), "scale", "%s: an element that was never inserted is contained", w);
  };
  auto put = [&](unsigned n, bool bulk) {
    unsigned room = cap - held;
    if (bulk) {
      std::vector<T> v; for (unsigned i = 0; i < n; i++) v.push_back(item(in + i));
      int ret = rb.insert(v.data(), n); unsigned t = n < room ? n : room;
      MC_CHECK(t ? ret == (int) t : ret < 0, "scale", "inserting %u with room for %u returned %d", n, room, ret);
      in += t; held += t;
    }
    else for (unsigned i = 0; i < n; i++) {
      int ret = rb.insert(item(in));
      MC_CHECK((held < cap) == (ret == 0), "scale", "insert() with %u of %u held returned %d", held, cap, ret);
      if (held < cap) { in++; held++; }
    }
    ok("after insertion");
  };
  auto take = [&](unsigned n, unsigned how) {
    unsigned t = n < held ? n : held;
    if (how == 1) {
      std::vector<T> v(n + 1, item(0)); int ret = rb.get(v.data(), n);
      MC_CHECK(ret == (int) t, "scale", "get(buf, %u) of %u returned %d", n, held, ret);
      for (unsigned i = 0; i < t; i++) MC_CHECK(same(v[i], out + i), "scale", "get(buf, %u): element %u is wrong", n, i);
      MC_CHECK(same(v[t], 0), "scale", "get(buf, %u) wrote past its count", n);
    }
    else if (how == 2) { int ret = rb.cull(n); MC_CHECK(ret == (int) t, "scale", "cull(%u) of %u returned %d", n, held, ret); }
    else for (unsigned i = 0; i < t; i++) MC_CHECK(same(rb.get(), out + i), "scale", "get() number %u of %u is wrong", i, t);
    out += t; held -= t;
    ok("after removal");
  };
  if (start) { put(start, true); take(start, 2); }
  put(cap - 1, kind == 1); put(3, kind != 0);
  std::vector<T> all(cap + 1, item(0)); int r = rb.peek(all.data(), cap + 1);
  MC_CHECK(r == (int) cap, "scale", "peek(buf, %u) of a full ring of %u returned %d", cap + 1, cap, r);
  for (unsigned i = 0; i < cap; i++) MC_CHECK(same(all[i], out + i), "scale", "peek(buf, ...): element %u of %u is wrong", i, cap);
  take(cap / 2 + 1, kind); put(cap / 2, kind != 1); take(cap - 2, (kind + 1) % 3); put(cap, kind == 2); take(cap + 1, kind);
  MC_CHECK(rb.isEmpty(), "scale", "a drained ring is not empty");
}
struct Big { uint8_t b[500]; bool operator==(const Big& o) const { return !memcmp(b, o.b, sizeof(b)); } Big& operator=(int) { memset(b, 0, sizeof(b)); return *this; } Big() {} Big(int) { memset(b, 0, sizeof(b)); } };

int main(int argc, char** argv) {
  std::vector<mc::Config> c;
  const bool T = mc::thorough;
  for (unsigned cap = 1; cap <= (T ? 5u : 4u); cap++) {
    unsigned deep = T ? 24 : 14;
    c.emplace_back("u32/cap" + std::to_string(cap), [=]() { sequences<uint32_t>(cap, deep, true); }, 3, "all histories of up to " + std::to_string(deep) + " operations, up to state equality");
  }
  for (unsigned cap = 1; cap <= 3; cap++) {
    unsigned deep = T ? 20 : 12;
    c.emplace_back("u8/cap" + std::to_string(cap), [=]() { sequences<uint8_t>(cap, deep, true); }, 3, "all histories, up to state equality");
    c.emplace_back("u64/cap" + std::to_string(cap), [=]() { sequences<uint64_t>(cap, deep, true); }, 3, "all histories, up to state equality");
    c.emplace_back("u16/cap" + std::to_string(cap), [=]() { sequences<uint16_t>(cap, deep, true); }, 3, "all histories, up to state equality");
  }
  unsigned flat = T ? 6 : 4;
  for (unsigned cap : {2u, 3u})
    c.emplace_back("flat/u32/cap" + std::to_string(cap), [=]() { sequences<uint32_t>(cap, flat, false); }, 3, "all histories of exactly " + std::to_string(flat) + " operations, without merging states");
  c.emplace_back("scale/u8", []() { scale<uint8_t>({255, 256, 257, 300, 65535, 65536, 70000}); }, 2, "capacities about 256 and 65536, round the seam");
  c.emplace_back("scale/u32", []() { scale<uint32_t>({64, 255, 256, 257, 16384, 16390, 66000}); }, 2, "capacities about 256, and 65536 bytes");
  c.emplace_back("scale/u64", []() { scale<uint64_t>({32, 256, 300, 8192, 8200}); }, 2, "capacities about 256, and 65536 bytes");
  c.emplace_back("scale/500", []() { scale<Big>({4, 130, 132, 140}); }, 2, "elements of 500 bytes, about 65536 bytes");
  return mc::main(argc, argv, "C01", c, {
    "element values come from three-element alphabets whose members differ in single bytes; the container never interprets values, it copies and compares them",
    "capacities 1 to 5, and single histories at capacities up to 70000; indexes beyond the element count are outside the statement (the documentation leaves them open)"});
}
