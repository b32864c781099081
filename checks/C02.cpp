/* C02: the priority queue keeps its elements in priority order, first-come first-served among equals. */
#include "mc.h"
#include "CppPotpourri.h"
#include "PriorityQueue.h"
#include <algorithm>

struct E { uint32_t* p; int pri; };
typedef std::vector<E> Q;
static uint32_t cells[8];

static int m_insert(Q& q, uint32_t* p, int pri) {
  size_t i = 0;
  while (i < q.size() && q[i].pri >= pri) i++;
  q.insert(q.begin() + i, E{p, pri});
  return (int) i;
}
static int m_find(const Q& q, uint32_t* p) { for (size_t i = 0; i < q.size(); i++) if (q[i].p == p) return (int) i; return -1; }
static void m_sort(Q& q) { std::stable_sort(q.begin(), q.end(), [](const E& a, const E& b) { return a.pri > b.pri; }); }

static void compare(PriorityQueue<uint32_t*>& pq, const Q& q, const char* after) {
  MC_CHECK(pq.size() == (int) q.size(), "size", "after %s: size() %d, model %u", after, pq.size(), (unsigned) q.size());
  MC_CHECK(pq.hasNext() == !q.empty(), "hasNext", "after %s: hasNext() wrong", after);
  MC_CHECK(pq.get() == (q.empty() ? nullptr : q[0].p), "head", "after %s: get() is not the head", after);
  for (size_t i = 0; i < q.size(); i++) {
    MC_CHECK(pq.get((int) i) == q[i].p, "order", "after %s: element %u of %u is cell %ld, model cell %ld", after, (unsigned) i, (unsigned) q.size(), (long) (pq.get((int) i) - cells), (long) (q[i].p - cells));
    MC_CHECK(pq.getPriority((int) i) == q[i].pri, "priority", "after %s: priority at %u is %d, model %d", after, (unsigned) i, pq.getPriority((int) i), q[i].pri);
  }
  MC_CHECK(nullptr == pq.get((int) q.size()), "past-end", "after %s: get(size) is not null", after);
  MC_CHECK(nullptr == pq.get(-1), "negative", "after %s: get(-1) is not null", after);
  for (int k = 0; k < 5; k++) {
    int f = m_find(q, &cells[k]);
    MC_CHECK(pq.contains(&cells[k]) == (f >= 0), "contains", "after %s: contains(cell %d) wrong", after, k);
    MC_CHECK(pq.getPosition(&cells[k]) == f, "position", "after %s: getPosition(cell %d) is %d, model %d", after, k, pq.getPosition(&cells[k]), f);
    if (f >= 0) MC_CHECK(pq.getPriority(&cells[k]) == q[f].pri, "priority-of", "after %s: getPriority(cell %d) is %d, model %d", after, k, pq.getPriority(&cells[k]), q[f].pri);
  }
  for (int pr = -3; pr <= 4; pr++) {
    uint32_t* w = nullptr;
    for (auto& e : q) if (e.pri == pr) { w = e.p; break; }
    MC_CHECK(pq.getByPriority(pr) == w, "by-priority", "after %s: getByPriority(%d) wrong", after, pr);
  }
}

static void drain(PriorityQueue<uint32_t*>& pq, Q& q) {
  while (!q.empty()) {
    uint32_t* d = pq.dequeue();
    MC_CHECK(d == q[0].p, "drain", "draining: dequeued cell %ld, model cell %ld", (long) (d - cells), (long) (q[0].p - cells));
    q.erase(q.begin());
  }
  MC_CHECK(nullptr == pq.dequeue(), "drain-end", "dequeue() of an empty queue is not null");
  MC_CHECK(0 == pq.size(), "drain-size", "size() of a drained queue is %d", pq.size());
}

static void sequences(unsigned depth, unsigned items, int plo, int phi, unsigned maxlen, bool prune) {
  int64_t blocks = mc::live_blocks();
  {
    PriorityQueue<uint32_t*> pq;
    Q q;
    for (unsigned d = 0; d < depth; d++) {
      if (prune) {
        std::string key;
        for (auto& e : q) { key += (char) ('A' + (e.p - cells)); key += (char) (e.pri + 64); }
        mc::state(key, depth - d);
      }
      const char* name = "";
      switch (mc::choose(11)) {
        case 0: {
          if (q.size() >= maxlen) throw mc::Prune();
          unsigned k = mc::choose(items); int pr = mc::range(plo, phi);
          int r = pq.insert(&cells[k], pr);
          mc::op("insert(%u, pri %d) -> %d", k, pr, r); name = "insert";
          int w = m_insert(q, &cells[k], pr);
          MC_CHECK(r == w, "insert-ret", "insert() returned %d, the element is at %d", r, w);
          break; }
        case 1: {
          if (q.size() >= maxlen) throw mc::Prune();
          unsigned k = mc::choose(items);
          int r = pq.insert(&cells[k]);
          mc::op("insert(%u) -> %d", k, r); name = "insert without priority";
          int w = m_insert(q, &cells[k], 0);
          MC_CHECK(r == w, "insert0-ret", "insert() returned %d, the element is at %d", r, w);
          break; }
        case 2: {
          unsigned k = mc::choose(items); int pr = mc::range(plo, phi);
          bool had = m_find(q, &cells[k]) >= 0;
          if (!had && (q.size() >= maxlen)) throw mc::Prune();
          int r = pq.insertIfAbsent(&cells[k], pr);
          mc::op("insertIfAbsent(%u, pri %d) -> %d", k, pr, r); name = "insertIfAbsent";
          if (had) MC_CHECK(r < 0, "iia-present", "insertIfAbsent() of a present element returned %d", r);
          else {
            int w = m_insert(q, &cells[k], pr);
            MC_CHECK(r == w, "iia-ret", "insertIfAbsent() returned %d, the element is at %d", r, w);
          }
          break; }
        case 3: {
          unsigned k = mc::choose(items);
          bool had = m_find(q, &cells[k]) >= 0;
          if (!had && (q.size() >= maxlen)) throw mc::Prune();
          int r = pq.insertIfAbsent(&cells[k]);
          mc::op("insertIfAbsent(%u) -> %d", k, r); name = "insertIfAbsent without priority";
          if (had) MC_CHECK(r < 0, "iia0-present", "insertIfAbsent() of a present element returned %d", r);
          else {
            int w = m_insert(q, &cells[k], 0);
            MC_CHECK(r == w, "iia0-ret", "insertIfAbsent() returned %d, the element is at %d", r, w);
          }
          break; }
        case 4: {
          uint32_t* r = pq.dequeue();
          mc::op("dequeue() -> %ld", (long) (r ? r - cells : -1)); name = "dequeue";
          uint32_t* w = q.empty() ? nullptr : q[0].p;
          if (!q.empty()) q.erase(q.begin());
          MC_CHECK(r == w, "dequeue", "dequeue() did not return the head");
          break; }
        case 5: {
          uint32_t* r = pq.recycle();
          mc::op("recycle() -> %ld", (long) (r ? r - cells : -1)); name = "recycle";
          uint32_t* w = q.empty() ? nullptr : q[0].p;
          MC_CHECK(r == w, "recycle", "recycle() did not return the head");
          if (q.size() > 1) { E e = q[0]; q.erase(q.begin()); e.pri = q.back().pri; q.push_back(e); }
          break; }
        case 6: {
          int pos = mc::range(-1, (int) q.size());
          bool r = pq.remove(pos);
          mc::op("remove(position %d) -> %d", pos, r); name = "remove(position)";
          bool w = (pos >= 0) && (pos < (int) q.size());
          MC_CHECK(r == w, "remove-pos-ret", "remove(%d) of %u returned %d", pos, (unsigned) q.size(), r);
          if (w) q.erase(q.begin() + pos);
          break; }
        case 7: {
          unsigned k = mc::choose(items);
          bool r = pq.remove(&cells[k]);
          mc::op("remove(%u) -> %d", k, r); name = "remove(data)";
          bool w = m_find(q, &cells[k]) >= 0;
          q.erase(std::remove_if(q.begin(), q.end(), [&](const E& e) { return e.p == &cells[k]; }), q.end());
          MC_CHECK(r == w, "remove-ret", "remove(data) returned %d, model %d", r, w);
          break; }
        case 8: {
          int r = pq.clear();
          mc::op("clear() -> %d", r); name = "clear";
          MC_CHECK(r == (int) q.size(), "clear", "clear() returned %d of %u", r, (unsigned) q.size());
          q.clear();
          break; }
        case 9: {
          unsigned k = mc::choose(items);
          int f = m_find(q, &cells[k]);
          if ((f >= 0) && (q[f].pri >= phi)) throw mc::Prune();
          bool r = pq.incrementPriority(&cells[k]);
          mc::op("incrementPriority(%u) -> %d", k, r); name = "incrementPriority";
          MC_CHECK(r == (f >= 0), "inc-ret", "incrementPriority() returned %d", r);
          if (f >= 0) { q[f].pri++; m_sort(q); }
          break; }
        case 10: {
          unsigned k = mc::choose(items);
          int f = m_find(q, &cells[k]);
          if ((f >= 0) && (q[f].pri <= plo)) throw mc::Prune();
          bool r = pq.decrementPriority(&cells[k]);
          mc::op("decrementPriority(%u) -> %d", k, r); name = "decrementPriority";
          MC_CHECK(r == (f >= 0), "dec-ret", "decrementPriority() returned %d", r);
          if (f >= 0) { q[f].pri--; m_sort(q); }
          break; }
      }
      compare(pq, q, name);
    }
    if (mc::flip()) drain(pq, q);   // otherwise the destructor gets the rest
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks of the queue's memory were not released", (long) (mc::live_blocks() - blocks));
}

/* Hundreds of elements: the order, the positions and the counts hold beyond 255. */
static void scale() {
  static uint32_t many[300]; static const unsigned sizes[] = {254, 255, 256, 257, 300};
  const unsigned n = mc::pick(sizes), levels = 1 + mc::choose(3), how = mc::choose(4);
  mc::op("%u elements over %u priorities; %u", n, levels, how);
  int64_t blocks = mc::live_blocks();
  {
    PriorityQueue<uint32_t*> pq; Q q;
    static const int P[] = {0, 300, -70000, 70000};
    for (unsigned i = 0; i < n; i++) { int pr = P[(i * 7) % levels]; int pos = m_insert(q, &many[i], pr); int r = pq.insert(&many[i], pr); MC_CHECK(r == pos, "scale", "insert() number %u returned %d, not its position %d", i, r, pos); }
    auto all = [&](const char* w) {
      MC_CHECK(pq.size() == (int) q.size(), "scale", "%s: size() is %d of %u", w, pq.size(), (unsigned) q.size());
      for (size_t i = 0; i < q.size(); i++) {
        MC_CHECK(pq.get((int) i) == q[i].p, "scale", "%s: get(%u) is wrong", w, (unsigned) i);
        MC_CHECK(pq.getPriority((int) i) == q[i].pri, "scale", "%s: getPriority(%u) is %d, not %d", w, (unsigned) i, pq.getPriority((int) i), q[i].pri);
        MC_CHECK(pq.getPosition(q[i].p) == (int) i, "scale", "%s: getPosition() of element %u is %d", w, (unsigned) i, pq.getPosition(q[i].p));
      }
      MC_CHECK(!pq.get((int) q.size()), "scale", "%s: get(size) is not null", w);
    };
    all("after insertion");
    const unsigned at = n - 1;
    if (how == 1) { MC_CHECK(pq.remove(q[at].p), "scale", "remove(last) failed"); q.erase(q.begin() + at); all("after remove(last)"); }
    if (how == 2) { MC_CHECK(pq.recycle() , "scale", "recycle() failed"); E e = q[0]; q.erase(q.begin()); e.pri = q.back().pri; q.push_back(e); all("after recycle()"); }
    if (how == 3) { MC_CHECK(pq.remove((int) at), "scale", "remove(position) failed"); q.erase(q.begin() + at); all("after remove(position)"); }
    for (unsigned i = 0; !q.empty(); i++) { MC_CHECK(pq.dequeue() == q[0].p, "scale", "dequeue() number %u is wrong", i); q.erase(q.begin()); }
    MC_CHECK(!pq.hasNext() && !pq.dequeue() && pq.size() == 0, "scale", "a drained queue is not empty");
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld blocks of the queue's memory were not released", (long) (mc::live_blocks() - blocks));
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  std::vector<mc::Config> c;
  c.emplace_back("merged/3items", [=]() { sequences(T ? 16 : 12, 3, -1, 2, T ? 6 : 4, true); }, 3, "3 elements, priorities -1..2, at most 4 (thorough 6) in the queue, all histories up to state equality");
  c.emplace_back("merged/4items", [=]() { sequences(T ? 12 : 8, 4, 0, 1, T ? 6 : 5, true); }, 3, "4 elements, priorities 0..1, at most 5 (thorough 6) in the queue");
  c.emplace_back("merged/extremes", [=]() { sequences(T ? 9 : 7, 2, -3, 4, T ? 5 : 4, true); }, 3, "2 elements, priorities -3..4");
  c.emplace_back("flat", [=]() { sequences(T ? 5 : 4, 3, 0, 1, 9, false); }, 3, "every history of exactly 4 (thorough 5) operations, states not merged");
  c.emplace_back("scale", scale, 2, "254..300 elements, priorities to 70000 either way");
  return mc::main(argc, argv, "C02", c, {"the element type is a non-null pointer, which the documentation and all users of the queue assume",
    "the single-threaded build, which is the one the project's tests use; the optional mutexes are not explored"});
}
