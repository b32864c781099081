/* C03: the linked list keeps insertion order and removes exactly what was asked. */
#include "mc.h"
#include "CppPotpourri.h"
#include "LightLinkedList.h"
#include <algorithm>

typedef std::vector<uint32_t*> L;
static uint32_t cells[8];

static void compare(LinkedList<uint32_t*>& l, const L& m, const char* after) {
  MC_CHECK(l.size() == (int) m.size(), "size", "after %s: size() %d, model %u", after, l.size(), (unsigned) m.size());
  MC_CHECK(l.hasNext() == !m.empty(), "hasNext", "after %s: hasNext() wrong", after);
  MC_CHECK(l.get() == (m.empty() ? nullptr : m[0]), "head", "after %s: get() is not the head", after);
  for (size_t i = 0; i < m.size(); i++)
    MC_CHECK(l.get((int) i) == m[i], "order", "after %s: element %u of %u is cell %ld, model cell %ld", after, (unsigned) i, (unsigned) m.size(), (long) (l.get((int) i) - cells), (long) (m[i] - cells));
  MC_CHECK(nullptr == l.get((int) m.size()), "past-end", "after %s: get(size) is not null", after);
  MC_CHECK(nullptr == l.get((int) m.size() + 1), "past-end", "after %s: get(size+1) is not null", after);
  MC_CHECK(nullptr == l.get(-1), "negative", "after %s: get(-1) is not null", after);
  for (int k = 0; k < 5; k++)
    MC_CHECK(l.contains(&cells[k]) == (std::find(m.begin(), m.end(), &cells[k]) != m.end()), "contains", "after %s: contains(cell %d) wrong", after, k);
}

static void sequences(unsigned depth, unsigned items, unsigned maxlen, bool prune) {
  int64_t blocks = mc::live_blocks();
  {
    LinkedList<uint32_t*> l;
    L m;
    for (unsigned d = 0; d < depth; d++) {
      if (prune) {
        std::string key;
        for (auto p : m) key += (char) ('A' + (p - cells));
        mc::state(key, depth - d);
      }
      const char* name = "";
      switch (mc::choose(6)) {
        case 0: {
          if (m.size() >= maxlen) throw mc::Prune();
          unsigned k = mc::choose(items);
          int r = l.insert(&cells[k]);
          mc::op("insert(%u) -> %d", k, r); name = "insert";
          MC_CHECK(r >= 0, "insert-ret", "insert() returned %d", r);
          m.push_back(&cells[k]);
          break; }
        case 1: {
          if (m.size() >= maxlen) throw mc::Prune();
          unsigned k = mc::choose(items);
          int r = l.insertAtHead(&cells[k]);
          mc::op("insertAtHead(%u) -> %d", k, r); name = "insertAtHead";
          MC_CHECK(r == 0, "insert-head-ret", "insertAtHead() returned %d", r);
          m.insert(m.begin(), &cells[k]);
          break; }
        case 2: {
          uint32_t* r = l.remove();
          mc::op("remove() -> %ld", (long) (r ? r - cells : -1)); name = "remove";
          uint32_t* w = m.empty() ? nullptr : m[0];
          if (!m.empty()) m.erase(m.begin());
          MC_CHECK(r == w, "remove", "remove() did not return the head");
          break; }
        case 3: {
          int pos = mc::range(-1, (int) m.size() + 1);
          uint32_t* r = l.remove(pos);
          mc::op("remove(position %d) -> %ld", pos, (long) (r ? r - cells : -1)); name = "remove(position)";
          bool in = (pos >= 0) && (pos < (int) m.size());
          MC_CHECK(r == (in ? m[pos] : nullptr), "remove-pos-ret", "remove(%d) of %u returned the wrong element", pos, (unsigned) m.size());
          if (in) m.erase(m.begin() + pos);
          break; }
        case 4: {
          unsigned k = mc::choose(items + 1);   // one of them is never in the list
          bool r = l.remove(&cells[k]);
          mc::op("remove(data %u) -> %d", k, r); name = "remove(data)";
          size_t was = m.size();
          m.erase(std::remove(m.begin(), m.end(), &cells[k]), m.end());
          MC_CHECK(r == (m.size() != was), "remove-ret", "remove(data) returned %d", r);
          break; }
        case 5: {
          int r = l.clear();
          mc::op("clear() -> %d", r); name = "clear";
          MC_CHECK(r == (int) m.size(), "clear", "clear() returned %d of %u", r, (unsigned) m.size());
          m.clear();
          break; }
      }
      compare(l, m, name);
    }
    if (mc::flip()) {
      while (!m.empty()) { MC_CHECK(l.remove() == m[0], "drain", "draining: wrong element"); m.erase(m.begin()); }
      MC_CHECK((nullptr == l.remove()) && (0 == l.size()), "drain-end", "the drained list is not empty");
    }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "%ld nodes of the list were not released", (long) (mc::live_blocks() - blocks));
}

/* A long list: one removal of each kind at each position. */
static void scale() {
  static uint32_t many[400];
  static const int sizes[] = {254, 255, 256, 257, 300};
  int64_t blocks = mc::live_blocks();
  {
    int n = mc::pick(sizes);
    LinkedList<uint32_t*> l; L m;
    for (int i = 0; i < n; i++) { l.insert(&many[i]); m.push_back(&many[i]); }
    int pos = (int) mc::choose(n);
    int kind = mc::choose(2);
    mc::op("%d elements, remove %s %d", n, kind ? "data" : "position", pos);
    if (kind) MC_CHECK(l.remove(&many[pos]), "scale", "remove(data) failed");
    else MC_CHECK(l.remove(pos) == &many[pos], "scale", "remove(position) gave the wrong element");
    m.erase(m.begin() + pos);
    l.insert(&many[399]); m.push_back(&many[399]);
    MC_CHECK(l.size() == n, "scale", "size() is %d of %d", l.size(), n);
    MC_CHECK(l.get(n - 1) == &many[399], "scale", "the last element is wrong");
    for (int i = 0; i < n; i++) { MC_CHECK(l.remove() == m[i], "scale", "element %d of %d is wrong", i, n); }
  }
  MC_CHECK(mc::live_blocks() == blocks, "leak", "nodes were not released");
}

int main(int argc, char** argv) {
  const bool T = mc::thorough;
  std::vector<mc::Config> c;
  c.emplace_back("merged/3items", [=]() { sequences(T ? 18 : 13, 3, T ? 8 : 6, true); }, 3, "3 elements, at most 6 (thorough 8) in the list, all histories up to state equality");
  c.emplace_back("flat", [=]() { sequences(T ? 7 : 6, 2, 9, false); }, 3, "2 elements, every history of exactly 6 (thorough 7) operations, states not merged");
  c.emplace_back("scale", scale, 1, "254..300 elements, a removal of each kind at each position");
  return mc::main(argc, argv, "C03", c, {"the element type is a non-null pointer"});
}
