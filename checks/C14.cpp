/* C14: chained values keep their order and members. */
#include "mc.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "StringBuilder.h"
#include <memory>
#include <set>

static std::set<int> ALIVE;
struct Val : public C3PValue { int id; Val(int i) : C3PValue((uint32_t) i), id(i) { ALIVE.insert(i); } ~Val() { if (!ALIVE.erase(id)) mc::fail("twice", "value %d destroyed twice", id); } };
struct Kvp : public KeyValuePair { int id; Kvp(int i) : KeyValuePair("key", (uint32_t) i), id(i) { ALIVE.insert(i); } ~Kvp() { if (!ALIVE.erase(id)) mc::fail("twice", "pair %d destroyed twice", id); } };

struct M { int id; bool reap; C3PValue* v; };

static void look(C3PValue* root, const std::vector<M>& m, const char* how) {
  MC_CHECK(root->count() == m.size(), "count", "after %s: count() is %u, model %zu", how, root->count(), m.size());
  C3PValue* p = root;
  for (size_t i = 0; i < m.size(); i++, p = p->nextValue()) {
    MC_CHECK(p == m[i].v, "order", "after %s: member %zu is not value %d", how, i, m[i].id);
    MC_CHECK(root->valueWithIdx(i) == m[i].v, "index", "after %s: valueWithIdx(%zu) is not value %d", how, i, m[i].id);
    uint32_t got = 0xFFFF; MC_CHECK(root->valueWithIdx(i, &got) == 0 && got == (uint32_t) m[i].id, "index", "after %s: valueWithIdx(%zu) reads %u, not %d", how, i, got, m[i].id);
    MC_CHECK(p->reapContainer() == m[i].reap, "ownership", "after %s: member %zu has reapContainer() %d", how, i, p->reapContainer());
    MC_CHECK(p->count() == m.size() - i, "count", "after %s: count() from member %zu is %u", how, i, p->count());
    mc::steps(4);
  }
  MC_CHECK(p == nullptr, "order", "after %s: the chain goes on past its last member", how);
  uint32_t got = 0xFFFF;
  MC_CHECK(root->valueWithIdx(m.size()) == nullptr && root->valueWithIdx(m.size() + 3) == nullptr && root->valueWithIdx(m.size(), &got) != 0 && got == 0xFFFF, "index", "after %s: an index past the end finds something", how);
}

static void run(unsigned depth, bool merge, unsigned maxlen) {
  ALIVE.clear();
  const int64_t base = mc::live_blocks();
  {
    int next = 1;
    std::vector<M> m; std::vector<M> loose;               // loose: detached, ours again
    auto mk = [&](bool reap) { M x; x.id = next++; x.reap = reap; x.v = mc::flip() ? (C3PValue*) new Kvp(x.id) : (C3PValue*) new Val(x.id); x.v->reapContainer(reap); return x; };
    m.push_back(mk(mc::flip()));
    C3PValue* root = m[0].v;
    look(root, m, "construction");
    for (unsigned s = 0; s < depth; s++) {
      if (merge) { std::string key; for (auto& x : m) { key += x.reap ? 'r' : '.'; key += x.v->has_key() ? 'k' : 'v'; } mc::state(key, depth - s); }
      char how[80] = "";
      switch (mc::choose(5)) {
        case 0: case 1: {                                // link one, from the root or from a member
          if (m.size() >= maxlen) throw mc::Prune();
          const bool reap = mc::flip(); unsigned from = mc::choose((uint32_t) m.size());
          M x = mk(!reap); x.reap = reap;
          C3PValue* r = m[from].v->link(x.v, reap);
          snprintf(how, sizeof(how), "linking value %d to member %u%s", x.id, from, reap ? "" : ", not owned"); mc::op("%s", how);
          MC_CHECK(r == x.v, "link", "link() did not return the value");
          m.push_back(x);
        } break;
        case 2: {                                        // link a chain of two
          if (m.size() + 1 >= maxlen) throw mc::Prune();
          M x = mk(true), y = mk(true); x.v->link(y.v);
          snprintf(how, sizeof(how), "linking the chain of %d and %d", x.id, y.id); mc::op("%s", how);
          root->link(x.v); m.push_back(x); m.push_back(y);
        } break;
        case 3: {                                        // cut the chain at a member
          unsigned at = mc::choose((uint32_t) m.size() + 1); const bool destruct = mc::flip();
          std::unique_ptr<C3PValue> stranger;
          C3PValue* what = at < m.size() ? m[at].v : (stranger.reset(new C3PValue((uint32_t) 99)), stranger.get());
          if (at == 0) throw mc::Prune();                // the root is not linked to anything
          snprintf(how, sizeof(how), "unlink(member %u%s)", at, destruct ? ", destruct" : ""); mc::op("%s", how);
          int r = root->unlink(what, destruct);
          MC_CHECK((r == 0) == (at < m.size()), "unlink", "%s returned %d", how, r);
          if (at < m.size()) {
            std::vector<M> tail(m.begin() + at, m.end()); m.resize(at);
            bool gone = destruct && tail[0].reap;
            bool dead = gone;
            for (size_t i = 0; i < tail.size(); i++) {
              if (gone && i && dead && !tail[i].reap) dead = false;   // an unowned member outlives the chain, with what hangs on it
              MC_CHECK(ALIVE.count(tail[i].id) == !dead, "ownership", "%s: value %d is %s", how, tail[i].id, dead ? "alive" : "gone");
              if (!dead && (i == 0 || (gone && !tail[i].reap))) { M y = tail[i]; loose.push_back(y); if (!gone) break; if (gone) break; }
            }
          }
        } break;
        case 4: {                                        // drop one member
          unsigned at = mc::choose((uint32_t) m.size() + 1); const bool destruct = mc::flip();
          if (at == 0 && m.size() == 1) throw mc::Prune();
          std::unique_ptr<C3PValue> stranger;
          C3PValue* what = at < m.size() ? m[at].v : (stranger.reset(new C3PValue((uint32_t) 99)), stranger.get());
          snprintf(how, sizeof(how), "drop(member %u%s)", at, destruct ? ", destruct" : ""); mc::op("%s", how);
          int r = root->drop(&root, what, destruct);
          MC_CHECK((r == 0) == (at < m.size()), "drop", "%s returned %d", how, r);
          if (at < m.size()) {
            M x = m[at]; m.erase(m.begin() + at);
            bool gone = destruct && x.reap;
            MC_CHECK(ALIVE.count(x.id) == !gone, "ownership", "%s: value %d is %s", how, x.id, gone ? "alive" : "gone");
            if (!gone) { MC_CHECK(x.v->nextValue() == nullptr, "drop", "%s: the dropped value still leads on", how); loose.push_back(x); }
          }
        } break;
      }
      look(root, m, how);
    }
    delete root;                                         // takes every owned member with it, up to one that is not
    for (size_t i = 1; i < m.size(); i++) if (!m[i].reap) { for (size_t j = i; j < m.size(); j++) MC_CHECK(ALIVE.count(m[j].id), "ownership", "value %d went with a chain that did not own it", m[j].id); break; }
    for (size_t i = 1; i < m.size(); i++) if (!m[i].reap) { MC_CHECK(ALIVE.count(m[i].id), "ownership", "value %d, which is not owned, is gone", m[i].id); delete m[i].v; }
    // a loose chain may hold an unowned member further on: those are deleted by hand, too
    while (!loose.empty()) {
      M x = loose.back(); loose.pop_back();
      std::vector<C3PValue*> more; for (C3PValue* p = x.v->nextValue(); p; p = p->nextValue()) if (!p->reapContainer()) more.push_back(p);
      MC_CHECK(ALIVE.count(x.id), "ownership", "value %d, detached, is gone", x.id);
      delete x.v;
      for (C3PValue* p : more) delete p;
    }
    MC_CHECK(ALIVE.empty(), "ownership", "%zu values are left over, the first is %d", ALIVE.size(), *ALIVE.begin());
  }
  MC_CHECK(mc::live_blocks() == base, "leak", "%lld blocks are left", (long long) (mc::live_blocks() - base));
}

int main(int argc, char** argv) {
  const bool T = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::vector<mc::Config> c;
  c.emplace_back("chain", [T] { run(T ? 9 : 6, true, T ? 7 : 5); }, 3, "every history of links, cuts and drops, merged on members' kind and ownership");
  c.emplace_back("flat", [T] { run(T ? 4 : 3, false, 6); }, 3, "every short history, unmerged");
  return mc::main(argc, argv, "C14", c, {"unlink() cuts the chain at the member: it goes with everything behind it (as the decoder uses it)"});
}
