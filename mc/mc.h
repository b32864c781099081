/*
 * mc.h: a small stateless / state-caching explorer for sequential C++ code.
 *
 * A harness is a function that performs ONE execution of the real code from its
 * initial state and asks choose(n) wherever the execution may go n ways: which
 * operation comes next, which argument it gets, what the environment answers,
 * where a fragment boundary or a fault falls. The explorer re-runs the harness
 * until every combination of answers has been executed (depth first, replay from
 * the initial state), spread over forked worker processes.
 *
 * visit(key, remaining) turns that into explicit-state search: an execution which
 * reaches an already expanded state with no more remaining depth than before is cut.
 * The cache is shared by all workers.
 */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace mc {

extern bool thorough;        // VERIF_TIER=thorough
extern bool logging;         // true when this execution's operations are rendered

struct Prune {};             // thrown to end an execution early (not an error)

uint32_t choose(uint32_t n);                      // 0..n-1
inline bool flip() { return 0 != choose(2); }
inline int  range(int lo, int hi) { return lo + (int) choose((uint32_t) (hi - lo + 1)); }
template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[choose(N)]; }
template <class T> const T& pick(const std::vector<T>& a)   { return a[choose((uint32_t) a.size())]; }

/* One operation on the code under test: counts a transition, and renders the text if logging. */
void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/* Only rendered when logging; does not count. */
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/* Count further transitions (for checks that loop over inputs within an execution). */
void steps(uint64_t n);

/* Records the state. False: it was already expanded at least this deep; the caller should return. */
bool visit(const std::string& key, unsigned remaining);
/* Records the state for the count of distinct states only. */
void count_state(const std::string& key);
void count_state(uint64_t h);
/* visit(), and ends the execution if there is nothing new to find. */
inline void state(const std::string& key, unsigned remaining) { if (!visit(key, remaining)) throw Prune(); }

uint64_t hash(const void*, size_t, uint64_t seed = 0);

/* Violation. The signature names what fails, for the known-findings file. */
[[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

#define MC_CHECK(cond, sig, ...) do { if (!(cond)) mc::fail(sig, __VA_ARGS__); } while (0)

/* Bytes the program has allocated and not yet released. */
int64_t live_bytes();
int64_t live_blocks();

std::string hex(const void*, size_t);
std::string hex(const std::string&);

/* Run once in each process before it explores: first-use allocations, and anything worked out from the code under test. */
extern std::function<void()> prime;

struct Config {
  std::string name;
  std::function<void()> run;
  unsigned split;            // how many leading choices are shared out among workers
  std::string bound;         // the bound, in words, for the evidence
  Config(const std::string& n, std::function<void()> r, unsigned s = 1, const std::string& b = "")
    : name(n), run(r), split(s), bound(b) {}
};

int main(int argc, char** argv, const char* property, std::vector<Config> configs,
         const std::vector<std::string>& assumptions);

}  // namespace mc

/* The controlled platform: provided by mc/platform.cpp. */
namespace plat {
  extern uint32_t now_us;                       // what micros() returns
  extern uint32_t now_ms;                       // what millis() returns
  extern uint32_t us_per_call;                  // advance on each micros() call
  extern std::function<uint32_t()> rng;         // what randomUInt32() returns; default: counter-based
  extern std::vector<std::string> log;          // what c3p_log() received
  extern void (*pin_hook)(uint8_t, bool);       // told of each setPin()
  void set_ms(uint32_t ms);                     // sets both clocks coherently
  void advance_ms(uint32_t ms);
  void advance_us(uint32_t us);
  void reset();
}
#endif
