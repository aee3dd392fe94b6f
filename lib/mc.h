// Stateless model-checking engine: exhaustive depth-first enumeration of every
// nondeterministic choice of a harness, on the real code, in parallel worker
// processes, with crash/hang isolation and deterministic replay.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <cstdarg>

namespace mc {

struct Violation { };                 // thrown by fail() to unwind one execution
struct Abandon { };                   // thrown by prune(): execution not counted as violating

int  choose(int n, const char* label = nullptr);       // free choice in [0,n)
inline bool flip(const char* label = nullptr) { return choose(2, label) != 0; }
template <class T, size_t N> const T& pick(const T (&a)[N], const char* l = nullptr) { return a[choose(int(N), l)]; }
template <class T> const T& pick(const std::vector<T>& a, const char* l = nullptr) { return a[choose(int(a.size()), l)]; }

[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void prune();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void state(uint64_t h);               // record a visited (abstract) state
// explicit-state search: abandon this execution if the same canonical state was already reached
// with the same number of remaining steps (its continuations are explored elsewhere)
void dedup(uint64_t h, int remaining);
void transition(uint64_t n = 1);      // record executed operations
void outcome(const std::string& s);   // record a distinct observed outcome
bool thorough();
bool replaying();                     // still re-executing the prefix shared with an earlier execution
int  bound();                         // current deviation bound of the scenario
const std::string& scratch();         // private scratch dir of this worker process
const std::string& scenarioName();
bool usingFork();

#define MC_CHECK(cond, key, ...) do { if (!(cond)) ::mc::fail(key, __VA_ARGS__); } while (0)

struct Scenario
{
  std::string name;
  std::function<void()> body;
  bool fork_each = false;             // run every execution in a fresh process
  std::vector<int> bounds;            // deviation bounds to iterate (empty: none)
  double max_seconds = 0;             // 0: default
  int exec_timeout_s = 30;
  std::function<bool()> again;        // after a complete pass: must the pass be repeated?
  std::function<void()> before;       // called once before the passes of the scenario
  std::function<std::string()> save;  // extra line of a replay file
  std::function<void(const std::string&)> load;
  Scenario(std::string n, std::function<void()> b) : name(std::move(n)), body(std::move(b)) { }
  Scenario& forked() { fork_each = true; return *this; }
  Scenario& withBounds(std::vector<int> b) { bounds = std::move(b); return *this; }
  Scenario& limit(double s) { max_seconds = s; return *this; }
  Scenario& timeout(int s) { exec_timeout_s = s; return *this; }
  Scenario& repeatWhile(std::function<bool()> f) { again = std::move(f); return *this; }
};

// Called (if set) when fail()/prune() happens where unwinding is impossible.
extern void (*escape_hook)();

int run(int argc, char** argv, std::vector<Scenario> scenarios);

// shared memory that survives across worker processes
void* sharedAlloc(size_t bytes);

// hashing helpers
inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull)
{
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h, s.size());
}
std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string& s);

} // namespace mc
#endif
