// vsched: a controlled-concurrency runtime for conformance checking.
//
// The code under test is compiled with -fsanitize=thread (so that the compiler
// reports every atomic operation and every plain memory access) but linked with
// this runtime instead of libtsan.  Exactly one managed thread runs at a time; at
// every synchronisation operation the runtime decides which thread goes next.
// Every execution is a pure function of (scenario, mode, seed, index).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace vs
{
  // ---- trace ---------------------------------------------------------------
  // Appends one event.  `e` is the event name; the rest is `"key":value` text
  // produced by the helpers below.  The runtime adds the managed thread id "t".
  void ev_raw(char const* e, char const* fields);

  struct F
  {
    char const* k;
    long        v;
    char const* s;
    F(char const* kk, long vv) : k(kk), v(vv), s(nullptr) {}
    F(char const* kk, int vv) : k(kk), v(vv), s(nullptr) {}
    F(char const* kk, unsigned vv) : k(kk), v((long) vv), s(nullptr) {}
    F(char const* kk, std::size_t vv) : k(kk), v((long) vv), s(nullptr) {}
    F(char const* kk, bool vv) : k(kk), v(vv ? 1 : 0), s(nullptr) {}
    F(char const* kk, char const* ss) : k(kk), v(0), s(ss) {}
    F(char const* kk, std::string const & ss) : k(kk), v(0), s(ss.c_str()) {}
  };
  void ev(char const* e);
  void ev(char const* e, F a);
  void ev(char const* e, F a, F b);
  void ev(char const* e, F a, F b, F c);
  void ev(char const* e, F a, F b, F c, F d);
  void ev(char const* e, F a, F b, F c, F d, F f);

  // Sets the configuration record of this execution (a JSON object text).
  void cfg(std::string const & json_object);

  // ---- control ---------------------------------------------------------------
  int      tid();                 // managed thread id, 0 for the scenario's main thread
  int      choose(int n);         // a nondeterministic choice in 0..n-1, part of the schedule
  void     point();               // an explicit scheduling point
  void     yield_point();         // a scheduling point at which the others should go first
  uint64_t vnow_ns();             // virtual time
  bool     active();              // are we on a managed thread

  // ---- memory ----------------------------------------------------------------
  void mark_dead(void const * p, std::size_t n);   // accesses from now on are "uaf" events
  void mark_alive(void const * p, std::size_t n);
  long live_allocs();             // operator-new blocks alive, made in this execution
  long live_bytes();

  // "happens-before" probes: hb_put(k) records the calling thread's clock under key k;
  // hb_get(k) says whether that point happens before the caller's present point.
  void hb_put(long key);
  bool hb_get(long key);

  // ---- options (set by the scenario before threads start) ---------------------
  void opt_races(bool on);        // report data races on plain memory (default on)
  void opt_max_steps(long n);     // scheduling points before "livelock" (default 60000)
  void opt_stale(int percent);    // weak-memory stale reads of atomics (default from the command line)
  void opt_timepass(bool on);     // let timers expire although threads could run (default on)
  void opt_ncpu(int n);           // what std::thread::hardware_concurrency reports (default 2)
  void opt_leakcheck(bool on);    // emit {"e":"leak"} if operator-new blocks remain at the end

  struct Scenario
  {
    char const*           name;
    std::function<void()> fn;
    Scenario*             next;
    Scenario(char const* n, std::function<void()> f);
  };

  // A oneshot flag with which harness threads can wait for each other without
  // spinning.  Waiting/setting synchronises (release/acquire).
  struct Flag
  {
    Flag() = default;
    Flag(Flag const &) = delete;
    void set();
    void wait();
    bool get();
   private:
    bool v_ = false;
  };
}  // namespace vs

#define VS_CAT2(a, b) a##b
#define VS_CAT(a, b) VS_CAT2(a, b)
#define VS_SCENARIO(name)                                                                   \
  static void VS_CAT(scn_, name)();                                                         \
  static ::vs::Scenario VS_CAT(scn_reg_, name){#name, [] { VS_CAT(scn_, name)(); }};        \
  static void VS_CAT(scn_, name)()

#define VS_NOSAN __attribute__((no_sanitize("thread")))
