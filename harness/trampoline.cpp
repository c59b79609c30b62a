// P20: trampoline_scheduler
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <vector>
using namespace h;
namespace ex = stdexec;
namespace
{
  constexpr int NO = 31;
  struct OpB
  {
    virtual void start() noexcept = 0;
    virtual ~OpB() = default;
  };
  struct World
  {
    OpB*                    op[NO]{};
    std::vector<int>        kids[NO];
    int                     stops[NO]{};   // completing stops this one
    ex::inplace_stop_source src[NO];
  };
  World* W;
  void start(int o)
  {
    ev("sta", F("o", o));
    W->op[o]->start();
    ev("ret", F("o", o));
  }
  void stop(int o)
  {
    ev("stop_call", F("o", o));
    W->src[o].request_stop();
    ev("stop_ret", F("o", o));
  }
  struct R
  {
    using receiver_concept = ex::receiver_tag;
    struct E
    {
      int  o;
      auto query(ex::get_stop_token_t) const noexcept { return W->src[o].get_token(); }
    };
    int  o;
    auto get_env() const noexcept -> E { return {o}; }
    static void done(int o, char const * c) noexcept
    {
      ev("run", F("o", o), F("c", c));
      delete std::exchange(W->op[o], nullptr);
      if (W->stops[o])
        stop(W->stops[o]);
      for (int k: W->kids[o])
        start(k);
      ev("run_end", F("o", o));
    }
    void set_value() noexcept { done(o, "v"); }
    void set_stopped() noexcept { done(o, "s"); }
  };
  struct Op : OpB
  {
    ex::connect_result_t<ex::schedule_result_t<exec::trampoline_scheduler>, R> op;
    Op(exec::trampoline_scheduler s, int o) : op(ex::connect(ex::schedule(s), R{o})) {}
    void start() noexcept override { ex::start(op); }
  };
  void tree(exec::trampoline_scheduler s, int from, int n)
  {
    for (int o = from; o < from + n; ++o)
    {
      W->op[o] = new Op(s, o);
      if (o > from)
      {
        // mostly chains
        int p = vs::choose(3) ? o - 1 : from + vs::choose(o - from);
        W->kids[p].push_back(o);
      }
      if (vs::choose(8) == 0 && o + 1 < from + n)
        W->stops[o] = o + 1 + vs::choose(from + n - o - 1);
    }
  }
  exec::trampoline_scheduler sched(int mx)
  {
    vs::cfg("{\"mx\":" + std::to_string(mx) + "}");
    return exec::trampoline_scheduler((std::size_t) mx, 10000000);
  }
}  // namespace

VS_SCENARIO(tree1)
{
  World w;
  W      = &w;
  auto s = sched(vs::choose(5));
  tree(s, 1, 1 + vs::choose(16));
  if (vs::choose(4) == 0)
    stop(1 + vs::choose(3));
  start(1);
  ev("end");
}
VS_SCENARIO(again)
{
  World w;
  W      = &w;
  auto s = sched(1 + vs::choose(3));
  tree(s, 1, 6);
  tree(s, 11, 6);
  start(1);
  start(11);
  ev("end");
}
VS_SCENARIO(threads)
{
  World w;
  W      = &w;
  auto s = sched(1 + vs::choose(3));
  tree(s, 1, 5);
  tree(s, 11, 5);
  std::thread a([&] { start(1); });
  std::thread b([&] { stop(3); stop(14); });
  start(11);
  a.join();
  b.join();
  ev("end");
}
