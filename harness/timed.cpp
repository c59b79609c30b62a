// P19: timed_thread_scheduler and the intrusive heap
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <exec/timed_thread_scheduler.hpp>
#include <chrono>
using namespace h;
using namespace std::chrono_literals;
namespace ex = stdexec;
namespace
{
  long us() { return (long) ((vs::vnow_ns() - 1000000000ull) / 1000); }
  struct W;
  struct Env
  {
    ex::inplace_stop_token tk;
    auto query(ex::get_stop_token_t) const noexcept { return tk; }
  };
  struct R
  {
    using receiver_concept = ex::receiver_tag;
    W*   w;
    int  i;
    void done(char const* c) noexcept;
    void set_value() noexcept { done("v"); }
    void set_stopped() noexcept { done("s"); }
    Env  get_env() const noexcept;
  };
  using Sch = exec::timed_thread_scheduler;
  using Op  = ex::connect_result_t<decltype(exec::schedule_at(std::declval<Sch>(), std::declval<Sch::time_point>())), R>;
  struct W
  {
    std::optional<exec::timed_thread_context> ctx;
    ex::inplace_stop_source src[9];
    Box<Op>                 op[9];
    long                    d[9]{};
    int                     kill[9]{};
    int                     next[9]{};
    vs::Flag                fl[9];
    W() { vs::opt_timepass(false); }
    ~W() { vs::mark_alive(&ctx, sizeof ctx); }
    void start(int i, long ms)
    {
      // ms < 0: a plain schedule()
      auto base = std::chrono::steady_clock::time_point(1s);
      auto tp   = ms < 0 ? Sch::time_point() : base + std::chrono::milliseconds(ms);
      d[i]      = ms < 0 ? 0 : ms * 1000;
      kill[i]   = vs::choose(2);
      op[i].make_from([&] { return ex::connect(exec::schedule_at(ctx->get_scheduler(), tp), R{this, i}); });
      ev("st_call", F("i", i), F("d", d[i]), F("us", us()));
      ex::start(op[i].get());
      ev("st_ret", F("i", i), F("us", us()));
    }
    void stop(int i)
    {
      ev("stop_call", F("i", i), F("us", us()));
      src[i].request_stop();
      ev("stop_ret", F("i", i), F("us", us()));
    }
    void close()
    {
      ev("close_call", F("us", us()));
      ctx.reset();
      vs::mark_dead(&ctx, sizeof ctx);
      ev("close_ret", F("us", us()));
    }
  };
  Env R::get_env() const noexcept { return Env{w->src[i].get_token()}; }
  void R::done(char const* c) noexcept
  {
    W*  ww = w;
    int k  = i;
    ev("done", F("i", k), F("c", c), F("us", us()));
    if (ww->kill[k])
      ww->op[k].destroy();
    if (ww->next[k])
      ww->start(ww->next[k], us() / 1000 + 10);
    ww->fl[k].set();
  }
  void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
}  // namespace

VS_SCENARIO(two_starters)
{
  W w;
  w.ctx.emplace();
  long const D[] = {-1, 10, 20, 20, 30};
  std::thread a([&] { w.start(1, D[vs::choose(5)]); w.start(2, D[vs::choose(5)]); });
  std::thread b([&] { w.start(3, D[vs::choose(5)]); w.start(4, D[vs::choose(5)]); });
  for (int i = 1; i <= 4; ++i)
    w.fl[i].wait();
  a.join();
  b.join();
  w.close();
}
VS_SCENARIO(cancel)
{
  W w;
  w.ctx.emplace();
  int t = vs::choose(3);
  std::thread a([&] { w.start(1, 20); w.start(2, 30); });
  std::thread b([&] {
    if (t)
      nap(t == 1 ? 10 : 20);
    w.stop(1);
    if (vs::choose(2))
      w.stop(2);
  });
  w.start(3, 20);
  for (int i = 1; i <= 3; ++i)
    w.fl[i].wait();
  a.join();
  b.join();
  w.close();
}
VS_SCENARIO(cancel_race)
{
  W w;
  w.ctx.emplace();
  if (vs::choose(2))
    w.stop(1);
  std::thread a([&] { w.start(1, vs::choose(2) ? 10 : -1); });
  std::thread b([&] { if (w.src[1].stop_requested()) return; w.stop(1); });
  w.fl[1].wait();
  a.join();
  b.join();
  w.close();
}
VS_SCENARIO(shutdown)
{
  W w;
  w.ctx.emplace();
  int n = 1 + vs::choose(3);
  if (vs::choose(2))
    nap(5);
  for (int i = 1; i <= n; ++i)
    w.start(i, vs::choose(2) ? 10 * i : -1);
  std::thread b([&] { w.stop(1); });
  if (vs::choose(2))
    b.join();
  if (vs::choose(2))
    nap(10);
  w.close();
  for (int i = 1; i <= n; ++i)
    w.fl[i].wait();
  if (b.joinable())
    b.join();
}
VS_SCENARIO(chain)
{
  W w;
  w.ctx.emplace();
  w.next[1] = 2;
  w.next[2] = 3;
  std::thread a([&] { w.start(1, vs::choose(2) ? 10 : -1); });
  w.start(4, 20);
  std::thread b([&] { nap(15); w.stop(3); w.start(5, 40); });
  for (int i = 1; i <= 5; ++i)
    w.fl[i].wait();
  a.join();
  b.join();
  w.close();
}
VS_SCENARIO(many)
{
  W w;
  w.ctx.emplace();
  for (int i = 1; i <= 5; ++i)
    w.start(i, 10 * (1 + vs::choose(4)));
  std::thread a([&] { nap(5 + 10 * vs::choose(3)); w.start(6, 10 * (2 + vs::choose(4))); });
  std::thread b([&] { nap(5 + 10 * vs::choose(3)); w.stop(1 + vs::choose(5)); w.stop(6); });
  for (int i = 1; i <= 6; ++i)
    w.fl[i].wait();
  a.join();
  b.join();
  w.close();
}
namespace
{
  struct HN
  {
    int key = 0;
    HN *p = nullptr, *l = nullptr, *r = nullptr;
  };
  using Heap = exec::intrusive_heap<HN, int, &HN::key, &HN::p, &HN::l, &HN::r>;
}  // namespace
VS_SCENARIO(heap)
{
  Heap h;
  HN   n[41];
  bool in[41]{};
  int  cnt = 0;
  int  N = 4 + vs::choose(36), K = 1 + vs::choose(30), steps = 20 + vs::choose(60);
  int  bias = vs::choose(3);
  auto id = [&](HN* x) { return x ? int(x - n) : 0; };
  for (int s = 0; s < steps; ++s)
  {
    int a = vs::choose(6);
    if (a < 2 + bias)
    {
      int i = 1 + vs::choose(N);
      if (in[i])
        continue;
      n[i]     = HN{};
      n[i].key = vs::choose(K);
      ev("ins", F("n", i), F("k", n[i].key));
      h.insert(&n[i]);
      in[i] = true, ++cnt;
    }
    else if (a < 5)
    {
      int i = 1 + vs::choose(N);
      if (!in[i] && vs::choose(4))
        continue;
      bool b = h.erase(&n[i]);
      ev("era", F("n", i), F("b", b));
      cnt -= in[i];
      in[i] = false;
    }
    else if (cnt)
    {
      HN* f = h.front();
      ev("front", F("n", id(f)));
      if (!f)
        break;
      h.pop_front();
      ev("pop", F("n", id(f)));
      in[id(f)] = false, --cnt;
    }
  }
  while (cnt-- > 0 && h.front())
  {
    HN* f = h.front();
    h.pop_front();
    ev("pop", F("n", id(f)));
  }
  ev("front", F("n", id(h.front())));
}
