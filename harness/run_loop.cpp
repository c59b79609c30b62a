// P02: run_loop
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <exec/single_thread_context.hpp>
using namespace h;
namespace ex = stdexec;
namespace
{
  struct W;
  struct Env
  {
    ex::inplace_stop_token tk;
    auto query(ex::get_stop_token_t) const noexcept { return tk; }
  };
  struct R
  {
    using receiver_concept = ex::receiver_tag;
    W*   w;
    int  i;
    void done(char const* c) noexcept;
    void set_value() noexcept { done("v"); }
    void set_stopped() noexcept { done("s"); }
    Env  get_env() const noexcept;
  };
  struct RN
  {
    using receiver_concept = ex::receiver_tag;
    W*   w;
    int  i;
    void set_value() noexcept { R{w, i}.done("v"); }
  };
  using Sch = decltype(std::declval<ex::run_loop&>().get_scheduler());
  using Op  = ex::connect_result_t<decltype(ex::schedule(std::declval<Sch>())), R>;
  using OpN = ex::connect_result_t<decltype(ex::schedule(std::declval<Sch>())), RN>;
  struct W
  {
    Box<ex::run_loop>       loop;
    ex::inplace_stop_source src[10];
    std::optional<Sch>      sch;
    // how operation i is made and what its completion does
    bool unst[10]{};
    int  next[10]{-1, -1, -1, -1, -1, -1, -1, -1, -1, -1};  // starts that operation
    int  fins[10]{-1, -1, -1, -1, -1, -1, -1, -1, -1, -1};  // calls finish
    int  kill[10]{};                                         // destroys its own operation state
    bool made[10]{};
    Box<Op>  op[10];
    Box<OpN> opn[10];
    void make(int i)
    {
      made[i] = true;
      if (unst[i])
        opn[i].make_from([&] { return ex::connect(ex::schedule(*sch), RN{this, i}); });
      else
        op[i].make_from([&] { return ex::connect(ex::schedule(*sch), R{this, i}); });
    }
    void destroy(int i)
    {
      made[i] = false;
      if (unst[i])
        opn[i].destroy();
      else
        op[i].destroy();
    }
    void start(int i)
    {
      ev("st_call", F("i", i));
      if (unst[i])
        ex::start(opn[i].get());
      else
        ex::start(op[i].get());
      ev("st_ret", F("i", i));
    }
    void stop(int i)
    {
      if (unst[i])
        return;
      ev("stop_call", F("i", i));
      src[i].request_stop();
      ev("stop_ret", F("i", i));
    }
    void finish(int f)
    {
      ev("fin_call", F("f", f));
      loop.get().finish();
      ev("fin_ret", F("f", f));
    }
    void run()
    {
      ev("loop_call");
      loop.get().run();
      ev("loop_ret");
      // everything may be destroyed at once
      loop.destroy();
      for (int i = 0; i < 10; ++i)
        if (made[i])
          destroy(i);
    }
    void mk()
    {
      vs::cfg("{\"auto\":0,\"drv\":0}");
      loop.make();
      sch = loop.get().get_scheduler();
      for (int i = 0; i < 10; ++i)
      {
        unst[i] = vs::choose(4) == 0;
        kill[i] = vs::choose(2);
      }
    }
  };
  Env R::get_env() const noexcept { return Env{w->src[i].get_token()}; }
  void R::done(char const* c) noexcept
  {
    W*  ww = w;
    int k  = i;
    ev("run", F("i", k), F("c", c));
    if (ww->kill[k])
      ww->destroy(k);
    if (ww->next[k] >= 0)
      ww->start(ww->next[k]);
    if (ww->fins[k] >= 0)
      ww->finish(ww->fins[k]);
  }
}  // namespace

VS_SCENARIO(two_starters)
{
  W w;
  w.mk();
  for (int i = 0; i < 4; ++i)
    w.make(i);
  std::thread a([&] { w.start(0); w.start(1); });
  std::thread b([&] { w.start(2); w.start(3); });
  std::thread c([&] { a.join(); b.join(); w.finish(0); });
  w.run();
  c.join();
  ev("end");
}
VS_SCENARIO(stops)
{
  W w;
  w.mk();
  for (int i = 0; i < 3; ++i)
    w.make(i);
  std::thread a([&] { w.start(0); w.start(1); });
  std::thread b([&] { w.stop(1); w.stop(0); });
  w.stop(2);
  w.start(2);
  std::thread c([&] { a.join(); w.finish(0); });
  w.run();
  b.join();
  c.join();
  ev("end");
}
// completions start further operations; the last one calls finish()
VS_SCENARIO(nested)
{
  W w;
  w.mk();
  for (int i = 0; i < 5; ++i)
    w.make(i);
  w.next[0] = 1;
  w.next[1] = 2;
  w.next[3] = 4;
  w.fins[2] = 0;
  w.start(3);
  std::thread a([&] { w.start(0); });
  w.run();
  a.join();
  ev("end");
}
VS_SCENARIO(finish_twice)
{
  W w;
  w.mk();
  w.make(0);
  w.make(1);
  w.start(0);
  int         late = vs::choose(2);
  vs::Flag    f1, f2;
  std::thread a([&] { w.start(1); f1.set(); w.finish(0); f2.set(); });
  std::thread b([&] { f1.wait(); w.finish(1); });
  if (late)
    f2.wait();
  // the loop may not go away while the other finish() is still to come
  ev("loop_call");
  w.loop.get().run();
  ev("loop_ret");
  a.join();
  b.join();
  w.loop.destroy();
  ev("end");
}
// finish before run; run with nothing to do
VS_SCENARIO(finish_first)
{
  W w;
  w.mk();
  w.make(0);
  w.fins[0] = -1;
  if (vs::choose(2))
    w.start(0);
  std::thread a([&] { w.finish(0); });
  if (vs::choose(2))
  {
    w.run();
    a.join();
  }
  else
  {
    a.join();
    w.run();
  }
  ev("end");
}
// a chain of operations across two starting threads, finish from a completion
VS_SCENARIO(pingpong)
{
  W w;
  w.mk();
  for (int i = 0; i < 6; ++i)
    w.make(i);
  vs::Flag g;
  w.next[0] = 2;
  w.next[1] = 3;
  w.next[2] = 4;
  std::thread a([&] { w.start(0); });
  std::thread b([&] { w.start(1); g.set(); });
  std::thread c([&] { a.join(); g.wait(); w.start(5); w.stop(4); w.finish(0); });
  w.run();
  b.join();
  c.join();
  ev("end");
}
VS_SCENARIO(single_thread_ctx)
{
  W w;
  vs::cfg("{\"auto\":1,\"drv\":1}");
  {
    exec::single_thread_context ctx;
    w.sch = ctx.get_scheduler();
    for (int i = 0; i < 4; ++i)
      w.make(i);
    w.next[0] = 2;
    w.next[1] = 3;
    std::thread a([&] { w.start(0); });
    w.start(1);
    w.stop(3);
    a.join();
    ev("loop_call_any");
    ev("fin_call", F("f", 0));
  }
  ev("fin_ret", F("f", 0));
  ev("loop_ret_any");
  for (int i = 0; i < 4; ++i)
    w.destroy(i);
  ev("end");
}
