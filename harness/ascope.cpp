// P15: exec::async_scope
#include "leaf.hpp"
#include <exec/async_scope.hpp>
namespace
{
  struct FCore
  {
    ex::inplace_stop_source src[Core::NK];
    vs::Flag                done[Core::NK];
    bool                    fsta[Core::NK]{};
    int                     kill[Core::NK]{};
    void (*drop[Core::NK])(void*, int) = {};
    void* self = nullptr;
  };
  struct FEnv
  {
    ex::inplace_stop_token tk;
    auto query(ex::get_stop_token_t) const noexcept { return tk; }
  };
  struct FR
  {
    using receiver_concept = ex::receiver_tag;
    FCore* w;
    int    k;
    void done(char const * c, int v) noexcept
    {
      FCore* ww = w;
      int    kk = k;
      ev("f_done", F("k", kk), F("c", c), F("v", v));
      if (ww->kill[kk])
        ww->drop[kk](ww->self, kk);
      ww->done[kk].set();
    }
    void set_value(int v) noexcept { done("v", v); }
    void set_value() noexcept { done("v", 0); }
    void set_error(int v) noexcept { done("e", v); }
    void set_error(std::exception_ptr) noexcept { done("x", 0); }
    void set_stopped() noexcept { done("s", 0); }
    FEnv get_env() const noexcept { return FEnv{w->src[k].get_token()}; }
  };
  struct ECore
  {
    vs::Flag done[5];
    int      kill[5]{};
    void (*drop)(void*, int) = nullptr;
    void* self = nullptr;
  };
  struct ER
  {
    using receiver_concept = ex::receiver_tag;
    ECore* w;
    int    j;
    void set_value() noexcept
    {
      ECore* ww = w;
      int    jj = j;
      ev("e_done", F("j", jj));
      if (ww->kill[jj])
        ww->drop(ww->self, jj);
      ww->done[jj].set();
    }
  };

  struct World : Core
  {
    using Scope = exec::async_scope;
    Box<Scope> scope;
    struct Mark
    {
      int  j;
      void operator()() const noexcept { ev("e_run", F("j", j)); }
    };
    using ES  = decltype(std::declval<Scope&>().on_empty());
    using WS  = decltype(std::declval<Scope&>().when_empty(ex::then(ex::just(), Mark{0})));
    using EOp = ex::connect_result_t<ES, ER>;
    using WOp = ex::connect_result_t<WS, ER>;
    ECore      ec;
    FCore      fc;
    Box<EOp>   eop[5];
    Box<WOp>   wop[5];
    bool       constrained[5]{};
    World()
    {
      C = this;
      scope.make();
      ec.self = fc.self = this;
      ec.drop = [](void* s, int j) { ((World*) s)->edestroy(j); };
      for (int k = 1; k < NK; ++k)
      {
        mode[k] = vs::choose(3);
        how[k]  = "vve"[vs::choose(3)];
      }
    }
    Scope& sc() { return scope.get(); }
    void edestroy(int j)
    {
      if (constrained[j])
        wop[j].destroy();
      else
        eop[j].destroy();
    }
    void stop()
    {
      ev("stop_call");
      sc().request_stop();
      ev("stop_ret");
    }
    void empty(int j)
    {
      ec.kill[j]     = vs::choose(2);
      constrained[j] = vs::choose(2);
      if (constrained[j])
        wop[j].make_from([&] { return ex::connect(sc().when_empty(ex::then(ex::just(), Mark{j})), ER{&ec, j}); });
      else
        eop[j].make_from([&] { return ex::connect(sc().on_empty(), ER{&ec, j}); });
      ev("e_call", F("j", j), F("run", (int) constrained[j]));
      if (constrained[j])
        ex::start(wop[j].get());
      else
        ex::start(eop[j].get());
      ev("e_ret", F("j", j));
    }
    void wait_empty(int j) { ec.done[j].wait(); }
    void gone()
    {
      ev("gone");
      scope.destroy();
    }

    using FutS = decltype(std::declval<Scope&>().spawn_future(Leaf<true>{0}));
    using FutO = ex::connect_result_t<FutS, FR>;
    using AscS = decltype(std::declval<Scope&>().nest(Leaf<true>{0}));
    using AscO = ex::connect_result_t<AscS, FR>;
    Box<FutS> futs[NK];
    Box<FutO> futo[NK];
    Box<AscS> ascs[NK];
    Box<AscO> asco[NK];
    int       kinds[NK]{};
    vs::Flag  made[NK];
    bool      ok[NK]{};
    void work(int k, int kind)
    {
      kinds[k] = kind;
      if (vs::choose(8) == 0)
        mode[k] = 3;
      static char const * N[] = {"spawn", "future", "nest"};
      ev("w_call", F("k", k), F("kind", N[kind]));
      ok[k] = true;
      try
      {
        if (kind == SPAWN)
          sc().spawn(Leaf<false>{k});
        else if (kind == FUTURE)
          futs[k].make_from([&] { return sc().spawn_future(Leaf<true>{k}); });
        else
          ascs[k].make_from([&] { return sc().nest(Leaf<true>{k}); });
        ev("w_ret", F("k", k));
      }
      catch (...)
      {
        ev("w_thr", F("k", k));
        ok[k] = false;
      }
      if (kind != ASSOC || !ok[k])
        settled[k].set();
      made[k].set();
    }
    void consume(int k, int what)
    {
      made[k].wait();
      if (!ok[k] || kinds[k] == SPAWN)
        return;
      bool a = kinds[k] == ASSOC;
      if (what == 0)
      {
        ev("f_drop", F("k", k));
        if (a)
          ascs[k].destroy();
        else
          futs[k].destroy();
        ev("f_gone", F("k", k));
        if (a)
          settled[k].set();
        return;
      }
      ev("f_con", F("k", k));
      if (a)
      {
        try
        {
          asco[k].make_from([&] { return ex::connect(std::move(ascs[k].get()), FR{&fc, k}); });
        }
        catch (...)
        {
          ev("f_thr", F("k", k));
          ascs[k].destroy();
          settled[k].set();
          return;
        }
        ascs[k].destroy();
      }
      else
      {
        futo[k].make_from([&] { return ex::connect(std::move(futs[k].get()), FR{&fc, k}); });
        futs[k].destroy();
      }
      if (what == 1)
      {
        ev("f_drop", F("k", k));
        if (a)
          asco[k].destroy();
        else
          futo[k].destroy();
        ev("f_gone", F("k", k));
        if (a)
          settled[k].set();
        return;
      }
      fc.drop[k] = +[](void* s, int i) {
        auto* w = (World*) s;
        ev("f_drop", F("k", i));
        if (w->kinds[i] == ASSOC)
          w->asco[i].destroy();
        else
          w->futo[i].destroy();
        ev("f_gone", F("k", i));
      };
      fc.kill[k] = vs::choose(2);
      ev("f_sta", F("k", k));
      if (a)
        ex::start(asco[k].get());
      else
        ex::start(futo[k].get());
      if (a)
        settled[k].set();
      listen(k);
    }
    void fwait(int k)
    {
      if (!ok[k] || kinds[k] == SPAWN || !lis(k))
        return;
      fc.done[k].wait();
      if (!fc.kill[k])
        fc.drop[k](this, k);
    }
    VS_NOSAN void listen(int k) { fc.fsta[k] = true; }
    VS_NOSAN bool lis(int k) { return fc.fsta[k]; }
    void fstop(int k)
    {
      ev("fs_call", F("k", k));
      fc.src[k].request_stop();
    }
  };

  // k1/k2: the kinds of the two pieces of work, 3: any
  void works(int k1, int k2)
  {
    World w;
    if (k1 == 3)
      k1 = vs::choose(3);
    if (k2 == 3)
      k2 = vs::choose(3);
    int         c1 = vs::choose(4), c2 = vs::choose(4);
    int         ctl = vs::choose(4);
    bool        late = vs::choose(4) == 0;  // the second future is used when the scope is gone
    std::thread a([&] {
      w.work(1, k1);
      w.consume(1, c1 < 2 ? 2 : c1 - 2);
      if (vs::choose(2))
        w.empty(1);
    });
    std::thread b([&] {
      bool o = vs::choose(2);
      w.complete(o ? 1 : 2);
      w.complete(o ? 2 : 1);
    });
    std::thread c([&] {
      if (ctl & 1)
        w.stop();
      if (ctl & 2)
        w.fstop(1);
    });
    if (vs::choose(3) == 0)
      w.empty(2);
    w.work(2, k2);
    bool later = late && k2 == FUTURE && w.ok[2];
    if (!later)
      w.consume(2, c2 < 2 ? 2 : c2 - 2);
    if (vs::choose(2))
      w.fstop(2);
    if (vs::choose(2))
      w.empty(3);
    a.join();
    w.fwait(1);
    w.fwait(2);
    if (later)
      w.settled[2].wait();
    c.join();
    w.empty(4);
    w.wait_empty(4);
    for (int j = 1; j <= 3; ++j)
      if (w.eop[j].live || w.wop[j].live)
        w.wait_empty(j);
    w.gone();
    if (later)
    {
      w.consume(2, c2 < 2 ? 2 : c2 - 2);
      w.fwait(2);
    }
    b.join();
  }
  // a future's operation state goes away unstarted while its receiver's stop is requested
  void unstarted()
  {
    World w;
    w.mode[1] = 1 + vs::choose(2);
    w.work(1, FUTURE);
    std::thread b([&] { w.complete(1); });
    std::thread c([&] { w.fstop(1); });
    w.consume(1, 1);
    c.join();
    w.empty(1);
    w.wait_empty(1);
    w.gone();
    b.join();
  }
}  // namespace
VS_SCENARIO(spawn) { works(SPAWN, 3); }
VS_SCENARIO(future) { works(FUTURE, 3); }
VS_SCENARIO(nest) { works(ASSOC, 3); }
VS_SCENARIO(unstarted) { unstarted(); }
