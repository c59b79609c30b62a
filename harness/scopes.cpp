// P13, P14, P29: counting scopes; spawn, spawn_future and associate
#include "leaf.hpp"
namespace
{
  // ---- an allocator which reports what it hands out and gets back
  template <class T>
  struct Alloc
  {
    using value_type = T;
    int k;
    explicit Alloc(int kk) noexcept : k(kk) {}
    template <class U>
    Alloc(Alloc<U> const & o) noexcept : k(o.k) {}
    T* allocate(std::size_t n)
    {
      if (C->mode[k] == 4)
        throw std::bad_alloc();
      ev("alc", F("k", k), F("n", (long) (n * sizeof(T))));
      return (T*) ::operator new(n * sizeof(T));
    }
    void deallocate(T* p, std::size_t n)
    {
      ::operator delete((void*) p);
      ev("dea", F("k", k), F("n", (long) (n * sizeof(T))));
    }
    template <class U>
    bool operator==(Alloc<U> const & o) const { return k == o.k; }
  };
  struct AEnv
  {
    int  k;
    auto query(ex::get_allocator_t) const noexcept { return Alloc<std::byte>(k); }
  };

  // ---- what the futures and associated senders are connected to
  struct FCore
  {
    ex::inplace_stop_source src[Core::NK];
    vs::Flag                done[Core::NK];
    bool                    fsta[Core::NK]{};
    int                     kill[Core::NK]{};
    void (*drop[Core::NK])(void*, int) = {};
    void* self = nullptr;
  };
  struct FEnv
  {
    ex::inplace_stop_token tk;
    auto query(ex::get_stop_token_t) const noexcept { return tk; }
  };
  struct FR
  {
    using receiver_concept = ex::receiver_tag;
    FCore* w;
    int    k;
    void done(char const * c, int v) noexcept
    {
      FCore* ww = w;
      int    kk = k;
      ev("f_done", F("k", kk), F("c", c), F("v", v));
      if (ww->kill[kk])
        ww->drop[kk](ww->self, kk);
      ww->done[kk].set();
    }
    void set_value(int v) noexcept { done("v", v); }
    void set_value() noexcept { done("v", 0); }
    void set_error(int v) noexcept { done("e", v); }
    void set_error(std::exception_ptr) noexcept { done("x", 0); }
    void set_stopped() noexcept { done("s", 0); }
    FEnv get_env() const noexcept { return FEnv{w->src[k].get_token()}; }
  };
  // ---- the loop on which joins complete
  struct JCore
  {
    ex::run_loop            loop;
    std::thread             th;
    int                     tid = -1;
    ex::inplace_stop_source src[4];
    vs::Flag                done[4];
    int                     kill[4]{};
    void (*drop)(void*, int) = nullptr;
    void* self = nullptr;
    JCore()
    {
      th = std::thread([this] { tid = vs::tid(); loop.run(); });
    }
    ~JCore()
    {
      loop.finish();
      th.join();
    }
  };
  struct JEnv
  {
    JCore* w;
    int    j;
    auto query(ex::get_stop_token_t) const noexcept { return w->src[j].get_token(); }
    auto query(ex::get_scheduler_t) const noexcept { return w->loop.get_scheduler(); }
    auto query(ex::get_start_scheduler_t) const noexcept { return w->loop.get_scheduler(); }
  };
  struct JR
  {
    using receiver_concept = ex::receiver_tag;
    JCore* w;
    int    j;
    VS_NOSAN void done(char const * c) noexcept
    {
      JCore* ww = w;
      int    jj = j;
      ev("j_done", F("j", jj), F("c", c), F("sch", (int) (vs::tid() == ww->tid)));
      if (ww->kill[jj])
        ww->drop(ww->self, jj);
      ww->done[jj].set();
    }
    void set_value() noexcept { done("v"); }
    void set_stopped() noexcept { done("s"); }
    template <class E>
    void set_error(E&&) noexcept { done("x"); }
    JEnv get_env() const noexcept { return JEnv{w, j}; }
  };

  template <class Scope>
  struct World : Core
  {
    static constexpr bool stoppable = requires(Scope& s) { s.request_stop(); };
    Box<Scope> scope;
    using Tok   = decltype(std::declval<Scope&>().get_token());
    using Assoc = decltype(std::declval<Tok&>().try_associate());
    using JOp   = ex::connect_result_t<decltype(std::declval<Scope&>().join()), JR>;
    JCore      jc;
    FCore      fc;
    Assoc      as[8];
    Box<JOp>   jop[4];
    bool       jused[4]{};
    World()
    {
      C = this;
      scope.make();
      jc.self = fc.self = this;
      jc.drop = [](void* s, int j) { auto* w = (World*) s; w->jop[j].destroy(); };
      for (int k = 1; k < NK; ++k)
      {
        mode[k] = vs::choose(3);
        how[k]  = "vve"[vs::choose(3)];
      }
    }
    Scope& sc() { return scope.get(); }
    void acq(int a)
    {
      ev("as_call", F("a", a));
      as[a] = sc().get_token().try_associate();
      ev("as_ret", F("a", a), F("ok", (int) !!as[a]));
    }
    void dup(int a, int b)
    {
      if (!as[a])
        return;
      ev("as_call", F("a", b));
      as[b] = as[a].try_associate();
      ev("as_ret", F("a", b), F("ok", (int) !!as[b]));
    }
    void rel(int a)
    {
      if (!as[a])
        return;
      if (vs::choose(2))
      {
        Assoc x = std::move(as[a]);  // moving changes nothing
        if (as[a])
          ev("badmove");
        ev("rel_call", F("a", a));
        { Assoc y = std::move(x); }
      }
      else
      {
        ev("rel_call", F("a", a));
        as[a] = Assoc();
      }
      ev("rel_ret", F("a", a));
    }
    void close()
    {
      ev("close_call");
      sc().close();
      ev("close_ret");
    }
    void stop()
    {
      if constexpr (stoppable)
      {
        ev("stop_call");
        sc().request_stop();
        ev("stop_ret");
      }
    }
    void join(int j)
    {
      jc.kill[j] = vs::choose(2);
      if (vs::choose(4) == 0)
      {
        ev("jstop", F("j", j));
        jc.src[j].request_stop();
      }
      jop[j].make_from([&] { return ex::connect(sc().join(), JR{&jc, j}); });
      jused[j] = true;
      ev("j_call", F("j", j));
      ex::start(jop[j].get());
      ev("j_ret", F("j", j));
    }
    void wait_join(int j) { jc.done[j].wait(); }
    void gone()
    {
      ev("gone");
      scope.destroy();
    }

    // ---- work
    template <class T>
    static T val();
    using FutS = decltype(ex::spawn_future(Leaf<true>{0}, std::declval<Tok>(), AEnv{0}));
    using FutO = ex::connect_result_t<FutS, FR>;
    using AscS = decltype(ex::associate(Leaf<true>{0}, std::declval<Tok>()));
    using AscO = ex::connect_result_t<AscS, FR>;
    Box<FutS> futs[NK];
    Box<FutO> futo[NK];
    Box<AscS> ascs[NK];
    Box<AscO> asco[NK];
    int       kinds[NK]{};
    vs::Flag  made[NK];
    bool      ok[NK]{};
    void work(int k, int kind)
    {
      kinds[k] = kind;
      if (vs::choose(8) == 0)
        mode[k] = 3 + vs::choose(kind == ASSOC ? 1 : 2);
      static char const * N[] = {"spawn", "future", "assoc"};
      ev("w_call", F("k", k), F("kind", N[kind]));
      ok[k] = true;
      try
      {
        if (kind == SPAWN)
          ex::spawn(Leaf<false>{k}, sc().get_token(), AEnv{k});
        else if (kind == FUTURE)
          futs[k].make_from([&] { return ex::spawn_future(Leaf<true>{k}, sc().get_token(), AEnv{k}); });
        else
          ascs[k].make_from([&] { return ex::associate(Leaf<true>{k}, sc().get_token()); });
        ev("w_ret", F("k", k));
      }
      catch (...)
      {
        ev("w_thr", F("k", k));
        ok[k] = false;
      }
      if (kind != ASSOC || !ok[k])
        settled[k].set();
      made[k].set();
    }
    // what becomes of the future / sender.  0: dropped at once, 1: connected and dropped, 2: started
    void consume(int k, int what, bool wait = true)
    {
      made[k].wait();
      if (!ok[k] || kinds[k] == SPAWN)
        return;
      bool a = kinds[k] == ASSOC;
      if (what == 0)
      {
        if (a)
          settled[k].set();
        ev("f_drop", F("k", k));
        if (a)
          ascs[k].destroy();
        else
          futs[k].destroy();
        ev("f_gone", F("k", k));
        return;
      }
      ev("f_con", F("k", k));
      if (a)
      {
        try
        {
          asco[k].make_from([&] { return ex::connect(std::move(ascs[k].get()), FR{&fc, k}); });
        }
        catch (...)
        {
          ev("f_drop", F("k", k));
          ascs[k].destroy();
          ev("f_gone", F("k", k));
          settled[k].set();
          return;
        }
        ascs[k].destroy();
      }
      else
      {
        futo[k].make_from([&] { return ex::connect(std::move(futs[k].get()), FR{&fc, k}); });
        futs[k].destroy();
      }
      if (what == 1)
      {
        ev("f_drop", F("k", k));
        if (a)
        {
          asco[k].destroy();
          settled[k].set();
        }
        else
        {
          // a future operation which was never started
          futo[k].destroy();
        }
        ev("f_gone", F("k", k));
        return;
      }
      fc.drop[k] = a ? +[](void* s, int i) { auto* w = (World*) s; ev("f_drop", F("k", i)); w->asco[i].destroy(); ev("f_gone", F("k", i)); }
                     : +[](void* s, int i) { ((World*) s)->futo[i].destroy(); };
      fc.kill[k] = vs::choose(2);
      ev("f_sta", F("k", k));
      if (a)
        ex::start(asco[k].get());
      else
        ex::start(futo[k].get());
      if (a)
        settled[k].set();
      listen(k);
      if (wait)
        fwait(k);
    }
    void fwait(int k)
    {
      fc.done[k].wait();
      if (!fc.kill[k])
        fc.drop[k](this, k);
    }
    VS_NOSAN void listen(int k) { fc.fsta[k] = true; }
    VS_NOSAN bool lis(int k) { return fc.fsta[k]; }
    void fstop(int k)
    {
      bool l = lis(k);
      ev("fs_call", F("k", k));
      fc.src[k].request_stop();
      ev("fs_ret", F("k", k), F("lis", (int) l));
    }
  };

  template <class S>
  void raw()
  {
    World<S> w;
    std::thread a([&] {
      w.acq(1);
      if (vs::choose(2))
        w.dup(1, 2);
      w.rel(1);
      w.rel(2);
    });
    std::thread b([&] {
      w.acq(3);
      if (vs::choose(2))
        w.close();
      if (vs::choose(2))
        w.join(1);
      w.rel(3);
    });
    w.acq(4);
    bool two = vs::choose(2);
    if (vs::choose(2))
      w.rel(4);
    if (two)
      w.join(2);
    w.rel(4);
    a.join();
    b.join();
    // whether used or not, a last join makes the scope destructible
    w.join(3);
    for (int j = 1; j <= 3; ++j)
      if (j == 3 || (j == 2 && two) || (j == 1 && w.jused[1]))
        w.wait_join(j);
    w.gone();
  }
  // the scope goes away the moment its only join has completed
  template <class S>
  void last()
  {
    World<S> w;
    int n = 1 + vs::choose(2);
    for (int i = 1; i <= n; ++i)
      w.acq(i);
    std::thread a([&] { if (vs::choose(2)) w.close(); w.rel(1); });
    std::thread b([&] { w.rel(2); });
    if (vs::choose(2))
    {
      a.join();
    }
    w.join(1);
    w.wait_join(1);
    w.gone();
    if (a.joinable())
      a.join();
    b.join();
  }
  template <class S>
  void unused()
  {
    World<S> w;
    if (vs::choose(2))
      w.close();
    if (vs::choose(2))
      w.acq(1), w.rel(1), w.join(1), w.wait_join(1);
    else if (vs::choose(2))
      w.join(1), w.wait_join(1), w.acq(1);
    if (w.as[1])
      ev("badassoc");
    w.gone();
  }
  template <class S>
  void works(int kinds)
  {
    World<S> w;
    int  k1 = kinds, k2 = kinds == 3 ? vs::choose(3) : vs::choose(3) ? kinds : vs::choose(3);
    if (k1 == 3)
      k1 = vs::choose(3);
    int  c1 = vs::choose(4), c2 = vs::choose(4);
    int  ctl = vs::choose(6);
    std::thread a([&] {
      w.work(1, k1);
      w.consume(1, c1 < 2 ? 2 : c1 - 2, false);
    });
    std::thread b([&] {
      if (vs::choose(2))
      {
        w.complete(1);
        w.complete(2);
      }
      else
      {
        w.complete(2);
        w.complete(1);
      }
    });
    std::thread c([&] {
      if (ctl & 1)
        w.stop();
      else if (k1 != SPAWN)
        w.fstop(1);
      if (ctl >= 4)
        w.close();
    });
    w.work(2, k2);
    w.consume(2, c2 < 2 ? 2 : c2 - 2, false);
    if (vs::choose(2))
      w.fstop(2);
    bool j1 = vs::choose(2);
    if (j1)
      w.join(1);
    a.join();
    if (k1 != SPAWN && w.ok[1] && c1 < 2 && w.lis(1))
      w.fwait(1);
    if (k2 != SPAWN && w.ok[2] && c2 < 2 && w.lis(2))
      w.fwait(2);
    w.join(2);
    if (j1)
      w.wait_join(1);
    w.wait_join(2);
    c.join();
    w.gone();
    b.join();
  }
}  // namespace

using Simple   = ex::simple_counting_scope;
using Counting = ex::counting_scope;
VS_SCENARIO(raw_s) { raw<Simple>(); }
VS_SCENARIO(raw_c) { raw<Counting>(); }
VS_SCENARIO(last_s) { last<Simple>(); }
VS_SCENARIO(last_c) { last<Counting>(); }
VS_SCENARIO(unused_s) { unused<Simple>(); }
VS_SCENARIO(unused_c) { unused<Counting>(); }
VS_SCENARIO(spawn_s) { works<Simple>(SPAWN); }
VS_SCENARIO(spawn_c) { works<Counting>(SPAWN); }
VS_SCENARIO(future_s) { works<Simple>(FUTURE); }
VS_SCENARIO(future_c) { works<Counting>(FUTURE); }
VS_SCENARIO(assoc_s) { works<Simple>(ASSOC); }
VS_SCENARIO(assoc_c) { works<Counting>(ASSOC); }
