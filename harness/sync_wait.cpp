// P28: sync_wait, sync_wait_with_variant
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <atomic>
#include <system_error>
using namespace h;
namespace ex = stdexec;
namespace
{
  struct Ex
  {
    int code;
  };
  struct E
  {
    int code;
  };
  std::atomic<int> live{0};
  struct V
  {
    int* p;
    int  boom = 0;  // moving it throws
    int  i    = 0;
    explicit V(int v, int ii, int b) : p(new int(v)), boom(b), i(ii) { live.fetch_add(1, std::memory_order_relaxed); }
    V(V&& o) : p(nullptr), boom(o.boom), i(o.i)
    {
      if (boom)
      {
        vs::ev_raw("thr", ("\"i\":" + std::to_string(i) + ",\"v\":[77]").c_str());
        throw Ex{77};
      }
      p   = o.p;
      o.p = nullptr;
      live.fetch_add(1, std::memory_order_relaxed);
    }
    V(V const & o) : V(o.p ? *o.p : -99, o.i, 0) {}
    ~V()
    {
      delete p;
      live.fetch_sub(1, std::memory_order_relaxed);
    }
    int get() const
    {
      return p ? *p : -99;
    }
  };

  struct LeafBase
  {
    virtual void step() noexcept = 0;
  };
  struct Plan  // what leaf k does
  {
    bool remote = false;  // a helper thread goes on
    bool loop   = false;  // then a task on the loop
    int  q      = 0;      // which query gives the scheduler
    int  nest   = 0;      // the task waits for this wait
    int  chan   = 0;      // 0 v, 1 e, 2 error_code, 3 exception_ptr, 4 stopped, 5 two values
    bool boom = false, cth = false;
    int  wait = 0;
  };
  struct W
  {
    static constexpr int NK = 5;
    Plan                 pl[NK];
    vs::Flag             go[NK];
    LeafBase*            op[NK]{};
    int                  two[4]{};   // wait i: leaf, or when_all of two leaves
    int                  lf[4][2]{};
    bool                 var[4]{};  // with_variant
  };
  W* G;
  void wait(int i);

  template <bool Two>
  struct Leafy
  {
    using sender_concept = ex::sender_tag;
    int k;
    using sigs1 = ex::completion_signatures<ex::set_value_t(V), ex::set_error_t(E), ex::set_error_t(std::error_code), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
    using sigs2 = ex::completion_signatures<ex::set_value_t(V), ex::set_value_t(V, V), ex::set_error_t(E), ex::set_error_t(std::error_code), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
    using completion_signatures = std::conditional_t<Two, sigs2, sigs1>;
    template <class R>
    struct Op : LeafBase
    {
      using operation_state_concept = ex::operation_state_tag;
      struct TR
      {
        using receiver_concept = ex::receiver_tag;
        Op* o;
        void set_value() noexcept
        {
          ev("trun", F("j", o->k + 1));
          Plan& p = G->pl[o->k];
          if (p.nest)
            wait(p.nest);
          o->complete(p.chan);
        }
        void set_stopped() noexcept
        {
          ev("trun", F("j", o->k + 1));
          o->complete(4);
        }
        ex::env_of_t<R> get_env() const noexcept
        {
          return ex::get_env(o->r);
        }
      };
      using Sch = decltype(ex::get_delegation_scheduler(std::declval<ex::env_of_t<R>>()));
      using TOp = ex::connect_result_t<decltype(ex::schedule(std::declval<Sch>())), TR>;
      R        r;
      int      k;
      Box<TOp> t;
      Op(R rr, int kk) : r((R&&) rr), k(kk)
      {
        if (G->pl[k].cth)
          throw Ex{88};
      }
      Op(Op&&) = delete;
      void start() noexcept
      {
        if (G->pl[k].remote)
        {
          G->op[k] = this;
          G->go[k].set();
        }
        else
          step();
      }
      void step() noexcept override
      {
        Plan& p = G->pl[k];
        if (p.loop)
        {
          t.make_from([&] {
            auto e = ex::get_env(r);
            switch (p.q)
            {
            case 1: return ex::connect(ex::schedule(ex::get_scheduler(e)), TR{this});
            case 2: return ex::connect(ex::schedule(ex::get_start_scheduler(e)), TR{this});
            default: return ex::connect(ex::schedule(ex::get_delegation_scheduler(e)), TR{this});
            }
          });
          ev("tst", F("i", p.wait), F("j", k + 1));
          ex::start(t.get());
        }
        else
          complete(p.chan);
      }
      void complete(int c) noexcept
      {
        Plan& p = G->pl[k];
        switch (c)
        {
        case 0: return ex::set_value((R&&) r, V(10 * k + 1, p.wait, p.boom));
        case 1: return ex::set_error((R&&) r, E{10 * k + 2});
        case 2: return ex::set_error((R&&) r, std::error_code(10 * k + 3, std::generic_category()));
        case 3: return ex::set_error((R&&) r, std::make_exception_ptr(Ex{10 * k + 4}));
        case 5:
          if constexpr (Two)
            return ex::set_value((R&&) r, V(10 * k + 1, p.wait, 0), V(10 * k + 5, p.wait, p.boom));
        default: return ex::set_stopped((R&&) r);
        }
      }
    };
    template <class R>
    auto connect(R r) const -> Op<R>
    {
      return Op<R>((R&&) r, k);
    }
    struct Attrs
    {};
    auto get_env() const noexcept
    {
      return Attrs{};
    }
  };
  int excode(std::exception_ptr const & p)
  {
    try
    {
      std::rethrow_exception(p);
    }
    catch (Ex const & e)
    {
      return e.code;
    }
    catch (E const & e)
    {
      return e.code;
    }
    catch (std::system_error const & e)
    {
      return e.code().value();
    }
    catch (...)
    {
      return -96;
    }
  }
  void say(char const * e, int i, char const * c, std::string const & v)
  {
    vs::ev_raw(e, ("\"i\":" + std::to_string(i) + ",\"c\":\"" + c + "\",\"v\":[" + v + "]").c_str());
  }
  std::string cat(V const & a)
  {
    return std::to_string(a.get());
  }
  template <class... Vs>
  std::string cat(V const & a, Vs const &... b)
  {
    return cat(a) + "," + cat(b...);
  }

  // reports what happens at the boundary of the sender which is waited for
  template <class S>
  struct Probe
  {
    using sender_concept = ex::sender_tag;
    S   s;
    int i;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::completion_signatures_of_t<S, Env...>{};
    }
    template <class R>
    struct Rc
    {
      using receiver_concept = ex::receiver_tag;
      R*  r;
      int i;
      template <class... A>
      void set_value(A&&... a) noexcept
      {
        say("cmp", i, "v", cat(a...));
        ex::set_value((R&&) *r, (A&&) a...);
      }
      void set_error(E e) noexcept
      {
        say("cmp", i, "e", std::to_string(e.code));
        ex::set_error((R&&) *r, (E&&) e);
      }
      void set_error(std::error_code e) noexcept
      {
        say("cmp", i, "e", std::to_string(e.value()));
        ex::set_error((R&&) *r, (std::error_code&&) e);
      }
      void set_error(std::exception_ptr e) noexcept
      {
        say("cmp", i, "e", std::to_string(excode(e)));
        ex::set_error((R&&) *r, (std::exception_ptr&&) e);
      }
      void set_stopped() noexcept
      {
        say("cmp", i, "s", "");
        ex::set_stopped((R&&) *r);
      }
      auto get_env() const noexcept
      {
        return ex::get_env(*r);
      }
    };
    template <class R>
    struct Op
    {
      using operation_state_concept = ex::operation_state_tag;
      R                                r;
      int                              i;
      ex::connect_result_t<S, Rc<R>> op;
      Op(R rr, S&& s, int ii) : r((R&&) rr), i(ii), op(ex::connect((S&&) s, Rc<R>{&r, ii}))
      {
        ev("con", F("i", i));
      }
      Op(Op&&) = delete;
      ~Op()
      {
        ev("des", F("i", i));
      }
      void start() noexcept
      {
        ev("sta", F("i", i));
        ex::start(op);
      }
    };
    template <class R>
    auto connect(R r) && -> Op<R>
    {
      try
      {
        return Op<R>((R&&) r, (S&&) s, i);
      }
      catch (...)
      {
        vs::ev_raw("cth", ("\"i\":" + std::to_string(i) + ",\"v\":[" + std::to_string(excode(std::current_exception())) + "]").c_str());
        throw;
      }
    }
  };
  template <class S>
  auto probe(S s, int i)
  {
    return Probe<S>{std::move(s), i};
  }
  template <class T>
  std::string tup(T const & t)
  {
    return std::apply([](auto const &... x) { return cat(x...); }, t);
  }
  template <class Fn>
  void got(int i, Fn fn)
  {
    ev("call", F("i", i));
    try
    {
      auto r = fn();
      if (!r)
        say("ret", i, "s", "");
      else if constexpr (requires { r->index(); })
        std::visit([&](auto const & t) { say("ret", i, "v", tup(t)); }, *r);
      else
        say("ret", i, "v", tup(*r));
    }
    catch (Ex const & e)
    {
      say("ret", i, e.code == 77 || e.code == 88 ? "x" : "e", std::to_string(e.code));
    }
    catch (...)
    {
      say("ret", i, "e", std::to_string(excode(std::current_exception())));
    }
  }
  __attribute__((noinline)) void do_wait(int i)
  {
    auto* l = G->lf[i];
    if (G->var[i])
      got(i, [&] { return ex::sync_wait_with_variant(probe(Leafy<true>{l[0]}, i)); });
    else if (G->two[i])
      got(i, [&] { return ex::sync_wait(probe(ex::when_all(Leafy<false>{l[0]}, Leafy<false>{l[1]}), i)); });
    else
      got(i, [&] { return ex::sync_wait(probe(Leafy<false>{l[0]}, i)); });
  }
  VS_NOSAN __attribute__((noinline)) char* below()
  {
    return (char*) __builtin_frame_address(0);
  }
  // After the call has returned, nobody may touch what was its stack frame.
  VS_NOSAN __attribute__((noinline)) void wait(int i)
  {
    do_wait(i);
    char* p = below() - 16384;
    vs::mark_dead(p, 16384);
    vs::yield_point();
    vs::yield_point();
    vs::mark_alive(p, 16384);
  }

  struct World : W
  {
    int         n = 0, nl = 0;
    std::thread th[6];
    int         nth = 0;
    int leaf(int i, bool nest_ok, bool loop_ok = true)
    {
      int   k  = nl++;
      Plan& p  = pl[k];
      p.wait   = i;
      p.remote = vs::choose(3) != 0;
      p.loop   = loop_ok && vs::choose(2);
      p.q      = vs::choose(3);
      if (var[i])
        p.chan = (int[]){0, 5, 5, 1, 4}[vs::choose(5)];
      else
        p.chan = (int[]){0, 0, 0, 1, 2, 3, 4}[vs::choose(7)];
      p.boom = !two[i] && vs::choose(4) == 0;
      p.cth  = vs::choose(8) == 0;
      if (nest_ok && n < 3 && p.loop && vs::choose(2))
        p.nest = make(false);
      return k;
    }
    int make(bool nest_ok)
    {
      int i  = ++n;
      var[i] = vs::choose(4) == 0;
      two[i] = !var[i] && nl + 1 < NK && vs::choose(3) == 0;
      lf[i][0] = leaf(i, nest_ok);
      if (two[i])
        lf[i][1] = leaf(i, false);
      return i;
    }
    void run(int a, int b)
    {
      vs::opt_leakcheck(true);
      live = 0;
      vs::cfg("{\"nw\":" + std::to_string(n) + ",\"nt\":" + std::to_string((int) NK) + "}");
      G = this;
      for (int k = 0; k < nl; ++k)
        if (pl[k].remote)
          th[nth++] = std::thread([this, k] {
            go[k].wait();
            if (op[k])
              op[k]->step();
          });
      std::thread tb;
      if (b)
        tb = std::thread([b] { wait(b); });
      wait(a);
      if (b)
        tb.join();
      for (int k = 0; k < nl; ++k)
        if (pl[k].remote)
        {
          if (!op[k])
            go[k].set();
        }
      for (int i = 0; i < nth; ++i)
        th[i].join();
      ev("end", F("live", live.load()));
    }
  };
}  // namespace

VS_SCENARIO(one)
{
  World w;
  w.run(w.make(false), 0);
}
VS_SCENARIO(nested)
{
  World w;
  w.run(w.make(true), 0);
}
VS_SCENARIO(twothreads)
{
  World w;
  int   a = w.make(false);
  int   b = w.nl < W::NK ? w.make(false) : 0;
  w.run(a, b);
}
