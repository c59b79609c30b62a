// Coroutines: task types whose bodies await other nodes, and awaitables as senders
#include "dyn.hpp"
#include "tok.hpp"
#include <exec/at_coroutine_exit.hpp>
#include <exec/on_coro_disposition.hpp>
#include <exec/task.hpp>
using namespace d;
namespace
{
  using Kids = std::vector<Dyn>;
  struct Loc
  {
    int n, i;
    Val v{1};
    VS_NOSAN Loc(int nn, int ii) : n(nn), i(ii)
    {
      ev_loc(n, i, 1);
    }
    Loc(Loc&&) = delete;
    VS_NOSAN ~Loc()
    {
      v.check();
      ev_loc(n, i, 0);
    }
  };
  int code_now()
  {
    return eptr_code(std::current_exception());
  }

  // what the task bodies have in common; X: what is specific to a coroutine type
  template <class X>
  struct Bodies
  {
    using T = typename X::type;
    static T body(int n, Kids kids, Val arg)
    {
      Loc  l(n, 0);
      Val  out;
      int  p = node(n).p;
      co_await X::begin(n);
      if constexpr (X::exits)
      {
        int m = node(n).m;
        int k = m / 4;
        if (m % 4 == 2)  // actions which are made but never registered
        {
          (void) exec::at_coroutine_exit(X::action(n, 7), Val{1});
          (void) exec::on_coroutine_succeeded(X::action(n, 7), Val{1});
          (void) exec::on_coroutine_stopped(X::action(n, 7), Val{1});
          (void) exec::on_coroutine_failed(X::action(n, 7), Val{1});
        }
        for (int i = 0; i < m % 4 && i < 2; ++i, k /= 4)
        {
#define VS_REG                                                                                      \
  if (k % 4 == 0)                                                                                   \
  {                                                                                                 \
    auto [r] = co_await exec::at_coroutine_exit(X::action(n, i), Val{i});                           \
    ev_exit(n, i, false);                                                                           \
    r.push(7);                                                                                      \
  }                                                                                                 \
  else if (k % 4 == 1)                                                                              \
  {                                                                                                 \
    auto [r] = co_await exec::on_coroutine_succeeded(X::action(n, i), Val{i});                      \
    ev_exit(n, i, false);                                                                           \
    r.push(7);                                                                                      \
  }                                                                                                 \
  else if (k % 4 == 2)                                                                              \
  {                                                                                                 \
    auto [r] = co_await exec::on_coroutine_stopped(X::action(n, i), Val{i});                        \
    ev_exit(n, i, false);                                                                           \
    r.push(7);                                                                                      \
  }                                                                                                 \
  else                                                                                              \
  {                                                                                                 \
    auto [r] = co_await exec::on_coroutine_failed(X::action(n, i), Val{i});                         \
    ev_exit(n, i, false);                                                                           \
    r.push(7);                                                                                      \
  }
          VS_REG
        }
      }
      for (int j = 0; j < (int) kids.size(); ++j)
      {
        if constexpr (X::exits)
          if (int rr = node(n).r % 10; (j == 0 && rr >= 1 && rr <= 3) || (j == 1 && rr >= 4))
            co_await exec::reschedule_coroutine_on(SchedX{(rr - 1) % 3, n, 0, node(n).r > 10});
        if constexpr (X::exits)
          if (int m = node(n).m; j == 1 && m % 4 == 3)
          {
            int i = 2, k = m / 64;
            VS_REG
          }
        if (p == 2)
        {
          try
          {
            Val v = co_await std::move(kids[j]);
            out.cat(v);
          }
          catch (...)
          {
            out.push(code_now());
          }
        }
        else
        {
          Val v = co_await std::move(kids[j]);
          out.cat(v);
        }
      }
      arg.check();
      l.v.check();
      if (p == 1)
        throw Ex{1000 + n};
      if (p == 3)
        co_await X::fail(n);
      if (p == 4)
        co_await X::stop();
      out.push(n);
      co_return out;
    }
    static T nest(int n, Kids kids, int lvl)
    {
      if (lvl == 0)
        return body(n, std::move(kids), Val{n});
      return deeper(n, std::move(kids), lvl);
    }
    static T deeper(int n, Kids kids, int lvl)
    {
      Loc l(n, lvl);
      Val v = co_await nest(n, std::move(kids), lvl - 1);
      l.v.check();
      co_return v;
    }
  };

  // an awaiter which ends the body in another way than by a result
  struct Nop
  {
    bool await_ready() const noexcept
    {
      return true;
    }
    void await_suspend(std::coroutine_handle<>) const noexcept {}
    void await_resume() const noexcept {}
  };
  struct Throws
  {
    int  n;
    bool await_ready() const
    {
      return true;
    }
    void await_suspend(std::coroutine_handle<>) const noexcept {}
    void await_resume() const
    {
      throw Err(4000 + n);
    }
  };

  // ---- stdexec::task ------------------------------------------------------------
  struct OwnEnv
  {
    int t0 = -1;
    explicit OwnEnv(auto const & p) noexcept : t0(tag0(p)) {}
  };
  struct EnvN
  {
    using start_scheduler_type = SchedN;
    template <class P>
    using env_type = OwnEnv;  // the same for every parent: else a task in a task does not compile
    int t0         = -1;
    EnvN() = default;
    explicit EnvN(OwnEnv const & o) noexcept : t0(o.t0) {}
    int query(tag0_t) const noexcept
    {
      return t0;
    }
  };
  struct XN
  {
    using type                  = ex::task<Val, EnvN>;
    static constexpr bool exits = false;
    static auto begin(int)
    {
      return ex::just();
    }
    static auto fail(int n)
    {
      return ex::just_error(Err(4000 + n)) | ex::let_value([] { return ex::just(); });
    }
    static auto stop()
    {
      return ex::just_stopped() | ex::let_value([] { return ex::just(); });
    }
  };
  struct XT : XN
  {
    using type = ex::task<Val>;
  };
  struct XE : XN
  {
    using type                  = exec::task<Val>;
    static constexpr bool exits = true;
    static auto action(int n, int i)
    {
      return [n, i](Val v) noexcept {
        v.check();
        if (v.n != 2 || v.a[0] != i || v.a[1] != 7)
          badval("exit-arg");
        ev_exit(n, i, true);
        return ex::just();
      };
    }
  };

  // ---- a coroutine type of our own --------------------------------------------------
  struct Co
  {
    struct promise_type : ex::with_awaitable_senders<promise_type>
    {
      Env                env{nullptr, 0};
      std::optional<Val> v;
      std::exception_ptr x;
      Co get_return_object() noexcept
      {
        return Co{std::coroutine_handle<promise_type>::from_promise(*this)};
      }
      std::suspend_always initial_suspend() noexcept
      {
        return {};
      }
      struct Final
      {
        bool await_ready() noexcept
        {
          return false;
        }
        std::coroutine_handle<> await_suspend(std::coroutine_handle<promise_type> h) noexcept
        {
          return h.promise().continuation().handle();
        }
        void await_resume() noexcept {}
      };
      Final final_suspend() noexcept
      {
        return {};
      }
      void return_value(Val r)
      {
        v.emplace(std::move(r));
      }
      void unhandled_exception() noexcept
      {
        x = std::current_exception();
      }
      Env get_env() const noexcept
      {
        return env;
      }
    };
    std::coroutine_handle<promise_type> h;
    explicit Co(std::coroutine_handle<promise_type> hh) : h(hh) {}
    Co(Co&& o) noexcept : h(std::exchange(o.h, {})) {}
    ~Co()
    {
      if (h)
        h.destroy();
    }
    struct Aw
    {
      std::coroutine_handle<promise_type> h;
      explicit Aw(std::coroutine_handle<promise_type> hh) : h(hh) {}
      Aw(Aw&&) = delete;
      ~Aw()
      {
        h.destroy();
      }
      bool await_ready() noexcept
      {
        return false;
      }
      template <class P>
      std::coroutine_handle<> await_suspend(std::coroutine_handle<P> p) noexcept
      {
        auto e           = ex::get_env(p.promise());
        h.promise().env = Env{e.r, e.n};
        h.promise().set_continuation(p);
        return h;
      }
      Val await_resume()
      {
        if (h.promise().x)
          std::rethrow_exception(h.promise().x);
        return std::move(*h.promise().v);
      }
    };
    Aw operator co_await() && noexcept
    {
      return Aw(std::exchange(h, {}));
    }
  };
  struct XC : XN
  {
    using type = Co;
    static auto fail(int n)
    {
      return Throws{n};
    }
  };

  // ---- nodes --------------------------------------------------------------------------
  // offers a start scheduler which cannot fail, as the tasks require
  template <class S>
  struct Infallible
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    S   s;
    int n;
    template <class R>
    struct Rc
    {
      using receiver_concept = ex::receiver_tag;
      R   r;
      int n;
      template <class... A>
      void set_value(A&&... a) noexcept
      {
        ex::set_value(std::move(r), static_cast<A&&>(a)...);
      }
      template <class E>
      void set_error(E&& e) noexcept
      {
        ex::set_error(std::move(r), static_cast<E&&>(e));
      }
      void set_stopped() noexcept
      {
        ex::set_stopped(std::move(r));
      }
      auto get_env() const noexcept
      {
        return ex::env{ex::prop{ex::get_start_scheduler, SchedN{ex::get_start_scheduler(ex::get_env(r)).c, n, 1, 0}}, ex::get_env(r)};
      }
    };
    template <class R>
    auto connect(R r) const
    {
      return ex::connect(s.make(), Rc<R>{std::move(r), n});
    }
  };
  template <class S>
  struct ExcSched
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    S   s;
    int n;
    template <class R>
    struct Rc : Infallible<S>::template Rc<R>
    {
      auto get_env() const noexcept
      {
        return ex::env{ex::prop{ex::get_start_scheduler, SchedX{ex::get_start_scheduler(ex::get_env(this->r)).c, this->n, 1, 0}}, ex::get_env(this->r)};
      }
    };
    template <class R>
    auto connect(R r) const
    {
      return ex::connect(s.make(), Rc<R>{{std::move(r), n}});
    }
  };
  template <class S>
  struct Plain
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    S   s;
    int n;
    template <class R>
    auto connect(R r) const
    {
      return ex::connect(s.make(), std::move(r));
    }
  };
  template <class X>
  struct Make
  {
    int  n;
    Kids kids;
    auto make() const
    {
      return Bodies<X>::nest(n, kids, node(n).q);
    }
  };
  template <class X, template <class> class E, bool F>
  Dyn task_node(int n)
  {
    Make<X> m{n, {}};
    for (int c: node(n).ch)
      m.kids.push_back(build(c));
    E<Make<X>> s{m, n};
    if constexpr (F)
      if (node(n).r)
        return wrap(n, tk::Foreign<E<Make<X>>>{s});
    return wrap(n, s);
  }
}  // namespace
DYN_KIND(stask)
{
  return task_node<XN, Infallible, true>(n);
}
DYN_KIND(stask2)
{
  return task_node<XN, Infallible, true>(n);
}
DYN_KIND(stt)
{
  return task_node<XT, Infallible, true>(n);
}
DYN_KIND(stt2)
{
  return task_node<XT, Infallible, true>(n);
}
DYN_KIND(etask)
{
  return task_node<XE, ExcSched, false>(n);
}
DYN_KIND(etask2)
{
  return task_node<XE, ExcSched, false>(n);
}
DYN_KIND(awt)
{
  return task_node<XC, Plain, false>(n);
}
DYN_KIND(awt2)
{
  return task_node<XC, Plain, false>(n);
}

// ---- awaitables of our own ----------------------------------------------------------
namespace
{
  // K: what await_suspend returns (0 void, 1 bool, 2 handle)
  template <int K>
  struct Aw
  {
    int n;
    int how;  // where it throws: 1 await_ready, 2 await_suspend, 3 await_resume, 4 earlier
    Val v{n};
    struct Op : Task
    {
      std::coroutine_handle<> h;
      std::coroutine_handle<> (*stop)(std::coroutine_handle<>) noexcept = nullptr;
      bool (*requested)(std::coroutine_handle<>) noexcept               = nullptr;
      int n;
      std::coroutine_handle<> next() noexcept
      {
        bool st = chan() == CS || (node(n).r == 1 && requested(h));
        return st ? stop(h) : h;
      }
      int chan() const
      {
        Node& nd = node(n);
        return nd.m > 0 && round_of(n) < nd.m ? CV : nd.q;
      }
      void run() noexcept override
      {
        next().resume();
      }
    } op{};
    Aw(int nn, int hh) : n(nn), how(hh) {}
    Aw(Aw&& o) noexcept : n(o.n), how(o.how), v(std::move(o.v)) {}
    Aw(Aw const & o) : n(o.n), how(o.how), v(o.v) {}
    bool thrown(int w)
    {
      op.n = n;
      v.check();
      if (op.chan() == CX && how == w)
        throw Ex{600 + n};
      return true;
    }
    bool await_ready()
    {
      thrown(1);
      return node(n).p < 0 && op.chan() != CS && node(n).r == 0 && how % 2;
    }
    template <class P>
    auto await_suspend(std::coroutine_handle<P> h)
      -> std::conditional_t<K == 0, void, std::conditional_t<K == 1, bool, std::coroutine_handle<>>>
    {
      thrown(2);
      op.h    = h;
      op.stop = [](std::coroutine_handle<> x) noexcept -> std::coroutine_handle<> {
        auto& p = std::coroutine_handle<P>::from_address(x.address()).promise();
        if constexpr (requires { p.unhandled_stopped(); })
          return p.unhandled_stopped();
        else
          return x;  // a promise of the library for asking what the awaitable is
      };
      op.requested = [](std::coroutine_handle<> x) noexcept {
        return ex::get_stop_token(ex::get_env(std::coroutine_handle<P>::from_address(x.address()).promise())).stop_requested();
      };
      int p = node(n).p;
      if (p >= 0)
        ctx(p).push(&op);
      if constexpr (K == 0)
      {
        if (p < 0)
          op.next().resume();
      }
      else if constexpr (K == 1)
      {
        if (p < 0)
        {
          auto x = op.next();
          if (x == h)
            return false;
          x.resume();
        }
        return true;
      }
      else
        return p < 0 ? op.next() : std::coroutine_handle<>(std::noop_coroutine());
    }
    Val await_resume()
    {
      thrown(3);
      if (op.chan() == CX)
        throw Ex{600 + n};
      return std::move(v);
    }
  };
  template <int K>
  struct AwRef : Aw<K>  // an awaiter which uses its awaitable to its end
  {
    Val const & owner;
    AwRef(Aw<K>&& a, Val const & o) : Aw<K>(std::move(a)), owner(o) {}
    AwRef(AwRef&&) = delete;
    ~AwRef()
    {
      owner.check();
    }
    Val await_resume()
    {
      owner.check();
      return Aw<K>::await_resume();
    }
  };
  template <int K>
  struct AwMember  // has a distinct awaiter
  {
    Aw<K> a;
    Val   own{5};
    AwRef<K> operator co_await() &&
    {
      a.thrown(4);
      return AwRef<K>(std::move(a), own);
    }
  };
  template <int K>
  struct AwAs  // has a distinct awaitable
  {
    Aw<K> a;
    template <class P>
    Aw<K> as_awaitable(P&) &&
    {
      a.thrown(4);
      return std::move(a);
    }
  };
  template <int K>
  struct AwBoth
  {
    AwMember<K> a;
    Val         v{3};
    template <class P>
    AwMember<K> as_awaitable(P&) &&
    {
      a.a.thrown(5);
      v.check();
      return std::move(a);
    }
  };
  template <int K>
  Dyn awl(int n, int shape, int how)
  {
    switch (shape)
    {
    case 0: return wrap(n, Aw<K>(n, how % 4));
    case 1: return wrap(n, AwMember<K>{{n, how}});
    case 2: return wrap(n, AwAs<K>{{n, how}});
    default: return wrap(n, AwBoth<K>{{{n, how}}});
    }
  }
}  // namespace
DYN_KIND(awl)
{
  int shape = vs::choose(4), how = vs::choose(6), k = vs::choose(3);
  return k == 0 ? awl<0>(n, shape, how) : k == 1 ? awl<1>(n, shape, how) : awl<2>(n, shape, how);
}
