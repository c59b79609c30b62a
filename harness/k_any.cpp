// Type-erased senders, receivers and schedulers
#include "dyn.hpp"
#include "tok.hpp"
#include <exec/any_sender_of.hpp>
#include <exec/function.hpp>
using namespace d;
namespace
{
  using Q = exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept, int(tag0_t) noexcept, int(tag1_t) noexcept,
                          Sched(ex::get_scheduler_t) noexcept, Sched(ex::get_start_scheduler_t) noexcept>;
  using ARcv = exec::any_receiver<Dyn::completion_signatures, Q>;
  using ASnd = exec::any_sender<ARcv>;
  struct Big  // does not fit in a small buffer
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    Dyn  d;
    Val  pad[5];
    template <class R>
    auto connect(R r) &&
    {
      return ex::connect(std::move(d), std::move(r));
    }
  };
  // an any_sender with a history
  ASnd erase(Dyn d, int how)
  {
    if (how == 1)
      return ASnd(Big{std::move(d)});
    ASnd a(std::move(d));
    if (how == 2)
    {
      ASnd b(Big{wrap(0, ex::just(Val{}))});
      b = std::move(a);
      return b;
    }
    if (how == 3)
    {
      ASnd b(wrap(0, ex::just(Val{})));
      std::swap(a, b);
      a = ASnd(Big{wrap(0, ex::just_stopped())});
      return b;
    }
    if (how == 4)
      return ASnd(std::move(a));
    if (how == 5)
    {
      ASnd* x = &a;
      a       = std::move(*x);  // self-move
      return a;
    }
    return a;
  }
  struct AnySnd
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    Dyn d;
    int how = 0;
    template <class R>
    auto connect(R r) const
    {
      return ex::connect(erase(d, how), std::move(r));
    }
  };
  // connects its child to a receiver which is erased
  struct AnyRcvSnd
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    Dyn  d;
    bool big = false;
    template <class R>
    struct Rc
    {
      using receiver_concept = ex::receiver_tag;
      R   r;
      Val pad[4];
      void set_value(Val v) noexcept
      {
        ex::set_value(std::move(r), std::move(v));
      }
      template <class E>
      void set_error(E e) noexcept
      {
        ex::set_error(std::move(r), std::move(e));
      }
      void set_stopped() noexcept
      {
        ex::set_stopped(std::move(r));
      }
      auto get_env() const noexcept
      {
        return ex::get_env(r);
      }
    };
    template <class R>
    auto connect(R r) const
    {
      if (big)
        return ex::connect(d, ARcv(Rc<R>{std::move(r)}));
      return ex::connect(d, ARcv(std::move(r)));
    }
  };
  using SQ    = exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>;
  using SSnd  = exec::any_sender<exec::any_receiver<ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>, SQ>>;
  using ASch  = exec::any_scheduler<SSnd>;
}  // namespace
DYN_KIND(anys)
{
  AnySnd s{build(node(n).ch[0]), node(n).p};
  if (node(n).r)
    return wrap(n, tk::Foreign<AnySnd>{s});
  return wrap(n, s);
}
namespace
{
  using Fun = exec::function<ex::sender_tag(Dyn, int), Dyn::completion_signatures, Q>;
  struct FunSnd
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    Dyn  d;
    int  n;
    bool thr, copy;
    template <class R>
    auto connect(R r) const
    {
      void* tag = nullptr;
      Fun   f(Dyn(d), thr ? n : 0, [tag](Dyn x, int code) -> Dyn {
        if (code || tag)
          throw Ex{700 + code};
        return x;
      });
      if (copy)
      {
        Fun const g(f);
        return ex::connect(g, std::move(r));
      }
      return ex::connect(std::move(f), std::move(r));
    }
  };
}  // namespace
// exec::function: the operation is made by a type-erased factory, from stored arguments
DYN_KIND(fun)
{
  return wrap(n, FunSnd{build(node(n).ch[0]), n, node(n).p == 1, node(n).m == 1});
}
DYN_KIND(anyr)
{
  return wrap(n, AnyRcvSnd{build(node(n).ch[0]), node(n).p > 2});
}
DYN_KIND(asched)
{
  ASch a(Sched{node(n).p, n, 0, node(n).q}), b(Sched{node(n).p + 1, n, 0, node(n).q});
  ASch c = a;
  if (c == b || c != a)
    badval("any-scheduler-eq");
  if (node(n).m)
  {
    std::swap(b, c);
    c = std::move(b);
    if (c != a)
      badval("any-scheduler-move");
  }
  // senders of any_scheduler are not copyable
  return wrap(n, ex::let_value(ex::just(), [c]() noexcept { return ex::schedule(c); }));
}
