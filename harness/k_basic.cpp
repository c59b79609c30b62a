#include "dyn.hpp"
#include <exec/materialize.hpp>
#include <exec/variant_sender.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
using namespace d;

namespace
{
  // function objects carry a value so that use after move/destruction is noticed
  struct FnBase
  {
    int n;
    Val cap;
    explicit FnBase(int nn) : n(nn), cap{nn} {}
    void enter(Val const & v)
    {
      cap.check();
      if (cap.n != 1 || cap.a[0] != n)
        badval("moved-function");
      ev_fn(n, v);
      if (node(n).p == 1)
        throw Ex{1000 + n};
    }
  };
  struct ThenFn : FnBase
  {
    using FnBase::FnBase;
    Val operator()(Val v)
    {
      enter(v);
      v.push(n);
      return v;
    }
    Val operator()(Val a, Val b)
    {
      a.cat(b);
      enter(a);
      a.push(n);
      return a;
    }
  };
  struct ErrFn : FnBase
  {
    using FnBase::FnBase;
    Val operator()(Err e)
    {
      enter(Val{e.get()});
      return Val{e.get(), n};
    }
    Val operator()(std::exception_ptr e)
    {
      int c = eptr_code(e);
      enter(Val{c});
      return Val{c, n};
    }
  };
  struct StopFn : FnBase
  {
    using FnBase::FnBase;
    Val operator()()
    {
      enter(Val{});
      return Val{n};
    }
  };
}  // namespace

DYN_KIND(then)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::then(std::move(c), ThenFn(n))); });
}
// function returning void, then another adding a value: void completions and several arguments
DYN_KIND(thenv)
{
  return wrap(n, build(node(n).ch[0]) | ex::then([keep = Val{1}](Val&& v) noexcept { return v; })
                   | ex::then([n](Val v) noexcept -> Val {
                       v.push(n);
                       return v;
                     }));
}
DYN_KIND(ue)
{
  return wrap(n, ex::upon_error(build(node(n).ch[0]), ErrFn(n)));
}
DYN_KIND(us)
{
  return wrap(n, ex::upon_stopped(build(node(n).ch[0]), StopFn(n)));
}
DYN_KIND(iv)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::into_variant(std::move(c))); });
}
DYN_KIND(sopt)
{
  return wrap(n, ex::stopped_as_optional(build(node(n).ch[0])));
}
DYN_KIND(serr)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::stopped_as_error(std::move(c), Err(2000 + n))); });
}
DYN_KIND(mat)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, exec::dematerialize(exec::materialize(std::move(c)))); });
}
DYN_KIND(it)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, exec::into_tuple(std::move(c))); });
}
DYN_KIND(vsd)
{
  Dyn a = build(node(n).ch[0]);
  Dyn b = build(node(n).ch[1]);
  auto c = ex::then(std::move(b), [](Val v) noexcept { return v; });
  using VS = exec::variant_sender<Dyn, decltype(c)>;
  if (node(n).p == 0)
    return wrap(n, VS(std::move(a)));
  VS v(std::move(a));
  v = VS(std::move(c));
  return wrap(n, std::move(v));
}
// just_from: sends several values computed when started
DYN_KIND(jfrom)
{
  return wrap(n, exec::just_from([n](auto sink) noexcept { return sink(Val{n}, 7); }));
}
DYN_KIND(jefrom)
{
  return wrap(n, exec::just_error_from([n](auto sink) noexcept { return sink(Err(500 + n)); }));
}
