#include "dyn.hpp"
using namespace d;
namespace d
{
  extern thread_local void const * cur_ref;
  extern thread_local int          cur_kind;
}
namespace
{
  struct LetBase
  {
    int n;
    Val cap;
    explicit LetBase(int nn) : n(nn), cap{nn} {}
    Dyn go(Val const & shown, void const * ref, int kind)
    {
      cap.check();
      if (cap.n != 1 || cap.a[0] != n)
        badval("moved-function");
      ev_fn(n, shown);
      if (node(n).p == 1)
        throw Ex{1000 + n};
      auto keep = std::pair(cur_ref, cur_kind);
      cur_ref   = ref;
      cur_kind  = kind;
      Dyn d     = build(node(n).ch[1]);
      cur_ref   = keep.first;
      cur_kind  = keep.second;
      return d;
    }
  };
  struct LvFn : LetBase
  {
    using LetBase::LetBase;
    Dyn operator()(Val& v)
    {
      return go(v, &v, 0);
    }
    Dyn operator()(Val& v, Val& w)
    {
      v.cat(w);
      return go(v, &v, 0);
    }
  };
  struct LeFn : LetBase
  {
    using LetBase::LetBase;
    Dyn operator()(Err& e)
    {
      return go(Val{e.get()}, &e, 1);
    }
    Dyn operator()(std::exception_ptr& e)
    {
      return go(Val{eptr_code(e)}, &e, 2);
    }
  };
  struct LsFn : LetBase
  {
    using LetBase::LetBase;
    Dyn operator()()
    {
      return go(Val{}, nullptr, 0);
    }
  };
  // several arguments of several types; the inner sender refers to the last one
  struct LmFn : LetBase
  {
    using LetBase::LetBase;
    Dyn operator()(Val& v, int& i, Val& w)
    {
      w.cat(v);
      w.push(i);
      return go(w, &w, 0);
    }
  };
}  // namespace

DYN_KIND(lv)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::let_value(std::move(c), LvFn(n))); });
}
DYN_KIND(le)
{
  return wrap(n, ex::let_error(build(node(n).ch[0]), LeFn(n)));
}
DYN_KIND(ls)
{
  return wrap(n, ex::let_stopped(build(node(n).ch[0]), LsFn(n)));
}
// let_value with three arguments
DYN_KIND(lets)
{
  return wrap(n, build(node(n).ch[0]) | ex::let_value([](Val& v) noexcept { return ex::just(v, 7, Val{}); })
                   | ex::let_value(LmFn(n)));
}
