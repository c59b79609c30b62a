// bulk, bulk_chunked, bulk_unchunked and fork_join
#include "dyn.hpp"
#include <exec/fork_join.hpp>
using namespace d;
namespace d
{
  thread_local std::function<Dyn(int)> const * cur_cache = nullptr;  // the cached sender a fork_join gave its branch
}
namespace
{
  struct BulkFn
  {
    int n;
    Val cap;
    explicit BulkFn(int nn) : n(nn), cap{nn} {}
    void range(int b, int e, Val& v)
    {
      cap.check();
      if (cap.n != 1 || cap.a[0] != n)
        badval("moved-function");
      ev_bulk(n, b, e, v);
      if (node(n).q >= b && node(n).q < e)
        throw Ex{1000 + n};
      for (int i = b; i < e; ++i)
        v.push(i);
    }
    void operator()(int i, Val& v)
    {
      range(i, i + 1, v);
    }
    void operator()(int i, Val& v, Val& w)
    {
      v.cat(w);
      w = Val{};
      range(i, i + 1, v);
    }
    void operator()(int b, int e, Val& v)
    {
      range(b, e, v);
    }
  };
  template <class F>
  Dyn policy(int r, F f)
  {
    switch (r)
    {
    case 1: return f(ex::par);
    case 2: return f(ex::par_unseq);
    case 3: return f(ex::unseq);
    default: return f(ex::seq);
    }
  }
}  // namespace
DYN_KIND(bulk)
{
  return with_child(n, node(n).ch[0], [&](auto c) {
    return policy(node(n).r, [&](auto pol) { return wrap(n, ex::bulk(std::move(c), pol, node(n).p, BulkFn(n))); });
  });
}
DYN_KIND(bulkc)
{
  Dyn c = build(node(n).ch[0]);
  return policy(node(n).r, [&](auto pol) { return wrap(n, ex::bulk_chunked(std::move(c), pol, node(n).p, BulkFn(n))); });
}
DYN_KIND(bulku)
{
  Dyn c = build(node(n).ch[0]);
  return policy(node(n).r, [&](auto pol) { return wrap(n, ex::bulk_unchunked(std::move(c), pol, node(n).p, BulkFn(n))); });
}
namespace
{
  struct Branch
  {
    int c;
    Val keep{7};
    template <class S>
    Dyn operator()(S snd) const
    {
      if (keep.n != 1)
        badval("moved-closure");
      std::function<Dyn(int)> f    = [snd](int n) { return wrap(n, snd); };
      auto                    prev = cur_cache;
      cur_cache                    = &f;
      try
      {
        Dyn d     = build(c);
        cur_cache = prev;
        return d;
      }
      catch (...)
      {
        cur_cache = prev;
        throw;
      }
    }
  };
}  // namespace
DYN_KIND(fj)
{
  auto& c = node(n).ch;
  return wrap(n, exec::fork_join(build(c[0]), Branch{c[1]}, Branch{c[2]}));
}
DYN_KIND(cache)
{
  return (*cur_cache)(n);
}
