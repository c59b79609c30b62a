#include "dyn.hpp"
#include <exec/reschedule.hpp>
using namespace d;
static Sched par(int n)
{
  return Sched{node(n).r, n, 0, node(n).q};
}
DYN_KIND(co)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::continues_on(std::move(c), par(n))); });
}
DYN_KIND(coN)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::continues_on(std::move(c), SchedN{node(n).r, n, 0, 0})); });
}
DYN_KIND(so)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::starts_on(par(n), std::move(c))); });
}
DYN_KIND(on)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::on(par(n), std::move(c))); });
}
DYN_KIND(on3)
{
  // the predecessor runs (and completes) on context 1
  Dyn  pre = wrap(0, ex::just());
  DynOn p(build(node(n).ch[0]), 0);
  p.owner = n;
  return wrap(n, ex::on(std::move(p), par(n), ex::then([n](Val v) {
                          ev_fn(n, v);
                          if (node(n).p == 1)
                            throw Ex{1000 + n};
                          v.push(n);
                          return v;
                        })));
}
