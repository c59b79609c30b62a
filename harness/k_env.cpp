#include "dyn.hpp"
#include <exec/unless_stop_requested.hpp>
#include <exec/env.hpp>
using namespace d;
DYN_KIND(we)
{
  int v = node(n).q;
  if (node(n).p == 0)
    return wrap(n, ex::write_env(build(node(n).ch[0]), ex::prop{tag0, v}));
  return wrap(n, ex::write_env(build(node(n).ch[0]), ex::prop{tag1, v}));
}
DYN_KIND(un)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::unstoppable(std::move(c))); });
}
DYN_KIND(sw)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, ex::__stop_when(std::move(c), ext_token())); });
}
DYN_KIND(usr)
{
  return with_child(n, node(n).ch[0], [&](auto c) { return wrap(n, exec::unless_stop_requested(std::move(c))); });
}
