#include "dyn.hpp"
#include <exec/when_any.hpp>
using namespace d;
DYN_KIND(wa2)
{
  auto& c = node(n).ch;
  return with_child(n, c[0], [&](auto a) { return wrap(n, ex::when_all(std::move(a), build(c[1]))); });
}
DYN_KIND(wa3)
{
  auto& c = node(n).ch;
  return wrap(n, ex::when_all(build(c[0]), build(c[1]), build(c[2])));
}
DYN_KIND(wav)
{
  auto& c = node(n).ch;
  return with_child(n, c[0], [&](auto a) { return wrap(n, ex::when_all_with_variant(std::move(a), build(c[1]))); });
}
DYN_KIND(twa)
{
  auto& c = node(n).ch;
  return with_child(n, c[0], [&](auto a) {
    return wrap(n, ex::transfer_when_all(Sched{node(n).r, n, 0, node(n).q}, std::move(a), build(c[1])));
  });
}
DYN_KIND(any2)
{
  auto& c = node(n).ch;
  return with_child(n, c[0], [&](auto a) { return wrap(n, exec::when_any(std::move(a), build(c[1]))); });
}
DYN_KIND(any3)
{
  auto& c = node(n).ch;
  return wrap(n, exec::when_any(build(c[0]), build(c[1]), build(c[2])));
}
