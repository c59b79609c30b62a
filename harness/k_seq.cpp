#include "dyn.hpp"
#include <exec/sequence.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/finally.hpp>
using namespace d;
static auto voided(Dyn d)
{
  return ex::then(std::move(d), [](Val) noexcept {});
}
DYN_KIND(seq2)
{
  auto& c = node(n).ch;
  return with_child(n, c[1], [&](auto b) { return wrap(n, exec::sequence(voided(build(c[0])), std::move(b))); });
}
DYN_KIND(seq3)
{
  auto& c = node(n).ch;
  return wrap(n, exec::sequence(voided(build(c[0])), voided(build(c[1])), build(c[2])));
}
DYN_KIND(rn)
{
  return wrap(n, exec::repeat_n(voided(build(node(n).ch[0])), (std::size_t) node(n).p));
}
DYN_KIND(ru)
{
  int c = node(n).ch[0], k = node(n).p;
  return wrap(n, exec::repeat_until(ex::then(build(c), [c, k](Val) noexcept { return round_of(c) >= k; })));
}
DYN_KIND(reu)
{
  int c = node(n).ch[0], k = node(n).p;
  return wrap(n, exec::repeat_effect_until(ex::then(build(c), [c, k](Val) { return round_of(c) >= k; })));
}
DYN_KIND(fin)
{
  auto& c = node(n).ch;
  return with_child(n, c[0], [&](auto a) { return wrap(n, exec::finally(std::move(a), voided(build(c[1])))); });
}
