// Sequence adaptors.
#include "seq.hpp"
#include <exec/sequence/any_sequence_of.hpp>
#include <exec/sequence/transform_each.hpp>
namespace q
{
  // appends the node to every value; throws at the item whose number is q
  struct Fn
  {
    int n;
    Val operator()(Val v) const
    {
      if (v.n > 0 && v.a[0] % 100 == W->nodes[n].q)
        throw Ex{2000 + n};
      v.push(n);
      return v;
    }
  };
  struct Ad : ex::sender_adaptor_closure<Ad>
  {
    int n;
    explicit Ad(int nn) : n(nn) {}
    template <ex::sender S>
    auto operator()(S&& s)
    {
      if (W->nodes[n].cnt->fetch_add(1) + 1 == W->nodes[n].r)
        throw Ex{4000 + n};
      return ex::then(static_cast<S&&>(s), Fn{n});
    }
  };
  SeqP make_te(int n)
  {
    Node& x = W->nodes[n];
    return hold<Val>(x.sh, exec::transform_each(Seq<Val>{build(x.ch[0])}, Ad{n}));
  }
  using Sigs = ex::completion_signatures<ex::set_value_t(Val), ex::set_error_t(Err), ex::set_error_t(Eptr), ex::set_stopped_t()>;
  using Any = exec::any_sequence_sender<exec::any_sequence_receiver<Sigs>>;
  SeqP make_any(int n)
  {
    Node& x = W->nodes[n];
    // it does not compile for a receiver with an inplace_stop_token
    return std::unique_ptr<ISeq<Val>>(new SeqHolder<Val, false, Any>(Any(Seq<Val>{build(x.ch[0])})));
  }
}  // namespace q
