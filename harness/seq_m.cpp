// merge and merge_each
#include "seq.hpp"
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
namespace q
{
  SeqP make_mrg(int n)
  {
    Node& x = W->nodes[n];
    if (x.ch.size() == 2)
      return hold<Val>(x.sh, exec::merge(Seq<Val>{build(x.ch[0])}, Seq<Val>{build(x.ch[1])}));
    return hold<Val>(x.sh, exec::merge(Seq<Val>{build(x.ch[0])}, Seq<Val>{build(x.ch[1])}, Seq<Val>{build(x.ch[2])}));
  }
  SeqP make_me(int n)
  {
    Node& x = W->nodes[n];
    return hold<Val>(x.sh, exec::merge_each(Seq<Seq<Val>>{build_o(x.ch[0])}));
  }
}  // namespace q
