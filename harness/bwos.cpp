// P18: the block-based work-stealing queue
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <exec/detail/bwos_lifo_queue.hpp>
#include <vector>
using namespace h;
namespace
{
  constexpr int NI = 40;
  struct Node
  {
    int id = 0;
  };
  using Q = exec::bwos::lifo_queue<Node*>;
  struct W
  {
    Box<Q>    q;
    Box<Node> n[NI];
    int       next = 1;
    int       strict;
    W(int nb, int bs, int st = 0) : strict(st)
    {
      q.make(nb, bs);
      vs::cfg("{\"nb\":" + std::to_string(q.get().num_blocks()) + ",\"bs\":" + std::to_string(q.get().block_size())
              + ",\"strict\":" + std::to_string(st) + "}");
    }
    Node* mk()
    {
      Node& x = n[next].make();
      x.id = next++;
      return &x;
    }
    // the taker reads the element and destroys it: nobody else may touch it any more
    int eat(Node* p)
    {
      if (!p)
        return 0;
      int i = p->id;
      if (i < 1 || i >= NI || &n[i].get() != p)
        return -1;
      n[i].destroy();
      return i;
    }
    bool push()
    {
      Node* p = mk();
      int   i = p->id;
      ev("push_call", F("v", i));
      bool ok = q.get().push_back(p);
      ev("push_ret", F("k", ok ? 1 : 0));
      if (!ok)
        n[i].destroy();
      return ok;
    }
    int bulk(int k)
    {
      std::vector<Node*> v;
      int                f = next;
      for (int i = 0; i < k; ++i)
        v.push_back(mk());
      ev("bulk_call", F("v", f), F("n", k));
      auto it = q.get().push_back(v.begin(), v.end());
      int  m  = (int) (it - v.begin());
      ev("push_ret", F("k", m));
      for (int i = f + m; i < f + k; ++i)
        n[i].destroy();
      return m;
    }
    int pop()
    {
      ev("pop_call");
      int i = eat(q.get().pop_back());
      ev("pop_ret", F("v", i));
      return i;
    }
    int steal(int th)
    {
      ev("st_call", F("h", th));
      int i = eat(q.get().steal_front());
      ev("st_ret", F("h", th), F("v", i));
      return i;
    }
    void op(int what)
    {
      if (what == 0 && next < NI)
        push();
      else if (what == 1)
        pop();
      else if (what == 2 && next + 3 < NI)
        bulk(1 + vs::choose(3));
    }
    // at rest everything left must come out
    void finish()
    {
      while (pop() > 0)
        ;
      ev("end");
      q.destroy();
    }
  };
}  // namespace

// one thread does everything: exact results
VS_SCENARIO(alone)
{
  W w(1 << vs::choose(3), 1 + vs::choose(3), 1);
  for (int i = 0; i < 22; ++i)
  {
    int c = vs::choose(5);
    if (c == 3 || c == 4)
      w.steal(1);
    else
      w.op(c);
  }
  w.finish();
}
// fill, then wrap round the blocks with thieves
VS_SCENARIO(wrap)
{
  W w(2, 1 + vs::choose(2));
  w.push();
  w.push();
  std::thread a([&] { w.steal(1); w.steal(1); });
  w.push();
  w.push();
  w.push();
  a.join();
  w.finish();
}
VS_SCENARIO(wrap2)
{
  W w(2, 1);
  std::thread a([&] { w.steal(1); w.steal(1); });
  std::thread b([&] { w.steal(2); w.steal(2); });
  for (int i = 0; i < 5; ++i)
    w.push();
  a.join();
  b.join();
  w.finish();
}
// the owner goes back to a block from which thieves are stealing
VS_SCENARIO(takeover)
{
  W w(2 << vs::choose(2), 2);
  w.push();
  w.push();
  w.push();
  std::thread a([&] { w.steal(1); });
  std::thread b([&] { w.steal(2); });
  w.pop();
  w.pop();
  w.push();
  w.push();
  w.push();
  a.join();
  b.join();
  w.finish();
}
VS_SCENARIO(retreat)
{
  W           w(4, 1);
  w.bulk(3);
  std::thread a([&] { w.steal(1); w.steal(1); });
  w.pop();
  w.pop();
  w.bulk(2);
  w.pop();
  a.join();
  w.finish();
}
// random owner history against two thieves
VS_SCENARIO(mix)
{
  W           w(1 << vs::choose(3), 1 + vs::choose(3));
  std::thread a([&] { for (int i = 0; i < 4; ++i) w.steal(1); });
  std::thread b([&] { for (int i = 0; i < 4; ++i) w.steal(2); });
  for (int i = 0; i < 12; ++i)
    w.op(vs::choose(3));
  a.join();
  b.join();
  w.finish();
}
// thieves keep stealing until everything the owner pushed is gone
VS_SCENARIO(rest)
{
  W   w(4, 2, 1);
  int k = w.bulk(7);
  int ts[3]{};
  std::thread a([&] { for (int i = 0; i < 3; ++i) ts[1] += w.steal(1) > 0; });
  std::thread b([&] { for (int i = 0; i < 3; ++i) ts[2] += w.steal(2) > 0; });
  a.join();
  b.join();
  (void) k;
  w.finish();
}
