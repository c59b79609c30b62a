// P03: intrusive concurrent queues
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <stdexec/__detail/__intrusive_mpsc_queue.hpp>
#include <stdexec/__detail/__atomic_intrusive_queue.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
using namespace h;
namespace ex = stdexec;
namespace
{
  struct MNode
  {
    std::atomic<MNode*> next{nullptr};
    int                 id = 0;
  };
  struct Node
  {
    Node* next = nullptr;
    int   id   = 0;
  };
  using MQ = ex::__intrusive_mpsc_queue<&MNode::next>;
  using AQ = ex::__atomic_intrusive_queue<&Node::next>;
  using EQ = exec::__atomic_intrusive_queue<&Node::next>;

  void push_call(int o, std::string is, int w)
  {
    std::string s = "\"o\":" + std::to_string(o) + ",\"is\":[" + is + "],\"w\":" + std::to_string(w);
    vs::ev_raw("push_call", s.c_str());
  }
  void push_ret(int o, int ok, int b)
  {
    ev("push_ret", F("o", o), F("ok", ok), F("b", b));
  }
  void take_ret(std::string is, int nw)
  {
    std::string s = "\"is\":[" + is + "],\"new\":" + std::to_string(nw);
    vs::ev_raw("take_ret", s.c_str());
  }
  // ---- mpsc
  struct M
  {
    Box<MQ>    q;
    Box<MNode> n[16];
    int        left = 0;
    // a sleeping consumer, woken by pushes which were told so
    M() { vs::cfg("{\"exact\":0,\"kind\":\"one\"}"); q.make(); }
    bool push(int i)
    {
      n[i].make().id = i;
      push_call(i, std::to_string(i), 0);
      bool b = q.get().push_back(&n[i].get());
      push_ret(i, 1, b);
      return b;
    }
    bool pop()
    {
      ev("take_call");
      MNode* p = q.get().pop_front();
      int    i = p ? p->id : 0;
      if (p)
        n[i].destroy();  // the queue may not touch it any more
      take_ret(i ? std::to_string(i) : "", 0);
      return i != 0;
    }
    void drain(int want)
    {
      while (want > 0)
        if (pop())
          --want;
        else
          vs::yield_point();
      pop();
      ev("end");
    }
  };
}  // namespace

VS_SCENARIO(mpsc_two)
{
  M           m;
  std::thread a([&] { m.push(1); m.push(2); });
  std::thread b([&] { m.push(3); m.push(4); });
  m.drain(4);
  a.join();
  b.join();
}
VS_SCENARIO(mpsc_three)
{
  M           m;
  int         na = 1 + vs::choose(3), nb = 1 + vs::choose(2);
  std::thread a([&] { for (int i = 0; i < na; ++i) m.push(1 + i); });
  std::thread b([&] { for (int i = 0; i < nb; ++i) m.push(5 + i); });
  std::thread c([&] { m.push(9); });
  m.drain(na + nb + 1);
  a.join();
  b.join();
  c.join();
}
VS_SCENARIO(mpsc_refill)
{
  M m;
  m.push(1);
  m.pop();
  std::thread a([&] { m.push(2); m.push(3); });
  m.drain(2);
  a.join();
  std::thread b([&] { m.push(4); });
  std::thread c([&] { m.push(5); });
  m.drain(2);
  b.join();
  c.join();
}
namespace
{
  template <class Q>
  struct A
  {
    Box<Q>    q;
    Box<Node> n[20];
    int       got = 0;
    A() { vs::cfg("{\"exact\":1,\"kind\":\"old\"}"); q.make(); }
    void mk(int i) { n[i].make().id = i; }
    // walks a list handed out, destroying its nodes
    template <class L>
    void walk(L l, int nw)
    {
      std::string s;
      auto        it = l.begin();
      while (it != l.end())
      {
        int i = (*it)->id;
        ++it;
        n[i].destroy();
        ++got;
        s += (s.empty() ? "" : ",") + std::to_string(i);
      }
      l.clear();
      take_ret(s, nw);
    }
  };
  struct AA : A<AQ>
  {
    void push(int i)
    {
      mk(i);
      push_call(i, std::to_string(i), 0);
      bool b = q.get().push(&n[i].get());
      push_ret(i, 1, b);
    }
    void pop()
    {
      ev("take_call");
      walk(q.get().pop_all(), 0);
    }
    void wait()
    {
      q.get().wait_for_item();
      ev("wait_ret");
    }
  };
  struct EE : A<EQ>
  {
    void push(int i)
    {
      mk(i);
      push_call(i, std::to_string(i), 0);
      bool b = q.get().push_front(&n[i].get());
      push_ret(i, 1, b);
    }
    bool try_push(int o, int i)
    {
      push_call(o, std::to_string(i), 1);
      auto r = q.get().try_push_front(&n[i].get());
      push_ret(o, r.__success, r.__was_empty);
      return r.__success;
    }
    // prepends the batch i, j: i becomes the newest
    void prepend(int o, int i, int j)
    {
      mk(i);
      mk(j);
      ex::__intrusive_queue<&Node::next> l;
      l.push_back(&n[i].get());
      if (j != i)
        l.push_back(&n[j].get());
      push_call(o, std::to_string(j) + "," + std::to_string(i), 0);
      q.get().prepend(std::move(l));
      ev("prep_ret", F("o", o));
    }
    void pop(bool nw)
    {
      ev("take_call");
      if (nw)
        walk(q.get().pop_all(), 1);
      else
        walk(q.get().pop_all_reversed(), 0);
    }
  };
}  // namespace
VS_SCENARIO(atomic_wait)
{
  AA          w;
  std::thread a([&] { w.push(1); w.push(2); });
  std::thread b([&] { w.push(3); w.push(4); });
  while (w.got < 4)
  {
    w.wait();
    w.pop();
  }
  w.pop();
  ev("end");
  a.join();
  b.join();
}
VS_SCENARIO(atomic_three)
{
  AA          w;
  std::thread a([&] { w.push(1); w.push(2); w.push(5); });
  std::thread b([&] { w.push(3); });
  std::thread c([&] { w.push(4); });
  while (w.got < 5)
  {
    if (vs::choose(2))
      w.wait();
    w.pop();
    if (w.got < 5)
      vs::yield_point();
  }
  ev("end");
  a.join();
  b.join();
  c.join();
}
VS_SCENARIO(exec_mixed)
{
  EE          w;
  bool        nw = vs::choose(2);
  std::thread a([&] { w.push(1); w.prepend(2, 2, 3); });
  std::thread b([&] {
    w.mk(4);
    for (int o = 10; !w.try_push(o, 4); ++o)
      ;
    w.push(5);
  });
  while (w.got < 5)
  {
    w.pop(nw);
    if (w.got < 5)
      vs::yield_point();
  }
  {
    bool e = w.q.get().empty();
    ev("empty", F("b", e));
  }
  ev("end");
  a.join();
  b.join();
}
VS_SCENARIO(exec_push)
{
  EE          w;
  std::thread a([&] { w.push(1); w.push(2); });
  std::thread b([&] { w.prepend(3, 3, 6); w.push(4); });
  while (w.got < 5)
  {
    w.pop(vs::choose(2));
    if (w.got < 5)
      vs::yield_point();
  }
  ev("end");
  a.join();
  b.join();
}
