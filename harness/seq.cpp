// Sequence senders: probes, sources and sinks, and random expressions over them.
#include "seq.hpp"
#include "h.hpp"
#include <exec/sequence/empty_sequence.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/iterate.hpp>
#include <functional>
#include <optional>
#include <span>
#include <thread>
#include <vector>

namespace q
{
  World* W = nullptr;

  static std::string N(char const* k, long v)
  {
    return "\"" + std::string(k) + "\":" + std::to_string(v);
  }
  static std::string C(int ch)
  {
    return std::string("\"c\":\"") + chname(ch) + "\"";
  }
  static void ev(char const* name, int n, int i = 0, std::string more = {})
  {
    std::string s = N("n", n) + "," + N("i", i);
    if (!more.empty())
      s += "," + more;
    vs::ev_raw(name, s.c_str());
  }
  static std::string codes(int ch, Err const* e, Eptr const* x)
  {
    if (ch == CE)
      return "[" + std::to_string(e->get()) + "]";
    if (ch == CX)
      return "[" + std::to_string(eptr_code(*x)) + "]";
    return "[]";
  }
  static std::string res(int ch, Val* v, Err* e, Eptr* x)
  {
    return C(ch) + ",\"v\":" + (ch == CV ? v->str() : codes(ch, e, x));
  }
  static std::string res(int ch, Seq<Val>*, Err* e, Eptr* x)
  {
    return C(ch) + ",\"v\":" + codes(ch, e, x);
  }

  struct Later : d::Task
  {
    std::function<void()> f;
    void                  run() noexcept override
    {
      auto g = std::move(f);
      delete this;
      g();
    }
  };
  static void post(int c, std::function<void()> f)
  {
    if (c == 0)
      return f();
    auto* l = new Later;
    l->f    = std::move(f);
    W->ctx[c - 1].push(l);
  }

  // ---- probes -------------------------------------------------------------------
  template <class T>
  struct ProbeItem : IItem<T>
  {
    int      n, i;
    ItemP<T> in;
    ProbeItem(int nn, int ii, ItemP<T> p) : n(nn), i(ii), in(std::move(p)) {}
    struct Op : IOp, IItemRcv<T>
    {
      int          n, i;
      IItemRcv<T>* up;
      OpP          op;
      Op(ProbeItem& s, IItemRcv<T>* u) : n(s.n), i(s.i), up(u)
      {
        try
        {
          op = s.in->connect(this);
        }
        catch (...)
        {
          ev("icx", n, i);
          throw;
        }
      }
      void start() noexcept override
      {
        ev("is", n, i);
        op->start();
      }
      void done(int ch, T* v, Err* e, Eptr* x) noexcept override
      {
        ev("ic", n, i, res(ch, v, e, x));
        up->done(ch, v, e, x);
      }
      Tok tok() const noexcept override
      {
        return up->tok();
      }
    };
    OpP connect(IItemRcv<T>* up) override
    {
      return OpP(new Op(*this, up));
    }
  };
  struct ProbeNext : INext
  {
    int   n, i;
    NextP in;
    ProbeNext(int nn, int ii, NextP p) : n(nn), i(ii), in(std::move(p)) {}
    struct Op : IOp, INextRcv
    {
      int       n, i;
      INextRcv* up;
      OpP       op;
      Op(ProbeNext& s, INextRcv* u) : n(s.n), i(s.i), up(u)
      {
        try
        {
          op = s.in->connect(this);
        }
        catch (...)
        {
          ev("ncx", n, i);
          throw;
        }
      }
      void start() noexcept override
      {
        ev("ns", n, i);
        op->start();
      }
      void done(bool st) noexcept override
      {
        ev("nd", n, i, C(st ? CS : CV));
        up->done(st);
      }
      Tok tok() const noexcept override
      {
        return up->tok();
      }
    };
    OpP connect(INextRcv* up) override
    {
      return OpP(new Op(*this, up));
    }
  };
  template <class T>
  struct ProbeSeq : ISeq<T>
  {
    int                      n;
    std::unique_ptr<ISeq<T>> in;
    ProbeSeq(int nn, std::unique_ptr<ISeq<T>> p) : n(nn), in(std::move(p)) {}
    struct Op : IOp, ISeqRcv<T>
    {
      int              n;
      std::atomic<int> cnt{0};
      ISeqRcv<T>*      up;
      OpP              op;
      Op(ProbeSeq& s, ISeqRcv<T>* u) : n(s.n), up(u)
      {
        ev("sub", n);
        try
        {
          op = s.in->subscribe(this);
        }
        catch (...)
        {
          ev("subx", n);
          throw;
        }
      }
      void start() noexcept override
      {
        ev("sta", n);
        op->start();
      }
      NextP set_next(ItemP<T> item) override
      {
        int i = cnt.fetch_add(1) + 1;
        ev("nx", n, i);
        try
        {
          return NextP(new ProbeNext(n, i, up->set_next(ItemP<T>(new ProbeItem<T>(n, i, std::move(item))))));
        }
        catch (...)
        {
          ev("nxx", n, i);
          throw;
        }
      }
      void done(int ch, Err* e, Eptr* x) noexcept override
      {
        ev("cmp", n, 0, C(ch) + ",\"v\":" + codes(ch, e, x));
        int nn = n;
        up->done(ch, e, x);
        ev("ced", nn);
      }
      Tok tok() const noexcept override
      {
        return up->tok();
      }
    };
    OpP subscribe(ISeqRcv<T>* up) override
    {
      return OpP(new Op(*this, up));
    }
  };

  // ---- sources ------------------------------------------------------------------
  template <class T>
  static T make_value(int n, int i)
  {
    if constexpr (std::is_same_v<T, Val>)
      {
      return Val{n * 100 + i};
    }
    else
      return Seq<Val>{build(W->nodes[n].ch[i - 1])};
  }
  template <class T>
  struct LeafItem : IItem<T>
  {
    int n, i;
    LeafItem(int nn, int ii) : n(nn), i(ii) {}
    struct Op : IOp
    {
      struct Cb
      {
        Op*  o;
        void operator()() noexcept
        {
          o->arrive();
        }
      };
      int                                          n, i;
      IItemRcv<T>*                                 up;
      std::atomic<int>                             left{2};
      std::optional<ex::inplace_stop_callback<Cb>> cb;
      Op(int nn, int ii, IItemRcv<T>* u) : n(nn), i(ii), up(u) {}
      void arrive() noexcept
      {
        if (left.fetch_sub(1) == 1)
        {
          cb.reset();
          up->done(CS, nullptr, nullptr, nullptr);
        }
      }
      void complete() noexcept
      {
        auto& b = W->nodes[n].items[i - 1];
        switch (b.h)
        {
        case CV:
        {
          T v = make_value<T>(n, i);
          up->done(CV, &v, nullptr, nullptr);
          break;
        }
        case CE:
        {
          Err e(500 + n * 10 + i);
          up->done(CE, nullptr, &e, nullptr);
          break;
        }
        case CX:
        {
          Eptr x = std::make_exception_ptr(Ex{6000 + n * 10 + i});
          up->done(CX, nullptr, nullptr, &x);
          break;
        }
        default: up->done(CS, nullptr, nullptr, nullptr);
        }
      }
      void start() noexcept override
      {
        int when = W->nodes[n].items[i - 1].when;
        if (when == 9)
        {
          cb.emplace(up->tok(), Cb{this});
          arrive();
        }
        else
          post(when, [this] { complete(); });
      }
    };
    OpP connect(IItemRcv<T>* up) override
    {
      if (W->nodes[n].items[i - 1].cx)
        throw Ex{3000 + n * 10 + i};
      return OpP(new Op(n, i, up));
    }
  };

  // m: 1 drops the operation of an item's next sender when that completes, 2 looks at its
  // stop token before every item, 4 completes stopped after a break, 8 throws in subscribe,
  // 16 pumps on a context
  template <class T>
  struct SrcSeq : ISeq<T>
  {
    int n;
    explicit SrcSeq(int nn) : n(nn) {}
    struct Op;
    struct Slot : INextRcv
    {
      Op* o = nullptr;
      OpP op;
      void done(bool st) noexcept override
      {
        OpP gone;
        Op* oo = o;
        if (W->nodes[oo->n].m & 1)
          gone = std::move(op);
        gone.reset();
        oo->item_done(st);
      }
      Tok tok() const noexcept override
      {
        return o->up->tok();
      }
    };
    struct Op : IOp
    {
      int               n;
      ISeqRcv<T>*       up;
      std::mutex        mu;
      int               next = 0, inflight = 0;
      bool              pumping = false, broke = false, stopped = false;
      Eptr              x;
      std::vector<Slot> slots;
      Op(int nn, ISeqRcv<T>* u) : n(nn), up(u), slots(W->nodes[nn].p) {}
      void start() noexcept override
      {
        if (W->nodes[n].m & 16)
          post(1 + n % 3, [this] { pump(); });
        else
          pump();
      }
      void item_done(bool st) noexcept
      {
        pump(1, st);
      }
      bool launch(int i) noexcept
      {
        Slot& s = slots[i - 1];
        s.o     = this;
        if (W->nodes[n].m & 2)
        {
          // the answer is logged together with the asking: the request may come in between
          ev("look", n);
          bool seen = up->tok().stop_requested();
          ev("saw", n, 0, N("y", seen));
          if (seen)
          {
            std::unique_lock lk(mu);
            stopped = true;
            --inflight;
            return false;
          }
        }
        try
        {
          NextP nx = up->set_next(ItemP<T>(new LeafItem<T>(n, i)));
          s.op     = nx->connect(&s);
        }
        catch (...)
        {
          std::unique_lock lk(mu);
          if (!x)
            x = std::current_exception();
          --inflight;
          return false;
        }
        s.op->start();
        return true;
      }
      void pump(int fewer = 0, bool st = false) noexcept
      {
        Node& nd = W->nodes[n];
        {
          std::unique_lock lk(mu);
          inflight -= fewer;
          broke |= st;
          if (pumping)
            return;
          pumping = true;
          for (;;)
          {
            if (next < nd.p && inflight < nd.q && !broke && !stopped && !x)
            {
              int i = ++next;
              ++inflight;
              lk.unlock();
              launch(i);
              lk.lock();
            }
            else if (inflight == 0)
              break;
            else
            {
              pumping = false;
              return;
            }
          }
        }
        // everything is over
        if (x)
        {
          Eptr y = x;
          up->done(CX, nullptr, &y);
        }
        else if (stopped || (broke && (nd.m & 4)))
          up->done(CS, nullptr, nullptr);
        else if (broke || nd.r == CV)
          up->done(CV, nullptr, nullptr);
        else if (nd.r == CE)
        {
          Err e(700 + n);
          up->done(CE, &e, nullptr);
        }
        else if (nd.r == CX)
        {
          Eptr y = std::make_exception_ptr(Ex{800 + n});
          up->done(CX, nullptr, &y);
        }
        else
          up->done(CS, nullptr, nullptr);
      }
    };
    OpP subscribe(ISeqRcv<T>* up) override
    {
      if (W->nodes[n].m & 8)
        throw Ex{900 + n};
      return OpP(new Op(n, up));
    }
  };

  static std::vector<Val> g_vals[16];
  static SeqP             make(int n)
  {
    Node& x = W->nodes[n];
    if (x.k == "src")
      return SeqP(new SrcSeq<Val>(n));
    if (x.k == "one")
      return hold<Val>(x.sh, Item<Val>{ItemP<Val>(new LeafItem<Val>(n, 1))});
    if (x.k == "iter")
    {
      g_vals[n].clear();
      for (int i = 1; i <= x.p; ++i)
        g_vals[n].push_back(make_value<Val>(n, i));
      return hold<Val>(x.sh, exec::iterate(std::span<Val>(g_vals[n])));
    }
    if (x.k == "empty")
      return hold<Val>(x.sh, exec::empty_sequence());
    if (x.k == "te")
      return make_te(n);
    if (x.k == "any")
      return make_any(n);
    if (x.k == "mrg")
      return make_mrg(n);
    return make_me(n);
  }
  SeqP build(int n)
  {
    return SeqP(new ProbeSeq<Val>(n, make(n)));
  }
  SeqSP build_o(int n)
  {
    return SeqSP(new ProbeSeq<Seq<Val>>(n, SeqSP(new SrcSeq<Seq<Val>>(n))));
  }

  // ---- consumers ----------------------------------------------------------------
  struct Stopper
  {
    ex::inplace_stop_source s;
  };
  static Stopper* g_stop;
  static bool     g_iav, g_drop;
  static Tok      root_tok()
  {
    return g_stop ? g_stop->s.get_token() : Tok{};
  }
  static void finished()
  {
    if (g_drop)
    {
      delete g_stop;  // the receiver's environment is gone once it has been completed
      g_stop = nullptr;
    }
    W->ctx[0].close();
  }
  // 0 next completes as the item did, 1 breaks after the item, 2 skips the item, 3 set_next throws,
  // 4 connecting the next sender throws, 5 as 0 but later, 6 goes on in any case, 7 as 0, dropping
  // the item's operation first
  struct SinkNext : INext
  {
    ItemP<Val> item;
    int        i, b;
    struct Op : IOp, IItemRcv<Val>
    {
      int       b;
      INextRcv* up;
      OpP       op;
      Op(SinkNext& s, INextRcv* u) : b(s.b), up(u)
      {
        if (b == 4)
          throw Ex{5500 + s.i};
        if (b != 2)
          op = s.item->connect(this);
      }
      void start() noexcept override
      {
        if (b == 2)
          up->done(false);
        else
          op->start();
      }
      void done(int ch, Val*, Err*, Eptr*) noexcept override
      {
        bool st = b == 6 ? false : b == 1 || ch != CV;
        if (b == 5)
          return post(1 + W->where, [this, st] { up->done(st); });
        if (b == 7)
        {
          OpP gone = std::move(op);
          gone.reset();
        }
        up->done(st);
      }
      Tok tok() const noexcept override
      {
        return up->tok();
      }
    };
    SinkNext(ItemP<Val> p, int ii, int bb) : item(std::move(p)), i(ii), b(bb) {}
    OpP connect(INextRcv* up) override
    {
      return OpP(new Op(*this, up));
    }
  };
  struct Sink : ISeqRcv<Val>
  {
    std::atomic<int> cnt{0};
    NextP            set_next(ItemP<Val> p) override
    {
      int i = cnt.fetch_add(1);
      int b = W->sink[i % W->sink.size()];
      if ((b == 2 || b == 6) && i >= 9)  // iterate hands out an element again which was not delivered
        b = 0;
      if (b == 3)
        throw Ex{5000 + i};
      return NextP(new SinkNext(std::move(p), i, b));
    }
    void done(int, Err*, Eptr*) noexcept override
    {
      finished();
    }
    Tok tok() const noexcept override
    {
      return root_tok();
    }
  };
  template <bool Stop>
  struct FinRcv
  {
    using receiver_concept = ex::receiver_tag;
    void fin(int ch, Err* e, Eptr* x) noexcept
    {
      ev("fin", 1, 0, C(ch) + ",\"v\":" + codes(ch, e, x));
      finished();
    }
    void set_value() noexcept
    {
      fin(CV, nullptr, nullptr);
    }
    template <class E>
    void set_error(E&& e) noexcept
    {
      if constexpr (std::is_same_v<std::decay_t<E>, Err>)
        fin(CE, &e, nullptr);
      else
        fin(CX, nullptr, &e);
    }
    void set_stopped() noexcept
    {
      fin(CS, nullptr, nullptr);
    }
    auto get_env() const noexcept
    {
      if constexpr (Stop)
        return EnvTok{root_tok()};
      else
        return ex::env<>{};
    }
  };
  template <bool Stop>
  struct FinOp : IOp
  {
    using S = decltype(exec::ignore_all_values(std::declval<Seq<Val>>()));
    ex::connect_result_t<S, FinRcv<Stop>> op;
    FinOp() : op(ex::connect(exec::ignore_all_values(Seq<Val>{build(1)}), FinRcv<Stop>{})) {}
    void start() noexcept override
    {
      ex::start(op);
    }
  };

  // ---- executions ---------------------------------------------------------------
  struct Opt
  {
    bool stop = false, pre = false, drop = false, iav = false;
  };
  static void run(World& w, Opt o)
  {
    W         = &w;
    Val::live = 0;
    g_iav     = o.iav;
    g_drop    = o.drop && (o.pre || !o.stop);
    g_stop    = new Stopper;
    for (size_t i = 1; i < w.nodes.size(); ++i)
      for (int c : w.nodes[i].ch)
        w.nodes[c].up = (int) i;
    {
      std::string s = "{\"nodes\":[";
      for (size_t i = 1; i < w.nodes.size(); ++i)
      {
        Node& x = w.nodes[i];
        s += (i > 1 ? "," : "") + std::string("{\"k\":\"") + x.k + "\",\"ch\":[";
        for (size_t k = 0; k < x.ch.size(); ++k)
          s += (k ? "," : "") + std::to_string(x.ch[k]);
        s += "]," + N("p", x.p) + "," + N("q", x.q) + "," + N("r", x.r) + "," + N("m", x.m) + "," + N("sh", x.sh) + "," + N("up", x.up) + ",\"it\":[";
        for (size_t k = 0; k < x.items.size(); ++k)
          s += (k ? "," : "") + std::string("{\"c\":\"") + chname(x.items[k].h) + "\"," + N("w", x.items[k].when) + "," + N("cx", x.items[k].cx) + "}";
        s += "]}";
      }
      s += "]," + N("stop", o.stop) + "," + N("pre", o.pre) + "," + N("iav", o.iav) + ",\"sink\":[";
      for (size_t k = 0; k < w.sink.size(); ++k)
        s += (k ? "," : "") + std::to_string(w.sink[k]);
      vs::cfg(s + "]}");
    }
    std::thread th[3];
    th[1] = std::thread([&w] { w.ctx[1].drive(); });
    th[2] = std::thread([&w] { w.ctx[2].drive(); });
    auto req = [&] {
      ev("stopb", 1);
      g_stop->s.request_stop();
      ev("stope", 1);
    };
    {
      Sink sink;
      OpP  op;
      if (o.pre)
        req();
      bool threw = false;
      try
      {
        if (o.iav)
        {
          if (w.nodes[1].sh)
            op.reset(new FinOp<false>);
          else
            op.reset(new FinOp<true>);
        }
        else
        {
          SeqP s = build(1);
          op     = s->subscribe(&sink);
        }
      }
      catch (...)
      {
        threw = true;
      }
      if (!threw)
      {
        if (o.stop && !o.pre)
          th[0] = std::thread(req);
        op->start();
        w.ctx[0].drive();
      }
      w.ctx[1].close();
      w.ctx[2].close();
      for (auto& t : th)
        if (t.joinable())
          t.join();
      op.reset();
      delete g_stop;
      g_stop = nullptr;
      for (auto& v : g_vals)
        v.clear();
    }
    vs::ev_raw("end", ("\"live\":" + std::to_string(Val::live)).c_str());
    W = nullptr;
  }

  static int add(World& w, std::string k)
  {
    Node x;
    x.k = std::move(k);
    w.nodes.push_back(std::move(x));
    return (int) w.nodes.size() - 1;
  }
  static int R(int n)
  {
    return vs::choose(n);
  }
  static ItemB gen_item(bool lazy_ok)
  {
    ItemB b;
    int   h = R(10);
    b.h     = h < 6 ? CV : h == 6 ? CE : h == 7 ? CX : CS;
    b.when  = R(3) ? R(4) : 0;
    if (lazy_ok && R(12) == 0)
      b.cx = true;
    return b;
  }
  static void gen_src(World& w, int n, int maxp)
  {
    Node& x = w.nodes[n];
    x.p     = R(maxp + 1);
    x.q     = 1 + R(2);
    int r   = R(8);
    x.r     = r < 5 ? CV : r == 5 ? CE : r == 6 ? CX : CS;
    x.m     = R(8) | (R(3) == 0 ? 16 : 0) | (R(16) == 0 ? 8 : 0);
    for (int i = 0; i < x.p; ++i)
      x.items.push_back(gen_item(true));
  }
  static int gen(World& w, int depth, bool sh);
  static int gen_me(World& w, int depth)
  {
    int n = add(w, "me");
    int o = add(w, "osrc");
    w.nodes[n].ch.push_back(o);
    gen_src(w, o, 3);
    for (int i = 0; i < w.nodes[o].p; ++i)
    {
      int c = gen(w, depth - 1, false);
      w.nodes[o].ch.push_back(c);
    }
    return n;
  }
  static int gen(World& w, int depth, bool sh)
  {
    int n;
    int k = depth > 0 && w.nodes.size() < 9 ? R(8) : 0;
    if (k == 0 || k == 1)
    {
      int l = R(8);
      if (l < 5)
      {
        n = add(w, "src");
        gen_src(w, n, 3);
      }
      else if (l == 5)
      {
        n             = add(w, "iter");
        w.nodes[n].p = R(4);
      }
      else if (l == 6)
      {
        n             = add(w, "one");
        w.nodes[n].p = 1;
        w.nodes[n].items.push_back(gen_item(true));
      }
      else
        n = add(w, "empty");
    }
    else if (k == 2 || k == 3)
    {
      n = add(w, "te");
      w.nodes[n].q = R(3) ? 0 : 1 + R(3);
      w.nodes[n].r = R(4) ? 0 : 1 + R(3);
      int c        = gen(w, depth - 1, false);
      w.nodes[n].ch.push_back(c);
    }
    else if (k == 4)
    {
      n     = add(w, "any");
      int c = gen(w, depth - 1, false);
      w.nodes[n].ch.push_back(c);
    }
    else if (k == 5)
    {
      n     = add(w, "mrg");
      int m = 2 + R(2);
      for (int i = 0; i < m; ++i)
      {
        int c = gen(w, depth - 1, false);
        w.nodes[n].ch.push_back(c);
      }
    }
    else
      n = gen_me(w, depth);
    w.nodes[n].sh = w.nodes[n].k == "any" || (w.nodes[n].k != "src" && (sh || R(6) == 0));
    return n;
  }
  static void gen_sink(World& w)
  {
    int n = 1 + R(3);
    for (int i = 0; i < n; ++i)
    {
      int b = R(14);
      w.sink.push_back(b < 8 ? b : (b & 1) ? 0 : 6);
    }
    w.where = R(3);
  }
  static void init(World& w)
  {
    w.nodes.resize(1);
  }
  static void go(World& w)
  {
    gen_sink(w);
    Opt o;
    o.stop = R(2);
    o.pre  = o.stop && R(3) == 0;
    o.drop = R(2);
    o.iav  = R(3) == 0;
    run(w, o);
  }
}  // namespace q

VS_SCENARIO(mixed)
{
  q::World w;
  q::init(w);
  q::gen(w, 2, false);
  q::go(w);
}
VS_SCENARIO(merges)
{
  q::World w;
  q::init(w);
  int n = q::R(2) ? q::gen_me(w, 1) : q::add(w, "mrg");
  if (w.nodes[n].k == "mrg")
    for (int i = 0; i < 2; ++i)
    {
      int c = q::gen(w, 1, false);
      w.nodes[n].ch.push_back(c);
    }
  w.nodes[n].sh = q::R(3) == 0;
  q::go(w);
}
// one of the merged sequences fails and the other one goes on until it is asked to stop
VS_SCENARIO(fails)
{
  q::World w;
  q::init(w);
  bool me = q::R(2);
  int  n  = q::add(w, me ? "me" : "mrg");
  int  o  = n;
  if (me)
  {
    o = q::add(w, "osrc");
    w.nodes[n].ch.push_back(o);
    w.nodes[o].p = w.nodes[o].q = 2;
    w.nodes[o].m                = q::R(2) | (q::R(2) ? 16 : 0);
    w.nodes[o].items.resize(2);
    w.nodes[o].items[0].when = q::R(4);
    w.nodes[o].items[1].when = q::R(4);
  }
  int bad = q::R(2);
  for (int i = 0; i < 2; ++i)
  {
    int c = q::add(w, "src");
    w.nodes[o].ch.push_back(c);
    q::Node& x = w.nodes[c];
    x.p        = 2;
    x.q        = 1 + q::R(2);
    x.m        = q::R(2) | (q::R(2) ? 16 : 0);
    x.items.resize(2);
    x.items[0].when = q::R(4);
    x.items[1].when = q::R(4);
    if (i != bad)
      x.items[q::R(2)].when = 9;
    else if (me && q::R(2))
      x.items[q::R(2)].h = q::R(2) ? d::CE : d::CX;
    else
      x.r = q::R(2) ? d::CE : d::CX;
  }
  w.nodes[n].sh = q::R(2);
  w.sink        = {q::R(2) ? 0 : 7};
  q::Opt op;
  op.iav  = q::R(2);
  op.stop = q::R(3) == 0;
  q::run(w, op);
}
