// Core of the dynamic sender trees: events, the world, leaves, the generator.
#include "dyn.hpp"
#include <atomic>

namespace d
{
  World* W = nullptr;
  thread_local void const * cur_ref  = nullptr;  // what the enclosing let_* function was given
  thread_local int          cur_kind = 0;

  static std::string num(char const * k, long v)
  {
    return std::string("\"") + k + "\":" + std::to_string(v);
  }
  VS_NOSAN void ev_con(int n)
  {
    vs::ev("con", F("n", n));
  }
  VS_NOSAN void ev_cth(int n)
  {
    vs::ev("cth", F("n", n));
  }
  VS_NOSAN void ev_start(int n, bool possible, bool requested, int t0, int t1, int sc)
  {
    ++W->rounds[n];
    vs::ev_raw("sta",
               (num("n", n) + "," + num("sp", possible) + "," + num("sr", requested) + "," + num("q0", t0) + "," + num("q1", t1) + "," + num("sc", sc)).c_str());
  }
  VS_NOSAN void ev_done(int n, int ch, Val const * v, int code, bool requested)
  {
    std::string s = num("n", n) + ",\"c\":\"" + chname(ch) + "\",\"v\":";
    if (ch == CV)
      s += v->str();
    else if (ch == CS)
      s += "[]";
    else
      s += "[" + std::to_string(code) + "]";
    s += "," + num("sr", requested);
    vs::ev_raw("cmp", s.c_str());
  }
  VS_NOSAN void ev_ret(int n, int k)
  {
    vs::ev("ret", F("n", n), F("k", k));
  }
  VS_NOSAN void ev_des(int n)
  {
    vs::ev("des", F("n", n));
  }
  VS_NOSAN void ev_fn(int n, Val const & v)
  {
    vs::ev_raw("fn", (num("n", n) + ",\"v\":" + v.str()).c_str());
  }
  VS_NOSAN void ev_bulk(int n, int b, int e, Val const & v)
  {
    vs::ev_raw("bk", (num("n", n) + "," + num("b", b) + "," + num("l", e) + ",\"v\":" + v.str()).c_str());
  }
  VS_NOSAN void ev_loc(int n, int i, int b)
  {
    vs::ev("loc", F("n", n), F("i", i), F("b", b));
  }
  VS_NOSAN void ev_exit(int n, int i, bool run)
  {
    vs::ev(run ? "ax" : "xr", F("n", n), F("i", i));
  }
  VS_NOSAN int env_sched(int n)
  {
    for (int p = 1; p < (int) W->nodes.size(); ++p)
    {
      Node const & x = W->nodes[p];
      for (int i = 0; i < (int) x.ch.size(); ++i)
        if (x.ch[i] == n)
        {
          if (x.k == "so" || x.k == "on")
            return x.r;
          if (x.k.compare(0, 5, "etask") == 0)
          {
            int const rr = x.r % 10;  // rescheduled onto (rr - 1) % 3, before the first child or after it
            if ((rr >= 1 && rr <= 3) || (rr >= 4 && i > 0))
              return (rr - 1) % 3;
          }
          return env_sched(p);
        }
    }
    return 0;
  }
  VS_NOSAN void sched_started(int n, int r, int c)
  {
    vs::ev("ss", F("n", n), F("r", r), F("x", c));
  }
  VS_NOSAN void sched_done(int n, int r, int c, int ch, int code)
  {
    vs::ev_raw("sc", (num("n", n) + "," + num("r", r) + "," + num("x", c) + ",\"c\":\"" + chname(ch) + "\",\"v\":" + (ch == CE || ch == CX ? "[" + std::to_string(code) + "]" : "[]")).c_str());
  }
  Ctx& ctx(int c)
  {
    return W->ctxs[c];
  }
  std::map<std::string, Maker>& makers()
  {
    static std::map<std::string, Maker> m;
    return m;
  }
  Node& node(int n)
  {
    return W->nodes[n];
  }
  int round_of(int n)
  {
    return W->rounds[n];
  }
  ex::inplace_stop_token ext_token()
  {
    return W->ext.get_token();
  }
  Dyn build(int n)
  {
    auto it = makers().find(node(n).k);
    if (it == makers().end())
    {
      fprintf(stderr, "unknown node kind %s\n", node(n).k.c_str());
      abort();
    }
    return it->second(n);
  }

  // ------------------------------------------------------------------- leaves --
  DYN_KIND(just)
  {
    return wrap(n, ex::just(Val{n}));
  }
  DYN_KIND(just3)  // several values
  {
    return wrap(n, ex::just(Val{n}, 7, Val{n, n}));
  }
  DYN_KIND(just0)
  {
    return wrap(n, ex::just());
  }
  DYN_KIND(jerr)
  {
    return wrap(n, ex::just_error(Err(500 + n)));
  }
  DYN_KIND(jexc)
  {
    return wrap(n, ex::just_error(std::make_exception_ptr(Ex{600 + n})));
  }
  DYN_KIND(jstop)
  {
    return wrap(n, ex::just_stopped());
  }
  DYN_KIND(sched)
  {
    return wrap(n, ex::schedule(Sched{node(n).p, n, 0, node(n).q}));
  }
  DYN_KIND(rtag)
  {
    if (node(n).p == 0)
      return wrap(n, ex::read_env(tag0));
    return wrap(n, ex::read_env(tag1));
  }
  DYN_KIND(rsched)
  {
    return wrap(n, ex::then(ex::read_env(ex::get_start_scheduler), [](auto s) { return s.c; }));
  }

  // A leaf of our own: p = context on which it completes (-1: inline in start),
  // q = channel, r = 0 plain, 1 stopped if stop was requested by then, 2 completes
  // (with stopped) only when stop is requested; m: value in all rounds but the m-th
  struct LeafSnd
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    int         n;
    void const * ref;
    int          rk;
    template <class R>
    struct Op : Task
    {
      using operation_state_concept = ex::operation_state_tag;
      struct OnStop
      {
        Op*  o;
        void operator()() const noexcept
        {
          Op* op = o;
          if (op->st.exchange(2) == 1)
            op->stopped();
        }
      };
      using Cb = ex::stop_callback_for_t<ex::stop_token_of_t<ex::env_of_t<R>>, OnStop>;
      R                 r;
      int               n;
      void const *      ref;
      int               rk;
      int               chan = CV;
      std::atomic<int>  st{0};
      std::optional<Cb> cb;
      Op(R rr, LeafSnd const & s) : r(std::move(rr)), n(s.n), ref(s.ref), rk(s.rk) {}
      Op(Op&&) = delete;
      void stopped() noexcept
      {
        cb.reset();
        ex::set_stopped(std::move(r));
      }
      void complete() noexcept
      {
        Node& nd = node(n);
        if (nd.r == 1 && ex::get_stop_token(ex::get_env(r)).stop_requested())
        {
          ex::set_stopped(std::move(r));
          return;
        }
        switch (chan)
        {
        case CV:
        {
          Val v;
          if (ref)
          {
            if (rk == 0)
              v.cat(*(Val const *) ref);
            else if (rk == 1)
              v.push(((Err const *) ref)->get());
            else
              v.push(eptr_code(*(std::exception_ptr const *) ref));
          }
          v.push(n);
          ex::set_value(std::move(r), std::move(v));
          break;
        }
        case CE: ex::set_error(std::move(r), Err(500 + n)); break;
        case CX: ex::set_error(std::move(r), std::make_exception_ptr(Ex{600 + n})); break;
        case CS: ex::set_stopped(std::move(r)); break;
        }
      }
      void run() noexcept override
      {
        complete();
      }
      void start() noexcept
      {
        Node& nd = node(n);
        chan     = nd.q;
        if (nd.m > 0 && round_of(n) < nd.m)
          chan = CV;
        if (nd.r == 2)
        {
          auto tk = ex::get_stop_token(ex::get_env(r));
          if (!tk.stop_possible())
          {
            ex::set_stopped(std::move(r));
            return;
          }
          cb.emplace(tk, OnStop{this});
          if (st.exchange(1) == 2)
            stopped();
          return;
        }
        if (nd.p < 0)
          complete();
        else
          ctx(nd.p).push(this);
      }
    };
    template <class R>
    auto connect(R r) const
    {
      return Op<R>(std::move(r), *this);
    }
  };
  DYN_KIND(leaf)
  {
    return wrap(n, LeafSnd{n, nullptr, 0});
  }
  DYN_KIND(ref)
  {
    return wrap(n, LeafSnd{n, cur_ref, cur_kind});
  }
  // connecting it throws
  struct ThrowSnd
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Dyn::completion_signatures;
    int n;
    template <class R>
    LeafSnd::Op<R> connect(R) const
    {
      throw Ex{700 + n};
    }
  };
  DYN_KIND(tcon)
  {
    return wrap(n, ThrowSnd{n});
  }

  // ------------------------------------------------------------------ the root --
  struct RootEnv
  {
    World* w;
    auto   query(ex::get_stop_token_t) const noexcept
    {
      return w->root.get_token();
    }
    int query(tag0_t) const noexcept
    {
      return 100;
    }
    int query(tag1_t) const noexcept
    {
      return 200;
    }
    Sched query(ex::get_scheduler_t) const noexcept
    {
      return Sched{0, 0, 1, 0};
    }
    Sched query(ex::get_start_scheduler_t) const noexcept
    {
      return Sched{0, 0, 1, 0};
    }
    Sched query(ex::get_delegation_scheduler_t) const noexcept
    {
      return Sched{0, 0, 1, 0};
    }
  };
  struct RootR;
  using RootOp = DynOp<RootR>;
  void root_done();
  struct RootR
  {
    using receiver_concept = ex::receiver_tag;
    World* w;
    void   set_value(Val&& v) noexcept
    {
      Val mine(std::move(v));
      root_done();
    }
    void set_error(Err&& e) noexcept
    {
      Err mine(std::move(e));
      root_done();
    }
    void set_error(std::exception_ptr&& e) noexcept
    {
      std::exception_ptr mine(std::move(e));
      root_done();
    }
    void set_stopped() noexcept
    {
      root_done();
    }
    RootEnv get_env() const noexcept
    {
      return {w};
    }
  };
  static h::Box<RootOp>* g_op;
  VS_NOSAN void          root_done()
  {
    World* w = W;
    if (w->inline_destroy)
      g_op->destroy();
    w->ctxs[0].close();
  }

  static std::string node_json(Node const & x)
  {
    std::string s = "{\"k\":\"" + x.k + "\",\"ch\":[";
    for (size_t i = 0; i < x.ch.size(); ++i)
      s += (i ? "," : "") + std::to_string(x.ch[i]);
    s += "]," + num("p", x.p) + "," + num("q", x.q) + "," + num("r", x.r) + "," + num("m", x.m) + "}";
    return s;
  }

  void run_world(World& w)
  {
    W = &w;
    Val::live = 0;
    w.rounds.assign(w.nodes.size(), 0);
    {
      std::string s = "{\"nodes\":[";
      for (size_t i = 1; i < w.nodes.size(); ++i)
        s += (i > 1 ? "," : "") + node_json(w.nodes[i]);
      s += "]," + num("reps", w.reps) + "," + num("stop", w.use_stop) + "," + num("ext", w.use_ext) + "," + num("pre", w.pre_stop) + "}";
      vs::cfg(s);
    }
    std::thread th[6];
    int         nth = 0;
    for (int c = 1; c < w.nctx; ++c)
      th[nth++] = std::thread([&w, c] { w.ctxs[c].drive(); });
    auto req = [&w](int which) {
      vs::ev("stopb", F("w", which));
      (which ? w.ext : w.root).request_stop();
      vs::ev("stope", F("w", which));
    };
    {
      h::Box<RootOp> op;
      g_op          = &op;
      {
        Dyn root = build(1);
        if (w.pre_stop)
        {
          if (w.use_ext)
            req(1);
          if (w.use_stop)
            req(0);
        }
        bool stoppers = !w.pre_stop;
        for (int k = 0; k < w.reps; ++k)
        {
          bool threw = false;
          try
          {
            if (k == w.reps - 1 && vs::choose(2))
              op.make_from([&] { return ex::connect(std::move(root), RootR{&w}); });
            else
              op.make_from([&] { return ex::connect(root, RootR{&w}); });
          }
          catch (...)
          {
            threw = true;
          }
          if (threw)
            continue;
          if (k == w.reps - 1)
            Dyn gone(std::move(root));  // the sender need not outlive connect
          if (stoppers)
          {
            stoppers = false;
            if (w.use_stop)
              th[nth++] = std::thread([&] { req(0); });
            if (w.use_ext)
              th[nth++] = std::thread([&] { req(1); });
          }
          ex::start(op.get());
          w.ctxs[0].drive();
          w.ctxs[0].closed = false;
          if (k < w.reps - 1 && op.live)
            op.destroy();
        }
      }
      for (int c = 1; c < w.nctx; ++c)
        w.ctxs[c].close();
      for (int i = 0; i < nth; ++i)
        th[i].join();
      if (op.live)
        op.destroy();
    }
    vs::ev("end", F("live", Val::live));
    W = nullptr;
  }

  // ----------------------------------------------------------------- generator --
  struct KindInfo
  {
    int  arity;
    bool shield;  // does it cut off the receiver's stop requests?
  };
  static std::map<std::string, KindInfo> const kinds = {
    {"then", {1, false}},  {"ue", {1, false}},    {"us", {1, false}},   {"lv", {2, false}},
    {"le", {2, false}},    {"ls", {2, false}},    {"wa2", {2, false}},  {"wa3", {3, false}},
    {"wav", {2, false}},   {"any2", {2, false}},  {"any3", {3, false}}, {"co", {1, false}},
    {"so", {1, false}},    {"on", {1, false}},    {"on3", {1, false}},  {"iv", {1, false}},
    {"sopt", {1, false}},  {"serr", {1, false}},  {"we", {1, false}},   {"un", {1, true}},
    {"sw", {1, false}},    {"usr", {1, false}},   {"seq2", {2, false}}, {"seq3", {3, false}},
    {"rn", {1, false}},    {"ru", {1, false}},    {"reu", {1, false}},  {"fin", {2, false}},
    {"mat", {1, false}},   {"vsd", {2, false}},   {"it", {1, false}},   {"anys", {1, false}},
    {"stask", {1, false}},  {"stask2", {2, false}}, {"stt", {1, false}}, {"stt2", {2, false}}, {"etask", {1, false}}, {"etask2", {2, false}}, {"awt", {1, false}}, {"awt2", {2, false}},  {"bulk", {1, false}},
    {"aff", {1, false}},   {"resch", {1, false}}, {"coN", {1, false}},  {"twa", {2, false}},
    {"sf", {1, false}},    {"id", {1, false}},    {"thenv", {1, false}}, {"lets", {2, false}},
    {"fj", {3, false}},    {"assoc", {1, false}}, {"split", {1, false}}, {"ens", {1, false}},
    {"stk", {2, false}},   {"rcvref", {1, false}}, {"bulkc", {1, false}}, {"bulku", {1, false}},
    {"spf", {1, false}},   {"nest", {1, false}},  {"psched", {0, false}}, {"starts2", {1, false}},
    {"letn", {2, false}},  {"anyr", {1, false}}, {"fun", {1, false}},
  };

  static std::string pick(std::vector<std::string> const & v)
  {
    return v[vs::choose((int) v.size())];
  }

  int gen_node(World& w, Gen const & g, int depth, Pos pos)
  {
    int         me = w.add({});
    std::string k;
    bool        leaf = depth == 0 || (int) w.nodes.size() > g.max_nodes || (!pos.root && vs::choose(4) == 0);
    if (leaf)
    {
      k = pick(g.leaves);
      // adjust what is not meaningful at this position
      if (k == "ref" && !pos.let)
        k = "leaf";
      if (k == "cache" && !pos.cache)
        k = "just";
      if (k == "tcon" && !pos.lazy)
        k = "jerr";
      Node x;
      x.k = k;
      if (k == "until")  // shorthand
      {
        x.k = "leaf";
        x.r = pos.shield ? 1 : 2;
        x.p = -1;
        if (x.r == 2)
          w.use_stop = true;
        x.q = pos.shield ? 0 : 3;
      }
      else if (k == "leaf" || k == "ref")
      {
        x.p = vs::choose(g.nctx + 2) - 1;  // -1, 0.., nctx
        int c = vs::choose(6);
        x.q   = c < 3 ? CV : c == 3 ? CE : c == 4 ? CS : CX;
        if (k == "ref" && c < 5)
          x.q = CV;
        x.r = vs::choose(3) == 0;
        if (pos.rep)
          x.m = vs::choose(pos.rep + 1);
      }
      else if (k == "sched" || k == "asched")
      {
        x.m = k == "asched" && vs::choose(2);
        x.p = vs::choose(g.nctx + 1);
        x.q = vs::choose(4) == 0 ? 1 : 0;
      }
      else if (k == "awl")
      {
        x.p = vs::choose(g.nctx + 2) - 1;
        int c = vs::choose(6);
        x.q   = c < 3 ? CV : c == 3 ? CS : CX;
        x.r   = vs::choose(3) == 0;
        if (pos.rep)
          x.m = vs::choose(pos.rep + 1);
      }
      else if (k == "rtag")
        x.p = vs::choose(2);
      w.nodes[me] = x;
      return me;
    }
    k = pos.root && !g.root.empty() ? pick(g.root) : pick(g.inner);
    auto ki = kinds.find(k);
    if (ki == kinds.end())
    {
      fprintf(stderr, "generator: unknown kind %s\n", k.c_str());
      abort();
    }
    Node x;
    x.k = k;
    if (k == "then" || k == "ue" || k == "us" || k == "lv" || k == "le" || k == "ls" || k == "on3" || k == "lets" || k == "letn")
      x.p = vs::choose(4) == 0;
    if (k == "co" || k == "so" || k == "on" || k == "on3" || k == "coN" || k == "twa" || k == "sf")
    {
      x.r = vs::choose(g.nctx + 1);
      x.q = k == "coN" ? 0 : (vs::choose(6) == 0 ? 1 : 0);
    }
    if (k == "we")
    {
      x.p = vs::choose(2);
      x.q = 300 + me;
    }
    if (k == "sw")
    {
      w.use_ext = w.use_ext || vs::choose(2);
    }
    if (k == "rn")
      x.p = vs::choose(4);
    if (k == "ru" || k == "reu")
      x.p = 1 + vs::choose(3);
    if (k == "bulk" || k == "bulkc" || k == "bulku")
    {
      x.p = vs::choose(5);
      x.q = vs::choose(4) == 0 ? vs::choose(5) : -1;  // throws at this index
      x.r = vs::choose(4);                                  // execution policy
    }
    if (k == "vsd")
      x.p = vs::choose(2);
    if (k == "anys")
    {
      x.p = vs::choose(6);
      x.r = !pos.shield && vs::choose(3) == 0;
    }
    if (k == "fun")
      x.p = pos.lazy && vs::choose(5) == 0;
    if (k == "anyr")
      x.p = vs::choose(6);
    x.m = vs::choose(4) == 0;
    std::string const b = k.back() == '2' ? k.substr(0, k.size() - 1) : k;
    bool const        task = b == "stask" || b == "stt" || b == "etask" || b == "awt";
    if (task)
    {
      x.p = vs::choose(3) ? 0 : vs::choose(5);
      x.q = vs::choose(3);
      x.r = x.m = 0;
      if (b != "etask")
        x.r = !pos.shield && vs::choose(4) == 0;
      else
      {
        if (vs::choose(2))
          x.r = 1 + vs::choose(ki->second.arity > 1 ? 6 : 3) + (vs::choose(4) == 0 ? 10 : 0);
        if ((x.r % 10 - 1) % 3 > g.nctx)
          x.r = 0;
        x.m = vs::choose(4) + 4 * vs::choose(64);
      }
    }
    std::vector<int> ch;
    for (int i = 0; i < ki->second.arity; ++i)
    {
      Pos q  = pos;
      q.root = false;
      if (ki->second.shield)
        q.shield = true;
      if ((k == "lv" || k == "le" || k == "ls" || k == "lets" || k == "letn") && i == 1)
      {
        q.let = q.lazy = true;
        q.cache        = false;
      }
      if (k == "fj" && i >= 1)
        q.cache = true;
      if ((k == "seq2" || k == "seq3") && i >= 1)
        q.lazy = true;
      if (k == "so" || k == "on")
        q.lazy = true;
      if (k == "fin")
        q.lazy = false;
      if (task)
        q.lazy = true;
      if (k == "rn" || k == "ru" || k == "reu")
        q.rep = 3;
      ch.push_back(gen_node(w, g, depth - 1, q));
    }
    x.ch        = ch;
    w.nodes[me] = x;
    return me;
  }

  void run_tree(Gen const & g)
  {
    vs::opt_leakcheck(true);
    World w;
    w.nctx = 1 + g.nctx;
    gen_node(w, g, g.depth, Pos{.root = true});
    w.inline_destroy = vs::choose(2);
    w.reps           = g.reps > 1 ? 1 + vs::choose(g.reps) : 1;
    if (g.stop > 0 && vs::choose(g.stop) == 0)
      w.use_stop = true;
    if (g.pre && (w.use_stop || w.use_ext) && vs::choose(6) == 0)
      w.pre_stop = true;
    run_world(w);
  }
}  // namespace d
