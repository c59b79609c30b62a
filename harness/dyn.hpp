// Dynamically typed sender trees: every node of an expression tree is a real
// library sender/adaptor wrapped in a probe which reports what happens at the
// node's boundary (connect, start, completion, destruction).
#pragma once
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <functional>
#include <initializer_list>
#include <map>
#include <optional>
#include <string>
#include <thread>
#include <tuple>
#include <variant>
#include <vector>

namespace d
{
  namespace ex = stdexec;
  using vs::F;

  inline void badval(char const * what) VS_NOSAN;
  inline void badval(char const * what)
  {
    vs::ev("badval", F("what", what));
  }

  // A value: a short sequence of integers whose lifetime is checked.
  struct Val
  {
    static constexpr int      CAP   = 12;
    static constexpr unsigned ALIVE = 0x600dda7a, DEAD = 0xdeaddead;
    unsigned                  magic = ALIVE;
    int                       n     = 0;  // -1: moved from
    int                       a[CAP]{};
    static inline long        live = 0;  // reset per execution
    VS_NOSAN Val() { ++live; }
    VS_NOSAN Val(std::initializer_list<int> l)
    {
      ++live;
      for (int x: l)
        push(x);
    }
    VS_NOSAN Val(Val const & o)
    {
      ++live;
      o.check();
      cp(o);
    }
    VS_NOSAN Val(Val&& o) noexcept
    {
      ++live;
      o.check();
      cp(o);
      o.n = -1;
    }
    VS_NOSAN Val& operator=(Val const & o)
    {
      check();
      o.check();
      cp(o);
      return *this;
    }
    VS_NOSAN Val& operator=(Val&& o) noexcept
    {
      check();
      o.check();
      cp(o);
      if (this != &o)
        o.n = -1;
      return *this;
    }
    VS_NOSAN ~Val()
    {
      check();
      --live;
      magic = DEAD;
      n     = -2;
    }
    VS_NOSAN void check() const
    {
      if (magic != ALIVE)
        badval("dead");
    }
    VS_NOSAN void cp(Val const & o)
    {
      n = o.n;
      for (int i = 0; i < CAP; ++i)
        a[i] = o.a[i];
    }
    VS_NOSAN void push(int x)
    {
      if (n < 0)
        return;
      if (n == CAP)
      {
        for (int i = 1; i < CAP; ++i)
          a[i - 1] = a[i];
        n = CAP - 1;
      }
      a[n++] = x;
    }
    VS_NOSAN void cat(Val const & o)
    {
      o.check();
      if (o.n < 0)
      {
        n = -1;
        return;
      }
      for (int i = 0; i < o.n; ++i)
        push(o.a[i]);
    }
    VS_NOSAN std::string str() const
    {
      check();
      if (n < 0)
        return n == -1 ? "[-99]" : "[-98]";
      std::string s = "[";
      for (int i = 0; i < n; ++i)
      {
        if (i)
          s += ",";
        s += std::to_string(a[i]);
      }
      return s + "]";
    }
    bool operator==(Val const & o) const
    {
      return n == o.n && std::equal(a, a + (n > 0 ? n : 0), o.a);
    }
  };
  struct Err
  {
    unsigned magic = Val::ALIVE;
    int      code  = 0;
    VS_NOSAN explicit Err(int c) : code(c) { ++Val::live; }
    VS_NOSAN Err(Err const & o) : code(o.get()) { ++Val::live; }
    VS_NOSAN Err(Err&& o) noexcept : code(o.get())
    {
      ++Val::live;
      o.code = -99;
    }
    VS_NOSAN Err& operator=(Err const & o)
    {
      code = o.get();
      return *this;
    }
    VS_NOSAN Err& operator=(Err&& o) noexcept
    {
      code = o.get();
      if (&o != this)
        o.code = -99;
      return *this;
    }
    VS_NOSAN ~Err()
    {
      get();
      --Val::live;
      magic = Val::DEAD;
      code  = -98;
    }
    VS_NOSAN int get() const
    {
      if (magic != Val::ALIVE)
        badval("deaderr");
      return code;
    }
  };
  struct Ex
  {
    int code;
  };
  inline int eptr_code(std::exception_ptr const & p)
  {
    if (!p)
      return -97;
    try
    {
      std::rethrow_exception(p);
    }
    catch (Ex const & e)
    {
      return e.code;
    }
    catch (Err const & e)
    {
      return e.get() + 50000;
    }
    catch (std::bad_alloc const &)
    {
      return -5;
    }
    catch (...)
    {
      return -96;
    }
  }

  enum Ch
  {
    CV,
    CE,
    CX,
    CS
  };
  inline char const * chname(int c)
  {
    static char const * n[] = {"v", "e", "x", "s"};
    return n[c];
  }

  // ---- custom queries ---------------------------------------------------------
  struct tag0_t : ex::forwarding_query_t
  {
    static constexpr auto query(ex::forwarding_query_t) noexcept
    {
      return true;
    }
    template <class Env>
      requires requires(Env const & e, tag0_t t) { e.query(t); }
    int operator()(Env const & e) const noexcept
    {
      return e.query(*this);
    }
  };
  struct tag1_t : ex::forwarding_query_t
  {
    static constexpr auto query(ex::forwarding_query_t) noexcept
    {
      return true;
    }
    template <class Env>
      requires requires(Env const & e, tag1_t t) { e.query(t); }
    int operator()(Env const & e) const noexcept
    {
      return e.query(*this);
    }
  };
  inline constexpr tag0_t tag0{};
  inline constexpr tag1_t tag1{};

  // ---- contexts ---------------------------------------------------------------
  struct Task
  {
    Task*    next = nullptr;
    vs::Flag f;
    virtual void run() noexcept = 0;
  };
  struct Ctx
  {
    Task *    head = nullptr, *tail = nullptr;
    bool      closed = false;
    vs::Flag* sleeper = nullptr;
    VS_NOSAN void wake()
    {
      if (auto* s = sleeper)
      {
        sleeper = nullptr;
        s->set();
      }
    }
    VS_NOSAN void push(Task* t)
    {
      t->next = nullptr;
      if (tail)
        tail->next = t;
      else
        head = t;
      tail    = t;
      auto* s = sleeper;
      sleeper = nullptr;
      t->f.set();
      if (s)
        s->set();
    }
    VS_NOSAN void close()
    {
      closed = true;
      wake();
    }
    VS_NOSAN void drive()
    {
      for (;;)
      {
        if (head)
        {
          Task* t = head;
          head    = t->next;
          if (!head)
            tail = nullptr;
          t->f.wait();
          t->run();
          continue;
        }
        if (closed)
          return;
        vs::Flag f;
        sleeper = &f;
        f.wait();
      }
    }
  };

  struct World;
  extern World* W;  // the world of the running execution

  // ---- schedulers -------------------------------------------------------------
  // beh: 0 stop-aware, 1 completes with an error, 2 ignores stop requests
  template <int K>
  struct SchedT;
  using Sched  = SchedT<0>;  // value, error, stopped
  using SchedN = SchedT<1>;  // value only
  using SchedX = SchedT<2>;  // value, exception_ptr, stopped

  void sched_started(int n, int r, int c);
  void sched_done(int n, int r, int c, int ch, int code);
  Ctx& ctx(int c);

  template <int K>
  struct SchedT
  {
    using scheduler_concept = ex::scheduler_tag;
    int c   = 0;
    int n   = 0;  // the node on whose behalf this is
    int r   = 0;  // 0: the node's own parameter, 1: taken from the environment
    int beh = 0;
    bool operator==(SchedT const & o) const noexcept
    {
      return c == o.c;
    }
    struct attrs
    {
      SchedT s;
      auto   query(ex::get_completion_scheduler_t<ex::set_value_t>, auto const &...) const noexcept
      {
        return s;
      }
      auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>, auto const &...) const noexcept
        requires(K != 1)
      {
        return s;
      }
    };
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto const &...) const noexcept
    {
      return *this;
    }
    auto query(ex::get_completion_scheduler_t<ex::set_stopped_t>, auto const &...) const noexcept
    {
      return *this;
    }
    template <class R>
    struct Op : Task
    {
      using operation_state_concept = ex::operation_state_tag;
      SchedT s;
      R      r;
      Op(SchedT ss, R rr) : s(ss), r(std::move(rr)) {}
      Op(Op&&) = delete;
      void start() noexcept
      {
        sched_started(s.n, s.r, s.c);
        ctx(s.c).push(this);
      }
      void run() noexcept override
      {
        if constexpr (K != 1)
        {
          if (s.beh == 1)
          {
            sched_done(s.n, s.r, s.c, K == 0 ? CE : CX, 3000 + s.n);
            if constexpr (K == 0)
              ex::set_error(std::move(r), Err(3000 + s.n));
            else
              ex::set_error(std::move(r), std::make_exception_ptr(Ex{3000 + s.n}));
            return;
          }
          if (s.beh == 0 && ex::get_stop_token(ex::get_env(r)).stop_requested())
          {
            sched_done(s.n, s.r, s.c, CS, 0);
            ex::set_stopped(std::move(r));
            return;
          }
        }
        sched_done(s.n, s.r, s.c, CV, 0);
        ex::set_value(std::move(r));
      }
    };
    struct Snd
    {
      using sender_concept = ex::sender_tag;
      SchedT s;
      template <class, class...>
      static consteval auto get_completion_signatures() noexcept
      {
        if constexpr (K == 0)
          return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>{};
        else if constexpr (K == 2)
          return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>{};
        else
          return ex::completion_signatures<ex::set_value_t()>{};
      }
      template <class R>
      auto connect(R r) const
      {
        return Op<R>(s, std::move(r));
      }
      auto get_env() const noexcept
      {
        return attrs{s};
      }
    };
    auto schedule() const noexcept
    {
      return Snd{*this};
    }
  };

  // ---- erased receivers, operations and senders ---------------------------------
  struct IRcv
  {
    virtual void done(int ch, Val* v, int code, std::exception_ptr const & x) noexcept = 0;
    virtual ex::inplace_stop_token tok() const noexcept                      = 0;
    virtual int                    tag(int i) const noexcept                 = 0;
    virtual int                    sched() const noexcept                    = 0;
  };
  struct IOp
  {
    virtual void start() noexcept = 0;
    virtual ~IOp()                = default;
  };
  struct ISnd
  {
    virtual IOp*  connect(IRcv* r, int n, bool rvalue) = 0;
    virtual ISnd* clone() const                        = 0;
    virtual ~ISnd()                                    = default;
  };

  // environment which erased adaptors see (that of the node's probe)
  struct Env
  {
    IRcv* r;
    int   n;
    auto  query(ex::get_stop_token_t) const noexcept
    {
      return r->tok();
    }
    int query(tag0_t) const noexcept
    {
      return r->tag(0);
    }
    int query(tag1_t) const noexcept
    {
      return r->tag(1);
    }
    Sched query(ex::get_scheduler_t) const noexcept
    {
      return Sched{r->sched(), n, 1, 0};
    }
    Sched query(ex::get_start_scheduler_t) const noexcept
    {
      return Sched{r->sched(), n, 1, 0};
    }
    Sched query(ex::get_delegation_scheduler_t) const noexcept
    {
      return Sched{r->sched(), n, 1, 0};
    }
  };

  // ---- flattening of completions -------------------------------------------------
  inline void flat(Val& o, Val const & v)
  {
    o.cat(v);
  }
  inline void flat(Val& o, int v)
  {
    o.push(v);
  }
  inline void flat(Val& o, bool v)
  {
    o.push(v ? 1 : 0);
  }
  template <class... Ts>
  void flat(Val& o, std::tuple<Ts...> const & t);
  template <class... Ts>
  void flat(Val& o, std::variant<Ts...> const & t);
  template <class T>
  void flat(Val& o, std::optional<T> const & t);
  template <class... Ts>
  void flat(Val& o, std::tuple<Ts...> const & t)
  {
    std::apply([&](auto const &... x) { (flat(o, x), ...); }, t);
  }
  template <class... Ts>
  void flat(Val& o, std::variant<Ts...> const & t)
  {
    std::visit([&](auto const & x) { flat(o, x); }, t);
  }
  template <class T>
  void flat(Val& o, std::optional<T> const & t)
  {
    if (t)
      flat(o, *t);
    else
      o.push(-7);
  }
  template <class T>
    requires requires(T const & t) { ex::__apply([](auto const &...) {}, t); } && (!std::is_same_v<T, Val>)
  void flat(Val& o, T const & t)
  {
    ex::__apply([&](auto const &... x) { (flat(o, x), ...); }, t);
  }

  struct Out
  {
    using receiver_concept = ex::receiver_tag;
    IRcv* r;
    int   n;
    template <class... As>
    void set_value(As&&... as) noexcept
    {
      Val* v = new Val;  // on the heap so that stale references to it are noticed
      if constexpr (sizeof...(As) == 1 && (std::is_same_v<std::remove_cvref_t<As>, Val> && ...))
        (void) std::initializer_list<int>{((*v = static_cast<As&&>(as)), 0)...};
      else
        (flat(*v, as), ...);
      r->done(CV, v, 0, nullptr);
    }
    template <class E>
    void set_error(E&& e) noexcept
    {
      using D = std::remove_cvref_t<E>;
      if constexpr (std::is_same_v<D, Err>)
      {
        int c = e.get();
        {
          D taken(static_cast<E&&>(e));
        }
        r->done(CE, nullptr, c, nullptr);
      }
      else if constexpr (std::is_same_v<D, int>)
        r->done(CE, nullptr, e, nullptr);
      else
      {
        std::exception_ptr x(static_cast<E&&>(e));
        r->done(CX, nullptr, eptr_code(x), x);
      }
    }
    void set_stopped() noexcept
    {
      r->done(CS, nullptr, 0, nullptr);
    }
    Env get_env() const noexcept
    {
      return Env{r, n};
    }
  };

  template <class S>
  struct OpImpl : IOp
  {
    ex::connect_result_t<S, Out> op;
    OpImpl(S&& s, IRcv* r, int n) : op(ex::connect(static_cast<S&&>(s), Out{r, n})) {}
    void start() noexcept override
    {
      ex::start(op);
    }
  };
  template <class S>
  struct SndImpl : ISnd
  {
    S s;
    explicit SndImpl(S&& x) : s(std::move(x)) {}
    explicit SndImpl(S const & x) : s(x) {}
    IOp* connect(IRcv* r, int n, bool rv) override
    {
      if (rv)
        return new OpImpl<S>(std::move(s), r, n);
      if constexpr (requires(S& x) { ex::connect(x, Out{r, n}); })
        return new OpImpl<S&>(s, r, n);
      else
      {
        S copy(s);
        return new OpImpl<S>(std::move(copy), r, n);
      }
    }
    ISnd* clone() const override
    {
      return new SndImpl(s);
    }
  };

  // ---- events ------------------------------------------------------------------
  void ev_con(int n);
  void ev_cth(int n);
  void ev_start(int n, bool possible, bool requested, int t0, int t1, int sc);
  void ev_done(int n, int ch, Val const * v, int code, bool requested);
  void ev_ret(int n, int k);
  void ev_des(int n);
  void ev_fn(int n, Val const & v);
  void ev_bulk(int n, int b, int e, Val const & v);
  void ev_loc(int n, int i, int b);       // a local of a coroutine begins / ends
  void ev_exit(int n, int i, bool run);   // an exit action is registered / runs

  template <class R>
  struct DynOp;

  // a node of the tree as a sender
  struct Dyn
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(Val),
                                                            ex::set_error_t(Err),
                                                            ex::set_error_t(std::exception_ptr),
                                                            ex::set_stopped_t()>;
    ISnd* s = nullptr;
    int   n = 0;
    Dyn(ISnd* ss, int nn) : s(ss), n(nn) {}
    Dyn(Dyn const & o) : s(o.s ? o.s->clone() : nullptr), n(o.n) {}
    Dyn(Dyn&& o) noexcept : s(std::exchange(o.s, nullptr)), n(o.n) {}
    Dyn& operator=(Dyn o) noexcept
    {
      std::swap(s, o.s);
      n = o.n;
      return *this;
    }
    ~Dyn()
    {
      delete s;
    }
    template <class R>
    auto connect(R r) &&
    {
      return DynOp<R>(*this, std::move(r), true);
    }
    template <class R>
    auto connect(R r) const &
    {
      return DynOp<R>(const_cast<Dyn&>(*this), std::move(r), false);
    }
  };

  // sends the child's value as two
  struct SplitSnd
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(Val, Val),
                                                            ex::set_error_t(Err),
                                                            ex::set_error_t(std::exception_ptr),
                                                            ex::set_stopped_t()>;
    Dyn d;
    template <class R>
    struct Rc
    {
      using receiver_concept = ex::receiver_tag;
      R    r;
      void set_value(Val&& v) noexcept
      {
        Val a, b;
        for (int i = 0; i < v.n; ++i)
          (i == 0 ? a : b).push(v.a[i]);
        ex::set_value(std::move(r), std::move(a), std::move(b));
      }
      template <class E>
      void set_error(E&& e) noexcept
      {
        ex::set_error(std::move(r), static_cast<E&&>(e));
      }
      void set_stopped() noexcept
      {
        ex::set_stopped(std::move(r));
      }
      decltype(auto) get_env() const noexcept
      {
        return ex::get_env(r);
      }
    };
    template <class R>
    auto connect(R r) &&
    {
      return ex::connect(std::move(d), Rc<R>{std::move(r)});
    }
    template <class R>
    auto connect(R r) const &
    {
      return ex::connect(d, Rc<R>{std::move(r)});
    }
  };

  // A sender which also says where its values complete (for `on(sndr, sched, closure)`)
  struct DynOn : Dyn
  {
    int c;
    DynOn(Dyn x, int cc) : Dyn(std::move(x)), c(cc) {}
    struct attrs
    {
      int  c, n;
      auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto const &...) const noexcept
      {
        return Sched{c, n, 1, 0};
      }
    };
    int  owner = 0;
    auto get_env() const noexcept
    {
      return attrs{c, owner};
    }
  };

  int round_of(int n);
  int env_sched(int n);  // the start scheduler that node n should see

  struct Fwd
  {
    std::shared_ptr<ex::inplace_stop_source> s;
    void                                     operator()() const noexcept
    {
      auto keep = s;  // the operation may be destroyed by what this causes
      keep->request_stop();
    }
  };

  template <class R>
  struct DynOp : IRcv
  {
    using operation_state_concept = ex::operation_state_tag;
    using Tok                     = ex::stop_token_of_t<ex::env_of_t<R>>;
    static constexpr bool inpl    = std::is_same_v<Tok, ex::inplace_stop_token>;
    static constexpr bool never   = ex::unstoppable_token<Tok>;
    struct None
    {};
    using Cb = typename decltype([] {
      if constexpr (inpl || never)
        return std::type_identity<None>{};
      else
        return std::type_identity<ex::stop_callback_for_t<Tok, Fwd>>{};
    }())::type;

    R                                                          r;
    int                                                        n;
    IOp*                                                       op;
    std::conditional_t<inpl || never, None, std::shared_ptr<ex::inplace_stop_source>> src;
    std::optional<Cb>                                          cb;
    std::optional<Val>                                         hv;
    std::optional<Err>                                         he;
    std::exception_ptr                                         hx;

    DynOp(Dyn& d, R rr, bool rv) : r(std::move(rr)), n(d.n), op(nullptr)
    {
      if constexpr (!inpl && !never)
        src = std::make_shared<ex::inplace_stop_source>();  // a token may be taken while connecting
      ev_con(n);
      if (!d.s)
      {
        badval("moved-sender");
        return;
      }
      try
      {
        op = d.s->connect(this, n, rv);
      }
      catch (...)
      {
        ev_cth(n);
        throw;
      }
    }
    DynOp(DynOp&&) = delete;
    ~DynOp()
    {
      ev_des(n);
      delete std::exchange(op, nullptr);
    }
    void start() noexcept
    {
      auto tk = ex::get_stop_token(ex::get_env(r));
      ev_start(n, tk.stop_possible(), tk.stop_requested(), tag(0), tag(1), sched());
      if constexpr (!inpl && !never)
      {
        cb.emplace(tk, Fwd{src});
      }
      op->start();
    }
    void done(int ch, Val* v, int code, std::exception_ptr const & x) noexcept override
    {
      int const me = n, k = round_of(n);
      if constexpr (!inpl && !never)
        cb.reset();
      ev_done(me, ch, v, code, ex::get_stop_token(ex::get_env(r)).stop_requested());
      switch (ch)
      {
      case CV:
      {
        // the results live in the operation state and die with it
        hv.emplace(std::move(*v));
        delete v;
        ex::set_value(std::move(r), std::move(*hv));
        break;
      }
      case CE:
        he.emplace(code);
        ex::set_error(std::move(r), std::move(*he));
        break;
      case CX:
        hx = x;
        ex::set_error(std::move(r), std::move(hx));
        break;
      case CS: ex::set_stopped(std::move(r)); break;
      }
      ev_ret(me, k);
    }
    ex::inplace_stop_token tok() const noexcept override
    {
      if constexpr (inpl)
        return ex::get_stop_token(ex::get_env(r));
      else if constexpr (never)
        return {};
      else
        return ex::get_stop_token(ex::get_env(r)).stop_possible() ? src->get_token() : ex::inplace_stop_token{};
    }
    int tag(int i) const noexcept override
    {
      auto&& e = ex::get_env(r);
      using E  = decltype(e);
      if (i == 0)
      {
        if constexpr (requires(E x) { tag0(x); })
          return tag0(e);
        else
          return -1;
      }
      if constexpr (requires(E x) { tag1(x); })
        return tag1(e);
      else
        return -1;
    }
    int sched() const noexcept override
    {
      auto&& e = ex::get_env(r);
      using E  = decltype(e);
      if constexpr (requires(E x) { ex::get_start_scheduler(x); })
      {
        using S = decltype(ex::get_start_scheduler(e));
        if constexpr (requires(S s) { s.c; })
          return ex::get_start_scheduler(e).c;
        else
          return env_sched(n);  // a type-erased one
      }
      else
        return -1;
    }
  };

  // ---- the tree -------------------------------------------------------------------
  struct Node
  {
    std::string      k;
    std::vector<int> ch;
    int              p = 0, q = 0, r = 0, m = 0;
  };
  using Maker = Dyn (*)(int);
  std::map<std::string, Maker>& makers();
  struct RegKind
  {
    RegKind(char const * k, Maker m)
    {
      makers()[k] = m;
    }
  };
  Dyn build(int n);         // builds node n's subtree
  // f applied to child c of node n, which sends one value or two
  template <class F>
  Dyn with_child(int n, int c, F f);
  Node&       node(int n);
  int         round_of(int n);  // how often node n has been started so far (from 1)
  ex::inplace_stop_token ext_token();

  template <class S>
  Dyn wrap(int n, S&& s)
  {
    return Dyn(new SndImpl<std::decay_t<S>>(static_cast<S&&>(s)), n);
  }

  struct World
  {
    std::vector<Node>        nodes{1};
    std::vector<int>         rounds;
    Ctx                      ctxs[4];
    int                      nctx = 1;
    ex::inplace_stop_source  root, ext;
    bool                     inline_destroy = false;
    bool                     use_stop = false, use_ext = false;
    bool                     pre_stop = false;
    int                      reps = 1;  // how often the root is connected and started
    int                      start_ctx = 0;
    int add(Node x)
    {
      nodes.push_back(std::move(x));
      return (int) nodes.size() - 1;
    }
  };

  template <class F>
  Dyn with_child(int n, int c, F f)
  {
    if (node(n).m == 1)
      return f(SplitSnd{build(c)});
    return f(build(c));
  }
  // generator control
  struct Gen
  {
    std::vector<std::string> inner;   // kinds of inner nodes
    std::vector<std::string> leaves;  // kinds of leaves
    std::vector<std::string> root;    // kinds of the root node (default: inner)
    int                      depth = 2;
    int                      max_nodes = 12;
    int                      nctx = 2;         // besides the main thread's
    int                      stop = 3;         // one in `stop` executions has a stopper (0: never)
    int                      reps = 1;
    bool                     pre = true;       // stop may be requested before start
  };
  void run_tree(Gen const & g);                       // random tree
  void run_world(World& w);                           // w.nodes[1] is the root
  struct Pos
  {
    bool shield = false;  // no stop request reaches this position
    bool root   = false;
    bool lazy   = false;  // connected only after something has been started
    bool let    = false;  // below a let_*'s second sender
    int  rep    = 0;      // below a repeating adaptor: rounds
    bool cache  = false;  // in a branch of a fork_join
  };
  int gen_node(World& w, Gen const & g, int depth, Pos pos);
}  // namespace d

#define DYN_KIND(name)                                                        \
  static ::d::Dyn VS_CAT(mk_, name)(int);                                     \
  static ::d::RegKind VS_CAT(rk_, name)(#name, &VS_CAT(mk_, name));           \
  static ::d::Dyn VS_CAT(mk_, name)(int n)
