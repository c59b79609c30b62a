// P29: allocators and memory resources supplied through environments
#include "h.hpp"
#include <exec/ensure_started.hpp>
#include <exec/function.hpp>
#include <exec/get_frame_allocator.hpp>
#include <exec/split.hpp>
#include <exec/start_detached.hpp>
#include <exec/task.hpp>
#include <stdexec/execution.hpp>
#include <cstring>
#include <map>
#include <memory_resource>
#include <new>
using namespace h;
namespace ex = stdexec;
namespace
{
  struct Ex
  {};
  struct Blk
  {
    int            id, r;
    std::size_t    n, al;
    unsigned char *p, *raw;
    std::size_t    raw_n;
  };
  // the blocks handed out and not taken back
  struct Heap
  {
    std::map<std::uintptr_t, Blk> live;
    int                           next = 1;
    int                           fail = 0;  // the fail-th allocation from now throws
    int                           tick = 0;
  };
  Heap* heap;
  VS_NOSAN int block_of(void const * p)
  {
    auto a  = reinterpret_cast<std::uintptr_t>(p);
    auto it = heap->live.upper_bound(a);
    if (it == heap->live.begin())
      return 0;
    --it;
    return a < it->first + it->second.n ? it->second.id : 0;
  }
  VS_NOSAN Blk const * blk_of(void const * p)
  {
    auto a  = reinterpret_cast<std::uintptr_t>(p);
    auto it = heap->live.upper_bound(a);
    if (it == heap->live.begin())
      return nullptr;
    --it;
    return a < it->first + it->second.n ? &it->second : nullptr;
  }
  VS_NOSAN void* get(int r, std::size_t n, std::size_t al)
  {
    if (heap->fail && ++heap->tick == heap->fail)
    {
      ev("alf", F("r", r));
      throw std::bad_alloc();
    }
    // aligned as asked for, and not more
    std::size_t    raw_n = n + 4 * al + 8;
    auto*          raw   = static_cast<unsigned char*>(std::malloc(raw_n));
    auto           a     = reinterpret_cast<std::uintptr_t>(raw);
    std::uintptr_t p     = (a + 2 * al - 1) / (2 * al) * (2 * al) + al;
    Blk            b{heap->next++, r, n, al, reinterpret_cast<unsigned char*>(p), raw, raw_n};
    heap->live[p] = b;
    ev("alc", F("b", b.id), F("r", r), F("n", (int) n), F("al", (int) al));
    return b.p;
  }
  VS_NOSAN void put(int r, void* p, std::size_t n, std::size_t al)
  {
    auto it = heap->live.find(reinterpret_cast<std::uintptr_t>(p));
    ev("dea", F("b", it == heap->live.end() ? 0 : it->second.id), F("r", r), F("n", (int) n), F("al", (int) al));
    if (it == heap->live.end())
      return;
    auto* raw = it->second.raw;
    heap->live.erase(it);
    std::free(raw);
  }
  struct Res : std::pmr::memory_resource
  {
    int id;
    explicit Res(int i) : id(i) {}
    void* do_allocate(std::size_t n, std::size_t al) override { return get(id, n, al); }
    void  do_deallocate(void* p, std::size_t n, std::size_t al) override { put(id, p, n, al); }
    bool  do_is_equal(std::pmr::memory_resource const & o) const noexcept override { return this == &o; }
  };
  constexpr int NRES = 48;
  Res*          res_tab;
  Res*          res(int i) { return res_tab + i; }
  template <class T>
  struct Alloc
  {
    using value_type = T;
    Res* r;
    Alloc() noexcept : r(res(9)) {}
    explicit Alloc(Res* rr) noexcept : r(rr) {}
    template <class U>
    Alloc(Alloc<U> const & o) noexcept : r(o.r)
    {}
    T*   allocate(std::size_t n) { return static_cast<T*>(get(r->id, n * sizeof(T), alignof(T))); }
    void deallocate(T* p, std::size_t n) { put(r->id, p, n * sizeof(T), alignof(T)); }
    friend bool operator==(Alloc const & a, Alloc const & b) noexcept { return a.r == b.r; }
  };
  using AB  = Alloc<std::byte>;
  using PA  = std::pmr::polymorphic_allocator<std::byte>;
  template <class A>
  int id_of(A const & a)
  {
    return a.r->id;
  }
  int id_of(Res* r)
  {
    return r->id;
  }
  template <class T>
  int id_of(std::pmr::polymorphic_allocator<T> const & a)
  {
    auto* r = dynamic_cast<Res*>(a.resource());
    return r ? r->id : -1;
  }
  // an object that must be in the memory its allocation gave
  void at(int i, void const * p, std::size_t al)
  {
    ev("at", F("i", i), F("b", block_of(p)), F("mis", (int) (reinterpret_cast<std::uintptr_t>(p) % al)));
  }

  // F: what the environment answers: 1 get_allocator, 2 get_frame_allocator with an allocator, 4 with a
  // polymorphic_allocator
  struct RB
  {
    AB                a{res(0)};
    AB                f{res(0)};
    std::pmr::memory_resource* p = nullptr;
    virtual void done(int c) noexcept = 0;
  };
  template <int FX>
  struct Env
  {
    RB* b;
    AB query(ex::get_allocator_t) const noexcept
      requires((FX & 1) != 0)
    {
      return b->a;
    }
    AB query(exec::get_frame_allocator_t) const noexcept
      requires((FX & 2) != 0)
    {
      return b->f;
    }
    Res* query(exec::get_frame_allocator_t) const noexcept
      requires((FX & 8) != 0)
    {
      return static_cast<Res*>(b->p);
    }
    PA query(exec::get_frame_allocator_t) const noexcept
      requires((FX & 4) != 0)
    {
      return PA(b->p);
    }
    ex::inline_scheduler query(ex::get_start_scheduler_t) const noexcept { return {}; }
    ex::inline_scheduler query(ex::get_scheduler_t) const noexcept { return {}; }
  };
  template <int FX>
  struct Rcv
  {
    using receiver_concept = ex::receiver_tag;
    RB*    b;
    void   set_value() noexcept { b->done(0); }
    void   set_error(std::exception_ptr) noexcept { b->done(1); }
    void   set_stopped() noexcept { b->done(2); }
    Env<FX> get_env() const noexcept { return {b}; }
  };
  struct OpB
  {
    virtual ~OpB()        = default;
    virtual void start() noexcept = 0;
  };
  template <int FX>
  struct SB
  {
    virtual ~SB()                         = default;
    virtual std::unique_ptr<OpB> con(RB*) = 0;
  };
  template <int FX, class S>
  struct SI : SB<FX>
  {
    S s;
    explicit SI(S&& x) : s(std::move(x)) {}
    struct O : OpB
    {
      ex::connect_result_t<S, Rcv<FX>> op;
      O(S&& s, RB* b) : op(ex::connect(std::move(s), Rcv<FX>{b})) {}
      void start() noexcept override { ex::start(op); }
    };
    std::unique_ptr<OpB> con(RB* b) override { return std::make_unique<O>(std::move(s), b); }
  };
  template <int FX>
  struct Dyn
  {
    using sender_concept = ex::sender_tag;
    using completion_signatures =
      ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
    int                    i;  // node
    std::unique_ptr<SB<FX>> s;
    template <class S>
    static Dyn make(int i, S s)
    {
      return Dyn{i, std::make_unique<SI<FX, S>>(std::move(s))};
    }
    template <class R>
    struct Op : RB
    {
      using operation_state_concept = ex::operation_state_tag;
      struct At
      {
        int i;
        At(int ii, void* p) : i(ii) { at(i, p, alignof(Op)); }
        At(At&&) = delete;
        ~At() { ev("off", F("i", i)); }
      } where;
      R                    r;
      char                 pad[160];
      std::unique_ptr<OpB> op;
      Op(int i, std::unique_ptr<SB<FX>> s, R rr) : where(i, this)
        , r(std::move(rr))
      {
        auto&& env = ex::get_env(r);
        if constexpr ((FX & 1) != 0)
          this->a = AB(ex::get_allocator(env));
        if constexpr ((FX & 2) != 0)
          this->f = AB(exec::get_frame_allocator(env));
        if constexpr ((FX & 4) != 0)
          this->p = PA(exec::get_frame_allocator(env)).resource();
        if constexpr ((FX & 8) != 0)
          this->p = static_cast<Res*>(exec::get_frame_allocator(env));
        op = s->con(this);
      }
      Op(Op&&) = delete;
      void start() & noexcept { op->start(); }
      void done(int c) noexcept override
      {
        if (c == 0)
          ex::set_value(std::move(r));
        else if (c == 1)
          ex::set_error(std::move(r), std::make_exception_ptr(Ex{}));
        else
          ex::set_stopped(std::move(r));
      }
    };
    template <class R>
    Op<R> connect(R r) &&
    {
      return Op<R>(i, std::move(s), std::move(r));
    }
  };

  struct Layer
  {
    int k = 0;
  };
  enum
  {
    LEAF,
    WA,
    WF,
    WP,
    FN,
    FNQ,
    FNA,
    TASK,
    TASKS,
    THN,
    LET,
    JV,
    NK
  };
  char const * const kname[] = {"leaf", "wa", "wf", "wp", "fn", "fnq", "fna", "task", "tasks", "thn", "let", "jv"};
  struct Later
  {
    virtual void go() noexcept = 0;
  };
  struct Prog
  {
    std::vector<int> k;  // the layers, from the outside; the last is the leaf
    int              ch = 0, later = 0, thr = 0, nreq = 0;
    int              q[2] = {}, sz[2] = {};
    Later*           wait = nullptr;
  };
  Prog* P;

  // a typed request
  template <std::size_t N, std::size_t AL>
  struct alignas(AL) Cell
  {
    unsigned char c[N];
  };
  struct ReqB
  {
    virtual ~ReqB() = default;
  };
  template <class T, class A>
  struct Req : ReqB
  {
    using Tr = typename std::allocator_traits<A>::template rebind_traits<T>;
    typename Tr::allocator_type a;
    int                         h;
    std::size_t                 n;
    T*                          p;
    template <class B>
    Req(B const & aa, int hh, std::size_t nn) : a(aa)
      , h(hh)
      , n(nn)
    {
      p = Tr::allocate(a, n);
      auto* b = blk_of(p);
      ev("got",
         F("h", h),
         F("b", b ? b->id : 0),
         F("off", b ? (int) ((unsigned char*) p - b->p) : 0),
         F("mis", (int) (reinterpret_cast<std::uintptr_t>(p) % alignof(T))));
      std::memset((void*) p, 0x40 + h, n * sizeof(T));
    }
    ~Req()
    {
      bool ok = true;
      for (std::size_t i = 0; i < n * sizeof(T); ++i)
        ok = ok && reinterpret_cast<unsigned char*>(p)[i] == 0x40 + h;
      ev("rel", F("h", h), F("ok", ok ? 1 : 0));
      Tr::deallocate(a, p, n);
      ev("reld", F("h", h));
    }
  };
  template <class A>
  std::unique_ptr<ReqB> request(A const & a, int h, int q, int sz)
  {
    auto go = [&]<class T>(T*, std::size_t n) -> std::unique_ptr<ReqB>
    {
      ev("req", F("h", h), F("q", q), F("n", (int) (n * sizeof(T))));
      return std::make_unique<Req<T, A>>(a, h, n);
    };
    switch (sz)
    {
    case 0: return go((Cell<1, 1>*) nullptr, 1);
    case 1: return go((Cell<24, 8>*) nullptr, 1);
    case 2: return go((Cell<8, 8>*) nullptr, 3);
    case 3: return go((Cell<64, 64>*) nullptr, 1);
    case 4: return go((Cell<1, 1>*) nullptr, 13);
    default: return go((Cell<32, 32>*) nullptr, 2);
    }
  }

  template <class A>
  A as_alloc(A a)
  {
    return a;
  }
  PA as_alloc(Res* r)
  {
    return PA(r);
  }

  template <int FX>
  struct Leaf
  {
    using sender_concept = ex::sender_tag;
    using completion_signatures =
      ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
    int i;
    template <class R>
    struct Op : Later
    {
      using operation_state_concept = ex::operation_state_tag;
      int                   i;
      R                     r;
      std::unique_ptr<ReqB> q[2];
      Op(int ii, R rr) : i(ii), r(std::move(rr))
      {
        if (P->thr)
        {
          ev("lthr");
          throw Ex{};
        }
      }
      void start() & noexcept
      {
        auto&& env = ex::get_env(r);
        int  a = 0, f = 0;
        if constexpr ((FX & 1) != 0)
          a = id_of(ex::get_allocator(env));
        if constexpr ((FX & 14) != 0)
          f = id_of(exec::get_frame_allocator(env));
        ev("strt", F("i", i), F("a", a), F("f", f));
        try
        {
          for (int k = 0; k < P->nreq; ++k)
          {
            if constexpr ((FX & 1) != 0)
              if (P->q[k] == 0)
                q[k] = request(ex::get_allocator(env), k, 0, P->sz[k]);
            if constexpr ((FX & 14) != 0)
              if (P->q[k] == 1)
                q[k] = request(as_alloc(exec::get_frame_allocator(env)), k, 1, P->sz[k]);
          }
        }
        catch (...)
        {
          q[0].reset();
          ev("lc", F("c", 1));
          ex::set_error(std::move(r), std::current_exception());
          return;
        }
        if (P->later)
          P->wait = this;
        else
          go();
      }
      void go() noexcept override
      {
        if (P->later != 2)
        {
          q[0].reset();
          q[1].reset();
        }
        ev("lc", F("c", P->ch));
        if (P->ch == 0)
          ex::set_value(std::move(r));
        else if (P->ch == 1)
          ex::set_error(std::move(r), std::make_exception_ptr(Ex{}));
        else
          ex::set_stopped(std::move(r));
      }
    };
    template <class R>
    Op<R> connect(R r) &&
    {
      return Op<R>(i, std::move(r));
    }
  };

  // a function object which uses an allocator
  struct AFn
  {
    using allocator_type = AB;
    int            i;
    Res*           r = nullptr;
    unsigned char* p = nullptr;
    explicit AFn(int ii) : i(ii) {}
    AFn(AFn&& o) noexcept : i(o.i), r(o.r), p(std::exchange(o.p, nullptr)) {}
    AFn(std::allocator_arg_t, AB a, AFn&& o) : i(o.i), r(a.r)
    {
      p = static_cast<unsigned char*>(get(r->id, 24, 8));
    }
    AFn& operator=(AFn&&) = delete;
    ~AFn()
    {
      if (p)
        put(r->id, p, 24, 8);
    }
    void operator()() noexcept
    {
      ev("use", F("i", i), F("r", r ? r->id : 0), F("b", p ? block_of(p) : 0));
    }
  };

  struct LFn : AFn
  {
    LFn(AFn a) : AFn(std::move(a)) {}
    LFn(LFn&&) = default;
    LFn(std::allocator_arg_t t, AB a, LFn&& o) : AFn(t, a, std::move(o)) {}
    auto operator()() noexcept
    {
      AFn::operator()();
      return ex::just();
    }
  };

  struct TE
  {
    using allocator_type       = AB;
    using start_scheduler_type = ex::inline_scheduler;
  };
  struct TES
  {
    using allocator_type = AB;
  };
  struct Probe
  {
    int i;
    explicit Probe(int ii) : i(ii) { ev("fr", F("i", i), F("b", block_of(this)), F("mis", 0)); }
    Probe(Probe&&) = delete;
    ~Probe() { ev("fro", F("i", i)); }
  };
  template <class T>
  T co(std::allocator_arg_t, AB, int i, Dyn<1> d)
  {
    Probe pr(i);
    co_await std::move(d);
  }

  template <int FX>
  Dyn<FX> build(int i);
  using Sigs = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
  template <class Q, int G>
  auto fun(int i)
  {
    return exec::function<ex::sender_tag(int), Sigs, Q>(std::move(i), [](int j) { return build<G>(j + 1); });
  }
  template <int FX>
  Dyn<FX> build(int i)
  {
    using D = Dyn<FX>;
    switch (P->k[i])
    {
    case WA: return D::make(i, ex::write_env(build<FX | 1>(i + 1), ex::prop(ex::get_allocator, AB(res(10 + i)))));
    case WF:
      return D::make(i, ex::write_env(build<(FX & 1) | 2>(i + 1), ex::prop(exec::get_frame_allocator, AB(res(20 + i)))));
    case WP:
      return D::make(i, ex::write_env(build<(FX & 1) | 8>(i + 1), ex::prop(exec::get_frame_allocator, res(20 + i))));
    case FN: return D::make(i, fun<exec::queries<>, 4>(i));
    case FNQ:
      if constexpr ((FX & 4) != 0)
        return D::make(i, fun<exec::queries<PA(exec::get_frame_allocator_t) noexcept>, 4>(i));
      std::abort();
    case FNA:
      if constexpr ((FX & 1) != 0)
        return D::make(i, fun<exec::queries<AB(ex::get_allocator_t) noexcept>, 5>(i));
      std::abort();
    case TASK: return D::make(i, co<ex::task<void, TE>>(std::allocator_arg, AB(res(30 + i)), i, build<1>(i + 1)));
    case TASKS: return D::make(i, co<ex::task<void, TES>>(std::allocator_arg, AB(res(30 + i)), i, build<1>(i + 1)));
    case THN: return D::make(i, ex::then(build<FX>(i + 1), AFn{i}));
    case LET: return D::make(i, ex::let_value(build<FX>(i + 1), LFn{AFn{i}}));
    case JV:
      return D::make(i,
                     ex::let_value(ex::just(AFn{i}),
                                   [i](AFn&)
                                   {
                                     return build<FX>(i + 1);
                                   }));
    default: return D::make(i, Leaf<FX>{i});
    }
  }
  int step(int F, int k)
  {
    switch (k)
    {
    case WA: return F | 1;
    case WF: return (F & 1) | 2;
    case WP: return (F & 1) | 8;
    case FN: return 4;
    case FNQ: return 4;
    case FNA: return 5;
    case TASK:
    case TASKS: return 1;
    default: return F;
    }
  }

  // a sender with an allocator in its attributes
  template <class D, class Sg = Sigs>
  struct Attr
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Sg;
    D                d;
    template <class R>
    auto connect(R r) &&
    {
      return ex::connect(std::move(d), std::move(r));
    }
    auto get_env() const noexcept { return ex::prop(ex::get_allocator, AB(res(3))); }
  };

  enum
  {
    CONN,
    SPAWN,
    SF,
    DET,
    ES,
    SPLIT,
    NR
  };
  char const * const rname[] = {"conn", "spawn", "sf", "det", "es", "split"};
  template <int FX>
  struct RootB : RB
  {
    RootB()
    {
      this->a = AB(res(1));
      this->f = AB(res(2));
    }
    void done(int c) noexcept override { ev("cmp", F("c", c)); }
  };
  struct End
  {
    using receiver_concept = ex::receiver_tag;
    void set_value() noexcept { ev("cmp", F("c", 0)); }
    template <class E>
    void set_error(E&&) noexcept
    {
      ev("cmp", F("c", 1));
    }
    void set_stopped() noexcept { ev("cmp", F("c", 2)); }
    ex::env<> get_env() const noexcept { return {}; }
  };
  void proceed()
  {
    if (P->wait)
      std::exchange(P->wait, nullptr)->go();
  }
  template <class S>
  void use(S s, bool drop)
  {
    if (drop)
    {
      { S t = std::move(s); }
      ev("drop");
      proceed();
      return;
    }
    auto op = ex::connect(std::move(s), End{});
    ex::start(op);
    proceed();
  }
  // e: 0 no allocator, 1 in the environment, 2 in the sender's attributes, 3 both
  template <int FX, class Fn>
  void with(bool attr, Fn fn)
  {
    if (attr)
      fn(Attr<Dyn<FX | 1>>{build<FX | 1>(0)});
    else
      fn(build<FX>(0));
  }
  inline constexpr auto calm = [](std::exception_ptr) noexcept {};
  template <int FX>
  void root_f(int rk, bool attr, bool drop)
  {
    RootB<FX> b;
    Env<FX>   env{&b};
    if (rk == CONN)
    {
      auto op = ex::connect(build<FX>(0), Rcv<FX>{&b});
      ex::start(op);
      proceed();
      return;
    }
    if constexpr (FX < 2)
    switch (rk)
    {
    case SPAWN:
    {
      ex::counting_scope sc;
      try
      {
        auto go = [&](auto s)
        {
          if constexpr (requires { s.d; })
          {
            auto w = ex::upon_error(std::move(s.d), calm);
            ex::spawn(Attr<decltype(w), ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>>{std::move(w)}, sc.get_token(), env);
          }
          else
            ex::spawn(ex::upon_error(std::move(s), calm), sc.get_token(), env);
        };
        with<FX>(attr, go);
      }
      catch (...)
      {
        ev("thr");
        auto op = ex::connect(sc.join(), Rcv<0>{&b});
        (void) op;
        sc.close();
        ex::sync_wait(sc.join());
        return;
      }
      proceed();
      ex::sync_wait(sc.join());
      break;
    }
    case SF:
    {
      ex::counting_scope sc;
      struct J
      {
        ex::counting_scope& s;
        ~J() { ex::sync_wait(s.join()); }
      } j{sc};
      with<FX>(attr, [&](auto s) { use(ex::spawn_future(std::move(s), sc.get_token(), env), drop); });
      break;
    }
    case DET:
      exec::start_detached(ex::upon_error(build<FX>(0), calm), env);
      proceed();
      break;
    case ES: use(exec::ensure_started(build<FX>(0), env), drop); break;
    case SPLIT: use(exec::split(build<FX>(0), env), drop); break;
    }
  }

  // the allocators themselves: requests are made and given back in any order
  template <class A>
  void direct(A const & a0, A const & a1)
  {
    std::unique_ptr<ReqB> rq[5];
    A const *             as[2] = {&a0, &a1};
    ev("strt", F("i", 0), F("a", 1), F("f", 2));
    ev("eq", F("x", a0 == a1), F("y", a0 == A(a0)));
    int n = 2 + vs::choose(7);
    for (int k = 0; k < n; ++k)
    {
      int h = vs::choose(5);
      if (rq[h])
        rq[h].reset();
      else
      {
        int q  = vs::choose(2);
        int sz = vs::choose(6);
        try
        {
          // through a copy, which does not outlive the request
          auto c = std::make_unique<A>(*as[q]);
          rq[h]  = request(*c, h, q, sz);
        }
        catch (std::bad_alloc const &)
        {
          ev("rqf", F("h", h));
        }
      }
    }
    for (auto& r: rq)
      r.reset();
    ev("lc", F("c", heap->fail && heap->tick >= heap->fail ? 1 : 0));
  }
  template <class X>
  void adapted(X x1, X x2)
  {
    exec::__memory_resource_adaptor_t<X> m1{x1}, m2{x2};
    direct(PA(&m1), PA(&m2));
  }
  void setup(Heap& hp)
  {
    vs::opt_races(true);
    heap = &hp;
    alignas(Res) static unsigned char buf[NRES * sizeof(Res)];
    res_tab = reinterpret_cast<Res*>(buf);
    for (int i = 0; i < NRES; ++i)
      new (res_tab + i) Res(i);
  }
  VS_SCENARIO(direct)
  {
    Heap hp;
    setup(hp);
    int kind = vs::choose(8);
    hp.fail  = vs::choose(3) == 0 ? 1 + vs::choose(5) : 0;
    vs::cfg("{\"rk\":\"direct\",\"f\":" + std::to_string(kind) + ",\"attr\":0,\"drop\":0,\"ch\":0,\"k\":[\"leaf\"]}");
    Res* r1 = res(1);
    Res* r2 = res(2);
    using AI = Alloc<int>;
    switch (kind)
    {
    case 0: adapted(std::allocator<std::byte>(), std::allocator<std::byte>()); break;
    case 1: adapted(AB(r1), AB(r2)); break;
    case 2: adapted(AI(r1), AI(r2)); break;
    case 3: adapted(r1, r2); break;
    case 4: direct(exec::__frame_allocator_t<Res*>(r1), exec::__frame_allocator_t<Res*>(r2)); break;
    case 5:
      direct(exec::__frame_allocator_t<std::pmr::memory_resource*>(r1),
             exec::__frame_allocator_t<std::pmr::memory_resource*>(r2));
      break;
    case 6: direct(ex::__any_allocator<std::byte>(AB(r1)), ex::__any_allocator<std::byte>(AB(r2))); break;
    case 7: direct(ex::__any_allocator<int>(AI(r1)), ex::__any_allocator<int>(AI(r2))); break;
    }
    ev("end", vs::F("live", (int) hp.live.size()));
    for (auto& [a, b]: hp.live)
      std::free(b.raw);
  }

  VS_SCENARIO(chain)
  {
    Heap hp;
    setup(hp);
    Prog pg;
    P       = &pg;
    int rk  = vs::choose(NR);
    int F   = 0;
    bool attr = false;
    if (rk == CONN)
    {
      static int const fs[] = {0, 1, 2, 3, 1, 3};
      F = fs[vs::choose(6)];
    }
    else
    {
      F    = vs::choose(3) ? 1 : 0;
      attr = (rk == SPAWN || rk == SF) && vs::choose(3) == 0;
    }
    bool drop = rk >= SF && rk != DET && vs::choose(5) == 0;
    int  n    = vs::choose(4);
    int  f    = F | (attr ? 1 : 0);
    for (int i = 0; i < n; ++i)
    {
      int k;
      do
        k = 1 + vs::choose(NK - 1);
      while ((k == FNQ && !(f & 4)) || (k == FNA && !(f & 1)));
      pg.k.push_back(k);
      f = step(f, k);
    }
    pg.k.push_back(LEAF);
    pg.ch    = vs::choose(4) ? 0 : 1 + vs::choose(2);
    pg.later = vs::choose(3);
    pg.thr   = vs::choose(8) == 0;
    pg.nreq  = vs::choose(3);
    for (int i = 0; i < pg.nreq; ++i)
    {
      int q = -1;
      if ((f & 1) && (f & 14))
        q = vs::choose(2);
      else if (f & 1)
        q = 0;
      else if (f & 14)
        q = 1;
      if (q < 0)
        pg.nreq = i;
      else
      {
        pg.q[i]  = q;
        pg.sz[i] = vs::choose(6);
      }
    }
    hp.fail = vs::choose(3) == 0 ? 1 + vs::choose(6) : 0;
    std::string ks;
    for (int k: pg.k)
      ks += std::string(ks.empty() ? "\"" : ",\"") + kname[k] + "\"";
    vs::cfg(("{\"rk\":\"" + std::string(rname[rk]) + "\",\"f\":" + std::to_string(F) + ",\"attr\":" + std::to_string(attr)
             + ",\"drop\":" + std::to_string(drop) + ",\"ch\":" + std::to_string(pg.ch) + ",\"k\":[" + ks + "]}")
              .c_str());
    try
    {
      if (F == 0)
        root_f<0>(rk, attr, drop);
      else if (F == 1)
        root_f<1>(rk, attr, drop);
      else if (F == 2)
        root_f<2>(rk, attr, drop);
      else
        root_f<3>(rk, attr, drop);
    }
    catch (...)
    {
      ev("thr");
    }
    ev("end", vs::F("live", (int) hp.live.size()));
    for (auto& [a, b]: hp.live)
      std::free(b.raw);
  }
}
