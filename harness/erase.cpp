// P26: type-erasing wrappers as values
#include "h.hpp"
#include <exec/any_sender_of.hpp>
#include <stdexec/execution.hpp>
#include <cstdint>
using namespace h;
namespace ex = stdexec;

namespace
{
  int live = 0;   // objects alive
  int fuse = 0;   // counts down; the constructor which reaches 0 throws
  struct Boom
  {};
  struct key_t : ex::forwarding_query_t
  {
    template <class E>
    auto operator()(E const & e) const noexcept
    {
      return e.query(*this);
    }
    static constexpr bool query(ex::forwarding_query_t) noexcept
    {
      return true;
    }
  };
  inline constexpr key_t key{};
  void burn()
  {
    if (fuse > 0 && --fuse == 0)
      throw Boom{};
  }
  constexpr bool thr_move(int k) { return k == 3; }
  constexpr bool thr_copy(int k) { return k == 3 || k == 4; }
  constexpr std::size_t align_of(int k) { return k == 5 ? 16 : k == 6 ? 64 : 8; }
  template <std::size_t N>
  struct Pad
  {
    char p[N];
  };
  template <>
  struct Pad<0>
  {};

  // An object which notices when it is not where it was constructed, or not alive.
  template <int K>
  struct alignas(align_of(K)) Cell
  {
    uintptr_t me;
    int       v;
    [[no_unique_address]] Pad<K == 2 ? 100 : 0> pad;
    void enter() noexcept
    {
      ++live;
      me = reinterpret_cast<uintptr_t>(this) ^ 0x5a5a;
      uintptr_t volatile a = reinterpret_cast<uintptr_t>(this);
      if (a % align_of(K))
        ev("badval", F("what", "alignment"));
    }
    void check() const noexcept
    {
      if (me != (reinterpret_cast<uintptr_t>(this) ^ 0x5a5a))
        ev("badval", F("what", "not-alive"));
    }
    explicit Cell(int x) noexcept : v(x) { enter(); }
    struct fallible
    {
      int v;
    };
    explicit Cell(fallible f) noexcept(!thr_copy(K)) : v(f.v)
    {
      if constexpr (thr_copy(K))
        burn();
      enter();
    }
    Cell(Cell const & o) noexcept(!thr_copy(K)) : v(o.v)
    {
      o.check();
      if constexpr (thr_copy(K))
        burn();
      enter();
    }
    Cell(Cell&& o) noexcept(!thr_move(K)) : v(o.v)
    {
      o.check();
      if constexpr (thr_move(K))
        burn();
      o.v = -1;
      enter();
    }
    Cell& operator=(Cell const &) = delete;
    ~Cell()
    {
      check();
      me = 0;
      --live;
    }
    bool operator==(Cell const & o) const noexcept
    {
      check();
      o.check();
      return v == o.v;
    }
    int code() const noexcept
    {
      check();
      return 100 * K + v;
    }
  };

  using Sigs = ex::completion_signatures<ex::set_value_t(int), ex::set_stopped_t()>;
  struct Rcv
  {
    using receiver_concept = ex::receiver_tag;
    int* out;
    void set_value(int x) noexcept { *out = x; }
    void set_value() noexcept { *out = 0; }
    void set_stopped() noexcept { *out = -2; }
  };
  template <int K>
  struct Snd
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = Sigs;
    Cell<K> c;
    explicit Snd(int v) : c(v) {}
    struct Attrs
    {
      Cell<K> const * c;
      int query(key_t) const noexcept { return c->code(); }
    };
    Attrs get_env() const noexcept { return {&c}; }
    template <class R>
    struct Op
    {
      using operation_state_concept = ex::operation_state_tag;
      R       r;
      Cell<K> c;
      void    start() noexcept { ex::set_value(std::move(r), c.code()); }
    };
    template <class R>
    Op<R> connect(R r) &&
    {
      return Op<R>{std::move(r), std::move(c)};
    }
  };
  struct SchSnd
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
    template <class R>
    auto connect(R r) const
    {
      return ex::connect(ex::just(), std::move(r));
    }
  };
  template <int K>
  struct Sch
  {
    using scheduler_concept = ex::scheduler_tag;
    Cell<K> c;
    explicit Sch(int v) : c(v) {}
    bool operator==(Sch const &) const noexcept = default;
    int query(key_t) const noexcept { return c.code(); }
    struct Snd : SchSnd
    {
      struct Attrs
      {
        Sch s;
        Sch query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return s; }
      };
      Sch   s;
      Attrs get_env() const noexcept { return {s}; }
    };
    SchSnd schedule() const { return {}; }
  };
  template <int K>
  struct Rec
  {
    using receiver_concept = ex::receiver_tag;
    Cell<K> c;
    explicit Rec(int v) : c(v) {}
    struct Env
    {
      Cell<K> const * c;
      int query(key_t) const noexcept { return c->code(); }
    };
    Env  get_env() const noexcept { return {&c}; }
    void set_value(int x) noexcept
    {
      if (x != c.code())
        ev("badval", F("what", "receiver"));
    }
    void set_stopped() noexcept { c.check(); }
  };
  template <int K>
  struct Val
  {
    Cell<K> c;
    explicit Val(int v) : c(v) {}
    explicit Val(Cell<K>::fallible f) : c(f) {}
    bool operator==(Val const &) const noexcept = default;
    int  code() const { return c.code(); }
  };
  namespace any = STDEXEC::__any;
  template <class Base>
  struct ICode : any::__interface_base<ICode, Base>
  {
    using ICode::__interface_base::__interface_base;
    virtual int code() const { return any::__value(*this).code(); }
  };
  template <class Base>
  struct IReg : any::__interface_base<IReg, Base, any::__extends<ICode, any::__isemiregular>, 5 * sizeof(void*)>
  {
    using IReg::__interface_base::__interface_base;
    virtual int twice() const { return 2 * any::__value(*this).code(); }
  };

  // the wrappers under test: how to make one, what can be done with it
  struct Senders
  {
    using W = exec::any_sender<exec::any_receiver<Sigs>, exec::queries<int(key_t) noexcept>>;
    template <int K>
    using T = Snd<K>;
    static constexpr bool def = false, copy = false, nothrow = false, nothrowc = false;
    static int            look(W& w) { return key(ex::get_env(w)); }
    static int            take(W& w)
    {
      int  out = 0;
      auto op  = std::move(w).connect(Rcv{&out});
      ex::start(op);
      return out;
    }
  };
  struct Schedulers
  {
    using W = exec::any_scheduler<
      exec::any_sender<exec::any_receiver<ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>>>,
      exec::queries<int(key_t) noexcept>>;
    template <int K>
    using T = Sch<K>;
    static constexpr bool def = true, copy = true, nothrow = false, nothrowc = false;
    static int            look(W& w) { return key(w); }
    static int            take(W& w)
    {
      int  out = -1;
      int  c   = key(w);
      auto op  = ex::connect(ex::schedule(w), Rcv{&out});
      if (vs::choose(2))
        w = W{};
      ex::start(op);
      return out == 0 ? c : out;
    }
  };
  struct Receivers
  {
    using W = exec::any_receiver<Sigs, exec::queries<int(key_t) noexcept>>;
    template <int K>
    using T = Rec<K>;
    static constexpr bool def = false, copy = false, nothrow = true, nothrowc = false;
    static int            look(W& w) { return key(ex::get_env(w)); }
    static int            take(W& w)
    {
      int c = look(w);
      if (vs::choose(2))
        ex::set_value(std::move(w), int(c));
      else
        ex::set_stopped(std::move(w));
      return c;
    }
  };
  struct Anys
  {
    using W = any::__any<IReg>;
    using emplaces = void;
    template <int K>
    using T = Val<K>;
    static constexpr bool def = true, copy = true, nothrow = false, nothrowc = false;
    static int            look(W& w)
    {
      int c = w.code();
      if (w.twice() != 2 * c)
        ev("badval", F("what", "twice"));
      return c;
    }
    static int take(W& w)
    {
      // converts to a wrapper of a base interface with a smaller buffer
      any::__any<ICode> b = std::move(w);
      return b.code();
    }
  };

  template <class X, int K>
  struct Slots
  {
    using W = X::W;
    Box<W> b[5];
    char   st[5]{};  // 0 none, 1 empty, 2 full, 3 either
    int    nv = 1;

    template <int KK>
    void make(int s, bool set)
    {
      int v  = nv++ % 90;
      bool th = false;
      typename X::template T<KK> t(v);
      --live;  // ours
      light();
      try
      {
        if (set)
          b[s].get() = W(std::move(t));
        else
          b[s].make(std::move(t));
      }
      catch (Boom)
      {
        th = true;
      }
      catch (std::bad_alloc const &)
      {
        th = true;
      }
      fuse = 0;
      ev(set ? "set" : "make", F("s", s), F("k", KK), F("v", v), F("th", th), F("lv", live));
      ++live;
      if (!set)
        st[s] = th ? 0 : 2;
      else
        st[s] = th ? 3 : 2;
    }
    template <int KK>
    void emplace(int s)
    {
      if constexpr (requires(W& w) { w = std::declval<typename X::template T<KK>>(); })
      {
        int v  = nv++ % 90;
        bool th = false;
        typename X::template T<KK> t(v);
        --live;
        light();
        try
        {
          if constexpr (requires { typename X::emplaces; })
          {
            if (vs::choose(2))
              b[s].get().template emplace<typename X::template T<KK>>(typename Cell<KK>::fallible{v});
            else
              b[s].get() = std::move(t);
          }
          else
            b[s].get() = std::move(t);
        }
        catch (Boom)
        {
          th = true;
        }
        fuse = 0;
        ev("set", F("s", s), F("k", KK), F("v", v), F("th", th), F("lv", live));
        ++live;
        st[s] = th ? 3 : 2;
      }
      else
        make<KK>(s, true);
    }
    void light()
    {
      if (vs::choose(3) == 0)
        fuse = 1 + vs::choose(4);
    }
    template <class Fn>
    void kind(Fn fn)
    {
      switch (1 + vs::choose(6))
      {
      case 1: fn.template operator()<1>(); break;
      case 2: fn.template operator()<2>(); break;
      case 3: fn.template operator()<X::nothrow ? 1 : 3>(); break;
      case 4: fn.template operator()<X::nothrowc ? 2 : 4>(); break;
      case 5: fn.template operator()<5>(); break;
      case 6: fn.template operator()<6>(); break;
      }
    }
    void del(int s)
    {
      b[s].destroy();
      st[s] = 0;
      ev("del", F("s", s), F("lv", live));
    }
    void look(int s)
    {
      if constexpr (X::def)
        if (st[s])
        {
          bool r = b[s].get() == W{};
          st[s]  = r ? 1 : 2;
          ev("emp", F("s", s), F("r", r), F("lv", live));
        }
      if (st[s] != 2)
        return;
      int c = X::look(b[s].get());
      ev("look", F("s", s), F("k", c / 100), F("v", c % 100), F("lv", live));
    }
    void step()
    {
      int s = 1 + vs::choose(4), o = 1 + vs::choose(4);
      switch (vs::choose(9))
      {
      case 0:
        if (st[s] == 0 && X::def)
        {
          if constexpr (X::def)
            b[s].make();
          st[s] = 1;
          ev("def", F("s", s), F("lv", live));
          break;
        }
        [[fallthrough]];
      case 1:
        if (st[s] == 0)
          kind([&]<int KK>() { make<KK>(s, false); });
        else if (vs::choose(2))
          kind([&]<int KK>() { make<KK>(s, true); });
        else
          kind([&]<int KK>() { emplace<KK>(s); });
        break;
      case 2:
      case 3:
        if (!st[o] || st[o] == 3)
          break;
        if constexpr (X::copy)
          if (vs::choose(2))
          {
            if (s == o && !st[s])
              break;
            bool th = false, had = st[s];
            light();
            try
            {
              W const & from = b[o].get();
              if (had)
                b[s].get() = from;
              else
                b[s].make(from);
            }
            catch (Boom)
            {
              th = true;
            }
            fuse = 0;
            if (!th)
              st[s] = st[o];
            ev(had ? "casg" : "copy", F("s", s), F("o", o), F("th", th), F("lv", live));
            break;
          }
        if (st[s])
        {
          b[s].get() = std::move(b[o].get());
          if (s != o)
          {
            st[s] = st[o];
            st[o] = 1;
          }
          ev("masg", F("s", s), F("o", o), F("lv", live));
        }
        else
        {
          b[s].make(std::move(b[o].get()));
          st[s] = st[o];
          st[o] = 1;
          ev("move", F("s", s), F("o", o), F("lv", live));
        }
        break;
      case 4:
        if (st[s] && st[o])
        {
          using std::swap;
          swap(b[s].get(), b[o].get());
          std::swap(st[s], st[o]);
          ev("swap", F("s", s), F("o", o), F("lv", live));
        }
        break;
      case 5:
        if (st[s])
          del(s);
        break;
      case 6:
        if constexpr (requires(W const & w) { w == w; })
          if (st[s] && st[o])
          {
            bool r = b[s].get() == b[o].get();
            ev("eq", F("s", s), F("o", o), F("r", r), F("lv", live));
          }
        break;
      case 7: look(s); break;
      case 8:
        if (st[s] == 2)
        {
          int c = X::take(b[s].get());
          b[s].destroy();
          st[s] = 0;
          ev("take", F("s", s), F("k", c / 100), F("v", c % 100), F("lv", live));
        }
        break;
      }
    }
    void run()
    {
      live = 0;
      fuse = 0;
      vs::opt_leakcheck(true);
      int n = 8 + vs::choose(14);
      for (int i = 0; i < n; ++i)
        step();
      for (int s = 1; s <= 4; ++s)
      {
        look(s);
        if (st[s])
          del(s);
      }
      ev("end", F("live", live));
    }
  };
}  // namespace

VS_SCENARIO(senders)
{
  vs::cfg("{}");
  Slots<Senders, 0>{}.run();
}
VS_SCENARIO(schedulers)
{
  vs::cfg("{}");
  Slots<Schedulers, 0>{}.run();
}
VS_SCENARIO(receivers)
{
  vs::cfg("{}");
  Slots<Receivers, 0>{}.run();
}
VS_SCENARIO(anys)
{
  vs::cfg("{}");
  Slots<Anys, 0>{}.run();
}
