// Dynamically typed sequence senders: every node of an expression is a real library
// sequence sender behind a probe which reports what crosses the node's boundary.
#pragma once
#include "dyn.hpp"
#include <exec/sequence_senders.hpp>
#include <mutex>

namespace q
{
  namespace ex = stdexec;
  using d::Ch, d::CV, d::CE, d::CX, d::CS, d::Val, d::Err, d::Ex, d::eptr_code, d::chname;
  using Eptr = std::exception_ptr;
  using Tok  = ex::inplace_stop_token;

  struct IOp
  {
    virtual void start() noexcept = 0;
    virtual ~IOp()                = default;
  };
  using OpP = std::unique_ptr<IOp>;
  template <class T>
  struct IItemRcv
  {
    virtual void done(int ch, T* v, Err* e, Eptr* x) noexcept = 0;
    virtual Tok  tok() const noexcept                         = 0;
  };
  template <class T>
  struct IItem
  {
    virtual OpP connect(IItemRcv<T>*) = 0;
    virtual ~IItem()                  = default;
  };
  template <class T>
  using ItemP = std::unique_ptr<IItem<T>>;
  struct INextRcv
  {
    virtual void done(bool stopped) noexcept = 0;
    virtual Tok  tok() const noexcept        = 0;
  };
  struct INext
  {
    virtual OpP connect(INextRcv*) = 0;
    virtual ~INext()               = default;
  };
  using NextP = std::unique_ptr<INext>;
  template <class T>
  struct ISeqRcv
  {
    virtual NextP set_next(ItemP<T>)                     = 0;
    virtual void  done(int ch, Err* e, Eptr* x) noexcept = 0;
    virtual Tok   tok() const noexcept                   = 0;
  };
  template <class T>
  struct ISeq
  {
    virtual OpP subscribe(ISeqRcv<T>*) = 0;
    virtual ~ISeq()                    = default;
  };

  template <class R>
  Tok token_of(R const & r) noexcept
  {
    auto t = ex::get_stop_token(ex::get_env(r));
    if constexpr (std::is_same_v<decltype(t), Tok>)
      return t;
    else
    {
      static_assert(ex::unstoppable_token<decltype(t)>);
      return Tok{};
    }
  }
  struct EnvTok
  {
    Tok  t;
    Tok  query(ex::get_stop_token_t) const noexcept
    {
      return t;
    }
  };

  // ---- erased -> library ------------------------------------------------------
  template <class T>
  struct Item
  {
    using sender_concept = ex::sender_tag;
    using completion_signatures =
      ex::completion_signatures<ex::set_value_t(T), ex::set_error_t(Err), ex::set_error_t(Eptr), ex::set_stopped_t()>;
    ItemP<T> p;
    template <class R>
    struct Op : IItemRcv<T>
    {
      using operation_state_concept = ex::operation_state_tag;
      R   r;
      OpP op;
      Op(ItemP<T> p, R rr) : r(std::move(rr)), op(p->connect(this)) {}
      Op(Op&&) = delete;
      void start() noexcept
      {
        op->start();
      }
      void done(int ch, T* v, Err* e, Eptr* x) noexcept override
      {
        switch (ch)
        {
        case CV: ex::set_value(std::move(r), std::move(*v)); break;
        case CE: ex::set_error(std::move(r), std::move(*e)); break;
        case CX: ex::set_error(std::move(r), std::move(*x)); break;
        default: ex::set_stopped(std::move(r));
        }
      }
      Tok tok() const noexcept override
      {
        return token_of(r);
      }
    };
    template <class R>
    auto connect(R r) &&
    {
      return Op<R>(std::move(p), std::move(r));
    }
  };
  struct Next
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
    NextP p;
    template <class R>
    struct Op : INextRcv
    {
      using operation_state_concept = ex::operation_state_tag;
      R   r;
      OpP op;
      Op(NextP p, R rr) : r(std::move(rr)), op(p->connect(this)) {}
      Op(Op&&) = delete;
      void start() noexcept
      {
        op->start();
      }
      void done(bool s) noexcept override
      {
        if (s)
          ex::set_stopped(std::move(r));
        else
          ex::set_value(std::move(r));
      }
      Tok tok() const noexcept override
      {
        return token_of(r);
      }
    };
    template <class R>
    auto connect(R r) &&
    {
      return Op<R>(std::move(p), std::move(r));
    }
  };
  template <class NS>
  struct NextHolder : INext
  {
    NS ns;
    explicit NextHolder(NS&& n) : ns(static_cast<NS&&>(n)) {}
    struct Rcv
    {
      using receiver_concept = ex::receiver_tag;
      INextRcv* up;
      void      set_value() noexcept
      {
        up->done(false);
      }
      void set_stopped() noexcept
      {
        up->done(true);
      }
      auto get_env() const noexcept
      {
        return EnvTok{up->tok()};
      }
    };
    struct Op : IOp
    {
      ex::connect_result_t<NS, Rcv> op;
      Op(NS&& n, INextRcv* up) : op(ex::connect(static_cast<NS&&>(n), Rcv{up})) {}
      void start() noexcept override
      {
        ex::start(op);
      }
    };
    OpP connect(INextRcv* up) override
    {
      return OpP(new Op(static_cast<NS&&>(ns), up));
    }
  };
  template <class T>
  struct Seq
  {
    using sender_concept = exec::sequence_sender_tag;
    using completion_signatures =
      ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_error_t(Eptr), ex::set_stopped_t()>;
    using item_types = exec::item_types<Item<T>>;
    std::unique_ptr<ISeq<T>> p;
    template <class R>
    struct Op : ISeqRcv<T>
    {
      using operation_state_concept = ex::operation_state_tag;
      R   r;
      OpP op;
      Op(ISeq<T>& s, R rr) : r(std::move(rr)), op(s.subscribe(this)) {}
      Op(Op&&) = delete;
      void start() noexcept
      {
        op->start();
      }
      NextP set_next(ItemP<T> i) override
      {
        using NS = decltype(exec::set_next(r, Item<T>{std::move(i)}));
        return NextP(new NextHolder<std::decay_t<NS>>(exec::set_next(r, Item<T>{std::move(i)})));
      }
      void done(int ch, Err* e, Eptr* x) noexcept override
      {
        switch (ch)
        {
        case CV: ex::set_value(std::move(r)); break;
        case CE: ex::set_error(std::move(r), std::move(*e)); break;
        case CX: ex::set_error(std::move(r), std::move(*x)); break;
        default: ex::set_stopped(std::move(r));
        }
      }
      Tok tok() const noexcept override
      {
        return token_of(r);
      }
    };
    template <class R>
    auto subscribe(R r) &&
    {
      return Op<R>(*p, std::move(r));
    }
  };
  using SeqP  = std::unique_ptr<ISeq<Val>>;
  using SeqSP = std::unique_ptr<ISeq<Seq<Val>>>;

  // ---- library -> erased ------------------------------------------------------
  template <class T, bool Stop>
  struct ItemRcv
  {
    using receiver_concept = ex::receiver_tag;
    IItemRcv<T>* up;
    void         set_value(T&& v) noexcept
    {
      up->done(CV, &v, nullptr, nullptr);
    }
    void set_value(T& v) noexcept
      requires std::copyable<T>
    {
      T c(v);
      up->done(CV, &c, nullptr, nullptr);
    }
    template <class E>
    void set_error(E&& e) noexcept
    {
      std::decay_t<E>* pe = const_cast<std::decay_t<E>*>(&e);
      if constexpr (std::is_same_v<std::decay_t<E>, Err>)
        up->done(CE, nullptr, pe, nullptr);
      else
        up->done(CX, nullptr, nullptr, pe);
    }
    void set_stopped() noexcept
    {
      up->done(CS, nullptr, nullptr, nullptr);
    }
    auto get_env() const noexcept
    {
      if constexpr (Stop)
        return EnvTok{up->tok()};
      else
        return ex::env<>{};
    }
  };
  template <class T, bool Stop, class S>
  struct ItemHolder : IItem<T>
  {
    S s;
    explicit ItemHolder(S&& x) : s(static_cast<S&&>(x)) {}
    struct Op : IOp
    {
      ex::connect_result_t<S, ItemRcv<T, Stop>> op;
      Op(S&& s, IItemRcv<T>* up) : op(ex::connect(static_cast<S&&>(s), ItemRcv<T, Stop>{up})) {}
      void start() noexcept override
      {
        ex::start(op);
      }
    };
    OpP connect(IItemRcv<T>* up) override
    {
      return OpP(new Op(static_cast<S&&>(s), up));
    }
  };
  template <class T, bool Stop>
  struct SeqRcv
  {
    using receiver_concept = ex::receiver_tag;
    ISeqRcv<T>* up;
    template <class I>
    auto set_next(I&& i) -> Next
    {
      return Next{up->set_next(ItemP<T>(new ItemHolder<T, true, std::decay_t<I>>(std::decay_t<I>(static_cast<I&&>(i)))))};
    }
    void set_value() noexcept
    {
      up->done(CV, nullptr, nullptr);
    }
    template <class E>
    void set_error(E&& e) noexcept
    {
      std::decay_t<E>* pe = const_cast<std::decay_t<E>*>(&e);
      if constexpr (std::is_same_v<std::decay_t<E>, Err>)
        up->done(CE, pe, nullptr);
      else
        up->done(CX, nullptr, pe);
    }
    void set_stopped() noexcept
    {
      up->done(CS, nullptr, nullptr);
    }
    auto get_env() const noexcept
    {
      if constexpr (Stop)
        return EnvTok{up->tok()};
      else
        return ex::env<>{};
    }
  };
  template <class T, bool Stop, class S>
  struct SeqHolder : ISeq<T>
  {
    S s;
    explicit SeqHolder(S&& x) : s(static_cast<S&&>(x)) {}
    struct Op : IOp
    {
      exec::subscribe_result_t<S, SeqRcv<T, Stop>> op;
      Op(S&& s, ISeqRcv<T>* up) : op(exec::subscribe(static_cast<S&&>(s), SeqRcv<T, Stop>{up})) {}
      void start() noexcept override
      {
        ex::start(op);
      }
    };
    OpP subscribe(ISeqRcv<T>* up) override
    {
      return OpP(new Op(static_cast<S&&>(s), up));
    }
  };
  // erase sequence sender s of node n; without Stop its receiver has no stop token
  template <class T, class S>
  std::unique_ptr<ISeq<T>> hold(bool shield, S&& s)
  {
    using X = std::decay_t<S>;
    if (shield)
      return std::unique_ptr<ISeq<T>>(new SeqHolder<T, false, X>(X(static_cast<S&&>(s))));
    return std::unique_ptr<ISeq<T>>(new SeqHolder<T, true, X>(X(static_cast<S&&>(s))));
  }

  // ---- the world ----------------------------------------------------------------
  struct ItemB
  {
    int  h    = CV;   // how it completes
    int  when = 0;    // 0 inline, 1, 2 on a context, 9 when stop is requested
    bool cx   = false;  // connecting it throws
  };
  struct Node
  {
    std::string        k;
    std::vector<int>   ch;
    int                p = 0, q = 0, r = 0, m = 0;
    bool               sh = false;  // the receiver has no stop token
    std::vector<ItemB> items;
    int                up = 0;
    std::shared_ptr<std::atomic<int>> cnt = std::make_shared<std::atomic<int>>(0);
  };
  struct World
  {
    std::vector<Node> nodes;
    d::Ctx            ctx[3];
    std::vector<int>  sink;
    int               where = 0;
  };
  extern World* W;

  SeqP  build(int n);   // the node behind its probe
  SeqSP build_o(int n);
  SeqP  make_te(int n), make_any(int n), make_mrg(int n), make_me(int n);
}  // namespace q
