// The nested operations used by the scope harnesses: leaves which complete when told to.
#pragma once
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <type_traits>
using namespace h;
namespace ex = stdexec;
namespace
{
  enum Kind
  {
    SPAWN,
    FUTURE,
    ASSOC
  };
  struct Core;
  extern Core* C;
  struct LeafOpBase
  {
    virtual void finish(char c, int v) noexcept = 0;
  };
  struct Core
  {
    static constexpr int NK = 5;
    vs::Flag      sta[NK], settled[NK];
    bool          claimed[NK]{}, started[NK]{};
    LeafOpBase*   leaf[NK]{};
    int           mode[NK]{};      // 0 inline, 1 needs completing, 2 stop-aware, 3 connect throws, 4 alloc throws
    char          how[NK]{};
    vs::Flag      cmp[NK];
    VS_NOSAN bool claim(int k)
    {
      bool b     = claimed[k];
      claimed[k] = true;
      return !b;
    }
    VS_NOSAN bool is_started(int k) { return started[k]; }
    void complete(int k)
    {
      settled[k].wait();
      if (!is_started(k))
        return;
      sta[k].wait();
      if (claim(k))
        leaf[k]->finish(how[k], 10 * k + 1);
    }
  };
  Core* C;
  thread_local void* registering = nullptr;

  // ---- the nested operation
  template <bool Fut>
  struct Leaf
  {
    using sender_concept = ex::sender_tag;
    int k;
    using sigs = std::conditional_t<Fut,
                                    ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(int), ex::set_stopped_t()>,
                                    ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>>;
    template <class Self, class... E>
    static consteval auto get_completion_signatures()
    {
      return sigs{};
    }
    struct Thrown
    {};
    template <class R>
    struct Op : LeafOpBase
    {
      using operation_state_concept = ex::operation_state_tag;
      struct OnStop
      {
        Op*  o;
        void operator()() noexcept
        {
          int k = o->k;
          ev("sto", F("k", k));
          if (C->mode[k] == 2 && C->claim(k))
          {
            if (registering == o)
              o->late = true;  // told while still registering
            else
            {
              C->sta[k].wait();
              o->finish('s', 0);
            }
          }
        }
      };
      using Tok = ex::stop_token_of_t<ex::env_of_t<R>>;
      R    r;
      int  k;
      bool late = false;
      std::optional<ex::stop_callback_for_t<Tok, OnStop>> cb;
      Op(R rr, int kk)
        : r((R&&) rr)
        , k(kk)
      {
        if (C->mode[k] == 3)
          throw Thrown{};
        ev("con", F("k", k));
      }
      Op(Op&&) = delete;
      ~Op() { ev("des", F("k", k)); }
      void start() & noexcept
      {
        int kk      = k;
        C->leaf[k]  = this;
        C->started[k] = true;
        ev("sta", F("k", k));
        if (C->mode[k] == 0)
        {
          C->claim(k);
          C->sta[k].set();
          finish(C->how[k], 10 * k + 1);
          C->settled[kk].set();
          return;
        }
        registering = this;
        cb.emplace(ex::get_stop_token(ex::get_env(r)), OnStop{this});
        registering = nullptr;
        if (late)
        {
          C->sta[kk].set();
          finish('s', 0);
          C->settled[kk].set();
          return;
        }
        ev("rdy", F("k", kk));
        C->sta[kk].set();
        C->settled[kk].set();
      }
      void finish(char c, int v) noexcept override
      {
        int kk = k;
        ev("unr", F("k", kk));
        cb.reset();
        if constexpr (!Fut)
        {
          if (c == 'e')
            c = 'v';
          v = 0;
        }
        if (c == 's')
          v = 0;
        char s[2] = {c, 0};
        ev("cmp", F("k", kk), F("c", s), F("v", v));
        C->cmp[kk].set();
        if constexpr (Fut)
        {
          if (c == 'v')
            return ex::set_value((R&&) r, (int) v);
          if (c == 'e')
            return ex::set_error((R&&) r, (int) v);
        }
        else if (c == 'v')
          return ex::set_value((R&&) r);
        ex::set_stopped((R&&) r);
      }
    };
    template <class R>
    auto connect(R r) const -> Op<R>
    {
      return Op<R>((R&&) r, k);
    }
  };

}  // namespace
