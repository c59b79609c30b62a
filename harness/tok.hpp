// A stop token type of our own, in front of inplace_stop_token.
#pragma once
#include <stdexec/stop_token.hpp>
#include <utility>
namespace tk
{
  struct Tok
  {
    stdexec::inplace_stop_token t;
    bool stop_requested() const noexcept
    {
      return t.stop_requested();
    }
    bool stop_possible() const noexcept
    {
      return t.stop_possible();
    }
    bool operator==(Tok const &) const noexcept = default;
    template <class Fn>
    struct callback_type
    {
      stdexec::inplace_stop_callback<Fn> cb;
      template <class Fn2>
      callback_type(Tok k, Fn2&& fn) noexcept : cb(k.t, static_cast<Fn2&&>(fn))
      {}
    };
  };
  // gives its child the receiver's stop token as a Tok
  template <class S>
  struct Foreign
  {
    using sender_concept = stdexec::sender_tag;
    S s;
    template <class R>
    struct Env
    {
      stdexec::env_of_t<R> e;
      Tok query(stdexec::get_stop_token_t) const noexcept
      {
        return Tok{stdexec::get_stop_token(e)};
      }
      template <class Q>
        requires(!std::is_same_v<Q, stdexec::get_stop_token_t>) && requires(stdexec::env_of_t<R> const & x, Q q) { x.query(q); }
      decltype(auto) query(Q q) const noexcept
      {
        return e.query(q);
      }
    };
    template <class R>
    struct Rc
    {
      using receiver_concept = stdexec::receiver_tag;
      R r;
      template <class... A>
      void set_value(A&&... a) noexcept
      {
        stdexec::set_value(std::move(r), static_cast<A&&>(a)...);
      }
      template <class E>
      void set_error(E&& e) noexcept
      {
        stdexec::set_error(std::move(r), static_cast<E&&>(e));
      }
      void set_stopped() noexcept
      {
        stdexec::set_stopped(std::move(r));
      }
      Env<R> get_env() const noexcept
      {
        return {stdexec::get_env(r)};
      }
    };
    template <class Self, class... E>
    static consteval auto get_completion_signatures()
    {
      return typename S::completion_signatures{};
    }
    template <class R>
    auto connect(R r) const
    {
      return stdexec::connect(s, Rc<R>{std::move(r)});
    }
  };
}  // namespace tk
