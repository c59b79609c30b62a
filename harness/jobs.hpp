// Operations on schedulers, shared by the harnesses of the execution contexts:
// plain and bulk work whose start, calls, and completion are recorded.
#pragma once
#include "h.hpp"
#include <stdexec/execution.hpp>
#include <string>
#include <vector>
using namespace h;
namespace ex = stdexec;
namespace jobs
{
  constexpr int NJ = 24;
  struct Job
  {
    virtual void start() noexcept = 0;
    virtual ~Job() = default;
  };
  struct World
  {
    Job*                    job[NJ]{};
    vs::Flag                done[NJ], ret[NJ];
    ex::inplace_stop_source src[NJ];
    void (*then[NJ])(int){};     // what the completion of a job does next, on its thread
    int                     thr[NJ];   // index at which the function throws
    int                     keep[NJ]{};   // not destroyed by its completion
    World()
    {
      for (int& t: thr)
        t = -1;
    }
    ~World()
    {
      for (Job*& j: job)
        if (j)
          delete std::exchange(j, nullptr);
    }
  };
  inline World* W;

  // a stop token type of our own
  struct Tok
  {
    ex::inplace_stop_token t;
    bool stop_requested() const noexcept { return t.stop_requested(); }
    bool stop_possible() const noexcept { return t.stop_possible(); }
    bool operator==(Tok const &) const noexcept = default;
    template <class Fn>
    struct callback_type
    {
      ex::inplace_stop_callback<Fn> cb;
      template <class Fn2>
      callback_type(Tok k, Fn2&& fn) : cb(k.t, static_cast<Fn2&&>(fn)) {}
    };
  };
  // kind 0 no stop token, 1 stop token, 2 a stop token of another type
  template <int K>
  struct Env
  {
    int  o;
    auto query(ex::get_stop_token_t) const noexcept
    {
      if constexpr (K == 0)
        return ex::never_stop_token{};
      else if constexpr (K == 2)
        return Tok{W->src[o].get_token()};
      else
        return W->src[o].get_token();
    }
  };
  inline void finished(int o, char const * c, int v) noexcept
  {
    ev("done", F("o", o), F("c", c), F("v", v));
    // the completion ends the operation's life
    if (!W->keep[o])
      delete std::exchange(W->job[o], nullptr);
    if (W->then[o])
      W->then[o](o);
    W->done[o].set();
  }
  template <int K>
  struct Rcvr
  {
    using receiver_concept = ex::receiver_tag;
    int  o;
    auto get_env() const noexcept -> Env<K> { return {o}; }
    void set_value(int v) noexcept { finished(o, "v", v); }
    void set_value() noexcept { finished(o, "v", 0); }
    void set_stopped() noexcept { finished(o, "s", 0); }
    void set_error(int e) noexcept { finished(o, "e", e); }
    void set_error(std::error_code e) noexcept { finished(o, "e", e.value()); }
    void set_error(std::exception_ptr p) noexcept
    {
      int oo = o, v = -1;
      try
      {
        std::rethrow_exception(std::move(p));
      }
      catch (int e)
      {
        v = e;
      }
      catch (std::bad_alloc const &)
      {
        v = -2;
      }
      catch (...)
      {}
      finished(oo, "e", v);
    }
  };
  template <class S, int K>
  struct JobOf : Job
  {
    ex::connect_result_t<S, Rcvr<K>> op;
    JobOf(S&& s, int o) : op(ex::connect(std::move(s), Rcvr<K>{o})) {}
    void start() noexcept override { ex::start(op); }
  };
  // n: size of the bulk part, -1 none.  w: 0 any worker, else the named one.  q: sequential
  template <int K = 1, class S>
  void make(int o, S s)
  {
    W->job[o] = new JobOf<S, K>(std::move(s), o);
  }
  inline void start(int o, int n = -1, int w = 0, int q = 0)
  {
    ev("sta", F("o", o), F("n", n), F("w", w), F("q", q));
    W->job[o]->start();
    ev("ret", F("o", o));
    W->ret[o].set();
  }
  inline void stop(int o)
  {
    ev("stop_call", F("o", o));
    W->src[o].request_stop();
    ev("stop_ret", F("o", o));
  }
  inline void wait(int o)
  {
    W->ret[o].wait();
    W->done[o].wait();
  }
  // the bulk functions
  struct Chunk
  {
    int  o;
    void operator()(int b, int e, auto&... as) const
    {
      static_assert(sizeof...(as) <= 1);
      if constexpr (sizeof...(as) == 1)
        if (((as) + ...) != 100 + o)
          ev("bad_value", F("o", o));
      ev("fn_b", F("o", o), F("b", b), F("f", e));
      vs::point();
      int t = W->thr[o];
      if (t >= b && t < e)
      {
        ev("fn_e", F("o", o), F("b", b), F("f", e), F("x", 1 + t));
        throw 1 + t;
      }
      ev("fn_e", F("o", o), F("b", b), F("f", e), F("x", 0));
    }
  };
  struct One
  {
    int  o;
    void operator()(int i, auto&... as) const { Chunk{o}(i, i + 1, as...); }
  };
  struct OneNx
  {
    int  o;
    void operator()(int i, auto&... as) const noexcept { Chunk{o}(i, i + 1, as...); }
  };
  struct ChunkNx
  {
    int  o;
    void operator()(int b, int e, auto&... as) const noexcept { Chunk{o}(b, e, as...); }
  };
  // schedule, then a value, then a bulk of the given variety
  template <int K = 1, class Sch>
  void make_bulk(int o, Sch sch, int n, int variety)
  {
    auto pre = ex::then(ex::schedule(sch), [o]() noexcept { return 100 + o; });
    switch (variety)
    {
    case 0: return make<K>(o, ex::bulk(std::move(pre), ex::par, n, One{o}));
    case 1: return make<K>(o, ex::bulk_chunked(std::move(pre), ex::par, n, Chunk{o}));
    case 2: return make<K>(o, ex::bulk_unchunked(std::move(pre), ex::par, n, One{o}));
    case 3: return make<K>(o, ex::bulk(std::move(pre), ex::seq, n, One{o}));
    case 4: return make<K>(o, ex::bulk_chunked(std::move(pre), ex::par_unseq, n, ChunkNx{o}));
    case 6: return make<K>(o, ex::bulk_chunked(std::move(pre), ex::seq, n, Chunk{o}));
    case 7: return make<K>(o, ex::bulk_unchunked(std::move(pre), ex::unseq, n, One{o}));
    default: return make<K>(o, ex::bulk(ex::continues_on(ex::just(100 + o), sch), ex::par, n, OneNx{o}));
    }
  }
  constexpr bool nx(int variety) { return variety == 4 || variety == 5; }
  constexpr bool sequential(int variety) { return variety == 3 || variety >= 6; }
  template <int K = 1, class Sch>
  void make_job(int o, Sch sch)
  {
    make<K>(o, ex::then(ex::schedule(sch), [o]() noexcept { return 100 + o; }));
  }
}  // namespace jobs
