// P21: parallel_scheduler and task_scheduler
#define STDEXEC_PARALLEL_SCHEDULER_HEADER_ONLY
#include "jobs.hpp"
#include <exec/static_thread_pool.hpp>
#include <atomic>
#include <cstring>
using namespace jobs;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
namespace psr = ex::parallel_scheduler_replacement;
namespace
{
  auto set_backend(psr::__parallel_scheduler_backend_factory_t f)
  {
    return psr::set_parallel_scheduler_backend(f);
  }
  std::shared_ptr<psr::parallel_scheduler_backend> none() { return nullptr; }
  std::shared_ptr<psr::parallel_scheduler_backend> dflt()
  {
    return std::make_shared<ex::__parallel_scheduler_default_impl::__parallel_scheduler_backend_impl>();
  }
  void cfg(int lo, int hi, int must = 1)
  {
    vs::cfg("{\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"named\":0,\"must\":" + std::to_string(must) + ",\"inl\":1}");
  }
  // the default backend, on a pool of n threads
  struct P
  {
    World w;
    explicit P(int n)
    {
      W = &w;
      vs::opt_ncpu(n);
      cfg(1, n);
      set_backend(&dflt);
    }
    ~P()
    {
      set_backend(&none);
      ev("gone");
      ev("end");
    }
  };

  // a backend of our own: what it does is chosen by the scenario
  struct Plan
  {
    int         cur = 0;          // the operation being handed in
    bool        tok = true;       // ask for the stop token
    char const *c = "v";          // how to end
    int         v = 0;
    int         threads = 0;      // 0: inside the call, 1: on another thread, 2: on two
    int         cut = 1;          // size of the ranges
    vs::Flag*   gate = nullptr;   // wait for this first
    std::vector<std::thread> th;
  };
  Plan* PL;
  template <class R>
  void end(R& r, int o)
  {
    ev("bk_done", F("o", o), F("c", PL->c), F("v", PL->v));
    switch (PL->c[0])
    {
    case 'v': return r.set_value();
    case 's': return r.set_stopped();
    default: return r.set_error(std::make_exception_ptr(PL->v));
    }
  }
  void ask(psr::receiver_proxy& r, int o)
  {
    if (PL->gate)
      PL->gate->wait();
    if (!PL->tok)
      return;
    auto t = r.try_query<ex::inplace_stop_token>(ex::get_stop_token);
    ev("bk_tok", F("o", o), F("has", (int) t.has_value()), F("r", (int) (t && t->stop_requested())));
  }
  struct BK : psr::parallel_scheduler_backend
  {
    int alive = 77;
    ~BK() { alive = 0; }
    template <class Fn>
    void run(std::span<std::byte> s, Fn fn)
    {
      if (alive != 77)
        ev("dead_backend");
      std::memset(s.data(), 0xAB, s.size());
      if (PL->threads == 0)
        fn();
      else
        PL->th.emplace_back(fn);
    }
    void schedule(psr::receiver_proxy& r, std::span<std::byte> s) noexcept override
    {
      run(s, [o = PL->cur, &r] { ask(r, o); end(r, o); });
    }
    void bulk(std::size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> s, std::size_t cut)
    {
      run(s,
          [=, o = PL->cur, &r]
          {
            ask(r, o);
            auto part = [=, &r](std::size_t par)
            {
              for (std::size_t b = 0, k = 0; b < n; b += cut, ++k)
                if (k % 2 == par || PL->threads < 2)
                  r.execute(b, b + cut < n ? b + cut : n);
            };
            if (PL->threads == 2)
            {
              std::thread t(part, 1);
              part(0);
              t.join();
            }
            else
              part(0);
            end(r, o);
          });
    }
    void schedule_bulk_chunked(std::size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override
    {
      bulk(n, r, s, (std::size_t) PL->cut);
    }
    void schedule_bulk_unchunked(std::size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override
    {
      bulk(n, r, s, 1);
    }
  };
  struct Own
  {
    World w;
    Plan  pl;
    Own()
    {
      W  = &w;
      PL = &pl;
      cfg(0, 99);
      set_backend([]() -> std::shared_ptr<psr::parallel_scheduler_backend> { return std::make_shared<BK>(); });
      pl.threads = vs::choose(3);
      pl.cut     = 1 + vs::choose(2);
    }
    void outcome()
    {
      switch (vs::choose(3))
      {
      case 0: break;
      case 1: pl.c = "e"; pl.v = 55; break;
      default: pl.c = "s"; break;
      }
    }
    void go(int o, int n = -1, int q = 0)
    {
      pl.cur = o;
      start(o, n, 0, q);
      wait(o);
      for (auto& t: pl.th)
        t.join();
      pl.th.clear();
    }
    ~Own()
    {
      set_backend(&none);
      ev("gone");
      ev("end");
    }
  };

  // a predecessor that completes at once, and says that it does so on the given scheduler
  struct Res
  {
    int  o = 0;
    int* live = nullptr;
    Res(int oo, int* l) : o(oo), live(l) { ++*live; }
    Res(Res&& r) noexcept : o(r.o), live(r.live) { ++*live; }
    Res(Res const & r) : o(r.o), live(r.live) { ++*live; }
    ~Res() { --*live; }
  };
  template <class Sch>
  struct PreOn
  {
    using sender_concept = ex::sender_tag;
    struct Attrs
    {
      Sch  sch;
      auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto const &...) const noexcept -> Sch { return sch; }
      auto query(ex::get_completion_domain_t<ex::set_value_t>, auto const &...) const noexcept
      {
        return ex::get_completion_domain<ex::set_value_t>(sch);
      }
    };
    Sch  sch;
    Res  res;
    char how;
    template <class R>
    struct Op
    {
      R    r;
      Res  res;
      char how;
      void start() noexcept
      {
        int v = 100 + res.o;
        switch (how)
        {
        case 'v': return ex::set_value(static_cast<R&&>(r), (int) v);
        case 's': return ex::set_stopped(static_cast<R&&>(r));
        default: return ex::set_error(static_cast<R&&>(r), std::make_exception_ptr(66));
        }
      }
    };
    template <class>
    static consteval auto get_completion_signatures() noexcept
    {
      return ex::completion_signatures<ex::set_value_t(int), ex::set_stopped_t(), ex::set_error_t(std::exception_ptr)>();
    }
    template <class R>
    auto connect(R r) && -> Op<R>
    {
      return {static_cast<R&&>(r), std::move(res), how};
    }
    auto get_env() const noexcept -> Attrs { return {sch}; }
  };
  template <int K = 1, class Sch>
  void bulk_on(int o, Sch sch, int n, int var, int* live, char how = 'v')
  {
    PreOn<Sch> pre{sch, Res(o, live), how};
    switch (var)
    {
    case 0: return make<K>(o, ex::bulk(std::move(pre), ex::par, n, One{o}));
    case 1: return make<K>(o, ex::bulk_chunked(std::move(pre), ex::par, n, Chunk{o}));
    case 2: return make<K>(o, ex::bulk_unchunked(std::move(pre), ex::par_unseq, n, One{o}));
    case 3: return make<K>(o, ex::bulk(std::move(pre), ex::seq, n, One{o}));
    case 4: return make<K>(o, ex::bulk_chunked(std::move(pre), ex::unseq, n, Chunk{o}));
    default: return make<K>(o, ex::bulk_unchunked(std::move(pre), ex::seq, n, One{o}));
    }
  }
  // as if the backend had ended the operation with the predecessor's outcome
  void pre_done(int o, char how)
  {
    if (how == 's')
      ev("bk_done", F("o", o), F("c", "s"), F("v", 0));
    else if (how == 'e')
      ev("bk_done", F("o", o), F("c", "e"), F("v", 66));
  }
}  // namespace

VS_SCENARIO(par_jobs)
{
  P p(1 + vs::choose(2));
  for (int o = 1; o <= 3; ++o)
    make_job(o, ex::get_parallel_scheduler());
  std::thread a([&] { start(1); });
  start(2);
  start(3);
  for (int o = 1; o <= 3; ++o)
    wait(o);
  a.join();
}
VS_SCENARIO(par_stop)
{
  P p(1 + vs::choose(2));
  make_job<1>(1, ex::get_parallel_scheduler());
  make_job<2>(2, ex::get_parallel_scheduler());
  make_job<0>(3, ex::get_parallel_scheduler());
  make_job<1>(5, ex::get_parallel_scheduler());   // not started
  int n = vs::choose(3);
  make_bulk<1>(4, ex::get_parallel_scheduler(), n, 0);
  make_bulk<1>(6, ex::get_parallel_scheduler(), n, 0);   // not started
  if (vs::choose(2))
    stop(1);
  std::thread a([&] { stop(2); stop(4); });
  start(1);
  start(2);
  start(3);
  start(4, n);
  for (int o = 1; o <= 4; ++o)
    wait(o);
  a.join();
}
VS_SCENARIO(par_bulk)
{
  P   p(1 + vs::choose(3));
  int var = vs::choose(8), n = vs::choose(8);
  make_bulk(1, ex::get_parallel_scheduler(), n, var);
  start(1, n, 0, sequential(var));
  wait(1);
}
VS_SCENARIO(par_throw)
{
  P   p(1 + vs::choose(3));
  int var = vs::choose(8), n = 1 + vs::choose(5);
  if (nx(var))
    var = 0;
  make_bulk(1, ex::get_parallel_scheduler(), n, var);
  p.w.thr[1] = vs::choose(n);
  start(1, n, 0, sequential(var));
  wait(1);
}
VS_SCENARIO(own_job)
{
  Own p;
  p.outcome();
  int k = vs::choose(3);
  auto s = ex::get_parallel_scheduler();
  if (k == 0)
    make_job<1>(1, s);
  else if (k == 1)
    make_job<2>(1, s);
  else
    make_job<0>(1, s), p.pl.tok = false;
  std::thread a;
  if (k < 2 && vs::choose(2))
    a = std::thread([] { stop(1); });
  p.pl.tok = p.pl.tok && !a.joinable();
  p.go(1);
  if (a.joinable())
    a.join();
}
// the backend's view of the stop token
VS_SCENARIO(own_token)
{
  Own p;
  int live     = 0;
  p.pl.threads = 1;
  vs::Flag gate;
  p.pl.gate = &gate;
  auto s    = ex::get_parallel_scheduler();
  int  k    = vs::choose(3);
  if (k == 0)
    make_job<1>(1, s);
  else if (k == 1)
    make_job<2>(1, s);
  else
    bulk_on<1>(1, s, 2, 1, &live);
  p.pl.cur = 1;
  start(1, k == 2 ? 2 : -1);
  if (vs::choose(2))
    stop(1);
  gate.set();
  wait(1);
  for (auto& t: p.pl.th)
    t.join();
  p.pl.th.clear();
}

VS_SCENARIO(own_bulk)
{
  int live = 0;
  {
    Own p;
    int var = vs::choose(6), n = vs::choose(5);
    p.outcome();
    bulk_on<1>(1, ex::get_parallel_scheduler(), n, var, &live);
    if (vs::choose(2) && n)
      p.w.thr[1] = vs::choose(n);
    p.go(1, n, var >= 3);
  }
  if (live)
    ev("live", F("n", live));
}
VS_SCENARIO(own_pre)
{
  int live = 0;
  {
    Own  p;
    char how = "vse"[vs::choose(3)];
    bulk_on<1>(1, ex::get_parallel_scheduler(), 2, vs::choose(6), &live, how);
    bulk_on<1>(2, ex::get_parallel_scheduler(), 2, 0, &live, how);   // not started
    if (how == 'v')
      stop(1);
    p.pl.cur = 1;
    ev("sta", F("o", 1), F("n", 2), F("w", 0), F("q", 0));
    pre_done(1, how);
    p.w.job[1]->start();
    ev("ret", F("o", 1));
    p.w.ret[1].set();
    wait(1);
  }
  if (live)
    ev("live", F("n", live));
}
// several threads ask for the scheduler for the first time
namespace
{
  std::atomic<int> made;
}
VS_SCENARIO(get_first)
{
  World w;
  W = &w;
  vs::opt_ncpu(1);
  cfg(0, 99);
  made = -1;
  set_backend(
    []() -> std::shared_ptr<psr::parallel_scheduler_backend>
    {
      if (++made == 0)
        return nullptr;
      return std::make_shared<BK>();
    });
  {
    std::optional<ex::parallel_scheduler> x, y;
    std::thread a([&] { x.emplace(ex::get_parallel_scheduler()); });
    y.emplace(ex::get_parallel_scheduler());
    a.join();
    ev("eq", F("a", 1), F("b", 1), F("r", (int) (*x == *y)));
    ev("eq", F("a", 1), F("b", 1), F("r", (int) (*x == ex::get_parallel_scheduler())));
  }
  set_backend(&none);
  ev("gone");
  ev("end");
}
// equality, and the backend stays while somebody refers to it
VS_SCENARIO(par_equal)
{
  Own  p;
  p.pl.threads = 0;   // as the last reference may go away right after the start
  auto a = ex::get_parallel_scheduler();
  auto b = a;
  make_job<1>(1, a);
  int live = 0;
  bulk_on<1>(2, a, 2, 1, &live);
  set_backend([]() -> std::shared_ptr<psr::parallel_scheduler_backend> { return std::make_shared<BK>(); });
  auto c = ex::get_parallel_scheduler();
  ev("eq", F("a", 1), F("b", 1), F("r", (int) (a == b)));
  ev("eq", F("a", 1), F("b", 2), F("r", (int) (a == c)));
  ev("eq", F("a", 1), F("b", 1), F("r", (int) (b == ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(a))))));
  p.go(1);
  p.go(2, 2);
}

// ---- task_scheduler
namespace
{
  template <bool Named>
  struct TP
  {
    World                                    w;
    std::optional<exec::static_thread_pool>  p;
    explicit TP(int n)
    {
      W = &w;
      cfg(1, n);
      p.emplace((std::uint32_t) n);
    }
    auto sch() { return ex::task_scheduler(p->get_scheduler()); }
    ~TP()
    {
      p.reset();
      ev("gone");
      ev("end");
    }
  };
  using Pool = TP<false>;
}  // namespace
VS_SCENARIO(task_jobs)
{
  Pool p(1 + vs::choose(2));
  auto s = p.sch();
  make_job<1>(1, s);
  make_job<2>(2, s);
  make_job<0>(3, p.sch());
  make_job<1>(4, s);   // not started
  std::thread a([&] { start(1); });
  start(2);
  start(3);
  for (int o = 1; o <= 3; ++o)
    wait(o);
  a.join();
}
VS_SCENARIO(task_stop)
{
  Pool p(1 + vs::choose(2));
  auto s = p.sch();
  int  n = vs::choose(3);
  make_job<1>(1, s);
  make_job<2>(2, s);
  make_bulk<1>(3, s, n, 0);
  make_bulk<2>(4, s, n, 0);
  if (vs::choose(2))
    stop(1 + vs::choose(4));
  std::thread a([&] { stop(2); stop(3); });
  start(1);
  start(2);
  start(3, n);
  start(4, n);
  for (int o = 1; o <= 4; ++o)
    wait(o);
  a.join();
}
VS_SCENARIO(task_bulk)
{
  Pool p(1 + vs::choose(3));
  int  var = vs::choose(8), n = vs::choose(6);
  make_bulk(1, p.sch(), n, var);
  start(1, n, 0, sequential(var));
  wait(1);
}
VS_SCENARIO(task_throw)
{
  Pool p(1 + vs::choose(3));
  int  var = vs::choose(8), n = 1 + vs::choose(5);
  if (nx(var))
    var = 0;
  make_bulk(1, p.sch(), n, var);
  p.w.thr[1] = vs::choose(n);
  start(1, n, 0, sequential(var));
  wait(1);
}
VS_SCENARIO(task_pre)
{
  int live = 0;
  {
    Pool p(1);
    char how = "vse"[vs::choose(3)];
    auto s   = p.sch();
    cfg(0, 99);
    bulk_on<1>(1, s, 2, vs::choose(6), &live, how);
    bulk_on<1>(2, s, 2, 0, &live, how);
    ev("sta", F("o", 1), F("n", 2), F("w", 0), F("q", 0));
    pre_done(1, how);
    p.w.job[1]->start();
    ev("ret", F("o", 1));
    p.w.ret[1].set();
    wait(1);
  }
  if (live)
    ev("live", F("n", live));
}
// other schedulers underneath
VS_SCENARIO(task_inline)
{
  World w;
  W = &w;
  cfg(0, 0, 0);
  {
    ex::task_scheduler s(ex::inline_scheduler{});
    make_job<1>(1, s);
    int var = vs::choose(8), n = vs::choose(4);
    make_bulk<1>(2, s, n, var);
    if (!nx(var) && n && vs::choose(2))
      w.thr[2] = vs::choose(n);
    if (vs::choose(2))
      stop(1 + vs::choose(2));
    start(1);
    start(2, n, 0, sequential(var));
    wait(1);
    wait(2);
  }
  ev("gone");
  ev("end");
}
VS_SCENARIO(task_loop)
{
  World w;
  W = &w;
  cfg(1, 1);
  {
    ex::run_loop       loop;
    std::thread        th([&] { loop.run(); });
    ex::task_scheduler s(loop.get_scheduler());
    make_job<1>(1, s);
    int var = vs::choose(8), n = vs::choose(4);
    make_bulk<2>(2, s, n, var);
    if (!nx(var) && n && vs::choose(2))
      w.thr[2] = vs::choose(n);
    if (vs::choose(2))
      stop(1 + vs::choose(2));
    start(1);
    start(2, n, 0, sequential(var));
    wait(1);
    wait(2);
    loop.finish();
    th.join();
  }
  ev("gone");
  ev("end");
}
VS_SCENARIO(task_equal)
{
  World w;
  W = &w;
  cfg(0, 0);
  {
    exec::static_thread_pool p(1), q(1);
    using TS = ex::task_scheduler;
    TS   s[]  = {TS(p.get_scheduler()), TS(q.get_scheduler()), TS(ex::inline_scheduler{}), TS(p.get_scheduler_on_thread(0)), TS(p.get_scheduler())};
    int  id[] = {1, 2, 3, 4, 1};
    for (int i = 0; i < 5; ++i)
      for (int k = 0; k < 5; ++k)
        ev("eq", F("a", id[i]), F("b", id[k]), F("r", (int) (s[i] == s[k])));
    TS c = s[0];
    ev("eq", F("a", 1), F("b", 1), F("r", (int) (c == s[0])));
    TS m = std::move(c);
    ev("eq", F("a", 1), F("b", 1), F("r", (int) (m == s[0])));
    c = s[1];
    ev("eq", F("a", 2), F("b", 2), F("r", (int) (c == s[1])));
    m = std::move(c);
    ev("eq", F("a", 2), F("b", 2), F("r", (int) (m == s[1])));
    ev("eq", F("a", 2), F("b", 1), F("r", (int) (m == s[0])));
    ev("eq", F("a", 1), F("b", 1), F("r", (int) (ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(s[0]))) == s[0])));
  }
  ev("gone");
  ev("end");
}

// a task_scheduler with an allocator, which may run out of memory
namespace
{
  struct Pot
  {
    int o = 0, fail = 0, live = 0;
  };
  Pot* p;
  template <class T>
  struct Alloc
  {
    using value_type = T;
    Alloc() = default;
    template <class U>
    Alloc(Alloc<U> const &) noexcept {}
    T* allocate(std::size_t n)
    {
      if (p->fail)
      {
        ev("bk_done", F("o", p->o), F("c", "e"), F("v", -2));
        throw std::bad_alloc();
      }
      ++p->live;
      return std::allocator<T>().allocate(n);
    }
    void deallocate(T* q, std::size_t n) noexcept
    {
      --p->live;
      std::allocator<T>().deallocate(q, n);
    }
    template <class U>
    bool operator==(Alloc<U> const &) const noexcept { return true; }
  };
}  // namespace
VS_SCENARIO(task_alloc)
{
  Pot pot;
  p = &pot;
  {
    Pool p(1);
    ex::task_scheduler s(p.p->get_scheduler(), Alloc<int>());
    pot.o    = 1;
    int  var = vs::choose(8), n = vs::choose(4);
    make_bulk<1>(1, s, n, var);
    pot.fail = vs::choose(2);
    start(1, n, 0, sequential(var));
    wait(1);
  }
  if (pot.live)
    ev("live", F("n", pot.live));
}
