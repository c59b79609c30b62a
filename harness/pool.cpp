// P17: static_thread_pool
#include "jobs.hpp"
#include <exec/static_thread_pool.hpp>
#include <numeric>
using namespace jobs;
namespace
{
  struct P
  {
    World                         w;
    Box<exec::static_thread_pool> p;
    int                           n;
    explicit P(int nn, int nb = 32, int bs = 8, int named = 1) : n(nn)
    {
      W = &w;
      vs::cfg("{\"lo\":1,\"hi\":" + std::to_string(n) + ",\"named\":" + std::to_string(named) + ",\"must\":1}");
      p.make((std::uint32_t) n, exec::bwos_params{(std::size_t) nb, (std::size_t) bs}, exec::no_numa_policy{});
    }
    auto sch() { return p.get().get_scheduler(); }
    auto on(int i) { return p.get().get_scheduler_on_thread((std::size_t) i - 1); }
    ~P()
    {
      p.destroy();
      ev("gone");
      ev("end");
    }
  };
  P* PP;
}  // namespace

// several threads hand in work
VS_SCENARIO(two_starters)
{
  P p(1 + vs::choose(2));
  for (int o = 1; o <= 4; ++o)
    make_job(o, p.sch());
  std::thread a([&] { start(1); start(2); });
  std::thread b([&] { start(3); });
  start(4);
  for (int o = 1; o <= 4; ++o)
    wait(o);
  a.join();
  b.join();
}
// one at a time: the workers have gone to sleep, or are about to
VS_SCENARIO(sleepers)
{
  P p(1 + vs::choose(2));
  for (int o = 1; o <= 3; ++o)
  {
    make_job(o, p.sch());
    start(o);
    wait(o);
  }
}
// the workers start more work: their local queues, overflow, stealing
VS_SCENARIO(nested)
{
  P p(2, 1 << vs::choose(3), 1 + vs::choose(2), 0);
  PP = &p;
  for (int o = 2; o <= 9; ++o)
    make_job(o, p.sch());
  make_job(1, p.sch());
  p.w.then[1] = [](int) { for (int o = 2; o <= 7; ++o) start(o); };
  p.w.then[4] = [](int) { start(8); start(9); };
  start(1);
  for (int o = 1; o <= 9; ++o)
    wait(o);
}
// operations for one particular worker
VS_SCENARIO(affine)
{
  P p(2);
  PP = &p;
  for (int o = 1; o <= 5; ++o)
    make_job(o, p.on(1 + o % 2));
  p.w.then[2] = [](int) { start(4, -1, 1 + 4 % 2); start(5, -1, 1 + 5 % 2); };
  std::thread a([&] { start(1, -1, 1 + 1 % 2); });
  start(2, -1, 1 + 2 % 2);
  start(3, -1, 1 + 3 % 2);
  for (int o = 1; o <= 5; ++o)
    wait(o);
  a.join();
}
VS_SCENARIO(stopped)
{
  P p(1 + vs::choose(2));
  for (int o = 1; o <= 3; ++o)
    make_job(o, p.sch());
  if (vs::choose(2))
    stop(1);
  std::thread a([&] { stop(2); stop(3); });
  for (int o = 1; o <= 3; ++o)
    start(o);
  for (int o = 1; o <= 3; ++o)
    wait(o);
  a.join();
}
VS_SCENARIO(bulk)
{
  P   p(1 + vs::choose(3));
  int var = vs::choose(6), n = vs::choose(6);
  make_bulk(1, p.sch(), n, var);
  if (!nx(var) && vs::choose(2) && n)
    p.w.thr[1] = vs::choose(n);
  start(1, n, 0, var == 3);
  wait(1);
}
VS_SCENARIO(bulk_many)
{
  P   p(2, 2, 1, 0);
  PP = &p;
  int var = vs::choose(6);
  for (int o = 1; o <= 3; ++o)
    make_bulk(o, p.sch(), 3, o == 1 ? var : o == 2 ? 1 : 0);
  if (!nx(var) && vs::choose(2))
    p.w.thr[1] = vs::choose(3);
  make_job(4, p.sch());
  p.w.then[4] = [](int) { start(2, 3); };
  std::thread a([&] { stop(3); });
  start(4);
  start(1, 3, 0, var == 3);
  start(3, 3);
  for (int o = 1; o <= 4; ++o)
    wait(o);
  a.join();
}
// request_stop when there is nothing to do, from wherever
VS_SCENARIO(shut)
{
  P p(1 + vs::choose(3));
  if (vs::choose(2))
  {
    make_job(1, p.sch());
    start(1);
    wait(1);
  }
  std::thread a([&] { p.p.get().request_stop(); });
  if (vs::choose(2))
    p.p.get().request_stop();
  a.join();
}
// schedule_all: a sequence of items delivered by the workers
namespace
{
  template <bool Skip>
  struct SRcvr
  {
    using receiver_concept = ex::receiver_tag;
    int o;
    template <class Item>
    auto set_next(Item&& it) & noexcept
    {
      if constexpr (Skip)
        return ex::just();   // not interested: ready for the next item at once
      else
        return ex::then(static_cast<Item&&>(it), [o = o](int i) noexcept { Chunk{o}(i, i + 1); });
    }
    auto get_env() const noexcept -> Env<0> { return {o}; }
    void set_value() noexcept { finished(o, "v", 100 + o); }
    void set_stopped() noexcept { finished(o, "s", 0); }
    void set_error(std::exception_ptr) noexcept { finished(o, "e", -1); }
  };
  template <bool Skip, class S>
  struct SeqJob : Job
  {
    exec::subscribe_result_t<S, SRcvr<Skip>> op;
    SeqJob(S&& s, int o) : op(exec::subscribe(std::move(s), SRcvr<Skip>{o})) {}
    void start() noexcept override { ex::start(op); }
  };
  template <bool Skip = false, class S>
  void make_seq(int o, S s)
  {
    W->job[o] = new SeqJob<Skip, S>(std::move(s), o);
  }
}  // namespace
VS_SCENARIO(all)
{
  P   p(1 + vs::choose(2), 2, 1, 0);
  PP = &p;
  int              n = vs::choose(7);
  std::vector<int> r((std::size_t) n);
  std::iota(r.begin(), r.end(), 0);
  make_seq(1, exec::schedule_all(p.p.get(), r));
  make_job(2, p.sch());
  if (vs::choose(2))
  {
    // started by a worker
    static int nn;
    nn          = n;
    p.w.then[2] = [](int) { start(1, nn, -1); };
    start(2);
  }
  else
  {
    start(2);
    start(1, n, -1);
  }
  wait(2);
  wait(1);
}
VS_SCENARIO(all_skip)
{
  P                p(1, 1, 1, 0);
  std::vector<int> r((std::size_t) vs::choose(4));
  make_seq<true>(1, exec::schedule_all(p.p.get(), r));
  start(1, 0, -1);
  wait(1);
}
