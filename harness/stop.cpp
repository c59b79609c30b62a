// P01: stop sources / callbacks.
#include "h.hpp"
#include <stdexec/stop_token.hpp>
#include <stdexec/execution.hpp>
using namespace h;
namespace ex = stdexec;

namespace
{
  struct World;
  struct Fn
  {
    World* w;
    int    k;
    void   operator()() noexcept;
  };
  using Cb = ex::inplace_stop_callback<Fn>;

  struct World
  {
    Box<ex::inplace_stop_source> src;
    Box<Cb>                      cb[6];
    int                          act[6]{};  // what callback k does when run
    int                          nextreq = 0;
    vs::Flag                     ready[6], done;

    void request(int r)
    {
      ev("req_call", F("r", r));
      bool b = src.get().request_stop();
      ev("req_ret", F("r", r), F("b", b));
    }
    void reg(int k)
    {
      ev("reg_call", F("k", k));
      cb[k].make(src.get().get_token(), Fn{this, k});
      ev("reg_ret", F("k", k));
    }
    void dereg(int k)
    {
      ev("dereg_call", F("k", k));
      cb[k].destroy();
      ev("dereg_ret", F("k", k));
    }
    void kill()
    {
      ev("src_call");
      src.destroy();
      ev("src_ret");
    }
    void q()
    {
      bool b = vs::choose(2) ? src.get().stop_requested() : src.get().get_token().stop_requested();
      ev("q", F("b", b));
    }
  };
  void Fn::operator()() noexcept
  {
    World* W = w;
    int    K = k;
    ev("run_b", F("k", K));
    switch (W->act[K])
    {
    case 1: vs::point(); break;
    case 2: W->dereg(K); break;                 // destroys itself
    case 3: W->request(3); break;               // nested request
    case 4: W->reg(5); W->dereg(5); break;      // registers another
    case 6: W->dereg(K); W->kill(); break;      // destroys itself and the source
    case 7: W->dereg(K); W->done.set(); vs::point(); break;  // leads to that on another thread
    case 8: W->dereg(0); W->dereg(1); W->done.set(); vs::point(); break;
    case 5: vs::point(); W->q(); vs::point(); break;
    }
    ev("run_e", F("k", K));
  }
}  // namespace

// one requester, one registering/deregistering thread
VS_SCENARIO(reg_dereg)
{
  World w;
  w.src.make();
  w.act[0] = vs::choose(2) * 1;
  std::thread a([&] { w.request(0); });
  std::thread b([&] { w.reg(0); w.dereg(0); });
  a.join();
  b.join();
  w.src.destroy();
}
// two requesters
VS_SCENARIO(two_req)
{
  World w;
  w.src.make();
  w.act[0] = vs::choose(2) ? 1 : 5;
  w.reg(0);
  std::thread a([&] { w.request(0); w.q(); });
  std::thread b([&] { w.request(1); w.q(); });
  w.q();
  w.dereg(0);
  a.join();
  b.join();
}
// callbacks that destroy themselves / request again / register another
VS_SCENARIO(nested)
{
  World w;
  w.src.make();
  w.act[0] = 2;
  w.act[1] = vs::choose(2) ? 3 : 4;
  w.reg(0);
  w.reg(1);
  std::thread a([&] { w.request(0); });
  std::thread b([&] { w.q(); w.dereg(1); });
  a.join();
  b.join();
  w.q();
}
// removal from the middle / front / back of the list while stop is requested
VS_SCENARIO(list)
{
  World w;
  w.src.make();
  for (int k = 0; k < 4; ++k)
    w.act[k] = vs::choose(2);
  w.reg(0);
  w.reg(1);
  w.reg(2);
  int          x = vs::choose(3), y = vs::choose(2);
  std::thread  a([&] { w.request(0); });
  std::thread  b([&] { w.dereg(x); w.reg(3); });
  int          rest[2], n = 0;
  for (int k = 0; k < 3; ++k)
    if (k != x)
      rest[n++] = k;
  w.dereg(rest[y]);
  w.dereg(rest[1 - y]);
  a.join();
  b.join();
  w.dereg(3);
  w.q();
  w.src.destroy();
}
// registration after the stop; moved-from / default tokens
VS_SCENARIO(late)
{
  World w;
  w.src.make();
  w.act[0] = vs::choose(2);
  std::thread a([&] { w.request(0); });
  std::thread b([&] { w.request(1); w.reg(0); w.dereg(0); });
  w.reg(1);
  w.q();
  w.dereg(1);
  a.join();
  b.join();
}
// the source is destroyed while request_stop is executing
VS_SCENARIO(source_gone)
{
  World w;
  w.src.make();
  int how  = vs::choose(3);
  w.act[0] = 6 + how;
  if (how == 2)
  {
    w.act[1] = 8;
    w.reg(1);
  }
  w.reg(0);
  std::thread a([&] { w.request(0); });
  if (how > 0)
  {
    w.done.wait();
    w.kill();
  }
  a.join();
}
