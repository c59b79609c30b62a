// P16: split, ensure_started, start_detached
#include "leaf.hpp"
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#include <exec/start_detached.hpp>
namespace
{
  constexpr int NH = 6;
  template <class T>
  struct Alloc
  {
    using value_type = T;
    int k;
    explicit Alloc(int kk) noexcept : k(kk) {}
    template <class U>
    Alloc(Alloc<U> const & o) noexcept : k(o.k) {}
    T* allocate(std::size_t n)
    {
      if (C->mode[k] == 4)
        throw std::bad_alloc();
      ev("alc", F("n", (long) (n * sizeof(T))));
      return (T*) ::operator new(n * sizeof(T));
    }
    void deallocate(T* p, std::size_t n)
    {
      ::operator delete((void*) p);
      ev("dea", F("n", (long) (n * sizeof(T))));
    }
    template <class U>
    bool operator==(Alloc<U> const & o) const { return k == o.k; }
  };
  struct AEnv
  {
    int  k;
    auto query(ex::get_allocator_t) const noexcept { return Alloc<std::byte>(k); }
  };
  struct FCore
  {
    ex::inplace_stop_source src[NH];
    vs::Flag                done[NH];
    bool                    sta[NH]{};
    int                     kill[NH]{};
    void (*drop)(void*, int) = {};
    void* self = nullptr;
  };
  struct FEnv
  {
    ex::inplace_stop_token tk;
    auto query(ex::get_stop_token_t) const noexcept { return tk; }
  };
  struct FR
  {
    using receiver_concept = ex::receiver_tag;
    FCore* w;
    int    k;
    void done(char const * c, int v) noexcept
    {
      FCore* ww = w;
      int    kk = k;
      ev("f_done", F("h", kk), F("c", c), F("v", v));
      if (ww->kill[kk])
        ww->drop(ww->self, kk);
      ww->done[kk].set();
    }
    void set_value(int const & v) noexcept { done("v", v); }
    void set_error(int const & v) noexcept { done("e", v); }
    void set_error(std::exception_ptr) noexcept { done("x", 0); }
    void set_stopped() noexcept { done("s", 0); }
    FEnv get_env() const noexcept { return FEnv{w->src[k].get_token()}; }
  };
  template <bool Split>
  struct World : Core
  {
    static auto mk(int k)
    {
      if constexpr (Split)
        return exec::split(Leaf<true>{k}, AEnv{k});
      else
        return exec::ensure_started(Leaf<true>{k}, AEnv{k});
    }
    using S = decltype(mk(1));
    using O = ex::connect_result_t<S, FR>;
    FCore  fc;
    Box<S> snd[NH];
    Box<O> op[NH];
    bool   ok = false;
    World()
    {
      C       = this;
      fc.self = this;
      fc.drop = [](void* s, int h) { ((World*) s)->odrop(h); };
      mode[1] = vs::choose(3);
      how[1]  = "vve"[vs::choose(3)];
      if (vs::choose(8) == 0)
        mode[1] = 3 + vs::choose(2);
      ev("mk_call", F("kind", Split ? "split" : "ensure"));
      try
      {
        snd[1].make_from([&] { return mk(1); });
        ok = true;
        ev("mk_ret");
      }
      catch (...)
      {
        ev("mk_thr");
      }
      if (!Split || !ok)
        settled[1].set();
    }
    void copy(int from, int to)
    {
      if constexpr (Split)
      {
        snd[to].make_from([&] { return snd[from].get(); });
        ev("copy", F("h", to));
      }
    }
    void sdrop(int h)
    {
      if (!snd[h].live)
        return;
      ev("f_drop", F("h", h));
      snd[h].destroy();
      ev("f_gone", F("h", h));
    }
    void odrop(int h)
    {
      ev("f_drop", F("h", h));
      op[h].destroy();
      ev("f_gone", F("h", h));
    }
    void connect(int h)
    {
      if constexpr (Split)
        if (vs::choose(3) == 0)
        {
          // connecting an lvalue makes another reference; the sender goes later
          ev("copy", F("h", h + 3));
          ev("f_con", F("h", h));
          op[h].make_from([&] { return ex::connect(std::as_const(snd[h].get()), FR{&fc, h}); });
          ev("f_drop", F("h", h + 3));
          snd[h].destroy();
          ev("f_gone", F("h", h + 3));
          return;
        }
      ev("f_con", F("h", h));
      op[h].make_from([&] { return ex::connect(std::move(snd[h].get()), FR{&fc, h}); });
      snd[h].destroy();
    }
    // 0: drop the sender, 1: connect and drop, 2: start
    void use(int h, int what)
    {
      if (what == 0)
        return sdrop(h);
      connect(h);
      if (what == 1)
        return odrop(h);
      fc.kill[h] = vs::choose(2);
      ev("f_sta", F("h", h));
      mark(h);
      ex::start(op[h].get());
    }
    VS_NOSAN void mark(int h) { fc.sta[h] = true; }
    void fstop(int h)
    {
      ev("fs_call", F("h", h));
      fc.src[h].request_stop();
      ev("fs_ret", F("h", h));
    }
    void finish(int h)
    {
      if (!fc.sta[h])
        return;
      fc.done[h].wait();
      if (!fc.kill[h])
        odrop(h);
    }
  };
  int pick() { return vs::choose(3) ? 2 : vs::choose(2); }
}  // namespace

// several consumers, on different threads
VS_SCENARIO(split)
{
  World<true> w;
  if (!w.ok)
    return;
  int n = 2 + vs::choose(2);
  w.copy(1, 2);
  if (n == 3)
    w.copy(2, 3);
  int         u1 = pick(), u2 = pick(), u3 = pick(), st = vs::choose(4);
  std::thread a([&] { w.use(1, u1); });
  std::thread b([&] { w.use(2, u2); });
  std::thread c([&] { w.complete(1); });
  std::thread d([&] {
    if (st & 1)
      w.fstop(1);
    if (st & 2)
      w.fstop(2);
  });
  if (n == 3)
    w.use(3, u3);
  a.join();
  b.join();
  if (vs::choose(2) && w.is_started(1))
    w.complete(1);
  w.settled[1].set();
  c.join();
  d.join();
  for (int h = 1; h <= n; ++h)
    w.finish(h);
  ev("end");
}
// the last two consumers leave at the same time
VS_SCENARIO(split_leave)
{
  World<true> w;
  if (!w.ok)
    return;
  w.copy(1, 2);
  w.copy(1, 3);
  w.use(3, 2);
  int         u1 = vs::choose(2), u2 = vs::choose(2);
  std::thread a([&] { w.use(1, u1); });
  std::thread b([&] { w.use(2, u2); });
  if (vs::choose(3))
    w.fstop(3);
  a.join();
  b.join();
  w.complete(1);
  w.finish(3);
  ev("end");
}
// a consumer that comes when the work is done
VS_SCENARIO(split_late)
{
  World<true> w;
  if (!w.ok)
    return;
  w.copy(1, 2);
  w.copy(1, 3);
  std::thread a([&] { w.use(1, 2); });
  std::thread c([&] { w.complete(1); });
  if (vs::choose(2))
    w.sdrop(3);
  w.settled[1].wait();
  c.join();
  if (vs::choose(2))
    w.fstop(2);
  w.use(2, pick());
  w.sdrop(3);
  a.join();
  w.finish(1);
  w.finish(2);
  ev("end");
}
VS_SCENARIO(ensure)
{
  World<false> w;
  if (!w.ok)
    return;
  int         u = pick(), st = vs::choose(2);
  std::thread c([&] { w.complete(1); });
  std::thread d([&] {
    if (st)
      w.fstop(1);
  });
  w.use(1, u);
  c.join();
  d.join();
  w.finish(1);
  ev("end");
}
VS_SCENARIO(detached)
{
  Core k;
  C         = &k;
  k.mode[1] = vs::choose(2);
  k.how[1]  = 'v';
  if (vs::choose(6) == 0)
    k.mode[1] = 3 + vs::choose(2);
  ev("mk_call", F("kind", "detached"));
  try
  {
    exec::start_detached(Leaf<false>{1}, AEnv{1});
    ev("mk_ret");
  }
  catch (...)
  {
    ev("mk_thr");
  }
  k.settled[1].set();
  std::thread c([&] { k.complete(1); });
  c.join();
  ev("end");
}
