// See vsched.hpp.  Compiled WITHOUT -fsanitize=thread.
#include "vsched.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vs
{
  namespace
  {
    constexpr int MAXT = 16;
    using VC = uint32_t[MAXT];
    inline void vc_join(uint32_t* a, uint32_t const * b)
    {
      for (int i = 0; i < MAXT; ++i)
        if (b[i] > a[i])
          a[i] = b[i];
    }

    long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
    {
      register long r10 asm("r10") = d;
      register long r8 asm("r8")   = e;
      register long r9 asm("r9")   = f;
      long          ret;
      asm volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
      return ret;
    }

    enum State
    {
      RUNNABLE,
      BLOCKED,
      DONE
    };
    enum WaitKind
    {
      W_NONE,
      W_MUTEX,
      W_COND,
      W_FUTEX,
      W_JOIN,
      W_SLEEP,
      W_FLAG,
      W_SEM
    };

    struct Thr
    {
      int          id    = 0;
      State        state = RUNNABLE;
      pthread_t    real{};
      int          baton    = 0;
      WaitKind     wk       = W_NONE;
      void const * waddr    = nullptr;
      uint64_t     deadline = 0;  // 0: none
      bool         timed_out = false;
      bool         signaled  = false;
      long         prio      = 0;
      int          nochange  = 0;
      bool         stalled   = false;
      uint64_t     arrival   = 0;
      VC           vc{};
      VC           relfence{};
      VC           acqpend{};
      void* (*fn)(void*) = nullptr;
      void* arg          = nullptr;
      void* ret          = nullptr;
      bool  detached     = false;
      bool  joined       = false;
    };

    struct StoreRec
    {
      uint64_t val;
      int      tid;  // -1: initial
      uint32_t clk;
      bool     sc;
      VC       rel;
    };
    struct AtomicLoc
    {
      std::vector<StoreRec> hist;
      long                  base = 0;
      struct
      {
        long     idx;
        uint32_t clk;
      } lastread[MAXT]{};
    };

    struct MutexRec
    {
      int owner = -1;
      VC  vc{};
    };

    struct Cell
    {
      uint32_t exec;
      uint32_t wclk;
      uint8_t  wtid;
      uint8_t  wmask;
      uint8_t  dead;
      uint8_t  pad;
      uint8_t  rmask[MAXT];
      uint8_t  ratom;  // bitmask over low 8 threads: that read record is an atomic access
      uint32_t rclk[MAXT];
    };
    constexpr size_t PAGE_CELLS = 4096 / 8;

    struct Choice
    {
      uint16_t c, n;
    };

    struct Shm
    {
      volatile long     idx;
      volatile long     steps_total;
      volatile long     heartbeat;
      volatile long     execs;
      volatile long     distinct;
      volatile int      dfs_done;
      volatile int      in_exec;
      volatile int      fatal;  // event text complete; child exited on purpose
      long              abnormal;
      long              switches;
      size_t            len;
      int               nch;
      int               dfs_len;
      Choice            dfs[100000];
      char              cfg[1 << 16];
      char              buf[8 << 20];
    };

    enum Mode
    {
      M_RAND,
      M_PCT,
      M_DFS,
      M_MIX
    };

    struct G
    {
      Shm*        shm = nullptr;
      uint32_t    exec = 0;
      Thr*        thr[MAXT]{};
      int         nthr = 0;
      Thr*        cur  = nullptr;
      uint64_t    vtime = 0;
      long        steps = 0;
      long        max_steps = 60000;
      long        idle_rounds = 0;
      bool        races = true;
      bool        race_seen = false;
      bool        uaf_seen = false;
      int         stale = 0;
      int         stale_default = 0;
      int         ncpu = 2;
      bool        timepass = true;
      bool        leakcheck = false;
      Mode        mode = M_RAND;
      Mode        emode = M_RAND;
      uint64_t    rng = 1;
      int         switch_pct = 20;
      std::vector<long> change_pts;
      long        low_prio = 0;
      int         dfs_bound = 2;
      int         preempts = 0;
      int         dfs_pos = 0;
      uint64_t    arrival = 0;
      long        nalloc = 0, balloc = 0;
      VC          scclock{};
      std::unordered_map<void const *, AtomicLoc> atoms;
      std::unordered_map<void const *, MutexRec>  mutexes;
      std::unordered_map<void const *, long>      sems;
      std::unordered_map<long, std::pair<int, uint32_t>> hbkeys;
      std::unordered_map<void const *, std::vector<uint32_t>> flagvc;
      std::unordered_map<uint64_t, Cell*>         pages;
      uint64_t    lastpg = ~0ull;
      Cell*       lastcells = nullptr;
      std::vector<void*> quarantine;
      pthread_t   main_thread{};
      int         done_futex = 0;
      bool        running = false;
    } g;

    thread_local Thr* self  = nullptr;
    thread_local int  in_rt = 0;
    struct RT
    {
      RT() { ++in_rt; }
      ~RT() { --in_rt; }
    };
    inline bool managed() { return self != nullptr && in_rt == 0; }

    Scenario* scenarios = nullptr;

    // ---------------- rng ------------------------------------------------------
    uint64_t splitmix(uint64_t& x)
    {
      uint64_t z = (x += 0x9e3779b97f4a7c15ull);
      z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
    }
    uint64_t rnd() { return splitmix(g.rng); }

    // ---------------- trace ------------------------------------------------------
    void append(char const * s, size_t n)
    {
      Shm* s_ = g.shm;
      if (s_->len + n + 64 >= sizeof s_->buf)
        return;
      memcpy(s_->buf + s_->len, s, n);
      s_->len += n;
    }

    void fatal_exit()
    {
      g.shm->fatal = 1;
      rsys(SYS_exit_group, 77);
    }

    void ev_rt(char const * e, char const * fields)
    {
      char hd[128];
      int  n = snprintf(hd, sizeof hd, "%s{\"e\":\"%s\",\"t\":%d", g.shm->len ? "," : "", e, self ? self->id : -1);
      append(hd, n);
      if (fields && *fields)
      {
        append(",", 1);
        append(fields, strlen(fields));
      }
      append("}", 1);
    }

    std::string blocked_desc()
    {
      static char const * nm[] = {"none", "mutex", "cond", "futex", "join", "sleep", "flag", "sem"};
      std::string         s = "\"who\":\"";
      for (int i = 0; i < g.nthr; ++i)
      {
        Thr* t = g.thr[i];
        s += std::to_string(i) + ":" + (t->state == DONE ? "done" : t->state == RUNNABLE ? "run" : nm[t->wk]) + " ";
      }
      return s + "\"";
    }

    // ---------------- baton ------------------------------------------------------
    void hand_to(Thr* next)
    {
      ++g.shm->switches;
      g.cur = next;
      __atomic_store_n(&next->baton, 1, __ATOMIC_RELEASE);
      rsys(SYS_futex, (long) &next->baton, FUTEX_WAKE_PRIVATE, 1);
    }
    void wait_baton(Thr* me)
    {
      while (__atomic_load_n(&me->baton, __ATOMIC_ACQUIRE) == 0)
        rsys(SYS_futex, (long) &me->baton, FUTEX_WAIT_PRIVATE, 0, 0);
      me->baton = 0;
    }

    void unstall_all()
    {
      for (int i = 0; i < g.nthr; ++i)
      {
        g.thr[i]->stalled  = false;
        g.thr[i]->nochange = 0;
      }
    }

    // The running thread changed something the others can see.
    void progress()
    {
      g.idle_rounds = 0;
      for (int i = 0; i < g.nthr; ++i)
        if (g.thr[i] != self)
        {
          g.thr[i]->stalled  = false;
          g.thr[i]->nochange = 0;
        }
      if (self)
        self->nochange = 0;
    }
    void no_progress()
    {
      if (++self->nochange > 24)
        self->stalled = true;
    }

    void wake(Thr* t, bool timeout)
    {
      t->state     = RUNNABLE;
      t->timed_out = timeout;
      t->wk        = W_NONE;
      t->deadline  = 0;
      t->stalled   = false;
      t->nochange  = 0;
    }

    bool advance_time()
    {
      Thr* best = nullptr;
      for (int i = 0; i < g.nthr; ++i)
      {
        Thr* t = g.thr[i];
        if (t->state == BLOCKED && t->deadline && (!best || t->deadline < best->deadline))
          best = t;
      }
      if (!best)
        return false;
      if (best->deadline > g.vtime)
        g.vtime = best->deadline;
      wake(best, true);
      g.idle_rounds = 0;
      return true;
    }

    int dfs_choice(int n)
    {
      // returns the choice at this position of the DFS stack
      if (n <= 1)
        return 0;
      Shm* s = g.shm;
      if (g.dfs_pos < s->dfs_len)
      {
        int c = s->dfs[g.dfs_pos].c;
        if (s->dfs[g.dfs_pos].n != n)
        {
          s->dfs[g.dfs_pos].n = n;  // nondeterminism in the code under test: clamp
          if (c >= n)
            c = s->dfs[g.dfs_pos].c = n - 1;
        }
        ++g.dfs_pos;
        return c;
      }
      if (s->dfs_len >= 100000 - 1)
        return 0;
      s->dfs[s->dfs_len].c = 0;
      s->dfs[s->dfs_len].n = n;
      ++s->dfs_len;
      ++g.dfs_pos;
      return 0;
    }

    // Choose the next thread to run.  `me_ok`: the running thread may continue.
    Thr* pick(Thr* me, bool me_ok)
    {
      if (me && me->state != RUNNABLE)
        me_ok = true;  // once woken it may run
      for (;;)
      {
        Thr* cand[MAXT];
        int  n = 0;
        // occasionally let time pass although threads could run
        if (g.emode != M_DFS && g.timepass)
        {
          bool anyt = false;
          for (int i = 0; i < g.nthr; ++i)
            anyt |= g.thr[i]->state == BLOCKED && g.thr[i]->deadline;
          if (anyt && rnd() % 64 == 0)
            advance_time();
        }
        bool me_in = false;
        if (me && me_ok && me->state == RUNNABLE && !me->stalled)
        {
          cand[n++] = me;
          me_in     = true;
        }
        for (int i = 0; i < g.nthr; ++i)
        {
          Thr* t = g.thr[i];
          if (t != me && t->state == RUNNABLE && !t->stalled)
            cand[n++] = t;
        }
        if (n == 0)
        {
          bool anyrun = false;
          for (int i = 0; i < g.nthr; ++i)
            anyrun |= g.thr[i]->state == RUNNABLE;
          if (advance_time())
            continue;
          if (!anyrun)
            return nullptr;  // deadlock or all done
          unstall_all();
          g.vtime += 20000;
          if (++g.idle_rounds > 400)
          {
            ev_rt("livelock", blocked_desc().c_str());
            fatal_exit();
          }
          continue;
        }
        if (n == 1)
          return cand[0];
        switch (g.emode)
        {
        case M_DFS:
          if (me_in && g.preempts >= g.dfs_bound)
            return me;
          {
            int c = dfs_choice(n);
            if (me_in && c != 0)
              ++g.preempts;
            return cand[c];
          }
        case M_PCT:
        {
          for (long p: g.change_pts)
            if (p == g.steps && me)
              me->prio = --g.low_prio;
          Thr* b = cand[0];
          for (int i = 1; i < n; ++i)
            if (cand[i]->prio > b->prio)
              b = cand[i];
          return b;
        }
        default:
          if (me_in && (int) (rnd() % 100) >= g.switch_pct)
            return me;
          return cand[rnd() % n];
        }
      }
    }

    void sched(bool me_ok)
    {
      Thr* me = self;
      ++g.steps;
      ++g.shm->heartbeat;
      if (g.steps > g.max_steps)
      {
        ev_rt("livelock", blocked_desc().c_str());
        fatal_exit();
      }
      Thr* nx = pick(me, me_ok);
      if (!nx)
      {
        ev_rt("deadlock", blocked_desc().c_str());
        fatal_exit();
      }
      if (nx != me)
      {
        hand_to(nx);
        wait_baton(me);
      }
    }

    void block(WaitKind k, void const * a, uint64_t deadline)
    {
      Thr* me       = self;
      me->state     = BLOCKED;
      me->wk        = k;
      me->waddr     = a;
      me->deadline  = deadline;
      me->timed_out = false;
      me->arrival   = ++g.arrival;
      sched(false);
    }

    void wake_all(WaitKind k, void const * a, int n)
    {
      while (n-- > 0)
      {
        Thr* b = nullptr;
        for (int i = 0; i < g.nthr; ++i)
        {
          Thr* t = g.thr[i];
          if (t->state == BLOCKED && t->wk == k && t->waddr == a && (!b || t->arrival < b->arrival))
            b = t;
        }
        if (!b)
          return;
        wake(b, false);
      }
    }

    inline void tick() { ++self->vc[self->id]; }

    // ---------------- shadow ------------------------------------------------------
    inline Cell* cell_of(uint64_t a)
    {
      uint64_t pg = a >> 12;
      if (pg != g.lastpg)
      {
        Cell*& p = g.pages[pg];
        if (!p)
          p = (Cell*) mmap(nullptr, sizeof(Cell) * PAGE_CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        g.lastpg    = pg;
        g.lastcells = p;
      }
      Cell* c = &g.lastcells[(a & 4095) >> 3];
      if (c->exec != g.exec)
      {
        memset(c, 0, sizeof *c);
        c->exec = g.exec;
      }
      return c;
    }

    void report(char const * what, uint64_t a, void* pc, int other)
    {
      bool& seen = what[0] == 'r' ? g.race_seen : g.uaf_seen;
      if (seen)
        return;
      seen = true;
      Dl_info di{};
      dladdr(pc, &di);
      char b[200];
      snprintf(b, sizeof b, "\"pc\":\"0x%lx\",\"other\":%d", (unsigned long) ((char*) pc - (char*) di.dli_fbase), other);
      ev_rt(what, b);
      (void) a;
    }

    void access(void const * p, size_t n, bool w, bool atomic, void* pc)
    {
      uint64_t a = (uint64_t) p;
      Thr*     t = self;
      while (n)
      {
        unsigned off = a & 7;
        size_t   k   = std::min<size_t>(8 - off, n);
        uint8_t  m   = (uint8_t) (((1u << k) - 1) << off);
        Cell*    c   = cell_of(a);
        if (c->dead)
          report("uaf", a, pc, c->wtid);
        if (g.races)
        {
          if (c->wclk && c->wtid != t->id && (c->wmask & m) && c->wclk > t->vc[c->wtid])
            report("race", a, pc, c->wtid);
          if (w && !atomic)
          {
            for (int i = 0; i < g.nthr; ++i)
              if (i != t->id && c->rclk[i] && (c->rmask[i] & m) && c->rclk[i] > t->vc[i])
                report("race", a, pc, i);
            c->wclk  = t->vc[t->id];
            c->wtid  = t->id;
            c->wmask = m;
          }
          else
          {
            if (c->rclk[t->id] == t->vc[t->id])
              c->rmask[t->id] |= m;
            else
            {
              c->rclk[t->id]  = t->vc[t->id];
              c->rmask[t->id] = m;
            }
          }
        }
        a += k;
        n -= k;
      }
    }

    void shadow_clear(void const * p, size_t n)
    {
      for (uint64_t a = (uint64_t) p & ~7ull, e = (uint64_t) p + n; a < e; a += 8)
      {
        uint64_t pg = a >> 12;
        auto     it = g.pages.find(pg);
        if (it == g.pages.end())
        {
          a = ((pg + 1) << 12) - 8;
          continue;
        }
        it->second[(a & 4095) >> 3].exec = 0;
      }
      g.lastpg = ~0ull;
    }

    // ---------------- atomics -----------------------------------------------------
    bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

    AtomicLoc& loc_of(void const * p, uint64_t cur)
    {
      AtomicLoc& L = g.atoms[p];
      if (L.hist.empty() || L.hist.back().val != cur)
      {
        L.base += (long) L.hist.size();
        L.hist.clear();
        StoreRec s{};
        s.val = cur;
        s.tid = -1;
        L.hist.push_back(s);
      }
      return L;
    }
    void acq(int mo, uint32_t const * rel)
    {
      if (is_acq(mo))
        vc_join(self->vc, rel);
      else
        vc_join(self->acqpend, rel);
    }
    void push_store(AtomicLoc& L, uint64_t v, int mo, bool rmw)
    {
      StoreRec s{};
      s.val = v;
      s.tid = self->id;
      s.clk = self->vc[self->id];
      s.sc  = mo == 5;
      if (is_rel(mo))
        memcpy(s.rel, self->vc, sizeof(VC));
      else
        memcpy(s.rel, self->relfence, sizeof(VC));
      if (rmw)
        vc_join(s.rel, L.hist.back().rel);
      L.hist.push_back(s);
      if (L.hist.size() > 12)
      {
        L.hist.erase(L.hist.begin());
        ++L.base;
      }
    }

    template <class T>
    T a_load(T volatile * p, int mo, void* pc)
    {
      if (!managed())
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);
      RT  r;
      sched(true);
      access((void const *) p, sizeof(T), false, true, pc);
      T          v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
      AtomicLoc& L = loc_of((void const *) p, (uint64_t) v);
      long       i = (long) L.hist.size() - 1;
      if (g.stale > 0 && g.emode != M_DFS && i > 0 && (int) (rnd() % 100) < g.stale)
      {
        long lo = 0;
        for (long k = i; k >= 0; --k)
        {
          StoreRec& s = L.hist[k];
          if (s.tid < 0 || s.clk <= self->vc[s.tid] || (mo == 5 && s.sc))
          {
            lo = k;
            break;
          }
        }
        for (int t = 0; t < g.nthr; ++t)
          if (L.lastread[t].clk && L.lastread[t].clk <= self->vc[t])
            lo = std::max(lo, L.lastread[t].idx - L.base);
        if (lo < i)
          i = lo + (long) (rnd() % (uint64_t) (i - lo + 1));
      }
      acq(mo, L.hist[i].rel);
      L.lastread[self->id] = {L.base + i, self->vc[self->id]};
      v                    = (T) L.hist[i].val;
      tick();
      no_progress();
      return v;
    }
    template <class T>
    void a_store(T volatile * p, T v, int mo, void* pc)
    {
      if (!managed())
      {
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
        return;
      }
      RT r;
      sched(true);
      access((void const *) p, sizeof(T), true, true, pc);
      T          old = __atomic_load_n(p, __ATOMIC_SEQ_CST);
      AtomicLoc& L   = loc_of((void const *) p, (uint64_t) old);
      push_store(L, (uint64_t) v, mo, false);
      __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
      tick();
      if (old != v)
        progress();
      else
        no_progress();
    }
    template <class T, class Fn>
    T a_rmw(T volatile * p, int mo, void* pc, Fn fn)
    {
      if (!managed())
      {
        T o = __atomic_load_n(p, __ATOMIC_SEQ_CST);
        while (!__atomic_compare_exchange_n(p, &o, fn(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
          ;
        return o;
      }
      RT r;
      sched(true);
      access((void const *) p, sizeof(T), true, true, pc);
      T          old = __atomic_load_n(p, __ATOMIC_SEQ_CST);
      T          nw  = fn(old);
      AtomicLoc& L   = loc_of((void const *) p, (uint64_t) old);
      acq(mo, L.hist.back().rel);
      push_store(L, (uint64_t) nw, mo, true);
      L.lastread[self->id] = {L.base + (long) L.hist.size() - 1, self->vc[self->id]};
      __atomic_store_n(p, nw, __ATOMIC_SEQ_CST);
      tick();
      if (old != nw)
        progress();
      else
        no_progress();
      return old;
    }
    template <class T>
    bool a_cas(T volatile * p, T* exp, T des, int mo, int fmo, void* pc, bool weak)
    {
      if (!managed())
        return __atomic_compare_exchange_n(p, exp, des, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
      RT r;
      sched(true);
      access((void const *) p, sizeof(T), true, true, pc);
      T          old = __atomic_load_n(p, __ATOMIC_SEQ_CST);
      AtomicLoc& L   = loc_of((void const *) p, (uint64_t) old);
      bool       ok  = old == *exp;
      if (ok && weak && g.emode != M_DFS && rnd() % 50 == 0)
        ok = false;  // spurious failure
      if (ok)
      {
        acq(mo, L.hist.back().rel);
        push_store(L, (uint64_t) des, mo, true);
        __atomic_store_n(p, des, __ATOMIC_SEQ_CST);
      }
      else
        acq(fmo, L.hist.back().rel);
      L.lastread[self->id] = {L.base + (long) L.hist.size() - 1, self->vc[self->id]};
      tick();
      if (ok && old != des)
        progress();
      else
        no_progress();
      if (!ok)
        *exp = old;
      return ok;
    }
    void a_fence(int mo)
    {
      if (!managed())
      {
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
        return;
      }
      RT r;
      sched(true);
      if (is_acq(mo))
        vc_join(self->vc, self->acqpend);
      if (mo == 5)
      {
        vc_join(self->vc, g.scclock);
        vc_join(g.scclock, self->vc);
      }
      if (is_rel(mo))
        memcpy(self->relfence, self->vc, sizeof(VC));
      tick();
    }

    // ---------------- threads ------------------------------------------------------
    template <class Fn>
    Fn real(char const * name)
    {
      return (Fn) dlsym(RTLD_NEXT, name);
    }

    Thr* new_thr()
    {
      if (g.nthr >= MAXT)
      {
        fprintf(stderr, "vsched: too many threads\n");
        _exit(99);
      }
      Thr* t           = new Thr;
      t->id            = g.nthr;
      t->prio          = (long) (rnd() % 1000000) + 10;
      g.thr[g.nthr++]  = t;
      t->vc[t->id]     = 1;
      return t;
    }

    void* thr_main(void* p)
    {
      Thr* me = (Thr*) p;
      ++in_rt;
      wait_baton(me);
      {
        pthread_attr_t at;
        void*          sa;
        size_t         ss;
        if (pthread_getattr_np(pthread_self(), &at) == 0)
        {
          pthread_attr_getstack(&at, &sa, &ss);
          pthread_attr_destroy(&at);
          shadow_clear(sa, ss);
        }
      }
      self = me;
      --in_rt;
      void* r = me->fn(me->arg);
      ++in_rt;
      me->ret   = r;
      me->state = DONE;
      progress();
      wake_all(W_JOIN, me, 1);
      // pick a successor
      Thr* nx = pick(nullptr, false);
      if (nx)
      {
        self = nullptr;
        hand_to(nx);
      }
      else
      {
        bool all = true;
        for (int i = 0; i < g.nthr; ++i)
          all &= g.thr[i]->state == DONE;
        if (!all)
        {
          ev_rt("deadlock", blocked_desc().c_str());
          fatal_exit();
        }
        self = nullptr;
        __atomic_store_n(&g.done_futex, 1, __ATOMIC_RELEASE);
        rsys(SYS_futex, (long) &g.done_futex, FUTEX_WAKE_PRIVATE, 1);
      }
      return r;
    }

    // ---------------- allocation --------------------------------------------------
    struct Hdr
    {
      uint64_t magic;
      uint32_t exec;
      uint32_t freed;
      uint64_t size;
      void*    base;
    };
    constexpr uint64_t MAGIC = 0x5643484544414c4cull;

    void* do_new(size_t n, size_t al)
    {
      if (al < 16)
        al = 16;
      char* b = (char*) malloc(n + al + sizeof(Hdr));
      if (!b)
        return nullptr;
      uint64_t u = ((uint64_t) b + sizeof(Hdr) + al - 1) & ~(uint64_t) (al - 1);
      Hdr*     h = (Hdr*) (u - sizeof(Hdr));
      *h         = {MAGIC, 0, 0, n, b};
      if (managed())
      {
        RT r;
        h->exec = g.exec;
        ++g.nalloc;
        g.balloc += (long) n;
        memset((void*) u, 0xA5, n);
        shadow_clear((void*) u, n);
      }
      return (void*) u;
    }
    void do_delete(void* p, size_t n, bool sized)
    {
      if (!p)
        return;
      Hdr* h = (Hdr*) ((char*) p - sizeof(Hdr));
      if (h->magic != MAGIC)
      {
        if (managed())
        {
          RT r;
          ev_rt("badfree", "");
          fatal_exit();
        }
        return;
      }
      if (h->exec != g.exec || !g.running)
      {
        if (!h->freed)
          free(h->base);
        return;
      }
      RT r;
      if (h->freed)
      {
        ev_rt("doublefree", "");
        fatal_exit();
      }
      if (sized && n != h->size && self)
        ev_rt("badfree", "\"why\":\"size\"");
      if (self && managed() == false && g.races && self)
        access(p, h->size, true, false, __builtin_return_address(0));
      h->freed = 1;
      --g.nalloc;
      g.balloc -= (long) h->size;
      for (size_t i = 0; i < h->size; i += 8)
        cell_of((uint64_t) p + i)->dead = 1;
      g.quarantine.push_back(h->base);
    }

    // ---------------- driver --------------------------------------------------------
    struct Opts
    {
      std::string scn;
      Mode        mode = M_MIX;
      long        n    = 100;
      uint64_t    seed = 1;
      std::string out;
      double      max_s = 1e9;
      int         bound = 2;
      int         stale = 0;
      long        start = 0, stride = 1;
      int         cpu   = -1;
      std::string replay;
      long        max_distinct = 1000000000;
      bool        verbose = false;
    } o;

    uint64_t fnv(char const * s, size_t n)
    {
      uint64_t h = 1469598103934665603ull;
      for (size_t i = 0; i < n; ++i)
        h = (h ^ (unsigned char) s[i]) * 1099511628211ull;
      return h;
    }

    void reset_exec(uint64_t seed, long idx, Mode m)
    {
      RT r;
      ++g.exec;
      for (int i = 0; i < g.nthr; ++i)
        delete g.thr[i];
      g.nthr  = 0;
      g.vtime = 1000000000ull;
      g.steps = 0;
      g.max_steps   = 60000;
      g.idle_rounds = 0;
      g.races       = true;
      g.race_seen = g.uaf_seen = false;
      g.stale       = g.stale_default;
      g.ncpu        = 2;
      g.timepass    = true;
      g.leakcheck   = false;
      g.preempts = g.dfs_pos = 0;
      g.arrival                = 0;
      g.low_prio               = 0;
      g.nalloc = g.balloc = 0;
      memset(g.scclock, 0, sizeof g.scclock);
      g.atoms.clear();
      g.mutexes.clear();
      g.sems.clear();
      g.hbkeys.clear();
      g.flagvc.clear();
      g.rng = seed * 0x9e3779b97f4a7c15ull + (uint64_t) idx * 0xd1342543de82ef95ull + fnv(o.scn.data(), o.scn.size());
      rnd();
      if (m == M_MIX)
        m = (rnd() & 1) ? M_PCT : M_RAND;
      g.emode = m;
      g.change_pts.clear();
      static int const pcts[] = {3, 8, 15, 30, 50, 80};
      g.switch_pct            = pcts[rnd() % 6];
      if (m == M_PCT)
      {
        static int const ks[] = {15, 30, 60, 120, 250, 500};
        int              k    = ks[rnd() % 6];
        int              d    = 1 + (int) (rnd() % 4);
        for (int i = 0; i < d; ++i)
          g.change_pts.push_back(1 + (long) (rnd() % k));
      }
      g.shm->len    = 0;
      g.shm->cfg[0] = 0;
      g.done_futex  = 0;
    }

    Scenario* find(std::string const & n)
    {
      for (Scenario* s = scenarios; s; s = s->next)
        if (n == s->name)
          return s;
      return nullptr;
    }

    void* scn_thread(void* p)
    {
      ((Scenario*) p)->fn();
      return nullptr;
    }

    void run_one(Scenario* s, long idx, Mode m)
    {
      reset_exec(o.seed, idx, m);
      g.shm->in_exec = 1;
      static auto rc = real<int (*)(pthread_t*, pthread_attr_t const *, void* (*) (void*), void*)>("pthread_create");
      static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
      Thr*        t;
      {
        RT r;
        t      = new_thr();
        t->fn  = scn_thread;
        t->arg = s;
      }
      g.running = true;
      rc(&t->real, nullptr, thr_main, t);
      hand_to(t);
      while (__atomic_load_n(&g.done_futex, __ATOMIC_ACQUIRE) == 0)
        rsys(SYS_futex, (long) &g.done_futex, FUTEX_WAIT_PRIVATE, 0, 0);
      for (int i = 0; i < g.nthr; ++i)
        if (!g.thr[i]->joined && !g.thr[i]->detached)
          rj(g.thr[i]->real, nullptr);
      g.running = false;
      if (g.leakcheck && g.nalloc != 0 && idx != -1)
      {
        char b[64];
        snprintf(b, sizeof b, "\"n\":%ld", g.nalloc);
        ev_rt("leak", b);
      }
      {
        RT r;
        for (void* p: g.quarantine)
          free(p);
        g.quarantine.clear();
      }
      g.shm->in_exec = 0;
      g.shm->steps_total += g.steps;
      ++g.shm->execs;
    }

    std::string rp_of(long idx)
    {
      if (g.mode == M_DFS || o.replay.rfind("dfs:", 0) == 0)
      {
        std::string s = "dfs:";
        for (int i = 0; i < g.shm->dfs_len; ++i)
        {
          if (i)
            s += '.';
          s += std::to_string(g.shm->dfs[i].c);
        }
        return s;
      }
      return "idx:" + std::to_string(idx);
    }

    std::string line_of(long idx)
    {
      std::string s = "{\"scn\":\"" + o.scn + "\",\"rp\":\"" + rp_of(idx) + "\",\"cfg\":";
      s += g.shm->cfg[0] ? g.shm->cfg : "{\"none\":0}";
      s += ",\"ev\":[";
      s.append(g.shm->buf, g.shm->len);
      s += "]}\n";
      return s;
    }

    int out_fd = 1;
    void wr(std::string const & s)
    {
      size_t off = 0;
      while (off < s.size())
      {
        ssize_t k = ::write(out_fd, s.data() + off, s.size() - off);
        if (k <= 0)
          break;
        off += (size_t) k;
      }
    }

    double now_s()
    {
      timespec ts;
      rsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long) &ts);
      return (double) ts.tv_sec + 1e-9 * (double) ts.tv_nsec;
    }

    bool dfs_next()
    {
      Shm* s = g.shm;
      while (s->dfs_len > 0)
      {
        Choice& c = s->dfs[s->dfs_len - 1];
        if (c.c + 1 < c.n)
        {
          ++c.c;
          return true;
        }
        --s->dfs_len;
      }
      return false;
    }

    // Once enough traces were written for validation, the exploration goes on; of the
    // remaining executions only those are written which no specification accepts.
    bool odd_trace()
    {
      if (g.race_seen || g.uaf_seen)
        return true;
      static char const * const odd[] = {"\"e\":\"leak\"", "\"e\":\"doublefree\"", "\"e\":\"badfree\"",
                                         "\"e\":\"uaf\"", "\"e\":\"bad"};
      for (auto* x: odd)
        if (memmem(g.shm->buf, g.shm->len, x, strlen(x)))
          return true;
      return false;
    }

    int child_main(Scenario* s, long from, double t_end)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      g.stale_default = o.stale;
      g.dfs_bound     = o.bound;
      g.mode          = o.mode;
      // warm-up execution: lazily initialised globals
      {
        g.shm->idx = -1;
        Mode m     = o.mode == M_DFS ? M_RAND : o.mode;
        if (o.replay.empty() || o.replay.rfind("idx:", 0) == 0)
          run_one(s, -1, m);
        else
          run_one(s, -1, M_RAND);
        if (g.race_seen || g.uaf_seen)
          wr(line_of(-1));
        --g.shm->execs;
      }
      std::unordered_set<uint64_t> seen;
      if (!o.replay.empty())
      {
        if (o.replay.rfind("dfs:", 0) == 0)
        {
          char const * p    = o.replay.c_str() + 4;
          g.shm->dfs_len    = 0;
          while (*p)
          {
            g.shm->dfs[g.shm->dfs_len].c = (uint16_t) strtol(p, (char**) &p, 10);
            g.shm->dfs[g.shm->dfs_len++].n = 0;
            if (*p == '.')
              ++p;
          }
          g.mode     = M_DFS;
          g.shm->idx = 0;
          run_one(s, 0, M_DFS);
          wr(line_of(0));
        }
        else
        {
          long i     = strtol(o.replay.c_str() + 4, nullptr, 10);
          g.shm->idx = i;
          run_one(s, i, o.mode);
          wr(line_of(i));
        }
        g.shm->dfs_done = 1;
        return 0;
      }
      long cnt = 0;
      for (long i = from; i < o.n; i += o.stride)
      {
        g.shm->idx = i;
        ++g.shm->heartbeat;
        if (o.mode == M_DFS && i != o.start)
        {
          if (!dfs_next())
          {
            g.shm->dfs_done = 1;
            return 0;
          }
        }
        run_one(s, i, o.mode);
        uint64_t h = fnv(g.shm->buf, g.shm->len) ^ (fnv(g.shm->cfg, strlen(g.shm->cfg)) * 31);
        bool const full = g.shm->distinct >= o.max_distinct;
        if (full && !odd_trace())
          ;
        else if (seen.insert(h).second)
        {
          ++g.shm->distinct;
          wr(line_of(i));
          if (g.race_seen || g.uaf_seen)
            if (++g.shm->abnormal > 20)
              return 0;
        }
        if ((++cnt & 7) == 0 && now_s() > t_end)
          return 0;
      }
      return 0;
    }

    int driver(int argc, char** argv)
    {
      for (int i = 1; i < argc; ++i)
      {
        std::string a = argv[i];
        auto        v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list")
        {
          for (Scenario* s = scenarios; s; s = s->next)
            printf("%s\n", s->name);
          return 0;
        }
        else if (a == "--scn")
          o.scn = v();
        else if (a == "--mode")
        {
          auto m = v();
          o.mode = m == "dfs" ? M_DFS : m == "pct" ? M_PCT : m == "rand" ? M_RAND : M_MIX;
        }
        else if (a == "--n")
          o.n = atol(v().c_str());
        else if (a == "--seed")
          o.seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--out")
          o.out = v();
        else if (a == "--max-s")
          o.max_s = atof(v().c_str());
        else if (a == "--bound")
          o.bound = atoi(v().c_str());
        else if (a == "--stale")
          o.stale = atoi(v().c_str());
        else if (a == "--start")
          o.start = atol(v().c_str());
        else if (a == "--stride")
          o.stride = atol(v().c_str());
        else if (a == "--cpu")
          o.cpu = atoi(v().c_str());
        else if (a == "--replay")
          o.replay = v();
        else if (a == "--max-distinct")
          o.max_distinct = atol(v().c_str());
        else
        {
          fprintf(stderr, "unknown option %s\n", a.c_str());
          return 2;
        }
      }
      Scenario* s = find(o.scn);
      if (!s)
      {
        fprintf(stderr, "no scenario %s\n", o.scn.c_str());
        return 2;
      }
      if (!o.out.empty())
        out_fd = open(o.out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
      g.shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (o.cpu >= 0)
      {
        cpu_set_t allowed, one;
        if (sched_getaffinity(0, sizeof allowed, &allowed) == 0)
        {
          int cnt = CPU_COUNT(&allowed), want = o.cpu % (cnt ? cnt : 1);
          for (int i = 0, k = 0; i < CPU_SETSIZE; ++i)
            if (CPU_ISSET(i, &allowed) && k++ == want)
            {
              CPU_ZERO(&one);
              CPU_SET(i, &one);
              sched_setaffinity(0, sizeof one, &one);
              break;
            }
        }
      }
      double t0 = now_s(), t_end = t0 + o.max_s;
      long   from     = o.start;
      int    restarts = 0, abn = 0;
      for (;;)
      {
        g.shm->fatal   = 0;
        g.shm->in_exec = 0;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
          _exit(child_main(s, from, t_end));
        int    st    = 0;
        long   hb    = -1;
        double hb_t  = now_s();
        bool   hung  = false;
        for (;;)
        {
          pid_t r = waitpid(pid, &st, WNOHANG);
          if (r == pid)
            break;
          if (g.shm->heartbeat != hb)
          {
            hb   = g.shm->heartbeat;
            hb_t = now_s();
          }
          else if (now_s() - hb_t > 30)
          {
            hung = true;
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
          }
          timespec ts{0, 2000000};
          rsys(SYS_nanosleep, (long) &ts, 0);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
          break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99)
          return 99;
        // abnormal end of an execution: record its trace
        ++abn;
        g.mode = o.mode;
        if (!g.shm->fatal)
        {
          char b[96];
          int  k = snprintf(b, sizeof b, "%s{\"e\":\"%s\",\"t\":-1,\"sig\":%d}", g.shm->len ? "," : "", hung ? "hang" : "crash",
                           WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
          append(b, k);
        }
        wr(line_of(g.shm->idx));
        ++g.shm->distinct;
        ++g.shm->execs;
        if (!o.replay.empty())
          break;
        if (++restarts > 20 || now_s() > t_end)
          break;
        if (g.shm->idx < 0)
          break;
        from = g.shm->idx + o.stride;
        if (o.mode == M_DFS && from == o.start)
          from = o.start + o.stride;
      }
      printf("{\"scn\":\"%s\",\"execs\":%ld,\"distinct\":%ld,\"steps\":%ld,\"switches\":%ld,\"exhausted\":%d,\"abnormal\":%d,\"wall\":%.2f}\n",
             o.scn.c_str(), g.shm->execs, g.shm->distinct, g.shm->steps_total, g.shm->switches, g.shm->dfs_done, abn, now_s() - t0);
      return 0;
    }
  }  // namespace

  // ---------------- public -----------------------------------------------------------
  Scenario::Scenario(char const * n, std::function<void()> f)
    : name(n)
    , fn(std::move(f))
    , next(scenarios)
  {
    scenarios = this;
  }

  void ev_raw(char const * e, char const * fields)
  {
    RT r;
    ev_rt(e, fields);
    if (self)
      progress();
  }
  static int put(char* b, size_t n, F const & f)
  {
    return f.s ? snprintf(b, n, "\"%s\":\"%s\"", f.k, f.s) : snprintf(b, n, "\"%s\":%ld", f.k, f.v);
  }
  static void evn(char const * e, F const ** f, int n)
  {
    char b[512];
    int  k = 0;
    b[0]   = 0;
    for (int i = 0; i < n; ++i)
    {
      if (i)
        b[k++] = ',';
      k += put(b + k, sizeof b - (size_t) k, *f[i]);
    }
    ev_raw(e, b);
  }
  void ev(char const * e) { ev_raw(e, ""); }
  void ev(char const * e, F a)
  {
    F const * f[] = {&a};
    evn(e, f, 1);
  }
  void ev(char const * e, F a, F b)
  {
    F const * f[] = {&a, &b};
    evn(e, f, 2);
  }
  void ev(char const * e, F a, F b, F c)
  {
    F const * f[] = {&a, &b, &c};
    evn(e, f, 3);
  }
  void ev(char const * e, F a, F b, F c, F d)
  {
    F const * f[] = {&a, &b, &c, &d};
    evn(e, f, 4);
  }
  void ev(char const * e, F a, F b, F c, F d, F x)
  {
    F const * f[] = {&a, &b, &c, &d, &x};
    evn(e, f, 5);
  }
  void cfg(std::string const & j)
  {
    RT r;
    snprintf(g.shm->cfg, sizeof g.shm->cfg, "%s", j.c_str());
  }
  int tid() { return self ? self->id : -1; }
  int choose(int n)
  {
    if (!managed() || n <= 1)
      return 0;
    RT r;
    if (g.emode == M_DFS)
      return dfs_choice(n);
    return (int) (rnd() % (uint64_t) n);
  }
  void point()
  {
    if (!managed())
      return;
    RT r;
    sched(true);
  }
  void yield_point()
  {
    if (!managed())
      return;
    RT r;
    self->stalled = true;
    sched(true);
  }
  uint64_t vnow_ns() { return g.vtime; }
  bool     active() { return self != nullptr; }

  void mark_dead(void const * p, std::size_t n)
  {
    if (!managed())
      return;
    RT r;
    for (uint64_t a = ((uint64_t) p + 7) & ~7ull, e = (uint64_t) p + n; a + 8 <= e; a += 8)
      cell_of(a)->dead = 1;
  }
  void mark_alive(void const * p, std::size_t n)
  {
    if (!managed())
      return;
    RT r;
    for (uint64_t a = (uint64_t) p & ~7ull, e = (uint64_t) p + n; a < e; a += 8)
      cell_of(a)->dead = 0;
  }
  long live_allocs() { return g.nalloc; }
  long live_bytes() { return g.balloc; }

  void hb_put(long key)
  {
    RT r;
    g.hbkeys[key] = {self->id, self->vc[self->id]};
    tick();
  }
  bool hb_get(long key)
  {
    RT   r;
    auto it = g.hbkeys.find(key);
    if (it == g.hbkeys.end())
      return false;
    return it->second.second <= self->vc[it->second.first];
  }
  void opt_races(bool on) { g.races = on; }
  void opt_max_steps(long n) { g.max_steps = n; }
  void opt_stale(int p) { g.stale = p; }
  void opt_ncpu(int n) { g.ncpu = n; }
  void opt_timepass(bool on) { g.timepass = on; }
  void opt_leakcheck(bool on) { g.leakcheck = on; }

  void Flag::set()
  {
    RT r;
    sched(true);
    auto& v = g.flagvc[this];
    v.resize(MAXT);
    vc_join(v.data(), self->vc);
    tick();
    v_ = true;
    progress();
    wake_all(W_FLAG, this, MAXT);
  }
  bool Flag::get()
  {
    RT r;
    sched(true);
    if (v_)
    {
      auto& v = g.flagvc[this];
      v.resize(MAXT);
      vc_join(self->vc, v.data());
    }
    return v_;
  }
  void Flag::wait()
  {
    RT r;
    sched(true);
    while (!v_)
      block(W_FLAG, this, 0);
    auto& v = g.flagvc[this];
    v.resize(MAXT);
    vc_join(self->vc, v.data());
  }
}  // namespace vs

using namespace vs;

int main(int argc, char** argv)
{
  return driver(argc, argv);
}

// ======================= interposed C functions =======================================
extern "C"
{
  int pthread_create(pthread_t* th, pthread_attr_t const * at, void* (*fn)(void*), void* arg)
  {
    static auto rc = real<int (*)(pthread_t*, pthread_attr_t const *, void* (*) (void*), void*)>("pthread_create");
    if (!managed())
      return rc(th, at, fn, arg);
    RT   r;
    Thr* t = new_thr();
    t->fn  = fn;
    t->arg = arg;
    vc_join(t->vc, self->vc);
    tick();
    int e = rc(&t->real, at, thr_main, t);
    if (e)
    {
      fprintf(stderr, "vsched: pthread_create failed\n");
      _exit(99);
    }
    *th = t->real;
    progress();
    sched(true);
    return 0;
  }
  int pthread_join(pthread_t th, void** ret)
  {
    static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!managed())
      return rj(th, ret);
    RT   r;
    Thr* t = nullptr;
    for (int i = 0; i < g.nthr; ++i)
      if (pthread_equal(g.thr[i]->real, th) && !g.thr[i]->joined)
        t = g.thr[i];
    if (!t)
      return rj(th, ret);
    sched(true);
    while (t->state != DONE)
      block(W_JOIN, t, 0);
    t->joined = true;
    vc_join(self->vc, t->vc);
    progress();
    return rj(th, ret);
  }
  int pthread_detach(pthread_t th)
  {
    static auto rd = real<int (*)(pthread_t)>("pthread_detach");
    for (int i = 0; i < g.nthr; ++i)
      if (pthread_equal(g.thr[i]->real, th))
        g.thr[i]->detached = true;
    return rd(th);
  }

  int pthread_mutex_lock(pthread_mutex_t* m)
  {
    static auto rl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!managed())
      return rl(m);
    RT r;
    sched(true);
    access(m, 8, true, true, __builtin_return_address(0));
    for (;;)
    {
      MutexRec& M = g.mutexes[m];
      if (M.owner < 0)
      {
        M.owner = self->id;
        vc_join(self->vc, M.vc);
        progress();
        return 0;
      }
      block(W_MUTEX, m, 0);
    }
  }
  int pthread_mutex_trylock(pthread_mutex_t* m)
  {
    static auto rl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!managed())
      return rl(m);
    RT r;
    sched(true);
    access(m, 8, true, true, __builtin_return_address(0));
    MutexRec& M = g.mutexes[m];
    if (M.owner < 0)
    {
      M.owner = self->id;
      vc_join(self->vc, M.vc);
      progress();
      return 0;
    }
    no_progress();
    return EBUSY;
  }
  static void mu_unlock(pthread_mutex_t* m)
  {
    MutexRec& M = g.mutexes[m];
    M.owner     = -1;
    vc_join(M.vc, self->vc);
    tick();
    progress();
    wake_all(W_MUTEX, m, MAXT);
  }
  int pthread_mutex_unlock(pthread_mutex_t* m)
  {
    static auto rl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!managed())
      return rl(m);
    RT r;
    access(m, 8, true, true, __builtin_return_address(0));
    mu_unlock(m);
    sched(true);
    return 0;
  }
  int pthread_mutex_destroy(pthread_mutex_t* m)
  {
    if (managed())
    {
      RT r;
      g.mutexes.erase(m);
    }
    return 0;
  }

  static uint64_t to_ns(timespec const * ts)
  {
    uint64_t v = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec;
    return v ? v : 1;
  }
  static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl)
  {
    RT r;
    sched(true);
    access(c, 8, true, true, __builtin_return_address(0));
    mu_unlock(m);
    bool to = false;
    if (dl && dl <= g.vtime)
    {
      to = true;
      sched(true);
    }
    else if (g.emode != M_DFS && rnd() % 64 == 0)
      sched(true);  // spurious wake-up
    else
    {
      block(W_COND, c, dl);
      to = self->timed_out;
    }
    for (;;)
    {
      MutexRec& M = g.mutexes[m];
      if (M.owner < 0)
      {
        M.owner = self->id;
        vc_join(self->vc, M.vc);
        break;
      }
      block(W_MUTEX, m, 0);
    }
    return to ? ETIMEDOUT : 0;
  }
  int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
  {
    static auto rl = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!managed())
      return rl(c, m);
    return cond_wait(c, m, 0);
  }
  int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const * ts)
  {
    static auto rl = real<int (*)(pthread_cond_t*, pthread_mutex_t*, timespec const *)>("pthread_cond_timedwait");
    if (!managed())
      return rl(c, m, ts);
    return cond_wait(c, m, to_ns(ts));
  }
  int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const * ts)
  {
    static auto rl = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const *)>("pthread_cond_clockwait");
    if (!managed())
      return rl(c, m, k, ts);
    return cond_wait(c, m, to_ns(ts));
  }
  static int cond_notify(pthread_cond_t* c, int n)
  {
    RT r;
    sched(true);
    access(c, 8, true, true, __builtin_return_address(0));
    wake_all(W_COND, c, n);
    return 0;
  }
  int pthread_cond_signal(pthread_cond_t* c)
  {
    static auto rl = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!managed())
      return rl(c);
    return cond_notify(c, 1);
  }
  int pthread_cond_broadcast(pthread_cond_t* c)
  {
    static auto rl = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (!managed())
      return rl(c);
    return cond_notify(c, MAXT);
  }
  int pthread_cond_destroy(pthread_cond_t*)
  {
    return 0;
  }

  int sched_yield() noexcept
  {
    if (!managed())
      return (int) rsys(SYS_sched_yield);
    RT r;
    if (self->nochange > 3)
      self->stalled = true;
    sched(true);
    return 0;
  }
  int clock_gettime(clockid_t c, timespec* ts) noexcept
  {
    if (!managed())
      return (int) rsys(SYS_clock_gettime, c, (long) ts);
    g.vtime += 100;
    ts->tv_sec  = (time_t) (g.vtime / 1000000000ull);
    ts->tv_nsec = (long) (g.vtime % 1000000000ull);
    return 0;
  }
  static int sleep_until(uint64_t dl)
  {
    RT r;
    if (dl > g.vtime)
      block(W_SLEEP, nullptr, dl);
    else
      sched(true);
    return 0;
  }
  int nanosleep(timespec const * ts, timespec* rem)
  {
    if (!managed())
      return (int) rsys(SYS_nanosleep, (long) ts, (long) rem);
    return sleep_until(g.vtime + to_ns(ts));
  }
  int clock_nanosleep(clockid_t c, int fl, timespec const * ts, timespec* rem)
  {
    if (!managed())
      return (int) rsys(SYS_clock_nanosleep, c, fl, (long) ts, (long) rem);
    return sleep_until((fl & TIMER_ABSTIME) ? to_ns(ts) : g.vtime + to_ns(ts));
  }

  __attribute__((weak)) long vs_syscall_hook(long, long, long, long, long, long, long, bool* handled)
  {
    *handled = false;
    return 0;
  }

  long syscall(long n, ...) noexcept
  {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (managed() && n == SYS_futex)
    {
      RT  r;
      int op = (int) b & FUTEX_CMD_MASK;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
      {
        sched(true);
        access((void*) a, 4, false, true, __builtin_return_address(0));
        if (__atomic_load_n((int*) a, __ATOMIC_SEQ_CST) != (int) c)
        {
          errno = EAGAIN;
          return -1;
        }
        uint64_t dl = 0;
        if (d)
        {
          dl = to_ns((timespec const *) d);
          if (op == FUTEX_WAIT)
            dl += g.vtime;
          if (dl <= g.vtime)
          {
            errno = ETIMEDOUT;
            return -1;
          }
        }
        block(W_FUTEX, (void*) a, dl);
        if (self->timed_out)
        {
          errno = ETIMEDOUT;
          return -1;
        }
        return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
      {
        sched(true);
        wake_all(W_FUTEX, (void*) a, c > MAXT ? MAXT : (int) c);
        return 0;
      }
    }
    if (managed())
    {
      bool handled = false;
      long r       = vs_syscall_hook(n, a, b, c, d, e, f, &handled);
      if (handled)
      {
        if (r < 0 && r > -4096)
        {
          errno = (int) -r;
          return -1;
        }
        return r;
      }
    }
    long r = rsys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096)
    {
      errno = (int) -r;
      return -1;
    }
    return r;
  }

  int sem_init(sem_t* s, int, unsigned v) noexcept
  {
    RT r;
    g.sems[s] = v;
    return 0;
  }
  int sem_wait(sem_t* s)
  {
    RT r;
    sched(true);
    while (g.sems[s] <= 0)
      block(W_SEM, s, 0);
    --g.sems[s];
    vc_join(self->vc, g.mutexes[s].vc);
    return 0;
  }
  int sem_post(sem_t* s) noexcept
  {
    RT r;
    sched(true);
    ++g.sems[s];
    vc_join(g.mutexes[s].vc, self->vc);
    tick();
    progress();
    wake_all(W_SEM, s, 1);
    return 0;
  }

  // ---------------- libstdc++ annotates the lock inside atomic<shared_ptr> -------
  void __tsan_mutex_destroy(void* m, unsigned)
  {
    if (!managed())
      return;
    RT r;
    g.mutexes.erase(m);
  }
  void __tsan_mutex_pre_lock(void*, unsigned) {}
  void __tsan_mutex_post_lock(void* m, unsigned flags, int)
  {
    if (!managed() || (flags & (1u << 5)))
      return;
    RT r;
    vc_join(self->vc, g.mutexes[m].vc);
  }
  int __tsan_mutex_pre_unlock(void* m, unsigned)
  {
    if (!managed())
      return 0;
    RT        r;
    MutexRec& M = g.mutexes[m];
    vc_join(M.vc, self->vc);
    tick();
    return 0;
  }
  void __tsan_mutex_post_unlock(void*, unsigned) {}
  void __tsan_mutex_pre_signal(void*, unsigned) {}
  void __tsan_mutex_post_signal(void*, unsigned) {}

  // ---------------- exception globals synchronise (their reference counts live in
  // uninstrumented libstdc++ code) ------------------------------------------------
  void __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void*);
  void __real__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void*);
  static void eptr_sync()
  {
    if (!managed())
      return;
    RT        r;
    MutexRec& M = g.mutexes[(void*) &eptr_sync];
    vc_join(self->vc, M.vc);
    vc_join(M.vc, self->vc);
    tick();
  }
  void __wrap__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void* p)
  {
    eptr_sync();
    __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(p);
  }
  void __real___cxa_end_catch();
  void __wrap___cxa_end_catch()
  {
    eptr_sync();
    __real___cxa_end_catch();
  }

  // the memory of exceptions does not come from operator new
  void* __real___cxa_allocate_exception(size_t) noexcept;
  void* __wrap___cxa_allocate_exception(size_t n) noexcept
  {
    void* p = __real___cxa_allocate_exception(n);
    if (p && managed())
    {
      RT r;
      shadow_clear(p, n);
    }
    return p;
  }

  // ---------------- tsan ABI -----------------------------------------------------
  void __tsan_init() {}
  void __tsan_func_entry(void*) {}
  void __tsan_func_exit() {}

#define ACC(p, n, w)                                                  \
  if (managed())                                                      \
  {                                                                   \
    RT r;                                                             \
    access((void const *) (p), n, w, false, __builtin_return_address(0)); \
  }
#define RW(N)                                                         \
  void __tsan_read##N(void* p) { ACC(p, N, false) }                   \
  void __tsan_write##N(void* p) { ACC(p, N, true) }                   \
  void __tsan_unaligned_read##N(void* p) { ACC(p, N, false) }         \
  void __tsan_unaligned_write##N(void* p) { ACC(p, N, true) }         \
  void __tsan_volatile_read##N(void* p) { ACC(p, N, false) }          \
  void __tsan_volatile_write##N(void* p) { ACC(p, N, true) }          \
  void __tsan_unaligned_volatile_read##N(void* p) { ACC(p, N, false) } \
  void __tsan_unaligned_volatile_write##N(void* p) { ACC(p, N, true) }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  void __tsan_read_range(void* p, unsigned long n) { ACC(p, n, false) }
  void __tsan_write_range(void* p, unsigned long n) { ACC(p, n, true) }
  void __tsan_vptr_update(void** p, void* v)
  {
    if (*p != v)
      ACC(p, 8, true)
  }
  void __tsan_vptr_read(void** p) { ACC(p, 8, false) }

#define AT(N, T)                                                                                         \
  T    __tsan_atomic##N##_load(T volatile const * p, int mo) { return a_load<T>((T volatile*) p, mo, __builtin_return_address(0)); } \
  void __tsan_atomic##N##_store(T volatile * p, T v, int mo) { a_store<T>(p, v, mo, __builtin_return_address(0)); } \
  T    __tsan_atomic##N##_exchange(T volatile * p, T v, int mo) { return a_rmw<T>(p, mo, __builtin_return_address(0), [=](T) { return v; }); } \
  T    __tsan_atomic##N##_fetch_add(T volatile * p, T v, int mo) { return a_rmw<T>(p, mo, __builtin_return_address(0), [=](T o) { return (T) (o + v); }); } \
  T    __tsan_atomic##N##_fetch_sub(T volatile * p, T v, int mo) { return a_rmw<T>(p, mo, __builtin_return_address(0), [=](T o) { return (T) (o - v); }); } \
  T    __tsan_atomic##N##_fetch_and(T volatile * p, T v, int mo) { return a_rmw<T>(p, mo, __builtin_return_address(0), [=](T o) { return (T) (o & v); }); } \
  T    __tsan_atomic##N##_fetch_or(T volatile * p, T v, int mo) { return a_rmw<T>(p, mo, __builtin_return_address(0), [=](T o) { return (T) (o | v); }); } \
  T    __tsan_atomic##N##_fetch_xor(T volatile * p, T v, int mo) { return a_rmw<T>(p, mo, __builtin_return_address(0), [=](T o) { return (T) (o ^ v); }); } \
  T    __tsan_atomic##N##_fetch_nand(T volatile * p, T v, int mo) { return a_rmw<T>(p, mo, __builtin_return_address(0), [=](T o) { return (T) ~(o & v); }); } \
  int  __tsan_atomic##N##_compare_exchange_strong(T volatile * p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, __builtin_return_address(0), false); } \
  int  __tsan_atomic##N##_compare_exchange_weak(T volatile * p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, __builtin_return_address(0), true); } \
  T    __tsan_atomic##N##_compare_exchange_val(T volatile * p, T e, T d, int mo, int fmo) { a_cas<T>(p, &e, d, mo, fmo, __builtin_return_address(0), false); return e; }
  AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
  void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
  void __tsan_atomic_signal_fence(int) {}
}

// ======================= C++ replacements =============================================
void* operator new(std::size_t n)
{
  void* p = do_new(n, 16);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, std::align_val_t a)
{
  void* p = do_new(n, (size_t) a);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(std::size_t n, std::nothrow_t const &) noexcept { return do_new(n, 16); }
void* operator new[](std::size_t n, std::nothrow_t const &) noexcept { return do_new(n, 16); }
void* operator new(std::size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return do_new(n, (size_t) a); }
void  operator delete(void* p) noexcept { do_delete(p, 0, false); }
void  operator delete[](void* p) noexcept { do_delete(p, 0, false); }
void  operator delete(void* p, std::size_t n) noexcept { do_delete(p, n, true); }
void  operator delete[](void* p, std::size_t n) noexcept { do_delete(p, n, true); }
void  operator delete(void* p, std::align_val_t) noexcept { do_delete(p, 0, false); }
void  operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, 0, false); }
void  operator delete(void* p, std::size_t n, std::align_val_t) noexcept { do_delete(p, n, true); }
void  operator delete[](void* p, std::size_t n, std::align_val_t) noexcept { do_delete(p, n, true); }
void  operator delete(void* p, std::nothrow_t const &) noexcept { do_delete(p, 0, false); }

unsigned std::thread::hardware_concurrency() noexcept { return g.running ? (unsigned) g.ncpu : 2u; }
std::random_device::result_type std::random_device::_M_getval()
{
  if (self)
    return (std::random_device::result_type) rnd();
  return 42;
}
