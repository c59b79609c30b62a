// Helpers shared by the harnesses.
#pragma once
#include "../rt/vsched.hpp"
#include <thread>
#include <memory>
#include <new>
#include <optional>
#include <utility>
#include <type_traits>

namespace h
{
  using vs::ev;
  using vs::F;

  // Storage for one object; after destroy() the runtime reports accesses to it.
  template <class T>
  struct Box
  {
    alignas(T) unsigned char buf[sizeof(T)];
    bool live = false;
    Box() = default;
    Box(Box const &) = delete;
    template <class... A>
    VS_NOSAN T& make(A&&... a)
    {
      vs::mark_alive(buf, sizeof buf);
      T* p = ::new ((void*) buf) T(static_cast<A&&>(a)...);
      live = true;
      return *p;
    }
    template <class Fn>
    VS_NOSAN T& make_from(Fn&& fn)
    {
      vs::mark_alive(buf, sizeof buf);
      T* p = ::new ((void*) buf) T(static_cast<Fn&&>(fn)());
      live = true;
      return *p;
    }
    VS_NOSAN T& get() { return *std::launder(reinterpret_cast<T*>(buf)); }
    VS_NOSAN void destroy()
    {
      live = false;
      std::launder(reinterpret_cast<T*>(buf))->~T();
      vs::mark_dead(buf, sizeof buf);
    }
    VS_NOSAN ~Box()
    {
      if (live)
        std::launder(reinterpret_cast<T*>(buf))->~T();
      vs::mark_alive(buf, sizeof buf);
    }
  };
}  // namespace h
