// Reference counters the simulated worlds run on.
#pragma once
#include "simcore.h"
#include <dart.h>

// A user-supplied counter that implements nothing but the documented traits, and
// checks that the library takes, copies, moves, resets and releases it by the rules.
namespace sim {
  struct RcBlock { long count; void const* obj; };
  struct RcBlockBase { long count = 1; virtual void destroy() = 0; virtual ~RcBlockBase() {} };
  template <class T, class D> struct RcBlockDel : RcBlockBase { T* p; D d; RcBlockDel(T* p, D d) : p(p), d(std::move(d)) {} void destroy() override { d(p); } };
  template <class T> struct RcBlockIn : RcBlockBase { T v; template <class... A> explicit RcBlockIn(A&&... a) : v(std::forward<A>(a)...) {} void destroy() override {} };

  extern u64 rc_live, rc_moved_reads;
  bool rc_registered(void const*);
  void rc_add(void const*); void rc_del(void const*); void rc_reset_registry();
}

template <class T> struct sim_ptr {
  // not default constructible, not copyable, not movable: only the traits below may be used
  sim_ptr() = delete; sim_ptr(sim_ptr const&) = delete; sim_ptr(sim_ptr&&) = delete;
  sim_ptr& operator =(sim_ptr const&) = delete;
  struct priv {};
  sim_ptr(priv, T* p, sim::RcBlockBase* b) : ptr(p), blk(b) { sim::rc_add(this); }
  ~sim_ptr() { sim::rc_del(this); drop(); }
  void drop() {
    auto* b = blk; blk = nullptr; ptr = nullptr;
    if (b) { if (b->count <= 0) sim::fail("protocol", "reference counter released below zero"); if (--b->count == 0) { b->destroy(); delete b; } }
  }
  T* ptr; sim::RcBlockBase* blk;
};

namespace dart { namespace refcount {
  template <class T> struct element_type<sim_ptr<T>> { using type = T; };
  template <class T> struct construct<sim_ptr<T>> {
    template <class... A> static void perform(sim_ptr<T>* that, A&&... a) {
      auto* b = new sim::RcBlockIn<typename std::remove_const<T>::type>(std::forward<A>(a)...);
      new (that) sim_ptr<T>(typename sim_ptr<T>::priv {}, &b->v, b);
    }
  };
  template <class T> struct take<sim_ptr<T>> {
    template <class D> static void perform(sim_ptr<T>* that, std::nullptr_t, D&&) { new (that) sim_ptr<T>(typename sim_ptr<T>::priv {}, nullptr, nullptr); }
    template <class D> static void perform(sim_ptr<T>* that, T* p, D&& d) {
      sim::RcBlockBase* b;
      try { b = new sim::RcBlockDel<T, typename std::decay<D>::type>(p, std::forward<D>(d)); } catch (...) { d(p); throw; }
      new (that) sim_ptr<T>(typename sim_ptr<T>::priv {}, p, b);
    }
  };
  template <class T> struct copy<sim_ptr<T>> {
    static void perform(sim_ptr<T>* that, sim_ptr<T> const& o) {
      if (!sim::rc_registered(&o)) sim::fail("protocol", "copied from a reference counter that is not alive");
      if (o.blk) { if (o.blk->count <= 0) sim::fail("protocol", "copied a dead reference counter"); ++o.blk->count; }
      new (that) sim_ptr<T>(typename sim_ptr<T>::priv {}, o.ptr, o.blk);
    }
  };
  template <class T> struct move<sim_ptr<T>> {
    static void perform(sim_ptr<T>* that, sim_ptr<T>&& o) {
      if (!sim::rc_registered(&o)) sim::fail("protocol", "moved from a reference counter that is not alive");
      new (that) sim_ptr<T>(typename sim_ptr<T>::priv {}, o.ptr, o.blk); o.ptr = nullptr; o.blk = nullptr;
    }
  };
  template <class T> struct unwrap<sim_ptr<T>> { static T* perform(sim_ptr<T> const& o) { return o.ptr; } };
  template <class T> struct use_count<sim_ptr<T>> { static size_t perform(sim_ptr<T> const& o) { return o.blk ? (size_t) o.blk->count : 0; } };
  template <class T> struct reset<sim_ptr<T>> { static void perform(sim_ptr<T>& o) { o.drop(); } };
}}
