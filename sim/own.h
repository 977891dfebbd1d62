// Owning building blocks: what is watched, and the operations.
#pragma once
#include "simcore.h"
#include "rc.h"
#include <dart.h>

namespace sim {
  enum OwnOp { W_OMAKE, W_OSET, W_OCHANGE, W_OREAD, W_OCMP, W_PMAKE, W_PSET, W_PNEXT, W_PRESET, W_PREAD, W_PARR, W_VMAKE, W_VSET, W_VCHANGE, W_VREAD, W_PVIEW, W_NOPS };
  enum { PTR_KINDS = 7 };
  void own_run(Plan const&);

  // every watched object there is, by address
  struct Things {
    enum { MAX = 512 }; void const* at[MAX]; int n = 0; u64 made = 0, boom = 0;   // boom: this many more constructions or assignments until one throws
    int find(void const* p) const { for (int i = n; i-- > 0;) if (at[i] == p) return i; return -1; }
    void add(void const* p) { if (find(p) >= 0) fail("lifetime", "an object is made where another one still lives"); if (n == MAX) fail("lifetime", "more than %d objects", (int) MAX); at[n++] = p; ++made; }
    void del(void const* p) { int i = find(p); if (i < 0) fail("lifetime", "an object that does not live is destroyed"); at[i] = at[--n]; }
    void need(void const* p, char const* what) const { if (find(p) < 0) fail("lifetime", "%s an object that does not live", what); }
    void tick() ;
  };
  extern Things things;
  struct Boom {};
  inline void Things::tick() { if (boom && --boom == 0) throw Boom {}; }
  enum { GONE = -77 };   // what a moved-from thing holds

  struct Thing {
    int v;
    Thing(int v = 0) : v(v) { Out o; things.tick(); things.add(this); }
    Thing(Thing const& t) { Out o; things.need(&t, "copying"); things.tick(); v = t.v; things.add(this); }
    Thing(Thing&& t) { Out o; things.need(&t, "moving"); things.tick(); v = t.v; t.v = GONE; things.add(this); }
    Thing& operator =(Thing const& t) { Out o; things.need(this, "assigning to"); things.need(&t, "copying"); things.tick(); v = t.v; return *this; }
    Thing& operator =(Thing&& t) { Out o; things.need(this, "assigning to"); things.need(&t, "moving"); things.tick(); int x = t.v; t.v = GONE; v = x; return *this; }
    Thing& operator =(int x) { Out o; things.need(this, "assigning to"); things.tick(); v = x; return *this; }
    ~Thing() { Out o; things.del(this); v = -99; }
  };
  inline bool operator ==(Thing const& a, Thing const& b) { return a.v == b.v; } inline bool operator !=(Thing const& a, Thing const& b) { return a.v != b.v; }
  inline bool operator <(Thing const& a, Thing const& b) { return a.v < b.v; } inline bool operator <=(Thing const& a, Thing const& b) { return a.v <= b.v; }
  inline bool operator >(Thing const& a, Thing const& b) { return a.v > b.v; } inline bool operator >=(Thing const& a, Thing const& b) { return a.v >= b.v; }
  // the same, never failing to move
  struct Calm {
    int v;
    explicit Calm(int v) : v(v) { Out o; things.tick(); things.add(this); }
    Calm(Calm const& t) { Out o; things.need(&t, "copying"); things.tick(); v = t.v; things.add(this); }
    Calm(Calm&& t) noexcept { Out o; things.need(&t, "moving"); v = t.v; t.v = GONE; things.add(this); }
    Calm& operator =(Calm const& t) { Out o; things.need(this, "assigning to"); things.need(&t, "copying"); things.tick(); v = t.v; return *this; }
    Calm& operator =(Calm&& t) noexcept { Out o; things.need(this, "assigning to"); things.need(&t, "moving"); int x = t.v; t.v = GONE; v = x; return *this; }
    ~Calm() { Out o; things.del(this); v = -99; }
  };
  inline bool operator ==(Calm const& a, Calm const& b) { return a.v == b.v; } inline bool operator !=(Calm const& a, Calm const& b) { return a.v != b.v; }
  inline bool operator <(Calm const& a, Calm const& b) { return a.v < b.v; } inline bool operator <=(Calm const& a, Calm const& b) { return a.v <= b.v; }
  inline bool operator >(Calm const& a, Calm const& b) { return a.v > b.v; } inline bool operator >=(Calm const& a, Calm const& b) { return a.v >= b.v; }

  enum End { E_FINE, E_BOOM, E_OOM, E_ACCESS, E_LOGIC, E_ELSE };
  static char const* const end_names[] = {"ok", "the constructor's exception", "bad_alloc", "bad access", "logic_error", "another exception"};
  template <class F> End tried(F&& f) {
    Lib l;
    try { f(); return E_FINE; } catch (Boom const&) { return E_BOOM; } catch (std::bad_alloc const&) { return E_OOM; }
    catch (dart::bad_optional_access const&) { return E_ACCESS; } catch (mpark::bad_variant_access const&) { return E_ACCESS; } catch (std::logic_error const&) { return E_LOGIC; } catch (std::exception const&) { return E_ELSE; }
  }
}
