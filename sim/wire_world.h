#pragma once
#include "wire.h"
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);

namespace sim {
  // A block of receive memory: exactly as long as what was received, everything around it off limits.
  struct Region {
    char* block = nullptr; size_t off = 0, len = 0, cap = 0;
    Region() {} Region(Region const&) = delete; Region(Region&& o) noexcept { *this = std::move(o); }
    Region& operator =(Region&& o) noexcept { std::swap(block, o.block); std::swap(off, o.off); std::swap(len, o.len); std::swap(cap, o.cap); return *this; }
    // alignment is that of the start of the data within a 16-byte line
    Region(std::string const& d, size_t misalign, u64 stale) : off(16 + misalign), len(d.size()) {
      cap = off + len; block = (char*) malloc(cap); Rng r(stale); for (size_t i = 0; i < off; ++i) block[i] = (char) r.next();
      memcpy(block + off, d.data(), len); __asan_poison_memory_region(block, 16);
    }
    ~Region() { drop(); }
    void drop() { if (block) { __asan_unpoison_memory_region(block, 16); free(block); block = nullptr; } }
    gsl::byte const* data() const { return (gsl::byte const*) (block + off); }
    gsl::span<gsl::byte const> span() const { return {data(), (size_t) len}; }
  };

  template <template <class> class RC, template <class> class RC2> struct Wire {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>; using BV = typename B::view; using PV = typename P::view;
    using Shared = RC<gsl::byte const>;
    static constexpr int NR = 6;
    struct Rx { Opt<B> b; Opt<P> p; V v; std::string bytes; bool used = false; };
    Rx rx[NR]; int nextrx = 0;
    struct Pool { std::vector<Region> regions; };     // receive memory still around (copied-from, reused later)
    std::vector<Region> mem_pool;
    struct Deleted { long count = 0; };
    static Deleted& deleted() { static Deleted d; return d; }
    struct Del { void operator ()(gsl::byte const* p) const { Out o; ++deleted().count; free((void*) p); } };
    long adopted = 0;

    struct Msg { u64 id; std::string bytes; V v; int path; u64 seed; std::vector<char> have; std::string buf; bool done = false; };
    struct Ev { u64 t; u64 seq; int msg; size_t off, n; int tries; };
    struct Later { bool operator ()(Ev const& a, Ev const& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
    std::priority_queue<Ev, std::vector<Ev>, Later> evs; std::vector<Msg> msgs; u64 clock = 0, seq = 0, part_until = 0; bool faults = true; Rng net;
    Plan const& plan; int opi = 0;
    // disk
    std::string disk; size_t synced = 0; std::vector<std::pair<size_t, V>> logv; std::vector<std::string> logb; std::string stale;

    Wire(Plan const& p) : net((u64) p.get("netseed", 1)), plan(p) { deleted().count = 0; }

    // ---- sender ---------------------------------------------------------------------------
    SendOut encode(u64 seed, int cls, int style) {
      Rng r(seed); SendOut o; o.v = wire_object(r, cls); Rng br(seed ^ 5);
      Opt<B> b; std::string out;
      { Lib l;
        switch (style % 5) {
          case 0: b.with([&] { return build<H>(o.v, br).finalize(); }); break;
          case 1: b.with([&] { return B {build<H>(o.v, br)}; }); break;
          case 2: b.with([&] { P p = build<P>(o.v, br); p.finalize(); return static_cast<B>(p); }); break;
          case 3: b.with([&] { auto p = build_mixed<RC>(o.v, br, 40); p.finalize(); return static_cast<B>(p); }); break;
          default: b.with([&] { P p = build<P>(o.v, br); auto l = p.lower(); return static_cast<B>(l); }); break;
        }
        auto grab = [&] (gsl::span<gsl::byte const> s) { Out q; o.bytes.assign((char const*) s.data(), (size_t) s.size()); };
        if (style % 3 == 0) grab((*b).get_bytes());
        else if (style % 3 == 1) { size_t n = 0; auto d = (*b).dup_bytes(n); grab({d.get(), (size_t) n}); }
        else { P p {*b}; grab(p.get_bytes()); }
      }
      b.reset();
      if (mem.live_blocks != live_base()) { }
      return o;
    }
    u64 live_base() { return mem.live_blocks; }

    void send(SendOut o, int path, u64 seed) {
      Msg m; m.id = msgs.size(); m.bytes = o.bytes; m.v = o.v; m.path = path; m.seed = seed; m.buf.assign(o.bytes.size(), (char) seed); m.have.assign(o.bytes.size(), 0);
      int idx = (int) msgs.size(); size_t mtu = net.chance(30) ? 1 + net.below(16) : 16 + net.below(1400); if (o.bytes.size() > 20000) mtu = 4000 + net.below(9000);
      // stale contents: the receive memory was used for an earlier message
      if (!msgs.empty()) { auto& old = msgs[net.below(msgs.size())].bytes; for (size_t i = 0; i < m.buf.size(); ++i) if (!old.empty()) m.buf[i] = old[i % old.size()]; }
      msgs.push_back(std::move(m));
      for (size_t off = 0; off < o.bytes.size(); off += mtu) transmit(idx, off, std::min(mtu, o.bytes.size() - off), 0);
      probe("net:message");
    }
    void transmit(int m, size_t off, size_t n, int tries) {
      u64 lat = 1 + net.below(50); if (net.chance(5)) { lat += 300; probe("net:delayed"); }
      evs.push({clock + lat, seq++, m, off, n, tries});
      if (faults && net.chance(6)) { evs.push({clock + lat + net.below(200), seq++, m, off, n, tries}); probe("net:duplicated"); }
      if (n > 4 && net.chance(4)) { evs.push({clock + lat + net.below(90), seq++, m, off + n / 2, n - n / 2, tries}); probe("net:overlapping"); }
    }
    void advance(u64 until) {
      while (!evs.empty() && evs.top().t <= until) {
        Ev e = evs.top(); evs.pop(); clock = std::max(clock, e.t); sim_time(1);
        Msg& m = msgs[(size_t) e.msg]; if (m.done) { probe("net:late-copy"); continue; }
        bool lost = faults && (clock < part_until || net.chance(4));
        if (lost) { probe(clock < part_until ? "net:lost-in-partition" : "net:lost"); evs.push({clock + 100 + net.below(100), seq++, e.msg, e.off, e.n, e.tries + 1}); continue; }
        memcpy(&m.buf[e.off], &m.bytes[e.off], e.n); std::fill(m.have.begin() + (long) e.off, m.have.begin() + (long) (e.off + e.n), (char) 1);
        if (std::find(m.have.begin(), m.have.end(), (char) 0) == m.have.end()) { m.done = true; int i = e.msg; deliver(i); probe("net:delivered"); }
      }
      clock = std::max(clock, until);
    }

    // ---- receiver -------------------------------------------------------------------------
    void deliver(int mi) {
      V v = msgs[(size_t) mi].v; std::string bytes = msgs[(size_t) mi].buf; int path = msgs[(size_t) mi].path; Rng r(msgs[(size_t) mi].seed ^ 0x77);
      if (bytes != msgs[(size_t) mi].bytes) fail("harness", "channel model lost bytes");
      size_t mis = r.chance(50) ? 0 : r.below(16); bool aligned = mis % 8 == 0;
      int slot = nextrx++ % NR; Rx& x = rx[slot]; x.b.reset(); x.p.reset(); x.used = true; x.v = v; x.bytes = bytes;
      Region reg(bytes, mis, r.next()); Ex e = X_FINE; char const* how = "";
      if (aligned) validate_all(reg, true, "a received packet");
      auto adopt = [&] () -> gsl::byte* { size_t n = bytes.size(); char* q = (char*) malloc(n); memcpy(q, bytes.data(), n); ++adopted; return (gsl::byte*) q; };
      switch (path % 9) {
        case 0: how = "copied"; e = attempt([&] { x.b.with([&] { return B {reg.span()}; }); }); break;
        case 1: how = "copied into a packet"; e = attempt([&] { x.p.with([&] { return P {reg.span()}; }); }); break;
        case 2: how = "adopted (array of const)"; { std::unique_ptr<gsl::byte const[], Del> u(adopt()); e = attempt([&] { x.b.with([&] { return B {std::move(u)}; }); }); Lib l; auto z = std::move(u); } break;
        case 3: how = "adopted (const)"; { std::unique_ptr<gsl::byte const, Del> u(adopt()); e = attempt([&] { x.p.with([&] { return P {std::move(u)}; }); }); } break;
        case 4: how = "adopted"; { std::unique_ptr<gsl::byte, Del> u(adopt()); e = attempt([&] { x.b.with([&] { return B {std::move(u)}; }); }); } break;
        case 5: how = "shared pointer"; { auto* q = adopt(); e = attempt([&] { dart::shareable_ptr<Shared> s((gsl::byte const*) q, Del {}); x.b.with([&] { return B {std::move(s)}; }); }); } break;
        case 6: how = "shared pointer into a packet"; { auto* q = adopt(); e = attempt([&] { dart::shareable_ptr<Shared> s((gsl::byte const*) q, Del {}); auto t = s; x.p.with([&] { return P {t}; }); }); } break;
        case 7: how = "bytes of another packet, duplicated"; e = attempt([&] { B t {reg.span()}; x.b.with([&] { return B {t.dup_bytes()}; }); }); break;
        default: how = "bytes of another packet, shared"; e = attempt([&] { B t {reg.span()}; Shared s {}; t.share_bytes(s); x.p.with([&] { return P {std::move(s)}; }); }); break;
      }
      if (e != X_FINE) fail("receive", "a whole packet of %zu bytes could not be received (%s): %s", bytes.size(), how, ex_names[e]);
      probe(strf("net:received %s", how).c_str());
      note_state(mix(mix((u64) path % 9, mis), hash(v)));
      if (r.chance(50)) { memset(reg.block + reg.off, (int) r.next(), reg.len); probe("net:receive-memory-reused"); mem_pool.push_back(std::move(reg)); } else if (r.chance(50)) mem_pool.push_back(std::move(reg)); else { reg.drop(); probe("net:receive-memory-freed"); }
      check(slot, (int) r.below(5), "on delivery");
    }
    template <class F> void visit(Rx& x, F&& f) { if (x.b.has) f(*x.b); else if (x.p.has) f(*x.p); }
    void check(int i, int mode, char const* when) {
      Rx& x = rx[i]; if (!x.used) return;
      visit(x, [&] (auto& h) {
        Cmp c; c.mode = mode; c.quiet = true; compare(h, x.v, c);
        if (c.bad) fail("value", "a packet received as %s reads differently %s: %s", show(x.v, 120).c_str(), when, c.why.c_str());
        bool same; size_t n; { Lib l; auto sp = h.get_bytes(); n = (size_t) sp.size(); same = n == x.bytes.size() && !memcmp(sp.data(), x.bytes.data(), n); }
        if (!same) fail("bytes", "a received packet gives back %zu other bytes than the %zu sent %s", n, x.bytes.size(), when);
      });
    }
    // every way of asking whether bytes are a packet
    void validate_all(Region const& reg, bool want_known, char const* what, bool want = true) {
      std::string before((char const*) reg.data(), reg.len); u64 len = reg.len;
      bool a, b, thrown = false, other = false; steps = 0; step_limit = budget(len); u64 used;
      { Lib l; a = dart::is_valid(reg.span()); } used = steps; steps = 0;
      { Lib l; b = dart::is_valid(reg.data(), reg.len); } steps = 0;
      try { Lib l; dart::validate(reg.span()); } catch (dart::validation_error const&) { thrown = true; } catch (std::exception const&) { other = true; }
      steps = 0; bool thrown2 = false; try { Lib l; dart::validate(reg.data(), reg.len); } catch (dart::validation_error const&) { thrown2 = true; } catch (std::exception const&) { other = true; }
      step_limit = 0; static u64 worst = 0; u64 ratio = used * 100 / (len + 64); if (ratio > worst) { worst = ratio; if (verbose || getenv("SIM_RATIO")) fprintf(stderr, "steps/byte*100 %llu (%llu for %llu)\n", (unsigned long long) ratio, (unsigned long long) used, (unsigned long long) len); }
      // the forms that take owning pointers
      { struct Keep { void operator ()(gsl::byte const*) const {} }; auto* q = reg.data(); auto* m = const_cast<gsl::byte*>(q);
        std::unique_ptr<gsl::byte const, Keep> u1(q); std::unique_ptr<gsl::byte const[], Keep> u2(q); std::unique_ptr<gsl::byte, Keep> u3(m); std::unique_ptr<gsl::byte[], Keep> u4(m); std::shared_ptr<gsl::byte const> sp(q, Keep {});
        bool v[5]; steps = 0; step_limit = 5 * budget(len); { Lib l; v[0] = dart::is_valid(u1, reg.len); v[1] = dart::is_valid(u2, reg.len); v[2] = dart::is_valid(u3, reg.len); v[3] = dart::is_valid(u4, reg.len); v[4] = dart::is_valid(sp, reg.len); }
        for (int i = 0; i < 5; ++i) {
          bool th = false; steps = 0; step_limit = budget(len);
          try { Lib l; switch (i) { case 0: dart::validate(u1, reg.len); break; case 1: dart::validate(u2, reg.len); break; case 2: dart::validate(u3, reg.len); break; case 3: dart::validate(u4, reg.len); break; default: dart::validate(sp, reg.len); } } catch (dart::validation_error const&) { th = true; } catch (std::exception const&) { other = true; }
          if (v[i] != a || th == a) fail("validate", "the form of validation that takes owning pointer %d disagrees on %s: is_valid %d, validate %s; a plain pointer is %s", i, what, (int) v[i], th ? "throws" : "accepts", a ? "accepted" : "refused");
        } step_limit = 0; }
      if (other) fail("validate", "validation of %s threw something other than validation_error", what);
      if (a != b || a == thrown || a == thrown2) fail("validate", "the forms of validation disagree on %s: is_valid %d %d, validate %s %s", what, (int) a, (int) b, thrown ? "throws" : "accepts", thrown2 ? "throws" : "accepts");
      if (memcmp(before.data(), reg.data(), reg.len)) fail("validate", "validation changed the bytes it was given");
      if (want_known && a != want) fail("validate", "%s of %zu bytes was %s", what, reg.len, a ? "accepted" : "refused");
    }
    bool accepted(Region const& reg) { validate_all(reg, false, "received bytes"); Lib l; return dart::is_valid(reg.span()); }
    static u64 budget(u64 len) { return 5000 + 60 * len; }

    // ---- conversions of received packets --------------------------------------------------------
    void convert(int i, int how, u64 seed) {
      Rx& x = rx[i]; if (!x.used) return; V v = x.v; Ex e = X_FINE; Rng r(seed);
      auto cmp = [&] (auto const& h, char const* what) { Cmp c; c.mode = (int) (seed % 5); c.quiet = true; Out o; compare(h, v, c); if (c.bad) fail("value", "%s of a received packet reads differently: %s", what, c.why.c_str()); };
      auto bytes_of = [&] (auto const& h) { auto sp = h.get_bytes(); Out o; std::string s((char const*) sp.data(), (size_t) sp.size()); if (s != x.bytes) fail("bytes", "converting a received packet and back changed its bytes (%zu to %zu)", x.bytes.size(), s.size()); };
      visit(x, [&] (auto& h) {
        using HT = typename std::decay<decltype(h)>::type;
        e = attempt([&] {
          switch (how % 8) {
            case 0: { HT c = h; auto m = std::move(c); cmp(m, "a copy"); break; }
            case 1: { typename HT::view w = h; cmp(w, "a view"); auto o = w.as_owner(); cmp(o, "an owner made from a view"); break; }
            case 2: { P p {static_cast<B>(h)}; p.definalize(); cmp(p, "the mutable form"); p.finalize(); cmp(p, "the re-finalized form"); bytes_of(p); break; }
            case 3: { H m = static_cast<B>(h).definalize(); cmp(m, "the mutable form"); B again = m.finalize(); bytes_of(again); if (!(m == static_cast<B>(h))) { Out o; fail("value", "a received packet differs from its mutable form"); } break; }
            case 4: { auto o = HT::template transmogrify<RC2>(h); cmp(o, "a copy under another counter"); bytes_of(o); break; }
            case 5: { P p {static_cast<B>(h)}; auto l = p.lift(); cmp(l, "the lifted form"); break; }
            case 6: { dart::basic_object<B> o {static_cast<B>(h)}; cmp(o.dynamic(), "a typed object"); break; }
            default: { Fields f; auto ks = h.keys(); std::vector<std::string> want; { Out o; for (auto& q : v->o) if (r.chance(50)) { want.push_back(q.first); f[q.first] = q.second; } if (r.chance(50)) want.push_back("~absent"); }
              std::vector<dart::shim::string_view> kv; { Out o; for (auto& s : want) kv.push_back(sv(s)); }
              B p = static_cast<B>(h).project(kv); V keep = v; v = mk_obj(f); cmp(p, "a projection"); v = keep; break; }
          }
        });
      });
      if (e != X_FINE) fail("outcome", "converting a received packet (%d) ended with %s", how % 8, ex_names[e]);
    }
    // bytes of the packet or of an object somewhere inside it, sent on
    void resend(int i, u64 seed, int path) {
      Rx& x = rx[i]; if (!x.used) return; Rng r(seed); SendOut o; Ex e = X_FINE;
      visit(x, [&] (auto& h0) {
        using HT = typename std::decay<decltype(h0)>::type;
        e = attempt([&] {
          HT h = h0; V v = x.v; V best = v; HT bh = h;
          for (int d = 0; d < 12; ++d) {
            if (v->t == T::Obj) { if (d && r.chance(40)) break; if (v->o.empty()) break; auto q = v->o.begin(); std::advance(q, (long) r.below(v->o.size())); for (int t = 0; t < 4 && q->second->t < T::Arr; ++t) { q = v->o.begin(); std::advance(q, (long) r.below(v->o.size())); } if (q->second->t < T::Arr) break; HT c = h[sv(q->first)]; h = c; v = q->second; }
            else { if (v->a.empty()) break; size_t k = r.below(v->a.size()); for (int t = 0; t < 4 && v->a[k]->t < T::Arr; ++t) k = r.below(v->a.size()); if (v->a[k]->t < T::Arr) break; HT c = h[k]; h = c; v = v->a[k]; }
            if (v->t == T::Obj) { best = v; bh = h; }
          }
          auto take = [&] (gsl::span<gsl::byte const> s) { Out q; o.bytes.assign((char const*) s.data(), (size_t) s.size()); o.v = best; };
          if (r.chance(50)) take(bh.get_bytes()); else { size_t n = 0; auto d = bh.dup_bytes(n); take({d.get(), (size_t) n}); }
        });
      });
      if (e != X_FINE) fail("outcome", "taking the bytes of a nested object ended with %s", ex_names[e]);
      probe(o.v == x.v ? "net:resent-root" : "net:resent-nested"); send(std::move(o), path, seed);
    }

    // ---- disk -----------------------------------------------------------------------------------
    void append(u64 seed, int cls) { SendOut o = encode(seed, cls, (int) seed); size_t at = disk.size(); (void) at; disk += o.bytes; logv.push_back({disk.size(), o.v}); logb.push_back(o.bytes); probe("disk:append"); }
    void crash(u64 seed, int style) {
      Rng r(seed); size_t cut = synced + r.below(disk.size() - synced + 1);
      if (r.chance(30) && !logv.empty()) { size_t e = logv[r.below(logv.size())].first; size_t d = r.below(9); if (e >= synced + d && e >= d && e <= disk.size()) cut = e - std::min(d, e); if (cut < synced) cut = synced; }
      std::string kept = disk.substr(0, cut); std::string lost = disk.substr(cut);
      probe("crash:disk"); probe(style % 3 == 0 ? "disk:truncated" : style % 3 == 1 ? "disk:stale-tail" : "disk:zero-tail");
      // what is left beyond the recorded length may be anything; a reader that stays inside never sees it
      size_t want = 0; while (want < logv.size() && logv[want].first <= cut) ++want;
      recover(kept, want, r);
      logv.resize(want); logb.resize(want); disk.resize(want ? logv.back().first : 0); synced = disk.size(); (void) lost;
    }
    void recover(std::string const& file, size_t want, Rng& r) {
      size_t pos = 0, got = 0; Region whole(file, 0, r.next()); bool adopt = r.chance(50);
      for (;;) {
        if (pos == file.size()) break;
        // a reader looks at the rest of the file, wherever it starts
        std::string rest = file.substr(pos); Region reg(rest, 0, r.next()); bool ok = accepted(reg);
        bool in_place; { Lib l; in_place = dart::is_valid(whole.span().subspan((size_t) pos)); }
        if (in_place != ok) fail("validate", "a packet in a file of packets is %s where it lies (offset %zu) and %s alone", in_place ? "accepted" : "refused", pos, ok ? "accepted" : "refused");
        if (!ok) break;
        if (got >= want) fail("recovery", "a torn packet was taken for a complete one: %zu of %zu bytes at offset %zu, expected %zu packets", rest.size(), logb.size() > got ? logb[got].size() : 0, pos, want);
        size_t n = 0; Opt<B> b; Ex e = attempt([&] { b.with([&] { return B {reg.span()}; }); n = (size_t) (*b).get_bytes().size(); });
        if (e != X_FINE) fail("recovery", "an accepted packet could not be read back: %s", ex_names[e]);
        if (n != logb[got].size()) fail("recovery", "packet %zu reports %zu bytes, %zu were written", got, n, logb[got].size());
        reg.drop();
        Cmp c; c.quiet = true; c.mode = (int) r.below(5); compare(*b, logv[got].second, c); if (c.bad) fail("recovery", "packet %zu was recovered with another value: %s", got, c.why.c_str());
        if (adopt && got % 2 == 0) { std::string exact = file.substr(pos, n); Region er(exact, 0, 1); if (!accepted(er)) fail("recovery", "packet %zu is refused when cut to the length it reports", got); }
        ++got; pos += n;
      }
      if (got != want) fail("recovery", "%zu packets were recovered from %zu bytes, %zu were fully written", got, file.size(), want);
      probe("disk:recovered", got); note_state(mix(mix(got, file.size() - pos), (u64) plan.seed));
    }
    void cuts(u64 seed, int cls) {
      SendOut o = encode(seed, cls, (int) seed); Rng r(seed ^ 9); size_t n = o.bytes.size(); 
      { Region full(o.bytes, 0, 1); validate_all(full, true, "a whole packet"); }
      size_t tries = n <= 400 ? n : 120;
      for (size_t i = 0; i < tries; ++i) { size_t c = n <= 400 ? i : r.chance(30) ? n - 1 - r.below(16) : r.below(n); Region reg(o.bytes.substr(0, c), 0, i); validate_all(reg, true, "a proper prefix of a packet", false); probe("disk:prefix"); }
      { std::string longer = o.bytes + gen_bytes(r, 1 + r.below(40), 1); Region reg(longer, 0, 2); validate_all(reg, true, "a packet followed by other bytes"); size_t got = 0; Ex e = attempt([&] { B b {reg.span()}; got = (size_t) b.get_bytes().size(); }); if (e != X_FINE || got != n) fail("recovery", "a packet of %zu bytes reports %zu", n, got); }
    }

    // ---- corruption in transit --------------------------------------------------------------------
    void corrupt(u64 seed, int cls, u64 cseed, int variants) {
      SendOut o = encode(seed, cls, (int) seed); SendOut other = encode(seed ^ 0x1234, (int) (cseed % 7 == 3 ? 0 : cseed % 7), 0); Rng r(cseed);
      for (int k = 0; k < variants; ++k) { u64 vs = r.next(); std::string d = damage(o.bytes, other.bytes, vs); one_corrupt(d, vs); if (bad_budget()) break; }
    }
    bool bad_budget() { return false; }
    static void put32(std::string& s, size_t at, u32 v) { for (int i = 0; i < 4 && at + (size_t) i < s.size(); ++i) s[at + (size_t) i] = (char) (v >> (8 * i)); }
    static u32 get32(std::string const& s, size_t at) { u32 v = 0; for (int i = 0; i < 4 && at + (size_t) i < s.size(); ++i) v |= (u32) (unsigned char) s[at + (size_t) i] << (8 * i); return v; }
    // where the aggregates of an undamaged packet start, and how many entries each has
    struct Agg { size_t pos; bool obj; size_t n; };
    static void aggs(std::string const& s, size_t pos, bool obj, std::vector<Agg>& out, int depth) {
      if (pos + 8 > s.size() || depth > 300 || out.size() > 5000) return; size_t n = get32(s, pos + 4); if (pos + 8 + 8 * n > s.size()) return; out.push_back({pos, obj, n});
      for (size_t i = 0; i < n; ++i) {
        size_t e = pos + 8 + 8 * i, at = pos + get32(s, e); int t = (unsigned char) s[e + 4]; if (t > 1) continue;
        if (obj) { if (at + 2 > s.size()) continue; at += 2 + ((unsigned char) s[at] | (size_t) (unsigned char) s[at + 1] << 8) + 1; }
        at = pos + ((at - pos + 7) & ~size_t(7)); aggs(s, at, t == 0, out, depth + 1);
      }
    }
    // damage that keeps the shape of a packet: entries that alias, point backwards, past the end, or lie about sizes
    std::string structural(std::string s, u64 seed) {
      Rng r(seed); std::vector<Agg> as; aggs(s, 0, true, as, 0); if (as.empty()) return s;
      if (r.chance(15)) { for (auto& a : as) for (size_t i = 1; i < a.n; ++i) for (size_t j = 0; j < 8; ++j) s[a.pos + 8 + 8 * i + j] = s[a.pos + 8 + j]; probe("fault:every-entry-aliased"); return s; }
      int n = 1 + (int) r.below(3);
      for (int k = 0; k < n; ++k) {
        Agg a = as[r.below(as.size())]; size_t e = a.n ? a.pos + 8 + 8 * r.below(a.n) : a.pos; u32 size = get32(s, a.pos);
        switch (r.below(10)) {
          case 0: if (a.n > 1) { size_t f = a.pos + 8 + 8 * r.below(a.n); for (size_t j = 0; j < 8; ++j) s[e + j] = s[f + j]; probe("fault:entry-aliased"); } break;
          case 1: if (a.n > 1) { size_t f = a.pos + 8 + 8 * r.below(a.n); for (size_t j = 0; j < 8; ++j) std::swap(s[e + j], s[f + j]); probe("fault:entries-swapped"); } break;
          case 2: if (a.n) { put32(s, e, size - (u32) r.below(12)); probe("fault:entry-near-end"); } break;
          case 3: if (a.n) { put32(s, e, (u32) (0 - (u32) (8 * r.below(1 + a.pos / 8)))); probe("fault:entry-backwards"); } break;
          case 4: if (a.n) { put32(s, e, (u32) (8 * r.below(3))); probe("fault:entry-to-self"); } break;
          case 5: put32(s, a.pos + 4, (u32) ((i64) a.n + r.range(-2, 3))); probe("fault:count-lies"); break;
          case 6: put32(s, a.pos, (u32) ((i64) size + 8 * r.range(-3, 3))); probe("fault:size-lies"); break;
          case 7: if (a.n) { static unsigned char const ts[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255}; s[e + 4] = (char) ts[r.below(14)]; probe("fault:type-lies"); } break;
          case 8: if (a.n && a.obj) { size_t at = a.pos + get32(s, e); if (at + 2 <= s.size()) { u32 l = (u32) r.below(4); u32 v = l == 0 ? 0xffff : l == 1 ? 0 : (u32) (unsigned char) s[at] + (u32) r.range(-3, 9); s[at] = (char) v; s[at + 1] = (char) (v >> 8); probe("fault:key-length-lies"); } } break;
          default: if (a.n && a.obj) { s[e + 5] = (char) r.next(); s[e + 6] = (char) r.next(); s[e + 7] = (char) r.next(); probe("fault:key-prefix-lies"); } break;
        }
      }
      return s;
    }
    std::string damage(std::string s, std::string const& other, u64 seed) {
      if (seed % 100 < 40) { s = structural(std::move(s), seed); if (seed % 100 < 30) return s; }
      Rng r(seed); int n = 1 + (int) r.below(r.chance(70) ? 2 : 6);
      for (int i = 0; i < n && !s.empty(); ++i) {
        size_t at = r.below(s.size()), at4 = at & ~size_t(3); if (r.chance(60)) { size_t m = std::min<size_t>(s.size(), 96); at = r.below(m); at4 = at & ~size_t(3); }
        switch (r.below(12)) {
          case 0: s[at] = (char) (s[at] ^ (1 << r.below(8))); probe("fault:bit-flip"); break;
          case 1: s[at] = (char) r.next(); probe("fault:byte-overwrite"); break;
          case 2: { static u32 const e[] = {0, 1, 2, 7, 8, 9, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}; put32(s, at4, e[r.below(14)]); probe("fault:field-extreme"); break; }
          case 3: put32(s, at4, get32(s, at4) + (u32) r.range(-16, 16)); probe("fault:field-nudged"); break;
          case 4: put32(s, at4, get32(s, r.below(s.size()) & ~size_t(3))); probe("fault:field-copied"); break;
          case 5: put32(s, at4, (u32) r.below(s.size() + 9)); probe("fault:field-offset"); break;
          case 6: { size_t b = r.below(s.size()), l = 1 + r.below(std::min<size_t>(64, s.size() - b)); std::string p = s.substr(b, l); for (size_t j = 0; j < l && at + j < s.size(); ++j) s[at + j] = p[j]; probe("fault:moved-within"); break; }
          case 7: if (!other.empty()) { size_t b = r.below(other.size()) & ~size_t(7), l = 1 + r.below(64); at &= ~size_t(7); for (size_t j = 0; j < l && at + j < s.size() && b + j < other.size(); ++j) s[at + j] = other[b + j]; probe("fault:spliced"); } break;
          case 8: s.resize(r.below(s.size() + 1)); probe("fault:truncated"); break;
          case 9: s += gen_bytes(r, 1 + r.below(24), 1); probe("fault:extended"); break;
          case 10: { size_t l = 1 + r.below(std::min<size_t>(32, s.size() - at)); for (size_t j = 0; j < l; ++j) s[at + j] = (char) (r.chance(50) ? 0 : 0xff); probe("fault:run-overwritten"); break; }
          default: { // an entry's type or offset: objects and arrays keep eight-byte entries after an eight-byte header
            size_t e = 8 + 8 * r.below(std::max<size_t>(1, std::min<size_t>(8, s.size() / 8))); if (e + 8 <= s.size()) { if (r.chance(50)) s[e + 4 + r.below(4)] = (char) r.below(14); else put32(s, e, get32(s, e) + (u32) (8 * (i64) r.range(-4, 4))); } probe("fault:entry"); break; }
        }
      }
      return s;
    }
    void one_corrupt(std::string const& d, u64 seed) {
      Region reg(d, seed % 17 == 0 ? (seed >> 8) % 16 : 0, seed); bool ok = accepted(reg); note_state(mix(hash_bytes(d.data(), d.size()), ok)); probe(ok ? "wire:corrupted-accepted" : "wire:corrupted-rejected");
      if (!ok) return;
      explore(reg, seed, d.size());
      std::string after((char const*) reg.data(), reg.len); if (after != d) fail("validate", "reading an accepted packet changed its bytes");
      // the copying constructor has its own idea of the length
      steps = 0; step_limit = 2000 * budget(d.size()); size_t base = mem.live_blocks;
      { Opt<B> b; attempt([&] { b.with([&] { return B {reg.span()}; }); }); if (b.has) { Ctx c; c.r = Rng(seed); walk(*b, c, 0); whole(*b, c, 0); } }
      { char* q = (char*) malloc(d.size()); memcpy(q, d.data(), d.size()); Opt<P> p; attempt([&] { dart::shareable_ptr<Shared> s((gsl::byte const*) q, Del {}); p.with([&] { return P {std::move(s)}; }); }); ++adopted;
        if (p.has) { Ctx c; c.r = Rng(seed ^ 1); walk(*p, c, 0); whole(*p, c, 0); } }
      step_limit = 0;
      if (mem.live_blocks != base) suspect("leak", "reading a corrupted packet left %lld blocks behind", (long long) (mem.live_blocks - base));
    }
    void explore(Region const&, u64, size_t) {}
    // nesting: a packet of n arrays, one inside the other, validated on a stack of 8 MB
    void deep(size_t n) {
      size_t total = 24 + 16 * n + 8; std::string s(total, '\0'); auto put = [&] (size_t at, size_t v) { put32(s, at, (u32) v); };
      put(0, total); put(4, 1); put(8, 16); s[12] = 1; s[13] = 1; s[14] = 'a'; s[16] = 1; s[18] = 'a';
      size_t pos = 24; for (size_t i = 0; i < n; ++i) { put(pos, total - pos); put(pos + 4, 1); put(pos + 8, 16); s[pos + 12] = 1; pos += 16; } put(pos, 8);
      Region reg(s, 0, 1);
      int st = on_small_stack([&] { return dart::is_valid(reg.span()) ? 0 : 1; });
      if (st < 0) fail("deep-nesting", "validating a packet of %zu arrays nested in each other exhausts an 8 MB stack", n);
      if (n < 1000 && st != 0) fail("validate", "a packet of %zu arrays nested in each other is refused", n);
      probe("wire:deep");
    }
    struct Ctx { Rng r {0}; int nodes = 0; };
    template <class F> void safely(F&& f) { attempt(f); }
    // every accessor, whatever it makes of the contents
    template <class HT> void walk(HT const& h, Ctx& c, int depth) {
      if (++c.nodes > 400 || depth > 80) return; T t {}; size_t n = 0; volatile long sink = 0;
      safely([&] { t = tof(h.get_type()); sink += (long) h.is_null() + h.is_str() + h.is_primitive(); });
      switch (t) {
        case T::Str: safely([&] { auto s = h.strv(); for (char ch : s) sink += ch; sink += (long) strlen(h.str()); sink += (long) h.size(); }); break;
        case T::Int: safely([&] { sink += (long) h.integer(); sink += h.numeric() > 0; }); break;
        case T::Dec: safely([&] { sink += h.decimal() > 0; }); break;
        case T::Bool: safely([&] { sink += h.boolean(); }); break;
        case T::Null: break;
        case T::Arr: {
          safely([&] { n = h.size(); });
          for (size_t i = 0; i < n && i < 40; ++i) { Opt<HT> e; safely([&] { e.with([&] { return i % 3 == 0 ? h[i] : i % 3 == 1 ? h.at(i) : h.get(i); }); }); if (e.has) walk(*e, c, depth + 1); }
          safely([&] { size_t k = 0; for (auto e : h) { sink += (long) e.get_type(); if (++k > 60) break; } (void) h.front(); (void) h.back(); (void) h[n]; (void) h[n + 3]; });
          safely([&] { auto it = h.rbegin(); size_t k = 0; while (it != h.rend() && ++k < 60) { sink += (long) (*it).get_type(); ++it; } });
          break; }
        default: {
          safely([&] { n = h.size(); sink += h.empty(); }); std::vector<std::string> keys;
          safely([&] { auto kv = h.kvbegin(); auto end = h.end(); size_t k = 0; while (std::get<1>(kv) != end && ++k < 60) { auto key = *std::get<0>(kv); auto s = key.strv(); { Out o; keys.emplace_back(s.data(), s.size()); } sink += (long) strlen(key.str()); sink += (long) (*std::get<1>(kv)).get_type(); ++std::get<0>(kv); ++std::get<1>(kv); } });
          for (size_t i = 0; i < keys.size() && i < 24; ++i) { Opt<HT> e; auto k = sv(keys[i]); safely([&] { e.with([&] { return i % 2 ? h[k] : h.get(k); }); }); if (e.has) walk(*e, c, depth + 1);
            safely([&] { sink += h.has_key(k); auto f = h.find(k); if (f != h.end()) sink += (long) (*f).get_type(); auto fk = h.find_key(k); if (fk != h.end()) sink += (long) (*fk).get_type(); (void) h.at(k); }); }
          safely([&] { (void) h["nope"]; (void) h[""]; sink += h.has_key("zzzzzzzzzzzz"); (void) h.get_nested("a.b.c"); });
          safely([&] { auto it = h.rbegin(); size_t k = 0; while (it != h.rend() && ++k < 60) { sink += (long) (*it).get_type(); ++it; } });
          safely([&] { auto ks = h.keys(); auto vs = h.values(); sink += (long) (ks.size() + vs.size()); });
          safely([&] { auto sp = h.get_bytes(); long x = 0; for (auto b : sp) x += (long) b; sink += x; auto d = h.dup_bytes(); sink += (long) d.get()[0]; if (depth && depth < 4 && c.nodes < 120) { B p {sp}; { Out o; walk(p, c, depth + 1); } } });
          break; }
      }
    }
    template <class HT> void whole(HT const& h, Ctx& c, int) {
      volatile long sink = 0;
      safely([&] { HT o = h; sink += o == h; sink += (typename HT::view) h == h; });
      safely([&] { P p {static_cast<B>(h)}; p.definalize(); { Out o; Ctx c2; c2.r = c.r; walk_heap(p, c2, 0); } sink += p == h; p.finalize(); auto sp = p.get_bytes(); sink += dart::is_valid(sp); });
      safely([&] { H m = static_cast<B>(h).definalize(); H copy = m; sink += copy == m; sink += m == static_cast<B>(h); });
      safely([&] { auto s = h.to_json(); sink += (long) s.size(); });
      safely([&] { auto o = HT::template transmogrify<RC2>(h); sink += (long) o.size(); });
      // packets made out of parts of this one hold only the bytes of those parts
      safely([&] { std::vector<dart::shim::string_view> kv; kv.push_back("a"); auto ks = h.keys(); for (auto& k : ks) kv.push_back(k.strv()); B p = static_cast<B>(h).project(kv); sink += (long) p.size(); { Out o; Ctx c2; c2.r = c.r; walk(p, c2, 0); } });
      safely([&] { B p = static_cast<B>(h).inject("a", 1, "zz", "text"); sink += (long) p.size(); { Out o; Ctx c2; c2.r = c.r; walk(p, c2, 0); } });
      safely([&] { auto ks = h.keys(); auto k = ks.at(c.r.below(ks.size() + 1)); std::vector<dart::shim::string_view> kv; kv.push_back(k.strv()); B p = static_cast<B>(h).project(kv); { Out o; Ctx c2; c2.r = c.r; walk(p, c2, 0); } });
    }
    template <class HT> void walk_heap(HT const& h, Ctx& c, int depth) {
      if (++c.nodes > 400 || depth > 80) return;
      safely([&] { if (h.is_object()) { for (auto e : h) { Out o; walk_heap(e, c, depth + 1); } } else if (h.is_array()) { for (size_t i = 0; i < h.size() && i < 40; ++i) { auto e = h[i]; Out o; walk_heap(e, c, depth + 1); } } else (void) h.get_type(); });
    }

    void step(Op const& op) {
      auto cls = [&] (i64 x) { u64 c = (u64) x % 100; return c < 26 ? 0 : c < 44 ? 1 : c < 56 ? 2 : c < (u64) (56 + plan.get("bigpct", 4)) ? 3 : c < 82 ? 4 : c < 88 ? 5 : c < 94 ? 6 : 7; };
      switch (op.code) {
        case W_SEND: send(encode((u64) op.a[0], cls(op.a[1]), (int) ((u64) op.a[2] % 60)), (int) ((u64) op.a[3] % 9), (u64) op.a[4]); break;
        case W_RESEND: resend((int) ((u64) op.a[0] % NR), (u64) op.a[1], (int) ((u64) op.a[2] % 9)); break;
        case W_TICK: advance(clock + 1 + (u64) op.a[0] % 400); break;
        case W_PART: part_until = clock + (u64) op.a[0] % 500; probe("net:partition"); break;
        case W_CHECK: check((int) ((u64) op.a[0] % NR), (int) ((u64) op.a[1] % 5), "later"); break;
        case W_DROP: { Rx& x = rx[(u64) op.a[0] % NR]; x.b.reset(); x.p.reset(); x.used = false; break; }
        case W_SCRIB: for (auto& g : mem_pool) if (g.block && op.a[0] % 2) memset(g.block + g.off, 0xdd, g.len); mem_pool.clear(); probe("net:receive-memory-freed"); break;
        case W_CONVERT: convert((int) ((u64) op.a[0] % NR), (int) ((u64) op.a[1] % 64), (u64) op.a[2]); break;
        case W_APPEND: append((u64) op.a[0], cls(op.a[1])); break;
        case W_SYNC: synced = disk.size(); probe("disk:sync"); break;
        case W_CRASH: crash((u64) op.a[0], (int) ((u64) op.a[1] % 3)); break;
        case W_CUTS: cuts((u64) op.a[0], cls(op.a[1])); break;
        case W_CORRUPT: corrupt((u64) op.a[0], cls(op.a[1]), (u64) op.a[2], 12); break;
        case W_DEEP: deep((size_t) op.a[0]); break;
        default: break;
      }
      logf("%d %s clock %llu rx %d disk %zu", opi, wire_opnames[op.code], (unsigned long long) clock, nextrx, disk.size());
    }
    void run() {
      for (auto& op : plan.ops) { set_op(opi); note_history(mix(mix((u64) op.code, (u64) op.a[0]), (u64) op.a[1] ^ clock)); step(op); ++opi; }
      set_op(opi);
      // faults stop: everything that was sent arrives within a bounded time
      faults = false; part_until = 0; advance(clock + 1000); for (auto& m : msgs) if (!m.done) fail("harness", "the simulated channel did not deliver a message after its faults stopped");
      if (!disk.empty()) { Rng r(3); recover(disk, logv.size(), r); }
      for (int i = 0; i < NR; ++i) check(i, (opi + i) % 5, "at the end");
      Rng r((u64) plan.seed); for (int k = 0; k < NR; ++k) { int i = (int) (((u64) k + plan.seed) % NR); rx[i].b.reset(); rx[i].p.reset(); rx[i].used = false; }
      if (mem.live_blocks > mem.base) suspect("leak", "every packet was dropped but storage is still held: %s", mem_describe_leaks().c_str());
      if (deleted().count != adopted) fail("leak", "%ld blocks were handed over, %ld were released", adopted, deleted().count);
    }
  };
}
