#include "own.h"
#include <map>
#include <functional>
#include <atomic>
namespace sim {
  namespace {
    using OT = dart::optional<Thing>; using OI = dart::optional<int>; using OL = dart::optional<long>;
    constexpr int N = 4;
    struct MO { bool has = false; int v = 0; };

    struct World {
      Plan const& plan; int opi = 0;
      explicit World(Plan const& p) : plan(p) {}

      // ---- optionals ----
      OT o[N]; MO m[N];
      void opt_check(char const* when) {
        for (int i = 0; i < N; ++i) {
          bool a = o[i].has_value(), b = (bool) o[i];
          if (a != m[i].has || b != a) fail("value", "optional %d %s holds %s, expected %s", i, when, a ? "a value" : "nothing", m[i].has ? "one" : "none");
          if (a && ((*o[i]).v != m[i].v || o[i]->v != m[i].v)) fail("value", "optional %d %s holds %d, expected %d", i, when, (*o[i]).v, m[i].v);
          if (a) things.need(&*o[i], "an optional holds");
        }
      }
      void opt_op(Op const& op) {
        int a = (int) ((u64) op.a[0] % N), b = (int) ((u64) op.a[1] % N), style = (int) ((u64) op.a[2]), x = (int) (op.a[3] % 50); OT& t = o[a]; MO& n = m[a]; MO old = n; (void) old;
        auto go = [&] (End e, MO done, MO failed, bool throws = true) {   // what is held when it succeeded, when it failed
          if (e == E_FINE) n = done; else if (e == E_BOOM && throws) n = failed; else fail("outcome", "the operation ended with %s", end_names[e]);
        };
        auto arm = [&] { things.boom = op.fk ? (u64) op.fn : 0; };
        switch (op.code) {
          case W_OMAKE: {   // a fresh optional in place of the old one
            { Lib l; t.~OT(); } new (&t) OT(); n = MO {}; if (a == b) b = (a + 1) % N; OT& s = o[b]; MO& q = m[b]; MO const had = q; t.~OT(); bool made = false; End e = E_FINE; MO want;
            struct Back { OT& t; bool& made; ~Back() { if (!made) new (&t) OT(); } };
            { Back back {t, made};
              OI oi = x & 1 ? OI {x} : OI {}; Thing* loc = nullptr; Thing local {x}; loc = &local; arm();
              switch (style % 11) {
                case 0: e = tried([&] { new (&t) OT(); }); want = MO {}; break;
                case 1: e = tried([&] { new (&t) OT(dart::nullopt); }); want = MO {}; break;
                case 2: case 3: e = tried([&] { new (&t) OT(static_cast<OT const&>(s)); }); want = had; break;
                case 4: case 5: e = tried([&] { new (&t) OT(std::move(s)); }); want = had; if (e == E_FINE && had.has) q.v = GONE; break;
                case 6: e = tried([&] { new (&t) OT(static_cast<Thing const&>(*loc)); }); want = MO {true, x}; break;
                case 7: e = tried([&] { new (&t) OT(std::move(*loc)); }); want = MO {true, x}; break;
                case 8: e = tried([&] { new (&t) OT(x); }); want = MO {true, x}; break;
                case 9: e = tried([&] { new (&t) OT(static_cast<OI const&>(oi)); }); want = MO {oi.has_value(), x}; break;
                default: e = tried([&] { new (&t) OT(std::move(oi)); }); want = MO {oi.has_value(), x}; break;
              }
              things.boom = 0; made = e == E_FINE;
            }
            go(e, want, MO {}); break; }
          case W_OSET: {
            OT& s = o[b]; MO& q = m[b]; MO const had = q; OI oi = x & 1 ? OI {x} : OI {}; Thing local {x}; End e; arm();
            switch (style % 11) {
              case 0: e = tried([&] { t = dart::nullopt; }); go(e, MO {}, n); break;
              case 1: case 2: e = tried([&] { t = static_cast<OT const&>(s); }); go(e, had, n); break;
              case 3: case 4: e = tried([&] { t = std::move(s); }); if (a == b) { go(e, n, n); break; } go(e, had, n); if (e == E_FINE && had.has) q.v = GONE; break;
              case 5: e = tried([&] { t = static_cast<Thing const&>(local); }); go(e, MO {true, x}, n); break;
              case 6: e = tried([&] { t = std::move(local); }); go(e, MO {true, x}, n); break;
              case 7: e = tried([&] { t = x; }); go(e, MO {true, x}, n); break;
              case 8: e = tried([&] { t = OT(oi); }); if (e == E_BOOM) { go(e, n, n); break; } go(e, MO {oi.has_value(), x}, n); break;
              case 9: e = tried([&] { t = OT(std::move(oi)); }); if (e == E_BOOM) { go(e, n, n); break; } go(e, MO {oi.has_value(), x}, n); break;
              default: if (!n.has) { things.boom = 0; break; } e = tried([&] { t = *t; }); go(e, n, n); break;   // its own content
            }
            things.boom = 0; break; }
          case W_OCHANGE: {
            Thing local {x}; End e; arm();
            switch (style % 6) {
              case 0: e = tried([&] { t.reset(); }); go(e, MO {}, n, false); break;
              case 1: e = tried([&] { Thing& g = t.emplace(x); if (&g != &*t) fail("value", "emplace gave another object"); }); go(e, MO {true, x}, MO {}); break;
              case 2: e = tried([&] { t.emplace(static_cast<Thing const&>(local)); }); go(e, MO {true, x}, MO {}); break;
              case 3: e = tried([&] { t.emplace(std::move(local)); }); go(e, MO {true, x}, MO {}); break;
              case 4: things.boom = 0; if (a != b) { e = tried([&] { std::swap(t, o[b]); }); if (e != E_FINE) fail("outcome", "swap ended with %s", end_names[e]); std::swap(n, m[b]); } break;
              default: if (!n.has) break; e = tried([&] { *t = x; t->v += 1; }); go(e, MO {true, x + 1}, n);
            }
            things.boom = 0; break; }
          case W_OREAD: {
            OT const& c = t; End e; int got = 0; arm();
            switch (style % 7) {
              case 0: e = tried([&] { got = t.value().v; }); break;
              case 1: e = tried([&] { got = c.value().v; }); break;
              case 2: e = tried([&] { Thing g = std::move(t).value(); got = g.v; }); if (e == E_FINE) n.v = GONE; break;
              case 3: e = tried([&] { Thing g = c.value_or(x); got = g.v; }); break;
              case 4: e = tried([&] { Thing g = std::move(t).value_or(x); got = g.v; }); if (e == E_FINE && n.has) n.v = GONE; break;
              case 5: if (!n.has) { things.boom = 0; return; } e = tried([&] { Thing g = *std::move(t); got = g.v; }); if (e == E_FINE) n.v = GONE; break;
              default: if (!n.has) { things.boom = 0; return; } e = tried([&] { got = (*std::move(c)).v; }); break;
            }
            bool or_ = style % 7 == 3 || style % 7 == 4; things.boom = 0;
            if (e == E_BOOM) { if (n.has && t.has_value() && (*t).v == GONE) n.v = GONE; break; }
            if (!old.has && !or_) { if (e != E_ACCESS) fail("outcome", "reading an empty optional ended with %s", end_names[e]); break; }
            if (e != E_FINE) fail("outcome", "reading an optional ended with %s", end_names[e]);
            if (got != (old.has ? old.v : x)) fail("value", "an optional reads as %d, expected %d", got, old.has ? old.v : x);
            break; }
          default: {   // an empty one is less than any value
            OT const& s = t; OT const& u = o[b]; MO p = m[b]; Thing w {x}; auto rank = [] (MO z) { return z.has ? (long) z.v : -1000000L; }; long l = rank(n), r; bool g[6]; auto const none = dart::nullopt; char const* what; Lib lib;
            switch (style % 5) {
              case 0: g[0] = s == u; g[1] = s != u; g[2] = s < u; g[3] = s <= u; g[4] = s > u; g[5] = s >= u; r = rank(p); what = "two optionals"; break;
              case 1: g[0] = s == w; g[1] = s != w; g[2] = s < w; g[3] = s <= w; g[4] = s > w; g[5] = s >= w; r = x; what = "an optional and a value"; break;
              case 2: g[0] = w == s; g[1] = w != s; g[2] = w < s; g[3] = w <= s; g[4] = w > s; g[5] = w >= s; r = l; l = x; what = "a value and an optional"; break;
              case 3: g[0] = s == none; g[1] = s != none; g[2] = s < none; g[3] = s <= none; g[4] = l > rank(MO {}); g[5] = true; r = rank(MO {}); what = "an optional and nullopt"; break;
              default: g[0] = none == s; g[1] = none != s; g[2] = none < s; g[3] = none <= s; g[4] = false; g[5] = l == rank(MO {}); r = l; l = rank(MO {}); what = "nullopt and an optional"; break;
            }
            bool want[6] = {l == r, l != r, l < r, l <= r, l > r, l >= r}; static char const* const nm[] = {"==", "!=", "<", "<=", ">", ">="};
            for (int i = 0; i < 6; ++i) if (g[i] != want[i]) { in_lib = 0; fail("value", "%s: %ld %s %ld is %d", what, l, nm[i], r, (int) g[i]); }
            break; }
        }
      }

      // ---- variants ----
      using VT = dart::shim::variant<int, Thing, Calm, std::string>;
      struct MV { int i = 0; int v = 0; }; enum { LOST = 9 };
      VT v[N]; MV w[N];
      static std::string text(int x) { return std::string((size_t) (x % 3 ? 40 : 3), (char) ('a' + x % 26)); }
      static MV look(VT const& t) {
        using namespace dart::shim; MV r; if (t.valueless_by_exception()) { r.i = LOST; return r; }
        r.i = (int) t.index();
        switch (r.i) { case 0: r.v = *get_if<int>(&t); break; case 1: things.need(get_if<Thing>(&t), "a variant holds"); r.v = get_if<1>(&t)->v; break; case 2: things.need(get_if<Calm>(&t), "a variant holds"); r.v = get_if<2>(&t)->v; break;
          default: { auto& s = *get_if<std::string>(&t); r.v = s.empty() ? GONE : s == text(s[0] - 'a') || s == text(s[0] - 'a' + 26) || s == text(s[0] - 'a' + 52) ? s[0] - 'a' + (s.size() == 3 ? 1000 : 2000) : -1; } }
        return r;
      }
      static MV str_of(int x) { MV r; r.i = 3; r.v = x % 26 + (text(x).size() == 3 ? 1000 : 2000); return r; }
      static bool same(MV a, MV b) { return a.i == b.i && (a.i == LOST || a.v == b.v); }
      void var_check(char const* when) { for (int i = 0; i < N; ++i) { Out out; MV g = look(v[i]); if (!same(g, w[i])) fail("value", "variant %d %s holds alternative %d with %d, expected %d with %d", i, when, g.i, g.v, w[i].i, w[i].v); } }
      void var_op(Op const& op) {
        using namespace dart::shim; int a = (int) ((u64) op.a[0] % N), b = (int) ((u64) op.a[1] % N), style = (int) ((u64) op.a[2]), x = (int) (op.a[3] % 50); VT& t = v[a]; MV& n = w[a]; MV const old = n;
        std::string s = text(x); bool mem_fault = op.fk && op.a[4] % 3 == 0;
        auto run = [&] (MV done, std::function<void()> f, bool change = true) -> End {
          End e; { Arm arm(mem_fault ? op.fk : 0, op.fn); if (op.fk && !mem_fault) things.boom = (u64) op.fn; e = tried(f); things.boom = 0; }
          if (e == E_FINE) { n = done; return e; }
          if (e != E_BOOM && !(e == E_OOM && mem_fault)) fail("outcome", "the operation ended with %s", end_names[e]);
          MV g = look(t); if (g.i == LOST && change && !(done.i == old.i && op.code != W_VCHANGE && old.i != LOST)) { n = g; return e; }   // nothing held, after a change of alternative failed
          if (!same(g, old)) { if (op.code == W_VCHANGE || op.code == W_VMAKE) fail("value", "after a failed change a variant holds alternative %d with %d, it held %d with %d", g.i, g.v, old.i, old.v); fail("value", "after a failed assignment a variant holds alternative %d with %d, it held %d with %d", g.i, g.v, old.i, old.v); }
          return e;
        };
        switch (op.code) {
          case W_VMAKE: {
            if (a == b) b = (a + 1) % N; VT& q = v[b]; MV const had = w[b]; bool made = false; { Lib l; t.~VT(); } End e; MV want; Thing th {x}; Calm ca {x};
            { Arm arm(mem_fault ? op.fk : 0, op.fn); if (op.fk && !mem_fault) things.boom = (u64) op.fn;
              switch (style % 9) {
                case 0: e = tried([&] { new (&t) VT(); }); want = MV {0, 0}; break;
                case 1: e = tried([&] { new (&t) VT(x); }); want = MV {0, x}; break;
                case 2: e = tried([&] { new (&t) VT(static_cast<Thing const&>(th)); }); want = MV {1, x}; break;
                case 3: e = tried([&] { new (&t) VT(std::move(ca)); }); want = MV {2, x}; break;
                case 4: e = tried([&] { new (&t) VT(s); }); want = str_of(x); break;
                case 5: e = tried([&] { new (&t) VT(mpark::in_place_index_t<1> {}, x); }); want = MV {1, x}; break;
                case 6: e = tried([&] { new (&t) VT(std::move(q)); }); want = had; if (e == E_FINE && had.i != LOST && had.i) w[b].v = GONE; if (e == E_FINE && had.i == 3) w[b] = look(q); break;
                default: e = tried([&] { new (&t) VT(static_cast<VT const&>(q)); }); want = had;
              }
              things.boom = 0; made = e == E_FINE; }
            if (!made) new (&t) VT();
            if (e == E_FINE) n = want; else { n = MV {0, 0}; if (e != E_BOOM && !(e == E_OOM && mem_fault)) fail("outcome", "making a variant ended with %s", end_names[e]); }
            break; }
          case W_VSET: {
            VT& q = v[b]; MV const had = w[b]; Thing th {x}; Calm ca {x};
            switch (style % 9) {
              case 0: run(MV {0, x}, [&] { t = x; }); break;
              case 1: run(MV {1, x}, [&] { t = static_cast<Thing const&>(th); }); break;
              case 2: run(MV {1, x}, [&] { t = std::move(th); }); break;
              case 3: { End e = run(MV {2, x}, [&] { t = static_cast<Calm const&>(ca); }); if (e != E_FINE && n.i == LOST && old.i != LOST) fail("value", "assigning a value failed before anything was moved, and the old value is gone"); break; }
              case 4: run(MV {2, x}, [&] { t = std::move(ca); }); break;
              case 5: { End e = run(str_of(x), [&] { t = s; }); if (e != E_FINE && n.i == LOST && old.i != LOST) fail("value", "assigning a value failed before anything was moved, and the old value is gone"); break; }
              case 6: run(str_of(x), [&] { t = std::move(s); }); break;
              case 7: { if (a == b) break; End e = run(had, [&] { t = std::move(q); }); if (e == E_FINE && had.i && had.i != LOST) { if (had.i == 3) w[b] = look(q), w[b].i = (int) q.index(); else w[b].v = GONE; } break; }
              default: { bool calm = had.i == 2 || had.i == 3; End e = run(had, [&] { t = static_cast<VT const&>(q); }); if (e != E_FINE && calm && n.i == LOST && old.i != LOST) fail("value", "assigning from a variant failed before anything was moved, and the old value is gone"); break; }
            }
            break; }
          case W_VCHANGE: {
            Thing th {x};
            switch (style % 5) {
              case 0: run(MV {1, x}, [&] { if (t.emplace<Thing>(x).v != x) fail("value", "emplace gave another object"); }); break;
              case 1: run(MV {2, x}, [&] { t.emplace<2>(x); }); break;
              case 2: run(str_of(x), [&] { t.emplace<std::string>(s); }); break;
              case 3: run(MV {0, x}, [&] { t.emplace<0>(x); }); break;
              default: { if (a == b) break; End e = tried([&] { std::swap(t, v[b]); }); if (e != E_FINE) fail("outcome", "swapping variants ended with %s", end_names[e]); std::swap(w[a], w[b]); }
            }
            break; }
          default: {
            VT const& c = t; VT const& d = v[b];
            switch (style % 4) {
              case 0: { int got = -5; End e = tried([&] { got = get<Thing>(c).v; }); if (n.i == 1 ? e != E_FINE || got != n.v : e != E_ACCESS) fail("value", "get of alternative 1 from a variant of alternative %d ended with %s and %d", n.i, end_names[e], got); break; }
              case 1: { struct Vis { int operator ()(int i) { return i; } int operator ()(Thing const& i) { return 100000 + i.v; } int operator ()(Calm const& i) { return 200000 + i.v; } int operator ()(std::string const& q) { return 300000 + (int) q.size(); } }; int got = -5; End e = tried([&] { got = visit(Vis {}, c); });
                int want = n.i == 0 ? n.v : n.i == 3 ? 300000 + (int) get_if<3>(&c)->size() : n.i * 100000 + n.v; if (n.i == LOST ? e != E_ACCESS : e != E_FINE || got != want) fail("value", "visiting a variant of alternative %d gave %d, expected %d", n.i, got, want); break; }
              case 2: { bool h[4]; { Lib l; h[0] = holds_alternative<int>(c); h[1] = holds_alternative<Thing>(c); h[2] = holds_alternative<Calm>(c); h[3] = holds_alternative<std::string>(c); } for (int i = 0; i < 4; ++i) if (h[i] != (n.i == i)) fail("value", "a variant of alternative %d says %d for %d", n.i, (int) h[i], i);
                if ((n.i == LOST) != (c.index() == mpark::variant_npos) || (get_if<int>(&c) != nullptr) != (n.i == 0) || (get_if<2>(&c) != nullptr) != (n.i == 2)) fail("value", "a variant's index and get_if disagree with what it holds"); break; }
              default: { bool g[6]; { Lib l; g[0] = c == d; g[1] = c != d; g[2] = c < d; g[3] = c <= d; g[4] = c > d; g[5] = c >= d; } int i = n.i == LOST ? -1 : n.i, j = w[b].i == LOST ? -1 : w[b].i; int o3 = i != j ? (i < j ? -1 : 1) : i == -1 ? 0 : i == 3 ? get_if<3>(&c)->compare(*get_if<3>(&d)) : n.v < w[b].v ? -1 : n.v > w[b].v;
                bool want[6] = {o3 == 0, o3 != 0, o3 < 0, o3 <= 0, o3 > 0, o3 >= 0}; for (int k = 0; k < 6; ++k) if (g[k] != want[k]) fail("value", "comparing variants (alternatives %d and %d): relation %d is %d", i, j, k, (int) g[k]); }
            } }
        }
      }

      // ---- pointers ----
      std::unique_ptr<struct PtrBase> ptrs;
      void run();
    };

    struct PtrBase { virtual int count() = 0; virtual void op(World&, Op const&) = 0; virtual void check(char const*) = 0; virtual ~PtrBase() {} };
    struct Root { int tag = 5; virtual int kind() const { return 1; } virtual ~Root() {} };
    int deleted_custom = 0;

    // One family of pointers: P<T> and how it is made.
    template <template <class> class C> struct Counted { template <class T> using P = C<T>; static constexpr bool shareable = false; };
    template <template <class> class C> struct Shareable { template <class T> using P = dart::shareable_ptr<C<T>>; template <class T> using V = typename dart::view_ptr_context<C>::template view_ptr<T>; static constexpr bool shareable = true; };
    template <class T> using sk = dart::skinny_ptr<T>; template <class T> using un = dart::unsafe_ptr<T>; template <class T> using sp = std::shared_ptr<T>;

    template <class Fam> struct PtrWorld : PtrBase {
      struct Node; using P = typename Fam::template P<Node>;
      struct Node : Root { Thing t; P next; int id; explicit Node(int id) : t(id), next(nullptr), id(id) {} int kind() const override { return 2; } };
      struct Kill { int mark; template <class T> void operator ()(T* p) const { { Out o; things.need(static_cast<Node const*>(p) ? &static_cast<Node const*>(p)->t : nullptr, "deleting"); ++deleted_custom; if (mark != 31) fail("lifetime", "a deleter lost its own state"); } delete p; } };
      static constexpr int S = 5;
      P p[S] {P(nullptr), P(nullptr), P(nullptr), P(nullptr), P(nullptr)}; int h[S] = {0, 0, 0, 0, 0};   // id of the node held
      struct MN { int next = 0; Node* at = nullptr; bool custom = false; }; std::map<int, MN> nodes; int ids = 0; int customs = 0;

      int owners(int id) { int c = 0; for (int x : h) c += x == id; for (auto& e : nodes) c += e.second.next == id; return c; }
      void collect() { for (bool more = true; more;) { more = false; for (auto i = nodes.begin(); i != nodes.end(); ++i) if (!owners(i->first)) { customs += i->second.custom; nodes.erase(i); more = true; break; } } }
      Node* at(int id) { return id ? nodes[id].at : nullptr; }
      int count() override { return (int) nodes.size(); }
      void check(char const* when) override {
        Out out;
        if (deleted_custom != customs) fail("lifetime", "%s deleters ran %d times, expected %d", when, deleted_custom, customs);
        for (int i = 0; i < S; ++i) seen(p[i], h[i], when);
        for (auto& e : nodes) { things.need(&e.second.at->t, "a node"); if (e.second.at->id != e.first) fail("value", "node %d is no longer itself", e.first); seen(e.second.at->next, e.second.next, when); }
      }
      void seen(P const& x, int id, char const* when) {
        Node* g; long c; bool u, y; { Lib l; g = x.get(); c = (long) x.use_count(); u = x.unique(); y = (bool) x; }
        if (g != at(id)) fail("value", "%s a pointer points elsewhere", when); if (y != (id != 0)) fail("value", "%s a pointer says %d for null", when, (int) !y);
        long want = id ? owners(id) : 0; if (c != want) fail("count", "%s a pointer to a node with %ld owners reports %ld", when, want, c); if (u != (want == 1)) fail("count", "%s unique() is %d with %ld owners", when, (int) u, want);
        if (id) { if (&*x != g || x->id != id || x->t.v != id) fail("value", "%s a pointer reads another node", when); }
      }
      // ways to make one
      struct Made { End e; bool custom = false; };
      template <class F> static P from_unique(F&& u) { return P(std::forward<F>(u)); }
      static P fresh(int id, std::true_type) { return dart::make_shareable<typename P::value_type>(id); }
      static P fresh(int id, std::false_type) { return make_(id, (P*) nullptr); }
      template <class C> static P make_(int id, dart::detail::counted_ptr_impl<Node, C>*) { return std::is_same<C, int64_t>::value ? P(dart_make(id, C {})) : P(dart_make(id, C {})); }
      static dart::unsafe_ptr<Node> dart_make(int id, int64_t const&) { return dart::make_unsafe<Node>(id); } static dart::skinny_ptr<Node> dart_make(int id, std::atomic<int64_t> const&) { return dart::make_skinny<Node>(id); }
      using Sh = std::integral_constant<bool, Fam::shareable>;
      // forms that only counted pointers have
      template <class U> static void reset_to(P& x, U* q, int way, std::false_type) { if (way & 1) x.reset(q, Kill {31}); else x.reset(q); }
      template <class U> static void reset_to(P& x, U* q, int way, std::true_type) { if (way & 1) x = P(q, Kill {31}); else x = P(q); }
      static void root(PtrWorld& w, int i, std::false_type) { using R = typename Fam::template P<Root>; Root* g; long c, d; int k; { Lib l; R r(w.p[i]); R m; m = r; R z(std::move(m)); g = z.get(); c = (long) r.use_count(); r = w.p[i]; d = (long) z.use_count(); k = z ? z->kind() : 0; P back = w.p[i]; R from; from = std::move(back); if (back.get()) { in_lib = 0; fail("value", "a moved-from pointer is not null"); } }
        long n = w.h[i] ? w.owners(w.h[i]) : 0; if (g != w.p[i].get() || c != (n ? n + 2 : 0) || d != (n ? n + 2 : 0) || k != (n ? 2 : 0)) fail("count", "a pointer to the base: %ld and %ld owners, expected %ld", c, d, n + 2); }
      static void root(PtrWorld& w, int i, std::true_type) {   // to and from the pointer inside
        using V = typename P::value_type; long n = w.h[i] ? w.owners(w.h[i]) : 0; long c; Node* g; { Lib l; P a(w.p[i].raw()); P b(a); c = (long) b.use_count(); raw_out(b, a); P d(std::move(a.raw())); g = d.get(); if (n && a.get()) { in_lib = 0; fail("value", "a moved-from pointer is not null"); } a = d.raw(); a = std::move(d.raw()); g = a.get() == g ? g : nullptr; (void) sizeof(V); }
        if (g != w.p[i].get() || c != (n ? n + 2 : 0)) fail("count", "a pointer made from the pointer inside: %ld owners, expected %ld", c, n + 2); }
      static void raw_out(P& b, P const& a) { a.share(b.raw()); std::move(b).transfer(const_cast<P&>(a).raw()); if (b.get()) { in_lib = 0; fail("value", "a pointer that was handed over still points"); } }

      void arm(Op const& op) { if (op.fk && op.a[4] % 3 == 0) things.boom = (u64) op.fn; else if (op.fk) { fault = Fault {}; fault.kind = op.fk; fault.n = (u64) op.fn; fault.armed = true; } }
      void calm() { things.boom = 0; fault.armed = false; }
      void judge(Op const& op, End e) { bool may = op.fk && (op.a[4] % 3 == 0 ? e == E_BOOM : e == E_OOM); if (e != E_FINE && !may) fail("outcome", "the operation ended with %s", end_names[e]); }

      void op(World&, Op const& op) override {
        int a = (int) ((u64) op.a[0] % S), b = (int) ((u64) op.a[1] % S), style = (int) ((u64) op.a[2]); End e = E_FINE;
        switch (op.code) {
          case W_PMAKE: case W_PRESET: {
            if (nodes.size() > 30) return; int id = ++ids; Node* q = nullptr; int way = style % 9; if (op.code == W_PRESET && way == 0) way = 7; if (way == 8) { e = tried([&] { if (style & 16) p[a].reset(); else p[a] = nullptr; }); if (e != E_FINE) fail("outcome", "resetting a pointer ended with %s", end_names[e]); h[a] = 0; collect(); --ids; return; }
            if (way != 0) { e = tried([&] { q = new Node(id); }); if (e != E_FINE) return; }
            bool custom = way == 2 || way == 4 || way == 6; bool handed = false; arm(op);
            e = tried([&] {
              switch (way) {
                case 0: { P n = fresh(id, Sh {}); handed = true; p[a] = std::move(n); break; }
                case 1: { handed = true; P n(q); p[a] = n; break; }
                case 2: { handed = true; P n(q, Kill {31}); p[a] = std::move(n); break; }
                case 3: { std::unique_ptr<Node> u(q); handed = true; P n(std::move(u)); if (u) { in_lib = 0; fail("lifetime", "a unique_ptr still owns what it gave away"); } p[a] = std::move(n); break; }
                case 4: { std::unique_ptr<Node, Kill> u(q, Kill {31}); handed = true; P n(std::move(u)); p[a] = std::move(n); break; }
                case 5: { handed = true; reset_to(p[a], q, 0, Sh {}); break; }
                case 6: { handed = true; reset_to(p[a], q, 1, Sh {}); break; }
                default: { std::unique_ptr<Node> u(q); handed = true; p[a] = std::move(u); if (u) { in_lib = 0; fail("lifetime", "a unique_ptr still owns what it gave away"); } }
              } });
            calm(); judge(op, e);
            if (e == E_FINE) { h[a] = id; MN n; n.at = p[a].get(); n.custom = custom; nodes[id] = n; collect(); }
            else { if (custom) ++customs; probe(e == E_BOOM ? "fault:constructor" : "fault:allocation"); }   // what was handed over is gone: its deleter ran
            break; }
          case W_PSET: {
            int k = h[b]; arm(op);
            switch (style % 8) {
              case 0: case 1: e = tried([&] { p[a] = static_cast<P const&>(p[b]); }); if (e == E_FINE) h[a] = k; break;
              case 2: case 3: e = tried([&] { p[a] = std::move(p[b]); }); if (e == E_FINE && a != b) { h[a] = k; h[b] = 0; } break;
              case 4: if (a == b) break; { Lib l; p[a].~P(); } h[a] = 0; e = tried([&] { new (&p[a]) P(static_cast<P const&>(p[b])); }); if (e == E_FINE) h[a] = k; else new (&p[a]) P(nullptr); break;
              case 5: if (a == b) break; { Lib l; p[a].~P(); } h[a] = 0; e = tried([&] { new (&p[a]) P(std::move(p[b])); }); if (e == E_FINE) { h[a] = k; h[b] = 0; } else new (&p[a]) P(nullptr); break;
              case 6: e = tried([&] { std::swap(p[a], p[b]); }); if (e == E_FINE) std::swap(h[a], h[b]); break;
              default: e = tried([&] { P x = p[b]; P y(std::move(x)); p[a] = y; x = y; y = std::move(x); }); if (e == E_FINE) h[a] = k;
            }
            calm(); if (e != E_FINE) fail("outcome", "a copy or a move of a pointer ended with %s", end_names[e]); collect(); break; }
          case W_PNEXT: {   // chains: a node's own pointer is the operand
            int i = h[a]; if (!i) return; P& nx = nodes[i].at->next; int k = h[b]; arm(op);
            switch (style % 6) {
              case 0: case 1: if (k >= i) break; e = tried([&] { if (style & 1) nx = p[b]; else nx = std::move(p[b]); }); nodes[i].next = k; if (!(style & 1)) h[b] = 0; break;   // only older nodes: no rings
              case 2: e = tried([&] { p[a] = static_cast<P const&>(p[a]->next); }); h[a] = nodes[i].next; break;
              case 3: e = tried([&] { p[a] = std::move(p[a]->next); }); h[a] = nodes[i].next; nodes[i].next = 0; break;
              case 4: e = tried([&] { p[b] = nx; }); h[b] = nodes[i].next; break;
              default: e = tried([&] { nx = nullptr; }); nodes[i].next = 0;
            }
            calm(); if (e != E_FINE) fail("outcome", "an assignment between a pointer and a node it leads to ended with %s", end_names[e]); collect(); break; }
          case W_PREAD: {
            bool g[6]; { Lib l; P const& x = p[a]; P const& y = p[b]; g[0] = x == y; g[1] = x != y; g[2] = x < y; g[3] = x <= y; g[4] = x > y; g[5] = x >= y; }
            bool same = h[a] == h[b]; if (g[0] != same || g[1] == same || g[2] == g[5] || g[4] == g[3] || (g[2] && g[4]) || g[0] != (g[3] && g[5])) fail("value", "comparing pointers to %s: == %d, != %d, < %d, <= %d, > %d, >= %d", same ? "the same" : "different objects", (int) g[0], (int) g[1], (int) g[2], (int) g[3], (int) g[4], (int) g[5]);
            root(*this, a, Sh {}); break; }
          case W_PVIEW: view(a, b, Sh {}); break;
          default: arrays(op); break;
        }
      }
      void view(int, int, std::false_type) {}
      void view(int a, int b, std::true_type) {
        using V = typename Fam::template V<Node>; Node* g; size_t c; bool eq, nul; Node* g2; { Lib l; V x(p[a].raw()); V y(x), z(std::move(y)); g = z.get(); c = z.use_count(); V u(p[b].raw()); eq = x == u; nul = !y; u = p[a].raw(); g2 = u.get(); u.reset(); if (u || u.get() || u.use_count()) { in_lib = 0; fail("value", "a view that was reset still sees something"); } }
        size_t n = h[a] ? (size_t) owners(h[a]) : 1; if (g != at(h[a]) || g2 != g || eq != (h[a] == h[b]) || !nul || c != n) fail("value", "a view of a pointer: %zu owners, expected %zu, sees %s", c, n, g == at(h[a]) ? "the same" : "another node");
      }
      void arrays(Op const& op) {
        size_t n = (size_t) ((u64) op.a[3] % 6); int before = things.n; (void) before; arm(op);
        End e = tried([&] { auto x = dart::make_skinny<Thing[]>(n); auto y = x; auto u = dart::make_unsafe<Thing[]>(n); Out o; fault.armed = false; things.boom = 0; for (size_t i = 0; i < n; ++i) { x[(std::ptrdiff_t) i].v = (int) i; u[(std::ptrdiff_t) i].v = (int) i; } if (things.n != before + 2 * (int) n) fail("lifetime", "an array of %zu has another number of elements", n);
          if (y.use_count() != 2 || u.use_count() != 1) fail("count", "an array of pointers counts %ld and %ld owners", (long) y.use_count(), (long) u.use_count()); { Lib l; x.reset(); } for (size_t i = 0; i < n; ++i) if (y[(std::ptrdiff_t) i].v != (int) i) fail("value", "an array lost an element"); { Lib l; std::unique_ptr<Thing[]> q(new Thing[n]); dart::skinny_ptr<Thing[]> z(std::move(q)); y = z; } if (things.n != before + 2 * (int) n) fail("lifetime", "an array was not released"); });
        calm(); judge(op, e);
      }
      ~PtrWorld() override { Lib l; for (auto& x : p) x = nullptr; }
    };

    void World::run() {
      switch (plan.get("ptr")) {
        case 0: ptrs.reset(new PtrWorld<Counted<sk>>); break; case 1: ptrs.reset(new PtrWorld<Counted<un>>); break; case 2: ptrs.reset(new PtrWorld<Shareable<sk>>); break; case 3: ptrs.reset(new PtrWorld<Shareable<un>>); break;
        case 4: ptrs.reset(new PtrWorld<Shareable<sp>>); break; case 5: ptrs.reset(new PtrWorld<Shareable<sim_ptr>>); break; default: ptrs.reset(new PtrWorld<Counted<sk>>);
      }
      deleted_custom = 0;
      for (auto& op : plan.ops) {
        set_op(opi); u64 k = 0;
        for (int i = 0; i < N; ++i) k = k * 16 + (u64) m[i].has * 8 + (u64) (w[i].i == LOST ? 7 : w[i].i);
        note_history(mix(mix((u64) op.code, k), mix((u64) op.a[0] % 20, (u64) op.a[2] % 990))); note_state(mix(k, mix((u64) op.code, (u64) op.fk)));
        if (op.code <= W_OCMP) opt_op(op); else if (op.code >= W_VMAKE && op.code <= W_VREAD) var_op(op); else ptrs->op(*this, op);
        if (op.fk && things.boom == 0 && fault.fired) probe("fault:fired");
        things.boom = 0; fault.armed = false; in_lib = 0;
        int want = ptrs->count(); for (int i = 0; i < N; ++i) want += m[i].has + (w[i].i == 1 || w[i].i == 2);
        if (things.n != want) fail(things.n > want ? "leak" : "lifetime", "%d objects live after this step, expected %d", things.n, want);
        ptrs->check("after this step"); opt_check("after this step"); var_check("after this step");
        logf("%d %d", opi, op.code); ++opi;
      }
      set_op(opi); ptrs.reset(); { Lib l; for (auto& x : o) x.reset(); for (auto& x : v) x = 0; }
      if (things.n) fail("leak", "%d objects outlive everything that could hold them", things.n);
      if (mem.live_blocks > mem.base) suspect("leak", "everything was destroyed but storage is still held: %s", mem_describe_leaks().c_str());
    }
  }
  void own_run(Plan const& p) { probe(p.get("ptr") == 0 || p.get("ptr") == 6 ? "pointer:skinny" : p.get("ptr") == 1 ? "pointer:unsafe" : p.get("ptr") == 2 ? "pointer:shareable skinny" : p.get("ptr") == 3 ? "pointer:shareable unsafe" : p.get("ptr") == 4 ? "pointer:shareable shared_ptr" : "pointer:shareable user counter"); World w(p); w.run(); }
}
