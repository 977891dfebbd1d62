// Native types the conversion layer serves, each with its meaning in the reference model:
// how one is generated, the value it becomes, which values it can be read from, and which it equals.
#pragma once
#include "adapter.h"
#include <list>
#include <deque>
#include <forward_list>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <tuple>
#include <array>
#include <chrono>
#include <algorithm>

namespace sim {
  struct Money { int64_t cents; std::string cur; };      // a user type with a conversion of its own
}
namespace dart { namespace convert {
  template <> struct conversion_traits<sim::Money> {
    template <class Packet> Packet to_dart(sim::Money const& m) { return Packet::make_object("cents", m.cents, "cur", m.cur); }
    template <class Packet> sim::Money from_dart(Packet const& p) {
      if (!p.is_object()) throw type_error("no money");
      auto c = p["cents"]; auto k = p["cur"];
      return sim::Money {c.template as<int64_t>(), k.template as<std::string>()};
    }
    template <class Packet> bool compare(Packet const& p, sim::Money const& m) { return p.is_object() && p.size() == 2 && p["cents"] == m.cents && p["cur"] == m.cur; }
  };
}}

namespace sim {
  enum { NO = 0, FITS = 1, OPEN = 2 };                    // OPEN: the library promises nothing either way
  inline int both(int a, int b) { return a == NO || b == NO ? NO : a == OPEN || b == OPEN ? OPEN : FITS; }
  inline GenCfg nat_cfg() { GenCfg g; g.maxdepth = 2; g.maxwidth = 3; return g; }
  template <class N> struct Hashed : std::false_type {};   // iterates in no order of its own
  template <class E> struct Hashed<std::unordered_set<E>> : std::true_type {}; template <class E> struct Hashed<std::unordered_multiset<E>> : std::true_type {}; template <class K, class E> struct Hashed<std::unordered_multimap<K, E>> : std::true_type {};
  inline std::string spell(V const& v) { std::string o = strf("%d:%d:%lld:%a:%zu:", (int) v->t, (int) v->b, (long long) v->i, v->d, v->s.size()) + v->s; for (auto& e : v->a) o += spell(e) + ","; for (auto& e : v->o) o += strf("%zu:", e.first.size()) + e.first + spell(e.second) + ","; return o; }
  inline V sorted(V const& v) {
    if (v->t == T::Arr) { std::vector<V> a; for (auto& e : v->a) a.push_back(sorted(e)); std::sort(a.begin(), a.end(), [] (V const& x, V const& y) { return spell(x) < spell(y); }); return mk_arr(std::move(a)); }
    if (v->t == T::Obj) { Fields f; for (auto& e : v->o) f[e.first] = sorted(e.second); return mk_obj(std::move(f)); }
    return v; }
  template <class N> inline bool makes(N const&) { return true; }   // some natives have no value
  template <class E> inline bool makes(std::map<int64_t, E> const& m) { return m.empty(); }
  enum Shape { S_OTHER, S_ARR, S_OBJ };
  template <class N, class = void> struct Nat;

  template <> struct Nat<std::nullptr_t> { static constexpr Shape shape = S_OTHER;
    static std::nullptr_t gen(Rng&) { return nullptr; } static V to(std::nullptr_t) { return mk(); } static int fits(V const& v) { return v->t == T::Null; }
    static std::nullptr_t from(V const&) { return nullptr; } static bool same(V const& v, std::nullptr_t) { return v->t == T::Null; } };
  template <> struct Nat<bool> { static constexpr Shape shape = S_OTHER;
    static bool gen(Rng& r) { return r.chance(50); } static V to(bool b) { return mk_bool(b); } static int fits(V const&) { return FITS; }   // anything is true but false and null
    static bool from(V const& v) { return v->t == T::Bool ? v->b : v->t != T::Null; } static bool same(V const& v, bool b) { return v->t == T::Bool && v->b == b; } };
  template <class I> struct Nat<I, typename std::enable_if<std::is_integral<I>::value && !std::is_same<I, bool>::value>::type> { static constexpr Shape shape = S_OTHER;
    static I gen(Rng& r) { return (I) (r.chance(50) ? gen_int(r) : (int64_t) r.below(9) - 4); } static V to(I i) { return mk_int((int64_t) i); }
    static int fits(V const& v) { return v->t != T::Int ? NO : (int64_t) (I) v->i == v->i ? FITS : OPEN; }
    static I from(V const& v) { return (I) v->i; }
    static bool same(V const& v, I i) { return v->t == T::Int ? v->i == (int64_t) i : v->t == T::Dec && v->d == (double) (int64_t) i; } };
  template <> struct Nat<double> { static constexpr Shape shape = S_OTHER;
    static double gen(Rng& r) { double d = r.chance(30) ? (double) r.range(-4, 4) : gen_dec(r, nat_cfg()); return d == 0 ? 1.5 : d; } static V to(double d) { return mk_dec(d); }
    static int fits(V const& v) { return v->t == T::Dec; } static double from(V const& v) { return v->d; }
    static bool same(V const& v, double d) { return v->t == T::Dec ? v->d == d : v->t == T::Int && (double) v->i == d; } };
  template <> struct Nat<float> { static constexpr Shape shape = S_OTHER;
    static float gen(Rng& r) { return (float) r.range(-4000, 4000) / 8.0f + 0.0625f; } static V to(float d) { return mk_dec(d); }
    static int fits(V const& v) { return v->t != T::Dec ? NO : (double) (float) v->d == v->d ? FITS : OPEN; } static float from(V const& v) { return (float) v->d; }
    static bool same(V const& v, float d) { return v->t == T::Dec ? v->d == (double) d : v->t == T::Int && (double) v->i == (double) d; } };
  template <> struct Nat<std::string> { static constexpr Shape shape = S_OTHER;
    static std::string gen(Rng& r) { return r.chance(35) ? gen_bytes(r, 1 + r.below(2), 0) : gen_string(r, nat_cfg()); } static V to(std::string const& s) { return mk_str(s); }
    static int fits(V const& v) { return v->t == T::Str; } static std::string from(V const& v) { return v->s; }
    static bool same(V const& v, std::string const& s) { return v->t == T::Str && v->s == s; } };
  template <> struct Nat<dart::shim::string_view> { static constexpr Shape shape = S_OTHER;
    static dart::shim::string_view gen(Rng& r) { static char const* const k[] = {"", "a", "view", "a view of a string that is longer than any inline buffer"}; return k[r.below(4)]; }
    static V to(dart::shim::string_view s) { return mk_str(std::string(s.data(), s.size())); } static int fits(V const& v) { return v->t == T::Str; }
    static dart::shim::string_view from(V const& v) { return sv(v->s); } static bool same(V const& v, dart::shim::string_view s) { return v->t == T::Str && sv(v->s) == s; } };
  template <class C, C c> struct Nat<std::integral_constant<C, c>> { using N = std::integral_constant<C, c>; static constexpr Shape shape = S_OTHER;
    static N gen(Rng&) { return {}; } static V to(N) { return Nat<C>::to(c); } static int fits(V const& v) { return Nat<C>::same(v, c); } static N from(V const&) { return {}; } static bool same(V const& v, N) { return Nat<C>::same(v, c); } };
  template <> struct Nat<Money> { static constexpr Shape shape = S_OBJ;
    static Money gen(Rng& r) { return Money {gen_int(r), gen_bytes(r, r.below(20), 0)}; }
    static V to(Money const& m) { Fields f; f["cents"] = mk_int(m.cents); f["cur"] = mk_str(m.cur); return mk_obj(f); }
    static V at(V const& v, char const* k) { auto i = v->o.find(k); return i == v->o.end() ? mk() : i->second; }
    static int fits(V const& v) { return v->t == T::Obj && at(v, "cents")->t == T::Int && at(v, "cur")->t == T::Str; }
    static Money from(V const& v) { return Money {at(v, "cents")->i, at(v, "cur")->s}; }
    static bool same(V const& v, Money const& m) { return v->t == T::Obj && v->o.size() == 2 && Nat<int64_t>::same(at(v, "cents"), m.cents) && Nat<std::string>::same(at(v, "cur"), m.cur); } };

  // ---- sequences ---------------------------------------------------------------------------
  template <class S, class E> struct NatSeq { static constexpr Shape shape = S_ARR;
    static V to(S const& s) { std::vector<V> a; for (auto& e : s) a.push_back(Nat<E>::to(e)); return mk_arr(std::move(a)); }
    static S gen(Rng& r) { std::vector<E> v; size_t n = r.chance(5) ? r.below(40) : r.below(6); for (size_t i = 0; i < n; ++i) v.push_back(Nat<E>::gen(r)); return S(v.begin(), v.end()); }
    static int fits(V const& v) { if (v->t != T::Arr) return NO; int f = FITS; for (auto& e : v->a) f = both(f, Nat<E>::fits(e)); return f; }
    static S from(V const& v) { std::vector<E> x; for (auto& e : v->a) x.push_back(Nat<E>::from(e)); return S(x.begin(), x.end()); }
    static bool same(V const& v, S const& s) { if (v->t != T::Arr) return false; auto i = v->a.begin(); for (auto& e : s) { if (i == v->a.end() || !Nat<E>::same(*i, e)) return false; ++i; } return i == v->a.end(); } };
  template <class E> struct Nat<std::vector<E>> : NatSeq<std::vector<E>, E> {};
  template <class E> struct Nat<std::deque<E>> : NatSeq<std::deque<E>, E> {};
  template <class E> struct Nat<std::list<E>> : NatSeq<std::list<E>, E> {};
  template <class E> struct Nat<std::forward_list<E>> : NatSeq<std::forward_list<E>, E> {};
  template <class E, size_t n> struct Nat<std::array<E, n>> : NatSeq<std::array<E, n>, E> { using A = std::array<E, n>;
    template <size_t... i> static A make(Rng& r, std::index_sequence<i...>) { return A {{((void) i, Nat<E>::gen(r))...}}; } static A gen(Rng& r) { return make(r, std::make_index_sequence<n> {}); }
    static int fits(V const& v) { return v->t == T::Arr && v->a.size() == n ? NatSeq<A, E>::fits(v) : NO; }
    template <size_t... i> static A pick(V const& v, std::index_sequence<i...>) { return A {{Nat<E>::from(v->a[i])...}}; } static A from(V const& v) { return pick(v, std::make_index_sequence<n> {}); } };
  // unordered comparison: one-to-one, whatever the order
  template <class S, class E> struct NatSet : NatSeq<S, E> {
    static bool same(V const& v, S const& s) {
      if (v->t != T::Arr || v->a.size() != s.size()) return false; std::vector<V> left = v->a;
      for (auto& e : s) { auto i = std::find_if(left.begin(), left.end(), [&] (V const& x) { return Nat<E>::same(x, e); }); if (i == left.end()) return false; left.erase(i); } return true; } };
  template <class E> struct Nat<std::set<E>> : NatSet<std::set<E>, E> {};
  template <class E> struct Nat<std::multiset<E>> : NatSet<std::multiset<E>, E> {};
  template <class E> struct Nat<std::unordered_set<E>> : NatSet<std::unordered_set<E>, E> {};
  template <class E> struct Nat<std::unordered_multiset<E>> : NatSet<std::unordered_multiset<E>, E> {};
  template <> struct Nat<gsl::span<int64_t const>> { using N = gsl::span<int64_t const>; static constexpr Shape shape = S_ARR;
    static N gen(Rng& r) { static int64_t const pool[] = {0, 1, 2, 3, 1, 2, 3, 256, -70000, INT64_MAX, INT64_MIN, 5, 1, 2}; size_t a = r.below(12), n = r.below(14 - a); return N(pool + a, (std::ptrdiff_t) n); }
    static V to(N s) { std::vector<V> a; for (auto e : s) a.push_back(mk_int(e)); return mk_arr(std::move(a)); } static int fits(V const&) { return OPEN; } static N from(V const&) { return {}; }
    static bool same(V const& v, N s) { if (v->t != T::Arr || v->a.size() != (size_t) s.size()) return false; for (size_t i = 0; i < v->a.size(); ++i) if (!Nat<int64_t>::same(v->a[i], s[(std::ptrdiff_t) i])) return false; return true; } };

  // ---- maps ----------------------------------------------------------------------------------
  inline std::string nat_key(Rng& r) { return r.chance(60) ? gen_bytes(r, 1 + r.below(2), 0) : gen_key(r, nat_cfg()); }
  template <class M, class E> struct NatMap { static constexpr Shape shape = S_OBJ;
    static V to(M const& m) { Fields f; for (auto& e : m) f[e.first] = Nat<E>::to(e.second); return mk_obj(std::move(f)); }
    static M gen(Rng& r) { M m; size_t n = r.below(6); for (size_t i = 0; i < n; ++i) m.emplace(nat_key(r), Nat<E>::gen(r)); return m; }
    static int fits(V const& v) { if (v->t != T::Obj) return NO; int f = FITS; for (auto& e : v->o) f = both(f, Nat<E>::fits(e.second)); return f; }
    static M from(V const& v) { M m; for (auto& e : v->o) m.emplace(e.first, Nat<E>::from(e.second)); return m; }
    static bool same(V const& v, M const& m) { if (v->t != T::Obj || v->o.size() != m.size()) return false; for (auto& e : m) { auto i = v->o.find(e.first); if (i == v->o.end() || !Nat<E>::same(i->second, e.second)) return false; } return true; } };
  template <class E> struct Nat<std::map<std::string, E>> : NatMap<std::map<std::string, E>, E> {};
  template <class E> struct Nat<std::unordered_map<std::string, E>> : NatMap<std::unordered_map<std::string, E>, E> {};
  // every key holds an array of its values, in the order the container keeps them
  template <class M, class E> struct NatMulti { static constexpr Shape shape = S_OBJ;
    static V to(M const& m) { std::map<std::string, std::vector<V>> by; for (auto& e : m) by[e.first].push_back(Nat<E>::to(e.second)); Fields f; for (auto& e : by) f[e.first] = mk_arr(e.second); return mk_obj(std::move(f)); }
    static M gen(Rng& r) { M m; size_t n = r.below(7); std::vector<std::string> ks {nat_key(r), nat_key(r), nat_key(r)}; for (size_t i = 0; i < n; ++i) m.emplace(r.pick(ks), Nat<E>::gen(r)); return m; }
    static int fits(V const& v) { if (v->t != T::Obj) return NO; int f = FITS; for (auto& e : v->o) if (e.second->t == T::Arr) { for (auto& x : e.second->a) f = both(f, Nat<E>::fits(x)); } else f = both(f, Nat<E>::fits(e.second)); return f; }
    static M from(V const& v) { M m; for (auto& e : v->o) if (e.second->t == T::Arr) { for (auto& x : e.second->a) m.emplace(e.first, Nat<E>::from(x)); } else m.emplace(e.first, Nat<E>::from(e.second)); return m; }
    static bool same(V const& v, M const& m) {
      if (v->t != T::Obj) return false; std::map<std::string, std::vector<E>> by; for (auto& e : m) by[e.first].push_back(e.second); if (by.size() != v->o.size()) return false;
      for (auto& e : by) { auto i = v->o.find(e.first); if (i == v->o.end() || i->second->t != T::Arr || i->second->a.size() != e.second.size()) return false; std::vector<V> left = i->second->a;
        for (auto& x : e.second) { auto j = std::find_if(left.begin(), left.end(), [&] (V const& y) { return Nat<E>::same(y, x); }); if (j == left.end()) return false; left.erase(j); } }
      return true; } };
  template <class E> struct Nat<std::multimap<std::string, E>> : NatMulti<std::multimap<std::string, E>, E> {};
  template <class E> struct Nat<std::unordered_multimap<std::string, E>> : NatMulti<std::unordered_multimap<std::string, E>, E> {};
  template <class E> struct Nat<std::map<int64_t, E>> { using N = std::map<int64_t, E>; static constexpr Shape shape = S_OTHER;   // no object has such keys
    static N gen(Rng& r) { N m; size_t n = r.below(3); for (size_t i = 0; i < n; ++i) m.emplace((int64_t) i, Nat<E>::gen(r)); return m; }
    static int fits(V const& v) { return v->t == T::Obj && v->o.empty() ? FITS : NO; } static N from(V const&) { return {}; } static V to(N const&) { return mk_obj(); } static bool same(V const& v, N const& m) { return v->t == T::Obj && v->o.empty() && m.empty(); } };

  // ---- sums and products ------------------------------------------------------------------------
  template <class E> struct Nat<dart::shim::optional<E>> { using N = dart::shim::optional<E>; static constexpr Shape shape = S_OTHER;
    static N gen(Rng& r) { if (r.chance(35)) return N {}; return N {Nat<E>::gen(r)}; } static V to(N const& n) { return n ? Nat<E>::to(*n) : mk(); } static int fits(V const& v) { return v->t == T::Null ? (int) FITS : Nat<E>::fits(v); }
    static N from(V const& v) { if (v->t == T::Null) return N {}; return N {Nat<E>::from(v)}; } static bool same(V const& v, N const& n) { return n ? Nat<E>::same(v, *n) : v->t == T::Null; } };
  template <class A, class B> struct Nat<std::pair<A, B>> { using N = std::pair<A, B>; static constexpr Shape shape = S_ARR;
    static N gen(Rng& r) { A a = Nat<A>::gen(r); return N {std::move(a), Nat<B>::gen(r)}; } static V to(N const& n) { return mk_arr({Nat<A>::to(n.first), Nat<B>::to(n.second)}); }
    static int fits(V const& v) { return v->t == T::Arr && v->a.size() == 2 ? both(Nat<A>::fits(v->a[0]), Nat<B>::fits(v->a[1])) : NO; } static N from(V const& v) { return N {Nat<A>::from(v->a[0]), Nat<B>::from(v->a[1])}; }
    static bool same(V const& v, N const& n) { return v->t == T::Arr && v->a.size() == 2 && Nat<A>::same(v->a[0], n.first) && Nat<B>::same(v->a[1], n.second); } };
  template <class... Ts> struct Nat<std::tuple<Ts...>> { using N = std::tuple<Ts...>; static constexpr Shape shape = S_ARR; using Ix = std::index_sequence_for<Ts...>;
    static N gen(Rng& r) { return N {Nat<Ts>::gen(r)...}; }
    template <size_t... i> static V to_(N const& n, std::index_sequence<i...>) { return mk_arr({Nat<Ts>::to(std::get<i>(n))...}); } static V to(N const& n) { return to_(n, Ix {}); }
    template <size_t... i> static int fits_(V const& v, std::index_sequence<i...>) { int f = FITS; int x[] = {(f = both(f, Nat<Ts>::fits(v->a[i])))...}; (void) x; return f; }
    static int fits(V const& v) { return v->t == T::Arr && v->a.size() == sizeof...(Ts) ? fits_(v, Ix {}) : NO; }
    template <size_t... i> static N from_(V const& v, std::index_sequence<i...>) { return N {Nat<Ts>::from(v->a[i])...}; } static N from(V const& v) { return from_(v, Ix {}); }
    template <size_t... i> static bool same_(V const& v, N const& n, std::index_sequence<i...>) { bool s = true; bool x[] = {(s = s && Nat<Ts>::same(v->a[i], std::get<i>(n)))...}; (void) x; return s; }
    static bool same(V const& v, N const& n) { return v->t == T::Arr && v->a.size() == sizeof...(Ts) && same_(v, n, Ix {}); } };
  template <class... Ts> struct Nat<dart::shim::variant<Ts...>> { using N = dart::shim::variant<Ts...>; static constexpr Shape shape = S_OTHER;
    static N gen(Rng& r) { size_t k = r.below(sizeof...(Ts)), i = 0; N n; int x[] = {(i++ == k ? (n = N {Nat<Ts>::gen(r)}, 0) : 0)...}; (void) x; return n; }
    static V to(N const& n) { return dart::shim::visit([] (auto& e) { return Nat<std::decay_t<decltype(e)>>::to(e); }, n); }
    static int fits(V const& v) { int f = NO; int x[] = {(f = f != NO ? f : Nat<Ts>::fits(v))...}; (void) x; return f; }       // the first alternative that fits
    static N from(V const& v) { bool done = false; N n; int x[] = {(!done && Nat<Ts>::fits(v) ? (done = true, n = N {Nat<Ts>::from(v)}, 0) : 0)...}; (void) x; return n; }
    static bool same(V const& v, N const& n) { return dart::shim::visit([&] (auto& e) { return Nat<std::decay_t<decltype(e)>>::same(v, e); }, n); } };

  // whole seconds of the system clock, written as an ISO date
  template <> struct Nat<std::chrono::system_clock::time_point> { using N = std::chrono::system_clock::time_point; static constexpr Shape shape = S_OTHER;
    static N gen(Rng& r) { static int64_t const edge[] = {0, -1, 59, 60, 86399, 86400, 951782400, 951868799, 4107542399, -2208988800, 1582934400, 1709251199, 253402300};
      int64_t s = r.chance(40) ? edge[r.below(13)] : r.range(-6000000000ll, 9000000000ll); return N {std::chrono::seconds {s}}; }
    static int64_t secs(N n) { return std::chrono::duration_cast<std::chrono::seconds>(n.time_since_epoch()).count(); }
    static V to(N n) {   // days to civil date
      int64_t s = secs(n), d = s / 86400, t = s % 86400; if (t < 0) { t += 86400; --d; } d += 719468; int64_t era = (d >= 0 ? d : d - 146096) / 146097; unsigned doe = (unsigned) (d - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
      int64_t y = (int64_t) yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, day = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
      return mk_str(strf("%04lld-%02u-%02uT%02lld:%02lld:%02lld.000Z", (long long) (y + (m <= 2)), m, day, (long long) (t / 3600), (long long) (t / 60 % 60), (long long) (t % 60))); }
    static int fits(V const& v) { if (v->t != T::Str) return NO; int y, m, d, h, i; float f; int n = sscanf(v->s.c_str(), "%d-%d-%dT%d:%d:%fZ", &y, &m, &d, &h, &i, &f); if (n != 6) return NO; return v->s.size() == 24 && eq(to(from(v)), v) ? FITS : OPEN; }
    static N from(V const& v) { int y, m, d, h, i; float f; sscanf(v->s.c_str(), "%d-%d-%dT%d:%d:%fZ", &y, &m, &d, &h, &i, &f);
      if (y < 1700 || y > 2260 || m < 1 || m > 12 || d < 1 || d > 31 || h < 0 || h > 23 || i < 0 || i > 59 || !(f >= 0 && f < 60)) return N {};
      int64_t yy = y - (m <= 2), era = yy / 400; unsigned yoe = (unsigned) (yy - era * 400), doy = (153u * (unsigned) (m > 2 ? m - 3 : m + 9) + 2) / 5 + (unsigned) d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
      return N {std::chrono::seconds {(era * 146097 + (int64_t) doe - 719468) * 86400 + h * 3600 + i * 60 + (int) f}}; }
    static bool same(V const& v, N n) { return v->t == T::Str && v->s == to(n)->s; } };

  // a handle inside a native container
  template <class H> V read_back(H const& h) {
    switch (tof(h.get_type())) {
      case T::Null: return mk(); case T::Bool: return mk_bool(h.boolean()); case T::Int: return mk_int(h.integer()); case T::Dec: return mk_dec(h.decimal());
      case T::Str: { auto s = h.strv(); return mk_str(std::string(s.data(), s.size())); }
      case T::Arr: { std::vector<V> a; for (size_t i = 0; i < h.size(); ++i) a.push_back(read_back(h[i])); return mk_arr(a); }
      default: { Fields f; typename H::iterator k, x; std::tie(k, x) = h.kvbegin(); for (; x != h.end(); ++k, ++x) { auto s = *k; auto t = s.strv(); f[std::string(t.data(), t.size())] = read_back(*x); } return mk_obj(f); }
    }
  }
  template <class H> struct Nat<H, typename std::enable_if<dart::detail::is_dart_api_type<H>::value>::type> { static constexpr Shape shape = S_OTHER;
    static H gen(Rng& r) { GenCfg g = nat_cfg(); V v = gen_value(r, g, 1); return build<H>(v, r); } static V to(H const& h) { return read_back(h); } static int fits(V const&) { return FITS; }
    static H from(V const& v) { Rng r(7); return build<H>(v, r); } static bool same(V const& v, H const& h) { return deep_same(v, read_back(h)); } };
}
