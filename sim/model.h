// Reference model of dart values: immutable trees shared freely.
#pragma once
#include "simcore.h"
#include <cmath>

namespace sim {
  enum class T { Null, Bool, Int, Dec, Str, Arr, Obj };
  struct KeyLess {
    bool operator ()(std::string const& a, std::string const& b) const {
      if (a.size() != b.size()) return a.size() < b.size();
      return memcmp(a.data(), b.data(), a.size()) < 0;
    }
  };
  struct Val;
  using V = std::shared_ptr<Val const>;
  using Fields = std::map<std::string, V, KeyLess>;
  struct Val {
    T t = T::Null; bool b = false; int64_t i = 0; double d = 0; std::string s;
    std::vector<V> a; Fields o;
  };
  inline V mk() { static V n = std::make_shared<Val>(); return n; }
  inline V mk_bool(bool b) { auto v = std::make_shared<Val>(); v->t = T::Bool; v->b = b; return v; }
  inline V mk_int(int64_t i) { auto v = std::make_shared<Val>(); v->t = T::Int; v->i = i; return v; }
  inline V mk_dec(double d) { auto v = std::make_shared<Val>(); v->t = T::Dec; v->d = d; return v; }
  inline V mk_str(std::string s) { auto v = std::make_shared<Val>(); v->t = T::Str; v->s = std::move(s); return v; }
  inline V mk_arr(std::vector<V> a = {}) { auto v = std::make_shared<Val>(); v->t = T::Arr; v->a = std::move(a); return v; }
  inline V mk_obj(Fields o = {}) { auto v = std::make_shared<Val>(); v->t = T::Obj; v->o = std::move(o); return v; }

  inline bool bits_eq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
  inline bool eq(V const& x, V const& y) {
    if (x == y) return true;
    if (x->t != y->t) return false;
    switch (x->t) {
      case T::Null: return true;
      case T::Bool: return x->b == y->b;
      case T::Int: return x->i == y->i;
      case T::Dec: return bits_eq(x->d, y->d);
      case T::Str: return x->s == y->s;
      case T::Arr: if (x->a.size() != y->a.size()) return false;
        for (size_t k = 0; k < x->a.size(); ++k) if (!eq(x->a[k], y->a[k])) return false; return true;
      case T::Obj: { if (x->o.size() != y->o.size()) return false;
        auto p = x->o.begin(); auto q = y->o.begin();
        for (; p != x->o.end(); ++p, ++q) if (p->first != q->first || !eq(p->second, q->second)) return false; return true; }
    }
    return false;
  }
  inline u64 hash(V const& v) {
    u64 h = mix((u64) v->t + 77);
    switch (v->t) {
      case T::Null: return h;
      case T::Bool: return mix(h, v->b);
      case T::Int: return mix(h, (u64) v->i);
      case T::Dec: { u64 x; memcpy(&x, &v->d, 8); return mix(h, x); }
      case T::Str: return mix(h, hash_bytes(v->s.data(), v->s.size()));
      case T::Arr: for (auto& e : v->a) h = mix(h, hash(e)); return h;
      case T::Obj: for (auto& f : v->o) h = mix(mix(h, hash_bytes(f.first.data(), f.first.size())), hash(f.second)); return h;
    }
    return h;
  }
  inline size_t nodes(V const& v) {
    size_t n = 1; for (auto& e : v->a) n += nodes(e); for (auto& f : v->o) n += nodes(f.second); return n;
  }
  inline size_t depth(V const& v) {
    size_t n = 0; for (auto& e : v->a) n = std::max(n, depth(e)); for (auto& f : v->o) n = std::max(n, depth(f.second)); return n + 1;
  }
  inline size_t weight(V const& v) {
    size_t n = 1 + v->s.size(); for (auto& e : v->a) n += weight(e); for (auto& f : v->o) n += weight(f.second) + f.first.size(); return n;
  }
  inline std::string qstr(std::string const& s, size_t max = 24) {
    std::string o = "\""; size_t n = 0;
    for (unsigned char c : s) { if (n++ >= max) { o += strf("..#%zu", s.size()); break; } if (c >= 32 && c < 127 && c != '"') o += (char) c; else o += strf("\\x%02x", c); }
    return o + "\"";
  }
  inline void show(V const& v, std::string& o, size_t max) {
    if (o.size() > max) { o += ".."; return; }
    switch (v->t) {
      case T::Null: o += "null"; break;
      case T::Bool: o += v->b ? "true" : "false"; break;
      case T::Int: o += strf("%lld", (long long) v->i); break;
      case T::Dec: o += strf("%.17gd", v->d); break;
      case T::Str: o += qstr(v->s); break;
      case T::Arr: { o += "["; bool f = true; for (auto& e : v->a) { if (!f) o += ","; f = false; show(e, o, max); if (o.size() > max) break; } o += "]"; break; }
      case T::Obj: { o += "{"; bool f = true; for (auto& e : v->o) { if (!f) o += ","; f = false; o += qstr(e.first) + ":"; show(e.second, o, max); if (o.size() > max) break; } o += "}"; break; }
    }
  }
  inline std::string show(V const& v, size_t max = 300) { std::string o; show(v, o, max); return o; }

  // ---- generation ----------------------------------------------------------------
  struct GenCfg { int maxdepth = 3, maxwidth = 4; bool big = false; bool json = false; bool nonfinite = false; bool huge = false; };

  inline std::string gen_bytes(Rng& r, size_t n, int flavour) {
    std::string s; s.reserve(n);
    for (size_t i = 0; i < n; ++i) {
      switch (flavour) {
        case 0: s += (char) ('a' + r.below(26)); break;
        case 1: s += (char) r.below(256); break;              // any byte, NUL included
        case 2: s += 'k'; break;                                // long common prefixes
        default: s += (char) (32 + r.below(95)); break;
      }
    }
    return s;
  }
  inline std::string gen_utf8(Rng& r, size_t n) {
    static char const* const pieces[] = {"a", "Z", "0", " ", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x80", "\"", "\\", "/", "\n", "\t", "\x01", "\x7f"};
    std::string s; while (s.size() < n) s += pieces[r.below(15)]; return s;
  }
  inline std::string gen_string(Rng& r, GenCfg const& g) {
    u64 k = r.below(100);
    size_t n;
    if (k < 40) n = r.below(8); else if (k < 75) n = 10 + r.below(16); else if (k < 90) n = r.below(80);
    else if (k < 96) n = 250 + r.below(12); else if (g.big && k < 98) n = 65530 + r.below(12); else n = r.below(400);
    if (g.json) return gen_utf8(r, n);
    return gen_bytes(r, n, (int) r.below(4));
  }
  inline std::string gen_key(Rng& r, GenCfg const& g) {
    u64 k = r.below(100);
    if (g.json) {
      if (k < 5) return "";
      if (k < 60) return gen_bytes(r, 1 + r.below(3), 0);
      if (k < 90) return gen_utf8(r, 1 + r.below(12));
      return gen_bytes(r, 250 + r.below(12), 0);
    }
    if (k < 5) return "";
    if (k < 40) return gen_bytes(r, 1 + r.below(2), 0);
    if (k < 55) return gen_bytes(r, 1 + r.below(4), 1);
    if (k < 70) return gen_bytes(r, 1 + r.below(14), 2) + gen_bytes(r, r.below(2), 1);
    if (k < 80) return std::string("\xc3\xa9", 2) + gen_bytes(r, r.below(3), 1);
    if (k < 88) return gen_bytes(r, 20 + r.below(10), 3);
    if (k < 97) return gen_bytes(r, 252 + r.below(8), 2) + gen_bytes(r, r.below(3), 1);
    if (g.big && k < 98) return gen_bytes(r, 65533 + r.below(3), 2);
    return gen_bytes(r, r.below(40), 0);
  }
  inline int64_t gen_int(Rng& r) {
    static int64_t const edge[] = {0, 1, -1, 127, 128, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, INT64_MAX, INT64_MIN, 1ll << 53};
    u64 k = r.below(10);
    if (k < 5) return edge[r.below(20)];
    if (k < 8) return (int64_t) r.below(1000) - 500;
    return (int64_t) (r.next() >> r.below(64));
  }
  inline double gen_dec(Rng& r, GenCfg const& g) {
    static double const edge[] = {0.0, -0.0, 1.0, -1.0, 0.5, 3.14159, 0.1, 1e300, -1e-300, 3.4028234663852886e38, 3.4028235677973366e38, 1.401298464324817e-45, 5e-324, 16777216.0, 16777217.0, 9007199254740993.0, 1.5, 1e10, 2147483648.0};
    if (g.json) {   // integers past the signed range are read as decimals
      if (g.huge && r.chance(12)) return 9223372036854775808.0 + 2048.0 * (double) r.below(1u << 20);
      return (double) r.range(-4000, 4000) / 8.0;
    }
    u64 k = r.below(10);
    if (g.nonfinite && r.chance(8)) { return r.chance(50) ? INFINITY : -INFINITY; }
    if (k < 6) return edge[r.below(19)];
    if (k < 8) return (double) (float) ((double) r.range(-100000, 100000) / 7.0);
    double d; for (;;) { u64 x = r.next(); memcpy(&d, &x, 8); if (std::isfinite(d)) return d; }
  }
  inline V gen_scalar(Rng& r, GenCfg const& g) {
    u64 k = r.below(100);
    if (k < 14) return mk();
    if (k < 24) return mk_bool(r.chance(50));
    if (k < 50) return mk_int(gen_int(r));
    if (k < 68) return mk_dec(gen_dec(r, g));
    return mk_str(gen_string(r, g));
  }
  inline V gen_value(Rng& r, GenCfg const& g, int d);
  inline V gen_object(Rng& r, GenCfg const& g, int d) {
    Fields f; size_t n = r.chance(4) ? r.below(40) : r.below((u64) g.maxwidth + 1);
    for (size_t i = 0; i < n; ++i) f[gen_key(r, g)] = gen_value(r, g, d - 1);
    return mk_obj(std::move(f));
  }
  inline V gen_array(Rng& r, GenCfg const& g, int d) {
    std::vector<V> a; size_t n = r.chance(4) ? r.below(40) : r.below((u64) g.maxwidth + 1);
    bool nulls = r.chance(15);
    for (size_t i = 0; i < n; ++i) a.push_back(nulls && r.chance(70) ? mk() : gen_value(r, g, d - 1));
    return mk_arr(std::move(a));
  }
  inline V gen_value(Rng& r, GenCfg const& g, int d) {
    u64 k = r.below(100);
    if (d <= 0 || k < 50) return gen_scalar(r, g);
    return k < 76 ? gen_object(r, g, d) : gen_array(r, g, d);
  }

  // ---- equality --------------------------------------------------------------------------
  inline bool deep_same(V const& a, V const& b) {   // equality of values: types match, numbers by value
    if (a->t != b->t) return false;
    switch (a->t) {
      case T::Dec: return a->d == b->d;
      case T::Arr: if (a->a.size() != b->a.size()) return false; for (size_t i = 0; i < a->a.size(); ++i) if (!deep_same(a->a[i], b->a[i])) return false; return true;
      case T::Obj: { if (a->o.size() != b->o.size()) return false; auto q = b->o.begin(); for (auto p = a->o.begin(); p != a->o.end(); ++p, ++q) if (p->first != q->first || !deep_same(p->second, q->second)) return false; return true; }
      default: return eq(a, b);
    }
  }
  inline V flip_zeros(V const& v) {   // an equal value that is not the same bit for bit
    switch (v->t) {
      case T::Dec: return v->d == 0 ? mk_dec(-v->d) : v;
      case T::Arr: { auto a = v->a; for (auto& e : a) e = flip_zeros(e); return mk_arr(std::move(a)); }
      case T::Obj: { auto o = v->o; for (auto& e : o) e.second = flip_zeros(e.second); return mk_obj(std::move(o)); }
      default: return v;
    }
  }
  // swaps, drops, adds, renames or retypes one part of a value
  inline V vary(V const& v, Rng& r, GenCfg const& g, int depth = 0) {
    if (v->t == T::Arr && !(depth && r.chance(20))) {
      auto a = v->a;
      switch (a.empty() ? 1 : r.below(5)) {
        case 0: a.erase(a.begin() + (long) r.below(a.size())); break;
        case 1: a.insert(a.begin() + (long) r.below(a.size() + 1), a.empty() || r.chance(50) ? gen_scalar(r, g) : a[r.below(a.size())]); break;
        case 2: std::swap(a[0], a[r.below(a.size())]); break;
        default: { size_t i = r.below(a.size()); a[i] = vary(a[i], r, g, depth + 1); }
      }
      return mk_arr(a);
    }
    if (v->t == T::Obj && !(depth && r.chance(20))) {
      auto o = v->o; auto i = o.begin(); if (!o.empty()) std::advance(i, (long) r.below(o.size()));
      switch (o.empty() ? 1 : r.below(7)) {
        case 0: o.erase(i); break;
        case 1: o[gen_bytes(r, 1, 0)] = o.empty() || r.chance(50) ? gen_scalar(r, g) : o.begin()->second; break;
        case 2: { V x = i->second; o.erase(i); o[gen_bytes(r, 2, 0)] = x; break; }
        case 3: { V x = i->second; std::string k = i->first; o.erase(i); if (k.empty() || r.chance(25)) k += '\0'; else k[r.below(k.size())] ^= (char) (1 << r.below(8)); o[k] = x; break; }
        case 4: { auto j = o.begin(); V x = i->second; i->second = j->second; j->second = x; break; }
        default: i->second = vary(i->second, r, g, depth + 1);
      }
      return mk_obj(o);
    }
    switch (r.below(4)) {
      case 0: return mk();
      case 1:
        if (v->t == T::Int) return mk_int(r.chance(40) ? v->i ^ 1 : (int64_t) ((u64) v->i + (1ull << r.below(64))));
        if (v->t == T::Dec) { if (v->d == 0) return mk_dec(-v->d); double d = v->d; u64 x; memcpy(&x, &d, 8); x ^= 1ull << r.below(53); memcpy(&d, &x, 8); return std::isfinite(d) ? mk_dec(d) : mk_dec(0.25); }
        if (v->t == T::Bool) return mk_bool(!v->b);
        if (v->t == T::Str) { std::string x = v->s; if (x.empty() || r.chance(20)) x += r.chance(50) ? '\0' : 'x'; else if (r.chance(50)) x[r.below(x.size())] ^= 1; else x.pop_back(); return mk_str(x); }
        return gen_scalar(r, g);
      case 2: if (v->t == T::Int && v->i > -1000000 && v->i < 1000000) return mk_dec(v->i == 0 ? 0.5 : (double) v->i); return mk_arr({v});
      default: return gen_scalar(r, g);
    }
  }

  // ---- text -------------------------------------------------------------------------
  inline void json_str(std::string const& s, std::string& o, Rng* esc = nullptr) {
    o += '"';
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = (unsigned char) s[i]; bool e = esc && esc->chance(6);
      if (c == '"' || c == '\\') { if (e) o += strf("\\u%04X", c); else { o += '\\'; o += (char) c; } }
      else if (c == '/' && e) o += "\\/";
      else if (c < 32) { static char const* const t = "\b\f\n\r\t"; char const* q = c ? strchr(t, c) : nullptr; if (q && esc && esc->chance(50)) { o += '\\'; o += "bfnrt"[q - t]; } else o += strf("\\u%04x", c); }
      else if (c < 128) { if (e) o += strf(esc->chance(50) ? "\\u%04x" : "\\u%04X", c); else o += (char) c; }
      else {
        size_t n = c >= 0xf0 && c < 0xf5 ? 3 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xc2 && c < 0xe0 ? 1 : 0; unsigned u = n == 3 ? c & 7 : n == 2 ? c & 15 : c & 31; bool ok = n && i + n < s.size();
        for (size_t k = 1; ok && k <= n; ++k) { unsigned char d = (unsigned char) s[i + k]; if ((d & 0xc0) != 0x80) ok = false; u = u << 6 | (d & 63); }
        if (!esc || !ok || (n == 2 && (u < 0x800 || (u >= 0xd800 && u < 0xe000))) || (n == 3 && (u < 0x10000 || u > 0x10ffff)) || !esc->chance(15)) { o += (char) c; continue; }
        i += n; if (u < 0x10000) o += strf("\\u%04x", u); else { u -= 0x10000; o += strf("\\u%04X\\u%04x", 0xd800 + (u >> 10), 0xdc00 + (u & 1023)); }
      }
    }
    o += '"';
  }
  // ws: spacing, field order, escapes and repeated keys (the last one counts) as it chooses; ext: comments and trailing commas too, set when one was written
  inline void to_json(V const& v, std::string& o, Rng* ws, bool* ext = nullptr) {
    auto sp = [&] { if (ws && ws->chance(10)) o += " \n\t\r"[ws->below(4)]; if (ext && ws->chance(6)) { static char const* const cm[] = {"/**/", "/* a \" , ] } */", "// , x\n", "/***/", "//\n"}; o += cm[ws->below(5)]; *ext = true; } };
    auto tail = [&] (bool any) { if (ext && any && ws->chance(15)) { o += ","; *ext = true; sp(); } };
    switch (v->t) {
      case T::Null: o += "null"; break;
      case T::Bool: o += v->b ? "true" : "false"; break;
      case T::Int: o += strf("%lld", (long long) v->i); break;
      case T::Dec: { if (v->d >= 9223372036854775808.0 && v->d < 18446744073709551616.0) { o += strf("%.0f", v->d); break; }
        std::string s = strf("%.17g", v->d); if (s.find_first_of(".eE") == std::string::npos) s += ".0"; o += s; break; }
      case T::Str: json_str(v->s, o, ws); break;
      case T::Arr: { o += "["; bool f = true; for (auto& e : v->a) { if (!f) o += ","; f = false; sp(); to_json(e, o, ws, ext); sp(); } tail(!f); o += "]"; break; }
      case T::Obj: { o += "{"; bool f = true;
        if (ws) { std::vector<Fields::const_iterator> it; for (auto i = v->o.begin(); i != v->o.end(); ++i) it.push_back(i);
          for (size_t i = it.size(); i > 1; --i) std::swap(it[i - 1], it[ws->below(i)]);
          auto field = [&] (std::string const& k, V const& x) { if (!f) o += ","; f = false; sp(); json_str(k, o, ws); sp(); o += ":"; sp(); to_json(x, o, ws, ext); sp(); };
          for (auto& e : it) { if (ws->chance(3) && e->first.size() < 400) field(e->first, mk_int((int64_t) ws->below(100))); field(e->first, e->second); } tail(!f); }
        else for (auto& e : v->o) { if (!f) o += ","; f = false; json_str(e.first, o); o += ":"; to_json(e.second, o, ws); }
        o += "}"; break; }
    }
  }
  // A reader of its own: strict JSON, plus NaN and infinities; null when the text is not well-formed.
  struct TextReader {
    char const* p; char const* e; bool ok = true; bool key_order = true;
    explicit TextReader(std::string const& s) : p(s.data()), e(s.data() + s.size()) {}
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    bool lit(char const* w) { size_t n = strlen(w); if ((size_t) (e - p) >= n && !memcmp(p, w, n)) { p += n; return true; } return false; }
    V bad() { ok = false; return mk(); }
    static void utf8(unsigned c, std::string& o) {
      if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); }
      else if (c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
      else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    }
    bool hex4(unsigned& c) { c = 0; if (e - p < 4) return false; for (int i = 0; i < 4; ++i, ++p) { if (!isxdigit((unsigned char) *p)) return false; c = c * 16 + (unsigned) (*p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10); } return true; }
    std::string str() {
      std::string o; if (p >= e || *p != '"') { ok = false; return o; } ++p;
      while (p < e && *p != '"') {
        if ((unsigned char) *p < 32) { ok = false; return o; }
        if (*p != '\\') { o += *p++; continue; }
        if (++p >= e) break;
        char c = *p++; char const* f = "bfnrt"; char const* t = "\b\f\n\r\t";
        if (c == '"' || c == '\\' || c == '/') o += c; else if (c && strchr(f, c)) o += t[strchr(f, c) - f];
        else if (c == 'u') { unsigned u, l; if (!hex4(u)) { ok = false; return o; } if (u >= 0xd800 && u < 0xdc00) { if (!lit("\\u") || !hex4(l) || l < 0xdc00 || l > 0xdfff) { ok = false; return o; } u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); } utf8(u, o); }
        else { ok = false; return o; }
      }
      if (p >= e) ok = false; else ++p; return o;
    }
    V value(int depth = 0) {
      ws(); if (p >= e || depth > 200 || !ok) return bad();
      if (*p == '{') { Fields f; std::string last; ++p; ws(); if (p < e && *p == '}') { ++p; return mk_obj(); }
        for (;;) { ws(); std::string k = str(); ws(); if (!ok || p >= e || *p++ != ':') return bad(); if (!f.empty() && !KeyLess {}(last, k)) key_order = false; last = k; if (f.count(k)) return bad(); f[k] = value(depth + 1); if (!ok) return mk(); ws(); if (p >= e) return bad(); if (*p == '}') { ++p; return mk_obj(std::move(f)); } if (*p++ != ',') return bad(); } }
      if (*p == '[') { std::vector<V> a; ++p; ws(); if (p < e && *p == ']') { ++p; return mk_arr(); }
        for (;;) { a.push_back(value(depth + 1)); if (!ok) return mk(); ws(); if (p >= e) return bad(); if (*p == ']') { ++p; return mk_arr(std::move(a)); } if (*p++ != ',') return bad(); } }
      if (*p == '"') { std::string s = str(); return mk_str(s); }
      if (lit("null")) return mk(); if (lit("true")) return mk_bool(true); if (lit("false")) return mk_bool(false);
      if (lit("NaN")) return mk_dec(NAN); if (lit("Infinity")) return mk_dec(INFINITY); if (lit("-Infinity")) return mk_dec(-INFINITY);
      char const* b = p; bool dec = false; if (p < e && *p == '-') ++p;
      if (p >= e || !isdigit((unsigned char) *p)) return bad(); if (*p == '0') ++p; else while (p < e && isdigit((unsigned char) *p)) ++p;
      if (p < e && *p == '.') { dec = true; ++p; if (p >= e || !isdigit((unsigned char) *p)) return bad(); while (p < e && isdigit((unsigned char) *p)) ++p; }
      if (p < e && (*p == 'e' || *p == 'E')) { dec = true; ++p; if (p < e && (*p == '-' || *p == '+')) ++p; if (p >= e || !isdigit((unsigned char) *p)) return bad(); while (p < e && isdigit((unsigned char) *p)) ++p; }
      std::string n(b, (size_t) (p - b)); if (dec) return mk_dec(strtod(n.c_str(), nullptr)); errno = 0; long long i = strtoll(n.c_str(), nullptr, 10); if (errno) return mk_dec(strtod(n.c_str(), nullptr)); return mk_int(i);
    }
    V read() { V v = value(); ws(); if (p != e) ok = false; return v; }
  };
}
