#include "simcore.h"
namespace sim {
  std::string damage_text(std::string s, Rng& r, int& what) {
    what = (int) r.below(9); size_t n = s.size(); if (!n) return r.chance(50) ? "{" : "\xff";
    size_t i = r.below(n), j = r.below(n);
    switch (what) {
      case 0: return s.substr(0, i);                                   // cut off
      case 1: s[i] = (char) (s[i] ^ (1 << r.below(8))); return s;      // flipped bit
      case 2: s[i] = (char) r.below(256); return s;
      case 3: if (i > j) std::swap(i, j); s.erase(i, j - i); return s; // lost middle
      case 4: if (i > j) std::swap(i, j); return s.insert(j, s.substr(i, std::min<size_t>(j - i, 64)));   // repeated
      case 5: return s.substr(i) + s.substr(0, i);                     // out of order
      case 6: s.insert(i, std::string(1 + r.below(300), "[{\"-:#&*!|>%@`\t"[r.below(14)])); return s;
      case 7: { static char const* const t[] = {"\\u", "\\ud800", "1e99999", "-", "nul", "\"", "{}", "[", "&a [*a]", "? [", "!!str", "\xef\xbb\xbf", "---\n", "...\n", "0x", "1e-400", "123456789012345678901234567890", "\\x", ",", "}", "]", "*x", "<<: *a", "\r\n", ": "}; return s.insert(i, t[r.below(25)]); }
      default: return s + s.substr(0, 1 + j);                          // trailing junk
    }
  }
}
