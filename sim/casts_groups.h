#pragma once
#include "casts.h"
namespace sim {
  using S = std::string; using I = int64_t; namespace shim = dart::shim;
#ifdef CASTS_SEQ
  template <template <class> class RC> typename CastWorld<RC>::Group CastWorld<RC>::group_seq() { return {
    CAST_ENTRY(std::vector<I>), CAST_ENTRY(std::deque<S>), CAST_ENTRY(std::list<double>), CAST_ENTRY(std::forward_list<I>), CAST_ENTRY(std::array<I, 3>), CAST_ENTRY(std::array<S, 1>),
    CAST_ENTRY(std::set<S>), CAST_ENTRY(std::unordered_set<I>), CAST_ENTRY(std::multiset<I>), CAST_ENTRY(std::unordered_multiset<S>), CAST_ENTRY(gsl::span<I const>) }; }
#endif
#ifdef CASTS_MAP
  template <template <class> class RC> typename CastWorld<RC>::Group CastWorld<RC>::group_map() { return {
    CAST_ENTRY(std::map<S, I>), CAST_ENTRY(std::unordered_map<S, S>), CAST_ENTRY(std::multimap<S, I>), CAST_ENTRY(std::unordered_multimap<S, S>), CAST_ENTRY(std::map<S, shim::optional<I>>),
    CAST_ENTRY(std::unordered_map<S, std::vector<S>>), CAST_ENTRY(std::map<S, basic_packet_of<RC>>), CAST_ENTRY(std::multimap<S, S>) }; }
#endif
#ifdef CASTS_MISC
  template <template <class> class RC> typename CastWorld<RC>::Group CastWorld<RC>::group_misc() { return {
    CAST_ENTRY(std::nullptr_t), CAST_ENTRY(bool), CAST_ENTRY(I), CAST_ENTRY(int32_t), CAST_ENTRY(uint64_t), CAST_ENTRY(double), CAST_ENTRY(float), CAST_ENTRY(S), CAST_ENTRY(shim::string_view),
    CAST_ENTRY(shim::optional<I>), CAST_ENTRY(shim::optional<S>), CAST_ENTRY(std::pair<S, I>), CAST_ENTRY(std::tuple<I, S, bool>), CAST_ENTRY(std::chrono::system_clock::time_point), CAST_ENTRY(std::integral_constant<int, 5>) }; }
#endif
#ifdef CASTS_DEEP
  template <template <class> class RC> typename CastWorld<RC>::Group CastWorld<RC>::group_deep() { return {
    CAST_ENTRY(Money), CAST_ENTRY(std::vector<Money>), CAST_ENTRY(std::map<S, Money>), CAST_ENTRY(shim::variant<I, S, std::vector<I>>), CAST_ENTRY(std::vector<std::map<S, std::vector<I>>>), CAST_ENTRY(std::vector<shim::optional<S>>),
    CAST_ENTRY(std::list<std::tuple<I, S>>), CAST_ENTRY(std::vector<basic_packet_of<RC>>), CAST_ENTRY(std::map<S, shim::variant<S, double>>), CAST_ENTRY(std::map<I, I>), CAST_ENTRY(std::vector<std::chrono::system_clock::time_point>) }; }
#endif
}
