#pragma once
#include <fmt/format.h>
#include <optional>
#if FMT_VERSION < 100000
template<typename T> struct fmt::formatter<std::optional<T>> : fmt::formatter<T> {
  template<typename C> auto format(const std::optional<T>& o, C& c) const {
    if(!o) return fmt::format_to(c.out(), "none");
    return fmt::format_to(c.out(), "optional({})", *o);
  }
};
#endif
