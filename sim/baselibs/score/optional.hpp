#pragma once
#include <optional>
namespace score::cpp {
template <typename T> using optional = std::optional<T>;
using std::nullopt; using std::nullopt_t; using std::make_optional; using std::in_place;
}
