#pragma once
#include "score/json/internal/model/any.h"
#include <score/span.hpp>
namespace score::json {
class JsonParser {
  public:
    Result<Any> FromFile(std::string_view path) const;
    Result<Any> FromBuffer(score::cpp::span<const char> buffer) const;
};
}
