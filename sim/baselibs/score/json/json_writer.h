#pragma once
#include "score/json/json_parser.h"
namespace score::json {
class JsonWriter {
  public:
    Result<std::string> ToBuffer(const Object& o) const;
    Result<std::string> ToBuffer(const List& l) const;
    Result<std::string> ToBuffer(const Any& a) const;
};
}
