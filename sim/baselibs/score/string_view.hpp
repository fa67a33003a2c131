#pragma once
#include <string_view>
namespace score::cpp { using string_view = std::string_view; }
