#pragma once
#include "score/os/detail_sk.h"
namespace score::os { class Acl { public: enum class Permission : std::uint32_t { kRead = 0, kWrite, kExecute }; using FileDescriptor = std::int32_t; using UserIdentifier = uid_t; }; }
