#pragma once
#define DISABLE_WARNING_PUSH
#define DISABLE_WARNING_POP
#define DISABLE_WARNING_MAYBE_UNINITIALIZED
