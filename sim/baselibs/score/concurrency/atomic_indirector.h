#pragma once
#include "score/atomic_indirector_impl.h"
