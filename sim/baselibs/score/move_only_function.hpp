#pragma once
#include "score/callback.hpp"
