#pragma once
#include "score/mw/log/logging.h"
