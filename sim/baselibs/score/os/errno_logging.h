#pragma once
#include "score/mw/log/logging.h"
#include "score/os/errno.h"
