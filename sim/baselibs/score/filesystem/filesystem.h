#pragma once
#include "score/os/unistd.h"
#include "score/filesystem/factory/filesystem_factory.h"
#include "score/filesystem/filesystem_struct.h"
#include "score/filesystem/path.h"
