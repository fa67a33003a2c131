#pragma once
#include "score/filesystem/i_standard_filesystem.h"
namespace score::filesystem { struct Filesystem { std::shared_ptr<IStandardFilesystem> standard; std::shared_ptr<IFileUtils> utils; std::shared_ptr<IFileFactory> streams; }; }
