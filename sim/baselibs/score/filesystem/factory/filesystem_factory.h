#pragma once
#include "score/filesystem/filesystem_struct.h"
namespace score::filesystem { struct FilesystemFactory { Filesystem CreateInstance() const { return {std::make_shared<IStandardFilesystem>(), std::make_shared<IFileUtils>(), std::make_shared<IFileFactory>()}; } }; }
