#pragma once
#include "score/filesystem/path.h"
#include "score/os/stat.h"
#include "score/result/result.h"
#include <ios>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
namespace score::filesystem {
enum class ErrorCode : score::result::ErrorCode { kFailed = 1, kDoesNotExist, kNotImplemented, kCouldNotRemoveFileOrDirectory, kCouldNotRetrieveStatus, kCouldNotCreateDirectory, kCouldNotSetPermissions };
class Domain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "filesystem"; } };
inline score::result::Error MakeError(const ErrorCode c, const std::string_view m = "") { static Domain d{}; return {static_cast<score::result::ErrorCode>(c), d, m}; }
enum class FileType : std::uint8_t { kNone = 0, kNotFound, kRegular, kDirectory, kSymlink, kUnknown };
using Perms = score::os::Stat::Mode;
enum class PermOptions : std::uint8_t { kReplace, kAdd, kRemove };
class FileStatus { public: FileStatus() = default; FileStatus(FileType t, Perms p) : t_{t}, p_{p} {} FileType Type() const noexcept { return t_; } Perms Permissions() const noexcept { return p_; } private: FileType t_{FileType::kNone}; Perms p_{Perms::kUnset}; };
inline Result<FileStatus> SkStatus(const Path& p) { struct stat s {}; int r = sk_stat(p.CStr(), &s); if (r == -ENOENT || r == -ENOTDIR) return FileStatus{FileType::kNotFound, Perms::kUnset}; if (r < 0) return MakeUnexpected<FileStatus>(ErrorCode::kCouldNotRetrieveStatus); return FileStatus{S_ISDIR(s.st_mode) ? FileType::kDirectory : FileType::kRegular, static_cast<Perms>(s.st_mode & 07777)}; }
class IStandardFilesystem { public: virtual ~IStandardFilesystem() = default;
    virtual Result<bool> Exists(const Path& p) { auto s = SkStatus(p); if (!s.has_value()) return MakeUnexpected<bool>(ErrorCode::kCouldNotRetrieveStatus); return s->Type() != FileType::kNotFound; }
    virtual Result<FileStatus> Status(const Path& p) { return SkStatus(p); }
    virtual Result<bool> IsDirectory(const Path& p) { auto s = SkStatus(p); if (!s.has_value()) return MakeUnexpected<bool>(ErrorCode::kFailed); return s->Type() == FileType::kDirectory; }
    virtual Result<bool> IsRegularFile(const Path& p) { auto s = SkStatus(p); if (!s.has_value()) return MakeUnexpected<bool>(ErrorCode::kFailed); return s->Type() == FileType::kRegular; }
    virtual Result<void> Remove(const Path& p) { int r = sk_remove(p.CStr()); if (r < 0) return MakeUnexpected<void>(ErrorCode::kCouldNotRemoveFileOrDirectory); return {}; }
    virtual Result<void> Permissions(const Path& p, Perms m, PermOptions = PermOptions::kReplace) { int r = sk_chmod(p.CStr(), static_cast<unsigned>(m)); if (r < 0) return MakeUnexpected<void>(ErrorCode::kCouldNotSetPermissions); return {}; }
    virtual Result<void> CreateDirectory(const Path& p) { int r = sk_mkdir(p.CStr(), 0777); if (r < 0) return MakeUnexpected<void>(ErrorCode::kCouldNotCreateDirectory); return {}; } };
class IFileFactory { public: virtual ~IFileFactory() = default;
    struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
    struct NullStream : std::iostream { NullStream() : std::iostream(&b_) {} NullBuf b_; };
    virtual Result<std::unique_ptr<std::iostream>> Open(const Path& p, std::ios_base::openmode m) { bool w = (m & std::ios_base::out) != 0; int fd = sk_open(p.CStr(), w ? (1 | 0100 | ((m & (std::ios_base::app | std::ios_base::in)) ? 0 : 01000)) : 0, 0666); if (fd < 0) return MakeUnexpected<std::unique_ptr<std::iostream>>(ErrorCode::kFailed); sk_close(fd); std::unique_ptr<std::iostream> s = std::make_unique<NullStream>(); return Result<std::unique_ptr<std::iostream>>(std::move(s)); } };
class IFileUtils { public: virtual ~IFileUtils() = default;
    virtual Result<void> CreateDirectories(const Path& p) const { return CreateDirectories(p, static_cast<Perms>(0777)); }
    virtual Result<void> CreateDirectories(const Path& p, Perms m) const {
        const std::string& s = p.Native(); std::size_t pos = 1;
        while (true) { pos = s.find('/', pos); std::string sub = pos == std::string::npos ? s : s.substr(0, pos); if (!sub.empty()) { int r = sk_mkdir(sub.c_str(), static_cast<unsigned>(m)); if (r == 0) { int c = sk_chmod(sub.c_str(), static_cast<unsigned>(m)); if (c < 0) return MakeUnexpected<void>(ErrorCode::kCouldNotSetPermissions); } else if (r != -EEXIST) return MakeUnexpected<void>(ErrorCode::kCouldNotCreateDirectory); } if (pos == std::string::npos) break; ++pos; }
        auto st = SkStatus(p); if (!st.has_value() || st->Type() != FileType::kDirectory || st->Permissions() != m) return MakeUnexpected<void>(ErrorCode::kCouldNotCreateDirectory);
        return {}; } };
class DirectoryEntry { public: explicit DirectoryEntry(Path p) : p_{std::move(p)} {} const Path& GetPath() const noexcept { return p_; } Result<FileStatus> Status() const { auto s = SkStatus(p_); if (s.has_value() && s->Type() == FileType::kNotFound) return MakeUnexpected<FileStatus>(ErrorCode::kCouldNotRetrieveStatus); return s; } private: Path p_; };
class DirectoryIterator { public:
    using iterator_category = std::input_iterator_tag; using value_type = DirectoryEntry; using difference_type = std::ptrdiff_t; using pointer = const DirectoryEntry*; using reference = const DirectoryEntry&;
    DirectoryIterator() = default;
    explicit DirectoryIterator(const Path& p) { char* n = nullptr; int c = sk_listdir(p.CStr(), &n); if (c > 0) { v_ = std::make_shared<std::vector<DirectoryEntry>>(); const char* q = n; for (int i = 0; i < c; ++i) { v_->emplace_back(p / Path{q}); q += std::string_view(q).size() + 1; } } if (n != nullptr) ::free(n); if (!v_ || v_->empty()) v_.reset(); }
    const DirectoryEntry& operator*() const { return (*v_)[i_]; } const DirectoryEntry* operator->() const { return &(*v_)[i_]; }
    DirectoryIterator& operator++() { if (++i_ >= v_->size()) { v_.reset(); i_ = 0; } return *this; }
    friend bool operator==(const DirectoryIterator& a, const DirectoryIterator& b) { return a.v_ == b.v_ && (!a.v_ || a.i_ == b.i_); } friend bool operator!=(const DirectoryIterator& a, const DirectoryIterator& b) { return !(a == b); }
  private: std::shared_ptr<std::vector<DirectoryEntry>> v_; std::size_t i_{0}; };
inline DirectoryIterator begin(DirectoryIterator i) { return i; } inline DirectoryIterator end(const DirectoryIterator&) { return {}; }
}
