#pragma once
#include "score/expected.hpp"
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <ostream>
#include <string>
namespace score::os {
class Error {
  public:
    enum class Code : std::uint32_t { kUnexpected = 1, kUnspecified, kOperationNotPermitted, kNoSuchFileOrDirectory, kNoSuchProcess, kOperationWasInterruptedBySignal, kInputOutput, kTooLargeArgumentList, kExecutableFileFormat, kBadFileDescriptor, kNoChildProcesses, kResourceTemporarilyUnavailable, kNotEnoughSpace, kPermissionDenied, kBadAddress, kDeviceOrResourceBusy, kObjectExists, kCrossDeviceLink, kNoSuchDevice, kNotADirectory, kIsADirectory, kInvalidArgument, kTooManyFilesInSystemOpen, kTooManyFilesOpen, kInappropriateIOControlOperation, kTextFileBusy, kFileTooLarge, kNoSpaceLeftOnDevice, kInvalidSeek, kReadOnlyFileSystem, kTooManyLinks, kBrokenPipe, kTimeout, kNetworkUnreachable, kHostUnreachable, kNoConnection, kConnectionRefused, kConnectionReset, kNoData, kMessageTooLong, kNotSupported, kWouldBlock, kAlreadyInProgress, kCouldNotAllocateMemory };
    static Error createFromErrno() noexcept { return Error{errno}; }
    static Error createFromErrno(int e) noexcept { return Error{e}; }
    static Error createFromErrnoFlockSpecific(int e) noexcept { Error r{e}; r.flock_ = true; return r; }
    static Error createFromErrnoFlockSpecific() noexcept { return createFromErrnoFlockSpecific(errno); }
    static Error createUnspecifiedError() noexcept { Error r{0}; r.unspec_ = true; return r; }
    std::string ToString() const { return std::string(std::strerror(e_)); }
    std::int32_t GetOsDependentErrorCode() const noexcept { return e_; }
    bool operator==(const Error& o) const noexcept { return code() == o.code(); }
    bool operator!=(const Error& o) const noexcept { return !(*this == o); }
    friend bool operator==(const Error& e, const Code c) noexcept { return e.code() == c; }
    friend bool operator!=(const Error& e, const Code c) noexcept { return e.code() != c; }
    friend bool operator==(const Code c, const Error& e) noexcept { return e.code() == c; }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << e.ToString(); }
  private:
    explicit Error(int e) noexcept : e_{e} {}
    Code code() const noexcept {
        if (unspec_) return Code::kUnspecified;
        switch (e_) {
            case EPERM: return Code::kOperationNotPermitted; case ENOENT: return Code::kNoSuchFileOrDirectory; case EINTR: return Code::kOperationWasInterruptedBySignal; case EIO: return Code::kInputOutput; case EBADF: return Code::kBadFileDescriptor;
            case EAGAIN: return flock_ ? Code::kWouldBlock : Code::kResourceTemporarilyUnavailable; case ENOMEM: return Code::kCouldNotAllocateMemory; case EACCES: return Code::kPermissionDenied; case EBUSY: return Code::kDeviceOrResourceBusy; case EEXIST: return Code::kObjectExists; case ENOTDIR: return Code::kNotADirectory; case EINVAL: return Code::kInvalidArgument; case ENFILE: return Code::kTooManyFilesInSystemOpen; case EMFILE: return Code::kTooManyFilesOpen; case ENOSPC: return Code::kNoSpaceLeftOnDevice; case EPIPE: return Code::kBrokenPipe; case ECONNREFUSED: return Code::kConnectionRefused; case ECONNRESET: return Code::kConnectionReset; case EMSGSIZE: return Code::kMessageTooLong; case ENOTSUP: return Code::kNotSupported;
            default: return Code::kUnexpected; }
    }
    int e_; bool flock_{false}; bool unspec_{false};
};
}
