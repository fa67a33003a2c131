#pragma once
#include "score/os/detail_sk.h"
#include <sys/socket.h>
namespace score::os {
class Socket : public SkSingleton<Socket> {
  public:
    enum class Domain : std::int32_t { kUnix = AF_UNIX, kIPv4 = AF_INET, kIPv6 = AF_INET6 };
    enum class MessageFlag : std::int32_t { kNone = 0, kWaitAll = MSG_WAITALL, kNoSignal = MSG_NOSIGNAL, kDontWait = MSG_DONTWAIT, kPeek = MSG_PEEK };
    score::cpp::expected<std::int32_t, Error> socket(Domain d, int t, int p) const noexcept { return skd::ret<std::int32_t>(sk_socket(static_cast<int>(d), t, p)); }
    score::cpp::expected_blank<Error> bind(int fd, const sockaddr* a, socklen_t n) const noexcept { return skd::blank(sk_bind(fd, a, n)); }
    score::cpp::expected_blank<Error> listen(int fd, int b) const noexcept { return skd::blank(sk_listen(fd, b)); }
    score::cpp::expected<std::int32_t, Error> accept(int fd, sockaddr*, socklen_t*) const noexcept { return skd::ret<std::int32_t>(sk_accept(fd)); }
    score::cpp::expected_blank<Error> connect(int fd, const sockaddr* a, socklen_t n) const noexcept { return skd::blank(sk_connect(fd, a, n)); }
    score::cpp::expected<ssize_t, Error> sendmsg(int fd, const msghdr* m, MessageFlag f) const noexcept { return skd::ret<ssize_t>(sk_sendmsg(fd, m, static_cast<int>(f))); }
    score::cpp::expected<ssize_t, Error> recvmsg(int fd, msghdr* m, MessageFlag f) const noexcept { return skd::ret<ssize_t>(sk_recvmsg(fd, m, static_cast<int>(f))); }
    score::cpp::expected<ssize_t, Error> send(int fd, const void* b, std::size_t n, MessageFlag f) const noexcept { iovec io{const_cast<void*>(b), n}; msghdr m{}; m.msg_iov = &io; m.msg_iovlen = 1; return sendmsg(fd, &m, f); }
    score::cpp::expected<ssize_t, Error> sendto(int fd, const void* b, std::size_t n, MessageFlag f, const sockaddr*, socklen_t) const noexcept { return send(fd, b, n, f); }
    score::cpp::expected<ssize_t, Error> recv(int fd, void* b, std::size_t n, MessageFlag f) const noexcept { iovec io{b, n}; msghdr m{}; m.msg_iov = &io; m.msg_iovlen = 1; return recvmsg(fd, &m, f); }
    score::cpp::expected_blank<Error> setsockopt(int fd, int l, int o, const void* v, socklen_t n) const noexcept { return skd::blank(sk_setsockopt(fd, l, o, v, n)); }
    score::cpp::expected_blank<Error> getsockopt(int fd, int l, int o, void* v, socklen_t* n) const noexcept { std::size_t s = *n; int r = sk_getsockopt(fd, l, o, v, &s); *n = static_cast<socklen_t>(s); return skd::blank(r); }
    score::cpp::expected_blank<Error> shutdown(int fd, int how) const noexcept { return skd::blank(sk_shutdown(fd, how)); }
};
SK_FLAG_OPS(Socket::MessageFlag)
}
