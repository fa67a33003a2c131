#pragma once
#include <cstdint>
#include <ostream>
#include <string>
#include <string_view>
namespace score::mw::log { class LogStream; }
namespace score::result {
using ErrorCode = std::int32_t;
using ErrorMessage = std::string_view;
class ErrorDomain {
  public:
    virtual std::string_view MessageFor(const ErrorCode& code) const noexcept = 0;
    constexpr ErrorDomain() = default; ErrorDomain(const ErrorDomain&) = default; ErrorDomain(ErrorDomain&&) = default; ErrorDomain& operator=(const ErrorDomain&) = default; ErrorDomain& operator=(ErrorDomain&&) = default;
  protected:
    ~ErrorDomain() = default;
};
class Error {
  public:
    Error(const ErrorCode code, const ErrorDomain& domain, const std::string_view user_message = "") noexcept : code_{code}, domain_{&domain}, msg_{user_message} {}
    const ErrorCode& operator*() const noexcept { return code_; }
    std::string_view Message() const noexcept { return domain_->MessageFor(code_); }
    std::string_view UserMessage() const noexcept { return msg_; }
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.domain_ == b.domain_ && a.code_ == b.code_; }
    friend bool operator!=(const Error& a, const Error& b) noexcept { return !(a == b); }
    template <typename E, typename = std::enable_if_t<std::is_enum<E>::value>> friend bool operator==(const Error& a, const E& e) noexcept { return a == MakeError(e, ""); }
    template <typename E, typename = std::enable_if_t<std::is_enum<E>::value>> friend bool operator==(const E& e, const Error& a) noexcept { return a == MakeError(e, ""); }
    template <typename E, typename = std::enable_if_t<std::is_enum<E>::value>> friend bool operator!=(const Error& a, const E& e) noexcept { return !(a == MakeError(e, "")); }
  private:
    ErrorCode code_; const ErrorDomain* domain_; std::string_view msg_;
};
inline std::ostream& operator<<(std::ostream& o, const Error& e) { return o << "Error " << e.Message() << " " << e.UserMessage(); }
}
