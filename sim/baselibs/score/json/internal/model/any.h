#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
namespace score::json {
enum class Error : score::result::ErrorCode { kInvalidFilePath = 1, kParsingError, kKeyNotFound, kWrongType, kUnknownError };
class ErrorDomain_ final : public score::result::ErrorDomain {
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "json error"; }
};
score::result::Error MakeError(Error code, std::string_view msg = "") noexcept;
struct Key {
    std::string s;
    Key(std::string v) : s{std::move(v)} {}
    Key(const char* v) : s{v} {}
    Key(std::string_view v) : s{v} {}
    std::string_view GetAsStringView() const noexcept { return s; }
    friend bool operator<(const Key& a, const Key& b) { return a.s < b.s; }
    friend bool operator==(const Key& a, const Key& b) { return a.s == b.s; }
    friend bool operator==(const Key& a, const char* b) { return a.s == b; }
    friend bool operator==(const Key& a, std::string_view b) { return a.s == b; }
};
class Any;
using Object = std::map<Key, Any>;
using List = std::vector<Any>;
struct Null {};
namespace detail {
template <typename T> struct IsRef : std::bool_constant<std::is_same<T, std::string>::value || std::is_same<T, Object>::value || std::is_same<T, List>::value> {};
}
class Any {
  public:
    Any() noexcept = default;
    Any(const Any&) = default;
    Any(Any&&) noexcept = default;
    Any& operator=(const Any&) = default;
    Any& operator=(Any&&) noexcept = default;
    explicit Any(std::string s);
    Any(Object o);
    Any(List l);
    Any(Null) {}
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> Any(T v) {
        if constexpr (std::is_same<T, bool>::value) { kind_ = Kind::kBool; u_ = v ? 1U : 0U; }
        else if constexpr (std::is_floating_point<T>::value) { kind_ = Kind::kDouble; d_ = static_cast<double>(v); }
        else if (std::is_signed<T>::value && static_cast<std::int64_t>(v) < 0) { kind_ = Kind::kNeg; i_ = static_cast<std::int64_t>(v); }
        else { kind_ = Kind::kUnsigned; u_ = static_cast<std::uint64_t>(v); }
    }
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> Result<T> As() const {
        if constexpr (std::is_same<T, bool>::value) { if (kind_ == Kind::kBool) return u_ != 0U; }
        else if constexpr (std::is_floating_point<T>::value) {
            if (kind_ == Kind::kDouble) return static_cast<T>(d_);
            if (kind_ == Kind::kUnsigned) return static_cast<T>(u_);
            if (kind_ == Kind::kNeg) return static_cast<T>(i_);
        } else {
            if (kind_ == Kind::kUnsigned && u_ <= static_cast<std::uint64_t>(std::numeric_limits<T>::max())) return static_cast<T>(u_);
            if (kind_ == Kind::kNeg && std::is_signed<T>::value && i_ >= static_cast<std::int64_t>(std::numeric_limits<T>::min())) return static_cast<T>(i_);
        }
        return MakeUnexpected(Error::kWrongType);
    }
    template <typename T, std::enable_if_t<std::is_same<T, std::string_view>::value, int> = 0> Result<std::string_view> As() const {
        if (kind_ == Kind::kString) return std::string_view{*s_};
        return MakeUnexpected(Error::kWrongType);
    }
    template <typename T, std::enable_if_t<detail::IsRef<T>::value, int> = 0> Result<std::reference_wrapper<T>> As() & { return Get<T>(); }
    template <typename T, std::enable_if_t<detail::IsRef<T>::value, int> = 0> Result<std::reference_wrapper<T>> As() && { return Get<T>(); }
    template <typename T, std::enable_if_t<detail::IsRef<T>::value, int> = 0> Result<std::reference_wrapper<const T>> As() const & {
        auto r = const_cast<Any*>(this)->Get<T>();
        if (!r.has_value()) return MakeUnexpected(Error::kWrongType);
        return std::cref(r.value().get());
    }
    enum class Kind { kNull, kBool, kUnsigned, kNeg, kDouble, kString, kObject, kList };
    Kind kind() const { return kind_; }
    std::uint64_t u() const { return u_; } std::int64_t i() const { return i_; } double d() const { return d_; }
    template <typename T> T* ptr();
  private:
    template <typename T> Result<std::reference_wrapper<T>> Get() {
        T* p = ptr<T>();
        if (p == nullptr) return MakeUnexpected(Error::kWrongType);
        return std::ref(*p);
    }
    Kind kind_{Kind::kNull};
    std::uint64_t u_{}; std::int64_t i_{}; double d_{};
    std::shared_ptr<std::string> s_{}; std::shared_ptr<Object> o_{}; std::shared_ptr<List> l_{};
};
template <> inline std::string* Any::ptr<std::string>() { return kind_ == Kind::kString ? s_.get() : nullptr; }
template <> inline Object* Any::ptr<Object>() { return kind_ == Kind::kObject ? o_.get() : nullptr; }
template <> inline List* Any::ptr<List>() { return kind_ == Kind::kList ? l_.get() : nullptr; }
inline Any::Any(std::string s) : kind_{Kind::kString}, s_{std::make_shared<std::string>(std::move(s))} {}
inline Any::Any(Object o) : kind_{Kind::kObject}, o_{std::make_shared<Object>(std::move(o))} {}
inline Any::Any(List l) : kind_{Kind::kList}, l_{std::make_shared<List>(std::move(l))} {}
}
