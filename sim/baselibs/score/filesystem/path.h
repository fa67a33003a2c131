#pragma once
#include <functional>
#include <ostream>
#include <string>
#include <string_view>
namespace score::filesystem {
class Path { public:
    Path() = default; Path(const char* s) : s_{s} {} Path(std::string s) : s_{std::move(s)} {} Path(std::string_view s) : s_{s} {}
    const std::string& Native() const noexcept { return s_; } const char* CStr() const noexcept { return s_.c_str(); } operator std::string() const { return s_; } std::string String() const { return s_; } bool Empty() const noexcept { return s_.empty(); }
    Path Filename() const { auto p = s_.rfind('/'); return p == std::string::npos ? Path{s_} : Path{s_.substr(p + 1)}; }
    Path ParentPath() const { auto p = s_.rfind('/'); return p == std::string::npos ? Path{} : Path{p == 0 ? std::string("/") : s_.substr(0, p)}; }
    Path Extension() const { auto f = Filename().s_; auto p = f.rfind('.'); return p == std::string::npos ? Path{} : Path{f.substr(p)}; }
    Path RelativePath() const { auto p = s_.find_first_not_of('/'); return p == std::string::npos ? Path{} : Path{s_.substr(p)}; }
    bool IsAbsolute() const { return !s_.empty() && s_[0] == '/'; }
    Path& operator/=(const Path& o) { if (o.IsAbsolute()) { s_ = o.s_; return *this; } if (!s_.empty() && s_.back() != '/') s_ += '/'; s_ += o.s_; return *this; }
    Path& operator+=(std::string_view o) { s_ += o; return *this; }
    friend Path operator/(const Path& a, const Path& b) { Path r{a}; r /= b; return r; }
    friend bool operator==(const Path& a, const Path& b) { return a.s_ == b.s_; } friend bool operator!=(const Path& a, const Path& b) { return a.s_ != b.s_; } friend bool operator<(const Path& a, const Path& b) { return a.s_ < b.s_; }
    friend std::ostream& operator<<(std::ostream& o, const Path& p) { return o << p.s_; }
  private: std::string s_; };
}
namespace std { template <> struct hash<score::filesystem::Path> { std::size_t operator()(const score::filesystem::Path& p) const noexcept { return std::hash<std::string>{}(p.Native()); } }; }
