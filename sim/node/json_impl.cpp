// Stand-in for score::json (parser and writer), written from scratch: plain recursive descent.
#include "score/json/json_writer.h"
#include "kernel_api.h"
#include <cstdlib>
#include <cstring>
namespace score::json {
namespace { const ErrorDomain_ kDomain{}; }
score::result::Error MakeError(Error code, std::string_view msg) noexcept { return score::result::Error{static_cast<score::result::ErrorCode>(code), kDomain, msg}; }
namespace {
struct P {
    const char* p; const char* e;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    bool str(std::string& out) {
        if (p >= e || *p != '"') return false;
        ++p;
        while (p < e && *p != '"') {
            if (*p == '\\') {
                ++p; if (p >= e) return false;
                switch (*p) { case 'n': out += '\n'; break; case 't': out += '\t'; break; case 'r': out += '\r'; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break;
                    case 'u': { if (e - p < 5) return false; out += static_cast<char>(std::strtol(std::string(p + 1, p + 5).c_str(), nullptr, 16)); p += 4; break; }
                    default: out += *p; }
                ++p;
            } else out += *p++;
        }
        if (p >= e) return false;
        ++p; return true;
    }
    bool val(Any& out, int depth = 0) {
        if (depth > 60) return false;
        ws();
        if (p >= e) return false;
        if (*p == '{') {
            ++p; Object o; ws();
            if (p < e && *p == '}') { ++p; out = Any{std::move(o)}; return true; }
            for (;;) {
                ws(); std::string k; if (!str(k)) return false;
                ws(); if (p >= e || *p != ':') return false; ++p;
                Any v; if (!val(v, depth + 1)) return false;
                o.insert_or_assign(Key{k}, v);
                ws(); if (p >= e) return false;
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; out = Any{std::move(o)}; return true; }
                return false;
            }
        }
        if (*p == '[') {
            ++p; List l; ws();
            if (p < e && *p == ']') { ++p; out = Any{std::move(l)}; return true; }
            for (;;) {
                Any v; if (!val(v, depth + 1)) return false;
                l.push_back(v);
                ws(); if (p >= e) return false;
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; out = Any{std::move(l)}; return true; }
                return false;
            }
        }
        if (*p == '"') { std::string s; if (!str(s)) return false; out = Any{std::move(s)}; return true; }
        if (e - p >= 4 && std::memcmp(p, "true", 4) == 0) { p += 4; out = Any{true}; return true; }
        if (e - p >= 5 && std::memcmp(p, "false", 5) == 0) { p += 5; out = Any{false}; return true; }
        if (e - p >= 4 && std::memcmp(p, "null", 4) == 0) { p += 4; out = Any{}; return true; }
        const char* b = p; bool fl = false;
        while (p < e && (std::strchr("+-0123456789.eE", *p) != nullptr) && *p != 0) { if (*p == '.' || *p == 'e' || *p == 'E') fl = true; ++p; }
        if (b == p) return false;
        const std::string n(b, p);
        if (fl) out = Any{std::strtod(n.c_str(), nullptr)};
        else if (n[0] == '-') out = Any{static_cast<std::int64_t>(std::strtoll(n.c_str(), nullptr, 10))};
        else out = Any{static_cast<std::uint64_t>(std::strtoull(n.c_str(), nullptr, 10))};
        return true;
    }
};
void wstr(std::string& o, std::string_view s) { o += '"'; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } o += '"'; }
void wr(std::string& o, Any& a) {
    switch (a.kind()) {
        case Any::Kind::kNull: o += "null"; break;
        case Any::Kind::kBool: o += a.u() ? "true" : "false"; break;
        case Any::Kind::kUnsigned: o += std::to_string(a.u()); break;
        case Any::Kind::kNeg: o += std::to_string(a.i()); break;
        case Any::Kind::kDouble: o += std::to_string(a.d()); break;
        case Any::Kind::kString: wstr(o, *a.ptr<std::string>()); break;
        case Any::Kind::kObject: { o += '{'; bool f = true; for (auto& [k, v] : *a.ptr<Object>()) { if (!f) o += ','; f = false; wstr(o, k.s); o += ':'; wr(o, v); } o += '}'; break; }
        case Any::Kind::kList: { o += '['; bool f = true; for (auto& v : *a.ptr<List>()) { if (!f) o += ','; f = false; wr(o, v); } o += ']'; break; }
    }
}
}
Result<Any> JsonParser::FromBuffer(score::cpp::span<const char> b) const {
    P p{b.data(), b.data() + b.size()};
    Any a;
    if (!p.val(a)) return MakeUnexpected(Error::kParsingError, "json parse error");
    p.ws();
    if (p.p != p.e && *p.p != '\0') return MakeUnexpected(Error::kParsingError, "trailing data");
    return a;
}
Result<Any> JsonParser::FromFile(std::string_view path) const {
    char* d = nullptr; std::size_t n = 0;
    if (sk_read_file(std::string{path}.c_str(), &d, &n) < 0) return MakeUnexpected(Error::kInvalidFilePath, "cannot read file");
    auto r = FromBuffer({d, n});
    std::free(d);
    return r;
}
Result<std::string> JsonWriter::ToBuffer(const Any& a) const { std::string s; Any c{a}; wr(s, c); return s; }
Result<std::string> JsonWriter::ToBuffer(const Object& o) const { return ToBuffer(Any{o}); }
Result<std::string> JsonWriter::ToBuffer(const List& o) const { return ToBuffer(Any{o}); }
}
