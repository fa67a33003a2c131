#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <string>
namespace score::os { class Ipv4Address { public: Ipv4Address() = default; explicit Ipv4Address(const std::string& s) { unsigned v[4]{}; if (std::sscanf(s.c_str(), "%u.%u.%u.%u", v, v + 1, v + 2, v + 3) == 4) for (int i = 0; i < 4; ++i) b_[i] = static_cast<std::uint8_t>(v[i]); } std::array<std::uint8_t, 4> ToIpv4Bytes() const noexcept { return b_; } std::string ToString() const { return std::to_string(b_[0]) + "." + std::to_string(b_[1]) + "." + std::to_string(b_[2]) + "." + std::to_string(b_[3]); } private: std::array<std::uint8_t, 4> b_{}; }; }
