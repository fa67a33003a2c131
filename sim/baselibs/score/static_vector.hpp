#pragma once
#include "score/assert.hpp"
#include <vector>
namespace score::cpp {
template <typename T, std::size_t N> class static_vector : public std::vector<T> {
  public:
    using std::vector<T>::vector;
    static_vector() { this->reserve(N); }
    void push_back(const T& t) { SIM_CONTRACT("static_vector full", this->size() < N); std::vector<T>::push_back(t); }
    template <typename... A> T& emplace_back(A&&... a) { SIM_CONTRACT("static_vector full", this->size() < N); return std::vector<T>::emplace_back(std::forward<A>(a)...); }
    static constexpr std::size_t capacity() { return N; }
};
}
