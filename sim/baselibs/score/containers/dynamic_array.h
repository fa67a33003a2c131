#pragma once
#include "score/containers/non_relocatable_vector.h"
#include <initializer_list>
#include <vector>
namespace score::containers {
template <typename T, typename Allocator = std::allocator<T>> class DynamicArray {
    using Vec = NonRelocatableVector<T, Allocator>;
  public:
    using value_type = T; using size_type = std::size_t; using iterator = T*; using const_iterator = const T*; using reference = T&; using const_reference = const T&; using allocator_type = Allocator; using pointer = T*; using difference_type = std::ptrdiff_t;
    explicit DynamicArray(size_type n, const Allocator& a = Allocator()) : v_(n, a) { for (size_type i = 0; i < n; ++i) v_.emplace_back(); }
    DynamicArray(size_type n, const T& val, const Allocator& a = Allocator()) : v_(n, a) { for (size_type i = 0; i < n; ++i) v_.emplace_back(val); }
    template <typename VA> explicit DynamicArray(std::vector<T, VA>&& l, const Allocator& a = Allocator()) : v_(l.size(), a) { for (auto& e : l) v_.emplace_back(std::move(e)); }
    template <typename VA> explicit DynamicArray(const std::vector<T, VA>& l, const Allocator& a = Allocator()) : v_(l.size(), a) { for (auto& e : l) v_.emplace_back(e); }
    DynamicArray(const DynamicArray& o) : v_(o.size(), std::allocator_traits<Allocator>::select_on_container_copy_construction(o.v_.get_allocator())) { for (const auto& e : o) v_.emplace_back(e); }
    DynamicArray(DynamicArray&&) noexcept = default; DynamicArray& operator=(DynamicArray&&) noexcept = default;
    DynamicArray& operator=(const DynamicArray& o) { if (this != &o) { DynamicArray t(o); v_ = std::move(t.v_); } return *this; }
    T* data() noexcept { return v_.data(); } const T* data() const noexcept { return v_.data(); }
    size_type size() const noexcept { return v_.size(); } bool empty() const noexcept { return v_.empty(); }
    iterator begin() noexcept { return v_.begin(); } iterator end() noexcept { return v_.end(); } const_iterator begin() const noexcept { return v_.begin(); } const_iterator end() const noexcept { return v_.end(); } const_iterator cbegin() const noexcept { return v_.begin(); } const_iterator cend() const noexcept { return v_.end(); }
    T& operator[](size_type i) noexcept { return v_[i]; } const T& operator[](size_type i) const noexcept { return v_[i]; }
    T& at(size_type i) { return v_.at(i); } const T& at(size_type i) const { return v_.at(i); }
    T& front() { return v_.front(); } T& back() { return v_.back(); } const T& front() const { return v_.front(); } const T& back() const { return v_.back(); }
  private:
    Vec v_;
};
}
