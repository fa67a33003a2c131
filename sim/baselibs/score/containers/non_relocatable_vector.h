#pragma once
#include "score/assert.hpp"
#include <cstddef>
#include <iterator>
#include <memory>
#include <utility>
namespace score::containers {
template <typename T, typename Allocator = std::allocator<T>> class NonRelocatableVector {
    using traits = std::allocator_traits<Allocator>;
  public:
    using value_type = T; using size_type = std::size_t; using iterator = T*; using const_iterator = const T*; using reference = T&; using const_reference = const T&; using allocator_type = Allocator; using pointer = typename traits::pointer; using difference_type = std::ptrdiff_t;
    explicit NonRelocatableVector(size_type n, const Allocator& a = Allocator()) : alloc_{a}, capacity_{n}, size_{0}, data_{nullptr} { if (n != 0) data_ = traits::allocate(alloc_, n); }
    NonRelocatableVector(const NonRelocatableVector&) = delete; NonRelocatableVector& operator=(const NonRelocatableVector&) = delete;
    NonRelocatableVector(NonRelocatableVector&& o) noexcept : alloc_{std::move(o.alloc_)}, capacity_{o.capacity_}, size_{o.size_}, data_{o.data_} { o.data_ = nullptr; o.size_ = 0; o.capacity_ = 0; }
    NonRelocatableVector& operator=(NonRelocatableVector&& o) noexcept { if (this != &o) { destroy(); alloc_ = std::move(o.alloc_); capacity_ = o.capacity_; size_ = o.size_; data_ = o.data_; o.data_ = nullptr; o.size_ = 0; o.capacity_ = 0; } return *this; }
    ~NonRelocatableVector() { destroy(); }
    template <typename... A> T& emplace_back(A&&... a) { SIM_CONTRACT("NonRelocatableVector full", size_ < capacity_); T* p = data() + size_; traits::construct(alloc_, p, std::forward<A>(a)...); ++size_; return *p; }
    void push_back(const T& t) { emplace_back(t); } void push_back(T&& t) { emplace_back(std::move(t)); }
    T* data() noexcept { return data_ == nullptr ? nullptr : std::addressof(*data_); } const T* data() const noexcept { return data_ == nullptr ? nullptr : std::addressof(*data_); }
    size_type size() const noexcept { return size_; } size_type capacity() const noexcept { return capacity_; } bool empty() const noexcept { return size_ == 0; }
    iterator begin() noexcept { return data(); } iterator end() noexcept { return data() + size_; } const_iterator begin() const noexcept { return data(); } const_iterator end() const noexcept { return data() + size_; } const_iterator cbegin() const noexcept { return data(); } const_iterator cend() const noexcept { return data() + size_; }
    T& operator[](size_type i) noexcept { return data()[i]; } const T& operator[](size_type i) const noexcept { return data()[i]; }
    T& at(size_type i) { SIM_CONTRACT("bounds", i < size_); return data()[i]; } const T& at(size_type i) const { SIM_CONTRACT("bounds", i < size_); return data()[i]; }
    T& front() { return at(0); } T& back() { return at(size_ - 1); } const T& back() const { return at(size_ - 1); } const T& front() const { return at(0); }
    void clear() noexcept { for (size_type i = 0; i < size_; ++i) traits::destroy(alloc_, data() + i); size_ = 0; }
    Allocator get_allocator() const { return alloc_; }
  private:
    void destroy() { if (data_ != nullptr) { clear(); traits::deallocate(alloc_, data_, capacity_); data_ = nullptr; } }
    Allocator alloc_; size_type capacity_; size_type size_; pointer data_;
};
}
