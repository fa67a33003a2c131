#pragma once
#include "score/memory_resource.hpp"
#include <memory>
#include <utility>
namespace score::cpp::pmr {
template <typename T> class deleter {
  public:
    deleter() noexcept = default;
    deleter(memory_resource* r, void* raw, std::size_t n, std::size_t a) noexcept : r_{r}, raw_{raw}, n_{n}, a_{a} {}
    template <typename U, typename = std::enable_if_t<std::is_convertible<U*, T*>::value>> deleter(const deleter<U>& o) noexcept : r_{o.r_}, raw_{o.raw_}, n_{o.n_}, a_{o.a_} {}
    void operator()(T* p) const { if (p == nullptr) return; p->~T(); if (r_ != nullptr) r_->deallocate(raw_, n_, a_); else ::operator delete(static_cast<void*>(p)); }
    memory_resource* r_{nullptr}; void* raw_{nullptr}; std::size_t n_{0}; std::size_t a_{0};
};
template <typename T> using unique_ptr = std::unique_ptr<T, deleter<T>>;
template <typename T, typename... A> unique_ptr<T> make_unique(memory_resource* r, A&&... a) {
    if (r == nullptr) r = get_default_resource();
    void* raw = r->allocate(sizeof(T), alignof(T));
    T* p = ::new (raw) T(std::forward<A>(a)...);
    return unique_ptr<T>(p, deleter<T>{r, raw, sizeof(T), alignof(T)});
}
template <typename T, typename... A> unique_ptr<T> make_unique(const polymorphic_allocator<T>& r, A&&... a) { return make_unique<T>(r.resource(), std::forward<A>(a)...); }
template <typename T> using shared_ptr = std::shared_ptr<T>;
template <typename T, typename... A> std::shared_ptr<T> make_shared(memory_resource* r, A&&... a) { return std::allocate_shared<T>(std::pmr::polymorphic_allocator<T>{r}, std::forward<A>(a)...); }
template <typename T, typename... A> std::shared_ptr<T> make_shared(const polymorphic_allocator<T>& r, A&&... a) { return std::allocate_shared<T>(r, std::forward<A>(a)...); }
}
