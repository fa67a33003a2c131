#pragma once
#include "score/assert.hpp"
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace score::containers {
namespace intrusive_list_detail {
struct node { node* prev{nullptr}; node* next{nullptr}; };
}
struct default_intrusive_list_tag {};
template <typename Tag = default_intrusive_list_tag> class intrusive_list_element : public intrusive_list_detail::node {
  public:
    intrusive_list_element() noexcept = default;
    intrusive_list_element(const intrusive_list_element&) noexcept {} intrusive_list_element& operator=(const intrusive_list_element&) noexcept { return *this; }
};
template <typename T, typename Tag = default_intrusive_list_tag> class intrusive_list {
    using N = intrusive_list_detail::node; using E = intrusive_list_element<Tag>;
    static N* up(T& t) { return static_cast<N*>(static_cast<E*>(&t)); } static T* dn(N* n) { return static_cast<T*>(static_cast<E*>(n)); }
  public:
    using value_type = T; using size_type = std::size_t; using reference = T&; using const_reference = const T&;
    template <bool C> class it { public:
        using iterator_category = std::bidirectional_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = std::conditional_t<C, const T*, T*>; using reference = std::conditional_t<C, const T&, T&>;
        it() = default; explicit it(N* n) : n_{n} {} template <bool D, typename = std::enable_if_t<C && !D>> it(const it<D>& o) : n_{o.n_} {}
        reference operator*() const { return *dn(n_); } pointer operator->() const { return dn(n_); }
        it& operator++() { n_ = n_->next; return *this; } it operator++(int) { it t = *this; ++*this; return t; } it& operator--() { n_ = n_->prev; return *this; }
        friend bool operator==(const it& a, const it& b) { return a.n_ == b.n_; } friend bool operator!=(const it& a, const it& b) { return a.n_ != b.n_; }
        N* n_{nullptr}; };
    using iterator = it<false>; using const_iterator = it<true>;
    intrusive_list() noexcept { h_.prev = h_.next = &h_; }
    intrusive_list(const intrusive_list&) = delete; intrusive_list& operator=(const intrusive_list&) = delete;
    ~intrusive_list() { clear(); }
    iterator begin() noexcept { return iterator{h_.next}; } iterator end() noexcept { return iterator{&h_}; } const_iterator begin() const noexcept { return const_iterator{h_.next}; } const_iterator end() const noexcept { return const_iterator{const_cast<N*>(&h_)}; } const_iterator cbegin() const noexcept { return begin(); } const_iterator cend() const noexcept { return end(); }
    bool empty() const noexcept { return h_.next == &h_; } size_type size() const noexcept { size_type c = 0; for (auto i = begin(); i != end(); ++i) ++c; return c; }
    T& front() { return *dn(h_.next); } const T& front() const { return *dn(h_.next); } T& back() { return *dn(h_.prev); }
    void push_back(T& t) noexcept { link(&h_, up(t)); } void push_front(T& t) noexcept { link(h_.next, up(t)); }
    iterator insert(const_iterator p, T& t) noexcept { link(p.n_, up(t)); return iterator{up(t)}; }
    void pop_front() noexcept { unlink(h_.next); } void pop_back() noexcept { unlink(h_.prev); }
    iterator erase(const_iterator p) noexcept { N* n = p.n_->next; unlink(p.n_); return iterator{n}; }
    template <typename I> void assign(I b, I e) { clear(); for (; b != e; ++b) push_back(*b); }
    template <typename P, typename D> size_type remove_and_dispose_if(P pr, D d) { size_type c = 0; for (auto i = begin(); i != end();) { if (pr(*i)) { T& t = *i; i = erase(i); d(&t); ++c; } else ++i; } return c; }
    void clear() noexcept { while (!empty()) pop_front(); }
    iterator iterator_to(T& t) noexcept { return iterator{up(t)}; } static iterator s_iterator_to(T& t) noexcept { return iterator{up(t)}; }
    void splice(const_iterator p, intrusive_list& o) { while (!o.empty()) { T& t = o.front(); o.pop_front(); insert(p, t); } }
    void splice(const_iterator p, intrusive_list&, const_iterator i) { N* n = i.n_; unlink(n); link(p.n_, n); }
    template <typename P> size_type remove_if(P pr) { size_type c = 0; for (auto i = begin(); i != end();) { if (pr(*i)) { i = erase(i); ++c; } else ++i; } return c; }
  private:
    static void link(N* before, N* n) { SIM_CONTRACT("intrusive_list element already linked", n->next == nullptr); n->prev = before->prev; n->next = before; before->prev->next = n; before->prev = n; }
    static void unlink(N* n) { n->prev->next = n->next; n->next->prev = n->prev; n->prev = n->next = nullptr; }
    N h_;
};
}
