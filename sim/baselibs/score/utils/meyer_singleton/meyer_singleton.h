#pragma once
#include <utility>
namespace score::singleton {
template <typename T> class MeyerSingleton { public:
    template <typename... A> static T& GetInstance(A&&... a) { static T t{std::forward<A>(a)...}; return t; }
    template <typename F> static T& GetInstanceInitializedWithCallable(F&& f) { static T t{f()}; return t; } };
}
