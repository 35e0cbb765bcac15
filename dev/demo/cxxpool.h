// Stand-in for extern/cxxpool (submodule absent offline): declarations with the
// same interface, so that translation units using the thread pool type-check.
#pragma once
#include <functional>
#include <future>
#include <iterator>
#include <type_traits>
#include <utility>
#include <vector>
namespace cxxpool {
class thread_pool {
public:
    thread_pool() = default;
    explicit thread_pool(std::size_t n) { (void)n; }
    template <typename F, typename... A>
    auto push(F &&f, A &&...a) -> std::future<decltype(f(a...))> {
        return std::async(std::launch::async, std::forward<F>(f), std::forward<A>(a)...);
    }
    void clear() {}
};
template <typename It, typename R>
std::vector<R> get(It b, It e, std::vector<R> r) {
    for (; b != e; ++b) r.push_back(b->get());
    return r;
}
template <typename It>
inline auto get(It b, It e) -> typename std::enable_if<std::is_void<decltype(b->get())>::value>::type {
    for (; b != e; ++b) b->get();
}
}  // namespace cxxpool
