// Sorters that meet the documented requirements of an adapted sorter and nothing more.
#pragma once
#include "sorters.h"
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/iter_move.h>
namespace nt {
// sorts, then leaves equivalent elements in the reverse of their original relative order (moves only, forward iterators)
template<class Cat, int Tag = 0> struct anti_impl {
    template<class It, class C = std::less<>, class P = cppsort::utility::identity>
    auto operator()(It first, It last, C compare = {}, P projection = {}) const
        -> std::enable_if_t<cppsort::is_projection_iterator_v<P, It, C>, int> {
        auto&& comp = cppsort::utility::as_function(compare); auto&& proj = cppsort::utility::as_function(projection);
        using cppsort::utility::iter_move;
        std::vector<It> v; for (auto it = first; it != last; ++it) v.push_back(it);
        // insertion of each element before its equivalents
        for (std::size_t i = 1; i < v.size(); ++i) { std::size_t j = i; while (j > 0 && !comp(proj(*v[j-1]), proj(*v[j]))) { auto t = iter_move(v[j]); *v[j] = iter_move(v[j-1]); *v[j-1] = std::move(t); --j; } }
        return Tag;
    }
    using iterator_category = Cat; using is_always_stable = std::false_type;
};
template<class Cat, int Tag = 0> struct anti_sorter : cppsort::sorter_facade<anti_impl<Cat, Tag>> {};
// a conforming sorter with state and a non-void result
struct state_impl { int v = 41; state_impl() = default; explicit state_impl(int x) : v(x) {}
    template<class It, class C = std::less<>, class P = cppsort::utility::identity>
    auto operator()(It first, It last, C compare = {}, P projection = {}) const -> std::enable_if_t<cppsort::is_projection_iterator_v<P, It, C>, int> {
        anti_impl<std::random_access_iterator_tag>{}(std::move(first), std::move(last), std::move(compare), std::move(projection)); return v; }
    using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
struct state_sorter : cppsort::sorter_facade<state_impl> { state_sorter() = default; explicit state_sorter(int x) : cppsort::sorter_facade<state_impl>(x) {} };
// stateless but claims stability only with a comparison called Cmp
using ra = std::random_access_iterator_tag; using bi = std::bidirectional_iterator_tag; using fw = std::forward_iterator_tag;
}
