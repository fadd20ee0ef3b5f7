// Any conforming sorter: it may ask the comparison and the projection it was given about any two positions of
// the range it was given, as often as it likes (vc_pick chooses them, vc_says records the answer), and it sorts
// that range according to them (vc_any_sort: see vc/specs/adapters.py).
#pragma once
#include <cpp-sort/utility/as_function.h>
template<class I> I vc_pick(I first, I last) NX;
template<class I> void vc_says(I a, I b, bool before) noexcept;
template<class I> void vc_any_sort(I first, I last) NX;
template<class I> void vc_says_total(I a, I b, bool before) noexcept;
template<class I> void vc_any_sort_total(I first, I last) NX;
struct AnySorter {
    template<class I, class C, class P>
    void operator()(I first, I last, C compare, P projection) const {
        auto&& comp = cppsort::utility::as_function(compare);
        auto&& proj = cppsort::utility::as_function(projection);
        if (first != last) {
            I a = vc_pick(first, last), b = vc_pick(first, last);
            vc_says(a, b, static_cast<bool>(comp(proj(*a), proj(*b))));
        }
        vc_any_sort(first, last);
    }
    // without a projection: the order is that of the elements, then of what is associated to them
    template<class I, class C>
    void operator()(I first, I last, C compare) const {
        auto&& comp = cppsort::utility::as_function(compare);
        if (first != last) {
            I a = vc_pick(first, last), b = vc_pick(first, last);
            vc_says_total(a, b, static_cast<bool>(comp(*a, *b)));
        }
        vc_any_sort_total(first, last);
    }
    using iterator_category = std::forward_iterator_tag;
    using is_always_stable = std::false_type;
};
