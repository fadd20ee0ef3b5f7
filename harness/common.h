// Abstract element / comparator / projection types used to instantiate the real templates of
// /repo.  They are only declared: the verifier gives them their meaning (see DESIGN.md), so what is
// proved holds for every type meeting the documented requirements.
#pragma once
#include <cstddef>
#include <iterator>
#include <utility>
#include <memory>
#include <tuple>
#include <algorithm>
// with VC_THROWING every operation but the destructor may throw (C15)
#ifdef VC_THROWING
#define NX noexcept(false)
#else
#define NX noexcept
#endif
struct Key { long k; };
struct Elem {
    Key key;
    Elem(Elem&&) NX; Elem& operator=(Elem&&) NX; ~Elem() noexcept;
    Elem(const Elem&) = delete; Elem& operator=(const Elem&) = delete;
    friend void swap(Elem&, Elem&) NX;
};
struct Proj { Key const& operator()(Elem const&) const NX; };
struct Comp { bool operator()(Key const&, Key const&) const NX; };
// a projection computing a value
struct KeyV { long k; };
struct ProjV { KeyV operator()(Elem const&) const NX; };
struct CompV { bool operator()(KeyV const&, KeyV const&) const NX; };
struct Pred { bool operator()(Elem const&) const NX; };
// forward / bidirectional iterators over the same storage
template<class Tag> struct It {
    using iterator_category = Tag; using value_type = Elem; using difference_type = std::ptrdiff_t;
    using pointer = Elem*; using reference = Elem&;
    Elem* p;
    Elem& operator*() const noexcept { return *p; }
    Elem* operator->() const noexcept { return p; }
    It& operator++() noexcept { ++p; return *this; }
    It operator++(int) noexcept { It t = *this; ++p; return t; }
    It& operator--() noexcept { --p; return *this; }
    It operator--(int) noexcept { It t = *this; --p; return t; }
    friend bool operator==(It a, It b) noexcept { return a.p == b.p; }
    friend bool operator!=(It a, It b) noexcept { return a.p != b.p; }
};
using Fwd = It<std::forward_iterator_tag>;
using Bidir = It<std::bidirectional_iterator_tag>;
template<class F> void use(F f);
