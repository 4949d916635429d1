#pragma once
#include <cstddef>
#include <iterator>
// a minimal multipass forward range: iterators are positions, nothing else is offered
template <class C> struct Fwd {
  const C* p; size_t n;
  struct iterator {
    using value_type = C; using reference = const C&; using pointer = const C*; using difference_type = ptrdiff_t; using iterator_category = std::forward_iterator_tag;
    const Fwd* f = nullptr; size_t i = 0;
    const C& operator*() const { return f->p[i]; }
    iterator& operator++() { ++i; return *this; }
    iterator operator++(int) { auto c = *this; ++i; return c; }
    friend bool operator==(const iterator& a, const iterator& b) { return a.i == b.i; }
    friend bool operator!=(const iterator& a, const iterator& b) { return a.i != b.i; }
  };
  iterator begin() const { return {this, 0}; }
  iterator end() const { return {this, n}; }
};
