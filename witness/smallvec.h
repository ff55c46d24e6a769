// Fixed-capacity stand-in for std::vector of points, so that lists of known length
// stay in registers: a legal explicit specialisation for the project's own types.
#include <array>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <vector>
#include <particle/geometry/position.hpp>
namespace cafes_check
{
  template<class T> struct small
  {
    using value_type = T; using iterator = T *; using const_iterator = T const *;
    using reference = T &; using const_reference = T const &; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>;
    // storage apart from the length, so that element stores cannot be taken for length changes
    T *d_ = static_cast<T *>(::operator new(8 * sizeof(T))); std::size_t n_ = 0;
    ~small() { if (d_) ::operator delete(d_); }
    small() {}
    explicit small(std::size_t n) : n_(n) {}
    small(std::initializer_list<T> l) { for (auto const &x : l) d_[n_++] = x; }
    small(small const &o) : n_(o.n_) { for (std::size_t i = 0; i < n_; ++i) d_[i] = o.d_[i]; }
    small(small &&o) : d_(o.d_), n_(o.n_) { o.d_ = nullptr; o.n_ = 0; }
    small &operator=(small const &o) { if (this != &o) { n_ = o.n_; for (std::size_t i = 0; i < n_; ++i) d_[i] = o.d_[i]; } return *this; }
    void push_back(T const &x) { d_[n_++] = x; }
    template<class... A> void emplace_back(A &&... a) { d_[n_++] = T{a...}; }
    void reserve(std::size_t) {}
    void resize(std::size_t n) { n_ = n; }
    void clear() { n_ = 0; }
    bool empty() const { return n_ == 0; }
    std::size_t size() const { return n_; }
    T &operator[](std::size_t i) { return d_[i]; }
    T const &operator[](std::size_t i) const { return d_[i]; }
    T &at(std::size_t i) { return d_[i]; }
    T const &at(std::size_t i) const { return d_[i]; }
    T &front() { return d_[0]; }
    T const &front() const { return d_[0]; }
    T &back() { return d_[n_ - 1]; }
    T const &back() const { return d_[n_ - 1]; }
    T *data() { return d_; }
    T const *data() const { return d_; }
    T *begin() { return d_; }
    T *end() { return d_ + n_; }
    T const *begin() const { return d_; }
    T const *end() const { return d_ + n_; }
    T const *cbegin() const { return d_; }
    T const *cend() const { return d_ + n_; }
    reverse_iterator rbegin() { return reverse_iterator(end()); }
    reverse_iterator rend() { return reverse_iterator(begin()); }
    const_reverse_iterator crbegin() const { return const_reverse_iterator(end()); }
    const_reverse_iterator crend() const { return const_reverse_iterator(begin()); }
    template<class I> void insert(T const *, I b, I e) { for (; b != e; ++b) push_back(*b); }
    void erase(T const *p) { for (T *q = d_ + (p - d_); q + 1 != d_ + n_; ++q) *q = q[1]; --n_; }
  };
}
namespace std
{
#define CAFES_SMALL(d) \
  template<> struct vector<cafes::geometry::position<double, d>> : public cafes_check::small<cafes::geometry::position<double, d>> \
  { using cafes_check::small<cafes::geometry::position<double, d>>::small; };
  CAFES_SMALL(2)
  CAFES_SMALL(3)
}
