// Recording stand-in for the project's own std::vector<...> instances: every
// insertion becomes a call of an external function and every element read a
// load through an external address, so that the analysis sees them as events.
// A legal explicit specialisation for the project's own types.
#include <array>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <utility>
#include <vector>
#include <particle/geometry/position.hpp>
#include <particle/geometry/vector.hpp>
#include <particle/physics/force.hpp>
namespace cafes_check
{
  template<class T> struct rec
  {
    using value_type = T; using iterator = T *; using const_iterator = T const *;
    using reference = T &; using const_reference = T const &; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    T *b_ = nullptr; std::size_t n_ = 0;
    void push(T const *);                     // external: append *p
    void fit(std::size_t);                    // external: set the size
    void fill(std::size_t, T const *);        // external: n copies of *p
    void copy(T const *, T const *);          // external: replace the content
    void append(T const *, T const *);        // external: append a range
    void cut(T const *);                      // external: remove one element
    using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>;
    reverse_iterator rbegin() { return reverse_iterator(end()); }
    reverse_iterator rend() { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
    const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    const_reverse_iterator crbegin() const { return const_reverse_iterator(end()); }
    const_reverse_iterator crend() const { return const_reverse_iterator(begin()); }
    template<class I> void insert(T const *, I b, I e) { append(&*b, &*e); }
    void erase(T const *p) { cut(p); }
    T &front() { return b_[0]; }
    T const &front() const { return b_[0]; }
    T &back() { return b_[n_ - 1]; }
    T const &back() const { return b_[n_ - 1]; }
    void put(T const &x) { T y = x; push(&y); }
    rec() {}
    explicit rec(std::size_t n) { fit(n); }
    rec(std::size_t n, T const &v) { T y = v; fill(n, &y); }
    rec(std::initializer_list<T> l) { copy(l.begin(), l.end()); }
    rec(rec const &o) : b_(o.b_), n_(o.n_) {}
    rec &operator=(rec const &o) { copy(o.begin(), o.end()); return *this; }
    void push_back(T const &x) { put(x); }
    template<class... A> void emplace_back(A &&... a) { put(T(std::forward<A>(a)...)); }
    void reserve(std::size_t) {}
    void resize(std::size_t n) { fit(n); }
    void clear() { fit(0); }
    template<class I> void assign(I b, I e) { copy(&*b, &*e); }
    bool empty() const { return n_ == 0; }
    std::size_t size() const { return n_; }
    T &operator[](std::size_t i) { return b_[i]; }
    T const &operator[](std::size_t i) const { return b_[i]; }
    T &at(std::size_t i) { return b_[i]; }
    T const &at(std::size_t i) const { return b_[i]; }
    T *data() { return b_; }
    T const *data() const { return b_; }
    T *begin() { return b_; }
    T *end() { return b_ + n_; }
    T const *begin() const { return b_; }
    T const *end() const { return b_ + n_; }
    T const *cbegin() const { return b_; }
    T const *cend() const { return b_ + n_; }
  };
}
namespace std
{
#define CAFES_REC(...) \
  template<> struct vector<__VA_ARGS__> : public cafes_check::rec<__VA_ARGS__> \
  { using cafes_check::rec<__VA_ARGS__>::rec; };
#define CAFES_COMMA ,
  CAFES_REC(cafes::geometry::position<int, 2>)
  CAFES_REC(cafes::geometry::position<int, 3>)
  CAFES_REC(std::pair<cafes::geometry::position<int, 2>, cafes::geometry::position<double, 2>>)
  CAFES_REC(std::pair<cafes::geometry::position<int, 3>, cafes::geometry::position<double, 3>>)
  CAFES_REC(cafes::geometry::position<double, 2>)
  CAFES_REC(cafes::geometry::position<double, 3>)
  CAFES_REC(cafes::geometry::vector<double, 2>)
  CAFES_REC(cafes::geometry::vector<double, 3>)
  CAFES_REC(std::vector<cafes::geometry::vector<double, 2>>)
  CAFES_REC(std::vector<cafes::geometry::vector<double, 3>>)
  CAFES_REC(std::vector<std::pair<cafes::geometry::position<int, 2>, cafes::geometry::position<double, 2>>>)
  CAFES_REC(std::vector<std::pair<cafes::geometry::position<int, 3>, cafes::geometry::position<double, 3>>>)
}
