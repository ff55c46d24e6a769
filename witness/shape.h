// An abstract rigid shape: every question about it is an external function of
// the shape alone, so what is decided about the project's templates holds for
// every shape.
#include <particle/geometry/box.hpp>
#include <particle/geometry/position.hpp>
#define PURE __attribute__((const, nothrow))
extern "C" {
  bool q_contains2(void const *, double, double) PURE;
  bool q_contains3(void const *, double, double, double) PURE;
  int q_box2(void const *, int, double, double) PURE;
  int q_box3(void const *, int, double, double, double) PURE;
  double q_area(void const *) PURE;
  double q_volume(void const *) PURE;
  double q_cd(void const *) PURE;
  double q_ci(void const *) PURE;
  void q_surface2(void *, void const *, double);
  void q_surface3(void *, void const *, double, double);
}
template<std::size_t D> struct ashape
{
  using dimension_type = std::integral_constant<std::size_t, D>;
  using position_type = cafes::geometry::position<double, D>;
  position_type center_;
  std::array<double, D> shape_factors_;
  bool in(position_type const &x, std::integral_constant<int, 2>) const { return q_contains2(this, x[0], x[1]); }
  bool in(position_type const &x, std::integral_constant<int, 3>) const { return q_contains3(this, x[0], x[1], x[2]); }
  int bb(std::array<double, D> const &h, int k, std::integral_constant<int, 2>) const { return q_box2(this, k, h[0], h[1]); }
  int bb(std::array<double, D> const &h, int k, std::integral_constant<int, 3>) const { return q_box3(this, k, h[0], h[1], h[2]); }
  template<class P> bool contains(P const &x) const { position_type y; for (std::size_t i = 0; i < D; ++i) y[i] = x[i]; return in(y, std::integral_constant<int, D>{}); }
  cafes::geometry::box<int, D> bounding_box(std::array<double, D> const &h) const
  {
    cafes::geometry::box<int, D> b;
    for (std::size_t i = 0; i < D; ++i) { b.bottom_left[i] = bb(h, i, std::integral_constant<int, D>{}); b.upper_right[i] = bb(h, D + i, std::integral_constant<int, D>{}); }
    return b;
  }
  std::vector<position_type> surface(double s) const { std::vector<position_type> v; q_surface2(&v, this, s); return v; }
  std::vector<position_type> surface(std::array<double, 2> const &s) const { std::vector<position_type> v; q_surface3(&v, this, s[0], s[1]); return v; }
  double surface_area() const { return q_area(this); }
  double volume() const { return q_volume(this); }
  double Cd_R() const { return q_cd(this); }
  double Ci_R() const { return q_ci(this); }
};
