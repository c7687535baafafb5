// C++: templates, classes, virtual calls, exceptions, static initialisers, lambdas, containers, threads
#include <algorithm>
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
template <class T> struct V3 { T x, y, z; V3 operator+(V3 o) const { return {x + o.x, y + o.y, z + o.z}; } V3 operator*(T s) const { return {x * s, y * s, z * s}; } T dot(V3 o) const { return x * o.x + y * o.y + z * o.z; } };
struct Shape { virtual double area() const = 0; virtual ~Shape() { total = total + 1.5; } static double total; };
double Shape::total = 0.1;
struct Sq : Shape { double a; explicit Sq(double q) : a(q * 1.01) {} double area() const override { return a * a; } };
struct Ci : Shape { double r; explicit Ci(double q) : r(q / 1.01) {} double area() const override { return 3.14159 * r * r; } };
static double init_at_start(double x) { return x / 3.0 + 0.1; }
static const double early = init_at_start(2.0);
struct Late { ~Late() { double q = early * 3.0; std::printf("late %a\n", q); } } late;
static double may_throw(double x) { if (x > 2.0) throw std::runtime_error(std::to_string(int(x * 10.0))); return x * x; }
template <class T> T total(const std::vector<T> &v) { return std::accumulate(v.begin(), v.end(), T(0)); }
constexpr double ce(double x) { return x * x + 1.0; }
thread_local double tl = 0.5;
int main() {
  V3<float> a{1, 2, 3}, b{0.1f, 0.2f, 0.3f}; V3<double> c{1, 2, 3}; a = a + b * 2.5f; c = c * 0.3; std::printf("%a %a %a\n", a.dot(b), c.dot(c), early);
  { std::vector<std::unique_ptr<Shape>> s; for (int i = 0; i < 6; i++) { if (i % 2) s.emplace_back(new Sq(i)); else s.emplace_back(new Ci(i)); } double t = 0; for (auto &p : s) t += p->area(); std::printf("%a\n", t); }
  std::printf("%a\n", Shape::total);
  double acc = 0; for (int i = 0; i < 5; i++) try { acc += may_throw(i * 0.7); } catch (std::exception &e) { acc -= 0.25; std::printf("%s\n", e.what()); } std::printf("%a\n", acc);
  std::vector<float> v(31); for (size_t i = 0; i < v.size(); i++) v[i] = float(i * 7 % 11) / 3.0f; std::sort(v.begin(), v.end(), [](float x, float y) { return x * 1.5f > y * 1.5f; }); std::printf("%a %a %a\n", v[0], v[15], total(v));
  std::map<double, int> m; for (int i = 0; i < 10; i++) m[i * 0.37 - int(i * 0.37)] = i; for (auto &[k, q] : m) std::printf("%a:%d ", k, q); std::printf("\n");
  std::complex<double> z(1, 2); for (int i = 0; i < 4; i++) z = z * std::complex<double>(0.5, -0.5) + std::abs(z); std::printf("%a %a\n", z.real(), z.imag());
  std::function<double(double)> f = [k = 1.25](double x) { return x * k - 1.0; }; std::printf("%a %a\n", f(f(f(2.0))), ce(acc));
  std::vector<double> r(4); std::vector<std::thread> th; for (int t = 0; t < 4; t++) th.emplace_back([&, t] { double s = 0; for (int i = 1; i < 500; i++) s += 1.0 / (i + t); tl = tl + s; r[t] = tl; }); for (auto &t : th) t.join(); for (double x : r) std::printf("%a\n", x);
  std::atomic<float> at{1.0f}; at = at + 1.5f; std::printf("%a\n", float(at) * 3);
  return int(acc * 10.0) & 31;
}
