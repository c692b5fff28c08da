// Commands that evaluate the geometric and algebraic types: every command maps fixed-width input rows to output rows.
#include "common.hpp"
#include <particle/geometry/linspace.hpp>
namespace hx
{
    namespace g = cafes::geometry;
    namespace ph = cafes::physics;
    constexpr int D = dim;
    using pos = g::position<double, dim>; using ipos = g::position<int, dim>; using vec = g::vector<double, dim>;
    using frc = ph::force<dim>; using vel = ph::velocity<dim>;
    using box = g::box<double, dim>; using ibox = g::box<int, dim>; using se_t = g::super_ellipsoid<double, dim>;
    struct cur { const double *p; std::vector<double> *o; double d() { return *p++; } };
    template<typename V> V rd(cur &c) { V v; for (int i = 0; i < D; ++i) v[i] = c.d(); return v; }
    template<typename V> void wr(cur &c, V const &v) { for (int i = 0; i < D; ++i) c.o->push_back(v[i]); }
    inline void w(cur &c, double v) { c.o->push_back(v); }
    template<typename B> B rbox(cur &c) { B b; b.bottom_left = rd<typename B::position_type>(c); b.upper_right = rd<typename B::position_type>(c); return b; }
    template<typename B> void wbox(cur &c, B const &b) { wr(c, b.bottom_left); wr(c, b.upper_right); }
    struct op { int width; std::function<void(cur &)> f; };
    static std::map<str, op> ops;

    inline g::quaternion quat(cur &c)
    { // kind 0: none, 1: angle, 2: angle and axis
        int k = (int)c.d(); double a = c.d(), x = c.d(), y = c.d(), z = c.d();
        if (k == 0) return {};
        if (k == 1) return g::quaternion{a};
        return g::quaternion{a, {x, y, z}};
    }
    // kind(0 generic, 1 circle/sphere), centre, factors, n, e, quaternion(5)
    template<typename F> void with_shape(cur &c, F f)
    {
        int kind = (int)c.d(); pos ctr = rd<pos>(c); std::array<double, dim> s = rd<std::array<double, dim>>(c); double n = c.d(), e = c.d(); auto q = quat(c);
#if DIM == 2
        if (kind) { g::circle<> S = cafes::make_circle(ctr, s[0], q); f(S); }
        else { (void)e; se_t S{ctr, s, n, q}; f(S); }
#else
        if (kind) { g::sphere<> S = cafes::make_sphere(ctr, s[0], q); f(S); }
        else { se_t S{ctr, s, n, e, q}; f(S); }
#endif
    }
    constexpr int SW = 1 + 2 * D + 2 + 5; // width of a shape

    template<typename B> void box_ops(str const &t)
    {
        using P = typename B::position_type;
        ops["len" + t] = {2 * D, [](cur &c) { auto b = rbox<B>(c); for (int i = 0; i < D; ++i) w(c, b.length(i)); w(c, b.length()); }};
        ops["points" + t] = {2 * D, [](cur &c) { auto b = rbox<B>(c); for (auto const &p : b.get_box_points()) wr(c, p); }};
        ops["intersect" + t] = {4 * D, [](cur &c) { auto a = rbox<B>(c), b = rbox<B>(c); w(c, g::intersect(a, b)); }};
        ops["overlap" + t] = {4 * D, [](cur &c) { auto a = rbox<B>(c), b = rbox<B>(c); wbox(c, g::overlap_box(a, b)); }};
        ops["union" + t] = {4 * D, [](cur &c) { auto a = rbox<B>(c), b = rbox<B>(c); wbox(c, g::union_box(a, b)); }};
        ops["inside" + t] = {4 * D, [](cur &c) { auto a = rbox<B>(c), b = rbox<B>(c); wbox(c, g::box_inside(a, b)); }};
        ops["checkin" + t] = {4 * D, [](cur &c) { auto a = rbox<B>(c), b = rbox<B>(c); w(c, g::check_box_inside(a, b)); }};
        ops["pointin" + t] = {3 * D, [](cur &c) { auto a = rbox<B>(c); P p = rd<P>(c); w(c, g::point_inside(a, p)); }};
    }
    inline void geom_handlers()
    {
        box_ops<box>("d"); box_ops<ibox>("i");
        ops["ceil"] = {D, [](cur &c) { wr(c, g::ceil(rd<pos>(c))); }};
        ops["floor"] = {D, [](cur &c) { wr(c, g::floor(rd<pos>(c))); }};
        // positions
        using arr = std::array<double, dim>;
        ops["p+p"] = {2 * D, [](cur &c) { auto a = rd<pos>(c), b = rd<pos>(c); wr(c, a + b); a += b; wr(c, a); }};
        ops["p-p"] = {2 * D, [](cur &c) { auto a = rd<pos>(c), b = rd<pos>(c); wr(c, a - b); a -= b; wr(c, a); }};
        ops["p*p"] = {2 * D, [](cur &c) { auto a = rd<pos>(c), b = rd<pos>(c); wr(c, a * b); a *= b; wr(c, a); }};
        ops["p*a"] = {2 * D, [](cur &c) { auto a = rd<pos>(c); auto b = rd<arr>(c); wr(c, a * b); a *= b; wr(c, a); }};
        ops["ip*a"] = {2 * D, [](cur &c) { auto a = rd<ipos>(c); auto b = rd<arr>(c); wr(c, a * b); }};
        ops["p/a"] = {2 * D, [](cur &c) { auto a = rd<pos>(c); auto b = rd<arr>(c); wr(c, a / b); a /= b; wr(c, a); }};
        ops["p+v"] = {2 * D, [](cur &c) { auto a = rd<pos>(c); auto b = rd<vel>(c); wr(c, a + b); a += b; wr(c, a); }};
        ops["p+s"] = {D + 1, [](cur &c) { auto a = rd<pos>(c); double s = c.d(); wr(c, a + s); a += s; wr(c, a); }};
        ops["p-s"] = {D + 1, [](cur &c) { auto a = rd<pos>(c); double s = c.d(); wr(c, a - s); a -= s; wr(c, a); }};
        ops["p/s"] = {D + 1, [](cur &c) { auto a = rd<pos>(c); double s = c.d(); wr(c, a / s); a /= s; wr(c, a); }};
        ops["ip+ip"] = {2 * D, [](cur &c) { auto a = rd<ipos>(c), b = rd<ipos>(c); wr(c, a + b); }};
        ops["ip-ip"] = {2 * D, [](cur &c) { auto a = rd<ipos>(c), b = rd<ipos>(c); wr(c, a - b); }};
        // vectors
        ops["v+v"] = {2 * D, [](cur &c) { auto a = rd<vec>(c), b = rd<vec>(c); wr(c, a + b); a += b; wr(c, a); }};
        ops["v-v"] = {2 * D, [](cur &c) { auto a = rd<vec>(c), b = rd<vec>(c); a -= b; wr(c, a); }};
        ops["v*v"] = {2 * D, [](cur &c) { auto a = rd<vec>(c), b = rd<vec>(c); a *= b; wr(c, a); }};
        ops["v+u"] = {2 * D, [](cur &c) { auto a = rd<vec>(c); auto b = rd<vel>(c); a += b; wr(c, a); }};
        ops["v-u"] = {2 * D, [](cur &c) { auto a = rd<vec>(c); auto b = rd<vel>(c); wr(c, a - b); }};
        ops["u-v"] = {2 * D, [](cur &c) { auto a = rd<vel>(c); auto b = rd<vec>(c); wr(c, a - b); }};
        ops["v*s"] = {D + 1, [](cur &c) { auto a = rd<vec>(c); double s = c.d(); wr(c, a * s); wr(c, s * a); a *= s; wr(c, a); }};
        ops["v/s"] = {D + 1, [](cur &c) { auto a = rd<vec>(c); double s = c.d(); wr(c, a / s); a /= s; wr(c, a); }};
        ops["v/i"] = {D + 1, [](cur &c) { auto a = rd<vec>(c); int s = (int)c.d(); wr(c, a / s); }};
        ops["-v"] = {D, [](cur &c) { auto a = rd<vec>(c); wr(c, -a); }};
        ops["vecs"] = {D, [](cur &c) { auto a = rd<vel>(c); pos p; for (int i = 0; i < D; ++i) p[i] = a[i]; vec v(a), q(p); wr(c, v); wr(c, q); }};
        // forces and velocities
        ops["u+u"] = {2 * D, [](cur &c) { auto a = rd<vel>(c), b = rd<vel>(c); wr(c, a + b); a += b; wr(c, a); }};
        ops["f+f"] = {2 * D, [](cur &c) { auto a = rd<frc>(c), b = rd<frc>(c); wr(c, a + b); a += b; wr(c, a); }};
        ops["f-f"] = {2 * D, [](cur &c) { auto a = rd<frc>(c), b = rd<frc>(c); wr(c, a - b); a -= b; wr(c, a); }};
        ops["f*s"] = {D + 1, [](cur &c) { auto a = rd<frc>(c); double s = c.d(); wr(c, a * s); wr(c, s * a); a *= s; wr(c, a); }};
        ops["f+s"] = {D + 1, [](cur &c) { auto a = rd<frc>(c); double s = c.d(); wr(c, a + s); wr(c, s + a); a += s; wr(c, a); }};
        ops["ffill"] = {D + 1, [](cur &c) { auto a = rd<frc>(c); a.fill(c.d()); wr(c, a); }};
        // cross products
#if DIM == 2
        ops["cross"] = {4, [](cur &c) { auto a = rd<vec>(c), b = rd<vec>(c); pos p; for (int i = 0; i < 2; ++i) p[i] = b[i]; w(c, g::cross_product(a, b)); w(c, g::cross_product(a, p)); }};
        ops["rot"] = {3, [](cur &c) { double r = c.d(); auto x = rd<vec>(c); wr(c, g::cross_product(r, x)); wr(c, g::cross_product(x, r)); }};
#else
        ops["cross"] = {6, [](cur &c) { auto a = rd<vec>(c), b = rd<vec>(c); wr(c, g::cross_product(a, b)); }};
#endif
        // quaternions
        ops["quat"] = {5 + D, [](cur &c) { auto q = quat(c); auto p = rd<pos>(c); auto r = q.rotate(p), b = q.conj().rotate(r); wr(c, r); wr(c, b); double s = 0; for (int i = 0; i < 4; ++i) s += q.components_[i] * q.components_[i]; w(c, s); w(c, q.is_rotate()); }};
        // shapes
        ops["bbox"] = {SW, [](cur &c) { with_shape(c, [&](auto &S) { wbox(c, S.bounding_box()); }); }};
        ops["ibox"] = {SW + D, [](cur &c) { with_shape(c, [&](auto &S) { auto h = rd<std::array<double, dim>>(c); wbox(c, S.bounding_box(h)); }); }};
        ops["implicit"] = {SW + D, [](cur &c) { with_shape(c, [&](auto &S) { auto p = rd<pos>(c); w(c, S.implicit(p)); w(c, S.contains(p)); }); }};
        ops["centre"] = {SW, [](cur &c) { with_shape(c, [&](auto &S) { wr(c, S.center_); wr(c, S.shape_factors_); }); }};
#if DIM == 2
        ops["at"] = {SW + 2, [](cur &c) { with_shape(c, [&](auto &S) { double u = c.d(), u2 = c.d(); wr(c, S.at(u)); wr(c, S.radial(u)); auto s = S.surface(std::vector<double>{u2, u}); auto r = S.radial_vector(std::vector<double>{u, u2}); wr(c, s[1]); wr(c, r[0]); w(c, s.size()); w(c, r.size()); }); }};
        ops["const"] = {3, [](cur &c) { auto p = rd<pos>(c); g::circle<> S{p, c.d()}; w(c, S.surface_area()); w(c, S.volume()); w(c, S.Cd_R()); w(c, S.Ci_R()); }};
#else
        ops["at"] = {SW + 4, [](cur &c) { with_shape(c, [&](auto &S) { double u = c.d(), v = c.d(), u2 = c.d(), v2 = c.d(); wr(c, S.at(u, v)); wr(c, S.radial(u, v)); auto s = S.surface(std::vector<double>{u2, u}, std::vector<double>{v2, v}); auto r = S.radial_vector(std::vector<double>{u, u2}, std::vector<double>{v, v2}); wr(c, s[1]); wr(c, r[0]); w(c, s.size()); w(c, r.size()); }); }};
        ops["const"] = {4, [](cur &c) { auto p = rd<pos>(c); g::sphere<> S{p, c.d()}; w(c, S.surface_area()); w(c, S.volume()); w(c, S.Cd_R()); w(c, S.Ci_R()); }};
#endif
        auto &H = handlers();
        H["alg"] = [](args const &a) {
            auto in = readbin(get(a, "in")); auto it = ops.find(get(a, "op")); if (it == ops.end()) die("unknown command " + get(a, "op"));
            if (in.size() % it->second.width) die("short read");
            std::vector<double> out; cur c{in.data(), &out};
            for (size_t k = 0; k < in.size() / it->second.width; ++k) { c.p = in.data() + k * it->second.width; it->second.f(c); }
            binout o(get(a, "out")); o.put(out);
        };
        // points of a sampled surface: rows of a shape, one sampling step per direction
        H["sample"] = [](args const &a) {
            auto in = readbin(get(a, "in")); std::vector<double> out; cur c{in.data(), &out}; int W = SW + D - 1; js j; j.kv("ev", "sample"); std::vector<double> n;
            for (size_t k = 0; k < in.size() / W; ++k)
            {
                c.p = in.data() + k * W;
                with_shape(c, [&](auto &S) {
#if DIM == 2
                    auto s = S.surface(c.d());
#else
                    std::array<double, 2> dp; dp[0] = c.d(); dp[1] = c.d(); auto s = S.surface(dp);
#endif
                    n.push_back(s.size()); for (auto &p : s) wr(c, p);
                });
            }
            { binout o(get(a, "out")); o.put(out); } j.arr("n", n); emit(j);
        };
        H["iterate"] = [](args const &a) {
            auto in = readbin(get(a, "in")); std::vector<double> out, n; js j; j.kv("ev", "iterate");
            for (size_t k = 0; k < in.size() / (2 * D); ++k)
            {
                cur c{in.data() + k * 2 * D, &out}; auto b = rbox<ibox>(c); double m = 0;
                cafes::algorithm::iterate(b, [&](auto const &p) { ++m; wr(c, p); }); n.push_back(m);
            }
            { binout o(get(a, "out")); o.put(out); } j.arr("n", n); emit(j);
        };
        H["linspace"] = [](args const &a) {
            auto in = readbin(get(a, "in")); std::vector<double> out, n; js j; j.kv("ev", "linspace");
            for (size_t k = 0; k < in.size() / 4; ++k) { const double *p = &in[4 * k]; auto v = g::linspace(p[0], p[1], (int)p[2], p[3] != 0); n.push_back(v.size()); out.insert(out.end(), v.begin(), v.end()); }
            { binout o(get(a, "out")); o.put(out); } j.arr("n", n); emit(j);
        };
    }
} // namespace hx
#ifndef NO_MAIN
int main(int argc, char **argv) { hx::base_handlers(); hx::geom_handlers(); return hx::run(argc, argv); }
#endif
