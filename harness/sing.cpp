// Evaluates the singular lubrication fields of a pair of particles: rows of inputs to rows of outputs.
#include "common.hpp"
#include <particle/singularity/UandPTang.hpp>
#include <particle/singularity/singularity.hpp>
namespace hx
{
    namespace g = cafes::geometry;
    using pos = g::position<double, dim>;
    constexpr int D = dim;
#if DIM == 2
    using shape = g::circle<>;
#else
    using shape = g::sphere<>;
#endif
    struct quiet { quiet() { std::cout.setstate(std::ios::failbit); } ~quiet() { std::cout.clear(); } };
    inline pos rd(const double *&p) { pos x; for (int i = 0; i < D; ++i) x[i] = *p++; return x; }
    inline cafes::particle<shape> mk(const double *&p)
    { // radius, centre, velocity
        double r = *p++; pos c = rd(p); cafes::physics::velocity<dim> v; for (int i = 0; i < D; ++i) v[i] = *p++;
        typename cafes::particle<shape>::angular_velocity_type w{};
        return cafes::particle<shape>(shape(c, r), v, w);
    }
    constexpr int PW = 1 + 2 * D;
    inline void sing_handlers()
    {
        auto &H = handlers();
        // rows: curvatures, gap, relative tangential velocity, l, eps, point: the functions of the tangential lubrication flow
        H["tang"] = [](args const &a) {
            namespace S = cafes::singularity;
            auto in = readbin(get(a, "in")); const int W = 6 + D; if (in.size() % W) die("short read");
            std::vector<double> o;
#if DIM == 2
            auto fs = {S::ux_sing_tangMvt2D, S::uz_sing_tangMvt2D, S::dxux_sing_tangMvt2D, S::dzux_sing_tangMvt2D, S::dxuz_sing_tangMvt2D, S::dzuz_sing_tangMvt2D, S::DIVCART_tangMvt2D, S::p_sing_withT_tangMvt2D};
#else
            auto fs = {S::ux_sing_tangMvt3D, S::uy_sing_tangMvt3D, S::uz_sing_tangMvt3D, S::dxux_sing_tangMvt3D, S::dyux_sing_tangMvt3D, S::dzux_sing_tangMvt3D, S::dxuy_sing_tangMvt3D, S::dyuy_sing_tangMvt3D, S::dzuy_sing_tangMvt3D,
                       S::dxuz_sing_tangMvt3D, S::dyuz_sing_tangMvt3D, S::dzuz_sing_tangMvt3D, S::DIVCART_tangMvt3D, S::p_sing_withT_tangMvt3D};
#endif
            for (size_t k = 0; k < in.size() / W; ++k)
            {
                const double *q = &in[k * W]; const double *x = q + 6; pos X = rd(x);
                for (auto f : fs) o.push_back(f(X, q[0], q[1], q[2], q[3], q[4], q[5], nullptr));
            }
            binout w(get(a, "out")); w.put(o);
        };
        // rows: particle 1, particle 2, h, point in space, point in the frame of the pair, number of moves of the point
        H["fields"] = [](args const &a) {
            quiet q;
            auto in = readbin(get(a, "in")); const int W = 2 * PW + 1 + 2 * D; if (in.size() % W) die("short read");
            std::vector<double> o; auto wr = [&](auto const &x) { for (int i = 0; i < D; ++i) o.push_back(x[i]); };
            for (size_t k = 0; k < in.size() / W; ++k)
            {
                const double *p = &in[k * W];
                auto p1 = mk(p), p2 = mk(p); double h = *p++;
                cafes::singularity::singularity<shape, dim> s(p1, p2, h);
                pos x = rd(p), xr = rd(p);
                o.push_back(s.is_singularity_); o.push_back(s.contact_length_); o.push_back(s.cutoff_dist_);
                auto ref = s.get_pos_in_part_ref(x); wr(ref); auto back = s.get_pos_from_part_ref(ref); wr(back);
                wr(s.get_pos_from_part_ref(xr));
                for (int i = 0; i < D; ++i) wr(s.base_[i]);
                wr(s.get_u_sing(x)); auto G = s.get_grad_u_sing(x); for (int i = 0; i < D; ++i) wr(G[i]); o.push_back(s.get_p_sing(x));
                wr(s.get_u_sing_ref(xr)); auto R = s.get_grad_u_sing_ref(xr); for (int i = 0; i < D; ++i) wr(R[i]); o.push_back(s.get_p_sing_ref(xr));
                std::array<double, dim> hh; hh.fill(h); auto b = s.get_box(hh);
                wr(b.bottom_left); wr(b.upper_right);
            }
            binout w(get(a, "out")); w.put(o);
        };
    }
} // namespace hx
int main(int argc, char **argv) { hx::base_handlers(); hx::sing_handlers(); return hx::run(argc, argv); }
