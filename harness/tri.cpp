// Triangulations of point sets: the surface of a closed body in 3-D, the plane region of a set of points in 2-D.
#define NO_MAIN
#include "geom.cpp"
#include <particle/geometry/triangulation.hpp>
namespace hx
{
    // the triangles of each point set, as point numbers
    inline void tri_handlers()
    {
        auto &H = handlers();
        H["tri"] = [](args const &a) {
            auto in = readbin(get(a, "in")); auto counts = getv(a, "counts"); std::vector<double> out, n; js j; j.kv("ev", "tri");
            std::size_t at = 0;
            for (double m : counts)
            {
                std::vector<pos> pts((std::size_t)m);
                for (auto &p : pts) for (int i = 0; i < D; ++i) p[i] = in[at++];
                auto t = g::triangulation(pts); n.push_back(t.size());
                for (auto const &e : t) for (int v : e) out.push_back(v);
            }
            { binout o(get(a, "out")); o.put(out); } j.arr("n", n); emit(j);
        };
#if DIM == 3
        // the surface of a body, sampled and triangulated as in the demo
        H["trisurf"] = [](args const &a) {
            auto in = readbin(get(a, "in")); std::vector<double> out, n, m; js j; j.kv("ev", "trisurf"); std::vector<double> P;
            for (std::size_t k = 0; k < in.size() / (SW + 2); ++k)
            {
                cur c{in.data() + k * (SW + 2), &P};
                with_shape(c, [&](auto &S) {
                    std::array<double, 2> dp; dp[0] = c.d(); dp[1] = c.d(); auto s = S.surface(dp);
                    for (auto &p : s) wr(c, p);
                    auto t = g::triangulation(s); m.push_back(s.size()); n.push_back(t.size());
                    for (auto const &e : t) for (int v : e) out.push_back(v);
                });
            }
            { binout o(get(a, "out")); o.put(out); } { binout o(get(a, "pts")); o.put(P); } j.arr("n", n); j.arr("m", m); emit(j);
        };
#endif
    }
} // namespace hx
int main(int argc, char **argv) { hx::base_handlers(); hx::tri_handlers(); return hx::run(argc, argv); }
