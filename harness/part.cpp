// Commands that drive particles: discretisation of shapes, surface exchange, projections, control, forces, SEM and DtoN.
#include "fem_cmds.hpp"
namespace hx
{
#if DIM == 2
    using shape_t = cafes::geometry::circle<>;
    using cross_t = double;
    using dpart_t = double;
#else
    using shape_t = cafes::geometry::sphere<>;
    using cross_t = cafes::geometry::vector<double, 3>;
    using dpart_t = std::array<double, 2>;
#endif
    using part_t = cafes::particle<shape_t>;
    using gvec = cafes::geometry::vector<double, dim>;
    // stands for the fluid problem where only its data (mesh, spacing, right-hand side, solution) are used
    struct fluid_t
    {
        Ctx *ctx = nullptr; Vec rhs = nullptr, sol = nullptr; int solves = 0, rhss = 0;
        PetscErrorCode setup_RHS() { ++rhss; return 0; }
        PetscErrorCode solve() { ++solves; return 0; }
    };
    using PCtx = cafes::problem::particle_context<dim, shape_t, fluid_t>;
    static std::vector<part_t> g_parts;
    static fluid_t g_fluid;
    static std::vector<std::vector<std::pair<cafes::geometry::position<int, dim>, cafes::geometry::position<double, dim>>>> g_surf;
    static std::vector<std::vector<gvec>> g_rad, g_g;
    static std::vector<int> g_nb, g_num;
    static std::size_t g_size = 0, g_scale = 4;
    static PCtx *g_pctx = nullptr;

    inline std::vector<double> cvec(double c) { return {c}; }
    template<typename V> std::vector<double> cvec(V const &v) { std::vector<double> r; for (int d = 0; d < 3; ++d) r.push_back(v[d]); return r; }
    inline std::vector<double> flatg(std::vector<gvec> const &v) { std::vector<double> r; for (auto &x : v) for (std::size_t d = 0; d < dim; ++d) r.push_back(x[d]); return r; }
    inline std::vector<double> flatc(std::vector<cross_t> const &v) { std::vector<double> r; for (auto &x : v) for (double y : cvec(x)) r.push_back(y); return r; }
    inline dpart_t dpart_of(args const &a)
    {
        auto v = getv(a, "dpart");
#if DIM == 2
        return v[0];
#else
        return {{v[0], v[1]}};
#endif
    }
    // surface values as functions of the absolute position: independent of which process holds the point
    inline void fill_g(std::vector<double> const &s)
    {
        g_g.assign(g_parts.size(), {});
        for (std::size_t ip = 0; ip < g_surf.size(); ++ip)
            for (auto &sp : g_surf[ip])
            {
                PetscReal x[3] = {0, 0, 0}; gvec v;
                for (std::size_t d = 0; d < dim; ++d) x[d] = sp.first[d] * g_h[d] + sp.second[d];
                for (std::size_t d = 0; d < dim; ++d) v[d] = poly(slots[(int)s[d]], x);
                g_g[ip].push_back(v);
            }
    }
    template<typename S, typename R> std::vector<double> flatsurf(S const &surf, R const &rad)
    {
        std::vector<double> rec;
        for (std::size_t ip = 0; ip < surf.size(); ++ip)
            for (std::size_t i = 0; i < surf[ip].size(); ++i)
            {
                rec.push_back(ip);
                for (std::size_t d = 0; d < dim; ++d) rec.push_back(surf[ip][i].first[d]);
                for (std::size_t d = 0; d < dim; ++d) rec.push_back(surf[ip][i].second[d]);
                for (std::size_t d = 0; d < dim; ++d) rec.push_back(i < rad[ip].size() ? rad[ip][i][d] : std::nan(""));
            }
        return rec;
    }
    template<typename S, typename R> std::vector<double> flatvals(S const &surf, R const &g)
    {
        std::vector<double> rec;
        for (std::size_t ip = 0; ip < surf.size(); ++ip)
            for (std::size_t i = 0; i < surf[ip].size(); ++i)
            {
                rec.push_back(ip);
                for (std::size_t d = 0; d < dim; ++d) rec.push_back(surf[ip][i].first[d] * g_h[d] + surf[ip][i].second[d]);
                for (std::size_t d = 0; d < dim; ++d) rec.push_back(g[ip][i][d]);
            }
        return rec;
    }
    inline Vec control(str const &f)
    { // distributed vector with the layout of the control unknowns; value k of the file goes to global unknown k
        Vec x; VecCreateMPI(PETSC_COMM_WORLD, g_size * dim, PETSC_DECIDE, &x);
        auto v = readbin(f); PetscInt lo, hi; VecGetOwnershipRange(x, &lo, &hi); PetscScalar *p; VecGetArray(x, &p);
        for (PetscInt i = lo; i < hi; ++i) p[i - lo] = v[i % v.size()];
        VecRestoreArray(x, &p); return x;
    }
    inline std::vector<double> localv(Vec x)
    {
        PetscInt n; const PetscScalar *p; VecGetLocalSize(x, &n); VecGetArrayRead(x, &p); std::vector<double> r(p, p + n); VecRestoreArrayRead(x, &p); return r;
    }

#if DIM == 2
    // coupled solvers: right-hand side, operator applied to a given control, layout of the controls
    template<typename S> void coupled(S &s, args const &a, str const &kind)
    {
        using C = typename std::remove_pointer<decltype(s.ctx)>::type;
        auto ids = readbin(get(a, "ids")); from_nat(g_dm, g_st->sol, ids.data());
        js j; j.kv("ev", "coupled"); j.kv("kind", kind);
        VecSet(s.rhs, 7.); chk(cafes::problem::compute_y<2, C>(*s.ctx, s.rhs), "compute_y"); j.raw("y0", jarr(gather(localv(s.rhs))));
        chk(s.setup_RHS(), "setup_RHS"); chk(s.setup_KSP(), "setup_KSP"); j.raw("rhs", jarr(gather(localv(s.rhs))));
        // the homogeneous operator, as the Krylov method uses it
        s.ctx->compute_rhs = false; s.ctx->add_rigid_motion = false; s.ctx->compute_singularity = false;
        Vec x, y; VecDuplicate(s.rhs, &x); VecDuplicate(s.rhs, &y); auto v = readbin(get(a, "x"));
        PetscInt lo, hi; VecGetOwnershipRange(x, &lo, &hi); PetscScalar *p; VecGetArray(x, &p); for (PetscInt i = lo; i < hi; ++i) p[i - lo] = v[i % v.size()]; VecRestoreArray(x, &p);
        chk(MatMult(s.A, x, y), "operator"); j.raw("x", jarr(gather(localv(x)))).raw("y", jarr(gather(localv(y))));
        std::vector<double> nb(s.nb_surf_points_.begin(), s.nb_surf_points_.end()); j.raw("nb", jarr(gather(nb))).raw("surf", jarr(gather(flatsurf(s.surf_points_, s.radial_vec_)))); emit(j);
        VecDestroy(&x); VecDestroy(&y);
    }
    template<typename S> void resolve(S &s, args const &a, js &j)
    {
        for (int k = 0; k < geti(a, "times", 1); ++k) chk(s.solve(), "solve");
        KSPConvergedReason r; PetscInt it; KSPGetConvergedReason(s.ksp, &r); KSPGetIterationNumber(s.ksp, &it);
        { binout o(get(a, "out")); o.put(to_nat(g_dm, g_st->sol)); }
        j.kv("reason", (int)r).kv("its", (int)it).raw("x", jarr(gather(localv(s.sol))));
    }
#endif

    inline void part_handlers()
    {
        auto &H = handlers();
        H["pclear"] = [](args const &) {
            g_parts.clear(); g_surf.clear(); g_rad.clear(); g_nb.clear(); g_num.clear(); delete g_pctx; g_pctx = nullptr;
            if (g_fluid.rhs) { VecDestroy(&g_fluid.rhs); VecDestroy(&g_fluid.sol); delete g_fluid.ctx; g_fluid.ctx = nullptr; }
        };
        H["pt"] = [](args const &a) {
            auto c = getv(a, "c"), v = getv(a, "v"), w = getv(a, "w"), f = getv(a, "f"); double r = getd(a, "r"), rho = getd(a, "rho", 1.);
            v.resize(dim); f.resize(dim); w.resize(3);
#if DIM == 2
            auto se = cafes::make_circle({c[0], c[1]}, r);
            cafes::physics::force<2> F{f[0], f[1]}; cafes::physics::velocity<2> V{v[0], v[1]};
            if (!get(a, "byvel").empty()) { g_parts.push_back(cafes::make_particle_with_velocity(se, V, w[0])); g_parts.back().rho_ = rho; return; }
            g_parts.push_back(cafes::make_particle_with_force(se, F, rho)); g_parts.back().velocity_ = V; g_parts.back().angular_velocity_ = w[0];
#else
            auto se = cafes::make_sphere({c[0], c[1], c[2]}, r);
            cafes::physics::force<3> F{f[0], f[1], f[2]}; cafes::physics::velocity<3> V{v[0], v[1], v[2]};
            g_parts.push_back(cafes::make_particle_with_force(se, F, rho)); g_parts.back().velocity_ = V; g_parts.back().angular_velocity_ = cafes::geometry::vector<double, 3>{w[0], w[1], w[2]};
#endif
        };
        // discretise the particles on the current mesh
        H["materials"] = [](args const &a) {
            g_scale = geti(a, "scale", 4);
            auto box = cafes::fem::get_DM_bounds<dim>(g_dm, 0);
            for (int k = 0; k <= geti(a, "twice"); ++k) // discretising again replaces what the previous call stored
            g_size = cafes::set_materials(g_parts, g_surf, g_rad, g_nb, g_num, box, g_h, dpart_of(a), g_scale);
            g_fluid.ctx = new Ctx{g_dm, g_h, nullptr};
            if (!get(a, "bc").empty()) g_fluid.ctx->set_dirichlet_bc(bc_of(getv(a, "bc")));
            DMCreateGlobalVector(g_dm, &g_fluid.rhs); DMCreateGlobalVector(g_dm, &g_fluid.sol);
            g_pctx = new PCtx{g_fluid, g_parts, g_surf, g_rad, g_nb, g_num, g_scale, false, false, false, nullptr};
            js j; j.kv("ev", "materials").raw("size", jarr(gather({(double)g_size}))).raw("surf", jarr(gather(flatsurf(g_surf, g_rad))));
            std::vector<double> nb(g_nb.begin(), g_nb.end()), nm(g_num.begin(), g_num.end());
            j.raw("nb", jarr(gather(nb))).raw("num", jarr(gather(nm)));
            std::vector<double> pts; // fluid points, particle by particle
            for (auto &p : g_parts)
            {
                auto pb = p.bounding_box(g_h);
                if (!cafes::geometry::intersect(box, pb)) continue;
                for (auto &q : cafes::find_fluid_points_insides(p, cafes::geometry::overlap_box(box, pb), g_h)) { pts.push_back(&p - &g_parts[0]); for (std::size_t d = 0; d < dim; ++d) pts.push_back(q[d]); }
            }
            j.raw("points", jarr(gather(pts))); emit(j);
        };
        // fluid velocity seen at the surface points (rigid=1: minus the particle's own rigid motion)
        H["surfinterp"] = [](args const &a) {
            auto in = readbin(get(a, "in")); from_nat(g_dm, g_fluid.sol, in.data());
            std::vector<std::vector<gvec>> g(g_parts.size()); for (std::size_t i = 0; i < g.size(); ++i) { g[i].resize(g_surf[i].size()); for (auto &v : g[i]) v.fill(99.); }
            chk(cafes::problem::interp_fluid_to_surf(*g_pctx, g, geti(a, "rigid") != 0, false), "interp_fluid_to_surf");
            auto b = to_nat(g_dm, g_fluid.sol); double ch = 0; for (std::size_t i = 0; i < b.size(); ++i) ch += b[i] != in[i];
            js j; j.kv("ev", "surfinterp").raw("g", jarr(gather(flatvals(g_surf, g)))).kv("input_changed", ch); emit(j);
        };
        // spread surface values to the right-hand side
        H["spread"] = [](args const &a) {
            fill_g(getv(a, "g")); VecSet(g_fluid.rhs, 3.5);
            chk(cafes::problem::SL_to_Rhs(*g_pctx, g_g), "SL_to_Rhs");
            { binout o(get(a, "out")); o.put(to_nat(g_dm, g_fluid.rhs)); }
        };
        // remove the rigid part of surface values
        H["layer"] = [](args const &a) {
            fill_g(getv(a, "g"));
            std::vector<gvec> mean(g_parts.size()); std::vector<cross_t> cr(g_parts.size());
            chk(cafes::problem::simple_layer(*g_pctx, g_g, mean, cr), "simple_layer");
            js j; j.kv("ev", "layer").raw("g", jarr(gather(flatvals(g_surf, g_g)))).raw("mean", jarr(gather(flatg(mean)))).raw("cross", jarr(gather(flatc(cr)))); emit(j);
        };
        H["project"] = [](args const &a) {
            auto in = readbin(get(a, "in")); from_nat(g_dm, g_fluid.sol, in.data());
            std::vector<gvec> mean(g_parts.size()); std::vector<cross_t> cr(g_parts.size());
            for (auto &m : mean) m.fill(5.); // stale content
            chk(cafes::problem::projection<dim, PCtx>(*g_pctx, mean, cr), "projection");
            Vec y; VecCreateMPI(PETSC_COMM_WORLD, g_size * dim, PETSC_DECIDE, &y); VecSet(y, 7.);
            chk(cafes::problem::compute_y(*g_pctx, y, mean, cr), "compute_y");
            js j; j.kv("ev", "project").raw("mean", jarr(gather(flatg(mean)))).raw("cross", jarr(gather(flatc(cr)))).raw("y", jarr(gather(localv(y))));
            VecSet(y, 7.); chk(cafes::problem::compute_y<dim, PCtx>(*g_pctx, y), "compute_y"); j.raw("y0", jarr(gather(localv(y)))); emit(j); VecDestroy(&y);
        };
        // control -> right-hand side (added), and its resultants
        H["control"] = [](args const &a) {
            Vec x = control(get(a, "x")); auto in = readbin(get(a, "in")); from_nat(g_dm, g_fluid.rhs, in.data());
            str kind = get(a, "kind", "set"); int r0 = g_fluid.rhss;
            if (kind == "set") chk(cafes::problem::set_rhs_problem<dim, PCtx>(*g_pctx, x, geti(a, "forces") != 0), "set_rhs_problem");
            else { g_pctx->compute_rhs = geti(a, "rhs") != 0; chk(cafes::problem::init_problem<dim, PCtx>(*g_pctx, x, geti(a, "forces") != 0), "init_problem"); g_pctx->compute_rhs = false; }
            { binout o(get(a, "out")); o.put(to_nat(g_dm, g_fluid.rhs)); }
            std::vector<gvec> F(g_parts.size()); std::vector<cross_t> T(g_parts.size());
            std::vector<int> sz(g_parts.size(), geti(a, "isize", 1));
            chk(cafes::forces_torques_with_control<dim>(g_parts, x, cafes::fem::get_DM_bounds<dim>(g_dm, 0), F, T, sz, g_h, false), "forces_torques_with_control");
            js j; j.kv("ev", "control").raw("x", jarr(gather(localv(x)))).raw("forces", jarr(gather(flatg(F)))).raw("torques", jarr(gather(flatc(T)))).kv("setups", g_fluid.rhss - r0); emit(j);
            VecDestroy(&x);
        };
        // two-particle lubrication correction added to the fluid right-hand side
        H["singrhs"] = [](args const &a) {
            auto in = readbin(get(a, "in")); from_nat(g_dm, g_fluid.rhs, in.data());
            chk(cafes::singularity::add_singularity_in_fluid<dim, PCtx>(*g_pctx), "add_singularity_in_fluid");
            { binout o(get(a, "out")); o.put(to_nat(g_dm, g_fluid.rhs)); }
        };
        // lubrication forces on the particles: through both entry points
        H["singforces"] = [](args const &a) {
            std::size_t N = geti(a, "N", 100); std::vector<cafes::physics::force<dim>> F(g_parts.size());
            for (auto &x : F) x.fill(7.5); // what an array held before does not count
            auto kept = g_parts; for (auto &p : g_parts) p.force_.fill(-3.25);
            chk(cafes::singularity::compute_singular_forces<dim>(g_parts, F, g_h, N), "compute_singular_forces");
            std::vector<double> f1, f2, f3; for (auto &x : F) for (std::size_t d = 0; d < dim; ++d) f1.push_back(x[d]);
            struct { std::vector<part_t> &particles; fluid_t &problem; } c{g_parts, g_fluid};
            chk(cafes::singularity::compute_singular_forces<dim>(c, N), "compute_singular_forces");
            for (auto &p : g_parts) for (std::size_t d = 0; d < dim; ++d) f2.push_back(p.force_[d]);
            for (std::size_t k = 0; k < kept.size(); ++k) g_parts[k].force_ = kept[k].force_;
            std::vector<gvec> G(g_parts.size()); std::vector<cross_t> T(g_parts.size()); std::vector<int> sz(g_parts.size(), 1);
            Vec x; VecCreateMPI(PETSC_COMM_WORLD, g_size * dim, PETSC_DECIDE, &x); VecSet(x, 0.);
            chk(cafes::forces_torques_with_control<dim>(g_parts, x, cafes::fem::get_DM_bounds<dim>(g_dm, 0), G, T, sz, g_h, true), "forces_torques_with_control");
            for (auto &v : G) for (std::size_t d = 0; d < dim; ++d) f3.push_back(v[d]);
            VecDestroy(&x);
            std::vector<double> f4; // of one pair: the stress integrated over the first particle
#if DIM == 2
            for (std::size_t i = 0; i < g_parts.size(); ++i)
                for (std::size_t k = i + 1; k < g_parts.size(); ++k)
                {
                    cafes::singularity::singularity<shape_t, dim> s(g_parts[i], g_parts[k], g_h[0]);
                    if (!s.is_singularity_) continue;
                    auto f = cafes::singularity::compute_singular_forces(s, N);
                    for (double v : {(double)i, (double)k, (double)f[0], (double)f[1]}) f4.push_back(v);
                }
#endif
            js j; j.kv("ev", "singforces").raw("f4", jarr(gather(f4))).raw("f1", jarr(gather(f1))).raw("f2", jarr(gather(f2))).raw("f3", jarr(gather(f3))); emit(j);
        };
#if DIM == 2
        H["singsol"] = [](args const &a) {
            auto in = readbin(get(a, "in")); from_nat(g_dm, g_fluid.sol, in.data());
            chk(cafes::singularity::add_singularity_to_last_sol<dim, PCtx>(*g_pctx, g_fluid.sol), "add_singularity_to_last_sol");
            { binout o(get(a, "out")); o.put(to_nat(g_dm, g_fluid.sol)); }
        };
        using SEM_t = cafes::problem::SEM<shape_t, 2, stokes_t>;
        using DTON_t = cafes::problem::DtoN<shape_t, 2, stokes_t>;
        static SEM_t *sem = nullptr; static DTON_t *dton = nullptr;
        H["sem"] = [](args const &a) {
            sem = new SEM_t(cafes::make_SEM(g_parts, *g_st, getd(a, "dpart")));
            for (int k = 0; k <= geti(a, "twice"); ++k) chk(sem->create_Mat_and_Vec(), "create_Mat_and_Vec");
            VecSet(sem->sol, 0.);
            coupled(*sem, a, "sem");
        };
        H["semsolve"] = [](args const &a) {
            js j; j.kv("ev", "solve"); resolve(*sem, a, j);
            std::vector<gvec> F(g_parts.size()); std::vector<double> T(g_parts.size());
            chk(sem->get_new_forces_torques(F, T), "get_new_forces_torques"); chk(sem->get_new_velocities(), "get_new_velocities");
            std::vector<double> V; for (auto &p : sem->parts_) { V.push_back(p.velocity_[0]); V.push_back(p.velocity_[1]); }
            j.raw("forces", jarr(gather(flatg(F)))).raw("torques", jarr(gather(T))).raw("vel", jarr(gather(V))); emit(j);
        };
        H["dton"] = [](args const &a) {
            dton = new DTON_t(cafes::make_DtoN(g_parts, *g_st, getd(a, "dpart")));
            dton->use_sing = geti(a, "sing") != 0;
            for (int k = 0; k <= geti(a, "twice"); ++k) chk(dton->create_Mat_and_Vec(), "create_Mat_and_Vec");
            VecSet(dton->sol, 0.);
            coupled(*dton, a, "dton");
        };
        // a second time step on the same object: right-hand side again, then solve
        H["semagain"] = [](args const &a) { js j; j.kv("ev", "again"); chk(sem->setup_RHS(), "setup_RHS"); j.raw("rhs", jarr(gather(localv(sem->rhs)))); resolve(*sem, a, j); emit(j); };
        H["dtonagain"] = [](args const &a) { js j; j.kv("ev", "again"); chk(dton->setup_RHS(), "setup_RHS"); j.raw("rhs", jarr(gather(localv(dton->rhs)))); resolve(*dton, a, j); emit(j); };
        H["dtonsolve"] = [](args const &a) { js j; j.kv("ev", "solve"); resolve(*dton, a, j); emit(j); };
#endif
    }
} // namespace hx
int main(int argc, char **argv) { hx::base_handlers(); hx::fem_handlers(); hx::part_handlers(); return hx::run(argc, argv); }
