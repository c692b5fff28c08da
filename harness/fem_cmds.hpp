// Commands that drive meshes, operators, boundary conditions, right-hand sides and solvers.
#pragma once
#include "common.hpp"
namespace hx
{
    using Ctx = cafes::problem::context<dim>;
    using pvec = cafes::petsc::petsc_vec<dim>;
    using method_t = PetscErrorCode (*)(pvec &, pvec &, std::array<double, dim> const &);
    using dmethod_t = PetscErrorCode (*)(pvec &, std::array<double, dim> const &);
    static DM g_dm = nullptr;
    static std::array<double, dim> g_h, g_hp;
    static Mat g_M = nullptr;
    static long chk(PetscErrorCode e, const char *w) { if (e) { std::fprintf(stderr, "ERROR-RETURN %s -> %d\n", w, (int)e); std::fflush(stderr); if (size > 1) MPI_Abort(MPI_COMM_WORLD, 85); _exit(85); } return 0; }

    // leaves non-null rubbish in the stack frames that the next calls use
    __attribute__((noinline)) inline void scribble() { volatile unsigned char t[8192]; for (std::size_t i = 0; i < sizeof t; ++i) t[i] = 0x5b; }
    inline cafes::fem::dirichlet_conditions<dim> bc_of(std::vector<double> const &s)
    {
        // trailing borders may be left out: they are then free
        if (s.size() % dim || s.size() < dim || s.size() > 2 * dim * dim) die("bc slots");
        std::array<std::array<cfn, dim>, 2 * dim> c{};
        std::size_t nb = s.size() / dim;
        for (std::size_t b = 0; b < nb; ++b) for (std::size_t d = 0; d < dim; ++d) c[b][d] = slot((int)s[b * dim + d]);
        scribble();
        switch (nb)
        {
            case 1: return cafes::make_bc<dim>({c[0]});
            case 2: return cafes::make_bc<dim>({c[0], c[1]});
            case 3: return cafes::make_bc<dim>({c[0], c[1], c[2]});
#if DIM == 2
            default: return cafes::make_bc<dim>({c[0], c[1], c[2], c[3]});
#else
            case 4: return cafes::make_bc<dim>({c[0], c[1], c[2], c[3]});
            case 5: return cafes::make_bc<dim>({c[0], c[1], c[2], c[3], c[4]});
            default: return cafes::make_bc<dim>({c[0], c[1], c[2], c[3], c[4], c[5]});
#endif
        }
    }
#if DIM == 2
    using stokes_t = cafes::problem::stokes<2>;
    static stokes_t *g_st = nullptr;
#endif

    // the work vectors a mesh lends come back with whatever their last user left in them
    inline void dirty_pool()
    {
        if (!g_dm) return;
        std::vector<DM> l{g_dm};
        if (is_comp(g_dm)) { DM v, p; DMCompositeGetEntries(g_dm, &v, &p); l.push_back(v); l.push_back(p); }
        for (auto d : l)
        {
            Vec w[6];
            for (int i = 0; i < 3; ++i) { DMGetGlobalVector(d, &w[i]); VecSet(w[i], 1e3 * (i + 1) + .5); }
            int k = 3; if (d != g_dm || !is_comp(g_dm)) for (; k < 6; ++k) { DMGetLocalVector(d, &w[k]); VecSet(w[k], -1e3 * k - .25); }
            for (int i = 3; i < k; ++i) DMRestoreLocalVector(d, &w[i]);
            for (int i = 0; i < 3; ++i) DMRestoreGlobalVector(d, &w[i]);
        }
    }
    inline std::vector<double> da_info(DM da)
    {
        DMDALocalInfo i; DMDAGetLocalInfo(da, &i);
        return {(double)i.dim, (double)i.dof, (double)i.mx, (double)i.my, (double)i.mz, (double)i.xs, (double)i.ys, (double)i.zs, (double)i.xm, (double)i.ym, (double)i.zm, (double)i.bx, (double)i.by, (double)i.bz,
                (double)i.gxs, (double)i.gys, (double)i.gzs, (double)i.gxm, (double)i.gym, (double)i.gzm, (double)i.sw};
    }
    template<typename B> std::vector<double> flat(B const &b)
    {
        std::vector<double> r;
        for (std::size_t d = 0; d < dim; ++d) r.push_back(b.bottom_left[d]);
        for (std::size_t d = 0; d < dim; ++d) r.push_back(b.upper_right[d]);
        return r;
    }
    inline void dump_mesh(DM dm)
    {
        js j; j.kv("ev", "mesh");
        if (is_comp(dm))
        {
            DM v, p; DMCompositeGetEntries(dm, &v, &p);
            j.raw("vel", jarr(gather(da_info(v)))).raw("pres", jarr(gather(da_info(p))));
            j.raw("vel_elem", jarr(gather(flat(cafes::fem::get_DM_bounds<dim>(dm, 0))))).raw("vel_pts", jarr(gather(flat(cafes::fem::get_DM_bounds<dim>(dm, 0, false)))));
            j.raw("pres_elem", jarr(gather(flat(cafes::fem::get_DM_bounds<dim>(dm, 1))))).raw("pres_pts", jarr(gather(flat(cafes::fem::get_DM_bounds<dim>(dm, 1, false)))));
            j.raw("vel_elem1", jarr(gather(flat(cafes::fem::get_DM_bounds<dim>(v))))).raw("pres_pts1", jarr(gather(flat(cafes::fem::get_DM_bounds<dim>(p, false)))));
            auto gb = cafes::fem::get_global_bounds<dim>(v); j.arr("vel_global", gb);
            auto bt = cafes::fem::get_boundary_type<dim>(v); j.arr("vel_btype", bt);
            PetscInt lc; Vec g; DMCreateGlobalVector(dm, &g); VecGetLocalSize(g, &lc); VecDestroy(&g);
            int ls, ts; chk(cafes::fem::get_DM_sizes(dm, ls, ts), "get_DM_sizes");
            j.raw("sizes", jarr(gather({(double)ls, (double)ts, (double)lc})));
        }
        else
        {
            j.raw("vel", jarr(gather(da_info(dm))));
            int ls, ts; chk(cafes::fem::get_DM_sizes(dm, ls, ts), "get_DM_sizes");
            j.raw("sizes", jarr(gather({(double)ls, (double)ts})));
        }
        emit(j);
    }

    inline Mat pick(str const &op, args const &a, Ctx *&keep)
    {
        // builds the library's own operator of the requested kind on the current mesh
        DM v, p; DMCompositeGetEntries(g_dm, &v, &p);
        bool st = op.find("strain") != str::npos;
        auto hh = getv(a, "h"); std::array<double, dim> h = g_h;
        if (hh.size() == dim) for (std::size_t d = 0; d < dim; ++d) h[d] = hh[d];
        method_t m = st ? (method_t)cafes::fem::strain_tensor_mult : (method_t)cafes::fem::laplacian_mult;
        if (op == "stokes_lap" || op == "stokes_strain")
        {
            keep = new Ctx{g_dm, h, m};
            if (!get(a, "bc").empty()) keep->set_dirichlet_bc(bc_of(getv(a, "bc")));
            return cafes::fem::make_matrix<Ctx>(keep, cafes::fem::stokes_matrix<Ctx>);
        }
        if (op == "vel_lap" || op == "vel_strain")
        {
            keep = new Ctx{v, h, m, cafes::fem::diag_laplacian_mult};
            if (!get(a, "bc").empty()) keep->set_dirichlet_bc(bc_of(getv(a, "bc")));
            return cafes::fem::make_matrix<Ctx>(keep);
        }
        if (op == "vel_mass") { keep = new Ctx{v, h, cafes::fem::mass_mult, cafes::fem::diag_mass_mult}; return cafes::fem::make_matrix<Ctx>(keep); }
        if (op == "pres_mass")
        {
            std::array<double, dim> hp = h; for (auto &x : hp) x *= 2;
            keep = new Ctx{p, hp, cafes::fem::mass_mult, cafes::fem::diag_mass_mult};
            return cafes::fem::make_matrix<Ctx>(keep);
        }
#if DIM == 2
        if (op == "A") return g_st->A;
        if (op == "P") return g_st->P;
        if (op == "A11" || op == "A22") { Mat s; int k = op == "A11" ? 0 : 1; MatNestGetSubMat(g_st->P, k, k, &s); return s; }
#endif
        die("op " + op);
    }
    inline DM dm_of(str const &op)
    {
        DM v, p; DMCompositeGetEntries(g_dm, &v, &p);
        if (op.substr(0, 3) == "vel" || op == "A11") return v;
        if (op.substr(0, 4) == "pres" || op == "A22") return p;
        return g_dm;
    }

    inline void fem_handlers()
    {
        auto &H = handlers();
        before = dirty_pool;
        H["mesh"] = [](args const &a) {
            std::array<int, dim> n; std::array<PetscBool, dim> per;
            auto vn = getv(a, "n"), vp = getv(a, "per"), vl = getv(a, "L");
            for (std::size_t d = 0; d < dim; ++d) { n[d] = (int)vn[d]; per[d] = vp.size() && vp[d] ? PETSC_TRUE : PETSC_FALSE; double L = vl.size() ? vl[d] : 1.; g_hp[d] = L / (n[d] - 1); g_h[d] = .5 * g_hp[d]; }
            if (g_dm && get(a, "keep").empty()) DMDestroy(&g_dm);
            chk(cafes::fem::createMesh<dim>(g_dm, n, per), "createMesh");
            dump_mesh(g_dm);
        };
        H["lapmesh"] = [](args const &a) {
            std::array<int, dim> n; std::array<PetscBool, dim> per; auto vn = getv(a, "n"), vp = getv(a, "per");
            for (std::size_t d = 0; d < dim; ++d) { n[d] = (int)vn[d]; per[d] = vp.size() && vp[d] ? PETSC_TRUE : PETSC_FALSE; }
            DM d; chk(cafes::fem::createLaplacianMesh<dim>(d, n, per), "createLaplacianMesh"); dump_mesh(d); DMDestroy(&d);
        };
        // apply op=<kind> in=file out=file : out_k = Op in_k for every vector of the file
        H["apply"] = [](args const &a) {
            str op = get(a, "op"); DM dm = dm_of(op); Ctx *keep = nullptr; Mat M = pick(op, a, keep);
            auto in = readbin(get(a, "in")); long N = dm_size(dm); if (in.size() % N) die("apply size " + op);
            Vec x, y; DMCreateGlobalVector(dm, &x); VecDuplicate(x, &y);
            double unchanged = 0; long k = in.size() / N;
            {
                binout o(get(a, "out"));
                for (long i = 0; i < k; ++i)
                {
                    from_nat(dm, x, in.data() + i * N);
                    VecSet(y, 7.5); // stale content must not leak into the result
                    chk(MatMult(M, x, y), "MatMult");
                    o.put(to_nat(dm, y));
                    auto xb = to_nat(dm, x);
                    for (long q = 0; q < N; ++q) if (xb[q] != in[i * N + q]) ++unchanged;
                }
            }
            PetscInt m, n2, M2, N2; MatGetLocalSize(M, &m, &n2); MatGetSize(M, &M2, &N2);
            js j; j.kv("ev", "apply").kv("op", op).kv("n", (int)N).kv("k", (int)k).kv("input_changed", unchanged).kv("rows", (int)M2).kv("cols", (int)N2); emit(j);
            VecDestroy(&x); VecDestroy(&y);
            if (keep) { MatDestroy(&M); delete keep; }
        };
        H["diag"] = [](args const &a) {
            str op = get(a, "op"); DM dm = dm_of(op); Ctx *keep = nullptr; Mat M = pick(op, a, keep);
            Vec y; DMCreateGlobalVector(dm, &y); VecSet(y, 3.25);
            chk(MatGetDiagonal(M, y), "MatGetDiagonal");
            { binout o(get(a, "out")); o.put(to_nat(dm, y)); }
            js j; j.kv("ev", "diag").kv("op", op); emit(j);
            VecDestroy(&y); if (keep) { MatDestroy(&M); delete keep; }
        };
        // diagonal of a composite operator with one spacing per field
        H["massdiag"] = [](args const &a) {
            using C2 = cafes::problem::context<dim, 2>; std::array<std::array<double, dim>, 2> hh{{g_h, g_hp}};
            C2 c{g_dm, hh, cafes::fem::mass_mult, cafes::fem::diag_mass_mult}; Mat M = cafes::fem::make_matrix<C2>(&c);
            Vec y; DMCreateGlobalVector(g_dm, &y); VecSet(y, 3.25); chk(MatGetDiagonal(M, y), "MatGetDiagonal");
            { binout o(get(a, "out")); o.put(to_nat(g_dm, y)); }
            VecDestroy(&y); MatDestroy(&M);
        };
        // the library's composite mass operator
        H["massmat"] = [](args const &a) {
            auto in = readbin(get(a, "in")); long N = dm_size(g_dm); Vec x, y; DMCreateGlobalVector(g_dm, &x); VecDuplicate(x, &y);
            binout o(get(a, "out"));
            for (long i = 0; i < (long)in.size() / N; ++i) { from_nat(g_dm, x, in.data() + i * N); VecSet(y, -2.); chk(cafes::fem::apply_mass_matrix<dim>(g_dm, x, y, g_h), "apply_mass_matrix"); o.put(to_nat(g_dm, y)); }
            VecDestroy(&x); VecDestroy(&y);
        };
        // rhs = rhs + M * source
        H["setrhs"] = [](args const &a) {
            auto in = readbin(get(a, "in")); Vec x; DMCreateGlobalVector(g_dm, &x); from_nat(g_dm, x, in.data());
            auto s = getv(a, "rhs"); cafes::fem::rhs_conditions<dim> rc{}; for (std::size_t d = 0; d < dim; ++d) rc.conditions_[d] = slot((int)s[d]);
            slot_calls = 0;
            chk(cafes::fem::set_rhs<dim, 1>(g_dm, x, rc, g_h), "set_rhs");
            { binout o(get(a, "out")); o.put(to_nat(g_dm, x)); }
            VecDestroy(&x);
        };
        // boundary conditions on a vector: kind = func | null | copy
        H["bcvec"] = [](args const &a) {
            auto in = readbin(get(a, "in")); Vec x; DMCreateGlobalVector(g_dm, &x); from_nat(g_dm, x, in.data());
            auto bc = bc_of(getv(a, "bc")); str kind = get(a, "kind");
            Vec src; VecDuplicate(x, &src);
            if (kind == "copy") { auto i2 = readbin(get(a, "src")); from_nat(g_dm, src, i2.data()); }
            slot_calls = 0;
            {
                pvec px(g_dm, x, 0, false);
                if (kind == "func") chk(cafes::fem::SetDirichletOnRHS<dim>(px, bc, g_h), "SetDirichletOnRHS");
                else if (kind == "null") chk(cafes::fem::SetNullDirichletOnRHS<dim>(px, bc), "SetNullDirichletOnRHS");
                else { pvec ps(g_dm, src, 0); chk(cafes::fem::SetDirichletOnVec<dim>(ps, px, bc), "SetDirichletOnVec"); }
            }
            { binout o(get(a, "out")); o.put(to_nat(g_dm, x)); }
            VecDestroy(&x); VecDestroy(&src);
        };
        // ghost exchange through the accessor: local contributions are summed once per global point,
        // ghost values equal the owner's value
        H["ghost"] = [](args const &a) {
            auto in = readbin(get(a, "in")); Vec x; DMCreateGlobalVector(g_dm, &x); from_nat(g_dm, x, in.data());
            js j; j.kv("ev", "ghost");
            for (int e = 0; e < 2; ++e)
            {
                std::vector<double> rec; // per rank: (idx..., dof, local value, global value or nan)
                DM da = cafes::petsc::get_DM(g_dm, e); DMDALocalInfo I; DMDAGetLocalInfo(da, &I);
                {
                    pvec p(g_dm, x, e);
                    chk(p.global_to_local(INSERT_VALUES), "global_to_local");
                    for (int k = I.gzs; k < I.gzs + I.gzm; ++k) for (int jj = I.gys; jj < I.gys + I.gym; ++jj) for (int i = I.gxs; i < I.gxs + I.gxm; ++i)
                    {
                        std::array<int, dim> id; id[0] = i; id[1] = jj; if (dim == 3) id[dim - 1] = k;
                        bool own = i >= I.xs && i < I.xs + I.xm && jj >= I.ys && jj < I.ys + I.ym && k >= I.zs && k < I.zs + I.zm;
                        cafes::geometry::position<int, dim> pos; for (std::size_t d = 0; d < dim; ++d) pos[d] = id[d];
                        for (int c = 0; c < p.dof_; ++c) { rec.insert(rec.end(), {(double)i, (double)jj, (double)k, (double)c, p.at(id)[c], own ? p.at_g(pos)[c] : std::nan("")}); if (p.at(pos)[c] != p.at(id)[c]) die("accessor disagree"); }
                    }
                }
                j.raw(e ? "pres" : "vel", jarr(gather(rec)));
            }
            // additive push: every rank contributes value(idx)+rank on each local (ghosted) point
            VecSet(x, 0.);
            for (int e = 0; e < 2; ++e)
            {
                DM da = cafes::petsc::get_DM(g_dm, e); DMDALocalInfo I; DMDAGetLocalInfo(da, &I);
                pvec p(g_dm, x, e, false); chk(p.fill(0.), "fill");
                for (int k = I.gzs; k < I.gzs + I.gzm; ++k) for (int jj = I.gys; jj < I.gys + I.gym; ++jj) for (int i = I.gxs; i < I.gxs + I.gxm; ++i)
                {
                    std::array<int, dim> id; id[0] = i; id[1] = jj; if (dim == 3) id[dim - 1] = k;
                    for (int c = 0; c < p.dof_; ++c) p.at(id)[c] = 1 + .5 * c + .001 * i + .0625 * jj + .125 * k + 10. * rank;
                }
                chk(p.local_to_global(ADD_VALUES), "local_to_global");
            }
            { binout o(get(a, "out")); o.put(to_nat(g_dm, x)); }
            // fill / fill_global touch exactly their own entry
            for (int e = 0; e < 2; ++e) { VecSet(x, 1.); { pvec p(g_dm, x, e, false); chk(p.fill_global(4. + e), "fill_global"); chk(p.fill(9.), "fill"); } auto v = to_nat(g_dm, x); double s = 0, mn = 1e9, mx = -1e9; for (auto q : v) { s += q; mn = std::min(mn, q); mx = std::max(mx, q); } j.kv(e ? "fill1" : "fill0", s); }
            emit(j); VecDestroy(&x);
        };
        // operator the multigrid solver installs on a level, from the function it registers with the solver (2-D and 3-D)
        H["levelop"] = [](args const &a) {
            str op = get(a, "op"); Ctx *keep = nullptr; DM v, p; DMCompositeGetEntries(g_dm, &v, &p);
            int from = (int)getd(a, "from", 0), depth = (int)getd(a, "depth", 1);
            PetscObjectReference((PetscObject)v); DM d = v, fine = v; std::array<double, dim> h = g_h;
            std::vector<DM> all{v};
            for (int l = 0; l < depth; ++l)
            {
                DM c; chk(DMCoarsen(d, PETSC_COMM_WORLD, &c), "DMCoarsen"); d = c; all.push_back(c);
                if (l < from) { fine = c; for (auto &x : h) x *= 2; }
            }
            method_t m = op == "strain" ? (method_t)cafes::fem::strain_tensor_mult : (method_t)cafes::fem::laplacian_mult;
            keep = new Ctx{fine, h, m, cafes::fem::diag_laplacian_mult}; keep->set_dirichlet_bc(bc_of(getv(a, "bc")));
            KSP ksp; KSPCreate(PETSC_COMM_WORLD, &ksp); KSPSetDM(ksp, d); KSPSetDMActive(ksp, PETSC_FALSE);
            Mat A, P; MatCreate(PETSC_COMM_WORLD, &A); MatCreate(PETSC_COMM_WORLD, &P);
            chk(cafes::problem::createLevelMatrices<Ctx, dim>(ksp, A, P, keep), "createLevelMatrices");
            MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
            long N = da_size(d); auto in = readbin(get(a, "in")); if ((long)in.size() < N) die("levelop input");
            Vec x, y; DMCreateGlobalVector(d, &x); VecDuplicate(x, &y); VecSet(y, 4.5); da_from_nat(d, x, in.data(), N);
            chk(MatMult(A, x, y), "MatMult level"); { binout o(get(a, "out")); o.put(to_nat(d, y)); }
            VecSet(y, 4.5); chk(MatGetDiagonal(A, y), "diag level"); { binout o(get(a, "diag")); o.put(to_nat(d, y)); }
            js j; j.kv("ev", "levelop").arr("info", da_info(d)); emit(j);
            VecDestroy(&x); VecDestroy(&y); MatDestroy(&A); MatDestroy(&P); KSPDestroy(&ksp); delete keep;
            for (auto &q : all) DMDestroy(&q);
        };
        // element level: basis functions and index maps of the public quadrature helpers
        H["basis"] = [](args const &a) {
            auto x = getv(a, "x"), hh = getv(a, "h"), idx = getv(a, "i");
            cafes::geometry::position<double, dim> p; std::array<double, dim> h; cafes::geometry::position<int, dim> ip;
            for (std::size_t d = 0; d < dim; ++d) { p[d] = x[d]; h[d] = hh[d]; ip[d] = (int)idx[d]; }
            auto b = cafes::fem::P1_integration(p, h); auto g = cafes::fem::P1_integration_grad(p, h); auto e = cafes::fem::get_element(ip);
            std::vector<std::vector<double>> G, E; for (auto &r : g) G.push_back({r.begin(), r.end()}); for (auto &r : e) { std::vector<double> q; for (std::size_t d = 0; d < dim; ++d) q.push_back(r[d]); E.push_back(q); }
            js j; j.kv("ev", "basis").arr("x", x).arr("h", hh).arr("i", idx).arr("b", b).raw("g", jarr(G)).raw("e", jarr(E)); emit(j);
        };
#if DIM == 2
        // problem bc=8 slots rhs=2 slots (options were set with opt)
        H["problem"] = [](args const &a) {
            auto bc = bc_of(getv(a, "bc")); auto s = getv(a, "rhs");
            std::array<cfn, 2> rc{{s.size() ? slot((int)s[0]) : nullptr, s.size() ? slot((int)s[1]) : nullptr}};
            g_st = new stokes_t(cafes::make_stokes<2>(bc, cafes::make_rhs<2>(rc)));
            g_dm = g_st->ctx->dm; g_h = g_st->ctx->h; for (int d = 0; d < 2; ++d) g_hp[d] = 2 * g_h[d];
            auto &o = g_st->opt;
            js j; j.kv("ev", "problem").arr("mx", o.mx).arr("lx", o.lx).arr("per", o.xperiod).kv("strain", (int)o.strain_tensor).kv("assembling", (int)o.assembling).kv("pmm", (int)o.pmm).arr("h", g_h); emit(j);
            dump_mesh(g_dm);
        };
        H["freeproblem"] = [](args const &a) {
            if (!g_st) return;
            if (!get(a, "ksp").empty()) KSPDestroy(&g_st->ksp);
            VecDestroy(&g_st->sol); VecDestroy(&g_st->rhs); MatDestroy(&g_st->A); MatDestroy(&g_st->P);
            delete g_st; g_st = nullptr; g_dm = nullptr;
        };
        // parameters set by the program first, then the run-time options: "optset d=2|3 mx= lx= per= flags="
        H["optset"] = [](args const &a) {
            auto go = [&](auto o) {
                auto m = getv(a, "mx"), l = getv(a, "lx"), p = getv(a, "per"), f = getv(a, "flags");
                for (std::size_t d = 0; d < o.mx.size(); ++d) { o.mx[d] = (int)m[d]; o.lx[d] = l[d]; o.xperiod[d] = (PetscBool)(int)p[d]; }
                o.strain_tensor = (PetscBool)(int)f[0]; o.assembling = (PetscBool)(int)f[1]; o.pmm = (PetscBool)(int)f[2];
                o.process_options();
                js j; j.kv("ev", "optset").arr("mx", o.mx).arr("lx", o.lx).arr("per", o.xperiod).kv("strain", (int)o.strain_tensor).kv("assembling", (int)o.assembling).kv("pmm", (int)o.pmm); emit(j);
            };
            if (geti(a, "d") == 2) go(cafes::problem::options<2>{}); else go(cafes::problem::options<3>{});
        };
        H["options3"] = [](args const &a) {
            cafes::problem::options<3> o; o.process_options();
            js j; j.kv("ev", "options3").arr("mx", o.mx).arr("lx", o.lx).arr("per", o.xperiod).kv("strain", (int)o.strain_tensor).kv("assembling", (int)o.assembling).kv("pmm", (int)o.pmm); emit(j);
        };
        H["setuprhs"] = [](args const &a) {
            int rep = geti(a, "rep", 1); binout o(get(a, "out"));
            for (int i = 0; i < rep; ++i) { chk(g_st->setup_RHS(), "setup_RHS"); o.put(to_nat(g_dm, g_st->rhs)); }
        };
        H["loadrhs"] = [](args const &a) { auto in = readbin(get(a, "in")); from_nat(g_dm, g_st->rhs, in.data()); };
        H["setupksp"] = [](args const &a) { chk(g_st->setup_KSP(), "setup_KSP"); };
        H["solve"] = [](args const &a) {
            chk(g_st->solve(), "solve");
            KSPConvergedReason r; PetscInt it; double rn; KSPGetConvergedReason(g_st->ksp, &r); KSPGetIterationNumber(g_st->ksp, &it); KSPGetResidualNorm(g_st->ksp, &rn);
            { binout o(get(a, "out")); o.put(to_nat(g_dm, g_st->sol)); }
            js j; j.kv("ev", "solve").kv("reason", (int)r).kv("its", (int)it).kv("rnorm", rn).kv("tag", get(a, "tag")); emit(j);
        };
        // assembled matrices: entries in natural numbering via application, plus allocation facts
        H["matinfo"] = [](args const &a) {
            Ctx *k = nullptr; Mat M = pick(get(a, "op"), a, k); MatInfo I; MatGetInfo(M, MAT_GLOBAL_MAX, &I);
            MatInfo S; MatGetInfo(M, MAT_GLOBAL_SUM, &S);
            js j; j.kv("ev", "matinfo").kv("op", get(a, "op")).kv("mallocs", I.mallocs).kv("nz_used", S.nz_used).kv("nz_alloc", S.nz_allocated).kv("unneeded", S.nz_unneeded); emit(j);
        };
        // assemble blocks into a fresh matrix without Dirichlet elimination
        H["assemble"] = [](args const &a) {
            auto o = g_st->opt; bool P = geti(a, "diag"); Mat M;
            chk(::PreallocateMat(g_st->ctx, o, MATAIJ, &M, P), "PreallocateMat");
            MatSetDM(M, g_dm); MatSetFromOptions(M);
            DM v, p; DMCompositeGetEntries(g_dm, &v, &p);
            if (o.strain_tensor) cafes::strain_tensor_assembling(v, M, g_h); else cafes::laplacian_assembling(v, M, g_h);
            if (P) { if (get(a, "nomass").empty()) chk(cafes::mass_assembling(g_dm, M, g_hp), "mass"); }
            else { cafes::B_BT_assembling(g_dm, M, g_h); if (!get(a, "pdiag").empty()) cafes::diagonal_assembling<2>(g_dm, M, getd(a, "pdiag")); }
            MatAssemblyBegin(M, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M, MAT_FINAL_ASSEMBLY);
            MatInfo I; MatGetInfo(M, MAT_GLOBAL_MAX, &I);
            auto in = readbin(get(a, "in")); long N = dm_size(g_dm); Vec x, y; DMCreateGlobalVector(g_dm, &x); VecDuplicate(x, &y);
            { binout ob(get(a, "out")); for (long i = 0; i < (long)in.size() / N; ++i) { from_nat(g_dm, x, in.data() + i * N); chk(MatMult(M, x, y), "MatMult"); ob.put(to_nat(g_dm, y)); } }
            js j; j.kv("ev", "assemble").kv("mallocs", I.mallocs).kv("diag", P).kv("nz_used", I.nz_used).kv("nz_alloc", I.nz_allocated); emit(j);
            VecDestroy(&x); VecDestroy(&y); MatDestroy(&M);
        };
        // multigrid level operators actually installed in the velocity solver
        H["mglevels"] = [](args const &a) {
            PC pc, pci; KSP *sub; PetscInt nl = 0, ns; KSPGetPC(g_st->ksp, &pc);
            PCFieldSplitGetSubKSP(pc, &ns, &sub); KSPGetPC(sub[0], &pci); chk(PCSetUp(pci), "PCSetUp"); PCMGGetLevels(pci, &nl);
            js j; j.kv("ev", "mglevels").kv("n", (int)nl); std::vector<std::vector<double>> infos;
            for (int l = 0; l < nl; ++l)
            {
                KSP s; PCMGGetSmoother(pci, l, &s); Mat A, P; KSPGetOperators(s, &A, &P); DM d; KSPGetDM(s, &d);
                if (l < nl - 1)
                {
                    infos.push_back(da_info(d));
                    long N = da_size(d); auto in = readbin(get(a, "in")); if ((long)in.size() < N) die("mg input");
                    Vec x, y; DMCreateGlobalVector(d, &x); VecDuplicate(x, &y); da_from_nat(d, x, in.data(), N);
                    chk(MatMult(A, x, y), "MatMult level"); { binout o(get(a, "out") + "." + std::to_string(l)); o.put(to_nat(d, y)); }
                    chk(MatGetDiagonal(A, y), "diag level"); { binout o(get(a, "out") + ".d" + std::to_string(l)); o.put(to_nat(d, y)); }
                    VecDestroy(&x); VecDestroy(&y);
                }
            }
            j.raw("info", jarr(infos)); emit(j); PetscFree(sub);
        };
        H["interp"] = [](args const &a) {
            auto in = readbin(get(a, "in")); Vec x; DMCreateGlobalVector(g_dm, &x); from_nat(g_dm, x, in.data());
            auto rf = getv(a, "refine"); std::array<int, 2> refine{{(int)rf[0], (int)rf[1]}};
            DM dr; Vec sr; chk(cafes::posttraitement::linear_interpolation<2>(g_dm, x, dr, sr, refine, g_h), "linear_interpolation");
            DM v, p; DMCompositeGetEntries(dr, &v, &p);
            { binout o(get(a, "out")); o.put(to_nat(dr, sr)); }
            auto xb = to_nat(g_dm, x); double ch = 0; for (size_t i = 0; i < xb.size(); ++i) ch += xb[i] != in[i];
            js j; j.kv("ev", "interp").arr("refine", rf).raw("vel", jarr(gather(da_info(v)))).raw("pres", jarr(gather(da_info(p)))).kv("input_changed", ch); emit(j);
            VecDestroy(&x); VecDestroy(&sr); DMDestroy(&dr);
        };
        H["save"] = [](args const &a) {
            auto in = readbin(get(a, "in")); Vec x; DMCreateGlobalVector(g_dm, &x); from_nat(g_dm, x, in.data());
            auto rf = getv(a, "refine"); auto h = g_h;
            if (rf.empty()) chk(cafes::io::save_hdf5<2>(get(a, "path").c_str(), get(a, "name").c_str(), x, g_dm, g_h), "save_hdf5");
            else
            {
                std::array<int, 2> refine{{(int)rf[0], (int)rf[1]}}; DM dr; Vec sr;
                chk(cafes::posttraitement::linear_interpolation<2>(g_dm, x, dr, sr, refine, g_h), "linear_interpolation");
                for (int d = 0; d < 2; ++d) h[d] /= refine[d];
                chk(cafes::io::save_hdf5<2>(get(a, "path").c_str(), get(a, "name").c_str(), sr, dr, h), "save_hdf5");
                VecDestroy(&sr); DMDestroy(&dr);
            }
            auto xb = to_nat(g_dm, x); double ch = 0; for (size_t i = 0; i < xb.size(); ++i) ch += xb[i] != in[i];
            js j; j.kv("ev", "save").arr("h", g_h).kv("input_changed", ch); emit(j); VecDestroy(&x);
        };
        // sizes and values of a dataset, read with the plain HDF5 library
        H["h5read"] = [](args const &a) {
            std::vector<double> dims, v; double ok = 0; js j; j.kv("ev", "h5read").kv("name", get(a, "name"));
            MPI_Barrier(PETSC_COMM_WORLD);
            if (rank == 0)
            {
                H5E_auto2_t ef; void *ed; H5Eget_auto2(H5E_DEFAULT, &ef, &ed); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
                hid_t f = H5Fopen(get(a, "path").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), d = f < 0 ? -1 : H5Dopen2(f, get(a, "name").c_str(), H5P_DEFAULT);
                if (d >= 0)
                {
                    hid_t s = H5Dget_space(d); int nd = H5Sget_simple_extent_ndims(s); std::vector<hsize_t> n(nd); H5Sget_simple_extent_dims(s, n.data(), nullptr);
                    std::size_t t = 1; for (auto q : n) { dims.push_back(q); t *= q; }
                    v.resize(t); ok = H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0; H5Sclose(s); H5Dclose(d);
                }
                if (f >= 0) H5Fclose(f);
                H5Eset_auto2(H5E_DEFAULT, ef, ed);
            }
            { binout o(get(a, "out")); o.put(v); }
            MPI_Barrier(PETSC_COMM_WORLD);
            j.arr("dims", dims).kv("ok", ok); emit(j);
        };
#endif
    }
} // namespace hx
