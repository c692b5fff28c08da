// Shared scaffolding of the harnesses: script interpreter, exact natural-order
// transfer of vectors (PETSc API only, none of the code under test), event log.
#pragma once
#include <cafes.hpp>
#include <petsc.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <dirent.h>
#include <functional>
#include <malloc.h>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define RUNNING_ON_VALGRIND 0
#define VALGRIND_CHECK_MEM_IS_DEFINED(p, n) 0
#endif
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#ifndef DIM
#define DIM 2
#endif

namespace hx
{
    constexpr std::size_t dim = DIM;
    using str = std::string;
    using args = std::map<str, str>;

    static int rank = 0, size = 1;
    static FILE *out = nullptr; // JSONL event log, rank 0 only

    [[noreturn]] inline void die(str const &m)
    {
        std::fprintf(stderr, "HARNESS-ERROR %s\n", m.c_str());
        std::fflush(stderr);
        if (size > 1)
            MPI_Abort(MPI_COMM_WORLD, 87);
        _exit(87);
    }

    // any PETSc error raised inside the library under test is an event, not noise
    static PetscErrorCode on_error(MPI_Comm, int line, const char *fun, const char *file, PetscErrorCode n,
                                   PetscErrorType p, const char *mess, void *)
    {
        std::fprintf(stderr, "PETSC-ERROR code=%d at %s:%d (%s): %s\n", (int)n, file, line, fun, mess ? mess : "");
        std::fflush(stderr);
        if (size > 1)
            MPI_Abort(MPI_COMM_WORLD, 86);
        _exit(86);
    }

    struct js
    { // tiny JSON object writer
        std::ostringstream s;
        bool first = true;
        js() { s << "{"; s.precision(17); }
        void key(str const &k) { if (!first) s << ","; first = false; s << "\"" << k << "\":"; }
        static void num(std::ostream &o, double v)
        {
            if (v != v) o << "NaN";
            else if (v > 1e308) o << "Infinity";
            else if (v < -1e308) o << "-Infinity";
            else o << v;
        }
        js &kv(str const &k, str const &v) { key(k); s << "\"" << v << "\""; return *this; }
        js &kv(str const &k, const char *v) { return kv(k, str(v)); }
        js &kv(str const &k, double v) { key(k); num(s, v); return *this; }
        js &kv(str const &k, int v) { key(k); s << v; return *this; }
        js &kv(str const &k, long v) { key(k); s << v; return *this; }
        js &kv(str const &k, std::size_t v) { key(k); s << v; return *this; }
        js &kv(str const &k, bool v) { key(k); s << (v ? "true" : "false"); return *this; }
        template<typename C> js &arr(str const &k, C const &c)
        {
            key(k); s << "[";
            bool f = true;
            for (auto const &v : c) { if (!f) s << ","; f = false; num(s, (double)v); }
            s << "]"; return *this;
        }
        js &raw(str const &k, str const &v) { key(k); s << v; return *this; }
        str done() { s << "}"; return s.str(); }
    };
    inline void emit(js &j)
    {
        auto t = j.done();
        if (rank == 0 && out) { std::fprintf(out, "%s\n", t.c_str()); std::fflush(out); }
    }

    inline str get(args const &a, str const &k, str const &d = "")
    {
        auto i = a.find(k);
        return i == a.end() ? d : i->second;
    }
    inline double getd(args const &a, str const &k, double d = 0) { auto v = get(a, k); return v.empty() ? d : std::strtod(v.c_str(), nullptr); }
    inline int geti(args const &a, str const &k, int d = 0) { auto v = get(a, k); return v.empty() ? d : std::atoi(v.c_str()); }
    inline std::vector<str> split(str const &v, char c)
    {
        std::vector<str> r; str cur;
        for (char ch : v) if (ch == c) { r.push_back(cur); cur.clear(); } else cur += ch;
        if (!v.empty()) r.push_back(cur);
        return r;
    }
    inline std::vector<double> getv(args const &a, str const &k)
    {
        std::vector<double> r;
        for (auto &t : split(get(a, k), ',')) r.push_back(std::strtod(t.c_str(), nullptr));
        return r;
    }

    // ---- user functions handed to the library: polynomials with run-time coefficients
    struct term { double c; int e[3]; };
    // under valgrind: what the library hands over must be initialised
    inline void defined(const void *p, std::size_t n, const char *what)
    {
        if (n && RUNNING_ON_VALGRIND && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) { std::fprintf(stderr, "UNDEFINED %s\n", what); std::fflush(stderr); PetscError(PETSC_COMM_SELF, __LINE__, "defined", __FILE__, PETSC_ERR_PLIB, PETSC_ERROR_INITIAL, "uninitialised %s", what); MPI_Abort(MPI_COMM_WORLD, 78); }
    }
    static std::vector<term> slots[32];
    static long slot_calls = 0;
    inline double poly(std::vector<term> const &t, const PetscReal *x)
    {
        double r = 0;
        for (auto const &m : t) { double p = m.c; for (std::size_t d = 0; d < dim; ++d) for (int i = 0; i < m.e[d]; ++i) p *= x[d]; r += p; }
        return r;
    }
    template<int K> void fn(const PetscReal x[], PetscScalar *u) { ++slot_calls; defined(x, dim * sizeof(double), "coordinates given to a condition"); *u = poly(slots[K], x); }
    using cfn = void (*)(const PetscReal *, PetscScalar *);
    template<std::size_t... I> std::array<cfn, sizeof...(I)> mk(std::index_sequence<I...>) { return {{fn<(int)I>...}}; }
    inline cfn slot(int k) { static auto t = mk(std::make_index_sequence<32>{}); return k < 0 ? nullptr : t[k]; }

    inline std::vector<double> readbin(str const &f)
    {
        FILE *p = std::fopen(f.c_str(), "rb");
        if (!p) die("cannot read " + f);
        std::fseek(p, 0, SEEK_END); long n = std::ftell(p) / 8; std::rewind(p);
        std::vector<double> v(n);
        if (n && std::fread(v.data(), 8, n, p) != (size_t)n) die("short read");
        std::fclose(p);
        return v;
    }

    // ---- natural ordering <-> distributed vectors
    inline void da_from_nat(DM da, Vec g, const double *nat, long n)
    {
        Vec nv; DMDACreateNaturalVector(da, &nv);
        PetscInt N, lo, hi; VecGetSize(nv, &N); VecGetOwnershipRange(nv, &lo, &hi);
        if (N != n) die("size mismatch da_from_nat");
        PetscScalar *p; VecGetArray(nv, &p);
        for (PetscInt i = lo; i < hi; ++i) p[i - lo] = nat[i];
        VecRestoreArray(nv, &p);
        DMDANaturalToGlobalBegin(da, nv, INSERT_VALUES, g); DMDANaturalToGlobalEnd(da, nv, INSERT_VALUES, g);
        VecDestroy(&nv);
    }
    inline void da_to_nat(DM da, Vec g, std::vector<double> &o)
    {
        Vec nv, z; VecScatter sc; DMDACreateNaturalVector(da, &nv);
        DMDAGlobalToNaturalBegin(da, g, INSERT_VALUES, nv); DMDAGlobalToNaturalEnd(da, g, INSERT_VALUES, nv);
        VecScatterCreateToAll(nv, &sc, &z);
        VecScatterBegin(sc, nv, z, INSERT_VALUES, SCATTER_FORWARD); VecScatterEnd(sc, nv, z, INSERT_VALUES, SCATTER_FORWARD);
        PetscInt n; VecGetSize(z, &n); const PetscScalar *p; VecGetArrayRead(z, &p);
        o.insert(o.end(), p, p + n);
        VecRestoreArrayRead(z, &p); VecScatterDestroy(&sc); VecDestroy(&z); VecDestroy(&nv);
    }
    inline long da_size(DM da) { DMDALocalInfo i; DMDAGetLocalInfo(da, &i); return (long)i.mx * i.my * i.mz * i.dof; }
    inline bool is_comp(DM dm) { PetscBool c; PetscObjectTypeCompare((PetscObject)dm, DMCOMPOSITE, &c); return c; }
    inline long dm_size(DM dm)
    {
        if (!is_comp(dm)) return da_size(dm);
        DM a, b; DMCompositeGetEntries(dm, &a, &b); return da_size(a) + da_size(b);
    }
    inline void from_nat(DM dm, Vec X, const double *nat)
    {
        if (!is_comp(dm)) { da_from_nat(dm, X, nat, da_size(dm)); return; }
        DM a, b; DMCompositeGetEntries(dm, &a, &b);
        Vec xa, xb; DMCompositeGetAccess(dm, X, &xa, &xb);
        da_from_nat(a, xa, nat, da_size(a)); da_from_nat(b, xb, nat + da_size(a), da_size(b));
        DMCompositeRestoreAccess(dm, X, &xa, &xb);
    }
    inline std::vector<double> to_nat(DM dm, Vec X)
    {
        std::vector<double> o;
        if (!is_comp(dm)) { da_to_nat(dm, X, o); return o; }
        DM a, b; DMCompositeGetEntries(dm, &a, &b);
        Vec xa, xb; DMCompositeGetAccess(dm, X, &xa, &xb);
        da_to_nat(a, xa, o); da_to_nat(b, xb, o);
        DMCompositeRestoreAccess(dm, X, &xa, &xb);
        return o;
    }
    struct binout
    {
        FILE *p = nullptr;
        binout(str const &f) { if (rank == 0) { p = std::fopen(f.c_str(), "wb"); if (!p) die("cannot write " + f); } }
        void put(std::vector<double> const &v) { defined(v.data(), 8 * v.size(), "result"); if (p && !v.empty()) std::fwrite(v.data(), 8, v.size(), p); }
        ~binout() { if (p) std::fclose(p); }
    };
    // gather a variable-length list of doubles from every rank, rank by rank
    inline std::vector<std::vector<double>> gather(std::vector<double> const &v)
    {
        defined(v.data(), 8 * v.size(), "result");
        int n = v.size(); std::vector<int> ns(size), off(size);
        MPI_Allgather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, PETSC_COMM_WORLD);
        int t = 0; for (int i = 0; i < size; ++i) { off[i] = t; t += ns[i]; }
        std::vector<double> all(t);
        MPI_Allgatherv(v.data(), n, MPI_DOUBLE, all.data(), ns.data(), off.data(), MPI_DOUBLE, PETSC_COMM_WORLD);
        std::vector<std::vector<double>> r(size);
        for (int i = 0; i < size; ++i) r[i].assign(all.begin() + off[i], all.begin() + off[i] + ns[i]);
        return r;
    }
    inline str jarr(std::vector<std::vector<double>> const &vv)
    {
        std::ostringstream s; s.precision(17); s << "[";
        for (size_t i = 0; i < vv.size(); ++i) { if (i) s << ","; s << "["; for (size_t j = 0; j < vv[i].size(); ++j) { if (j) s << ","; js::num(s, vv[i][j]); } s << "]"; }
        s << "]"; return s.str();
    }

    static std::function<void()> before; // run before every command
    using handler = std::function<void(args const &)>;
    inline std::map<str, handler> &handlers() { static std::map<str, handler> h; return h; }

    inline int run(int argc, char **argv)
    {
        // argv: script events.jsonl
        if (argc < 3) { std::fprintf(stderr, "usage: drv script events\n"); return 87; }
        str script = argv[1], ev = argv[2];
        int one = 1; char *av[] = {argv[0], nullptr}; char **avp = av;
        PetscInitialize(&one, &avp, nullptr, nullptr);
        MPI_Comm_rank(PETSC_COMM_WORLD, &rank); MPI_Comm_size(PETSC_COMM_WORLD, &size);
        PetscPushErrorHandler(on_error, nullptr);
        if (rank == 0) { out = std::fopen(ev.c_str(), "w"); if (!out) die("events"); }
        std::ifstream in(script);
        if (!in) die("script");
        str line; int ln = 0;
        while (std::getline(in, line))
        {
            ++ln;
            std::istringstream is(line); str cmd, t; is >> cmd;
            if (cmd.empty() || cmd[0] == '#') continue;
            args a;
            while (is >> t) { auto q = t.find('='); if (q == str::npos) a[t] = "1"; else a[t.substr(0, q)] = t.substr(q + 1); }
            auto h = handlers().find(cmd);
            if (h == handlers().end()) die("unknown command " + cmd);
            if (rank == 0) { std::fprintf(stderr, "STEP %d %s\n", ln, line.substr(0, 300).c_str()); std::fflush(stderr); }
            if (before) before();
            h->second(a);
        }
        { js j; j.kv("ev", "end").kv("steps", ln); emit(j); }
        if (out) std::fclose(out);
        PetscFinalize();
        return 0;
    }
    inline void base_handlers()
    {
        // fn k=3 t=coef:ex:ey:ez,...
        handlers()["fn"] = [](args const &a) {
            auto &s = slots[geti(a, "k")]; s.clear();
            for (auto &m : split(get(a, "t"), ','))
            {
                auto p = split(m, ':'); term t{}; t.c = std::strtod(p[0].c_str(), nullptr);
                for (std::size_t d = 0; d < 3 && d + 1 < p.size(); ++d) t.e[d] = std::atoi(p[d + 1].c_str());
                s.push_back(t);
            }
        };
        handlers()["opt"] = [](args const &a) { for (auto &k : a) PetscOptionsSetValue(nullptr, ("-" + k.first).c_str(), k.second == "<null>" ? nullptr : k.second.c_str()); };
        handlers()["clearopt"] = [](args const &a) { PetscOptionsClear(nullptr); };
        // memory in use (all arenas and mappings) and open descriptors of every process
        handlers()["heap"] = [](args const &a) {
            PetscBarrier(nullptr);
            struct mallinfo2 m = mallinfo2(); int fds = 0;
            if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) ++fds; closedir(d); }
            auto v = gather({(double)m.uordblks + (double)m.hblkhd, (double)fds});
            js j; j.kv("ev", "heap").kv("tag", get(a, "tag")).raw("v", jarr(v)); emit(j);
        };
        handlers()["echo"] = [](args const &a) { js j; j.kv("ev", "echo"); for (auto &k : a) j.kv(k.first, k.second); emit(j); };
    }
} // namespace hx
