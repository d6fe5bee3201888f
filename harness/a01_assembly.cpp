/* Assemblers of scalar HHO, Stokes and dG systems. args: OUT DOCS CFGS PART PARTS
 * CFGS lines: <doc> <asm> <fdeg> <cdeg> <cycles> <seed> <slot1> .. <slot6>, a slot
 * is "-" or a string of kinds (DNR) declared on the k-th boundary number */
#include <map>
#include <optional>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/hho_slapl.hpp"
#include "diskpp/methods/dg"
using namespace vh;
using VL = std::vector<long>;
using VVL = std::vector<VL>;
using DM = disk::dynamic_matrix<double>;
using DV = disk::dynamic_vector<double>;
struct Cfg { long doc; std::string as; int fdeg, cdeg, cycles; long seed; std::vector<std::string> slots; };
constexpr double SC = 1000;
constexpr long LABEL = 100000;

long R(double x) { double y = x * SC; return std::isfinite(y) && std::fabs(y) < 2e9 ? std::lround(y) : SENTINEL; }
VVL imat(const DM& A) { VVL r; for (int i = 0; i < A.rows(); i++) { VL x; for (int j = 0; j < A.cols(); j++) x.push_back(std::lround(A(i, j))); r.push_back(x); } return r; }
VL ivec(const DV& b) { VL r; for (int i = 0; i < b.size(); i++) r.push_back(std::lround(b(i))); return r; }
VL qvec(const DV& b) { VL r; for (int i = 0; i < b.size(); i++) r.push_back(Q(b(i), 1)); return r; }
VVL smat(const DM& A) { VVL r; for (int i = 0; i < A.rows(); i++) { VL x; for (int j = 0; j < A.cols(); j++) x.push_back(R(A(i, j))); r.push_back(x); } return r; }
VL svec(const DV& b) { VL r; for (int i = 0; i < b.size(); i++) r.push_back(R(b(i))); return r; }
template<typename S> VVL sparse(const S& A) { return smat(DM(A)); }
DM rmat(Rng& r, int n, int m) { DM A(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A(i, j) = r.range(-9, 9); return A; }
DV rvec(Rng& r, int n) { DV b(n); for (int i = 0; i < n; i++) b(i) = r.range(-9, 9); return b; }
template<typename F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

template<bool S, typename BC> struct Decl
{
    template<typename Mesh> static void run(Trace& tr, Mesh& msh, BC& bc, const Cfg& c, bool only_d)
    {
        constexpr size_t D = Mesh::dimension;
        std::set<size_t> ids;
        for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); ++it) ids.insert(msh.boundary_id(*it));
        std::vector<size_t> idv(ids.begin(), ids.end());
        tr.emit(Obj()("ev", "Registry")("scalar", S));
        long nf[3] = {0, 0, 0};
        for (size_t s = 0; s < c.slots.size() && s < idv.size(); s++)
            for (char k : c.slots[s]) {
                if (k == '-' || (only_d && k != 'D')) continue;
                int ki = k == 'D' ? 0 : k == 'N' ? 1 : 2;
                long n = nf[ki]++;
                auto sf = [n](const disk::point<double, D>&) -> double { return double(n + 1); };
                auto vf = [n](const disk::point<double, D>&) -> disk::static_vector<double, D> {
                    disk::static_vector<double, D> v;
                    for (size_t i = 0; i < D; i++) v(i) = double(n + 1) * double(i + 1);
                    return v;
                };
                size_t type = ki == 0 ? (!S && (n % 2) ? disk::CLAMPED : disk::DIRICHLET) : ki == 1 ? disk::NEUMANN : disk::ROBIN;
                auto add = [&](auto f) {
                    if (ki == 0) bc.addDirichletBC(type, idv[s], f);
                    if (ki == 1) bc.addNeumannBC(type, idv[s], f);
                    if (ki == 2) bc.addRobinBC(type, idv[s], f);
                };
                if constexpr (S) add(sf); else add(vf);
                tr.emit(Obj()("ev", "Op")("op", "add")("k", std::string(1, k))("type", type)("id", idv[s])("fun", 1));
            }
    }
};

std::vector<size_t> order(Rng& r, size_t n)
{
    std::vector<size_t> v(n);
    for (size_t i = 0; i < n; i++) v[i] = i;
    for (size_t i = n; i > 1; i--) std::swap(v[i - 1], v[r.next() % i]);
    if (n && r.range(0, 2) == 0) v.push_back(v[0]); /* one cell twice */
    return v;
}
template<typename Mesh> auto cell_at(Mesh& msh, size_t c) { return *std::next(msh.cells_begin(), c); }

/* unit load and mass of the faces */
template<typename Mesh> void face_data(Mesh& msh, int deg, VVL& u, std::vector<VVL>& M)
{
    for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) {
        auto fc = *it;
        auto fb = disk::make_scalar_monomial_basis(msh, fc, deg);
        DV r = disk::make_rhs(msh, fc, fb, [](const typename Mesh::point_type&) -> double { return 1.0; }, 1);
        DM m = disk::make_mass_matrix(msh, fc, fb);
        u.push_back(svec(r));
        M.push_back(smat(m));
    }
}

template<typename Mesh, typename A, typename Take>
void labels(Trace& tr, Mesh& msh, A& asm_, size_t n, Take take)
{
    DV sol(n);
    for (size_t i = 0; i < n; i++) sol(i) = double(LABEL + i);
    VVL v;
    for (size_t c = 0; c < msh.cells_size(); c++) v.push_back(qvec(take(cell_at(msh, c), sol)));
    tr.emit(Obj()("ev", "Labels")("vals", v));
}
template<typename Mesh, typename Take>
void read_back(Trace& tr, Mesh& msh, Rng& r, size_t n, Take take)
{
    DV sol(n);
    for (size_t i = 0; i < n; i++) sol(i) = r.range(-50, 50);
    VVL v;
    for (size_t c = 0; c < msh.cells_size(); c++) v.push_back(qvec(take(cell_at(msh, c), sol)));
    tr.emit(Obj()("ev", "TakeLocal")("sol", ivec(sol))("vals", v));
}

Obj newev(const Cfg& c, size_t n, long other, long sys)
{
    Obj o; o("ev", "New")("asm", c.as)("fdeg", c.fdeg)("cdeg", c.cdeg)("n", n)("other", other)("sys", sys);
    return o;
}
template<typename Mesh> size_t nfb(const Cfg& c) { return disk::scalar_basis_size(c.fdeg, Mesh::dimension - 1); }

constexpr size_t NMAX = 130;

template<typename Mesh> void play_scalar(Trace& tr, Mesh& msh, const Cfg& c)
{
    using BC = disk::scalar_boundary_conditions<Mesh>;
    BC bc(msh);
    Decl<true, BC>::run(tr, msh, bc, c, false);
    Rng r(c.seed * 31 + 7);
    disk::hho_degree_info hdi(c.cdeg, c.fdeg);
    size_t fb = nfb<Mesh>(c);
    auto mats = [&](size_t cl, DM& L, DV& b) { size_t k = disk::howmany_faces(msh, cell_at(msh, cl)) * fb; L = rmat(r, k, k); b = rvec(r, k); };
    VVL u; std::vector<VVL> M;
    face_data(msh, c.fdeg, u, M);
    double dir = double(r.range(-3, 7));
    auto df = [&](const typename Mesh::point_type&) -> double { return dir; };

    if (c.as == "diff0" || c.as == "diff") {
        bool b = c.as == "diff";
        auto A = b ? disk::make_diffusion_assembler(msh, hdi, bc) : disk::make_diffusion_assembler(msh, hdi);
        size_t n = A.RHS.size();
        if (n > NMAX) return;
        Obj o = newev(c, n, A.num_assembled_faces(), A.LHS.rows());
        o("dir", long(dir)); tr.emit(o);
        auto take = [&](auto cl, const DV& sol) { return b ? A.take_local_data(msh, cl, bc, sol) : r.range(0, 1) ? A.take_local_solution(msh, cl, sol, df) : A.take_local_data(msh, cl, sol, df); };
        labels(tr, msh, A, n, take);
        bool early = r.range(0, 1);
        bool dead = false;
        auto bcs = [&]() {
            for (int k = 0; k < 2 && !dead; k++) {
                std::string err;
                bool t = throws([&]() { if (k == 0) A.impose_neumann_boundary_conditions(msh, bc); else A.impose_robin_boundary_conditions(msh, bc); });
                size_t any = k == 0 ? bc.nb_faces_neumann() : bc.nb_faces_robin();
                tr.emit(Obj()("ev", k == 0 ? "Neumann" : "Robin")("threw", t)("u", u)("M", M));
                if (t && (any > 0 || !b)) dead = true;
            }
        };
        for (int cyc = 0; cyc < c.cycles; cyc++) {
        if (cyc) { A.RHS.setZero(); tr.emit(Obj()("ev", "Initialise")("what", "all")); }
        if (b && early) bcs();
        if (dead) return;
        for (auto cl : order(r, msh.cells_size())) {
            DM L; DV rhs; mats(cl, L, rhs);
            auto cc = cell_at(msh, cl);
            if (r.range(0, 9) == 0) {
                bool t = throws([&]() { if (b) A.assemble(msh, cc, L, rhs, df); else A.assemble(msh, cc, bc, L, rhs); });
                tr.emit(Obj()("ev", "Wrong")("threw", t));
            }
            if (b) A.assemble(msh, cc, bc, L, rhs, 1 + r.range(0, 1)); else A.assemble(msh, cc, L, rhs, df, 1 + r.range(0, 1));
            tr.emit(Obj()("ev", "Assemble")("cell", cl)("lhs", imat(L))("rhs", ivec(rhs)));
        }
        if (b && !early) bcs();
        if (dead) return;
        A.finalize();
        tr.emit(Obj()("ev", "Finalize")("A", sparse(A.LHS))("b", svec(A.RHS)));
        read_back(tr, msh, r, n, take);
        }
        if (!b) { bool t = throws([&]() { if (r.range(0, 1)) A.impose_neumann_boundary_conditions(msh, bc); else A.impose_robin_boundary_conditions(msh, bc); });
            tr.emit(Obj()("ev", "Wrong")("threw", t)); }
    }
    if (c.as == "primal") {
        auto A = disk::make_scalar_primal_hho_assembler(msh, hdi, bc);
        size_t n = A.RHS.size();
        if (n > NMAX) return;
        tr.emit(newev(c, n, -1, A.global_system_size()));
        auto take = [&](auto cl, const DV& sol) { return A.take_local_solution(msh, cl, bc, sol); };
        labels(tr, msh, A, n, take);
        for (int cyc = 0; cyc < c.cycles; cyc++) {
            if (cyc) { A.initialize(); tr.emit(Obj()("ev", "Initialise")("what", "all")); }
            for (auto cl : order(r, msh.cells_size())) {
                DM L; DV rhs; mats(cl, L, rhs);
                A.assemble(msh, cell_at(msh, cl), bc, L, rhs, 1 + r.range(0, 1));
                tr.emit(Obj()("ev", "Assemble")("cell", cl)("lhs", imat(L))("rhs", ivec(rhs)));
            }
            for (int k = 0; k < 2; k++) {
                bool t = throws([&]() { if (k == 0) A.impose_neumann_boundary_conditions(msh, bc); else A.impose_robin_boundary_conditions(msh, bc); });
                tr.emit(Obj()("ev", k == 0 ? "Neumann" : "Robin")("threw", t)("u", u)("M", M));
                if (t) return;
            }
            A.finalize();
            tr.emit(Obj()("ev", "Finalize")("A", sparse(A.LHS))("b", svec(A.RHS)));
            read_back(tr, msh, r, n, take);
        }
        DV sol = rvec(r, n);
        tr.emit(Obj()("ev", "Expand")("sol", ivec(sol))("vals", qvec(A.expand_solution(msh, bc, sol))));
    }
    if constexpr (Mesh::dimension > 1)
    if (c.as == "basic0" || c.as == "basicD") {
        using fbt = typename disk::hho::slapl::hho_space<Mesh>::face_basis_type;
        using Asm = disk::hho::basic_condensed_assembler<Mesh, fbt>;
        std::vector<bool> dl(msh.faces_size());
        bool b = c.as == "basicD";
        for (size_t i = 0; i < dl.size(); i++) dl[i] = r.range(0, 2) == 0;
        auto A = b ? Asm(msh, c.fdeg, dl) : Asm(msh, c.fdeg);
        size_t n = A.RHS.size();
        if (n > NMAX) return;
        Obj o = newev(c, n, -1, A.dofs());
        o("dlist", dl); tr.emit(o);
        auto take = [&](auto cl, const DV& sol) { return A.take_local_solution(msh, cl, sol); };
        labels(tr, msh, A, n, take);
        for (int cyc = 0; cyc < c.cycles; cyc++) {
            if (cyc) { A.RHS.setZero(); tr.emit(Obj()("ev", "Initialise")("what", "all")); }
            for (auto cl : order(r, msh.cells_size())) {
                DM L; DV rhs; mats(cl, L, rhs);
                A.assemble(msh, cell_at(msh, cl), L, rhs);
                tr.emit(Obj()("ev", "Assemble")("cell", cl)("lhs", imat(L))("rhs", ivec(rhs)));
            }
            A.finalize();
            tr.emit(Obj()("ev", "Finalize")("A", sparse(A.LHS))("b", svec(A.RHS)));
            read_back(tr, msh, r, n, take);
        }
    }
    if (c.as == "dg" || c.as == "dgeig") {
        size_t nb = 1 + c.fdeg + 2 * c.cdeg, n = nb * msh.cells_size();
        if (n > NMAX) return;
        auto probe = [&]() {
            VVL v;
            for (size_t k = 0; k < msh.cells_size(); k++) {
                VL x(nb, -1);
                DM D = DM::Zero(nb, nb);
                DV e(nb);
                for (size_t i = 0; i < nb; i++) { e(i) = double(i + 1); D(i, i) = double(i + 1); }
                DV g;
                if (c.as == "dg") {
                    auto A = disk::make_discontinuous_galerkin_assembler(msh, nb);
                    A.assemble(msh, cell_at(msh, k), DM(DM::Zero(nb, nb)), e);
                    A.finalize();
                    g = A.RHS;
                } else {
                    auto A = disk::make_discontinuous_galerkin_eigenvalue_assembler(msh, nb);
                    A.assemble(msh, cell_at(msh, k), D);
                    A.finalize();
                    g = DM(A.gM).diagonal();
                }
                for (long i = 0; i < g.size(); i++) { long q = std::lround(g(i)); if (q >= 1 && q <= long(nb)) x[q - 1] = LABEL + i; }
                v.push_back(x);
            }
            return v;
        };
        auto begin = [&](size_t sz) {
            Obj o = newev(c, n, -1, sz);
            o("nb", nb); tr.emit(o);
            tr.emit(Obj()("ev", "Labels")("vals", probe()));
        };
        auto loop = [&](auto& A) {
            for (auto cl : order(r, msh.cells_size())) {
                DM L = rmat(r, nb, nb); DV rhs = rvec(r, nb);
                auto cc = cell_at(msh, cl);
                if constexpr (requires { A.RHS; }) A.assemble(msh, cc, L, rhs); else A.assemble(msh, cc, L);
                tr.emit(Obj()("ev", "AssembleCell")("cell", cl)("lhs", imat(L))("rhs", ivec(rhs)));
                size_t o2 = r.next() % msh.cells_size();
                DM L2 = rmat(r, nb, nb);
                A.assemble(msh, cc, cell_at(msh, o2), L2);
                tr.emit(Obj()("ev", "AssemblePair")("row", cl)("col", o2)("lhs", imat(L2)));
            }
            A.finalize();
        };
        if (c.as == "dg") {
            auto A = disk::make_discontinuous_galerkin_assembler(msh, nb);
            begin(A.syssz);
            for (int cyc = 0; cyc < c.cycles; cyc++) {
                if (cyc) { A.RHS.setZero(); tr.emit(Obj()("ev", "Initialise")("what", "all")); }
                loop(A);
                tr.emit(Obj()("ev", "Finalize")("A", sparse(A.LHS))("b", svec(A.RHS)));
            }
        } else {
            auto A = disk::make_discontinuous_galerkin_eigenvalue_assembler(msh, nb);
            begin(A.syssz);
            for (int cyc = 0; cyc < c.cycles; cyc++) {
                if (cyc) tr.emit(Obj()("ev", "Initialise")("what", "all"));
                loop(A);
                tr.emit(Obj()("ev", "Finalize")("A", sparse(A.gK))("b", sparse(A.gM)));
            }
        }
    }
}

template<typename Mesh> void play_stokes(Trace& tr, Mesh& msh, const Cfg& c)
{
    using BC = disk::vector_boundary_conditions<Mesh>;
    constexpr size_t D = Mesh::dimension;
    BC bc(msh);
    Decl<false, BC>::run(tr, msh, bc, c, true);
    Rng r(c.seed * 37 + 5);
    disk::hho_degree_info hdi(c.cdeg, c.fdeg);
    size_t nc = disk::vector_basis_size(c.cdeg, D, D), nf = disk::vector_basis_size(c.fdeg, D - 1, D), np = disk::scalar_basis_size(c.fdeg, D);
    auto weights = [&](auto cl) {
        auto b = disk::make_scalar_monomial_basis(msh, cl, c.fdeg);
        return DV(disk::make_rhs(msh, cl, b, [](const typename Mesh::point_type&) -> double { return 1.0; }, 1));
    };
    auto cat = [](const DV& a, const DV& b) { DV x(a.size() + b.size()); x << a, b; return x; };
    if (c.as == "stokes") {
        auto A = disk::make_stokes_assembler(msh, hdi, bc);
        size_t n = A.RHS.size();
        if (n > NMAX) return;
        tr.emit(newev(c, n, A.num_assembled_faces(), A.global_system_size()));
        auto take = [&](auto cl, const DV& sol) { return cat(A.take_velocity(msh, cl, sol), A.take_pressure(msh, cl, sol)); };
        labels(tr, msh, A, n, take);
        for (int cyc = 0; cyc < c.cycles; cyc++) {
            if (cyc) { A.initialize(); tr.emit(Obj()("ev", "Initialise")("what", "all")); }
            for (auto cl : order(r, msh.cells_size())) {
                auto cc = cell_at(msh, cl);
                size_t nv = nc + disk::howmany_faces(msh, cc) * nf;
                bool all = r.range(0, 1);
                DM LA = rmat(r, nv, nv), LB = rmat(r, np, nv);
                DV rhs = rvec(r, all ? nv : nc);
                if (all) A.assemble_alg(msh, cc, LA, LB, rhs); else A.assemble(msh, cc, LA, LB, rhs);
                tr.emit(Obj()("ev", "Stokes")("cell", cl)("A", imat(LA))("B", imat(LB))("rhs", ivec(rhs))("all", all)("w", svec(weights(cc))));
            }
            A.finalize();
            tr.emit(Obj()("ev", "Finalize")("A", sparse(A.LHS))("b", svec(A.RHS)));
            read_back(tr, msh, r, n, take);
        }
    } else {
        auto A = disk::make_stokes_assembler_alg(msh, hdi, bc);
        size_t n = A.RHS.size();
        if (n > NMAX) return;
        tr.emit(newev(c, n, -1, A.global_system_size()));
        auto take = [&](auto cl, const DV& sol) { return cat(A.take_velocity(msh, cl, sol), A.take_pressure(msh, cl, sol)); };
        labels(tr, msh, A, n, take);
        for (int cyc = 0; cyc < c.cycles; cyc++) {
            if (cyc) { A.initialize_lhs(); A.initialize_rhs(); tr.emit(Obj()("ev", "Initialise")("what", "all")); }
            for (auto cl : order(r, msh.cells_size())) {
                auto cc = cell_at(msh, cl);
                size_t nv = nc + disk::howmany_faces(msh, cc) * nf;
                DM LA = rmat(r, nv, nv), LB = rmat(r, np, nv);
                A.assemble_lhs(msh, cc, LA, LB);
                tr.emit(Obj()("ev", "StokesLhs")("cell", cl)("A", imat(LA))("B", imat(LB))("w", svec(weights(cc))));
            }
            A.finalize_lhs();
            for (int k = 0; k < 2; k++) {
                if (k) { A.initialize_rhs(); tr.emit(Obj()("ev", "Initialise")("what", "rhs")); }
                for (auto cl : order(r, msh.cells_size())) {
                    auto cc = cell_at(msh, cl);
                    DV rhs = rvec(r, nc + disk::howmany_faces(msh, cc) * nf);
                    A.assemble_rhs(msh, cc, rhs);
                    tr.emit(Obj()("ev", "StokesRhs")("cell", cl)("rhs", ivec(rhs)));
                }
                A.finalize_rhs();
                tr.emit(Obj()("ev", "Finalize")("A", sparse(A.LHS))("b", svec(A.RHS)));
                read_back(tr, msh, r, n, take);
            }
        }
    }
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    std::ifstream f(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    std::map<long, std::vector<Cfg>> cs;
    Cfg c; long k = 0;
    while (f >> c.doc >> c.as >> c.fdeg >> c.cdeg >> c.cycles >> c.seed) {
        c.slots.assign(6, "");
        for (auto& s : c.slots) f >> s;
        if (k++ % parts == part) cs[c.doc].push_back(c);
    }
    for (auto& d : docs) {
        auto it = cs.find(d.n);
        if (it == cs.end()) continue;
        guarded(tr, "doc " + std::to_string(d.n), [&]() { with_mesh(d, [&](auto& msh, const Doc& dd) {
            using Mesh = std::decay_t<decltype(msh)>;
            Obj b; b("ev", "Mesh")("n", dd.n); snapshot(b, msh, dd.scale); tr.emit(b);
            for (auto& h : it->second) {
                if constexpr (Mesh::dimension > 1) { if (h.as == "stokes" || h.as == "stokesalg") { play_stokes(tr, msh, h); continue; } }
                if (h.as != "stokes" && h.as != "stokesalg") play_scalar(tr, msh, h);
            }
        }); });
    }
    tr.emit(Obj()("ev", "End"));
    return 0;
}
