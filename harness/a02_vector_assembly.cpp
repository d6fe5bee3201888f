/* Assemblers of vector unknowns. args: OUT DOCS CFGS PART PARTS
 * CFGS lines: <doc> <asm> <fdeg> <nl> <cycles> <seed> <slot1> .. <slot6>; letters of a slot:
 * D c x y z p q r (Dirichlet types), N (Neumann), F G (contact with face, cell unknowns) */
#include <map>
#include <optional>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
#include "diskpp/methods/hho"
using namespace vh;
using VL = std::vector<long>;
using VVL = std::vector<VL>;
using DM = disk::dynamic_matrix<double>;
using DV = disk::dynamic_vector<double>;
struct Cfg { long doc; std::string as; int fdeg, nl, cycles; long seed; std::vector<std::string> slots; };
constexpr double SC = 1000;
constexpr long LABEL = 100000;
constexpr size_t NMAX = 150;

long R(double x) { double y = x * SC; return std::isfinite(y) && std::fabs(y) < 2e9 ? std::lround(y) : SENTINEL; }
VVL imat(const DM& A) { VVL r; for (int i = 0; i < A.rows(); i++) { VL x; for (int j = 0; j < A.cols(); j++) x.push_back(std::lround(A(i, j))); r.push_back(x); } return r; }
VL ivec(const DV& b) { VL r; for (int i = 0; i < b.size(); i++) r.push_back(std::lround(b(i))); return r; }
VL qvec(const DV& b) { VL r; for (int i = 0; i < b.size(); i++) r.push_back(Q(b(i), 1)); return r; }
VVL smat(const DM& A) { VVL r; for (int i = 0; i < A.rows(); i++) { VL x; for (int j = 0; j < A.cols(); j++) x.push_back(R(A(i, j))); r.push_back(x); } return r; }
VL svec(const DV& b) { VL r; for (int i = 0; i < b.size(); i++) r.push_back(R(b(i))); return r; }
DM rmat(Rng& r, int n, int m) { DM A(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A(i, j) = r.range(-9, 9); return A; }
DV rvec(Rng& r, int n, int k = 9) { DV b(n); for (int i = 0; i < n; i++) b(i) = r.range(-k, k); return b; }
template<typename F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
std::vector<size_t> order(Rng& r, size_t n)
{
    std::vector<size_t> v(n);
    for (size_t i = 0; i < n; i++) v[i] = i;
    for (size_t i = n; i > 1; i--) std::swap(v[i - 1], v[r.next() % i]);
    if (n && r.range(0, 2) == 0) v.push_back(v[0]); /* one cell twice */
    return v;
}
template<typename Mesh> auto cell_at(Mesh& msh, size_t c) { return *std::next(msh.cells_begin(), c); }
template<typename Mesh> auto face_at(Mesh& msh, size_t f) { return *std::next(msh.faces_begin(), f); }

template<typename Mesh, typename BC> void declare(Trace& tr, Mesh& msh, BC& bc, const Cfg& c, Rng& r)
{
    constexpr size_t D = Mesh::dimension;
    std::set<size_t> ids;
    for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); ++it) ids.insert(msh.boundary_id(*it));
    std::vector<size_t> idv(ids.begin(), ids.end());
    bool contact = c.as == "primal" || c.as == "nlmech" || c.as == "primalM" || c.as == "nlmechM";
    bool per_face = c.as == "primalM" || c.as == "nlmechM";
    tr.emit(Obj()("ev", "Registry")("scalar", false));
    const std::string dir = "Dcxyzpqr";
    long nf[2] = {0, 0};
    for (size_t s = 0; s < c.slots.size() && s < idv.size(); s++)
        for (char k : c.slots[s]) {
            if (k == '-') continue;
            if ((k == 'F' || k == 'G') && (!contact || (k == 'G' && per_face))) continue;
            size_t type; int ki;
            if (k == 'N') { ki = 1; type = disk::NEUMANN; }
            else if (k == 'F') { ki = 3; type = disk::SIGNORINI_FACE; }
            else if (k == 'G') { ki = 3; type = disk::SIGNORINI_CELL; }
            else {
                ki = 0; type = dir.find(k);
                if (D != 3 && (k == 'z' || k == 'q' || k == 'r') && r.range(0, 9)) type = k == 'z' ? disk::DX : disk::DY;
            }
            if (ki == 3) { bc.addContactBC(type, idv[s]); tr.emit(Obj()("ev", "Op")("op", "add")("k", "C")("type", type)("id", idv[s])("fun", 0)); continue; }
            long n = nf[ki]++;
            auto f = [n](const disk::point<double, D>&) -> disk::static_vector<double, D> {
                disk::static_vector<double, D> v;
                for (size_t i = 0; i < D; i++) v(i) = double(n + 1) * double(i + 1);
                return v;
            };
            if (ki == 0) bc.addDirichletBC(type, idv[s], f); else bc.addNeumannBC(type, idv[s], f);
            tr.emit(Obj()("ev", "Op")("op", "add")("k", ki == 0 ? "D" : "N")("type", type)("id", idv[s])("fun", 1));
        }
    if (r.range(0, 3) == 0) {
        long v = r.range(2, 4);
        bc.multiplyAllFunctionsByAFactor(double(v));
        tr.emit(Obj()("ev", "Op")("op", "factor")("v", v));
    }
}

template<typename Mesh> VVL unit_loads(Mesh& msh, const std::vector<int>& degs)
{
    VVL u;
    for (size_t f = 0; f < msh.faces_size(); f++) {
        if (degs[f] < 0) { u.push_back(VL()); continue; }
        auto fc = face_at(msh, f);
        auto fb = disk::make_scalar_monomial_basis(msh, fc, degs[f]);
        u.push_back(svec(disk::make_rhs(msh, fc, fb, [](const typename Mesh::point_type&) -> double { return 1.0; }, 1)));
    }
    return u;
}

template<typename Mesh> void play(Trace& tr, Mesh& msh, const Cfg& c)
{
    using BC = disk::vector_boundary_conditions<Mesh>;
    constexpr size_t D = Mesh::dimension;
    Rng r(c.seed * 41 + 3);
    BC bc(msh);
    declare(tr, msh, bc, c, r);
    disk::hho_degree_info hdi(c.fdeg, c.fdeg);
    size_t NFa = msh.faces_size();
    bool per_face = c.as == "primalM" || c.as == "nlmechM", mech = c.as == "mech", nl = c.nl || c.as == "nlmech" || c.as == "nlmechM";
    disk::MeshDegreeInfo<Mesh> mdi(msh, size_t(c.fdeg));
    std::vector<int> degs(NFa, c.fdeg);
    for (size_t f = 0; f < NFa; f++) {
        bool plain = !bc.is_dirichlet_face(f) && !bc.is_neumann_face(f) && !bc.is_contact_face(f);
        if (per_face) {
            degs[f] = r.range(0, c.fdeg + 1);
            mdi.degree(msh, face_at(msh, f), degs[f]);
            if (plain && r.range(0, 4) == 0) { mdi.hasUnknowns(msh, face_at(msh, f), false); degs[f] = -1; }
        }
        else if (!mech && bc.contact_boundary_type(f) == disk::SIGNORINI_FACE) degs[f] = c.fdeg + 1;
    }
    auto nbf = [&](size_t f) -> size_t { return degs[f] < 0 ? 0 : disk::vector_basis_size(degs[f], D - 1, D); };
    size_t tot = 0;
    for (size_t f = 0; f < NFa; f++) tot += nbf(f);
    if (tot > NMAX) return;
    VVL u = unit_loads(msh, degs);
    std::vector<DV> cur(NFa);
    for (size_t f = 0; f < NFa; f++) cur[f] = DV::Zero(nbf(f));
    std::vector<std::vector<size_t>> ids(msh.cells_size());
    for (size_t k = 0; k < msh.cells_size(); k++) for (auto& fc : faces(msh, cell_at(msh, k))) ids[k].push_back(msh.lookup(fc));

    auto run = [&](auto make) {
        using A_t = std::decay_t<decltype(make())>;
        std::optional<A_t> Ao;
        bool t = throws([&]() { Ao.emplace(make()); });
        Obj o; o("ev", "New")("asm", c.as)("fdeg", c.fdeg)("degs", degs)("nl", nl)("threw", t);
        o("n", t ? 0 : Ao->RHS.size())("rows", t ? 0 : Ao->LHS.rows());
        if constexpr (requires(A_t a) { a.global_system_size(); }) o("sys", t ? -1 : long(Ao->global_system_size())); else o("sys", -1);
        tr.emit(o);
        if (t) return;
        A_t& A = *Ao;
        size_t n = A.RHS.size();
        constexpr bool is_mech = requires(A_t a) { a.setZeroRhs(); };
        constexpr bool can_lin = is_mech || requires(A_t a, DV v) { a.expand_solution(msh, bc, v); };
        int odi = r.range(0, 2);
        auto expand = [&](const DV& sol) -> DV {
            if constexpr (is_mech) return nl ? A.expand_solution_nl(msh, bc, sol, cur, odi) : A.expand_solution(msh, bc, sol, odi);
            else if constexpr (can_lin) return nl ? A.expand_solution_nonlinear(msh, bc, sol, cur, odi) : A.expand_solution(msh, bc, sol, odi);
            else return A.expand_solution_nonlinear(msh, bc, sol, cur, odi);
        };
        auto split = [&](const DV& x) { std::vector<DV> v(NFa); size_t p = 0; for (size_t f = 0; f < NFa; f++) { v[f] = x.segment(p, nbf(f)); p += nbf(f); } return v; };
        auto take = [&](size_t k, const DV& sol) -> DV {
            auto cl = cell_at(msh, k);
            if constexpr (is_mech) { if (!nl) return A.take_local_data(msh, cl, bc, sol, odi); }
            else if constexpr (can_lin) return nl ? A.take_local_solution_nonlinear(msh, cl, bc, sol, cur, odi) : A.take_local_solution(msh, cl, bc, sol, odi);
            else return A.take_local_solution_nonlinear(msh, cl, bc, sol, cur, odi);
            auto v = split(expand(sol));
            DV x(0);
            for (auto f : ids[k]) { DV y(x.size() + v[f].size()); y << x, v[f]; x = y; }
            return x;
        };
        auto take_face = [&](size_t f, const DV& sol) -> DV {
            auto fc = face_at(msh, f);
            if constexpr (is_mech) return split(expand(sol))[f];
            else if constexpr (can_lin) return nl ? A.take_local_solution_nonlinear(msh, fc, bc, sol, cur, odi) : A.take_local_solution(msh, fc, bc, sol, odi);
            else return A.take_local_solution_nonlinear(msh, fc, bc, sol, cur, odi);
        };
        auto set_current = [&]() {
            VVL v;
            for (size_t f = 0; f < NFa; f++) { cur[f] = rvec(r, nbf(f)); v.push_back(ivec(cur[f])); }
            tr.emit(Obj()("ev", "Current")("cur", v));
        };
        if (nl) set_current();
        DV lab(n);
        for (size_t i = 0; i < n; i++) lab(i) = double(LABEL + i);
        VVL v;
        for (size_t k = 0; k < msh.cells_size(); k++) v.push_back(qvec(take(k, lab)));
        tr.emit(Obj()("ev", "Labels")("vals", v));
        bool early = r.range(0, 1);
        auto neumann = [&]() {
            bool t2 = throws([&]() { A.impose_neumann_boundary_conditions(msh, bc); });
            tr.emit(Obj()("ev", "Neumann")("threw", t2)("u", u));
            return !t2;
        };
        for (int cyc = 0; cyc < c.cycles; cyc++) {
            if (cyc) {
                if (nl) set_current();
                if constexpr (is_mech) A.setZeroRhs();
                else if (r.range(0, 1)) A.initialize();
                else { A.initialize_rhs(); A.initialize_lhs(); }
                tr.emit(Obj()("ev", "Initialise")("what", "all"));
            }
            if (early && !neumann()) return;
            for (auto k : order(r, msh.cells_size())) {
                size_t sz = 0;
                for (auto f : ids[k]) sz += nbf(f);
                DM L = rmat(r, sz, sz); DV rhs = rvec(r, sz);
                auto cl = cell_at(msh, k);
                if constexpr (is_mech) {
                    auto lc = std::make_pair(L, rhs);
                    if (nl) A.assemble_nl(msh, cl, bc, lc, cur, odi); else A.assemble(msh, cl, bc, lc, odi);
                } else if constexpr (can_lin) {
                    if (nl) A.assemble_nonlinear(msh, cl, bc, L, rhs, cur, odi); else A.assemble(msh, cl, bc, L, rhs, odi);
                } else A.assemble_nonlinear(msh, cl, bc, L, rhs, cur, odi);
                tr.emit(Obj()("ev", "Assemble")("cell", k)("lhs", imat(L))("rhs", ivec(rhs)));
            }
            if (!early && !neumann()) return;
            A.finalize();
            tr.emit(Obj()("ev", "Finalize")("A", smat(DM(A.LHS)))("b", svec(A.RHS)));
            DV sol = rvec(r, n, 50);
            VVL tv, fv;
            for (size_t k = 0; k < msh.cells_size(); k++) tv.push_back(qvec(take(k, sol)));
            tr.emit(Obj()("ev", "TakeLocal")("sol", ivec(sol))("vals", tv));
            for (size_t f = 0; f < NFa; f++) fv.push_back(qvec(take_face(f, sol)));
            tr.emit(Obj()("ev", "TakeFace")("sol", ivec(sol))("vals", fv));
            tr.emit(Obj()("ev", "Expand")("sol", ivec(sol))("vals", qvec(expand(sol))));
        }
    };
    if (c.as == "mech") run([&]() { return disk::make_mechanics_assembler(msh, hdi, bc); });
    if (c.as == "primal") run([&]() { return disk::make_vector_primal_hho_assembler(msh, hdi, bc); });
    if (c.as == "primalM") run([&]() { return disk::make_vector_primal_hho_assembler(msh, mdi, bc); });
    if (c.as == "nlmech") run([&]() { return disk::make_vector_mechanics_hho_assembler(msh, hdi, bc); });
    if (c.as == "nlmechM") run([&]() { return disk::make_vector_mechanics_hho_assembler(msh, mdi, bc); });
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    std::ifstream f(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    std::map<long, std::vector<Cfg>> cs;
    Cfg c; long k = 0;
    while (f >> c.doc >> c.as >> c.fdeg >> c.nl >> c.cycles >> c.seed) {
        c.slots.assign(6, "");
        for (auto& s : c.slots) f >> s;
        if (k++ % parts == part) cs[c.doc].push_back(c);
    }
    for (auto& d : docs) {
        auto it = cs.find(d.n);
        if (it == cs.end()) continue;
        guarded(tr, "doc " + std::to_string(d.n), [&]() { with_mesh(d, [&](auto& msh, const Doc& dd) {
            using Mesh = std::decay_t<decltype(msh)>;
            Obj b; b("ev", "Mesh")("n", dd.n); snapshot(b, msh, dd.scale); tr.emit(b);
            if constexpr (Mesh::dimension > 1) for (auto& h : it->second) play(tr, msh, h);
        }); });
    }
    tr.emit(Obj()("ev", "End"));
    return 0;
}
