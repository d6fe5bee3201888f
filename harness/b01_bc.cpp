/* Registry of boundary conditions. args: OUT DOCS HISTS PART PARTS
 * HISTS lines: <doc> <scalar> <nops> then ops "add K type id fun" | "all" | "factor v" */
#include <map>
#include <optional>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
using namespace vh;
using VL = std::vector<long>;
using VVL = std::vector<VL>;
struct Op { std::string op, k; long type = 0, id = 0, fun = 0; };
struct Hist { long doc; bool scalar; std::vector<Op> ops; };

template<bool S, size_t D> auto mkfun(long n)
{
    if constexpr (S) return [n](const disk::point<double, D>&) -> double { return double(n + 1); };
    else return [n](const disk::point<double, D>&) -> disk::static_vector<double, D> {
        disk::static_vector<double, D> v;
        for (size_t i = 0; i < D; i++) v(i) = double(n + 1) * double(i + 1);
        return v;
    };
}
inline VL val(double x) { return {Q(x, 1)}; }
template<int D> VL val(const Eigen::Matrix<double, D, 1>& v) { VL r; for (int i = 0; i < D; i++) r.push_back(Q(v(i), 1)); return r; }

std::string byKind(const std::vector<std::string>& v)
{
    return "{\"D\":" + v[0] + ",\"N\":" + v[1] + ",\"R\":" + v[2] + ",\"C\":" + v[3] + "}";
}

template<bool S, typename Mesh> void play(Trace& tr, Mesh& msh, const Hist& h)
{
    constexpr size_t D = Mesh::dimension;
    using BC = disk::BoundaryConditions<Mesh, S>;
    BC bc(msh);
    tr.emit(Obj()("ev", "Registry")("scalar", S));
    long nf[4] = {0, 0, 0, 0};
    auto query = [&]() {
        Obj o;
        o("ev", "Query");
        std::vector<bool> on[4], on2[4], cell[4];
        VL ty[4], ty2[4], id[4], id2[4];
        VVL fn[4];
        typename Mesh::point_type p;
        auto tv = [&](auto f) -> VL { try { return f(); } catch (...) { return VL(); } };
        for (size_t i = 0; i < msh.faces_size(); i++) {
            auto fc = *std::next(msh.faces_begin(), i);
            on[0].push_back(bc.is_dirichlet_face(i)); on2[0].push_back(bc.is_dirichlet_face(fc));
            on[1].push_back(bc.is_neumann_face(i)); on2[1].push_back(bc.is_neumann_face(fc));
            on[2].push_back(bc.is_robin_face(i)); on2[2].push_back(bc.is_robin_face(fc));
            on[3].push_back(bc.is_contact_face(i)); on2[3].push_back(bc.is_contact_face(fc));
            ty[0].push_back(bc.dirichlet_boundary_type(i)); ty2[0].push_back(bc.dirichlet_boundary_type(fc));
            ty[1].push_back(bc.neumann_boundary_type(i)); ty2[1].push_back(bc.neumann_boundary_type(fc));
            ty[2].push_back(bc.robin_boundary_type(i)); ty2[2].push_back(bc.robin_boundary_type(fc));
            ty[3].push_back(bc.contact_boundary_type(i)); ty2[3].push_back(bc.contact_boundary_type(fc));
            id[0].push_back(bc.dirichlet_boundary_id(i)); id2[0].push_back(bc.dirichlet_boundary_id(fc));
            id[1].push_back(bc.neumann_boundary_id(i)); id2[1].push_back(bc.neumann_boundary_id(fc));
            id[2].push_back(bc.robin_boundary_id(i)); id2[2].push_back(bc.robin_boundary_id(fc));
            id[3].push_back(bc.contact_boundary_id(i)); id2[3].push_back(bc.contact_boundary_id(fc));
            /* alternate between the two overloads */
            fn[0].push_back(tv([&]() { return i % 2 ? val(bc.dirichlet_boundary_func(i)(p)) : val(bc.dirichlet_boundary_func(fc)(p)); }));
            fn[1].push_back(tv([&]() { return i % 2 ? val(bc.neumann_boundary_func(i)(p)) : val(bc.neumann_boundary_func(fc)(p)); }));
            fn[2].push_back(tv([&]() { return i % 2 ? val(bc.robin_boundary_func(i)(p)) : val(bc.robin_boundary_func(fc)(p)); }));
            fn[3].push_back(tv([&]() { return i % 2 ? val(bc.contact_boundary_func(i)(p)) : val(bc.contact_boundary_func(fc)(p)); }));
        }
        VVL with, without, unk;
        VL nw, nwo;
        auto ids = [&](auto fcs) { VL r; for (auto& f : fcs) r.push_back(long(size_t(msh.lookup(f)))); return r; };
        for (auto& cl : msh) {
            cell[0].push_back(bc.cell_has_dirichlet_faces(cl)); cell[1].push_back(bc.cell_has_neumann_faces(cl));
            cell[2].push_back(bc.cell_has_robin_faces(cl)); cell[3].push_back(bc.cell_has_contact_faces(cl));
            with.push_back(ids(bc.faces_with_contact(cl))); without.push_back(ids(bc.faces_without_contact(cl)));
            unk.push_back(ids(bc.faces_with_unknowns(cl)));
            nw.push_back(bc.howmany_contact_faces(cl)); nwo.push_back(bc.howmany_without_contact_faces(cl));
        }
        VVL imp;
        for (size_t deg = 0; deg < 3; deg++) {
            VL r;
            for (size_t i = 0; i < msh.faces_size(); i++) { try { r.push_back(bc.dirichlet_imposed_dofs(i, deg)); } catch (...) { r.push_back(-1); } }
            imp.push_back(r);
        }
        auto J4 = [&](auto* a) { std::vector<std::string> v; for (int k = 0; k < 4; k++) v.push_back(js(a[k])); return byKind(v); };
        o.raw("on", J4(on)).raw("on2", J4(on2)).raw("type", J4(ty)).raw("type2", J4(ty2)).raw("id", J4(id)).raw("id2", J4(id2));
        o.raw("fn", J4(fn)).raw("cell", J4(cell));
        o("count", VL{long(bc.nb_faces_dirichlet()), long(bc.nb_faces_neumann()), long(bc.nb_faces_robin()), long(bc.nb_faces_contact())});
        o("total", long(bc.nb_faces_boundary()))("with", with)("without", without)("unknowns", unk)("nwith", nw)("nwithout", nwo)("imp", imp);
        tr.emit(o);
    };
    if (h.ops.size() > 2) query();
    for (auto& op : h.ops) {
        Obj o;
        o("ev", "Op")("op", op.op);
        if (op.op == "add") {
            o("k", op.k)("type", op.type)("id", op.id)("fun", op.fun);
            if (op.k == "D") bc.addDirichletBC(op.type, op.id, mkfun<S, D>(nf[0]++));
            if (op.k == "N") bc.addNeumannBC(op.type, op.id, mkfun<S, D>(nf[1]++));
            if (op.k == "R") bc.addRobinBC(op.type, op.id, mkfun<S, D>(nf[2]++));
            if (op.k == "C" && op.fun) bc.addContactBC(op.type, op.id, mkfun<true, D>(nf[3]++));
            if (op.k == "C" && !op.fun) bc.addContactBC(op.type, op.id);
        }
        else if (op.op == "all") bc.addDirichletEverywhere(mkfun<S, D>(nf[0]++));
        else { o("v", op.type); bc.multiplyAllFunctionsByAFactor(op.type); }
        tr.emit(o);
        if (h.ops.size() > 2) query();
    }
    if (h.ops.size() <= 2) query();
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    std::ifstream f(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    std::map<long, std::vector<Hist>> hs;
    Hist h; size_t n; long k = 0;
    while (f >> h.doc >> h.scalar >> n) {
        h.ops.clear();
        for (size_t i = 0; i < n; i++) {
            Op o; f >> o.op;
            if (o.op == "add") f >> o.k >> o.type >> o.id >> o.fun;
            else if (o.op == "factor") f >> o.type;
            h.ops.push_back(o);
        }
        if (k++ % parts == part) hs[h.doc].push_back(h);
    }
    for (auto& d : docs) {
        auto it = hs.find(d.n);
        if (it == hs.end()) continue;
        guarded(tr, "doc " + std::to_string(d.n), [&]() { with_mesh(d, [&](auto& msh, const Doc& dd) {
            Obj b; b("ev", "Mesh")("n", dd.n); snapshot(b, msh, dd.scale); tr.emit(b);
            for (auto& h : it->second) { if (h.scalar) play<true>(tr, msh, h); else play<false>(tr, msh, h); }
        }); });
    }
    tr.emit(Obj()("ev", "End"));
    return 0;
}
