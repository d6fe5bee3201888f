/* Mesh queries under histories Build; Query; Transform; Query; Mark; Query.
 * args: OUT DOCS SEED */
#include <map>
#include <optional>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/loaders/loader_utils.hpp"
using namespace vh;

template<typename F> bool throws(F f) { try { f(); return false; } catch (...) { return true; } }

template<typename Mesh> void query(Trace& tr, Mesh& msh, const Doc& d)
{
    using face_id = typename Mesh::face_type::id_type;
    Obj o;
    o("ev", "Query");
    snapshot(o, msh, d.scale);
    o("ncells", size_t(msh.cells_size()))("nfaces", size_t(msh.faces_size()))("npoints", size_t(msh.points_size()));
    std::vector<long> clk, cof, cix, dom, flk, fof, bidf, bidi, nfc;
    std::vector<bool> isbId, isbFc, hasb;
    std::vector<std::vector<long>> cfid, cpts, fpts, neigh;
    auto cvf = disk::connectivity_via_faces(msh);
    size_t k = 0;
    const Mesh& cm = msh;
    for (auto& cl : cells(msh)) {
        clk.push_back(long(size_t(msh.lookup(cl))));
        cof.push_back(offset(msh, cl));
        cix.push_back(msh[k] == cl ? long(k) : -1);
        dom.push_back(msh.domain_info(cl).id());
        nfc.push_back(howmany_faces(msh, cl));
        hasb.push_back(disk::has_faces_on_boundary(msh, cl));
        std::vector<long> ids, ngh;
        for (auto& x : faces_id(msh, cl)) ids.push_back(long(size_t(x)));
        cfid.push_back(ids);
        for (auto& fc : faces(msh, cl)) {
            auto [n, ok] = cvf.neighbour_via(msh, cl, fc);
            ngh.push_back(ok ? long(size_t(msh.lookup(n))) : -1);
        }
        neigh.push_back(ngh);
        std::vector<long> p;
        for (auto& x : points(msh, cl)) for (size_t j = 0; j < Mesh::dimension; j++) p.push_back(Q(x[j], d.scale));
        cpts.push_back(p);
        k++;
    }
    k = 0;
    for (auto& fc : faces(cm)) {
        flk.push_back(long(size_t(msh.lookup(fc))));
        fof.push_back(offset(msh, fc));
        isbId.push_back(msh.is_boundary(face_id(k)));
        isbFc.push_back(msh.is_boundary(fc));
        bool t1 = throws([&] { msh.boundary_id(fc); }), t2 = throws([&] { msh.boundary_id(face_id(k)); });
        bidf.push_back(t1 ? -1 : long(msh.boundary_id(fc)));
        bidi.push_back(t2 ? -1 : long(msh.boundary_id(face_id(k))));
        std::vector<long> p;
        for (auto& x : points(msh, fc)) for (size_t j = 0; j < Mesh::dimension; j++) p.push_back(Q(x[j], d.scale));
        fpts.push_back(p);
        k++;
    }
    o("clk", clk)("cof", cof)("cix", cix)("dom", dom)("nfc", nfc)("hasb", hasb)("cfid", cfid)("cpts", cpts)("neigh", neigh);
    o("flk", flk)("fof", fof)("isbId", isbId)("isbFc", isbFc)("bidf", bidf)("bidi", bidi)("fpts", fpts);
    auto ids = msh.boundary_id_list();
    std::vector<long> idl(ids.begin(), ids.end());
    o("bidlist", idl)("nbnd", size_t(msh.boundary_faces_size()))("nint", size_t(msh.internal_faces_size()));
    std::vector<std::vector<long>> per;
    std::vector<long> cnt, b1, b2, b3, in;
    for (size_t id = 0; id < 15; id++) {
        cnt.push_back(msh.boundary_faces_size(id));
        std::vector<long> l;
        for (auto it = msh.boundary_faces_begin(id); it != msh.boundary_faces_end(id); ++it) l.push_back(long(size_t(msh.lookup(*it))));
        per.push_back(l);
    }
    for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); ++it) b1.push_back(long(size_t(msh.lookup(*it))));
    for (auto it = cm.boundary_faces_begin(); it != cm.boundary_faces_end(); ++it) b2.push_back(long(size_t(msh.lookup(*it))));
    for (auto& fc : boundary_faces(msh)) b3.push_back(long(size_t(msh.lookup(fc))));
    for (auto it = msh.internal_faces_begin(); it != msh.internal_faces_end(); ++it) in.push_back(long(size_t(msh.lookup(*it))));
    o("bcnt", cnt)("bper", per)("biter", b1)("bitercst", b2)("biterpx", b3)("inter", in);
    disk::bounding_box<Mesh> bb(msh);
    std::vector<long> lo, hi;
    for (size_t j = 0; j < Mesh::dimension; j++) { lo.push_back(Q(bb.min()[j], d.scale)); hi.push_back(Q(bb.max()[j], d.scale)); }
    o("bbmin", lo)("bbmax", hi);
    tr.emit(o);
}

template<typename Mesh> void history(Trace& tr, Mesh& msh, const Doc& d, int seed)
{
    Rng r(seed * 1000 + d.n);
    std::vector<long> dm(d.dom.begin(), d.dom.end());
    std::vector<std::vector<long>> dc, bp;
    std::vector<long> bi;
    for (auto& c : d.cells) dc.push_back(std::vector<long>(c.begin(), c.end()));
    for (auto& [p, id] : d.bnd) { bp.push_back(std::vector<long>(p.begin(), p.end())); bi.push_back(id); }
    Obj b;
    b("ev", "Build")("n", d.n);
    snapshot(b, msh, d.scale);
    b("dcells", dc)("ddom", dm)("dbnd", bp)("dbid", bi);
    tr.emit(b);
    query(tr, msh, d);

    /* an element that is not in the mesh */
    {
        Mesh m2 = Mesh();
        Doc d2 = d;
        build(d2, m2);
        auto st = m2.backend_storage();
        for (int rep = 0; rep < 2; rep++) {
        size_t ci = rep ? msh.cells_size() - 1 : r.range(0, msh.cells_size() - 1), fi = rep ? msh.faces_size() - 1 : r.range(0, msh.faces_size() - 1);
        Mesh mm; build(d2, mm);
        auto stt = mm.backend_storage();
        auto cl = *std::next(mm.cells_begin(), ci);
        auto fc = *std::next(mm.faces_begin(), fi);
        auto erase = [](auto& v, size_t i) { v.erase(v.begin() + i); };
        if constexpr (Mesh::dimension == 1) { erase(stt->edges, ci); erase(stt->nodes, fi); }
        else if constexpr (Mesh::dimension == 2) { erase(stt->surfaces, ci); erase(stt->edges, fi); }
        else { erase(stt->volumes, ci); erase(stt->surfaces, fi); }
        erase(stt->boundary_info, fi); erase(stt->subdomain_info, ci);
        tr.emit(Obj()("ev", "Absent")("cell", throws([&] { mm.lookup(cl); }))("face", throws([&] { mm.lookup(fc); }))
                ("bnd", throws([&] { mm.is_boundary(fc); })));
        }
    }

    /* affine transformation with integer coefficients */
    {
        std::vector<std::vector<long>> A(Mesh::dimension, std::vector<long>(Mesh::dimension, 0));
        std::vector<long> t;
        bool cart = d.kind == "cart";
        for (size_t i = 0; i < Mesh::dimension; i++) {
            A[i][i] = r.range(1, 3);
            for (size_t j = i + 1; j < Mesh::dimension && !cart; j++) A[i][j] = r.range(-1, 1);
            t.push_back(r.range(-4, 4));
        }
        msh.transform([&](const typename Mesh::point_type& p) {
            typename Mesh::point_type q;
            for (size_t i = 0; i < Mesh::dimension; i++) { double s = t[i]; for (size_t j = 0; j < Mesh::dimension; j++) s += A[i][j] * p[j]; q[i] = s; }
            return q;
        });
        Obj o; o("ev", "Transform")("A", A)("t", t);
        snapshot(o, msh, d.scale);
        tr.emit(o);
        query(tr, msh, d);
    }

    /* interface marking: flag some interior faces as boundary, then mark */
    {
        auto st = msh.backend_storage();
        std::vector<long> set, ids;
        for (size_t i = 0; i < msh.faces_size(); i++) {
            if (!st->boundary_info[i].is_boundary() && r.range(0, 2) == 0) {
                long id = r.range(0, 14);
                st->boundary_info[i] = disk::boundary_descriptor(id, true);
                set.push_back(i); ids.push_back(id);
            }
        }
        disk::mark_internal_faces(msh);
        Obj o; o("ev", "Mark")("set", set)("ids", ids);
        snapshot(o, msh, d.scale);
        tr.emit(o);
        query(tr, msh, d);
    }
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    int seed = atoi(argv[3]), part = atoi(argv[4]), parts = atoi(argv[5]);
    for (auto& d : docs)
        if (d.n % parts == part)
            guarded(tr, "doc " + std::to_string(d.n), [&]() { with_mesh(d, [&](auto& msh, const Doc& dd) { history(tr, msh, dd, seed); }); });
    return 0;
}
