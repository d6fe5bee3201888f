/* Projection of a mesh, through its public queries, to the snapshot record of
 * spec/MeshLib.tla */
#pragma once
#include "vh.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"

namespace vh {

template<typename Mesh> struct mesh_kind { static constexpr const char* v = "gen"; };
template<typename T, size_t D> struct mesh_kind<disk::simplicial_mesh<T, D>> { static constexpr const char* v = "simplex"; };
template<typename T, size_t D> struct mesh_kind<disk::cartesian_mesh<T, D>> { static constexpr const char* v = "cart"; };

template<typename Elem>
std::vector<long> pids(const Elem& e)
{
    std::vector<long> r;
    auto p = e.point_ids();
    for (auto& x : p) r.push_back(long(size_t(x)));
    return r;
}

/* basic snapshot: geometry, faces of cells, boundary data */
template<typename Mesh>
void snapshot(Obj& o, Mesh& msh, double scale)
{
    std::vector<std::vector<long>> pts, cells_, faces_, cf;
    std::vector<bool> isb, bint;
    std::vector<long> bid, sub;
    for (auto it = msh.points_begin(); it != msh.points_end(); ++it) {
        std::vector<long> p;
        auto pp = *it;
        for (size_t k = 0; k < Mesh::dimension; k++) p.push_back(Q(double(pp[k]), scale));
        pts.push_back(p);
    }
    for (auto& cl : msh) {
        cells_.push_back(pids(cl));
        std::vector<long> f;
        auto fcs = faces(msh, cl);
        for (auto& fc : fcs) f.push_back(long(size_t(msh.lookup(fc))));
        cf.push_back(f);
    }
    for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) {
        auto fc = *it;
        faces_.push_back(pids(fc));
        auto bi = msh.boundary_info(fc);
        isb.push_back(bi.is_boundary());
        bint.push_back(bi.is_internal());
        bid.push_back(bi.is_boundary() ? long(bi.id()) : -1);
    }
    o("dim", int(Mesh::dimension))("kind", mesh_kind<Mesh>::v)("scale", long(scale));
    o("pts", pts)("cells", cells_)("faces", faces_)("cf", cf)("isb", isb)("bid", bid)("bint", bint);
}

} // namespace vh
