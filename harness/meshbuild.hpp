/* Builds real meshes from the abstract documents of spec/MeshDoc.tla, filling
 * the mesh storage directly (independently of the mesh loaders). */
#pragma once
#include "vh.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"

namespace vh {

struct Doc
{
    int n = 0, dim = 0, scale = 1;
    std::string kind; /* simplex, cart, gen */
    std::vector<std::vector<double>> pts;
    std::vector<std::vector<size_t>> cells;
    std::vector<std::vector<std::vector<size_t>>> cfaces;
    std::vector<std::pair<std::vector<size_t>, size_t>> bnd;
    std::vector<size_t> dom;
};

inline std::vector<Doc> read_docs(const std::string& fn)
{
    std::ifstream f(fn);
    std::vector<Doc> res;
    std::string tag;
    auto lst = [&]() { size_t n; f >> n; std::vector<size_t> v(n); for (auto& x : v) f >> x; return v; };
    while (f >> tag) {
        if (tag != "DOC") { std::cerr << "bad doc file" << std::endl; _exit(97); }
        Doc d;
        size_t np, nc, nb;
        f >> d.n >> d.dim >> d.kind >> d.scale >> np >> nc >> nb;
        for (size_t i = 0; i < np; i++) { std::vector<double> p(d.dim); for (auto& x : p) { f >> x; x /= d.scale; } d.pts.push_back(p); }
        for (size_t i = 0; i < nc; i++) {
            size_t dm, nf;
            f >> dm;
            d.dom.push_back(dm);
            d.cells.push_back(lst());
            f >> nf;
            std::vector<std::vector<size_t>> fs;
            for (size_t k = 0; k < nf; k++) fs.push_back(lst());
            d.cfaces.push_back(fs);
        }
        for (size_t i = 0; i < nb; i++) { size_t id; f >> id; auto v = lst(); d.bnd.push_back({v, id}); }
        res.push_back(d);
    }
    return res;
}

template<typename Mesh> void build_common(const Doc& d, Mesh& msh)
{
    auto st = msh.backend_storage();
    using P = typename Mesh::point_type;
    for (size_t i = 0; i < d.pts.size(); i++) {
        P p;
        for (size_t k = 0; k < Mesh::dimension; k++) p[k] = typename Mesh::coordinate_type(d.pts[i][k]);
        st->points.push_back(p);
    }
}

template<typename V, typename D> std::vector<size_t> sort_by(V& v, std::vector<D>& data)
{
    std::vector<size_t> idx(v.size());
    for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
    std::sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return v[a] < v[b]; });
    V v2; std::vector<D> d2;
    for (auto i : idx) { v2.push_back(v[i]); d2.push_back(data[i]); }
    v = v2; data = d2;
    return idx;
}
template<typename V> void uniq(V& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
inline std::vector<disk::subdomain_descriptor> domains(const Doc& d)
{
    std::vector<disk::subdomain_descriptor> r;
    for (auto x : d.dom) r.push_back(disk::subdomain_descriptor(x));
    return r;
}
template<typename F, typename S>
void set_boundary(const std::vector<F>& faces, std::vector<disk::boundary_descriptor>& bi, const S& all)
{
    bi.assign(faces.size(), disk::boundary_descriptor());
    for (auto& [f, id] : all) {
        auto it = std::lower_bound(faces.begin(), faces.end(), f);
        if (it == faces.end() || !(*it == f)) { std::cerr << "boundary face not in document" << std::endl; _exit(97); }
        bi[std::distance(faces.begin(), it)] = disk::boundary_descriptor(id, true);
    }
}

template<typename T> void build(const Doc& d, disk::generic_mesh<T, 1>& msh)
{
    using M = disk::generic_mesh<T, 1>;
    auto st = msh.backend_storage();
    build_common(d, msh);
    using N = typename M::node_type; using E = typename M::edge_type;
    for (size_t i = 0; i < d.pts.size(); i++) st->nodes.push_back(N(disk::point_identifier<1>(i)));
    for (auto& c : d.cells) st->edges.push_back(E(typename N::id_type(c[0]), typename N::id_type(c[1])));
    st->subdomain_info = domains(d);
    sort_by(st->edges, st->subdomain_info);
    std::vector<std::pair<N, size_t>> b;
    for (auto& [p, id] : d.bnd) b.push_back({N(disk::point_identifier<1>(p[0])), id});
    set_boundary(st->nodes, st->boundary_info, b);
}
template<typename T> void build(const Doc& d, disk::simplicial_mesh<T, 2>& msh)
{
    using M = disk::simplicial_mesh<T, 2>;
    auto st = msh.backend_storage();
    build_common(d, msh);
    using N = typename M::node_type; using E = typename M::edge_type; using S = typename M::surface_type;
    for (size_t i = 0; i < d.pts.size(); i++) st->nodes.push_back(N({i}));
    for (auto& c : d.cells) {
        st->edges.push_back(E({c[0], c[1]})); st->edges.push_back(E({c[0], c[2]})); st->edges.push_back(E({c[1], c[2]}));
        st->surfaces.push_back(S({c[0], c[1], c[2]}));
    }
    uniq(st->edges);
    st->subdomain_info = domains(d);
    sort_by(st->surfaces, st->subdomain_info);
    std::vector<std::pair<E, size_t>> b;
    for (auto& [p, id] : d.bnd) b.push_back({E({p[0], p[1]}), id});
    set_boundary(st->edges, st->boundary_info, b);
}
template<typename T> void build(const Doc& d, disk::simplicial_mesh<T, 3>& msh)
{
    using M = disk::simplicial_mesh<T, 3>;
    auto st = msh.backend_storage();
    build_common(d, msh);
    using N = typename M::node_type; using E = typename M::edge_type; using S = typename M::surface_type; using V = typename M::volume_type;
    for (size_t i = 0; i < d.pts.size(); i++) st->nodes.push_back(N({i}));
    for (auto& c : d.cells) {
        for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) {
            st->edges.push_back(E({c[i], c[j]}));
            for (int k = j + 1; k < 4; k++) st->surfaces.push_back(S({c[i], c[j], c[k]}));
        }
        st->volumes.push_back(V({c[0], c[1], c[2], c[3]}));
    }
    uniq(st->edges); uniq(st->surfaces);
    st->subdomain_info = domains(d);
    sort_by(st->volumes, st->subdomain_info);
    std::vector<std::pair<S, size_t>> b;
    for (auto& [p, id] : d.bnd) b.push_back({S({p[0], p[1], p[2]}), id});
    set_boundary(st->surfaces, st->boundary_info, b);
}
template<typename T> void build(const Doc& d, disk::cartesian_mesh<T, 2>& msh)
{
    using M = disk::cartesian_mesh<T, 2>;
    auto st = msh.backend_storage();
    build_common(d, msh);
    using N = typename M::node_type; using E = typename M::edge_type; using S = typename M::surface_type;
    using pi = disk::point_identifier<2>;
    for (size_t i = 0; i < d.pts.size(); i++) st->nodes.push_back(N({pi(i)}));
    auto edge = [](size_t a, size_t b) { return E({pi(std::min(a, b)), pi(std::max(a, b))}); };
    for (auto& c : d.cells) {
        st->edges.push_back(edge(c[0], c[1])); st->edges.push_back(edge(c[0], c[2]));
        st->edges.push_back(edge(c[1], c[3])); st->edges.push_back(edge(c[2], c[3]));
        st->surfaces.push_back(S({pi(c[0]), pi(c[1]), pi(c[2]), pi(c[3])}));
    }
    uniq(st->edges);
    st->subdomain_info = domains(d);
    sort_by(st->surfaces, st->subdomain_info);
    std::vector<std::pair<E, size_t>> b;
    for (auto& [p, id] : d.bnd) b.push_back({edge(p[0], p[1]), id});
    set_boundary(st->edges, st->boundary_info, b);
}
template<typename T> void build(const Doc& d, disk::cartesian_mesh<T, 3>& msh)
{
    using M = disk::cartesian_mesh<T, 3>;
    auto st = msh.backend_storage();
    build_common(d, msh);
    using N = typename M::node_type; using E = typename M::edge_type; using S = typename M::surface_type; using V = typename M::volume_type;
    using pi = disk::point_identifier<3>;
    for (size_t i = 0; i < d.pts.size(); i++) st->nodes.push_back(N({pi(i)}));
    std::map<std::set<size_t>, S> byset;
    for (auto& q : d.cells) {
        std::vector<pi> c; for (auto x : q) c.push_back(pi(x));
        int es[12][2] = {{0,1},{0,2},{0,4},{1,3},{1,5},{2,3},{2,6},{3,7},{4,5},{4,6},{5,7},{6,7}};
        for (auto& e : es) st->edges.push_back(E({c[e[0]], c[e[1]]}));
        int fs[6][4] = {{0,2,6,4},{1,3,7,5},{0,1,3,2},{4,5,7,6},{0,4,5,1},{2,6,7,3}};
        for (auto& f : fs) {
            S s({c[f[0]], c[f[1]], c[f[2]], c[f[3]]});
            st->surfaces.push_back(s);
            byset[{q[f[0]], q[f[1]], q[f[2]], q[f[3]]}] = s;
        }
        st->volumes.push_back(V({c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]}));
    }
    uniq(st->edges); uniq(st->surfaces);
    st->subdomain_info = domains(d);
    sort_by(st->volumes, st->subdomain_info);
    std::vector<std::pair<S, size_t>> b;
    for (auto& [p, id] : d.bnd) b.push_back({byset.at(std::set<size_t>(p.begin(), p.end())), id});
    set_boundary(st->surfaces, st->boundary_info, b);
}
template<typename T> void build(const Doc& d, disk::generic_mesh<T, 2>& msh)
{
    using M = disk::generic_mesh<T, 2>;
    auto st = msh.backend_storage();
    build_common(d, msh);
    using N = typename M::node_type; using E = typename M::edge_type; using S = typename M::surface_type;
    using nid = typename N::id_type; using eid = typename E::id_type;
    for (size_t i = 0; i < d.pts.size(); i++) st->nodes.push_back(N(disk::point_identifier<2>(i)));
    auto edge = [](size_t a, size_t b) { return E(nid(std::min(a, b)), nid(std::max(a, b))); };
    for (auto& c : d.cells) for (size_t k = 0; k < c.size(); k++) st->edges.push_back(edge(c[k], c[(k + 1) % c.size()]));
    uniq(st->edges);
    for (auto& c : d.cells) {
        std::vector<eid> es;
        for (size_t k = 0; k < c.size(); k++)
            es.push_back(eid(std::distance(st->edges.begin(), std::lower_bound(st->edges.begin(), st->edges.end(), edge(c[k], c[(k + 1) % c.size()])))));
        std::sort(es.begin(), es.end());
        S s(es);
        std::vector<disk::point_identifier<2>> ps;
        for (auto x : c) ps.push_back(disk::point_identifier<2>(x));
        s.set_point_ids(std::move(ps));
        st->surfaces.push_back(s);
    }
    st->subdomain_info = domains(d);
    sort_by(st->surfaces, st->subdomain_info);
    std::vector<std::pair<E, size_t>> b;
    for (auto& [p, id] : d.bnd) b.push_back({edge(p[0], p[1]), id});
    set_boundary(st->edges, st->boundary_info, b);
}
template<typename T> void build(const Doc& d, disk::generic_mesh<T, 3>& msh)
{
    using M = disk::generic_mesh<T, 3>;
    auto st = msh.backend_storage();
    build_common(d, msh);
    using N = typename M::node_type; using E = typename M::edge_type; using S = typename M::surface_type; using V = typename M::volume_type;
    using nid = typename N::id_type; using eid = typename E::id_type; using sid = typename S::id_type;
    for (size_t i = 0; i < d.pts.size(); i++) st->nodes.push_back(N(disk::point_identifier<3>(i)));
    auto edge = [](size_t a, size_t b) { return E(nid(std::min(a, b)), nid(std::max(a, b))); };
    std::map<std::set<size_t>, std::vector<size_t>> fc;
    for (auto& cf : d.cfaces) for (auto& c : cf) {
        for (size_t k = 0; k < c.size(); k++) st->edges.push_back(edge(c[k], c[(k + 1) % c.size()]));
        fc.emplace(std::set<size_t>(c.begin(), c.end()), c);
    }
    uniq(st->edges);
    std::map<std::set<size_t>, S> byset;
    for (auto& [key, c] : fc) {
        std::vector<eid> es;
        for (size_t k = 0; k < c.size(); k++)
            es.push_back(eid(std::distance(st->edges.begin(), std::lower_bound(st->edges.begin(), st->edges.end(), edge(c[k], c[(k + 1) % c.size()])))));
        std::sort(es.begin(), es.end());
        S s(es);
        std::vector<disk::point_identifier<3>> ps;
        for (auto x : c) ps.push_back(disk::point_identifier<3>(x));
        s.set_point_ids(std::move(ps));
        st->surfaces.push_back(s);
        byset[key] = s;
    }
    std::sort(st->surfaces.begin(), st->surfaces.end());
    for (size_t i = 0; i < d.cells.size(); i++) {
        std::vector<sid> ss;
        for (auto& c : d.cfaces[i]) {
            auto s = byset.at(std::set<size_t>(c.begin(), c.end()));
            ss.push_back(sid(std::distance(st->surfaces.begin(), std::lower_bound(st->surfaces.begin(), st->surfaces.end(), s))));
        }
        std::sort(ss.begin(), ss.end());
        V v(ss);
        std::vector<disk::point_identifier<3>> ps;
        for (auto x : d.cells[i]) ps.push_back(disk::point_identifier<3>(x));
        v.set_point_ids(std::move(ps));
        st->volumes.push_back(v);
    }
    st->subdomain_info = domains(d);
    sort_by(st->volumes, st->subdomain_info);
    std::vector<std::pair<S, size_t>> b;
    for (auto& [p, id] : d.bnd) b.push_back({byset.at(std::set<size_t>(p.begin(), p.end())), id});
    set_boundary(st->surfaces, st->boundary_info, b);
}

/* call f(mesh, doc) with the mesh type the document asks for */
template<typename T = double, typename F>
void with_mesh(const Doc& d, F&& f)
{
    auto go = [&](auto msh) { build(d, msh); f(msh, d); };
    if (d.dim == 1) go(disk::generic_mesh<T, 1>());
    else if (d.dim == 2 && d.kind == "simplex") go(disk::simplicial_mesh<T, 2>());
    else if (d.dim == 2 && d.kind == "cart") go(disk::cartesian_mesh<T, 2>());
    else if (d.dim == 2) go(disk::generic_mesh<T, 2>());
    else if (d.dim == 3 && d.kind == "simplex") go(disk::simplicial_mesh<T, 3>());
    else if (d.dim == 3 && d.kind == "cart") go(disk::cartesian_mesh<T, 3>());
    else go(disk::generic_mesh<T, 3>());
}

} // namespace vh
