/* Output of meshes and fields. args: OUT DOCS PROGRAMS SCRATCHDIR SEED PART PARTS */
#include <iomanip>
#include <map>
#include <optional>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "json.hpp"
#include "diskpp/common/eigen.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/output/silo.hpp"
#include "diskpp/output/gmshConvertMesh.hpp"
using namespace vh;
using VL = std::vector<long>;
using VVL = std::vector<VL>;
using S = std::string;
static S scratch;
template<typename M> struct is_generic { static constexpr bool v = false; };
template<typename T, size_t D> struct is_generic<disk::generic_mesh<T, D>> { static constexpr bool v = true; };

static double val(long k, long c, long i) { return double((k * 37 + c * 53 + i * 11) % 201 - 100); }
static std::vector<double> vals(long k, long c, size_t n) { std::vector<double> r; for (size_t i = 0; i < n; i++) r.push_back(val(k, c, i)); return r; }

/* ---- what a silo file holds, read with the silo library ---- */
static void content(Trace& tr, const S& fn, int file, double s)
{
    Obj o;
    o("ev", "Content")("file", file);
    DBfile* db = access(fn.c_str(), R_OK) == 0 ? DBOpen(fn.c_str(), DB_UNKNOWN, DB_READ) : nullptr;
    o("ok", db != nullptr);
    S ucd = "[", ptm = "[", vars = "[", pvars = "[", defs = "[";
    auto add = [](S& l, const Obj& x) { if (l.size() > 1) l += ","; l += x.str(); };
    if (db) {
        DBtoc* t0 = DBGetToc(db);
        auto names = [](int n, char** p) { std::vector<S> r; for (int i = 0; i < n; i++) r.push_back(p[i]); return r; };
        auto nu = names(t0->nucdmesh, t0->ucdmesh_names), np = names(t0->nptmesh, t0->ptmesh_names);
        auto nv = names(t0->nucdvar, t0->ucdvar_names), npv = names(t0->nptvar, t0->ptvar_names), nd = names(t0->ndefvars, t0->defvars_names);
        auto dbl = [](void* p, int type, int i) { return type == DB_FLOAT ? double(((float*)p)[i]) : ((double*)p)[i]; };
        for (auto& n : nu) {
            DBucdmesh* m = DBGetUcdmesh(db, n.c_str()); if (!m) { add(ucd, Obj()("name", n)("unreadable", "DBGetUcdmesh")); continue; }
            Obj x;
            VVL pts;
            for (int i = 0; i < m->nnodes; i++) { VL p; for (int k = 0; k < m->ndims; k++) p.push_back(Q(dbl(m->coords[k], m->datatype, i), s)); pts.push_back(p); }
            x("name", n)("nd", m->ndims)("nz", m->zones ? m->zones->nzones : m->phzones ? m->phzones->nzones : -1)("pts", pts)("poly", m->phzones != nullptr);
            S zs = "[";
            if (m->zones) {
                int pos = 0;
                for (int q = 0; q < m->zones->nshapes; q++)
                    for (int c = 0; c < m->zones->shapecnt[q]; c++) {
                        VL nn;
                        for (int i = 0; i < m->zones->shapesize[q]; i++) nn.push_back(pos < m->zones->lnodelist ? m->zones->nodelist[pos++] - m->zones->origin : -1);
                        int st = m->zones->shapetype ? m->zones->shapetype[q] : 0;
                        add(zs, Obj()("nodes", nn)("shape", st == DB_ZONETYPE_TET ? "tet" : st == DB_ZONETYPE_HEX ? "hex" : "other"));
                    }
            }
            x.raw("zones", zs + "]");
            VVL fs;
            std::vector<VVL> cs;
            if (m->phzones) {
                auto* z = m->phzones;
                int pos = 0;
                for (int f = 0; f < z->nfaces; f++) { VL nn; for (int i = 0; i < z->nodecnt[f]; i++) nn.push_back(z->nodelist[pos++] - z->origin); fs.push_back(nn); }
                pos = 0;
                for (int c = 0; c < z->nzones; c++) { VVL l; for (int i = 0; i < z->facecnt[c]; i++) { int f = z->facelist[pos++]; l.push_back(f < 0 ? VL{~f, -1} : VL{f, 1}); } cs.push_back(l); }
            }
            x("faces", fs)("cells", cs);
            add(ucd, x);
            DBFreeUcdmesh(m);
        }
        for (auto& n : np) {
            DBpointmesh* m = DBGetPointmesh(db, n.c_str()); if (!m) { add(ptm, Obj()("name", n)("unreadable", "DBGetPointmesh")); continue; }
            VVL pts;
            for (int i = 0; i < m->nels; i++) { VL p; for (int k = 0; k < m->ndims; k++) p.push_back(Q(dbl(m->coords[k], m->datatype, i), 4)); pts.push_back(p); }
            add(ptm, Obj()("name", n)("pts", pts));
            DBFreePointmesh(m);
        }
        for (auto& n : nv) {
            DBucdvar* v = DBGetUcdvar(db, n.c_str()); if (!v) { add(vars, Obj()("name", n)("unreadable", "DBGetUcdvar")); continue; }
            VL x;
            for (int i = 0; i < v->nels; i++) x.push_back(Q(dbl(v->vals[0], v->datatype, i)));
            add(vars, Obj()("name", n)("mesh", S(v->meshname ? v->meshname : ""))("cent", v->centering == DB_ZONECENT ? "zone" : v->centering == DB_NODECENT ? "node" : "other")("vals", x));
            DBFreeUcdvar(v);
        }
        for (auto& n : npv) {
            DBmeshvar* v = DBGetPointvar(db, n.c_str()); if (!v) { add(pvars, Obj()("name", n)("unreadable", "DBGetPointvar")); continue; }
            VVL x;
            for (int j = 0; j < v->nvals; j++) { VL y; for (int i = 0; i < v->nels; i++) y.push_back(Q(dbl(v->vals[j], v->datatype, i))); x.push_back(y); }
            add(pvars, Obj()("name", n)("mesh", S(v->meshname ? v->meshname : ""))("vals", x));
            DBFreeMeshvar(v);
        }
        for (auto& n : nd) {
            DBdefvars* v = DBGetDefvars(db, n.c_str()); if (!v) { add(defs, Obj()("name", n)("unreadable", "DBGetDefvars")); continue; }
            for (int i = 0; i < v->ndefs; i++)
                add(defs, Obj()("name", S(v->names[i]))("type", v->types[i] == DB_VARTYPE_VECTOR ? "vector" : v->types[i] == DB_VARTYPE_SCALAR ? "scalar" : "other")("def", S(v->defns[i])));
            DBFreeDefvars(v);
        }
        DBClose(db);
    }
    o.raw("ucd", ucd + "]").raw("ptm", ptm + "]").raw("vars", vars + "]").raw("pvars", pvars + "]").raw("defs", defs + "]");
    tr.emit(o);
}

template<typename Mesh> void program(Trace& tr, Mesh& msh, const Doc& d, const Json& p)
{
    S fn[3] = {"", scratch + "/a.silo", scratch + "/b.silo"};
    unlink(fn[1].c_str()); unlink(fn[2].c_str());
    tr.emit(Obj()("ev", "Start"));
    {
        disk::silo_database db;
        for (auto& op : p.a) {
            auto w = op["op"].s;
            bool r = false;
            auto str = [&](const char* k) { return op[k].s; };
            if (w == "create") r = db.create(fn[op["file"].n]);
            else if (w == "open") r = db.open(fn[op["file"].n]);
            else if (w == "close") r = db.close();
            else if (w == "mesh") r = db.add_mesh(msh, str("name"));
            else if (w == "pts") {
                std::vector<disk::point<double, 2>> q;
                for (long i = 0; i < op["n"].n; i++) q.push_back({val(op["k"].n, 0, i) / 4, val(op["k"].n, 1, i) / 4});
                r = db.add_mesh(q, str("name"));
            }
            else if (w == "expr") r = db.add_expression(str("name"), str("def"), DB_VARTYPE_SCALAR);
            else if (w == "pvar") {
                std::vector<std::vector<double>> v;
                for (long j = 0; j < op["nv"].n; j++) v.push_back(vals(op["k"].n, j, op["n"].n));
                r = v.size() == 1 ? db.add_variable(str("mesh"), str("name"), v[0]) : db.add_variable(str("mesh"), str("name"), v);
            }
            else if (w == "var") {
                long k = op["k"].n;
                bool zone = str("cent") == "zone";
                auto cent = zone ? disk::zonal_variable_t : disk::nodal_variable_t;
                size_t n = zone ? msh.cells_size() : msh.points_size();
                auto v0 = vals(k, 0, n), v1 = vals(k, 1, n), v2 = vals(k, 2, n);
                auto f = str("form"), mn = str("mesh"), nm = str("name");
                using V = Eigen::Matrix<double, Eigen::Dynamic, 1>;
                auto E = [&](const std::vector<double>& v) { return V(Eigen::Map<const V>(v.data(), v.size())); };
                if (f == "vec") r = db.add_variable(mn, nm, v0, cent);
                else if (f == "eigen") r = db.add_variable(mn, nm, E(v0), cent);
                else if (f == "mat2") { Eigen::Matrix<double, Eigen::Dynamic, 2> A(n, 2); A << E(v0), E(v1); r = db.add_variable(mn, nm, A, cent); }
                else if (f == "mat3") { Eigen::Matrix<double, Eigen::Dynamic, 3> A(n, 3); A << E(v0), E(v1), E(v2); r = db.add_variable(mn, nm, A, cent); }
                else if (f == "silo") {
                    if (zone) { disk::silo_zonal_variable<double> x(nm, v0); r = db.add_variable(mn, x); }
                    else { disk::silo_nodal_variable<double> x(nm, std::move(v0)); r = db.add_variable(mn, x); }
                }
                else if (f == "complex") {
                    std::vector<std::complex<double>> z;
                    for (size_t i = 0; i < n; i++) z.push_back({v0[i], v1[i]});
                    if (zone) { disk::silo_zonal_variable<std::complex<double>> x(nm, z); r = db.add_variable(mn, x); }
                    else { disk::silo_nodal_variable<std::complex<double>> x(nm, std::move(z)); r = db.add_variable(mn, x); }
                }
            }
            tr.emit(Obj()("ev", "Do").raw("in", op.text)("ret", r));
        }
    }
    content(tr, fn[1], 1, d.scale);
    content(tr, fn[2], 2, d.scale);
}

/* ---- gmsh ---- */
template<typename E> void elems(Obj& o, const char* k, const std::vector<E>& v)
{
    S l = "[";
    for (auto& e : v) { VL n; for (auto x : e.getNodes()) n.push_back(long(x) - 1); if (l.size() > 1) l += ","; l += Obj()("n", n)("i", long(e.getIndex())).str(); }
    o.raw(k, l + "]");
}
static void gmsh_fields(Obj& o, const gmsh::Gmesh& g, const std::vector<std::array<double, 3>>& pts)
{
    bool same = g.getNodes().size() == pts.size();
    for (size_t i = 0; same && i < pts.size(); i++) { auto n = g.getNodes()[i]; same = n.getIndex() == i + 1; for (int k = 0; k < 3; k++) same = same && n.getCoordinate()[k] == pts[i][k]; }
    bool pos = true;
    auto P = [&](size_t i) { return g.getNodes().at(i - 1).getCoordinate(); };
    for (auto& t : g.triangles) { auto n = t.getNodes(); auto a = P(n[0]), b = P(n[1]), c = P(n[2]); pos = pos && (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) >= -1e-12; }
    for (auto& t : g.tets) {
        auto n = t.getNodes();
        Eigen::Matrix3d M;
        for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) M(k, j) = P(n[j + 1])[k] - P(n[0])[k];
        pos = pos && M.determinant() > 0;
    }
    o("nn", long(g.getNodes().size()))("same", same)("pos", pos);
    elems(o, "vert", g.vertices); elems(o, "edge", g.edges); elems(o, "tri", g.triangles); elems(o, "quad", g.quads); elems(o, "tet", g.tets); elems(o, "hex", g.hexas);
}
template<typename Pt> std::array<double, 3> arr(const Pt& p, size_t D) { std::array<double, 3> r{0, 0, 0}; for (size_t k = 0; k < D; k++) r[k] = p[k]; return r; }

template<typename Mesh> void gmsh_part(Trace& tr, Mesh& msh, const Doc& d)
{
    constexpr size_t D = Mesh::dimension;
    disk::PostMesh<Mesh> post(msh);
    auto pm = post.mesh();
    auto st = pm.backend_storage();
    std::vector<std::array<double, 3>> pts, mpts;
    for (auto& p : st->points) pts.push_back(arr(p, D));
    for (auto it = msh.points_begin(); it != msh.points_end(); ++it) mpts.push_back(arr(*it, D));
    bool same = pts.size() >= mpts.size() && st->nodes.size() == pts.size();
    for (size_t i = 0; same && i < mpts.size(); i++) same = pts[i] == mpts[i];
    for (size_t i = 0; same && i < pts.size(); i++) { auto q = st->nodes[i].point_ids(); same = q.size() == 1 && size_t(q[0]) == i; }
    VL fp, cp;
    VVL el, ed, med, nodes;
    auto match = [&](auto& e, std::vector<bool>& used) { if constexpr (D < 3) return -1L; auto b = arr(barycenter(msh, e), D); for (size_t i = mpts.size(); i < pts.size(); i++) { double t = 0; for (int k = 0; k < 3; k++) t = std::max(t, std::fabs(pts[i][k] - b[k])); if (!used[i] && t < 1e-10) { used[i] = true; return long(i); } } return -1L; };
    std::vector<bool> used(pts.size(), false);
    for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) { auto fc = *it; fp.push_back(D == 3 && fc.point_ids().size() > 3 ? match(fc, used) : -1); }
    for (auto& cl : msh) cp.push_back(D == 3 && cl.point_ids().size() > 4 ? match(cl, used) : -1);
    if constexpr (D == 3) for (auto& v : st->volumes) el.push_back(pids(v));
    if constexpr (D == 2) for (auto& v : st->surfaces) el.push_back(pids(v));
    if constexpr (D == 1) for (auto& v : st->edges) el.push_back(pids(v));
    for (auto& e : st->edges) ed.push_back(pids(e));
    for (auto& e : msh.backend_storage()->edges) med.push_back(pids(e));
    for (size_t i = 0; i < msh.cells_size(); i++) { VL n; for (auto& x : post.nodes_cell(i)) n.push_back(long(size_t(x))); nodes.push_back(n); }
    tr.emit(Obj()("ev", "Post")("same", same)("np", long(pts.size()))("face", fp)("cell", cp)("el", el)("edges", ed)("nodes", nodes)("medges", med));
    Obj g1;
    g1("ev", "GmshPost");
    gmsh_fields(g1, disk::convertMesh(post), pts);
    tr.emit(g1);
    Obj g2;
    g2("ev", "GmshMesh");
    gmsh_fields(g2, disk::convertMesh(msh), mpts);
    tr.emit(g2);
}

/* ---- text files ---- */
template<typename Mesh> void text_part(Trace& tr, Mesh& msh, const Doc& d)
{
    constexpr size_t D = Mesh::dimension;
    S fn = scratch + "/t.txt";
    if constexpr (D > 1) {
        disk::mesh_aspect(msh, fn);
        std::ifstream f(fn);
        S line;
        std::getline(f, line);
        VVL rows, want;
        while (std::getline(f, line)) { std::stringstream ss(line); VL r; double x; while (ss >> x) r.push_back(Q(x, 100, 100)); rows.push_back(r); }
        long i = 0;
        /* rounded to hundredths: the file has six digits */
        auto rnd = [](double x) { std::stringstream ss; ss << x; double y; ss >> y; return Q(y, 100, 100); };
        for (auto& cl : msh) {
            double hT = diameter(msh, cl), a = 1e99, b = 0;
            for (auto& fc : faces(msh, cl)) { double h = diameter(msh, fc); a = std::min(a, h); b = std::max(b, h); }
            want.push_back({100 * i++, rnd(measure(msh, cl)), rnd(hT), rnd(a), rnd(b), rnd(hT / a), rnd(hT / b), rnd(b / a)});
        }
        tr.emit(Obj()("ev", "Aspect")("rows", rows)("want", want));
    }
    if constexpr (D == 2) {
        disk::dump_to_matlab(msh, fn);
        std::ifstream f(fn);
        S line, lines = "[", texts = "[";
        VL cells;
        long nc = 0;
        std::vector<std::pair<double, double>> bars;
        for (auto& cl : msh) { auto b = barycenter(msh, cl); bars.push_back({b.x(), b.y()}); }
        auto q = [&](double x) { double y = std::nearbyint(x * d.scale); return std::fabs(y - x * d.scale) < 1e-3 ? long(y) : SENTINEL; };
        while (std::getline(f, line)) {
            double x, y, x2, y2; long id; char col;
            if (sscanf(line.c_str(), "line([%lf %lf], [%lf %lf], 'Color', '%c');", &x, &x2, &y, &y2, &col) == 5) {
                if (lines.size() > 1) lines += ",";
                lines += "[" + js(VL{q(x), q(y)}) + "," + js(VL{q(x2), q(y2)}) + ",\"" + S(1, col) + "\"]";
            } else if (sscanf(line.c_str(), "text(%lf,%lf,'%ld');", &x, &y, &id) == 3) {
                if (size_t(nc) < bars.size() && id == nc && std::fabs(x - bars[nc].first) < 1e-4 && std::fabs(y - bars[nc].second) < 1e-4) { cells.push_back(id); nc++; continue; }
                if (texts.size() > 1) texts += ",";
                texts += "[" + js(VL{q(x), q(y)}) + "," + js(id) + "]";
            }
        }
        tr.emit(Obj()("ev", "Matlab").raw("lines", lines + "]").raw("texts", texts + "]")("cells", cells));
    }
    if constexpr (std::is_same_v<Mesh, disk::simplicial_mesh<double, 2>>) {
        S nf = scratch + "/t.mesh2d";
        disk::dump_netgen_format(msh, nf);
        Mesh m2;
        bool ok = disk::load_mesh_netgen(nf.c_str(), m2);
        Obj o;
        o("ev", "Netgen")("ok", ok);
        if (ok) {
            snapshot(o, m2, d.scale);
            bool ex = m2.points_size() == msh.points_size();
            for (size_t i = 0; ex && i < m2.points_size(); i++) { auto a = *(msh.points_begin() + i), b = *(m2.points_begin() + i); ex = a.x() == b.x() && a.y() == b.y(); }
            o("exact", ex);
        }
        tr.emit(o);
    }
}

template<typename Mesh> void conv_part(Trace& tr, Mesh& msh, Rng& rng)
{
    if constexpr (Mesh::dimension > 1) {
        Obj o;
        auto nn = [](const gmsh::Element& e) { VL r; for (auto x : e.getNodes()) r.push_back(long(x) - 1); return r; };
        auto full = [&](const gmsh::Element& e) { return Obj()("n", nn(e))("i", long(e.getIndex())).str(); };
        auto ed = msh.backend_storage()->edges[rng.range(0, msh.backend_storage()->edges.size() - 1)];
        disk::simplicial_element<3, 1> tri({disk::point_identifier<3>(rng.range(0, 5)), disk::point_identifier<3>(rng.range(6, 9)), disk::point_identifier<3>(rng.range(10, 20))});
        disk::simplicial_element<3, 0> tet({disk::point_identifier<3>(rng.range(0, 5)), disk::point_identifier<3>(rng.range(6, 9)), disk::point_identifier<3>(rng.range(10, 20)), disk::point_identifier<3>(rng.range(21, 30))});
        VL quad, qin, hex, hin;
        if constexpr (std::is_same_v<Mesh, disk::cartesian_mesh<double, 2>>) { auto c = *msh.cells_begin(); qin = pids(c); quad = nn(disk::convertQuadrangle(c, 13)); }
        if constexpr (std::is_same_v<Mesh, disk::cartesian_mesh<double, 3>>) { auto c = *msh.cells_begin(); hin = pids(c); hex = nn(disk::convertHexahedron(c, 13)); }
        VL v;
        for (int i = 0; i < 9; i++) v.push_back(rng.range(-50, 50));
        auto I = [](const std::vector<double>& x) { VL r; for (auto y : x) r.push_back(Q(y)); return r; };
        disk::static_vector<double, 2> v2; v2 << v[0], v[1];
        disk::static_vector<double, 3> v3; v3 << v[0], v[1], v[2];
        disk::static_matrix<double, 3, 3> m3; m3 << v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8];
        disk::static_matrix<double, 2, 2> m2; m2 << v[0], v[1], v[3], v[4];
        o("ev", "Conv").raw("edge", full(disk::convertEdge(ed, 11)))("edgeIn", pids(ed)).raw("tri", full(disk::convertTriangle(tri, 12)))("triIn", pids(tri));
        o("quad", quad)("quadIn", qin)("hex", hex)("hexIn", hin)("tet", nn(disk::convertTetrahedron(tet, 14)))("tetIn", pids(tet));
        o("v", v)("scalar", I(disk::convertToVectorGmsh(double(v[0]))))("vec2", I(disk::convertToVectorGmsh(v2)))("vec3", I(disk::convertToVectorGmsh(v3)))("mat2", I(disk::convertToVectorGmsh(m2)))("mat3", I(disk::convertToVectorGmsh(m3)));
        tr.emit(o);
    }
    /* sparse matrices; values k + 1/3, exact in the file */
    int R = rng.range(1, 6), C = R;
    std::vector<Eigen::Triplet<double>> ts;
    VVL in;
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) if (rng.range(0, 2) == 0) { int k = rng.range(-90, 90); ts.push_back({i, j, k + 1.0 / 3}); in.push_back({i, j, k}); }
    Eigen::SparseMatrix<double> A(R, C);
    A.setFromTriplets(ts.begin(), ts.end());
    auto val = [](double x) { long k = long(std::nearbyint(x - 1.0 / 3)); return x == k + 1.0 / 3 ? k : SENTINEL; };
    auto rd = [&](const S& fn, VL* h) { std::ifstream f(fn); VVL r; if (h) { long a, b, c; f >> a >> b >> c; *h = {a, b, c}; } long i, j; double v; while (f >> i >> j >> v) r.push_back({i, j, val(v)}); return r; };
    S f1 = scratch + "/m1", f2 = scratch + "/m2";
    disk::dump_sparse_matrix(A, f1);
    disk::dump_sparse_matrix_with_header(A, f2);
    VL h;
    Obj o;
    o("ev", "Sparse")("in", in)("rows", R)("cols", C)("file", rd(f1, nullptr));
    auto f2r = rd(f2, &h);
    o("hfile", f2r)("header", h);
    bool one = rng.range(0, 1), exp = rng.range(0, 1);
    {
        disk::eigen_sparse_raw<double> w(A, one);
        VL ia(w.ia, w.ia + w.n + 1), ja(w.ja, w.ja + w.nnz), da;
        for (int i = 0; i < w.nnz; i++) da.push_back(val(w.data[i]));
        o("n", w.n)("nnz", w.nnz)("ia", ia)("ja", ja)("data", da)("base", one ? 1 : 0);
        if (exp) { w.restore(); w.restore(); }
    }
    VVL af;
    for (int k = 0; k < A.outerSize(); k++) for (Eigen::SparseMatrix<double>::InnerIterator it(A, k); it; ++it) af.push_back({it.row(), it.col(), val(it.value())});
    o("after", af);
    tr.emit(o);
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    static std::ofstream* null = new std::ofstream("/dev/null");
    std::cout.rdbuf(null->rdbuf());
    auto docs = read_docs(argv[2]);
    std::vector<Json> progs;
    { std::ifstream f(argv[3]); S line; while (std::getline(f, line)) if (!line.empty()) progs.push_back(parse_json(line)); }
    scratch = argv[4];
    Rng rng(atoi(argv[5]));
    int part = atoi(argv[6]), parts = atoi(argv[7]);
    DBShowErrors(DB_NONE, nullptr);
    size_t np = part;
    for (auto& d : docs)
        if (d.n % parts == part)
            guarded(tr, "doc " + std::to_string(d.n), [&]() {
                with_mesh(d, [&](auto& msh, const Doc& dd) {
                    using M = std::remove_reference_t<decltype(msh)>;
                    { Obj o; o("ev", "Build")("n", d.n); snapshot(o, msh, d.scale); VVL e; if constexpr (M::dimension > 1) for (auto& x : msh.backend_storage()->edges) e.push_back(pids(x)); else for (auto& cl : msh) e.push_back(pids(cl)); o("edges", e); tr.emit(o); }
                    if constexpr (M::dimension > 1)
                        for (int i = 0; i < 3 && !progs.empty(); i++, np += parts) program(tr, msh, dd, progs[np % progs.size()]);
                    gmsh_part(tr, msh, dd);
                    text_part(tr, msh, dd);
                    conv_part(tr, msh, rng);
                });
            });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
