/* Numbers, points, identifiers, files, registries of degrees. args: OUT DOCS CASES PART PARTS DIR */
#include <map>
#include "meshbuild.hpp"
#include "diskpp/mesh/rational.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/adaptivity/adaptivity.hpp"
#include "diskpp/common/util.h"
#include "diskpp/common/mapped_file.h"
using namespace vh;
using VL = std::vector<long>;
using VVL = std::vector<VL>;
using VVVL = std::vector<VVL>;
template<typename I> VL sh(const disk::rational<I>& r) { return {long(r.num()), long(r.den())}; }

template<typename I> void pair_(Trace& tr, const VL& a, const VL& b)
{
    using R = disk::rational<I>;
    R x(a[0], a[1]), y(b[0], b[1]), z;
    Obj o;
    o("ev", "Pair")("a", a)("b", b)("ra", sh(x))("rb", sh(y))("add", sh(x + y))("sub", sh(x - y))("mul", sh(x * y));
    if (b[0]) { o("div", sh(x / y)); z = x; z /= y; o("div2", sh(z)); z = x; z /= I(b[0]); o("divi", sh(I(b[0]) % 2 ? x / I(b[0]) : z)); }
    z = x; z += y; o("add2", sh(z)); z = x; z -= y; o("sub2", sh(z)); z = x; z *= y; o("mul2", sh(z));
    z = x; z *= I(b[0]); o("muli", sh(I(b[0]) % 2 ? x * I(b[0]) : z));
    o("neg", sh(-x))("abs", sh(abs(x)));
    if (a[0]) o("inv", sh(inv(x)));
    o("lt", long(x < y))("gt", long(x > y))("le", long(x <= y))("ge", long(x >= y));
    o("dbl", I(a[0]) % 2 ? Q(double(x), 12, 1e-9) : Q(float(x), 12, 1e-5));
    tr.emit(o);
}
template<typename I> void chain(Trace& tr, const VL& a, const std::vector<std::pair<std::string, VL>>& st)
{
    using R = disk::rational<I>;
    R x(a[0], a[1]);
    tr.emit(Obj()("ev", "Start")("a", a));
    for (auto& [op, b] : st) {
        R y(b[0], b[1]);
        if (op == "add") x += y; else if (op == "sub") x -= y; else if (op == "mul") x *= y; else if (op == "div") x /= y;
        else if (op == "muli") x *= I(b[0]); else if (op == "divi") x /= I(b[0]);
        else if (op == "neg") x = -x; else if (op == "abs") x = abs(x); else if (x.num() != 0) x = inv(x);
        tr.emit(Obj()("ev", "Step")("op", op)("b", b)("r", sh(x)));
    }
}
template<size_t D> void points_(Trace& tr, const VL& p, const VL& q, long s)
{
    using P = disk::point<double, D>;
    auto mk = [](const VL& v) { P r; for (size_t i = 0; i < D; i++) r[i] = v[i]; return r; };
    auto o_ = [](const P& x, double sc = 1) { VL r; for (size_t i = 0; i < D; i++) r.push_back(Q(x[i], sc)); return r; };
    auto cut = [](const VL& v) { return VL(v.begin(), v.begin() + D); };
    P a = mk(p), b = mk(q);
    disk::static_vector<double, D> v = a.to_vector();
    VL vec, xyz; for (size_t i = 0; i < D; i++) vec.push_back(Q(i % 2 ? v(i) : disk::to_vector(a)(i), 1));
    xyz.push_back(Q(a.x(), 1)); if constexpr (D > 1) xyz.push_back(Q(a.y(), 1)); if constexpr (D > 2) xyz.push_back(Q(a.z(), 1));
    P all = a; all.set_all(s);
    P set; set.x() = q[0]; if constexpr (D > 1) set.y() = q[1]; if constexpr (D > 2) set.z() = q[2];
    P ctor = [&]() { if constexpr (D == 1) return P(double(p[0])); else if constexpr (D == 2) return P(double(p[0]), double(p[1])); else return P(double(p[0]), double(p[1]), double(p[2])); }();
    P lst = [&]() { if constexpr (D == 1) return P({double(q[0])}); else if constexpr (D == 2) return P({double(q[0]), double(q[1])}); else return P({double(q[0]), double(q[1]), double(q[2])}); }();
    long at = 0, list = 0;
    try { a.at(D); } catch (const std::out_of_range&) { at = 1; }
    try { std::initializer_list<double> il = {1., 2., 3., 4.}; P w(il); } catch (const std::invalid_argument&) { list = 1; }
    Obj o;
    o("ev", "Points")("dim", long(D))("p", cut(p))("q", cut(q))("s", s)("sum", o_(ctor + lst))("dif", o_(a - b))("neg", o_(-a));
    o("ps", o_(a * double(s)))("sp", o_(double(s) * a))("quo", o_(a / double(s), s))("mid", o_(disk::midpoint(a, b), 2));
    o("vec", vec)("back", o_(P(v)))("pv", o_(s % 2 ? a + disk::static_vector<double, D>(b.to_vector()) : a + b))("all", o_(all))("xyz", xyz)("set", o_(set));
    double dd = disk::distance(a, b);
    o("dist", Q(dd * dd, 1))("at", at)("list", list)("zero", o_(P()));
    if constexpr (D == 2) o("det", Q(disk::det(a, b), 1));
    tr.emit(o);
}
void rpoints(Trace& tr, const VL& p, const VL& q, long s, long den)
{
    using R = disk::rational<long>; using P = disk::point<R, 2>;
    P a(R(p[0], den), R(p[1], den)), b(R(q[0], den + 1), R(q[1], den + 1));
    auto o_ = [](const P& x) { return VVL{sh(x.x()), sh(x.y())}; };
    tr.emit(Obj()("ev", "RPoints")("p", VL{p[0], p[1]})("q", VL{q[0], q[1]})("s", s)("den", den)("sum", o_(a + b))("dif", o_(a - b))("neg", o_(-a))
        ("ps", o_(s % 2 ? a * R(s) : R(s) * a))("quo", o_(a / R(s)))("mid", o_(disk::midpoint(a, b)))("det", sh(disk::det(a, b))));
}
template<typename Id> void ident(Trace& tr, long a, long b, int max)
{
    Id x(a), y(b), z; long thr = 0;
    try { auto v = typename Id::value_type(z); (void)v; } catch (const std::logic_error&) { thr = 1; }
    if (thr) { thr = 0; auto w = Id::invalid(); try { auto v = typename Id::value_type(w); (void)v; } catch (const std::logic_error&) { thr = 1; } }
    Id c(x);
    tr.emit(Obj()("ev", "Ident")("a", a)("b", b)("value", long(typename Id::value_type(c)))("throws", thr)("eq", long(x == y))("ne", long(x != y))("lt", long(x < y)));
}
void file(Trace& tr, const VL& lens, long tail, const std::string& dir, long n)
{
    std::string fn = dir + "/lines" + std::to_string(n) + ".txt";
    { std::ofstream f(fn);
      for (size_t i = 1; i <= lens.size(); i++) { for (long j = 1; j <= lens[i - 1]; j++) f << char('a' + (7 * i + 3 * j) % 26); f << '\n'; }
      for (long j = 0; j < tail; j++) f << 'x'; }
    VVL got; long ended = 0, open, closed, missing;
    { mapped_file mf;
      if (n % 2) mf.open(fn); else { mf.~mapped_file(); new (&mf) mapped_file(fn); }
      open = mf.is_open();
      for (size_t i = 0; open && i <= lens.size(); i++) {
          try { auto s = mf.get_line(); VL r; for (char c : s) r.push_back(c - 'a'); got.push_back(r); }
          catch (const std::out_of_range&) { ended = i == lens.size(); break; }
      }
      mf.close(); closed = mf.is_open(); }
    { fflush(stderr); int e2 = dup(2); freopen("/dev/null", "w", stderr); mapped_file mf(fn + ".none"); missing = mf.is_open(); fflush(stderr); dup2(e2, 2); ::close(e2); }
    ::unlink(fn.c_str());
    tr.emit(Obj()("ev", "File")("lens", lens)("open", open)("missing", missing)("lines", got)("ended", ended)("closed", closed));
}
void rmesh(Trace& tr, const Doc& d, long den)
{
    using R = disk::rational<long>; using M = disk::simplicial_mesh<R, 2>; using P = typename M::point_type;
    Doc e = d; for (auto& p : e.pts) for (auto& x : p) x = std::round(x * d.scale);
    M msh; build(e, msh);
    VVL pts, cells, area, sgn, total; VVVL bar; VL count;
    for (auto& p : e.pts) pts.push_back({long(p[0]), long(p[1])});
    for (auto& p : msh.backend_storage()->points) p = P(p.x() / R(den), p.y() / R(den));
    for (auto& cl : msh) {
        auto ids = cl.point_ids(); VL c; for (auto i : ids) c.push_back(long(size_t(i))); cells.push_back(c);
        area.push_back(sh(measure(msh, cl))); sgn.push_back(sh(measure(msh, cl, true)));
        auto b = barycenter(msh, cl); bar.push_back({sh(b.x()), sh(b.y())});
    }
    disk::mesh_hierarchy<R> h; h.build_hierarchy(msh, 2);
    for (auto it = h.meshes_begin(); it != h.meshes_end(); it++) {
        R t(0); long n = 0; for (auto& cl : *it) { t += measure(*it, cl); n++; }
        if (it != h.meshes_begin() || n != long(cells.size())) count.push_back(n);
        total.push_back(sh(t));
    }
    tr.emit(Obj()("ev", "RMesh")("den", den)("pts", pts)("cells", cells)("area", area)("signed", sgn)("bar", bar)("total", total)("count", count));
}
VL inf(const disk::DegreeInfo& d) { return {long(d.hasUnknowns()), long(d.degree())}; }
VVL infs(const std::vector<disk::DegreeInfo>& v) { VVL r; for (auto& x : v) r.push_back(inf(x)); return r; }
struct DOp { std::string op; long k, i; VL v; };
template<typename Mesh> void degrees(Trace& tr, const Mesh& msh, const std::vector<DOp>& ops)
{
    using MD = disk::MeshDegreeInfo<Mesh>; using CD = disk::CellDegreeInfo<Mesh>; using DI = disk::DegreeInfo;
    MD A(msh), B(msh);
    size_t nc = msh.cells_size(), nf = msh.faces_size();
    VVL cf; for (auto& cl : msh) { VL r; for (auto& f : faces(msh, cl)) r.push_back(long(size_t(msh.lookup(f)))); cf.push_back(r); }
    tr.emit(Obj()("ev", "Mesh")("nc", long(nc))("nf", long(nf))("cf", cf));
    auto state = [&](const MD& m) {
        VVL c, c3, f, f3; VVVL cfi, ci, ci2, cif;
        for (auto& cl : msh) {
            c.push_back(inf(m.degreeInfo(msh, cl))); c3.push_back({long(m.hasUnknowns(msh, cl)), long(m.degree(msh, cl))});
            cfi.push_back(infs(m.degreeInfo(msh, faces(msh, cl))));
            auto x = m.cellDegreeInfo(msh, cl);
            ci.push_back({inf(x.cellDegreeInfo()), inf(x.reconstructionDegreeInfo()), inf(x.gradientDegreeInfo())});
            ci2.push_back({{long(x.cell_hasUnknowns()), long(x.cell_degree())}, {long(x.reconstruction_hasUnknowns()), long(x.reconstruction_degree())}, {long(x.grad_hasUnknowns()), long(x.grad_degree())}});
            cif.push_back(infs(x.facesDegreeInfo()));
        }
        for (auto it = msh.faces_begin(); it != msh.faces_end(); it++) {
            f.push_back(inf(m.degreeInfo(msh, *it))); f3.push_back({long(m.hasUnknowns(msh, *it)), long(m.degree(msh, *it))});
        }
        Obj o; o("cells", c)("cells2", infs(m.cells_degree()))("cells3", c3)("faces", f)("faces2", infs(m.faces_degree()))("faces3", f3);
        o("cf", cfi)("ci", ci)("ci2", ci2)("cif", cif); return o.str();
    };
    auto query = [&]() { tr.emit(Obj()("ev", "Query").raw("A", state(A)).raw("B", state(B))); };
    query();
    long n = 0;
    for (auto op : ops) {
        const auto& v = op.v; bool fc = op.op.substr(0, 4) == "face";
        op.i %= fc ? nf : nc;
        auto cl = *std::next(msh.cells_begin(), fc ? 0 : op.i); auto f = *std::next(msh.faces_begin(), fc ? op.i : 0);
        if (op.op == "new") { if (op.k == 0) A = MD(msh); else if (op.k == 1) A = MD(msh, size_t(v[0])); else if (op.k == 2) A = MD(msh, v[0], v[1]); else A = MD(msh, v[0], v[1], v[2]); }
        else if (op.op == "celldeg") A.degree(msh, cl, v[0]); else if (op.op == "facedeg") A.degree(msh, f, v[0]);
        else if (op.op == "cellhas") A.hasUnknowns(msh, cl, v[0] % 2); else if (op.op == "facehas") A.hasUnknowns(msh, f, v[0] % 2);
        else if (op.op == "cellinfo") A.degreeInfo(msh, cl, DI(bool(v[1] % 2), size_t(v[0])));
        else if (op.op == "faceinfo") { DI d; d.degree(v[0]); d.hasUnknowns(v[1] % 2); A.degreeInfo(msh, f, d); }
        else if (op.op == "copy") B = A; else if (op.op == "swap") std::swap(A, B);
        tr.emit(Obj()("ev", "Reg")("op", op.op)("k", op.k)("i", op.i)("v", v));
        query();
        auto fs = A.degreeInfo(msh, faces(msh, cl)); long k = 1 + n++ % 5;
        CD x = k == 1 ? CD(msh, cl, size_t(v[0])) : k == 2 ? CD(msh, cl, v[0], v[1]) : k == 3 ? CD(msh, cl, v[0], v[1], v[2])
             : k == 4 ? CD(size_t(v[0]), size_t(v[1]), size_t(v[2]), fs)
             : CD(DI(bool(v[1] % 2), size_t(v[0])), DI(bool(v[2] % 2), size_t(v[1])), DI(bool(v[0] % 2), size_t(v[2])), fs);
        tr.emit(Obj()("ev", "Ctor")("k", k)("v", v)("c", fc ? 0L : op.i)("fs", infs(fs))
            ("info", VVL{inf(x.cellDegreeInfo()), inf(x.reconstructionDegreeInfo()), inf(x.gradientDegreeInfo())})("faces", infs(x.facesDegreeInfo())));
    }
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    std::ifstream f(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    std::string kind, dir = argv[6];
    auto lst = [&]() { size_t n; f >> n; VL v(n); for (auto& x : v) f >> x; return v; };
    long k = 0, nd = 0;
    if (part == 0) guarded(tr, "integers", [&]() {
        for (long a = -9; a <= 9; a++) for (long b = -9; b <= 9; b++) if (a || b)
            tr.emit(Obj()("ev", "Ints")("a", a)("b", b)("gcd", a % 2 ? long(disk::gcd<int>(a, b)) : disk::gcd<long>(a, b))("lcm", a % 2 ? long(disk::lcm<int>(a, b)) : disk::lcm<long>(a, b))("sgn", long(disk::sgn(a) == disk::rational_sign::NEGATIVE)));
        for (unsigned n = 0; n <= 12; n++) { VL b; for (unsigned i = 0; i <= n; i++) b.push_back(binomial(n, i)); tr.emit(Obj()("ev", "Comb")("n", long(n))("fact", long(fact(n)))("bin", b)); }
        struct A {}; struct B {};
        for (long a = 0; a < 4; a++) for (long b = 0; b < 4; b++) { ident<disk::identifier<A, size_t, 0>>(tr, a, b, 0); ident<disk::identifier<B, uint32_t, 0>>(tr, a, b, 0); }
    });
    while (f >> kind) {
        bool mine = k++ % parts == part;
        if (kind == "pair") { auto a = lst(), b = lst(); if (mine) guarded(tr, "pair", [&]() { if (k % 2) pair_<int>(tr, a, b); else pair_<int64_t>(tr, a, b); }); }
        else if (kind == "chain") {
            auto a = lst(); std::vector<std::pair<std::string, VL>> s(4); for (auto& [o, b] : s) { f >> o; b = lst(); }
            if (mine) guarded(tr, "chain", [&]() { if (k % 3 == 0) chain<int64_t>(tr, a, s); else chain<int>(tr, a, s); });
        }
        else if (kind == "points") {
            auto p = lst(), q = lst(), s = lst();
            if (mine) guarded(tr, "points", [&]() { points_<1>(tr, p, q, s[0]); points_<2>(tr, p, q, s[0]); points_<3>(tr, p, q, s[0]); rpoints(tr, p, q, s[0], 1 + k % 5); });
        }
        else if (kind == "file") { auto l = lst(), t = lst(); if (mine) guarded(tr, "file", [&]() { file(tr, l, t[0], dir, k); }); }
        else if (kind == "degrees") {
            size_t n; f >> n; std::vector<DOp> ops(n); for (auto& o : ops) { f >> o.op >> o.k >> o.i; o.v = lst(); }
            if (mine) guarded(tr, "degrees", [&]() { with_mesh(docs[nd++ % docs.size()], [&](auto& msh, const Doc&) { degrees(tr, msh, ops); }); });
        }
        else _exit(97);
    }
    long c = 0;
    for (auto& d : docs) if (d.kind == "simplex" && d.dim == 2 && d.cells.size() <= 16 && c++ % parts == part)
        guarded(tr, "rational mesh", [&]() { for (long den : {1L, 3L}) rmesh(tr, d, den); });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
