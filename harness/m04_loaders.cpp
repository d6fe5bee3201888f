/* Loads mesh files with the real loaders and projects the result. */
#include "vh.hpp"
#include "diskpp/loaders/loader.hpp"
#include "meshdump.hpp"
using namespace vh;

template<typename Mesh> void dump(Obj& o, Mesh& msh, double scale)
{
    snapshot(o, msh, scale);
    std::vector<long> dom;
    for (auto& cl : msh) dom.push_back(long(msh.domain_info(cl).id()));
    o("dom", dom);
    std::vector<std::vector<long>> ed;
    if constexpr (Mesh::dimension == 3)
        for (auto& e : msh.backend_storage()->edges) ed.push_back(pids(e));
    o("ed", ed);
    o("nn", long(msh.backend_storage()->nodes.size()));
}

template<typename Mesh, typename F> bool direct(const std::string& fn, F load, Obj& o, double scale, bool want)
{
    Mesh msh;
    bool ok = load(fn.c_str(), msh);
    if (ok && want) dump(o, msh, scale);
    return ok;
}

using T = double;
static bool load_one(const std::string& fmt, const std::string& fn, bool via, Obj& o, double scale, bool want)
{
    if (via && (fmt == "typ1" || fmt == "mesh2d" || fmt == "mesh" || fmt == "quad" || fmt == "hex" || fmt == "msh")) {
        int r = disk::dispatch_all_meshes(fn.c_str(), [&](auto& msh) { if (want) dump(o, msh, scale); });
        return r == 0;
    }
#define L(name) [](const char* f, auto& m) { return disk::name(f, m); }
    if (fmt == "typ1") return direct<disk::generic_mesh<T, 2>>(fn, L(load_mesh_fvca5_2d), o, scale, want);
    if (fmt == "msh") return direct<disk::generic_mesh<T, 3>>(fn, L(load_mesh_fvca6_3d), o, scale, want);
    if (fmt == "mesh2d") return direct<disk::simplicial_mesh<T, 2>>(fn, L(load_mesh_netgen), o, scale, want);
    if (fmt == "mesh") return direct<disk::simplicial_mesh<T, 3>>(fn, L(load_mesh_netgen), o, scale, want);
    if (fmt == "quad") return direct<disk::cartesian_mesh<T, 2>>(fn, L(load_mesh_diskpp_cartesian), o, scale, want);
    if (fmt == "hex") return direct<disk::cartesian_mesh<T, 3>>(fn, L(load_mesh_diskpp_cartesian), o, scale, want);
    if (fmt == "medit2d") return direct<disk::generic_mesh<T, 2>>(fn, L(load_mesh_medit), o, scale, want);
    if (fmt == "medit3d") return direct<disk::generic_mesh<T, 3>>(fn, L(load_mesh_medit), o, scale, want);
    if (fmt == "poly2d") return direct<disk::generic_mesh<T, 2>>(fn, L(load_mesh_poly), o, scale, want);
    if (fmt == "poly3d") return direct<disk::generic_mesh<T, 3>>(fn, L(load_mesh_poly), o, scale, want);
    std::cerr << "unknown format" << std::endl;
    _exit(97);
}

int main(int argc, char** argv)
{
    if (argc < 3) return 97;
    Trace tr(argv[1]);
    std::ifstream f(argv[2]);
    std::string tag;
    while (f >> tag) {
        if (tag == "UNIFORM") {
            int lo, hi, n;
            f >> lo >> hi >> n;
            guarded(tr, "uniform", [&] {
                disk::uniform_mesh_loader<T, 1> loader(lo, hi, n);
                disk::generic_mesh<T, 1> msh;
                Obj o;
                o("ev", "Uniform")("lo", lo)("hi", hi)("n", n)("ok", loader.populate_mesh(msh));
                dump(o, msh, n);
                tr.emit(o);
            });
            continue;
        }
        std::string fmt, fn, kind, what;
        int bx, by, nz, seed, pat, scale, bad, trans, via;
        f >> fmt >> fn >> kind >> bx >> by >> nz >> seed >> pat >> scale >> bad >> trans >> via;
        std::getline(f, what);
        if (bad) {
            bool ok = true, exc = false;
            Obj o;
            try { ok = load_one(fmt, fn, via, o, scale, false); } catch (const std::exception&) { exc = true; }
            tr.emit(Obj()("ev", "LoadBad")("fmt", fmt)("what", what)("ok", ok)("exc", exc));
            continue;
        }
        guarded(tr, fmt + " " + fn, [&] {
            Obj o;
            o("ev", "Load")("fmt", fmt)("trans", trans != 0);
            o.raw("par", Obj()("kind", kind)("bx", bx)("by", by)("nz", nz)("seed", seed)("pat", pat).str());
            bool ok = load_one(fmt, fn, via, o, scale, true);
            o("ok", ok);
            tr.emit(o);
        });
    }
    return 0;
}
