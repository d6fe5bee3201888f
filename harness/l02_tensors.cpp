/* Tensor algebra, kinematics and stress measures. args: OUT CASES. One case per
 * line: op, d, den, number of operands, every operand with its length, indices. */
#include <Eigen/Dense>
#include "vh.hpp"
#include "diskpp/common/eigen.hpp"
#include "diskpp/mechanics/behaviors/maths_tensor.hpp"
#include "diskpp/mechanics/behaviors/maths_utils.hpp"
#include "diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp"
#include "diskpp/mechanics/behaviors/tensor_conversion.hpp"
#include "diskpp/mechanics/deformation_tensors.hpp"
#include "diskpp/mechanics/stress_tensors.hpp"
using namespace vh;
using namespace disk;
namespace me = disk::mechanics;
using VL = std::vector<long>;
using VD = std::vector<double>;
template<int D> using M = static_matrix<double, D, D>;
template<int D> using V = static_vector<double, D>;
template<int D> using T = static_tensor<double, D>;
template<int R> static_matrix<double, R, R> mat(const VL& x)
{
    static_matrix<double, R, R> r;
    for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) r(i, j) = x.at(i * R + j);
    return r;
}
template<int R> V<R> vec(const VL& x) { V<R> r; for (int i = 0; i < R; i++) r(i) = x.at(i); return r; }
template<typename X> VD flat(const X& m)
{
    VD r;
    for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j));
    return r;
}
VD squares(VD v) { for (auto& x : v) x = x < 0 ? -x * x : x * x; return v; }

template<int D> VD apply(const std::string& op, const std::vector<VL>& x, const VL& k)
{
    auto m = [&](int i) { return mat<D>(x.at(i)); };
    auto t = [&](int i) { return T<D>(mat<D * D>(x.at(i))); };
    if (op == "Kron") return flat(Kronecker<double, D>(m(0), m(1)));
    if (op == "Sup") return flat(ProductSup<double, D>(m(0), m(1)));
    if (op == "Inf") return flat(ProductInf<double, D>(m(0), m(1)));
    if (op == "Odot") return flat(Odot<double, D>(m(0), m(1)));
    if (op == "Inner") return {InnerProduct<double, D>(m(0), m(1))};
    if (op == "InnerV") return {InnerProduct<double, D>(vec<D>(x[0]), vec<D>(x[1]))};
    if (op == "KronV") return flat(Kronecker<double, D>(vec<D>(x[0]), vec<D>(x[1])));
    if (op == "TM") return flat(tm_prod<double, D>(t(0), m(1)));
    if (op == "CTM") return flat(ContractedProduct<double, D>(t(0), m(1)));
    if (op == "MT") return flat(tm_prod<double, D>(m(1), t(0)));
    if (op == "CMT") return flat(ContractedProduct<double, D>(m(1), t(0)));
    if (op == "TMone") return flat(tm_prod<double, D>(t(0), m(1), int(k[0] - 1), int(k[1] - 1)));
    if (op == "TT") return flat(ContractedProduct<double, D>(t(0), t(1)));
    if (op == "Transp") return flat(disk::transpose<double, D>(t(0)));
    if (op == "Get") return {coeff<double, D>(t(0), int(k[0] - 1), int(k[1] - 1), int(k[2] - 1), int(k[3] - 1))};
    if (op == "Set") { T<D> a = t(0); coeff<double, D>(a, int(k[0] - 1), int(k[1] - 1), int(k[2] - 1), int(k[3] - 1), double(k[4])); return flat(a); }
    if (op == "I4") return flat(IdentityTensor4<double, D>());
    if (op == "IS4") return flat(IdentitySymTensor4<double, D>());
    if (op == "IxI") return flat(IxI<double, D>());
    if (op == "To3") return flat(convertMatrix3D(m(0)));
    if (op == "To3One") return flat(convertMatrix3DwithOne(m(0)));
    if (op == "To2") return flat(convertMatrix<double, D>(mat<3>(x[0])));
    if (op == "Ten2") return flat(convertTensor<double, D>(T<3>(mat<9>(x[0]))));
    if (op == "Mandel") return squares(flat(convertTensorNotationMangel<double, D>(t(0))));
    if (op == "CtoA") return flat(convertCtoA<double>(T<3>(mat<9>(x[0])), mat<3>(x[1]), mat<3>(x[2])));
    if (op == "ToMgis") { VD v(k[0], 0.25); convertMatrixToMgis<double, double>(mat<3>(x[0]), v); return squares(v); }
    if (op == "FromMgis") { VD v(x[0].begin(), x[0].end()); M<3> r = M<3>::Constant(7); convertMatrixFromMgis<double, double>(v, r); return squares(flat(r)); }
    if (op == "TenFromMgis") { VD v(x[0].begin(), x[0].end()); T<3> r = T<3>::Constant(7); convertTensorFromMgis<double, double>(v, r); return squares(flat(r)); }
    if (op == "Lin") return flat(me::convertGtoLinearizedStrain<double, D>(m(0)));
    if (op == "GtoF") return flat(me::convertGtoF<double, D>(m(0)));
    if (op == "FtoG") return flat(me::convertFtoG<double, D>(m(0)));
    if (op == "FtoC") return flat(me::convertFtoCauchyGreenRight<double, D>(m(0)));
    if (op == "GtoC") return flat(me::convertGtoCauchyGreenRight<double, D>(m(0)));
    if (op == "FtoB") return flat(me::convertFtoCauchyGreenLeft<double, D>(m(0)));
    if (op == "GtoB") return flat(me::convertGtoCauchyGreenLeft<double, D>(m(0)));
    if (op == "CtoE") return flat(me::convertCauchyGreenRighttoGreenLagrange<double, D>(m(0)));
    if (op == "FtoE") return flat(me::convertFtoGreenLagrange<double, D>(m(0)));
    if (op == "GtoE") return flat(me::convertGtoGreenLagrange<double, D>(m(0)));
    if (op == "PK1toPK2") return flat(me::convertPK1toPK2<double, D>(m(0), m(1)));
    if (op == "PK2toPK1") return flat(me::convertPK2toPK1<double, D>(m(0), m(1)));
    if (op == "PK1toCauchy") return flat(me::convertPK1toCauchy<double, D>(m(0), m(1)));
    if (op == "CauchytoPK1") return flat(me::convertCauchytoPK1<double, D>(m(0), m(1)));
    if (op == "CauchytoPK2") return flat(me::convertCauchytoPK2<double, D>(m(0), m(1)));
    if (op == "PK2toCauchy") return flat(me::convertPK2toCauchy<double, D>(m(0), m(1)));
    if (op == "Dev") return flat(deviator<double, D>(m(0)));
    if (op == "Sph") return flat(spheric<double, D>(m(0)));
    if (op == "Mises") return squares({me::VonMisesCriteria<double, D>(m(0))});
    if (op == "DNorm") return squares(flat(NormFroFirstDerivate<double, D>(m(0) - m(0).trace() / D * M<D>::Identity())));
    if (op == "J1") return flat(JacobianFirstDerivate<double>(m(0)));
    if (op == "J2") return flat(JacobianSecondDerivate<double>(m(0)));
    std::cerr << "unknown operation " << op << std::endl;
    _exit(97);
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    std::ifstream is(argv[2]);
    std::string line;
    while (std::getline(is, line)) {
        std::istringstream s(line);
        std::string op; int d, nx; long den;
        s >> op >> d >> den >> nx;
        std::vector<VL> x(nx); VL k;
        auto list = [&](VL& v) { long n; s >> n; v.resize(n); for (auto& y : v) s >> y; };
        for (auto& v : x) list(v);
        list(k);
        std::string err; VL out;
        try {
            VD r = d == 2 ? apply<2>(op, x, k) : apply<3>(op, x, k);
            for (auto v : r) out.push_back(Q(v, double(den), 1e-5));
        } catch (const std::exception& ex) { err = ex.what(); if (err.empty()) err = "?"; }
        tr.emit(Obj()("ev", "Op")("op", op)("d", d)("x", x)("k", k)("den", den)("out", out)("err", err));
    }
    tr.emit(Obj()("ev", "End"));
}
