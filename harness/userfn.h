#pragma once
#include "vf.h"
#include "FE/BaseBasisFunction.h"
#include "FE/BasisFunctionSet.h"
namespace vf {
using namespace hpgem;
// vector valued functions of an application: quadratic polynomials with their
// curl and divergence
template <std::size_t D>
struct Quadratic : public FE::BaseBasisFunction {
    using P = Geometry::PointReference<D>;
    using V = LinearAlgebra::SmallVector<D>;
    double a[D], b[D][D], c[D][D];  // a_i + b_ij x_j + c_ij x_j^2
    explicit Quadratic(Rng& r) {
        for (std::size_t i = 0; i < D; ++i) {
            a[i] = uni(r, -1, 1);
            for (std::size_t j = 0; j < D; ++j) b[i][j] = uni(r, -1, 1), c[i][j] = uni(r, -1, 1);
        }
    }
    double dif(std::size_t i, std::size_t j, const P& p) const { return b[i][j] + 2 * c[i][j] * p[j]; }
    using FE::BaseBasisFunction::eval;
    using FE::BaseBasisFunction::evalCurl;
    using FE::BaseBasisFunction::evalDiv;
    void eval(const P& p, V& v) const override {
        for (std::size_t i = 0; i < D; ++i) {
            v[i] = a[i];
            for (std::size_t j = 0; j < D; ++j) v[i] += b[i][j] * p[j] + c[i][j] * p[j] * p[j];
        }
    }
    V evalCurl(const P& p) const override {
        V v;
        if constexpr (D == 2) v[0] = dif(1, 0, p) - dif(0, 1, p), v[1] = 0;
        else
            for (std::size_t i = 0; i < 3; ++i) v[i] = dif((i + 2) % 3, (i + 1) % 3, p) - dif((i + 1) % 3, (i + 2) % 3, p);
        return v;
    }
    double evalDiv(const P& p) const override {
        double s = 0;
        for (std::size_t i = 0; i < D; ++i) s += dif(i, i, p);
        return s;
    }
};
}  // namespace vf
