// P13: fixed size matrices and vectors.
#include "linref.h"
template <std::size_t N, typename T>
void smallVecCase(vf::Rng& g) {
    using V = GSmallVector<N, T>;
    auto A = randV<T>(N, g), B = randV<T>(N, g);
    T al = rnd<T>(g);
    V a(A.data()), b(B);
    const double t = 1e-14;
    std::string k = std::is_same<T, C>::value ? "svecC:" : "svec:";
    auto comb = [&](T p, T q) { std::vector<T> r(N); for (std::size_t i = 0; i < N; ++i) r[i] = p * A[i] + q * B[i]; return r; };
    sameV(a + b, comb(1., 1.), t, k + "add");
    sameV(a - b, comb(1., -1.), t, k + "sub");
    sameV(-a, comb(-1., 0.), t, k + "neg");
    sameV(a * al, comb(al, 0.), t, k + "scale");
    sameV(al * a, comb(al, 0.), t, k + "scale-left");
    V x = a;
    x += b;
    sameV(x, comb(1., 1.), t, k + "+=");
    x = a;
    x -= b;
    sameV(x, comb(1., -1.), t, k + "-=");
    x = a;
    x *= al;
    sameV(x, comb(al, 0.), t, k + "*=");
    x = a;
    x.axpy(al, b);
    sameV(x, comb(1., al), t, k + "axpy");
    T dv = al + T(std::abs(al) < .2 ? 2. : 0.);
    if (std::abs(dv) > .05) {
        x = a;
        x /= dv;
        sameV(x, comb(T(1.) / dv, 0.), 100 * t, k + "/=");
        sameV(a / dv, comb(T(1.) / dv, 0.), 100 * t, k + "/");
    }
    T dot = T(0.);
    double n2 = 0;
    for (std::size_t i = 0; i < N; ++i) {
        dot += A[i] * cj(B[i]);
        n2 += std::norm(A[i]);
    }
    vf::near(a * b, dot, 10 * t, k + "inner");
    vf::near(a.l2NormSquared(), n2, 10 * t, k + "norm2");
    vf::near(a.l2Norm(), std::sqrt(n2), 10 * t, k + "norm");
    vf::expect(a == V(A.data()) && a.hash() == V(A.data()).hash(), k + "eq-hash");
    vf::expect(!(a < a), k + "less-irreflexive");
    if (N > 0) {
        std::size_t i = vf::below(g, N);
        V c = a;
        c[i] += T(.25);
        vf::expect(!(a == c), k + "eq-distinguishes");
        vf::expect((a < c) && !(c < a), k + "less-lexicographic");
        V ap = a;
        auto e = ap.append(al);
        auto w = A;
        w.push_back(al);
        sameV(e, w, 0, k + "append");
    }
    std::vector<double> re, im;
    std::vector<T> co;
    for (auto& q : A) {
        re.push_back(std::real(q));
        im.push_back(std::imag(q));
        co.push_back(cj(q));
    }
    sameV(a.real(), re, 0, k + "real");
    sameV(a.imag(), im, 0, k + "imag");
    sameV(a.conj(), co, 0, k + "conj");
    sameV(V::constant(al), std::vector<T>(N, al), 0, k + "constant");
    sameV(a, A, 0, k + "operand-changed");
    if constexpr (N == 3) {
        std::vector<T> cr{A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]};
        sameV(a.crossProduct(b), cr, 10 * t, k + "cross3");
        V r;
        a.crossProduct(b, r);
        sameV(r, cr, 10 * t, k + "cross3-out");
        sameV(leftDoubledCrossProduct(a, b), cr, 10 * t, k + "double-cross3");
    }
    if constexpr (N == 2) {
        std::vector<T> cr{A[0] * B[1] - A[1] * B[0], T(0.)};
        sameV(a.crossProduct(b), cr, 10 * t, k + "cross2");
        // A x (s e_z) = (A_y s, -A_x s)
        std::vector<T> dc{A[1] * B[0], -A[0] * B[0]};
        sameV(leftDoubledCrossProduct(a, b), dc, 10 * t, k + "double-cross2");
    }
    vf::distinct(str(k, N));
}

template <std::size_t R, std::size_t K>
SmallMatrix<R, K> toSmall(const M<double>& x) {
    SmallMatrix<R, K> m;
    for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < K; ++j) m(i, j) = x.a[i][j];
    return m;
}
template <std::size_t R, std::size_t K, std::size_t N>
void smallMatCase(vf::Rng& g) {
    auto A = randM<double>(R, K, g), A2 = randM<double>(R, K, g), B = randM<double>(K, N, g);
    double al = rnd<double>(g);
    auto a = toSmall<R, K>(A), a2 = toSmall<R, K>(A2);
    auto b = toSmall<K, N>(B);
    const auto ca = a;
    const double t = 1e-14 * 10;
    same(a * b, mul(A, B), t, "smat:mul");
    same(ca * b, mul(A, B), t, "smat:mul-const");
    same(a + a2, lin(1., A, 1., A2), t, "smat:add");
    same(a - a2, lin(1., A, -1., A2), t, "smat:sub");
    same(-a, lin(-1., A, 0., A2), t, "smat:neg");
    same(a * al, lin(al, A, 0., A2), t, "smat:scale");
    same(al * a, lin(al, A, 0., A2), t, "smat:scale-left");
    auto x = a;
    x += a2;
    same(x, lin(1., A, 1., A2), t, "smat:+=");
    x = a;
    x -= a2;
    same(x, lin(1., A, -1., A2), t, "smat:-=");
    x = a;
    x *= al;
    same(x, lin(al, A, 0., A2), t, "smat:*=");
    x = a;
    x.axpy(al, a2);
    same(x, lin(1., A, al, A2), t, "smat:axpy");
    double dv = std::abs(al) < .2 ? 2. : al;
    x = a;
    x /= dv;
    same(x, lin(1 / dv, A, 0., A2), 10 * t, "smat:/=");
    same(a / dv, lin(1 / dv, A, 0., A2), 10 * t, "smat:/");
    same(a.transpose(), tr(A, false), 0, "smat:transpose");
    auto xv = randV<double>(K, g), yv = randV<double>(R, g);
    SmallVector<K> sx(xv.data());
    SmallVector<R> sy(yv.data());
    sameV(a * sx, col(mul(A, colM(xv)), 0), t, "smat:mat*vec");
    sameV(ca * sx, col(mul(A, colM(xv)), 0), t, "smat:mat*vec-const");
    sameV(sy * a, col(mul(tr(A, false), colM(yv)), 0), t, "smat:vec*mat");
    for (std::size_t j = 0; j < K; ++j) sameV(a.getColumn(j), col(A, j), 0, "smat:getColumn");
    for (std::size_t i = 0; i < R; ++i) sameV(a.getRow(i), A.a[i], 0, "smat:getRow");
    checkLU(a.LUfactorisation(), A, "smat:LU");
    MiddleSizeMatrix mm(a);
    same(mm, A, 0, "smat:to-middle");
    same(SmallMatrix<R, K>(mm), A, 0, "smat:from-middle");
    std::array<SmallVector<R>, K> cols;
    for (std::size_t j = 0; j < K; ++j) cols[j] = a.getColumn(j);
    same(SmallMatrix<R, K>(cols), A, 0, "smat:from-columns");
    same(a, A, 0, "smat:operand-changed");
    if constexpr (R == K) {
        vf::near(a.determinant(), det(A), 1e-13, "smat:determinant");
        auto Q = randReg<double>(R, g);
        auto q = toSmall<R, R>(Q);
        M<double> id(R, R);
        for (std::size_t i = 0; i < R; ++i) id.a[i][i] = 1;
        same(q * q.inverse(), id, 1e-11, "smat:inverse");
        vf::near(q.determinant() * q.inverse().determinant(), 1., 1e-10, "smat:det-inverse");
        auto X = randM<double>(R, N, g);
        auto rhs = toSmall<R, N>(mul(Q, X));
        q.solve(rhs);
        same(rhs, X, 1e-11, "smat:solve-matrix");
        SmallVector<R> bs(col(mul(Q, colM(yv)), 0).data());
        q.solve(bs);
        sameV(bs, yv, 1e-11, "smat:solve-vector");
        auto z = a;
        z *= q;
        same(z, mul(A, Q), 1e-12, "smat:*=matrix");
        same(q, Q, 0, "smat:operand-changed");
    }
    if constexpr (R == K + 1 && R >= 2) sameV(a.computeWedgeStuffVector(), wedge(A), 1e-13, "smat:wedge");
    vf::distinct(str("smat ", R, "x", K, "x", N));
}
#ifdef VF_SMALL4
void smallCases4(vf::Rng& g) {
    smallMatCase<4, 1, 2>(g);
    smallMatCase<4, 2, 3>(g);
    smallMatCase<4, 3, 4>(g);
    smallMatCase<4, 4, 2>(g);
    smallMatCase<2, 4, 1>(g);
    smallMatCase<3, 4, 4>(g);
    smallVecCase<4, double>(g);
    smallVecCase<4, C>(g);
}
#else
void smallCases(vf::Rng& g) {
    smallVecCase<1, double>(g);
    smallVecCase<2, double>(g);
    smallVecCase<3, double>(g);
    smallVecCase<1, C>(g);
    smallVecCase<2, C>(g);
    smallVecCase<3, C>(g);
    smallMatCase<1, 1, 1>(g);
    smallMatCase<2, 1, 1>(g);
    smallMatCase<1, 3, 2>(g);
    smallMatCase<3, 1, 2>(g);
    smallMatCase<2, 2, 2>(g);
    smallMatCase<2, 3, 1>(g);
    smallMatCase<3, 2, 3>(g);
    smallMatCase<3, 3, 2>(g);
}
#endif
