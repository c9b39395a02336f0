// P13: run-time sized matrices and vectors.
#include "linref.h"
void smallCases(vf::Rng&);
void smallCases4(vf::Rng&);
void midCase(vf::Rng& g, std::size_t m, std::size_t k, std::size_t n) {
    double sc = scaleOf(g);
    auto A = randM<S>(m, k, g, sc), B = randM<S>(k, n, g), A2 = randM<S>(m, k, g, sc);
    S al = rnd<S>(g);
    auto a = toMid(A), b = toMid(B), a2 = toMid(A2);
    const auto& ca = a;
    double t = 1e-13 * (1 + sc) * (k + 4);
    same(a * b, mul(A, B), t, "mid:mul");
    same(ca * b, mul(A, B), t, "mid:mul-const");
    same(a + a2, lin<S>(S(1.), A, S(1.), A2), t, "mid:add");
    same(a - a2, lin<S>(S(1.), A, S(-1.), A2), t, "mid:sub");
    same(-a, lin<S>(S(-1.), A, S(0.), A2), t, "mid:neg");
    same(a * al, lin<S>(al, A, S(0.), A2), t, "mid:scale");
    same(al * a, lin<S>(al, A, S(0.), A2), t, "mid:scale-left");
    {
        auto x = a;
        x += a2;
        same(x, lin<S>(S(1.), A, S(1.), A2), t, "mid:+=");
        x = a;
        x -= a2;
        same(x, lin<S>(S(1.), A, S(-1.), A2), t, "mid:-=");
        x = a;
        x *= al;
        same(x, lin<S>(al, A, S(0.), A2), t, "mid:*=scalar");
        S d = al + (std::abs(al) < .1 ? S(2.) : S(0.));
        if (std::abs(d) > .05) {
            x = a;
            x /= d;
            same(x, lin<S>(S(1.) / d, A, S(0.), A2), 20 * t / std::abs(d), "mid:/=");
            same(a / d, lin<S>(S(1.) / d, A, S(0.), A2), 20 * t / std::abs(d), "mid:/");
        }
        x = a;
        x.axpy(al, a2);
        same(x, lin<S>(S(1.), A, al, A2), t, "mid:axpy");
        if (k == n) {
            x = a;
            x *= b;
            same(x, mul(A, B), t, "mid:*=matrix");
        }
        same(a, A, 0, "mid:operand-changed");
        same(b, B, 0, "mid:operand-changed");
        same(a2, A2, 0, "mid:operand-changed");
        MiddleSizeMatrix mv(std::move(x));
        MiddleSizeMatrix cp(a), as;
        as = a;
        MiddleSizeMatrix mas;
        mas = std::move(cp);
        same(as, A, 0, "mid:assign");
        same(mas, A, 0, "mid:move-assign");
        as = al;
        M<S> one(1, 1);
        one.a[0][0] = al;
        same(as, one, 0, "mid:assign-scalar");
        same(MiddleSizeMatrix(m, k, al), [&] { M<S> q(m, k); for (auto& r : q.a) for (auto& e : r) e = al; return q; }(), 0, "mid:fill");
    }
    auto xv = randV<S>(k, g), yv = randV<S>(m, g);
    auto x = toMidV(xv), y = toMidV(yv);
    sameV(a * x, col(mul(A, colM(xv)), 0), t, "mid:mat*vec");
    sameV(ca * x, col(mul(A, colM(xv)), 0), t, "mid:mat*vec-const");
    sameV(y * a, col(mul(tr(A, false), colM(yv)), 0), t, "mid:vec*mat");
    same(a.transpose(), tr(A, false), 0, "mid:transpose");
    for (std::size_t j = 0; j < k; ++j) sameV(a.getColumn(j), col(A, j), 0, "mid:getColumn");
    for (std::size_t i = 0; i < m; ++i) sameV(a.getRow(i), A.a[i], 0, "mid:getRow");
    vf::expect(a.size() == m * k, "mid:size", a.size());
    for (std::size_t q = 0; q < m * k; ++q) vf::near(a[q], A.a[q % m][q / m], 0, "mid:flat-index");
    {  // stacking
        auto Bt = randM<S>(n, k, g);
        auto x = a;
        x.concatenate(toMid(Bt));
        M<S> w(m + n, k);
        for (std::size_t i = 0; i < m + n; ++i) w.a[i] = i < m ? A.a[i] : Bt.a[i - m];
        same(x, w, 0, "mid:concatenate");
        auto Br = randM<S>(m, n, g);
        MiddleSizeMatrix gl({a, toMid(Br), toMid(A2)});
        M<S> v(m, k + n + k);
        for (std::size_t i = 0; i < m; ++i)
            for (std::size_t j = 0; j < v.c; ++j) v.a[i][j] = j < k ? A.a[i][j] : j < k + n ? Br.a[i][j - k] : A2.a[i][j - k - n];
        same(gl, v, 0, "mid:glue");
    }
    {  // resize keeps the shape contract
        auto x = a;
        x.resize(m + 2, k);
        vf::expect(x.getNumberOfRows() == m + 2 && x.getNumberOfColumns() == k && x.size() == (m + 2) * k, "mid:resize");
        x(m + 1, k - 1) = al;
        vf::near(x[(m + 2) * k - 1], al, 0, "mid:resize-last");
        x = a;
        x.resize(m, k + 3);  // adding columns does not move entries
        for (std::size_t i = 0; i < m; ++i)
            for (std::size_t j = 0; j < k; ++j) vf::near(x(i, j), A.a[i][j], 0, "mid:resize-columns");
    }
    checkLU(a.LUfactorisation(), A, "mid:LU");
    same(MiddleSizeMatrix(y), colM(yv), 0, "mid:from-vector");
    vf::distinct(str("mid ", m, "x", k, "x", n));
    // square problems
    {
        auto Q = randReg<S>(n, g);
        auto q = toMid(Q);
        double cond = 200.0 * n, tq = 1e-13 * cond * n;
        same(mul(Q, [&] { M<S> z(n, n); auto i = q.inverse(); for (std::size_t a = 0; a < n; ++a) for (std::size_t b = 0; b < n; ++b) z.a[a][b] = i(a, b); return z; }()).a.size() ? q.inverse() * q : q,
             [&] { M<S> z(n, n); for (std::size_t i = 0; i < n; ++i) z.a[i][i] = S(1.); return z; }(), tq, "mid:inverse");
        same(q * q.inverse(), [&] { M<S> z(n, n); for (std::size_t i = 0; i < n; ++i) z.a[i][i] = S(1.); return z; }(), tq, "mid:inverse-right");
        auto X = randM<S>(n, k, g);
        auto rhs = toMid(mul(Q, X));
        q.solve(rhs);
        same(rhs, X, tq, "mid:solve-matrix");
        auto xs = randV<S>(n, g);
        auto bs = toMidV(col(mul(Q, colM(xs)), 0));
        q.solve(bs);
        sameV(bs, xs, tq, "mid:solve-vector");
        auto bp = toMidV(col(mul(Q, colM(xs)), 0));
        q.pseudoSolve(bp, 1e-12);
        sameV(bp, xs, tq, "mid:pseudoSolve-regular");
        same(q, Q, 0, "mid:solve-changed-matrix");
        // Hermitian positive definite
        M<S> H = mul(Q, tr(Q, true));
        for (std::size_t i = 0; i < n; ++i) H.a[i][i] = S(std::real(H.a[i][i]) + 1.);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = i + 1; j < n; ++j) H.a[j][i] = cj(H.a[i][j]);
        auto h = toMid(H);
        double hm = H.mx(), tolH = 1e-13 * (1 + hm) * 100 * n * n;
        vf::expect(h.isHermitian(1e-10 * (1 + hm)), "mid:isHermitian-false-negative");
        if (n > 1) {
            auto h2 = h;
            std::size_t i = vf::below(g, n), j = vf::below(g, n);
            if (i == j) j = (j + 1) % n;
            h2(i, j) += S(1e-3);
            vf::expect(!h2.isHermitian(1e-6), "mid:isHermitian-false-positive", i, ",", j);
        }
        if (std::is_same<S, C>::value) {
            auto h2 = h;
            std::size_t i = vf::below(g, n);
            S im = S(0.);
            reinterpret_cast<double*>(&im)[sizeof(S) / sizeof(double) - 1] = 1e-3;
            h2(i, i) += im;
            vf::expect(!h2.isHermitian(1e-6), "mid:isHermitian-diagonal", i);
        }
        auto L = h;
        L.cholesky();
        M<S> l(n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j <= i; ++j) l.a[i][j] = L(i, j);
        same(toMid(mul(l, tr(l, true))), H, tolH, "mid:cholesky");
        auto XH = randM<S>(n, k, g);
        auto rh = toMid(mul(H, XH));
        L.solveCholesky(rh);
        same(rh, XH, tolH * 10, "mid:solveCholesky");
        for (int side = 0; side < 2; ++side)
            for (int t3 = 0; t3 < 3; ++t3) {
                M<S> op = t3 == 0 ? l : tr(l, t3 == 2);
                Side sd = side ? Side::OP_RIGHT : Side::OP_LEFT;
                Transpose tt = t3 == 0 ? Transpose::NOT : t3 == 1 ? Transpose::TRANSPOSE : Transpose::HERMITIAN_TRANSPOSE;
                std::string nm = str("mid:solveLowerTriangular:side", side, ":transpose", t3);
                auto XX = side ? randM<S>(k, n, g) : randM<S>(n, k, g);
                auto r = toMid(side ? mul(XX, op) : mul(op, XX));
                L.solveLowerTriangular(r, sd, tt);
                same(r, XX, tolH * 10, nm + ":matrix");
                auto xx = randV<S>(n, g);
                auto rv = toMidV(side ? mul(tr(colM(xx), false), op).a[0] : col(mul(op, colM(xx)), 0));
                L.solveLowerTriangular(rv, sd, tt);
                sameV(rv, xx, tolH * 10, nm + ":vector");
            }
    }
    // rank deficient least squares: A = U S V* with a known null space
    if (n >= 2) {
        std::size_t rk = 1 + vf::below(g, n - 1);
        auto orth = [&](std::size_t nn) {
            M<S> z = randM<S>(nn, nn, g);
            for (std::size_t i = 0; i < nn; ++i) z.a[i][i] += S(3.);
            for (std::size_t j = 0; j < nn; ++j) {
                for (int rep = 0; rep < 2; ++rep)
                    for (std::size_t q = 0; q < j; ++q) {
                        S d = S(0.);
                        for (std::size_t i = 0; i < nn; ++i) d += cj(z.a[i][q]) * z.a[i][j];
                        for (std::size_t i = 0; i < nn; ++i) z.a[i][j] -= d * z.a[i][q];
                    }
                double nr = 0;
                for (std::size_t i = 0; i < nn; ++i) nr += std::norm(z.a[i][j]);
                for (std::size_t i = 0; i < nn; ++i) z.a[i][j] /= std::sqrt(nr);
            }
            return z;
        };
        auto U = orth(n), V = orth(n);
        M<S> D(n, n), Dp(n, n);
        for (std::size_t i = 0; i < rk; ++i) {
            double s = vf::uni(g, 1, 3);
            D.a[i][i] = S(s);
            Dp.a[i][i] = S(1 / s);
        }
        auto A0 = mul(mul(U, D), tr(V, true));
        auto P = mul(mul(V, Dp), tr(U, true));
        auto bv = randV<S>(n, g);
        auto got = toMidV(bv);
        toMid(A0).pseudoSolve(got, 1e-8);
        sameV(got, col(mul(P, colM(bv)), 0), 1e-11 * n, "mid:pseudoSolve-deficient");
    }
    if (m >= 2 && m <= 4) {
        auto J = randM<S>(m, m - 1, g);
        sameV(toMid(J).computeWedgeStuffVector(), wedge(J), 1e-13 * 50, "mid:wedge");
    }
}

void midVecCase(vf::Rng& g, std::size_t n) {
    auto A = randV<S>(n, g), B = randV<S>(n, g);
    S al = rnd<S>(g);
    auto a = toMidV(A), b = toMidV(B);
    double t = 1e-14 * (n + 5);
    auto comb = [&](S p, S q) { std::vector<S> r(n); for (std::size_t i = 0; i < n; ++i) r[i] = p * A[i] + q * B[i]; return r; };
    sameV(a + b, comb(1., 1.), t, "midvec:add");
    sameV(a - b, comb(1., -1.), t, "midvec:sub");
    sameV(-a, comb(-1., 0.), t, "midvec:neg");
    sameV(a * al, comb(al, 0.), t, "midvec:scale");
    sameV(al * a, comb(al, 0.), t, "midvec:scale-left");
    S dv = al + S(std::abs(al) < .2 ? 2. : 0.);
    if (std::abs(dv) > .05) {
        sameV(a / dv, comb(S(1.) / dv, 0.), 100 * t, "midvec:div");
        auto x = a;
        x /= dv;
        sameV(x, comb(S(1.) / dv, 0.), 100 * t, "midvec:/=");
    }
    auto x = a;
    x += b;
    sameV(x, comb(1., 1.), t, "midvec:+=");
    x = a;
    x -= b;
    sameV(x, comb(1., -1.), t, "midvec:-=");
    x = a;
    x *= al;
    sameV(x, comb(al, 0.), t, "midvec:*=");
    x = a;
    x.axpy(al, b);
    sameV(x, comb(1., al), t, "midvec:axpy");
    S dot = S(0.);
    double n2 = 0;
    for (std::size_t i = 0; i < n; ++i) {
        dot += A[i] * B[i];
        n2 += std::abs(A[i]) * std::abs(A[i]);
    }
    vf::near(a * b, dot, t * 4, "midvec:dot");
    vf::near(a.l2NormSquared(), n2, t * 4, "midvec:norm2");
    vf::near(a.l2Norm(), std::sqrt(n2), t * 4, "midvec:norm");
    vf::expect(a == toMidV(A), "midvec:eq-reflexive");
    if (n) {
        auto c = a;
        std::size_t i = vf::below(g, n);
        c[i] += S(.5);
        vf::expect(!(a == c) && !(c == a), "midvec:eq-distinguishes");
        vf::expect((a < c) != (c < a), "midvec:less-total");
        auto e = b;
        vf::expect(!(a < a), "midvec:less-irreflexive");
        if ((a < c) && (c < e)) vf::expect(a < e, "midvec:less-transitive");
        c.set(al);
        sameV(c, std::vector<S>(n, al), 0, "midvec:set");
        c.resize(n + 3);
        vf::expect(c.size() == n + 3, "midvec:resize");
        for (std::size_t q = 0; q < n; ++q) vf::near(c(q), al, 0, "midvec:resize-keeps");
        MiddleSizeVector fromArr(A.data(), n);
        sameV(fromArr, A, 0, "midvec:from-array");
    }
    sameV(a, A, 0, "midvec:operand-changed");
    sameV(b, B, 0, "midvec:operand-changed");
    vf::distinct(str("midvec ", n));
}

int main(int argc, char** argv) {
    vf::init(argc, argv);
    std::size_t reps = vf::st().thorough ? 60 : 3;
    vf::Rng g = vf::rng("linalg");
    std::size_t mx = 9;
    for (std::size_t r = 0; r < reps; ++r) {
        for (std::size_t m = 1; m <= mx; ++m)
            for (std::size_t k = 1; k <= mx; k += 1 + (m + r) % 2)
                for (std::size_t n = 1; n <= mx; n += 1 + (k + r) % 3) {
                    vf::begin(str("middle ", m, " ", k, " ", n, " rep ", r));
                    vf::guard("mid", [&] { midCase(g, m, k, n); });
                }
        for (int big = 0; big < 4; ++big) {
            std::size_t m = 10 + vf::below(g, 40), k = 10 + vf::below(g, 40), n = 10 + vf::below(g, 40);
            vf::begin(str("middle ", m, " ", k, " ", n, " rep ", r));
            vf::guard("mid", [&] { midCase(g, m, k, n); });
        }
        for (std::size_t n = 0; n <= 40; ++n) {
            vf::begin(str("midvec ", n));
            vf::guard("midvec", [&] { midVecCase(g, n); });
        }
        for (int q = 0; q < 20; ++q) {
            vf::begin(str("small rep ", r, " ", q));
            vf::guard("small", [&] {
                smallCases(g);
                smallCases4(g);
            });
        }
    }
    return vf::finish();
}
