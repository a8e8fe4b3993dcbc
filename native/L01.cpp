#include "base.inc"
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/decompositionsmisc.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include "h.hpp"
#include <memory>
using namespace Dal;
typedef std::vector<double> V;
typedef std::vector<V> M;
static Vector_<> W(const V& v) { return Vector_<>(v.begin(), v.end()); }
static V Vec(int n) { V v; for (int i = 0; i < n; ++i) v.push_back(H::B() ? H::U(-2, 2) : (double)H::R(-2, 2)); return v; }
static V Mul(const M& a, const V& x, bool tr = false) {
    V r(a.size());
    for (size_t i = 0; i < a.size(); ++i) { long double s = 0; for (size_t j = 0; j < a.size(); ++j) s += (long double)(tr ? a[j][i] : a[i][j]) * x[j]; r[i] = (double)s; }
    return r;
}
static void Cmp(const char* what, const Vector_<>& got, const V& want, double tol = 1e-8) {
    ++H::evaluations;
    if (got.size() != want.size()) H::Fail("%s has %d elements, expected %d", what, (int)got.size(), (int)want.size());
    for (size_t i = 0; i < want.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= tol * std::max(1.0, std::fabs(want[i])))) H::Fail("%s: element %d of %d is %.17g, expected %.17g", what, (int)i, (int)want.size(), got[i], want[i]);
}
static V Of(const Vector_<>& v) { return V(v.begin(), v.end()); }
// with result vectors of any previous size, and with result and argument the same object
template <class F> static V Call(F f, const V& x) {
    Vector_<> r;
    if (H::B()) r.Resize((size_t)H::R(1, 12));
    for (auto& q : r) q = 77;
    f(W(x), &r);
    return Of(r);
}
static void Inverse(const char* what, const SquareMatrixDecomposition_& d, const M& a, double tol = 1e-7) {
    const int n = (int)a.size();
    if (d.Size() != n) H::Fail("%s: size is %d, expected %d", what, d.Size(), n);
    const V x = Vec(n);
    for (int tr = 0; tr < 2; ++tr) {
        char b[200];
        snprintf(b, 200, "%s: %s product", what, tr ? "transposed" : "plain");
        Cmp(b, W(Call([&](const Vector_<>& u, Vector_<>* r) { tr ? d.MultiplyRight(u, r) : d.MultiplyLeft(u, r); }, x)), Mul(a, x, tr));
        snprintf(b, 200, "%s: matrix times its %s solution", what, tr ? "transposed" : "plain");
        const V s = Call([&](const Vector_<>& u, Vector_<>* r) { tr ? d.SolveRight(u, r) : d.SolveLeft(u, r); }, x);
        if ((int)s.size() != n) H::Fail("%s: the solution has %d elements, expected %d", what, (int)s.size(), n);
        Cmp(b, W(Mul(a, s, tr)), x, tol);
        Vector_<> al = W(x);
        tr ? d.SolveRight(al, &al) : d.SolveLeft(al, &al);
        snprintf(b, 200, "%s: solution into its own right-hand side", what);
        Cmp(b, al, s);
        al = W(x);
        tr ? d.MultiplyRight(al, &al) : d.MultiplyLeft(al, &al);
        snprintf(b, 200, "%s: product into its own argument", what);
        Cmp(b, al, Mul(a, x, tr));
    }
}
static void Symmetric(const char* what, const Sparse::SymmetricDecomposition_& d, const M& a, bool corr) {
    const int n = (int)a.size();
    char b[200];
    Inverse(what, d, a);
    const V x = Vec(n);
    Cmp(what, W(Call([&](const Vector_<>& u, Vector_<>* r) { d.Multiply(u, r); }, x)), Mul(a, x));
    // quadratic forms J A^-1 J'
    const int m = (int)H::R(1, 4);
    Matrix_<> j(m, n);
    for (int r = 0; r < m; ++r) for (int c = 0; c < n; ++c) j(r, c) = H::U(-1, 1);
    SquareMatrix_<> q;
    d.QForm(j, &q);
    if (q.Rows() != m) H::Fail("%s: quadratic form has %d rows, expected %d", what, q.Rows(), m);
    for (int c = 0; c < m; ++c) {
        V jc(n);
        for (int i = 0; i < n; ++i) jc[i] = j(c, i);
        Vector_<> s(n);
        d.Solve(W(jc), &s);
        for (int r = 0; r < m; ++r) {
            long double w = 0;
            for (int i = 0; i < n; ++i) w += (long double)j(r, i) * s[i];
            if (!(std::fabs(q(r, c) - (double)w) <= 1e-7 * std::max(1.0, std::fabs((double)w)))) H::Fail("%s: quadratic form (%d,%d) is %.17g, expected %.17g", what, r, c, q(r, c), (double)w);
        }
    }
    if (!corr) return;
    M l(n, V(n));
    for (int c = 0; c < n; ++c) {
        Vector_<> e(n, 0.0), out;
        e[c] = 1;
        d.MakeCorrelated(e.begin(), &out);
        if ((int)out.size() != n) H::Fail("%s: correlated draw has %d elements, expected %d", what, (int)out.size(), n);
        for (int r = 0; r < n; ++r) l[r][c] = out[r];
    }
    for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) {
        long double s = 0;
        for (int k = 0; k < n; ++k) s += (long double)l[r][k] * l[c][k];
        snprintf(b, 200, "%s: covariance (%d,%d) of correlated draws", what, r, c);
        Cmp(b, Vector_<>(1, (double)s), V(1, a[r][c]));
    }
}
static void Band() {
    const int n = (int)H::R(1, 9), na = (int)H::R(0, 4), nb = (int)H::R(0, 4);
    const bool tri = na <= 1 && nb <= 1;
    Sparse::Square_* s = Sparse::NewBandDiagonal(n, na, nb);   // no virtual destructor: kept
    M a(n, V(n, 0));
    if (s->Size() != n) H::Fail("band matrix of size %d reports %d", n, s->Size());
    const int kind = (int)H::R(0, 2);          // 0: any, 1: symmetric, 2: nearly symmetric
    for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) {
        const bool in = tri ? std::abs(r - c) <= 1 : c - r <= na && r - c <= nb;
        if (!in) {
            if (s->operator()(r, c) != 0) H::Fail("element outside the band is not zero");
            bool threw = false;
            try { s->Set(r, c, 1.0); } catch (std::exception&) { threw = true; }
            if (!threw) H::Fail("band (%d,%d) of %d: write outside the band at (%d,%d) accepted", na, nb, n, r, c);
            continue;
        }
        double v = std::round(1024 * (r == c ? H::U(9, 12) : H::U(-1, 1))) / 1024;
        if (kind && c < r) v = a[c][r];
        if (kind && c > r && !tri && c - r > nb) v = 0;
        if (H::B()) s->Set(r, c, v); else { s->Set(r, c, v - 1); s->Add(r, c, 1.0); v = (v - 1) + 1.0; }
        a[r][c] = v;
    }
    if (kind == 2 && n > 1) { const int r = (int)H::R(1, n - 1); const int c = r - 1; const bool in = tri || nb >= 1; if (in) { s->Add(r, c, 0.25); a[r][c] += 0.25; } }
    bool sym = true;
    for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) {
        if (std::fabs(s->operator()(r, c) - a[r][c]) > 1e-12) H::Fail("element (%d,%d) of a band matrix is %.17g, expected %.17g", r, c, s->operator()(r, c), a[r][c]);
        sym = sym && a[r][c] == a[c][r];
    }
    const V x = Vec(n);
    char w[120];
    snprintf(w, 120, "band (%d,%d) of %d", na, nb, n);
    Cmp(w, W(Call([&](const Vector_<>& u, Vector_<>* r) { s->MultiplyLeft(u, r); }, x)), Mul(a, x));
    Cmp(w, W(Call([&](const Vector_<>& u, Vector_<>* r) { s->MultiplyRight(u, r); }, x)), Mul(a, x, true));
    if (s->IsSymmetric() != sym) H::Fail("%s: symmetry reported %d, is %d", w, (int)s->IsSymmetric(), (int)sym);
    if (tri) {
        std::unique_ptr<SquareMatrixDecomposition_> d(s->Decompose());
        Inverse(w, *d, a);
        if (sym) { std::unique_ptr<Sparse::SymmetricDecomposition_> e(s->DecomposeSymmetric()); if (!e) H::Fail("%s: no symmetric decomposition", w); Symmetric(w, *e, a, false); }
    } else if (sym && na == nb) {
        std::unique_ptr<Sparse::SymmetricDecomposition_> e(s->DecomposeSymmetric());
        if (!e) H::Fail("%s: no symmetric decomposition", w);
        Symmetric(w, *e, a, true);
    } else if (!sym) {
        bool threw = false;
        try { std::unique_ptr<SquareMatrixDecomposition_> d(s->Decompose()); } catch (std::exception&) { threw = true; }
        if (!threw) H::Fail("%s: a non-symmetric matrix was Cholesky-decomposed", w);
    }
}
static void Deficient() {   // positive semi-definite band matrix of low rank: draws still have that covariance
    const int n = (int)H::R(3, 6);
    V g;
    for (int i = 0; i < n; ++i) g.push_back(H::U(0.3, 2));
    Sparse::Square_* s = Sparse::NewBandDiagonal(n, n - 1, n - 1);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s->Set(i, j, g[i] * g[j]);
    std::unique_ptr<Sparse::SymmetricDecomposition_> e;
    try { e.reset(s->DecomposeSymmetric()); } catch (std::exception&) { return; }
    Vector_<> z(n, 1.0), out;
    e->MakeCorrelated(z.begin(), &out);
    ++H::evaluations;
    for (int i = 0; i < n; ++i) if (!(std::fabs(out[i]) < 1e6)) H::Fail("draw %.17g from a band covariance of rank one, size %d", out[i], n);
}
template <class F> static void Refused(const char* what, int n, F f) {
    bool threw = false;
    try { f(); } catch (std::exception&) { threw = true; }
    ++H::evaluations;
    if (!threw) H::Fail("%s of size %d was decomposed or solved", what, n);
}
static void Singular() {    // exactly singular, in small integers so that the zero pivot is met exactly at any chosen place
    const int n = (int)H::R(1, 6), at = (int)H::R(0, n - 1);
    Sparse::Square_* s = Sparse::NewBandDiagonal(n, 1, 1);
    const bool sym = H::B();
    double carry = 0;                   // product of the neighbours over the previous pivot
    for (int i = 0; i < n; ++i) {
        const double piv = i == at ? 0.0 : (double)(1L << H::R(0, 2));
        s->Set(i, i, piv + carry);
        if (i + 1 < n) {
            const double up = (double)H::R(-3, 3), lo = sym ? up : (double)H::R(-3, 3);
            s->Set(i, i + 1, up);
            s->Set(i + 1, i, lo);
            carry = piv != 0 ? up * lo / piv : 0;
        }
    }
    Refused("a tridiagonal matrix with a zero pivot", n, [&] { std::unique_ptr<SquareMatrixDecomposition_> d(s->Decompose()); });
    const int w = (int)H::R(2, 4);
    Sparse::Square_* p = Sparse::NewBandDiagonal(n, w, w);
    M g(n, V(n, 0));
    for (int i = 0; i < n; ++i) for (int j = std::max(0, i - w); j <= i; ++j) g[i][j] = i == j ? (double)H::R(1, 3) : (double)H::R(-2, 2);
    for (int i = 0; i < n; ++i) for (int j = std::max(0, i - w); j <= std::min(n - 1, i + w); ++j) { double v = 0; for (int k = 0; k < n; ++k) v += (k == at ? -1.0 : 1.0) * g[i][k] * g[j][k]; p->Set(i, j, v); }
    Refused("a symmetric band matrix with a negative pivot", n, [&] { std::unique_ptr<Sparse::SymmetricDecomposition_> d(p->DecomposeSymmetric()); });
    V dg(n, 2.0);
    dg[at] = 0;
    SquareMatrix_<> l(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) l(i, j) = i == j ? dg[i] : j < i ? (double)H::R(-2, 2) : 0.0;
    const Vector_<> one(n, 1.0);
    for (int tr = 0; tr < 2; ++tr) {
        Vector_<> r;
        Refused("a triangular matrix with a zero on the diagonal", n, [&] { std::unique_ptr<SquareMatrixDecomposition_> d(LowerTriangularAsDecomposition(l)); tr ? d->SolveRight(one, &r) : d->SolveLeft(one, &r); });
        Refused("a diagonal matrix with a zero on the diagonal", n, [&] { std::unique_ptr<SquareMatrixDecomposition_> d(DiagonalAsDecomposition(W(dg))); tr ? d->SolveRight(one, &r) : d->SolveLeft(one, &r); });
    }
}
static M Spd(int n) {
    M g(n, V(n)), a(n, V(n, 0));
    for (auto& r : g) for (auto& x : r) x = H::U(-1, 1);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { for (int k = 0; k < n; ++k) a[i][j] += g[i][k] * g[j][k]; if (i == j) a[i][j] += 0.5; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i][j] = a[j][i];
    return a;
}
static SquareMatrix_<> Sq(const M& a) { SquareMatrix_<> r((int)a.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) r((int)i, (int)j) = a[i][j]; return r; }
static void Dense() {
    const int n = (int)H::R(1, 7);
    const M a = Spd(n);
    std::unique_ptr<Sparse::SymmetricDecomposition_> d(CholeskyDecomposition(Sq(a)));
    Symmetric("Cholesky", *d, a, true);
    SquareMatrix_<> w = Sq(a);
    Vector_<Vector_<>> bs;
    std::vector<V> keep;
    for (int k = 0; k < 3; ++k) { keep.push_back(Vec(n)); bs.push_back(W(keep.back())); }
    CholeskySolve(&w, &bs);
    for (int k = 0; k < 3; ++k) Cmp("Cholesky solve in place", W(Mul(a, Of(bs[k]))), keep[k], 1e-7);
    M l(n, V(n, 0));
    for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) l[i][j] = H::U(-1, 1); l[i][i] = (H::B() ? 1 : -1) * H::U(0.5, 2); }
    std::unique_ptr<SquareMatrixDecomposition_> t(LowerTriangularAsDecomposition(Sq(l)));
    Inverse("lower triangular", *t, l);
    M g(n, V(n, 0));
    V dg;
    for (int i = 0; i < n; ++i) { g[i][i] = H::U(0.2, 3); dg.push_back(g[i][i]); }
    std::unique_ptr<SymmetricMatrixDecomposition_> q(DiagonalAsDecomposition(W(dg)));
    Vector_<> out, iid = W(Vec(n));
    q->MakeCorrelated(iid.begin(), &out);
    V want;
    for (int i = 0; i < n; ++i) want.push_back(std::sqrt(dg[i]) * iid[i]);
    Cmp("diagonal: correlated draw", out, want);
    Inverse("diagonal", *q, g);
}
void Replay() { Search(); }
void Search() {
    while (H::Time()) for (int i = 0; i < 50; ++i) { Band(); Dense(); Deficient(); Singular(); }
}
