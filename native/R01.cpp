#include "base.inc"
#include <array>
#include "/repo/dal/math/random/pseudorandom.cpp"
#include "h.hpp"
using namespace Dal;
typedef unsigned __int128 W;
typedef uint64_t u64;
// independent evaluation of both generators from their published recurrences
struct Ref {
    bool mrg; long long seed; u64 x[3], y[3]; std::vector<u64> irn, sh; int irl = 0;
    static constexpr u64 m1 = 4294967087ULL, m2 = 4294944443ULL;
    Ref(bool m, int s) : mrg(m), seed(s) { Reset(); }
    void Reset() {
        if (mrg) {
            const u64 a = (unsigned)seed, b = (unsigned)((unsigned)seed + 1u);
            for (int i = 0; i < 3; ++i) { x[i] = a; y[i] = b; }
            return;
        }
        irn.assign(55, 0); sh.assign(128, 0); irl = 0;
        irn[0] = (unsigned)seed;
        for (int i = 1; i < 55; ++i) irn[i] = ((17 * irn[i - 1]) & 0x3FFFFFFFULL) ^ 0x1F2E3D4CULL;
        for (int i = 0; i < 128; ++i) sh[i] = Irn();
    }
    u64 Irn() {
        irl = irl == 0 ? 54 : irl - 1;
        return irn[irl] = (irn[irl] + irn[(irl + 31) % 55]) & 0x3FFFFFFFULL;
    }
    double Next() {
        if (mrg) {
            const u64 nx = (u64)(((W)1403580 * x[1] + (W)(m1 - 810728) * x[2]) % m1), ny = (u64)(((W)527612 * y[0] + (W)(m2 - 1370589) * y[2]) % m2);
            x[2] = x[1]; x[1] = x[0]; x[0] = nx;
            y[2] = y[1]; y[1] = y[0]; y[0] = ny;
            const double d = nx > ny ? (double)(nx - ny) : (double)(nx + m1 - ny);
            return d / 4294967088.0;
        }
        const u64 v = Irn(), k = v % 128, r = sh[k];
        sh[k] = v;
        return (2.0 * (double)r + 1.0) / 2147483648.0;
    }
    typedef std::array<std::array<u64, 3>, 3> M;
    static M Mul(const M& a, const M& b, u64 m) {
        M r;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { W s = 0; for (int k = 0; k < 3; ++k) s += (W)a[i][k] * b[k][j]; r[i][j] = (u64)(s % m); }
        return r;
    }
    static void Jump(u64* v, M a, u64 n, u64 m) {
        M r = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
        for (int b = 63; b >= 0; --b) { r = Mul(r, r, m); if (n >> b & 1) r = Mul(r, a, m); }
        u64 o[3];
        for (int i = 0; i < 3; ++i) { W s = 0; for (int k = 0; k < 3; ++k) s += (W)r[i][k] * v[k]; o[i] = (u64)(s % m); }
        for (int i = 0; i < 3; ++i) v[i] = o[i];
    }
    void At(u64 n) {
        Reset();
        if (!mrg) { while (n--) Next(); return; }
        Jump(x, {{{0, 1403580, m1 - 810728}, {1, 0, 0}, {0, 1, 0}}}, n, m1);
        Jump(y, {{{527612, 0, m2 - 1370589}, {1, 0, 0}, {0, 1, 0}}}, n, m2);
    }
};
static std::string log_;
static void Note(const char* f, long long a) { char b[64]; snprintf(b, 64, f, a); log_ += b; }
// draw `paths` paths of one kind starting at path p and compare with the specification
static void Draw(Random_* g, Ref& r, long long p, int dim, bool normal, bool precise, int paths) {
    Vector_<> v(dim);
    std::vector<double> u(dim);
    Note(normal ? " normals*%lld" : " uniforms*%lld", paths);
    if (normal) r.At((u64)p * dim); else r.At((u64)(p / 2) * dim);
    for (int k = 0; k < paths; ++k) {
        const long long q = p + k;
        if (normal || q % 2 == 0 || k == 0) for (auto& d : u) d = r.Next();
        normal ? g->FillNormal(&v) : g->FillUniform(&v);
        ++H::evaluations;
        for (int i = 0; i < dim; ++i) {
            const double w = normal ? InverseNCDF(u[i], precise, precise) : q % 2 ? 1.0 - u[i] : u[i];
            if (!normal && !(v[i] > 0.0 && v[i] < 1.0)) H::Fail("%s seed=%lld dim=%d: uniform %.17g not strictly inside (0,1);%s", r.mrg ? "MRG32" : "IRN", r.seed, dim, v[i], log_.c_str());
            if (!(std::fabs(v[i] - w) <= 1e-12 * std::max(1.0, std::fabs(w)))) H::Fail("%s seed=%lld dim=%d precise=%d path %lld component %d is %.17g, expected %.17g; history:%s", r.mrg ? "MRG32" : "IRN", r.seed, dim, (int)precise, q, i, v[i], w, log_.c_str());
        }
    }
}
static void Case() {
    // the last four draw equal components of both recurrences within the first four points
    static const int S[] = {0, 1, -1, 2147483646, -2147483647 - 1, 1024, 12345, 429058324, 538586046, -1730206736, -1569353974};
    const bool mrg = H::B(), precise = H::B();
    const int seed = H::R(0, 3) == 0 ? S[H::R(0, 10)] : (int)H::R(-2147483647, 2147483647), dim = (int)H::R(1, 7);
    log_.clear();
    std::unique_ptr<Random_> g(New(RNGType_(mrg ? "MRG32" : "IRN"), seed, dim, precise));
    Ref r(mrg, seed);
    if ((int)g->NDim() != dim) H::Fail("dimension %d reported as %d", dim, (int)g->NDim());
    bool normal = H::B();
    Draw(g.get(), r, 0, dim, normal, precise, (int)H::R(0, 5));
    for (int k = (int)H::R(1, 5); k > 0; --k) {
        long long p = 0;
        if (H::R(0, 3) == 0) {
            std::unique_ptr<Random_> c(g->Clone());
            Note(" clone", 0);
            if ((int)c->NDim() != dim) H::Fail("clone of dimension %d reports %d", dim, (int)c->NDim());
            std::swap(g, c);
        }
        else {
            const int s = (int)H::R(0, 3);
            p = s == 0 || !mrg ? H::R(0, 60) : s == 1 ? H::R(0, 1 << 20) : s == 2 ? (1LL << H::R(0, 40)) + H::R(-1, 1) : H::R(0, 1LL << 40);
            if (p < 0) p = 0;
            Note(" skip-to-%lld", p);
            g->SkipTo((size_t)p);
        }
        normal = H::B();
        Draw(g.get(), r, p, dim, normal, precise, (int)H::R(0, 5));
    }
}
void Search() { while (H::Time()) for (int k = 0; k < 50; ++k) Case(); }
void Replay() { H::secs = 5; Search(); }
