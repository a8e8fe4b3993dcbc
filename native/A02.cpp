#include "base.inc"
#include <dal/math/aad/aad.hpp>
#include "h.hpp"
#include "dual.hpp"
#include <set>
using namespace Dal;
using namespace Dal::AAD;
// ---- storage blocks against a list of live pieces
template <size_t B> static void Storage() {
    BlockList_<double, B> b;
    struct Piece { double* p; size_t n; };
    std::vector<Piece> live;
    std::vector<double> vals;
    long mark = -1;
    std::vector<double*> first;       // where the k-th piece went the last time
    double stamp = 1;
    bool single = true;
    for (int step = 0; step < 60; ++step) {
        const int what = (int)H::R(0, 11);
        if (what < 8) {
            size_t n = 1;
            double* p;
            if (what < 4) p = H::B() ? b.EmplaceBack() : b.EmplaceBack(0.0);
            else if (what == 4 && B >= 2) { n = 2; p = b.template EmplaceBackMulti<2>(); single = false; }
            else { n = (size_t)H::R(1, B); p = b.EmplaceBackMulti(n); single = single && n == 1; }
            for (const auto& l : live) if (p < l.p + l.n && l.p < p + n) H::Fail("block of %d: storage handed out twice (step %d, %d pieces live)", (int)B, step, (int)live.size());
            for (size_t i = 0; i < n; ++i) p[i] = stamp;
            live.push_back({p, n});
            vals.push_back(stamp);
            stamp += 1;
        } else if (what == 8) { b.SetMark(); mark = (long)live.size(); }
        else if (what == 9 && mark >= 0) { b.RewindToMark(); live.resize(mark); vals.resize(mark); }
        else if (what == 10 && H::R(0, 3) == 0) { b.Rewind(); live.clear(); vals.clear(); mark = -1; single = true; }
        else if (what == 11 && H::R(0, 3) == 0) { b.Clear(); live.clear(); vals.clear(); mark = -1; single = true; }
        ++H::evaluations;
        for (size_t k = 0; k < live.size(); ++k) for (size_t i = 0; i < live[k].n; ++i) if (live[k].p[i] != vals[k]) H::Fail("block of %d: piece %d changed after being handed out", (int)B, (int)k);
        if (single) {
            if (b.Size() != (int)live.size()) H::Fail("block of %d: size is %d with %d records", (int)B, b.Size(), (int)live.size());
            size_t k = 0;
            for (auto it = b.Begin(); it != b.End(); ++it, ++k) if (k >= live.size() || &*it != live[k].p) H::Fail("block of %d: iteration leaves the records at %d of %d", (int)B, (int)k, (int)live.size());
            if (k != live.size()) H::Fail("block of %d: iteration visits %d of %d records", (int)B, (int)k, (int)live.size());
            auto e = b.End();
            for (; k > 0; --k) { --e; if (&*e != live[k - 1].p) H::Fail("block of %d: backward iteration misses record %d", (int)B, (int)k - 1); }
            if (!(e == b.Begin())) H::Fail("block of %d: backward iteration does not arrive at the beginning", (int)B);
            if (!live.empty()) { const auto q = H::R(0, (long)live.size() - 1); auto f = b.Find(live[q].p); if (!(f != b.End()) || &*f != live[q].p) H::Fail("block of %d: record %d not found", (int)B, (int)q); }
            if (mark >= 0 && mark < (long)live.size()) { auto m = b.Mark(); if (&*m != live[mark].p) H::Fail("block of %d: the mark is not at record %d", (int)B, (int)mark); }
        }
    }
}
// ---- programs on the tape
static void Pad(size_t n) { for (size_t i = 0; i < n; ++i) { Number_ q(1.0); (void)q; } }
template <class T> static T Step(std::vector<T>& v, int a, int b, int op, double k) {
    switch (op) {
    case 0: return v[a] + v[b];
    case 1: return v[a] - v[b] * k;
    case 2: return v[a] * v[b] * 0.5;
    case 3: return v[a] / (v[b] * v[b] + 1.0);
    case 4: return v[a] * v[a] * 0.25 + v[a];
    default: return v[a] * v[b] - v[b] * v[b] * k + v[a];
    }
}
struct Prog { std::vector<std::array<int, 3>> op; std::vector<double> k; };
static Prog Make(int start, int n) {
    Prog p;
    for (int i = 0; i < n; ++i) {
        p.op.push_back({(int)H::R(0, start + i - 1), (int)H::R(0, start + i - 1), (int)H::R(0, 5)});
        p.k.push_back(H::U(-1, 1));
    }
    return p;
}
static std::vector<TapNode_*>* nodes = nullptr;   // record of each number of a program
template <class T> static void Run(std::vector<T>& v, const Prog& p, size_t gap = 0) {
    for (size_t i = 0; i < p.op.size(); ++i) {
        if constexpr (std::is_same_v<T, Number_>) if (gap && i == p.op.size() / 2) Pad(gap);
        v.push_back(T(Step(v, p.op[i][0], p.op[i][1], p.op[i][2], p.k[i])));
        if constexpr (std::is_same_v<T, Number_>) if (nodes) nodes->push_back(&*std::prev(Number_::Tape()->End()));
    }
}
static void Cmp(const char* what, double got, long double want) {
    ++H::evaluations;
    if (!(std::fabs(got - (double)want) <= 1e-8 * std::max(1.0, std::fabs((double)want)))) H::Fail("%s is %.17g, expected %.17Lg", what, got, want);
}
static size_t Near(size_t b) {   // record counts around the block size
    switch (H::R(0, 3)) {
    case 0: return 0;
    case 1: return b - (size_t)H::R(0, 12);
    case 2: return 2 * b - (size_t)H::R(0, 12);
    default: return (size_t)H::R(0, 40);
    }
}
static std::vector<Dual> Inputs(const std::vector<double>& x) {
    std::vector<Dual> r;
    for (size_t i = 0; i < x.size(); ++i) { Dual q(x[i]); q.d.assign(x.size(), 0); q.d[i] = 1; r.push_back(q); }
    return r;
}
static std::vector<double> Start() { std::vector<double> x; const int n = (int)H::R(1, 4); for (int i = 0; i < n; ++i) x.push_back(H::U(-1.2, 1.2)); return x; }
static void Plain() {
    Tape_* t = Number_::Tape();
    if (H::B()) t->Clear(); else t->Rewind();
    const auto x = Start();
    const Prog p = Make((int)x.size(), (int)H::R(1, 10));
    Pad(Near(BLOCK_SIZE));
    std::vector<Number_> v;
    for (double q : x) v.push_back(Number_(q));
    Run(v, p, H::R(0, 3) == 0 ? Near(BLOCK_SIZE) : 0);
    auto w = Inputs(x);
    Run(w, p);
    Cmp("value of a program", v.back().value(), w.back().v);
    v.back().PropagateToStart();
    for (size_t i = 0; i < x.size(); ++i) Cmp("derivative of a program", v[i].Adjoint(), w.back().D(i));
    const size_t tail = Near(BLOCK_SIZE);
    Pad(tail);
    t->ResetAdjoints();
    for (auto& q : v) if (q.Adjoint() != 0) H::Fail("adjoint %.17g after a reset", q.Adjoint());
    const size_t k = (size_t)H::R((long)x.size(), (long)v.size() - 1);
    v[k].PropagateToStart();
    for (size_t i = 0; i < x.size(); ++i) Cmp("derivative of an intermediate after a reset", v[i].Adjoint(), w[k].D(i));
}
static void Paths() {   // pricing pattern: set-up before a mark, paths after it, the set-up swept once
    Tape_* t = Number_::Tape();
    if (H::B()) t->Clear(); else t->Rewind();
    const auto x = Start();
    const Prog p0 = Make((int)x.size(), (int)H::R(0, 5));
    Pad(Near(BLOCK_SIZE));
    std::vector<Number_> v;
    for (double q : x) v.push_back(Number_(q));
    Run(v, p0, H::R(0, 3) == 0 ? Near(BLOCK_SIZE) : 0);
    auto w = Inputs(x);
    Run(w, p0);
    t->Mark();
    const size_t nv = v.size();
    std::vector<long double> tot(x.size(), 0);
    for (int path = 0, n = (int)H::R(1, 4); path < n; ++path) {
        t->RewindToMark();
        const Prog p = Make((int)nv, (int)H::R(1, 8));
        Run(v, p, H::R(0, 3) == 0 ? Near(BLOCK_SIZE) : 0);
        Run(w, p);
        Cmp("value on a path", v.back().value(), w.back().v);
        v.back().PropagateToMark();
        for (size_t i = 0; i < x.size(); ++i) tot[i] += w.back().D(i);
        v.resize(nv, Number_(0.0)); w.resize(nv);
    }
    Number_::PropagateMarkToStart();
    for (size_t i = 0; i < x.size(); ++i) Cmp("derivative accumulated over paths", v[i].Adjoint(), tot[i]);
}
static void Several() {
    static const size_t ws[] = {1, 2, 3, 7, 100};
    const size_t wd = ws[H::R(0, 4)];
    auto guard = SetNumResultsForAAD(true, wd);
    Tape_* t = Number_::Tape();
    if (H::B()) t->Clear(); else t->Rewind();
    const auto x = Start();
    const Prog p = Make((int)x.size(), (int)H::R(1, 10));
    Pad(wd < 50 ? Near(BLOCK_SIZE) : Near(ADJ_SIZE / wd));
    std::vector<Number_> v;
    std::vector<TapNode_*> nd;
    for (double q : x) { v.push_back(Number_(q)); nd.push_back(&*std::prev(t->End())); }
    nodes = &nd;
    Run(v, p, H::R(0, 3) == 0 ? Near(wd < 50 ? BLOCK_SIZE : ADJ_SIZE / wd) : 0);
    nodes = nullptr;
    auto w = Inputs(x);
    Run(w, p);
    std::vector<size_t> pick;
    for (int round = 0; round < 2; ++round) {
        pick.clear();
        for (size_t k = 0; k < wd; ++k) { pick.push_back((size_t)H::R((long)x.size(), (long)v.size() - 1)); nd[pick[k]]->Adjoint(k) = 1.0; }
        // one sweep from the newest record; several results may share a record
        Number_::PropagateAdjointsMulti(std::prev(t->End()), t->Begin());
        for (size_t k = 0; k < wd; ++k) for (size_t i = 0; i < x.size(); ++i) Cmp("derivative of one of several results", nd[i]->Adjoint(k), w[pick[k]].D(i));
        t->ResetAdjoints();
        for (auto* q : nd) for (size_t k = 0; k < wd; ++k) if (q->Adjoint(k) != 0) H::Fail("adjoint %.17g of result %d after a reset", q->Adjoint(k), (int)k);
    }
    t->Clear();
}
void Replay() { Search(); }
void Search() {
    static Tape_ tape;
    Number_::SetTape(tape);
    while (H::Time()) {
        for (int i = 0; i < 20; ++i) { Storage<1>(); Storage<2>(); Storage<5>(); Storage<16>(); }
        for (int i = 0; i < 6; ++i) { Plain(); Paths(); Several(); }
    }
}
