// Shared by the contract harnesses that run against the real code in /repo.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>

namespace H {
    static std::map<std::string, std::string> hints;
    static std::string contract;
    static unsigned long long seed = 1;
    static double secs = 10;
    static std::chrono::steady_clock::time_point t0;
    static long evaluations = 0;
    static std::mt19937_64 rng;

    [[noreturn]] static void Fail(const char* fmt, ...) {
        va_list a;
        va_start(a, fmt);
        printf("FAIL ");
        vprintf(fmt, a);
        printf("\n");
        va_end(a);
        fflush(stdout);
        _Exit(1);
    }
    static bool Time(double frac = 1.0) { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs * frac; }
    static bool Has(const char* k) { return hints.count(k) > 0; }
    static double Num(const std::string& s) {   // z3 output: integer, p/q, decimal with trailing ?
        std::string t;
        for (char c : s) if (c != '?' && c != '(' && c != ')' && c != ' ') t += c;
        const auto k = t.find('/');
        if (k != std::string::npos) return atof(t.substr(0, k).c_str()) / atof(t.substr(k + 1).c_str());
        return atof(t.c_str());
    }
    static double D(const char* k, double def = 0) { return Has(k) ? Num(hints[k]) : def; }
    static long I(const char* k, long def = 0) { return Has(k) ? (long)std::llround(Num(hints[k])) : def; }
    static std::vector<double> V(const char* k) {
        std::vector<double> r;
        if (!Has(k)) return r;
        std::stringstream ss(hints[k]);
        std::string x;
        while (std::getline(ss, x, ',')) r.push_back(Num(x));
        return r;
    }
    static double U(double lo = 0, double hi = 1) { return std::uniform_real_distribution<double>(lo, hi)(rng); }
    static long R(long lo, long hi) { return std::uniform_int_distribution<long>(lo, hi)(rng); }
    static bool B() { return rng() & 1; }
    static bool Close(double a, double b, double tol = 1e-9, double scale = 1.0) {
        if (a == b) return true;
        return std::fabs(a - b) <= tol * std::max({scale, std::fabs(a), std::fabs(b)});
    }
    // value with many special cases: zeros, ones, ties, negative, big and small magnitudes
    static double Val(double mag = 10) {
        switch (R(0, 9)) {
        case 0: return 0.0;
        case 1: return (double)R(-3, 3);
        case 2: return U(-1, 1) * 1e-6;
        case 3: return U(-1, 1) * mag * 1000;
        case 4: return 0.5 * R(-6, 6);
        default: return U(-mag, mag);
        }
    }
} // namespace H

void Search();                       // time-limited; calls H::Fail on a violation
void Replay();                       // evaluate the contract H::contract at H::hints

int main(int argc, char** argv) {
    H::t0 = std::chrono::steady_clock::now();
    const std::string mode = argc > 1 ? argv[1] : "search";
    if (mode == "search") {
        if (argc > 2) H::seed = strtoull(argv[2], nullptr, 10);
        if (argc > 3) H::secs = atof(argv[3]);
        H::rng.seed(H::seed);
        Search();
    } else {
        H::contract = argc > 2 ? argv[2] : "";
        for (int i = 3; i < argc; ++i) {
            const std::string s = argv[i];
            const auto k = s.find('=');
            if (k != std::string::npos) H::hints[s.substr(0, k)] = s.substr(k + 1);
        }
        H::rng.seed(1);
        H::secs = 5;
        Replay();
    }
    printf("held on %ld evaluations\n", H::evaluations);
    return 0;
}
