#include "model.hpp"
#include <mutex>
namespace vf {
namespace {
const mu64 P61 = 2305843009213693951ull;
typedef std::vector<mu64> Vec;
mu64 add61(mu64 a, mu64 b) { return (mu64)(((mu128)a + b) % P61); }
mu64 mul61(mu64 a, mu64 b) { return (mu64)((mu128)a * b % P61); }
const int N = 17;
typedef std::vector<Vec> Mat;
// A[0][j] = 1; A[i][j] = coefficient of V_j in the new V_i. The published matrix:
// A = [1 1 1 1 ...; 1 2 1 1 ...; 1 m+2 2 1 ..; 1 2m+2 m+2 2 ...] with s = 0 and m = 2^36 + 1 written additively.
Mat matrix() {
    Mat A(N, Vec(N, 1));
    const mu64 m = (1ull << 36) + 1;
    for (int i = 1; i < N; ++i) for (int j = 1; j <= i; ++j) A[i][j] = (mu64)(((mu128)m * (i - j) + 2) % P61);
    return A;
}
Vec matvec(const Mat& A, const Vec& v) { Vec r(N); for (int i = 0; i < N; ++i) { mu128 t = 0; for (int j = 0; j < N; ++j) t = (t + (mu128)A[i][j] * v[j]) % P61; r[i] = (mu64)t; } return r; }
Mat mul(const Mat& A, const Mat& B) { Mat C(N, Vec(N, 0)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { mu128 t = 0; for (int k = 0; k < N; ++k) t = (t + (mu128)A[i][k] * B[k][j]) % P61; C[i][j] = (mu64)t; } return C; }
const std::vector<Mat>& jumps() { // A^(2^(512+r)), r = 0..127
    static std::vector<Mat> J;
    static std::once_flag f;
    std::call_once(f, []() { Mat A = matrix(); for (int i = 0; i < 512; ++i) A = mul(A, A); for (int r = 0; r < 128; ++r) { J.push_back(A); A = mul(A, A); } });
    return J;
}
struct MixM : Model {
    Vec v; int pos;
    long double next() { static const Mat A = matrix(); if (pos == N) { v = matvec(A, v); pos = 1; } return (long double)v[pos++]; }
    Model* clone() const { return new MixM(*this); }
};
}
ModelFactory mixmax_model() {
    return [](Seeder& s, bool d) -> Model* {
        mu32 id[4] = { 0, 0, 0, 0 }; // stream, run, machine, cluster
        if (d) id[0] = 1;
        else if (s.kind == Seeder::VALUE) { mu64 v = s.low(64); id[0] = (mu32)v; id[1] = (mu32)(v >> 32); }
        else { std::vector<mu32> w = s.take(4); id[3] = w[0]; id[2] = w[1]; id[1] = w[2]; id[0] = w[3]; }
        MixM* m = new MixM; m->v.assign(N, 0); m->v[0] = 1; m->pos = 1;
        for (int k = 0; k < 4; ++k) for (int r = 0; r < 32; ++r) if ((id[k] >> r) & 1) m->v = matvec(jumps()[k * 32 + r], m->v);
        return m;
    };
}
}
