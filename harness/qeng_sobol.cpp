#define VERIF_QENG_IMPL
#include "qeng.hpp"
#include <boost/random/sobol.hpp>
namespace vf {
template<class U, unsigned w, class T> static QCfg mk(const char* n, std::size_t td, int table) { return qcfg<boost::random::sobol_engine<U, w, T>, U>(n, SOBOL, w, (w == 64 ? ~0ull : ((u64)1 << (w % 64)) - 1) - 1, td, (u64)(std::numeric_limits<U>::max)(), table); }
void q_add_sobol(std::vector<QCfg>& v) {
    typedef boost::random::default_sobol_table D;
#define A(U, w) v.push_back(mk<U, w, D>("sobol_engine<" #U "," #w ">", 3667, 0))
    v.push_back(qcfg<boost::random::sobol, boost::uint_least64_t>("sobol", SOBOL, 64, ~0ull - 1, 3667, ~0ull, 0));
    A(u64, 63); A(u64, 33); A(u64, 16); A(u64, 3); A(u32, 32); A(u32, 31); A(u32, 17); A(u32, 8); A(u32, 1); A(u16, 16); A(u16, 10); A(u8, 8); A(u8, 5); A(u8, 2);
#undef A
#define A(U, w, VT) v.push_back(mk<U, w, STab<VT, 12> >("sobol_engine<" #U "," #w ", table of " #VT ">", 12, 1))
    A(u64, 64, u64); A(u64, 40, u32); A(u64, 20, u64); A(u32, 32, u32); A(u32, 12, u16); A(u16, 16, u32); A(u16, 9, u16); A(u8, 8, u32);
#undef A
}
}
