#define VERIF_QENG_IMPL
#include "qeng.hpp"
#include <boost/random/faure.hpp>
namespace vf {
template<class R, class S, class T> static QCfg mk(const char* n, int table) { return qcfg<boost::random::faure_engine<R, S, T>, S>(n, FAURE, std::numeric_limits<R>::digits, (u64)(std::numeric_limits<S>::max)(), 1117, ~0ull, table); }
void q_add_faure(std::vector<QCfg>& v) {
    typedef boost::random::default_faure_prime_table D;
    v.push_back(qcfg<boost::random::faure, boost::uint_least64_t>("faure", FAURE, 53, ~0ull, 1117, ~0ull, 0));
    v.push_back(mk<double, u32, D>("faure_engine<double,u32>", 0)); v.push_back(mk<double, u16, D>("faure_engine<double,u16>", 0));
    v.push_back(mk<float, u32, D>("faure_engine<float,u32>", 0)); v.push_back(mk<float, u64, D>("faure_engine<float,u64>", 0));
    v.push_back(mk<ld, u64, D>("faure_engine<long double,u64>", 0)); v.push_back(mk<ld, u16, D>("faure_engine<long double,u16>", 0));
    v.push_back(mk<double, std::int64_t, D>("faure_engine<double,i64>", 0)); v.push_back(mk<double, std::int32_t, D>("faure_engine<double,i32>", 0));
    v.push_back(mk<double, u64, PTab<u16> >("faure_engine<double,u64, primes in u16>", 1)); v.push_back(mk<double, u32, PTab<u32> >("faure_engine<double,u32, primes in u32>", 1));
}
}
