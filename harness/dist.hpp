// Distributions over scripted engines, type-erased (D04 to D09).
#ifndef VERIF_DIST_HPP
#define VERIF_DIST_HPP
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "script.hpp"
namespace vf {
typedef long double ld;
// the parameters of a distribution: scalars in the order of the constructor, weights, interval boundaries
struct P {
    std::vector<ld> v, w, b;
    P() {} P(ld a) : v(1, a) {} P(ld a, ld b) { v.push_back(a); v.push_back(b); } P(ld a, ld b, ld c) { v.push_back(a); v.push_back(b); v.push_back(c); }
    bool operator==(const P& o) const { return v == o.v && w == o.w && b == o.b; }
    bool operator!=(const P& o) const { return !(*this == o); }
};
inline std::ostream& operator<<(std::ostream& os, const P& p) {
    std::streamsize pr = os.precision(21); os << "("; for (std::size_t i = 0; i < p.v.size(); ++i) os << (i ? ", " : "") << p.v[i];
    if (!p.b.empty()) { os << "boundaries"; for (std::size_t i = 0; i < p.b.size() && i < 20; ++i) os << " " << p.b[i]; os << "; "; }
    if (!p.w.empty()) { os << "weights"; for (std::size_t i = 0; i < p.w.size() && i < 20; ++i) os << " " << p.w[i]; if (p.w.size() > 20) os << " ..."; }
    os << ")"; os.precision(pr); return os;
}
enum Kind { TRIANGLE, NORMAL, LOGNORMAL, EXPONENTIAL, GAMMA, BETA, CAUCHY, CHI2, EXTREME, FISHER, LAPLACE, STUDENT, WEIBULL, NCCHI2, HYPEREXP, PCONST, PLINEAR,
    BERNOULLI, BINOMIAL, GEOMETRIC, NEGBINOMIAL, POISSON, DISCRETE, UNIFORM_INT, UNIFORM_SMALLINT, UNIFORM_REAL, UNIFORM_01, NKINDS };
struct IParam {
    virtual ~IParam() {}
    virtual IParam* clone() const = 0; virtual bool eq(const IParam&) const = 0; virtual bool ne(const IParam&) const = 0; virtual P get() const = 0;
    virtual void write(std::ostream&) const = 0; virtual void write(std::wostream&) const = 0; virtual void read(std::istream&) = 0; virtual void read(std::wistream&) = 0;
};
typedef std::unique_ptr<IParam> ParamP;
struct IObj {
    virtual ~IObj() {}
    virtual IObj* clone() const = 0; virtual void assign(const IObj&) = 0; virtual bool eq(const IObj&) const = 0; virtual bool ne(const IObj&) const = 0; virtual P get() const = 0;
    virtual void write(std::ostream&) const = 0; virtual void write(std::wostream&) const = 0; virtual void read(std::istream&) = 0; virtual void read(std::wistream&) = 0;
    virtual void draw(int eng, const ScriptP& s, u64& pos, ld* out, std::size_t n) = 0;
    virtual void draw1(int eng, const ScriptP& s, u64& pos, const IParam& p, ld* out, std::size_t n) = 0;
    virtual void reset() = 0; virtual IParam* param() const = 0; virtual void param(const IParam&) = 0; virtual ld mn() const = 0; virtual ld mx() const = 0;
};
typedef std::unique_ptr<IObj> ObjP;
struct IDist {
    std::string name; Kind kind; bool real_result, real_weights; int digits, maxexp, minexp, io_digits; ld imax, imin, eps, huge, tiny; int nengines; int wdigits;
    virtual ~IDist() {}
    virtual IObj* make_default() const = 0; virtual IParam* param_default() const = 0;
    virtual int routes() const = 0;                             // ways to give the values to a constructor
    virtual IObj* make(const P&, int route = 0) const = 0;      // from values
    virtual IParam* make_param(const P&, int route = 0) const = 0;
    virtual IObj* make_from(const IParam&) const = 0;           // from a parameter object
    virtual P def() const = 0;                                  // documented default
    virtual u64 maxoff(int eng) const = 0; virtual std::string engine(int eng) const = 0;
};
typedef std::vector<const IDist*> Dists;
const Dists& dists();
// parameter generation and oracles (dist_oracle.cpp, dist_gen.cpp)
P gen_params(Ctx&, const IDist&, bool wide);
bool possible(const IDist&, const P&, ld x, std::string& why);
double cdf(const IDist&, const P&, ld x);                      // continuous
double pmf(const IDist&, const P&, ld k);                      // counting: P(X = k)
double cdf_int(const IDist&, const P&, ld k);                  // counting: P(X <= k)
}
#endif
