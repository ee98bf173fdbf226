// Quasi-random engines, type-erased, with the published constructions as reference model (Q01, Q02, Q03).
#ifndef VERIF_QENG_HPP
#define VERIF_QENG_HPP
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "pbt.hpp"
#include <algorithm>
#include <list>
#include <memory>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/variate_generator.hpp>
namespace vf {
using pbt::Ctx; using pbt::u64; using pbt::u128; using pbt::str;
typedef long double ld; typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32;
struct IQ;
typedef std::shared_ptr<IQ> QP;
struct IQ {
    virtual ~IQ() {}
    virtual ld call() = 0;
    virtual void block(ld* out, std::size_t n, int kind) = 0;         // 0 calls, 1 generate into an array, 2 generate into a list
    virtual void discard(u64 z) = 0; virtual void seed(u64 n) = 0; virtual void seed() = 0; virtual void seed_negative() = 0;
    virtual bool eq(const IQ&) const = 0; virtual bool ne(const IQ&) const = 0;
    virtual QP clone() const = 0; virtual void assign(const IQ&) = 0;
    virtual std::string write(bool wide) const = 0;
    virtual bool read(const std::string& text, bool wide, std::string& rest) = 0;   // false: the stream failed
    virtual std::size_t dim() const = 0;
    virtual double u01(int kind) = 0;
};
enum QKind { SOBOL, NIED, FAURE };
struct QCfg {
    std::string name; QKind kind; unsigned w;      // bits of a coordinate; digits of the real type
    u64 last;                                      // number of the last vector
    u64 seedmax;                                   // largest value of the seed's type
    std::size_t tabdim;                            // dimensions of the table
    u64 polymax;                                   // polynomials above are refused
    int table;                                     // 0 the library's, otherwise a generated one
    bool stream, sgn; ld lo, hi; std::function<QP(std::size_t)> make;
    std::size_t maxdim() const;                    // largest dimension that is neither beyond the table nor refused
};
const std::vector<QCfg>& qcfgs();
// generated tables, read by the table classes
struct QTab { std::vector<u64> poly; std::vector<std::vector<u64> > m; std::vector<unsigned> primes; };
QTab& qtab();
// the reference
u64 q_poly(const QCfg&, std::size_t d);            // polynomial of coordinate d (0 for the first of Sobol's)
int q_degree(u64 p);
std::vector<u64> q_columns(const QCfg&, std::size_t d);
u64 q_base(const QCfg&, std::size_t dim);          // Faure's prime
u64 q_gray(const std::vector<u64>& col, u64 n);
struct QModel {                                    // coordinates of vector n
    const QCfg& f; std::size_t dim; u64 base; std::vector<std::shared_ptr<std::vector<u64> > > col; QModel(const QCfg&, std::size_t dim); 
    ld at(u64 n, std::size_t d, ld& tol);
    std::vector<u64> digits(u64 n, std::size_t d) const;   // Faure, most significant first
};
void q_generate_table(Ctx& c, const QCfg& f, std::size_t dims);
std::size_t q_dim(Ctx& c, const QCfg& f, std::size_t cap);
u64 q_vector(Ctx& c, const QCfg& f, std::size_t dim);
inline std::string show(const QCfg& f, std::size_t dim) { std::ostringstream o; o << f.name << " of dimension " << dim; if (f.table) { o << " (polynomials"; for (std::size_t i = 0; i < qtab().poly.size() && i < 6; ++i) { o << " " << qtab().poly[i]; if (f.kind == SOBOL) for (std::size_t k = 0; k < qtab().m[i].size(); ++k) o << (k ? "," : ":") << qtab().m[i][k]; } for (unsigned p : qtab().primes) o << " prime " << p; o << ")"; } return o.str(); }

#ifdef VERIF_QENG_IMPL
template<class E, class S> struct QT : IQ {
    E e; explicit QT(std::size_t d) : e(d) {} explicit QT(const E& x) : e(x) {}
    typedef typename E::result_type R;
    ld call() override { return (ld)e(); }
    void block(ld* out, std::size_t n, int kind) override {
        if (kind == 0) for (std::size_t i = 0; i < n; ++i) out[i] = (ld)e();
        else if (kind == 1) { std::unique_ptr<R[]> a(new R[n]); e.generate(a.get(), a.get() + n); for (std::size_t i = 0; i < n; ++i) out[i] = (ld)a[i]; }
        else { std::list<R> l(n); e.generate(l.begin(), l.end()); for (R x : l) *out++ = (ld)x; }
    }
    void discard(u64 z) override { e.discard(z); } void seed(u64 n) override { e.seed((S)n); } void seed() override { e.seed(); }
    void neg(std::true_type) { e.seed((S)-1); } void neg(std::false_type) {} void seed_negative() override { neg(std::is_signed<S>()); }
    static const E& of(const IQ& o) { return static_cast<const QT&>(o).e; }
    bool eq(const IQ& o) const override { return e == of(o); } bool ne(const IQ& o) const override { return e != of(o); }
    QP clone() const override { return QP(new QT(e)); } void assign(const IQ& o) override { e = of(o); }
    typedef std::integral_constant<bool, (sizeof(S) > 1)> Text;
    std::string wr(bool, std::false_type) const { return ""; } bool rdx(const std::string&, bool, std::string&, std::false_type) { return false; }
    std::string write(bool wide) const override { return wr(wide, Text()); } bool read(const std::string& t, bool wide, std::string& rest) override { return rdx(t, wide, rest, Text()); }
    std::string wr(bool wide, std::true_type) const { if (wide) { std::wostringstream o; o << e; std::wstring s = o.str(); return std::string(s.begin(), s.end()); } std::ostringstream o; o << e; return o.str(); }
    template<class St> bool rd(St& s, std::string& rest) { s >> e; if (!s) return false; typename St::int_type ch; s.clear(); while ((ch = s.get()) != St::traits_type::eof()) rest.push_back((char)ch); return true; }
    bool rdx(const std::string& t, bool wide, std::string& rest, std::true_type) { if (wide) { std::wistringstream s(std::wstring(t.begin(), t.end())); return rd(s, rest); } std::istringstream s(t); return rd(s, rest); }
    std::size_t dim() const override { return e.dimension(); }
    double u01(int kind) override {
        if (kind == 0) { boost::random::uniform_01<double> u; return u(e); }
        if (kind == 1) { boost::random::uniform_real_distribution<double> u(0, 1); return u(e); }
        boost::variate_generator<E&, boost::random::uniform_01<double> > g(e, boost::random::uniform_01<double>()); return g();
    }
};
template<class E, class S> QCfg qcfg(const char* name, QKind k, unsigned w, u64 last, std::size_t tabdim, u64 polymax, int table) {
    QCfg f; f.name = name; f.kind = k; f.w = w; f.last = last; f.seedmax = (u64)(std::numeric_limits<S>::max)(); f.tabdim = tabdim; f.polymax = polymax; f.table = table; f.stream = sizeof(S) > 1; f.sgn = std::is_signed<S>::value;
    f.lo = (ld)(E::min)(); f.hi = (ld)(E::max)(); f.make = [](std::size_t d) { return QP(new QT<E, S>(d)); }; return f;
}
template<class VT, unsigned N> struct STab { BOOST_STATIC_CONSTANT(unsigned, max_dimension = N); typedef VT value_type; static VT polynomial(std::size_t n) { return (VT)qtab().poly.at(n); } static VT minit(std::size_t d, std::size_t k) { return (VT)qtab().m.at(d).at(k); } };
template<class VT> struct PTab { typedef VT value_type; static VT lower_bound(std::size_t n) { for (unsigned p : qtab().primes) if (p >= n) return (VT)p; throw std::invalid_argument("no prime"); return 0; } };
#endif
void q_add_sobol(std::vector<QCfg>&); void q_add_nied(std::vector<QCfg>&); void q_add_faure(std::vector<QCfg>&);
}
#endif
