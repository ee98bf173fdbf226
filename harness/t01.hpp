// Objects with lists of operations, run alone, in turn and by threads (T01).
#ifndef VERIF_T01_HPP
#define VERIF_T01_HPP
#include <boost/config.hpp>
#include "pbt.hpp"
#include <memory>
namespace vf {
using pbt::Ctx; using pbt::u64; using pbt::str;
typedef long double ld;
typedef std::vector<ld> Out;
struct Actor {
    std::string name; virtual ~Actor() {}
    virtual std::size_t size() const = 0;
    virtual void start(Out&) = 0;                    // makes the object
    virtual void step(std::size_t i, Out& out) = 0;  // operation i; what it returns goes to out
};
typedef std::shared_ptr<Actor> ActorP; typedef std::vector<ActorP> Actors;
void gen_other(Ctx& c, Actors& r, std::size_t same);
void shared_other(Ctx& c, void (*run)(std::size_t, const std::function<void(std::size_t)>&));
}
#endif
