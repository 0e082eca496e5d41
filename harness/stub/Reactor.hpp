// Stands in for the repository's Reactor.hpp while Deployer.cpp is compiled for the "app" harness: the deployed
// components then run on virtual reactors.  Reactor::Init is the repository's own.
#pragma once
#define Reactor RepositoryReactor
#include_next "Reactor.hpp"
#undef Reactor
#include "world.hpp"

namespace app::reactor
{

class Reactor : public world::World
{
public:
    using Init = RepositoryReactor::Init;
    explicit Reactor(Init const& i) : init(i) { created().push_back(this); }
    static std::vector<Reactor*>& created() { static std::vector<Reactor*> v; return v; }
    Init init;
};

} // namespace app::reactor
