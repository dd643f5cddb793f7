// Plans: the complete, textual description of one simulated run.
#pragma once
#include "ref.h"
#include "world.h"
#include <string>
#include <vector>

namespace sim
{
    struct Op
    {
        std::vector<std::string> a; // a[0] = verb
        std::vector<Fault>       faults;
    };
    struct Counts
    {
        int n[ S_COUNT ] = {};
    };
    struct Violation
    {
        std::string cls, detail;
        int         op = -1;
    };
    struct Outcome
    {
        std::vector<Violation> v;
        std::vector<Counts>    counts; // per op: calls seen
        uint64_t               hash = 0;
        Stats                  st;
        uint64_t               oks = 0, fails = 0;
    };
    using Plan = std::vector<Op>;

    std::string opToText( const Op& );
    std::string planToText( const Plan& );
    bool        planFromText( const std::string&, Plan&, std::string& err );

    Outcome runPlan( const Plan& p, bool verbose, std::string* trace );

    // generators (gen.cpp)
    Plan skeleton( const std::string& prop, Rng& r );
    void placeFaults( const std::string& prop, Plan& p, const std::vector<Counts>& c, Rng& r );
    bool owns( const std::string& prop, const std::string& cls );

    // other executors dispatched by the first verb of the plan
    Outcome runContainers( const Plan& p, bool verbose, std::string* trace ); // containers.cpp
    Outcome runThreads( const Plan& p, bool verbose, std::string* trace );    // threads.cpp
    Plan    skeletonContainers( Rng& r );
    void    faultsContainers( Plan& p, const std::vector<Counts>& c, Rng& r );
    Plan    skeletonThreads( Rng& r );
    void    faultsThreads( Plan& p, const std::vector<Counts>& c, Rng& r );

    // locale.cpp
    bool        setLocale( const std::string& name );
    std::string currentLocale();
    std::string localeState();
} // namespace sim
