// Command line of the simulator.
//   sim run PROP SEED START STRIDE SECONDS MAXRUNS PHASES STATUS STATS HASHES
//   sim plan PROP SEED INDEX PHASE            prints the plan of that run
//   sim replay FILE [-v]                      runs a plan file; exit 1 when its property is violated
//   sim minimise PROP CLASS FILE OUT SECONDS  shrinks a failing plan
#include "plan.h"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:detect_container_overflow=0:exitcode=78:abort_on_error=0:handle_abort=1:handle_sigfpe=1:handle_sigill=1:allocator_may_return_null=1:quarantine_size_mb=8:max_redzone=64:malloc_context_size=4:detect_stack_use_after_return=0:print_legend=0";
}

namespace
{
    double now()
    {
        return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
    }
    uint64_t propHash( const std::string& p )
    {
        uint64_t h = 1469598103934665603ull;
        for ( unsigned char c : p )
            h = ( h ^ c ) * 1099511628211ull;
        return h;
    }
    // Last resort for loops outside the instrumented code: processor time of this process, not wall-clock time.
    void onAlarm( int ) { fatal( "hang", "processor time limit" ); }
    void cpuLimit( int secs )
    {
        struct itimerval t = {};
        t.it_value.tv_sec  = secs;
        signal( SIGPROF, onAlarm );
        setitimer( ITIMER_PROF, &t, nullptr );
    }

    std::string propOf; // the property being decided

    // A leak only counts when the same history leaks again in the same process (first-use caches do not).
    Outcome runChecked( const Plan& p, bool verbose, std::string* trace )
    {
        Outcome o    = runPlan( p, verbose, trace );
        bool    leak = false;
        for ( auto& v : o.v )
            leak |= v.cls == "leak.mem";
        if ( leak )
        {
            Outcome q     = runPlan( p, false, nullptr );
            bool    again = false;
            for ( auto& v : q.v )
                again |= v.cls == "leak.mem";
            if ( !again )
            {
                std::vector<Violation> keep;
                for ( auto& v : o.v )
                    if ( v.cls != "leak.mem" )
                        keep.push_back( v );
                o.v = keep;
            }
        }
        // C12: what goes wrong only because of the locale is a dependence on it, whatever kind of result it shows in
        if ( propOf == "C12" )
        {
            Plan q;
            bool other = false;
            for ( auto& op : p )
                if ( op.a[ 0 ] != "locale" )
                    q.push_back( op );
                else
                    q.push_back( Op { { "locale", "C" }, {} } );
            for ( auto& v : o.v )
                other |= !owns( propOf, v.cls );
            if ( other )
            {
                Outcome w = runPlan( q, false, nullptr );
                for ( auto& v : o.v )
                {
                    bool stays = false;
                    for ( auto& x : w.v )
                        stays |= x.cls == v.cls;
                    if ( !owns( propOf, v.cls ) && !stays )
                    {
                        v.detail = v.cls + ": " + v.detail + " (not so in the C locale)";
                        v.cls    = "locale.result";
                    }
                }
            }
        }
        return o;
    }

    Plan planAt( const std::string& prop, uint64_t seed, uint64_t idx, int phase, const std::vector<Counts>* counts )
    {
        uint64_t base = mix( mix( seed, propHash( prop ) ), idx );
        Rng      r( base );
        Plan     a = skeleton( prop, r );
        if ( phase == 0 )
            return a;
        std::vector<Counts> c;
        if ( counts )
            c = *counts;
        else
            c = runPlan( a, false, nullptr ).counts;
        Rng f( mix( base, 0x51ed2701u + uint64_t( phase ) ) );
        placeFaults( prop, a, c, f );
        return a;
    }

    std::string slurp( const std::string& f )
    {
        std::ifstream     i( f, std::ios::binary );
        std::stringstream s;
        s << i.rdbuf();
        return s.str();
    }

    int cmdRun( char** a )
    {
        std::string prop    = a[ 0 ];
        propOf              = prop;
        uint64_t    seed    = strtoull( a[ 1 ], nullptr, 10 );
        uint64_t    start   = strtoull( a[ 2 ], nullptr, 10 );
        uint64_t    stride  = strtoull( a[ 3 ], nullptr, 10 );
        double      secs    = atof( a[ 4 ] );
        uint64_t    maxRuns = strtoull( a[ 5 ], nullptr, 10 );
        int         phases  = atoi( a[ 6 ] );
        int         fd      = ::open( a[ 7 ], O_RDWR | O_CREAT, 0644 );
        if ( ftruncate( fd, 4096 ) )
            return 3;
        auto* status = static_cast<uint64_t*>( mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
        double                       t0 = now();
        uint64_t                     last = getenv( "SIM_LASTIDX" ) ? strtoull( getenv( "SIM_LASTIDX" ), nullptr, 10 ) : ~0ull;
        Stats                        sum;
        uint64_t                     runs = 0, plans = 0, faulty = 0, oks = 0, fails = 0;
        std::unordered_set<uint64_t> hashes;
        std::map<std::string, int>   foreign;
        int                          rc = 0;
        for ( uint64_t idx = start;; idx += stride )
        {
            if ( idx > last || now() - t0 > secs || ( maxRuns && runs >= maxRuns ) )
                break;
            cpuLimit( 100 );
            std::vector<Counts> counts;
            plans++;
            for ( int ph = 0; ph <= phases && rc == 0; ph++ )
            {
                status[ 0 ] = 1;
                status[ 1 ] = idx;
                status[ 2 ] = uint64_t( ph );
                Plan p      = planAt( prop, seed, idx, ph, &counts );
                if ( ph > 0 )
                {
                    bool any = false;
                    for ( auto& o : p )
                        any |= !o.faults.empty() || o.a[ 0 ] == "sw" || o.a[ 0 ] == "rr";
                    if ( !any )
                        continue;
                }
                Outcome o = runChecked( p, false, nullptr );
                if ( ph == 0 )
                    counts = o.counts;
                runs++;
                uint64_t f = 0;
                for ( int i = 0; i < S_COUNT; i++ )
                {
                    sum.calls[ i ] += o.st.calls[ i ];
                    for ( int j = 0; j < A_COUNT; j++ )
                    {
                        sum.fired[ i ][ j ] += o.st.fired[ i ][ j ];
                        f += o.st.fired[ i ][ j ];
                    }
                }
                faulty += f > 0 || o.st.switches > 0;
                sum.ops += o.st.ops;
                sum.damage += o.st.damage;
                sum.crashes += o.st.crashes;
                sum.restarts += o.st.restarts;
                sum.locales += o.st.locales;
                sum.switches += o.st.switches;
                sum.steps += o.st.steps;
                oks += o.oks;
                fails += o.fails;
                if ( o.oks + o.fails )
                    hashes.insert( o.hash );
                bool mine = false;
                for ( auto& v : o.v )
                {
                    if ( owns( prop, v.cls ) )
                    {
                        if ( !mine )
                            printf( "VIOL %s %llu %d %s | %s\n", prop.c_str(), (unsigned long long)idx, ph, v.cls.c_str(), quote( v.detail ).c_str() );
                        mine = true;
                    }
                    else
                    {
                        if ( !foreign[ v.cls ]++ )
                            printf( "OTHER %s %llu %d %s | %s\n", prop.c_str(), (unsigned long long)idx, ph, v.cls.c_str(), quote( v.detail ).c_str() );
                    }
                }
                if ( mine )
                    rc = 10;
            }
            if ( rc )
                break;
        }
        status[ 0 ] = 2;
        {
            std::ofstream s( a[ 8 ] );
            s << "{\"runs\":" << runs << ",\"plans\":" << plans << ",\"faulty_runs\":" << faulty << ",\"distinct\":" << hashes.size() << ",\"seconds\":" << now() - t0 << ",\"ops\":" << sum.ops << ",\"steps\":" << sum.steps << ",\"damage\":" << sum.damage << ",\"crashes\":" << sum.crashes << ",\"restarts\":" << sum.restarts << ",\"locales\":" << sum.locales
              << ",\"switches\":" << sum.switches << ",\"oks\":" << oks << ",\"fails\":" << fails << ",\"edges\":" << edgesHit << ",\"calls\":{";
            for ( int i = 0; i < S_COUNT; i++ )
                s << ( i ? "," : "" ) << "\"" << sysName[ i ] << "\":" << sum.calls[ i ];
            s << "},\"faults\":{";
            bool first = true;
            for ( int i = 0; i < S_COUNT; i++ )
                for ( int j = 0; j < A_COUNT; j++ )
                    if ( sum.fired[ i ][ j ] )
                    {
                        s << ( first ? "" : "," ) << "\"" << sysName[ i ] << "." << actName[ j ] << "\":" << sum.fired[ i ][ j ];
                        first = false;
                    }
            s << "},\"other\":{";
            first = true;
            for ( auto& x : foreign )
            {
                s << ( first ? "" : "," ) << "\"" << x.first << "\":" << x.second;
                first = false;
            }
            s << "}}\n";
        }
        {
            std::vector<uint64_t> v( hashes.begin(), hashes.end() );
            std::ofstream         s( a[ 9 ], std::ios::binary );
            s.write( reinterpret_cast<const char*>( v.data() ), long( v.size() * 8 ) );
        }
        return rc;
    }

    int cmdReplay( const std::string& file, bool verbose, const std::string& propArg )
    {
        std::string t = slurp( file ), prop = propArg, err;
        size_t      k = t.find( "# property=" );
        if ( prop.empty() && k != std::string::npos )
            prop = t.substr( k + 11, t.find_first_of( " \n", k + 11 ) - k - 11 );
        Plan p;
        if ( !planFromText( t, p, err ) )
        {
            fprintf( stderr, "%s\n", err.c_str() );
            return 3;
        }
        cpuLimit( 100 );
        propOf = prop;
        std::string trace;
        Outcome     o  = runChecked( p, verbose, &trace );
        int         rc = 0;
        if ( verbose )
            fputs( trace.c_str(), stdout );
        for ( auto& v : o.v )
        {
            bool mine = prop.empty() || owns( prop, v.cls );
            printf( "%s %s op=%d | %s\n", mine ? "VIOL" : "OTHER", v.cls.c_str(), v.op, quote( v.detail ).c_str() );
            if ( mine )
                rc = 1;
        }
        printf( "HASH %016llx\n", (unsigned long long)o.hash );
        fflush( stdout );
        return rc;
    }

    // ------------------------------------------------------------ minimiser
    struct Min
    {
        std::string prop, cls;
        double      deadline;
        int         tried = 0;

        // class of the failure of a plan in a fresh child process ("" = none of ours)
        bool fails( const Plan& p )
        {
            if ( now() > deadline )
                return false;
            tried++;
            int fd[ 2 ];
            if ( pipe( fd ) )
                return false;
            fflush( nullptr );
            pid_t pid = fork();
            if ( pid == 0 )
            {
                ::close( fd[ 0 ] );
                dup2( fd[ 1 ], 2 );
                int nul = ::open( "/dev/null", O_WRONLY );
                dup2( nul, 1 );
                cpuLimit( 20 );
                Outcome o = runChecked( p, false, nullptr );
                for ( auto& v : o.v )
                    if ( v.cls == cls )
                        _exit( 1 );
                _exit( 0 );
            }
            ::close( fd[ 1 ] );
            std::string e;
            char        b[ 4096 ];
            ssize_t     n;
            while ( ( n = ::read( fd[ 0 ], b, sizeof b ) ) > 0 )
                if ( e.size() < 100000 )
                    e.append( b, size_t( n ) );
            ::close( fd[ 0 ] );
            int st = 0;
            waitpid( pid, &st, 0 );
            if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 1 )
                return true;
            if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 77 )
                return e.find( "FATAL " + cls + " " ) != std::string::npos && e.find( "processor time" ) == std::string::npos;
            if ( ( WIFEXITED( st ) && WEXITSTATUS( st ) == 78 ) || WIFSIGNALED( st ) )
                return cls == "crash";
            return false;
        }
        template <class T>
        bool ddmin( std::vector<T>& v, const std::function<bool( const std::vector<T>& )>& test )
        {
            bool   any = false;
            size_t n   = 2;
            while ( !v.empty() && now() < deadline )
            {
                size_t chunk = std::max<size_t>( 1, v.size() / n );
                bool   hit   = false;
                for ( size_t i = 0; i < v.size(); i += chunk )
                {
                    std::vector<T> w( v.begin(), v.begin() + long( i ) );
                    w.insert( w.end(), v.begin() + long( std::min( v.size(), i + chunk ) ), v.end() );
                    if ( test( w ) )
                    {
                        v   = w;
                        hit = any = true;
                        n   = std::max<size_t>( 2, n - 1 );
                        break;
                    }
                }
                if ( !hit )
                {
                    if ( chunk == 1 )
                        break;
                    n = std::min( v.size(), n * 2 );
                }
            }
            return any;
        }
        void shrink( Plan& p )
        {
            for ( int round = 0; round < 4 && now() < deadline; round++ )
            {
                bool changed = false;
                changed |= ddmin<Op>( p, [ & ]( const std::vector<Op>& q ) { return !q.empty() && q[ 0 ].a[ 0 ].size() && fails( q ); } );
                for ( size_t i = 0; i < p.size(); i++ )
                {
                    changed |= ddmin<Fault>( p[ i ].faults, [ & ]( const std::vector<Fault>& f ) {
                        Plan q        = p;
                        q[ i ].faults = f;
                        return fails( q );
                    } );
                    for ( size_t j = 0; j < p[ i ].faults.size(); j++ )
                        for ( int what = 0; what < 3; what++ )
                        {
                            Plan   q = p;
                            Fault& f = q[ i ].faults[ j ];
                            if ( what == 0 && f.plus )
                            {
                                f.plus = false;
                                f.span = 0;
                            }
                            else if ( what == 1 && f.n > 1 )
                                f.n = 1;
                            else if ( what == 2 && f.act != A_ERR && f.arg > 1 )
                                f.arg = 1;
                            else
                                continue;
                            if ( fails( q ) )
                            {
                                p       = q;
                                changed = true;
                            }
                        }
                    // shorten texts
                    for ( size_t k = 1; k < p[ i ].a.size(); k++ )
                    {
                        bool long_ = p[ i ].a[ k ].size() > 2 && ( p[ i ].a[ 0 ] == "put" || p[ i ].a[ 0 ] == "parsebuf" ? k == 2 : ( p[ i ].a[ 0 ] == "ser" && k == 3 ) || ( p[ i ].a[ 0 ] == "add" && k >= 3 && k != 4 ) || ( p[ i ].a[ 0 ] == "fill" && k == 3 ) );
                        if ( !long_ )
                            continue;
                        std::vector<char> c( p[ i ].a[ k ].begin(), p[ i ].a[ k ].end() );
                        bool json = p[ i ].a[ 0 ] == "ser" || ( p[ i ].a[ 0 ] == "add" && k == 5 );
                        changed |= ddmin<char>( c, [ & ]( const std::vector<char>& w ) {
                            Plan q          = p;
                            q[ i ].a[ k ]   = std::string( w.begin(), w.end() );
                            if ( json && !ref::parse( q[ i ].a[ k ] ).ok )
                                return false;
                            return fails( q );
                        } );
                        p[ i ].a[ k ] = std::string( c.begin(), c.end() );
                    }
                }
                if ( !changed )
                    break;
            }
        }
    };

    int cmdMinimise( char** a )
    {
        Min  m;
        m.prop     = a[ 0 ];
        propOf     = m.prop;
        m.cls      = a[ 1 ];
        m.deadline = now() + atof( a[ 4 ] );
        Plan        p;
        std::string err;
        if ( !planFromText( slurp( a[ 2 ] ), p, err ) )
            return 3;
        size_t n = p.size();
        if ( !m.fails( p ) )
        {
            printf( "NOREPRO\n" );
            return 4;
        }
        m.shrink( p );
        std::ofstream( a[ 3 ], std::ios::binary ) << planToText( p );
        printf( "MIN %zu -> %zu operations, %d candidates\n", n, p.size(), m.tried );
        return 0;
    }
} // namespace

int main( int argc, char** argv )
{
    std::string c = argc > 1 ? argv[ 1 ] : "";
    // one layout of the address space for every execution
    int pers = personality( 0xffffffff );
    if ( pers != -1 && !( pers & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_EXEC" ) && personality( unsigned( pers ) | ADDR_NO_RANDOMIZE ) != -1 )
    {
        setenv( "SIM_EXEC", "1", 1 );
        execv( "/proc/self/exe", argv );
    }
    if ( const char* l = getenv( "SIM_LOCPATH" ) )
        setenv( "LOCPATH", l, 1 );
    if ( c == "run" && argc == 12 )
        return cmdRun( argv + 2 );
    if ( c == "plan" && argc == 6 )
    {
        Plan p = planAt( argv[ 2 ], strtoull( argv[ 3 ], nullptr, 10 ), strtoull( argv[ 4 ], nullptr, 10 ), atoi( argv[ 5 ] ), nullptr );
        std::cout << planToText( p );
        return 0;
    }
    if ( c == "replay" && argc >= 3 )
        return cmdReplay( argv[ 2 ], argc > 3 && std::string( argv[ 3 ] ) == "-v", getenv( "SIM_PROP" ) ? getenv( "SIM_PROP" ) : "" );
    if ( c == "minimise" && argc == 7 )
        return cmdMinimise( argv + 2 );
    fprintf( stderr, "usage: sim run|plan|replay|minimise ...\n" );
    return 2;
}
