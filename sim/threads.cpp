// Threads (C11): every thread of the program is a real thread, but only the one that holds the baton runs. The
// baton changes hands at the yield points the plan names: yield points are the instrumented memory accesses and
// basic blocks of the library, its allocations and its system calls. Each run happens in a fresh process (fork of
// a process that never ran the library), so first-use initialisation is part of what is interleaved. The oracle
// is the same thread program running alone in another fresh process.
#include "adapter.h"
#include "plan.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using ref::Node;

extern "C" char __data_start, _end;

namespace
{
    const int      MAXT = 4;
    const uint64_t FAIR = 400000; // a thread that ran this long without a switch hands over (busy waiting must not hang)

    struct Context // the part of the world that belongs to the operation a thread is executing
    {
        std::vector<Fault>                               faults;
        int                                              count[ S_COUNT ] = {};
        bool                                             armed            = false;
        long                                             quota            = -1;
        uint64_t                                         ioCap            = 0;
        std::vector<std::pair<std::string, std::string>> versions;
        size_t                                           ioBytes = 0;
        uint64_t                                         steps   = 0;
        void                                             swap()
        {
            faults.swap( W.faults );
            for ( int i = 0; i < S_COUNT; i++ )
                std::swap( count[ i ], W.count[ i ] );
            std::swap( armed, W.armed );
            std::swap( quota, W.quota );
            std::swap( ioCap, W.ioCap );
            versions.swap( W.versions );
            std::swap( ioBytes, W.ioBytes );
            std::swap( steps, sim::steps );
        }
    };
    struct Switch
    {
        uint64_t at;
        int      to;
    };
    struct Touch
    {
        bool             r = false, w = false;
        std::vector<int> at; // yield indices of some of the accesses
        int              seen = 0;
    };
    struct Thread
    {
        int                      id   = 0;
        bool                     used = false, done = false, started = false;
        sem_t                    sem;
        pthread_t                h {};
        uint64_t                 n = 0; // yield points passed
        size_t                   next = 0;
        std::vector<Switch>      sw;
        Context                  ctx;
        std::vector<const Op*>   prog;
        std::vector<int>         progIdx;
        std::vector<std::string> log;
        std::vector<Counts>      counts;
        lib::Doc*                doc[ 2 ] = {};
    };

    // state of the run in this process
    Thread                              th[ MAXT ];
    bool                                active = false, record = false;
    int                                 cur     = -1;
    uint64_t                            runLen  = 0, total = 0;
    uint64_t                            rrFrom = 0, rrLen = 0, rrQ = 0;
    int                                 blockedSpin = 0;
    sem_t                               mainSem;
    __thread Thread*                    self = nullptr;
    lib::Doc*                           sharedDoc = nullptr;
    Node                                sharedModel;
    bool                                sharedHas = false;
    std::vector<std::pair<uintptr_t, uintptr_t>> ranges;
    std::map<uintptr_t, Touch>          touched;

    void waitSem( sem_t* s )
    {
        while ( sem_wait( s ) && errno == EINTR )
        {
        }
    }
    int other( int me )
    {
        for ( int k = 1; k <= MAXT; k++ )
        {
            int t = ( me + k ) % MAXT;
            if ( t != me && th[ t ].used && !th[ t ].done )
                return t;
        }
        return -1;
    }
    void* body( void* );
    void  wake( int t )
    {
        cur    = t;
        runLen = 0;
        if ( !th[ t ].started )
        {
            th[ t ].started = true;
            if ( pthread_create( &th[ t ].h, nullptr, body, &th[ t ] ) )
                _exit( 79 );
        }
        else
            sem_post( &th[ t ].sem );
    }
    void switchTo( int u )
    {
        Host h;
        int  e = errno;
        Thread& t = *self;
        W.st.switches++;
        W.ev( "switch", t.id, u, long( t.n ) );
        t.ctx.swap();
        wake( u );
        waitSem( &t.sem );
        t.ctx.swap();
        errno = e;
    }
    void hook( int kind, const void* addr )
    {
        if ( !active || !self )
            return;
        Thread& t = *self;
        t.n++;
        total++;
        runLen++;
        if ( record && kind >= 3 )
        {
            auto a   = reinterpret_cast<uintptr_t>( addr );
            bool hit = a >= reinterpret_cast<uintptr_t>( &__data_start ) && a < reinterpret_cast<uintptr_t>( &_end );
            if ( !hit && !ranges.empty() && a >= ranges.front().first && a < ranges.back().second )
            {
                auto it = std::upper_bound( ranges.begin(), ranges.end(), std::make_pair( a, ~uintptr_t( 0 ) ) );
                hit     = it != ranges.begin() && a < ( it - 1 )->second;
            }
            if ( hit )
            {
                Host   h;
                Touch& x = touched[ a >> 3 ];
                ( kind == 3 ? x.r : x.w ) = true;
                x.seen++;
                if ( x.at.size() < 6 )
                    x.at.push_back( int( t.n ) );
                else
                    x.at[ size_t( 3 + x.seen % 3 ) ] = int( t.n );
            }
            return;
        }
        if ( record )
            return;
        while ( t.next < t.sw.size() && t.sw[ t.next ].at < t.n )
            t.next++;
        if ( t.next < t.sw.size() && t.sw[ t.next ].at == t.n )
        {
            int u = t.sw[ t.next++ ].to;
            if ( u >= 0 && u < MAXT && u != t.id && th[ u ].used && !th[ u ].done )
            {
                switchTo( u );
                return;
            }
        }
        if ( ( rrQ && total >= rrFrom && total < rrFrom + rrLen && runLen >= rrQ ) || runLen > FAIR )
        {
            int u = other( t.id );
            if ( u >= 0 )
                switchTo( u );
            runLen = 0;
        }
    }
    // the running thread cannot go on until another one has run
    void blocked()
    {
        Host h;
        int  u = other( self->id );
        if ( u < 0 || ++blockedSpin > 20000 )
            fatal( "hang", "deadlock: every thread waits for a lock" );
        switchTo( u );
    }

    // ------------------------------------------------------------ thread programs
    std::string textOf( const Node& n )
    {
        ref::Style st;
        Rng        r( 1 );
        return ref::render( n, st, r );
    }
    std::string dump( const lib::Doc* d, Node* keep = nullptr )
    {
        Node        n;
        std::string bad;
        if ( !lib::root( d, n, bad ) )
            return "none";
        std::string s = bad.empty() ? textOf( n ) : "inconsistent: " + bad;
        if ( keep )
            *keep = n;
        return s;
    }
    long num( const Op& o, size_t i ) { return i < o.a.size() ? atol( o.a[ i ].c_str() ) : 0; }
    std::string arg( const Op& o, size_t i ) { return i < o.a.size() ? o.a[ i ] : std::string(); }

    std::string perform( Thread& t, const Op& o )
    {
        const std::string verb   = arg( o, 2 );
        bool              shared = arg( o, 3 ) == "s";
        int               slot   = shared ? 0 : int( num( o, 3 ) & 1 );
        lib::Doc*&        own    = t.doc[ slot ];
        if ( shared && !sharedDoc )
            return "no shared document";
        if ( !shared && !own )
            own = lib::make();
        lib::Doc* d   = shared ? sharedDoc : own;
        auto      st  = []( lib::St s ) { return std::string( lib::stName[ s ] ); };
        auto      pr  = [ & ]( const lib::PR& p ) { return st( p.st ) + " " + std::to_string( p.line ) + ":" + std::to_string( p.col ); };
        if ( verb == "new" && !shared )
        {
            lib::destroy( own );
            own = lib::make();
            return "new";
        }
        if ( verb == "parse" && !shared )
        {
            lib::PR p = lib::parseBuf( d, arg( o, 4 ) + std::string( 1, '\0' ) );
            return pr( p ) + " " + dump( d );
        }
        if ( verb == "parsefile" && !shared )
        {
            lib::PR p = lib::parseFile( d, arg( o, 4 ).c_str() );
            return pr( p ) + " " + dump( d );
        }
        if ( verb == "write" )
        {
            lib::St     s = lib::write( d, arg( o, 4 ).c_str(), unsigned( num( o, 5 ) ), arg( o, 6 ) == "t" ? '\t' : ' ' );
            std::string b;
            bool        have = W.get( arg( o, 4 ), b );
            return st( s ) + " " + ( have ? b : "no file" );
        }
        if ( verb == "root" )
            return dump( d );
        if ( verb == "look" )
        {
            Node        n;
            std::string bad;
            if ( shared )
                n = sharedModel;
            else if ( !lib::root( d, n, bad ) )
                return "none";
            if ( shared && !sharedHas )
                return "none";
            return "lookups: " + lib::lookups( d, n, uint64_t( num( o, 4 ) ), 40 );
        }
        if ( verb == "ser" && !shared )
        {
            int ty = lib::typeByName( arg( o, 4 ) );
            if ( ty < 0 )
                return "no type";
            lib::St s = lib::ser( d, ty, ref::parse( arg( o, 5 ) ).v );
            return st( s ) + " " + dump( d );
        }
        if ( verb == "val" )
        {
            int ty = lib::typeByName( arg( o, 4 ) );
            return ty < 0 ? "no type" : st( lib::val( d, ty ) );
        }
        if ( verb == "des" )
        {
            int ty = lib::typeByName( arg( o, 4 ) );
            if ( ty < 0 )
                return "no type";
            Node    out;
            lib::St s = lib::des( d, ty, nullptr, out );
            return st( s ) + " " + ( s == lib::OK ? textOf( out ) : std::string() );
        }
        if ( verb == "add" && !shared )
        {
            int  ty = lib::typeByName( arg( o, 5 ) );
            Node n;
            std::string bad;
            if ( ty < 0 || !lib::root( d, n, bad ) || n.t != ref::Obj )
                return "not an object";
            lib::St s = lib::add( d, n, {}, arg( o, 4 ), ty, ref::parse( arg( o, 6 ) ).v );
            return st( s ) + " " + dump( d );
        }
        if ( verb == "desc" )
        {
            std::string s;
            for ( auto& x : lib::allDescriptions() )
                s += x.first + "=" + x.second + ";";
            return s;
        }
        if ( verb == "descpr" )
        {
            lib::PR p { lib::St( num( o, 4 ) % lib::ST_COUNT ), int( num( o, 5 ) ), int( num( o, 6 ) ) };
            return lib::describe( p );
        }
        return "?";
    }

    void* body( void* v )
    {
        Thread& t = *static_cast<Thread*>( v );
        self      = &t;
        if ( W.verbose )
            W.trace += "thread " + std::to_string( t.id ) + " starts\n";
        for ( const Op* o : t.prog )
        {
            W.beginOp( o->faults );
            W.ioCap       = 200000;
            std::string s = perform( t, *o );
            W.endOp();
            Counts c;
            for ( int i = 0; i < S_COUNT; i++ )
                c.n[ i ] = W.count[ i ];
            t.counts.push_back( c );
            t.log.push_back( s );
            W.ev( "done", t.id, long( t.log.size() ) );
            W.evs( "result", s );
            blockedSpin = 0;
        }
        for ( auto& d : t.doc )
            if ( d )
            {
                lib::destroy( d );
                d = nullptr;
            }
        t.done = true;
        self   = nullptr;
        sem_post( &mainSem ); // the main thread joins this one (thread-local destructors included) and passes the baton on
        return nullptr;
    }

    // ------------------------------------------------------------ one run in this (child) process
    struct Report
    {
        std::vector<std::string>              log[ MAXT + 1 ];
        std::vector<std::pair<int, Counts>>   counts; // op index
        uint64_t                              yields[ MAXT ] = {};
        std::vector<std::pair<uintptr_t, Touch>> touched;
        Stats                                 st;
        uint64_t                              hash = 0, live = 0, edges = 0;
        std::string                           trace;
        int                                   rc = 0; // exit status of the child
        std::string                           err;    // its error output
    };

    std::string pack( const Report& r )
    {
        std::string s;
        auto        u = [ & ]( uint64_t v ) { s.append( reinterpret_cast<const char*>( &v ), 8 ); };
        auto        x = [ & ]( const std::string& t ) { u( t.size() ); s += t; };
        for ( auto& l : r.log )
        {
            u( l.size() );
            for ( auto& t : l )
                x( t );
        }
        u( r.counts.size() );
        for ( auto& c : r.counts )
        {
            u( uint64_t( c.first ) );
            for ( int i = 0; i < S_COUNT; i++ )
                u( uint64_t( c.second.n[ i ] ) );
        }
        for ( auto y : r.yields )
            u( y );
        u( r.touched.size() );
        for ( auto& t : r.touched )
        {
            u( t.first );
            u( uint64_t( t.second.r ) | uint64_t( t.second.w ) << 1 );
            u( t.second.at.size() );
            for ( int a : t.second.at )
                u( uint64_t( a ) );
        }
        s.append( reinterpret_cast<const char*>( &r.st ), sizeof r.st );
        u( r.hash );
        u( r.live );
        u( r.edges );
        x( r.trace );
        return s;
    }
    bool unpack( const std::string& s, Report& r )
    {
        size_t p  = 0;
        bool   ok = true;
        auto   u  = [ & ]() -> uint64_t {
            uint64_t v = 0;
            if ( p + 8 > s.size() )
            {
                ok = false;
                return 0;
            }
            memcpy( &v, s.data() + p, 8 );
            p += 8;
            return v;
        };
        auto x = [ & ]() {
            uint64_t n = u();
            if ( p + n > s.size() )
            {
                ok = false;
                return std::string();
            }
            p += n;
            return s.substr( p - n, n );
        };
        for ( auto& l : r.log )
        {
            uint64_t n = u();
            for ( uint64_t i = 0; i < n && ok; i++ )
                l.push_back( x() );
        }
        uint64_t n = u();
        for ( uint64_t i = 0; i < n && ok; i++ )
        {
            int    k = int( u() );
            Counts c;
            for ( int j = 0; j < S_COUNT; j++ )
                c.n[ j ] = int( u() );
            r.counts.emplace_back( k, c );
        }
        for ( auto& y : r.yields )
            y = u();
        n = u();
        for ( uint64_t i = 0; i < n && ok; i++ )
        {
            uintptr_t a = u();
            Touch     t;
            uint64_t  f = u();
            t.r         = f & 1;
            t.w         = f & 2;
            uint64_t m  = u();
            for ( uint64_t j = 0; j < m && ok; j++ )
                t.at.push_back( int( u() ) );
            r.touched.emplace_back( a, t );
        }
        if ( p + sizeof r.st > s.size() )
            return false;
        memcpy( &r.st, s.data() + p, sizeof r.st );
        p += sizeof r.st;
        r.hash  = u();
        r.live  = u();
        r.edges = u();
        r.trace = x();
        return ok;
    }

    // alone: only thread `solo` runs (-1: all of them, interleaved as the plan says)
    Report execute( const Plan& p, int solo, bool verbose )
    {
        W.reset();
        W.verbose = verbose;
        ledgerForget();
        stepCap       = 80000000;
        edgesHit      = 0;
        int  nThreads = std::min( MAXT, std::max( 1, int( num( p[ 0 ], 1 ) ) ) );
        auto loc      = arg( p[ 0 ], 2 );
        setLocale( loc.empty() ? "C" : loc );
        sem_init( &mainSem, 0, 0 );
        for ( int i = 0; i < MAXT; i++ )
        {
            th[ i ].id   = i;
            th[ i ].used = i < nThreads && ( solo < 0 || solo == i );
            sem_init( &th[ i ].sem, 0, 0 );
        }
        for ( size_t k = 1; k < p.size(); k++ )
        {
            const Op& o = p[ k ];
            if ( o.a[ 0 ] == "file" )
                W.put( arg( o, 1 ), arg( o, 2 ) );
            else if ( o.a[ 0 ] == "shared" && !sharedDoc )
            {
                sharedDoc = lib::make();
                lib::parseBuf( sharedDoc, arg( o, 1 ) + std::string( 1, '\0' ) );
                std::string bad;
                sharedHas = lib::root( sharedDoc, sharedModel, bad );
            }
            else if ( o.a[ 0 ] == "t" && num( o, 1 ) >= 0 && num( o, 1 ) < MAXT )
            {
                th[ num( o, 1 ) ].prog.push_back( &o );
                th[ num( o, 1 ) ].progIdx.push_back( int( k ) );
            }
            else if ( o.a[ 0 ] == "sw" && num( o, 1 ) >= 0 && num( o, 1 ) < MAXT )
                th[ num( o, 1 ) ].sw.push_back( { uint64_t( num( o, 2 ) ), int( num( o, 3 ) ) } );
            else if ( o.a[ 0 ] == "rr" )
            {
                rrFrom = uint64_t( num( o, 1 ) );
                rrLen  = uint64_t( num( o, 2 ) );
                rrQ    = uint64_t( std::max( 1L, num( o, 3 ) ) );
            }
        }
        for ( auto& t : th )
            std::stable_sort( t.sw.begin(), t.sw.end(), []( const Switch& a, const Switch& b ) { return a.at < b.at; } );
        record = solo >= 0;
        if ( record && sharedDoc )
            ranges = ledgerBlocks();
        Report r;
        if ( sharedDoc )
            r.log[ MAXT ].push_back( dump( sharedDoc ) );
        yieldHook = hook;
        active    = true;
        for ( ;; )
        {
            int t = -1;
            for ( int i = MAXT - 1; i >= 0; i-- )
                if ( th[ i ].used && !th[ i ].done )
                    t = i;
            if ( t < 0 )
                break;
            // hand the baton to t: its context becomes current
            if ( th[ t ].started )
                wake( t ); // it swaps its context in itself
            else
                wake( t );
            waitSem( &mainSem );
            pthread_join( th[ cur ].h, nullptr );
        }
        active    = false;
        yieldHook = nullptr;
        if ( sharedDoc )
        {
            r.log[ MAXT ].push_back( dump( sharedDoc ) );
            lib::destroy( sharedDoc );
        }
        for ( int i = 0; i < MAXT; i++ )
        {
            r.log[ i ] = th[ i ].log;
            for ( size_t k = 0; k < th[ i ].counts.size(); k++ )
                r.counts.emplace_back( th[ i ].progIdx[ k ], th[ i ].counts[ k ] );
            r.yields[ i ] = th[ i ].n;
        }
        for ( auto& t : touched )
            r.touched.push_back( t );
        r.st    = W.st;
        r.hash  = W.hash;
        r.live  = L.live;
        r.edges = edgesHit;
        r.trace = W.trace;
        return r;
    }

    void onProf( int ) { fatal( "hang", "processor time limit" ); }
    void onAlrm( int ) { _exit( 79 ); }

    Report inChild( const Plan& p, int solo, bool verbose )
    {
        Report r;
        int    fd[ 2 ];
        int    err = memfd_create( "err", 0 );
        if ( err < 0 || pipe( fd ) )
        {
            r.rc = 79;
            return r;
        }
        fflush( nullptr );
        pid_t pid = fork();
        if ( pid < 0 )
        {
            r.rc = 79;
            return r;
        }
        if ( pid == 0 )
        {
            close( fd[ 0 ] );
            dup2( err, 2 );
            struct itimerval t = {};
            t.it_value.tv_sec  = 60;
            signal( SIGPROF, onProf );
            setitimer( ITIMER_PROF, &t, nullptr );
            signal( SIGALRM, onAlrm );
            alarm( 120 );
            Report      x = execute( p, solo, verbose );
            std::string s = pack( x );
            for ( size_t k = 0; k < s.size(); )
            {
                ssize_t n = ::write( fd[ 1 ], s.data() + k, s.size() - k );
                if ( n <= 0 )
                    break;
                k += size_t( n );
            }
            _exit( 0 );
        }
        close( fd[ 1 ] );
        std::string s;
        char        b[ 65536 ];
        for ( ;; )
        {
            ssize_t n = ::read( fd[ 0 ], b, sizeof b );
            if ( n < 0 && errno == EINTR )
                continue;
            if ( n <= 0 )
                break;
            s.append( b, size_t( n ) );
        }
        close( fd[ 0 ] );
        int st = 0;
        while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR )
        {
        }
        r.rc = WIFEXITED( st ) ? WEXITSTATUS( st ) : 78;
        if ( r.rc == 0 && !unpack( s, r ) )
            r.rc = 79;
        if ( r.rc )
        {
            lseek( err, 0, SEEK_SET );
            ssize_t n;
            while ( ( n = ::read( err, b, sizeof b ) ) > 0 && r.err.size() < 200000 )
                r.err.append( b, size_t( n ) );
        }
        close( err );
        return r;
    }

    std::string cut( const std::string& a, const std::string& b )
    {
        size_t i = 0;
        while ( i < a.size() && i < b.size() && a[ i ] == b[ i ] )
            i++;
        size_t from = i > 30 ? i - 30 : 0;
        return ( from ? "..." : "" ) + a.substr( from, 90 );
    }
} // namespace

namespace sim
{
    void warpTree( ref::Node& n, Rng& r ); // gen.cpp
    Outcome runThreads( const Plan& p, bool verbose, std::string* trace )
    {
        lib::typeCount(); // harness tables exist before any fork
        int nThreads = std::min( MAXT, std::max( 1, int( num( p[ 0 ], 1 ) ) ) );

        // each thread alone: depends on everything in the plan but the schedule
        static std::string         key;
        static std::vector<Report> alone;
        Plan                       q;
        for ( auto& o : p )
            if ( o.a[ 0 ] != "sw" && o.a[ 0 ] != "rr" )
                q.push_back( o );
        std::string k = planToText( q );
        if ( k != key || alone.empty() )
        {
            alone.clear();
            for ( int i = 0; i < nThreads; i++ )
                alone.push_back( inChild( q, i, false ) );
            key = k;
        }
        Report  r = inChild( p, -1, verbose );
        Outcome o;
        bool    soloBad = false;
        for ( auto& a : alone )
            soloBad |= a.rc != 0;
        if ( r.rc == 79 || soloBad )
        {
            // a thread that fails alone says nothing about interference
            o.counts.resize( p.size() );
            o.v.push_back( { "solo.failed", "a thread program does not complete on its own", -1 } );
            return o;
        }
        if ( r.rc )
        {
            long w = ::write( 2, r.err.data(), r.err.size() );
            (void)w;
            _exit( r.rc == 77 ? 77 : 78 );
        }
        o.hash = r.hash;
        o.st   = r.st;
        o.oks  = r.st.ops;
        edgesHit = std::max( edgesHit, r.edges );
        if ( trace )
            *trace = r.trace;
        bool soloLeak = false;
        for ( int i = 0; i < nThreads; i++ )
        {
            auto& a = alone[ size_t( i ) ];
            soloLeak |= a.live != 0;
            for ( size_t j = 0; j < std::max( a.log[ i ].size(), r.log[ i ].size() ); j++ )
            {
                std::string x = j < a.log[ i ].size() ? a.log[ i ][ j ] : "(nothing)", y = j < r.log[ i ].size() ? r.log[ i ][ j ] : "(nothing)";
                if ( x != y )
                {
                    o.v.push_back( { "thread.result", "thread " + std::to_string( i ) + " step " + std::to_string( j ) + ": alone " + quote( cut( x, y ) ) + ", interleaved " + quote( cut( y, x ) ), int( j ) } );
                    break;
                }
            }
        }
        for ( size_t j = 0; j < r.log[ MAXT ].size(); j++ )
            if ( j >= alone[ 0 ].log[ MAXT ].size() || alone[ 0 ].log[ MAXT ][ j ] != r.log[ MAXT ][ j ] )
                o.v.push_back( { "thread.shared", "the shared document differs " + std::string( j ? "after" : "before" ) + " the threads ran", -1 } );
        if ( r.live && !soloLeak )
            o.v.push_back( { "thread.leak", std::to_string( r.live ) + " blocks never freed, none when each thread runs alone", -1 } );

        // what the fault placement needs to know
        o.counts.resize( p.size() );
        std::map<uintptr_t, std::vector<std::pair<int, const Touch*>>> m;
        for ( int i = 0; i < nThreads; i++ )
        {
            auto& a              = alone[ size_t( i ) ];
            o.counts[ 0 ].n[ i ] = int( a.yields[ i ] );
            for ( auto& c : a.counts )
                if ( c.first > 0 && size_t( c.first ) < p.size() && q.size() == p.size() )
                    o.counts[ size_t( c.first ) ] = c.second;
            for ( auto& t : a.touched )
                m[ t.first ].emplace_back( i, &t.second );
        }
        int cands = 0;
        for ( auto& x : m )
        {
            bool w = false;
            for ( auto& y : x.second )
                w |= y.second->w;
            if ( !w || x.second.size() < 2 || cands > 400 )
                continue;
            for ( auto& y : x.second )
            {
                Counts c;
                c.n[ 0 ] = y.first;
                for ( int j = 0; j < 6 && j < int( y.second->at.size() ); j++ )
                    c.n[ 1 + j ] = y.second->at[ size_t( j ) ];
                o.counts.push_back( c );
                cands++;
            }
        }
        return o;
    }

    // ------------------------------------------------------------ generation
    namespace
    {
        std::string S( long n ) { return std::to_string( n ); }
        Op          mk( std::initializer_list<std::string> a )
        {
            Op o;
            o.a = a;
            return o;
        }
        std::string text( Rng& r, bool obj = false, bool rich = false )
        {
            if ( !rich && r.chance( 0.08 ) ) // deep, as the nesting limit allows one thread
            {
                size_t n = size_t( r.range( 150, 480 ) );
                bool   o = obj || r.chance( 0.4 );
                std::string s;
                for ( size_t i = 0; i < n; i++ )
                    s += o ? "{\"k\":" : "[";
                return s + "1" + std::string( n, o ? '}' : ']' );
            }
            ref::Gen g;
            g.maxNodes  = r.range( 1, 14 );
            g.maxDepth  = 4;
            g.container = obj || r.chance( 0.85 );
            g.longStr   = r.chance( 0.1 );
            Node n      = ref::generate( g, r );
            if ( obj && n.t != ref::Obj )
            {
                Node o;
                o.t = ref::Obj;
                o.m.emplace_back( "k", n );
                n = o;
            }
            if ( r.chance( 0.4 ) && n.t == ref::Arr )
                for ( int i = r.range( 1, 4 ); i > 0; i-- )
                {
                    Node x;
                    x.t = ref::Num;
                    x.n = ref::genNumber( r );
                    n.a.push_back( x );
                }
            if ( rich || r.chance( 0.6 ) ) // something of everything that is converted on the way in or out
            {
                std::string c;
                for ( int i = r.range( 1, 5 ); i > 0; i-- )
                    c += r.chance( 0.6 ) ? std::string( 1, char( r.range( 1, 31 ) ) ) : r.chance( 0.5 ) ? std::string( "\xf0\x9f\x98\x80" ) : std::string( 1, "\"\\/\x7f"[ r.below( 4 ) ] );
                Node x, y;
                x.t = ref::Str;
                x.s = c;
                y.t = ref::Num;
                y.n = ref::genNumber( r );
                if ( n.t == ref::Arr )
                {
                    n.a.push_back( x );
                    n.a.push_back( y );
                }
                else if ( n.t == ref::Obj )
                {
                    n.m.emplace_back( "c" + c, x );
                    n.m.emplace_back( "nn" + c, y );
                }
            }
            ref::Style st;
            st.ws       = int( r.below( 4 ) );
            st.escapes  = r.chance( 0.5 );
            st.numForms = r.chance( 0.4 );
            std::string s = ref::render( n, st, r );
            if ( !obj && r.chance( rich ? 0.05 : 0.12 ) && s.size() > 2 ) // a syntax error: positions are results too
            {
                if ( r.chance( 0.5 ) )
                    s.resize( 1 + r.below( s.size() - 1 ) );
                else
                    s[ r.below( s.size() ) ] = "]}x,:\"0\x01"[ r.below( 8 ) ];
            }
            return s;
        }
        // a document for that very type, right or wrong in one place
        std::string typedLike( Rng& r, const std::string& ty )
        {
            ref::Style st;
            for ( int k = 0;; k++ )
            {
                ref::Node v = lib::typeGen( lib::typeByName( ty ), r );
                if ( r.chance( 0.4 ) )
                    warpTree( v, r );
                std::string s = ref::render( v, st, r );
                if ( s.size() < 600 || k > 4 )
                    return s;
            }
        }
        std::string typed( Rng& r, std::string& ty, bool nest = false )
        {
            int t;
            do
                t = int( r.below( uint64_t( lib::typeCount() ) ) );
            while ( nest && !lib::typeNestable( t ) );
            ty = lib::typeName( t );
            ref::Style st;
            for ( int k = 0;; k++ )
            {
                std::string s = ref::render( lib::typeGen( t, r ), st, r );
                if ( s.size() < 600 || k > 4 )
                    return s;
            }
        }
    } // namespace

    Plan skeletonThreads( Rng& r )
    {
        Plan p;
        int  n = r.chance( 0.6 ) ? 2 : r.range( 2, MAXT );
        p.push_back( mk( { "threads", S( n ), r.chance( 0.12 ) ? "de_DE" : "C" } ) );
        if ( r.chance( 0.3 ) ) // a duel: every thread does the same thing for the first time
        {
            int         kind = int( r.below( 7 ) );
            std::string ty, d = typed( r, ty );
            if ( kind >= 5 )
                p.push_back( mk( { "shared", kind == 5 ? d : text( r, true, true ) } ) );
            for ( int t = 0; t < n; t++ )
            {
                std::string T = S( t ), out = "/t" + T + "o.json";
                switch ( kind )
                {
                    case 0: p.push_back( mk( { "t", T, "parse", "0", text( r, false, true ) } ) ); break;
                    case 1:
                        p.push_back( mk( { "t", T, "parse", "0", text( r, false, true ) } ) );
                        p.push_back( mk( { "t", T, "write", "0", out, S( r.range( 0, 4 ) ), r.chance( 0.5 ) ? "t" : "s" } ) );
                        break;
                    case 2:
                        p.push_back( mk( { "file", "/t" + T + "in.json", text( r, false, true ) } ) );
                        p.push_back( mk( { "t", T, "parsefile", "0", "/t" + T + "in.json" } ) );
                        break;
                    case 3:
                        p.push_back( mk( { "t", T, "ser", "0", ty, t == 0 || r.chance( 0.5 ) ? d : ref::render( lib::typeGen( lib::typeByName( ty ), r ), ref::Style(), r ) } ) );
                        p.push_back( mk( { "t", T, "write", "0", out, S( r.range( 0, 4 ) ), "s" } ) );
                        break;
                    case 4:
                        p.push_back( mk( { "t", T, "parse", "0", t == 0 || r.chance( 0.3 ) ? d : typedLike( r, ty ) } ) );
                        p.push_back( mk( { "t", T, r.chance( 0.5 ) ? "val" : "des", "0", ty } ) );
                        break;
                    case 5: p.push_back( mk( { "t", T, r.chance( 0.5 ) ? "val" : "des", "s", ty } ) ); break;
                    default: p.push_back( r.chance( 0.6 ) ? mk( { "t", T, "write", "s", out, S( r.range( 0, 4 ) ), "s" } ) : mk( { "t", T, "look", "s", S( long( r.below( 1000 ) ) ) } ) ); break;
                }
            }
            return p;
        }
        bool        shared = r.chance( 0.5 );
        std::string sty, stext;
        if ( shared )
        {
            if ( r.chance( 0.6 ) )
                stext = typed( r, sty );
            else
                stext = text( r, true );
            p.push_back( mk( { "shared", stext } ) );
        }
        bool sfile = r.chance( 0.4 );
        if ( sfile )
            p.push_back( mk( { "file", "/sin.json", text( r ) } ) );
        bool same = r.chance( 0.5 ); // all threads run the same kinds of steps
        Rng  shape( r.next() );
        for ( int t = 0; t < n; t++ )
        {
            Rng k( same ? shape.s : r.next() ); // decides kinds
            if ( r.chance( 0.5 ) )
                p.push_back( mk( { "file", "/t" + S( t ) + "in.json", text( r ) } ) );
            int steps = k.chance( 0.3 ) ? 1 : k.range( 2, 7 );
            std::string T = S( t ), last;
            for ( int i = 0; i < steps; i++ )
            {
                std::string slot = k.chance( 0.7 ) ? "0" : "1", ty, d;
                if ( shared && k.chance( 0.5 ) )
                {
                    switch ( k.below( 6 ) )
                    {
                        case 0: p.push_back( mk( { "t", T, "root", "s" } ) ); break;
                        case 1: p.push_back( mk( { "t", T, "look", "s", S( long( r.below( 1000 ) ) ) } ) ); break;
                        case 2: p.push_back( mk( { "t", T, "write", "s", "/t" + T + "sh.json", S( r.range( 0, 4 ) ), r.chance( 0.5 ) ? "t" : "s" } ) ); break;
                        case 3:
                            if ( sty.empty() || r.chance( 0.2 ) )
                                typed( r, ty );
                            else
                                ty = sty;
                            p.push_back( mk( { "t", T, "val", "s", ty } ) );
                            break;
                        default:
                            if ( sty.empty() || r.chance( 0.2 ) )
                                typed( r, ty );
                            else
                                ty = sty;
                            p.push_back( mk( { "t", T, "des", "s", ty } ) );
                    }
                    continue;
                }
                switch ( k.below( 13 ) )
                {
                    case 0:
                    case 1:
                    case 2: p.push_back( mk( { "t", T, "parse", slot, text( r ) } ) ); break;
                    case 3: p.push_back( mk( { "t", T, "parsefile", slot, sfile && r.chance( 0.5 ) ? "/sin.json" : r.chance( 0.9 ) ? "/t" + T + "in.json" : "/t" + T + "missing" } ) ); break;
                    case 4:
                    case 11:
                        p.push_back( mk( { "t", T, "parse", slot, text( r ) } ) );
                        p.push_back( mk( { "t", T, "write", slot, "/t" + T + "o.json", S( r.range( 0, 4 ) ), r.chance( 0.5 ) ? "t" : "s" } ) );
                        break;
                    case 5:
                    case 6:
                        d = typed( r, ty );
                        p.push_back( mk( { "t", T, "ser", slot, ty, d } ) );
                        if ( k.chance( 0.5 ) )
                            p.push_back( mk( { "t", T, "write", slot, "/t" + T + "o.json", S( r.range( 0, 4 ) ), "s" } ) );
                        if ( k.chance( 0.5 ) )
                            p.push_back( mk( { "t", T, "des", slot, ty } ) );
                        break;
                    case 7:
                        d = typed( r, ty );
                        p.push_back( mk( { "t", T, "parse", slot, r.chance( 0.3 ) ? typedLike( r, ty ) : d } ) );
                        p.push_back( mk( { "t", T, k.chance( 0.5 ) ? "val" : "des", slot, ty } ) );
                        break;
                    case 8:
                        p.push_back( mk( { "t", T, "parse", slot, text( r, true ) } ) );
                        d = typed( r, ty, true );
                        p.push_back( mk( { "t", T, "add", slot, r.chance( 0.5 ) ? "k" : "added", ty, d } ) );
                        break;
                    case 9: p.push_back( mk( { "t", T, "look", slot, S( long( r.below( 1000 ) ) ) } ) ); break;
                    case 10: p.push_back( mk( { "t", T, k.chance( 0.7 ) ? "descpr" : "desc", slot, S( long( r.below( lib::ST_COUNT ) ) ), S( long( r.below( 3000 ) ) ), S( long( r.below( 3000 ) ) ) } ) ); break;
                    default: p.push_back( mk( { "t", T, k.chance( 0.5 ) ? "new" : "root", slot } ) );
                }
            }
        }
        return p;
    }

    void faultsThreads( Plan& p, const std::vector<Counts>& c, Rng& r )
    {
        size_t             base = p.size();
        std::vector<int>   ids;
        std::vector<long>  len( MAXT, 0 );
        int                n = std::min( MAXT, std::max( 1, int( num( p[ 0 ], 1 ) ) ) );
        if ( c.empty() )
            return;
        for ( int i = 0; i < n; i++ )
            len[ size_t( i ) ] = c[ 0 ].n[ i ];
        std::vector<std::pair<int, int>> cand, first;
        for ( size_t i = base; i < c.size(); i++ )
            if ( c[ i ].n[ 1 ] )
                first.emplace_back( c[ i ].n[ 0 ], c[ i ].n[ 1 ] );
        for ( size_t i = base; i < c.size(); i++ )
            for ( int j = 1; j < 7; j++ )
                if ( c[ i ].n[ j ] )
                    cand.emplace_back( c[ i ].n[ 0 ], c[ i ].n[ j ] );
        auto sw = [ & ]( int t, long at ) {
            int u = int( r.below( uint64_t( n ) ) );
            if ( u == t )
                u = ( u + 1 ) % n;
            p.push_back( mk( { "sw", S( t ), S( std::max( 1L, at ) ), S( u ) } ) );
        };
        auto anywhere = [ & ]( int k ) {
            for ( int i = 0; i < k; i++ )
            {
                int t = int( r.below( uint64_t( n ) ) );
                if ( len[ size_t( t ) ] > 0 )
                    sw( t, 1 + long( r.below( uint64_t( len[ size_t( t ) ] ) ) ) );
            }
        };
        switch ( r.below( cand.empty() ? 3 : 6 ) )
        {
            case 0: anywhere( r.range( 1, 8 ) ); break;
            case 1: anywhere( r.range( 8, 60 ) ); break;
            case 2:
            {
                long tot = 0;
                for ( long x : len )
                    tot += x;
                long q    = r.chance( 0.5 ) ? r.range( 1, 30 ) : r.range( 20, 2000 );
                long span = std::min( tot, q * r.range( 20, 2500 ) );
                p.push_back( mk( { "rr", S( long( r.below( uint64_t( tot ) + 1 ) ) ), S( span ), S( q ) } ) );
                anywhere( r.range( 0, 3 ) );
                break;
            }
            default: // at accesses to memory that another thread also touches and somebody writes
                for ( int i = r.chance( 0.4 ) ? 1 : r.range( 1, 12 ); i > 0; i-- )
                {
                    auto& x = r.chance( 0.4 ) ? first[ r.below( first.size() ) ] : cand[ r.below( cand.size() ) ];
                    sw( x.first, x.second + ( r.chance( 0.6 ) ? r.range( 0, 2 ) : r.range( 0, 60 ) ) );
                }
                if ( r.chance( 0.5 ) )
                    anywhere( r.range( 1, 4 ) );
        }
        if ( r.chance( 0.25 ) ) // an operation of one thread fails meanwhile
            for ( size_t i = 1; i < base; i++ )
                if ( p[ i ].a[ 0 ] == "t" && c[ i ].n[ S_ALLOC ] > 0 && r.chance( 0.3 ) )
                {
                    Fault f;
                    f.sys = S_ALLOC;
                    f.act = A_FAIL;
                    f.n   = 1 + int( r.below( uint64_t( c[ i ].n[ S_ALLOC ] ) ) );
                    p[ i ].faults.push_back( f );
                }
        if ( r.chance( 0.2 ) )
            for ( size_t i = 1; i < base; i++ )
                if ( p[ i ].a[ 0 ] == "t" && c[ i ].n[ S_IO ] > 0 && r.chance( 0.5 ) )
                {
                    Fault f;
                    f.sys = c[ i ].n[ S_READ ] ? S_READ : S_WRITE;
                    f.n   = 1;
                    if ( r.chance( 0.5 ) )
                    {
                        f.act  = A_SHORT;
                        f.plus = true;
                        f.arg  = r.range( 1, 20 );
                    }
                    else
                    {
                        f.act = A_ERR;
                        f.arg = r.chance( 0.5 ) ? EINTR : f.sys == S_READ ? EIO : ENOSPC;
                    }
                    p[ i ].faults.push_back( f );
                }
    }
} // namespace sim

#ifdef SIM_THREADS
// ---------------------------------------------------------------- blocking primitives the library might use
namespace
{
    template <class F>
    F* real( const char* n )
    {
        return reinterpret_cast<F*>( dlsym( RTLD_NEXT, n ) );
    }
    bool ours() { return active && self && inLib; }
} // namespace
extern "C"
{
    int pthread_mutex_lock( pthread_mutex_t* m )
    {
        if ( ours() )
        {
            int e;
            while ( ( e = pthread_mutex_trylock( m ) ) == EBUSY )
                blocked();
            return e;
        }
        static auto* f = real<int( pthread_mutex_t* )>( "pthread_mutex_lock" );
        return f( m );
    }
    int pthread_rwlock_rdlock( pthread_rwlock_t* m )
    {
        if ( ours() )
        {
            int e;
            while ( ( e = pthread_rwlock_tryrdlock( m ) ) == EBUSY )
                blocked();
            return e;
        }
        static auto* f = real<int( pthread_rwlock_t* )>( "pthread_rwlock_rdlock" );
        return f( m );
    }
    int pthread_rwlock_wrlock( pthread_rwlock_t* m )
    {
        if ( ours() )
        {
            int e;
            while ( ( e = pthread_rwlock_trywrlock( m ) ) == EBUSY )
                blocked();
            return e;
        }
        static auto* f = real<int( pthread_rwlock_t* )>( "pthread_rwlock_wrlock" );
        return f( m );
    }
    int pthread_once( pthread_once_t* c, void ( *fn )( void ) )
    {
        if ( ours() )
        {
            while ( *c == 1 )
                blocked();
            if ( *c & 2 )
                return 0;
            *c = 1;
            try
            {
                fn();
            }
            catch ( ... )
            {
                *c = 0;
                throw;
            }
            *c = 2;
            return 0;
        }
        static auto* f = real<int( pthread_once_t*, void ( * )( void ) )>( "pthread_once" );
        return f( c, fn );
    }
    int __cxa_guard_acquire( uint64_t* g )
    {
        auto* b = reinterpret_cast<volatile unsigned char*>( g );
        if ( b[ 0 ] )
            return 0;
        while ( b[ 1 ] )
        {
            if ( ours() )
                blocked();
            else
                _exit( 79 );
            if ( b[ 0 ] )
                return 0;
        }
        b[ 1 ] = 1;
        return 1;
    }
    void __cxa_guard_release( uint64_t* g )
    {
        auto* b = reinterpret_cast<volatile unsigned char*>( g );
        b[ 1 ]  = 0;
        b[ 0 ]  = 1;
    }
    void __cxa_guard_abort( uint64_t* g )
    {
        auto* b = reinterpret_cast<volatile unsigned char*>( g );
        b[ 1 ]  = 0;
    }
}
#endif
