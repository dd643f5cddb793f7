// Simulated world: PRNG, fault engine, file system, allocation ledger, event log.
#pragma once
#include <cstdint>
#include <cstddef>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim
{
    // ---------------------------------------------------------------- PRNG
    struct Rng
    {
        uint64_t s;
        explicit Rng( uint64_t seed = 0 ) : s( seed ) {}
        uint64_t next()
        {
            uint64_t z = ( s += 0x9e3779b97f4a7c15ull );
            z          = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
            z          = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
            return z ^ ( z >> 31 );
        }
        uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
        int      range( int lo, int hi ) { return lo + int( below( uint64_t( hi - lo + 1 ) ) ); }
        bool     chance( double p ) { return double( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ) < p; }
        template <class T>
        const T& pick( const std::vector<T>& v )
        {
            return v[ below( v.size() ) ];
        }
    };
    uint64_t mix( uint64_t a, uint64_t b );

    // ---------------------------------------------------------------- faults
    enum Sys
    {
        S_OPEN,
        S_STAT,
        S_READ,
        S_WRITE,
        S_CLOSE,
        S_MISC, // lseek, ftruncate, rename, unlink, fsync ...
        S_IO,   // any of the above, counted together
        S_ALLOC,
        S_COUNT
    };
    extern const char* const sysName[ S_COUNT ];

    enum Act
    {
        A_ERR,     // fail with errno arg
        A_SHORT,   // transfer at most arg bytes (arg >= 1)
        A_ZERO,    // transfer nothing, return 0 (read: end of file)
        A_EOF,     // read: return 0 from now on for this descriptor
        A_FAIL,    // allocation failure
        A_BIG,     // allocation failure for sizes >= arg
        A_QUOTA,   // disk space left for this operation: arg bytes
        A_LOSE,    // close: report EIO and drop the last arg bytes written through this descriptor
        A_CRASH,   // process dies here; write: arg bytes still reach the file
        A_TRUNC,   // somebody truncates `path` to arg bytes
        A_APPEND,  // somebody appends `data` to `path`
        A_REPLACE, // somebody renames a new file with `data` over `path`
        A_LIMIT,   // every transfer limited: pseudo-random sizes 1..arg derived from the call number
        A_COUNT
    };
    extern const char* const actName[ A_COUNT ];

    struct Fault
    {
        Sys         sys  = S_IO;
        int         n    = 1;     // 1-based index of the call within the operation
        bool        plus = false; // from the n-th on
        int         span = 0;     // with plus: only for `span` calls (0 = without end)
        Act         act  = A_ERR;
        long        arg  = 0;
        std::string path, data;
        // run time
        int fired = 0;
    };
    std::string          faultToText( const Fault& );
    bool                 faultFromText( const std::string&, Fault& );
    std::vector<Fault>   faultsFromText( const std::string& );
    std::string          quote( const std::string& );                             // "..." with \xNN
    bool                 unquote( const std::string& s, size_t& pos, std::string& out );
    const char*          errnoName( int );
    int                  errnoFromName( const std::string& );

    // ---------------------------------------------------------------- file system
    struct Inode
    {
        std::string bytes;
        bool        dir = false;
        uint64_t    tail = 0; // that many blanks follow (huge files without the memory)
    };
    using InodeP = std::shared_ptr<Inode>;

    struct OpenFile
    {
        InodeP      inode;
        std::string path;
        size_t      pos   = 0;
        bool        rd = false, wr = false, app = false;
        bool        eof   = false;
        size_t      wrote = 0;
    };

    struct Stats
    {
        uint64_t ops = 0, calls[ S_COUNT ] = {}, fired[ S_COUNT ][ A_COUNT ] = {}, damage = 0, crashes = 0, restarts = 0, locales = 0, switches = 0, steps = 0;
    };

    struct World
    {
        // file system
        std::map<std::string, InodeP>            files; // path -> inode
        std::vector<std::unique_ptr<OpenFile>>   fds;   // simulated descriptor table
        int                                      fdBase = 3;

        // current operation
        std::vector<Fault>                       faults;
        int                                      count[ S_COUNT ] = {};
        bool                                     zombie  = false; // the process "died": nothing reaches the file system any more
        bool                                     armed   = false; // faults active
        long                                     quota   = -1;
        uint64_t                                 ioCap   = 0;
        std::vector<std::pair<std::string, std::string>> versions; // (path, content) produced by environment events during the op
        std::vector<std::string>                 misuse;           // descriptor misuse messages
        size_t                                   ioBytes = 0;      // bytes moved in this op

        // log
        uint64_t                                 hash    = 0;
        bool                                     verbose = false;
        std::string                              trace;
        Stats                                    st;

        void reset();
        void beginOp( const std::vector<Fault>& f );
        void endOp();
        int  firedCount() const;
        bool fired( Act a ) const;
        void ev( const char* what, long a = 0, long b = 0, long c = 0 );
        void evs( const char* what, const std::string& s );

        // harness side file access (not through the fault engine)
        void        put( const std::string& path, const std::string& bytes );
        bool        get( const std::string& path, std::string& bytes ) const;
        bool        exists( const std::string& path ) const { return files.count( path ) != 0; }
        int         openCount() const;
    };
    extern World W;

    // The library runs inside this scope; only then are system calls and allocations simulated.
    extern __thread int inLib;
    struct Lib
    {
        Lib() { ++inLib; }
        ~Lib() { --inLib; }
        Lib( const Lib& ) = delete;
    };
    // Suspends the simulation (harness code called from inside).
    struct Host
    {
        int saved;
        Host() : saved( inLib ) { inLib = 0; }
        ~Host() { inLib = saved; }
    };

    // ---------------------------------------------------------------- allocation ledger
    struct Ledger
    {
        uint64_t live = 0, liveBytes = 0, total = 0, peak = 0;
    };
    extern Ledger    L;
    void             ledgerForget();             // forget all live library allocations (after a confirmed crash of the process)
    std::vector<std::pair<uintptr_t, uintptr_t>> ledgerBlocks(); // address ranges of live library blocks, sorted
    std::string      ledgerDescribe( int max );  // sizes and order numbers of live library blocks
    [[noreturn]] void fatal( const char* cls, const std::string& detail );

    // ---------------------------------------------------------------- computation budget (basic blocks of the instrumented library)
    extern uint64_t steps;    // basic blocks executed by the library in the current operation
    extern uint64_t stepCap;  // 0 = none
    extern uint64_t edgesHit; // distinct instrumented blocks reached in this process

    // called before a simulated call: cooperative thread scheduler (threads.cpp)
    extern void ( *yieldHook )( int kind, const void* addr );
} // namespace sim
