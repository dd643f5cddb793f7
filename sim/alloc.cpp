// Replaced global operator new/delete: allocation faults and the ledger of library allocations.
#include "world.h"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>

namespace sim
{
    Ledger L;
    namespace
    {
        struct Ent
        {
            void*    p;
            size_t   n;
            uint32_t op, kind; // kind: 0 new, 1 new[]
            uint64_t seq;
        };
        // open addressing table, storage from malloc
        Ent*             tab  = nullptr;
        size_t           cap  = 0, used = 0; // used counts tombstones too
        void* const      TOMB = reinterpret_cast<void*>( 1 );
        std::atomic_flag lock = ATOMIC_FLAG_INIT;
        struct Guard
        {
            Guard() { while ( lock.test_and_set( std::memory_order_acquire ) ) {} }
            ~Guard() { lock.clear( std::memory_order_release ); }
        };
        size_t slot( void* p )
        {
            return size_t( ( reinterpret_cast<uintptr_t>( p ) >> 4 ) * 0x9e3779b97f4a7c15ull >> 20 ) & ( cap - 1 );
        }
        void grow()
        {
            size_t oc = cap;
            Ent*   ot = tab;
            size_t live = 0;
            for ( size_t i = 0; i < oc; i++ )
                live += ot[ i ].p && ot[ i ].p != TOMB;
            cap  = 1024;
            while ( cap < live * 4 )
                cap *= 2;
            tab  = static_cast<Ent*>( calloc( cap, sizeof( Ent ) ) );
            used = 0;
            for ( size_t i = 0; i < oc; i++ )
                if ( ot[ i ].p && ot[ i ].p != TOMB )
                {
                    size_t s = slot( ot[ i ].p );
                    while ( tab[ s ].p )
                        s = ( s + 1 ) & ( cap - 1 );
                    tab[ s ] = ot[ i ];
                    used++;
                }
            free( ot );
        }
        void add( void* p, size_t n, int kind )
        {
            Guard g;
            if ( cap == 0 || used * 2 >= cap )
                grow();
            size_t s = slot( p );
            while ( tab[ s ].p && tab[ s ].p != TOMB )
                s = ( s + 1 ) & ( cap - 1 );
            if ( !tab[ s ].p )
                used++;
            tab[ s ] = Ent { p, n, uint32_t( W.st.ops ), uint32_t( kind ), L.total };
            L.total++;
            L.live++;
            L.liveBytes += n;
            if ( L.liveBytes > L.peak )
                L.peak = L.liveBytes;
        }
        bool drop( void* p, int kind, int& was )
        {
            Guard g;
            if ( cap == 0 )
                return false;
            size_t s = slot( p );
            while ( tab[ s ].p )
            {
                if ( tab[ s ].p == p )
                {
                    was = int( tab[ s ].kind );
                    L.live--;
                    L.liveBytes -= tab[ s ].n;
                    tab[ s ].p = TOMB;
                    return true;
                }
                s = ( s + 1 ) & ( cap - 1 );
            }
            (void)kind;
            return false;
        }

        bool failing( size_t n )
        {
            int k = ++W.count[ S_ALLOC ];
            W.st.calls[ S_ALLOC ]++;
            if ( !W.armed )
                return false;
            for ( auto& f : W.faults )
            {
                if ( f.sys != S_ALLOC )
                    continue;
                bool hit = f.plus ? k >= f.n && ( f.span == 0 || k < f.n + f.span ) : k == f.n;
                if ( ( f.act == A_FAIL && hit ) || ( f.act == A_BIG && hit && n >= size_t( f.arg ) ) )
                {
                    f.fired++;
                    return true;
                }
            }
            return false;
        }

        void* get( size_t n, size_t align, int kind, bool nothrow )
        {
            if ( inLib )
            {
                if ( yieldHook )
                    yieldHook( 2, nullptr );
                bool f = failing( n );
                W.ev( f ? "alloc.fail" : "alloc", long( n ), kind );
                if ( f || n > ( size_t( 1 ) << 32 ) )
                {
                    if ( nothrow )
                        return nullptr;
                    throw std::bad_alloc();
                }
                void* p = align > 16 ? aligned_alloc( align, ( n + align - 1 ) / align * align ) : malloc( n ? n : 1 );
                memset( p, 0xCD, n );
                add( p, n, kind );
                return p;
            }
            void* p = align > 16 ? aligned_alloc( align, ( n + align - 1 ) / align * align ) : malloc( n ? n : 1 );
            if ( !p && !nothrow )
                throw std::bad_alloc();
            return p;
        }
        void put( void* p, int kind )
        {
            if ( !p )
                return;
            int was = kind;
            if ( L.live && drop( p, kind, was ) )
            {
                if ( inLib )
                    W.ev( "free", kind );
                if ( was != kind )
                    fatal( "mismatch", "block allocated with new" + std::string( was ? "[]" : "" ) + " released with delete" + ( kind ? "[]" : "" ) );
            }
#ifdef SIM_THREADS
            memset( p, 0xDD, malloc_usable_size( p ) ); // this build has no AddressSanitizer
#endif
            free( p );
        }
    } // namespace

    void ledgerForget()
    {
        Guard g;
        for ( size_t i = 0; i < cap; i++ )
            tab[ i ].p = nullptr;
        used        = 0;
        L.live      = 0;
        L.liveBytes = 0;
    }
    std::vector<std::pair<uintptr_t, uintptr_t>> ledgerBlocks()
    {
        std::vector<std::pair<uintptr_t, uintptr_t>> v;
        for ( size_t i = 0; i < cap; i++ )
            if ( tab[ i ].p && tab[ i ].p != TOMB )
                v.emplace_back( reinterpret_cast<uintptr_t>( tab[ i ].p ), reinterpret_cast<uintptr_t>( tab[ i ].p ) + tab[ i ].n );
        std::sort( v.begin(), v.end() );
        return v;
    }
    std::string ledgerDescribe( int max )
    {
        std::vector<Ent> v;
        for ( size_t i = 0; i < cap; i++ )
            if ( tab[ i ].p && tab[ i ].p != TOMB )
                v.push_back( tab[ i ] );
        for ( size_t i = 0; i < v.size(); i++ )
            for ( size_t j = i + 1; j < v.size() && i < size_t( max ); j++ )
                if ( v[ j ].seq < v[ i ].seq )
                    std::swap( v[ i ], v[ j ] );
        std::string r;
        for ( size_t i = 0; i < v.size() && i < size_t( max ); i++ )
            r += " " + std::to_string( v[ i ].n ) + "B@op" + std::to_string( v[ i ].op );
        return r;
    }
} // namespace sim

using namespace sim;
void* operator new( size_t n ) { return get( n, 0, 0, false ); }
void* operator new[]( size_t n ) { return get( n, 0, 1, false ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return get( n, 0, 0, true ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return get( n, 0, 1, true ); }
void* operator new( size_t n, std::align_val_t a ) { return get( n, size_t( a ), 0, false ); }
void* operator new[]( size_t n, std::align_val_t a ) { return get( n, size_t( a ), 1, false ); }
void  operator delete( void* p ) noexcept { put( p, 0 ); }
void  operator delete[]( void* p ) noexcept { put( p, 1 ); }
void  operator delete( void* p, size_t ) noexcept { put( p, 0 ); }
void  operator delete[]( void* p, size_t ) noexcept { put( p, 1 ); }
void  operator delete( void* p, std::align_val_t ) noexcept { put( p, 0 ); }
void  operator delete[]( void* p, std::align_val_t ) noexcept { put( p, 1 ); }
void  operator delete( void* p, size_t, std::align_val_t ) noexcept { put( p, 0 ); }
void  operator delete[]( void* p, size_t, std::align_val_t ) noexcept { put( p, 1 ); }
void  operator delete( void* p, const std::nothrow_t& ) noexcept { put( p, 0 ); }
void  operator delete[]( void* p, const std::nothrow_t& ) noexcept { put( p, 1 ); }
