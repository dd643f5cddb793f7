// Computation budget: every basic block of the instrumented library counts as one step.
#include "world.h"
#include <string>
namespace sim
{
}
extern "C" void __sanitizer_cov_trace_pc_guard_init( uint32_t* a, uint32_t* b )
{
    static uint32_t n = 0;
    for ( ; a < b; a++ )
        if ( !*a )
            *a = ++n;
}
extern "C" void __sanitizer_cov_trace_pc_guard( uint32_t* g )
{
    using namespace sim;
#ifdef SIM_THREADS
    if ( yieldHook )
        yieldHook( 0, nullptr );
#endif
    if ( !inLib )
        return;
    if ( *g && !( *g & 0x80000000u ) )
    {
        *g |= 0x80000000u;
        edgesHit++;
    }
    if ( ++steps > stepCap && stepCap )
        fatal( "hang", "computation budget of " + std::to_string( stepCap ) + " steps exceeded" );
}

#ifdef SIM_THREADS
// every memory access of the instrumented code, but those to the thread's own stack, is a point where the scheduler may switch threads
namespace
{
    inline void access( int kind, const void* a )
    {
        if ( sim::yieldHook && reinterpret_cast<uintptr_t>( a ) - reinterpret_cast<uintptr_t>( __builtin_frame_address( 0 ) ) > ( 1u << 18 ) )
            sim::yieldHook( kind, a );
    }
} // namespace
extern "C" void __sanitizer_cov_load1( uint8_t* a )
{
    access( 3, a );
}
extern "C" void __sanitizer_cov_load2( uint16_t* a )
{
    access( 3, a );
}
extern "C" void __sanitizer_cov_load4( uint32_t* a )
{
    access( 3, a );
}
extern "C" void __sanitizer_cov_load8( uint64_t* a )
{
    access( 3, a );
}
extern "C" void __sanitizer_cov_load16( __uint128_t* a )
{
    access( 3, a );
}
extern "C" void __sanitizer_cov_store1( uint8_t* a )
{
    access( 4, a );
}
extern "C" void __sanitizer_cov_store2( uint16_t* a )
{
    access( 4, a );
}
extern "C" void __sanitizer_cov_store4( uint32_t* a )
{
    access( 4, a );
}
extern "C" void __sanitizer_cov_store8( uint64_t* a )
{
    access( 4, a );
}
extern "C" void __sanitizer_cov_store16( __uint128_t* a )
{
    access( 4, a );
}
#endif
