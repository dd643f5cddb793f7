#include "world.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
    World            W;
    __thread int inLib = 0;
    uint64_t         steps = 0, stepCap = 0, edgesHit = 0;
    void ( *yieldHook )( int, const void* ) = nullptr;

    const char* const sysName[ S_COUNT ] = { "open", "stat", "read", "write", "close", "misc", "io", "alloc" };
    const char* const actName[ A_COUNT ] = { "err", "short", "zero", "eof", "fail", "big", "quota", "lose", "crash", "trunc", "append", "replace", "limit" };

    uint64_t mix( uint64_t a, uint64_t b )
    {
        Rng r( a * 0x9e3779b97f4a7c15ull + b );
        r.next();
        return r.next() ^ b * 0xff51afd7ed558ccdull;
    }

    static const struct
    {
        const char* n;
        int         v;
    } errTab[] = { { "ENOENT", ENOENT }, { "EACCES", EACCES }, { "EMFILE", EMFILE }, { "ENFILE", ENFILE }, { "EINTR", EINTR }, { "EIO", EIO }, { "ENOSPC", ENOSPC },
                   { "EDQUOT", EDQUOT }, { "EFBIG", EFBIG },   { "EROFS", EROFS },   { "ENOMEM", ENOMEM }, { "EISDIR", EISDIR }, { "ELOOP", ELOOP }, { "EPERM", EPERM },
                   { "EAGAIN", EAGAIN }, { "ESTALE", ESTALE }, { "EOVERFLOW", EOVERFLOW } };

    const char* errnoName( int e )
    {
        for ( auto& t : errTab )
            if ( t.v == e )
                return t.n;
        return "EIO";
    }
    int errnoFromName( const std::string& s )
    {
        for ( auto& t : errTab )
            if ( s == t.n )
                return t.v;
        return EIO;
    }

    std::string quote( const std::string& s )
    {
        std::string r = "\"";
        char        b[ 8 ];
        for ( unsigned char c : s )
        {
            if ( c == '"' || c == '\\' )
            {
                r += '\\';
                r += char( c );
            }
            else if ( c < 32 || c >= 127 || c == '|' )
            {
                snprintf( b, sizeof b, "\\x%02x", c );
                r += b;
            }
            else
                r += char( c );
        }
        return r + '"';
    }
    bool unquote( const std::string& s, size_t& p, std::string& out )
    {
        out.clear();
        if ( p >= s.size() || s[ p ] != '"' )
            return false;
        for ( p++; p < s.size(); p++ )
        {
            if ( s[ p ] == '"' )
            {
                p++;
                return true;
            }
            if ( s[ p ] == '\\' )
            {
                p++;
                if ( p < s.size() && s[ p ] == 'x' )
                {
                    out += char( strtol( s.substr( p + 1, 2 ).c_str(), nullptr, 16 ) );
                    p += 2;
                }
                else if ( p < s.size() )
                    out += s[ p ];
            }
            else
                out += s[ p ];
        }
        return false;
    }

    std::string faultToText( const Fault& f )
    {
        std::string r = sysName[ f.sys ];
        r += "#" + std::to_string( f.n );
        if ( f.plus )
        {
            r += "+";
            if ( f.span )
                r += std::to_string( f.span );
        }
        r += ":";
        r += actName[ f.act ];
        if ( f.act == A_ERR )
            r += std::string( ":" ) + errnoName( int( f.arg ) );
        else if ( f.act == A_TRUNC )
            r += ":" + f.path + ":" + std::to_string( f.arg );
        else if ( f.act == A_APPEND || f.act == A_REPLACE )
            r += ":" + f.path + ":" + quote( f.data );
        else
            r += ":" + std::to_string( f.arg );
        return r;
    }
    bool faultFromText( const std::string& s, Fault& f )
    {
        f        = Fault();
        size_t h = s.find( '#' );
        if ( h == std::string::npos )
            return false;
        bool ok = false;
        for ( int i = 0; i < S_COUNT; i++ )
            if ( s.substr( 0, h ) == sysName[ i ] )
            {
                f.sys = Sys( i );
                ok    = true;
            }
        size_t c = s.find( ':', h );
        if ( !ok || c == std::string::npos )
            return false;
        std::string idx = s.substr( h + 1, c - h - 1 );
        size_t      pl  = idx.find( '+' );
        f.n             = atoi( idx.c_str() );
        if ( pl != std::string::npos )
        {
            f.plus = true;
            f.span = atoi( idx.c_str() + pl + 1 );
        }
        size_t      c2  = s.find( ':', c + 1 );
        std::string act = s.substr( c + 1, c2 == std::string::npos ? c2 : c2 - c - 1 );
        ok              = false;
        for ( int i = 0; i < A_COUNT; i++ )
            if ( act == actName[ i ] )
            {
                f.act = Act( i );
                ok    = true;
            }
        if ( !ok )
            return false;
        std::string rest = c2 == std::string::npos ? "" : s.substr( c2 + 1 );
        if ( f.act == A_ERR )
            f.arg = errnoFromName( rest );
        else if ( f.act == A_TRUNC || f.act == A_APPEND || f.act == A_REPLACE )
        {
            size_t c3 = rest.find( ':' );
            if ( c3 == std::string::npos )
                return false;
            f.path = rest.substr( 0, c3 );
            rest   = rest.substr( c3 + 1 );
            if ( f.act == A_TRUNC )
                f.arg = atol( rest.c_str() );
            else
            {
                size_t p = 0;
                unquote( rest, p, f.data );
            }
        }
        else
            f.arg = atol( rest.c_str() );
        return true;
    }
    std::vector<Fault> faultsFromText( const std::string& s )
    {
        std::vector<Fault> r;
        size_t             p = 0;
        while ( p < s.size() )
        {
            if ( s[ p ] == ' ' )
            {
                p++;
                continue;
            }
            size_t q   = p;
            bool   inq = false;
            while ( q < s.size() && ( inq || s[ q ] != ' ' ) )
            {
                if ( s[ q ] == '\\' && inq )
                    q++;
                else if ( s[ q ] == '"' )
                    inq = !inq;
                q++;
            }
            Fault f;
            if ( faultFromText( s.substr( p, q - p ), f ) )
                r.push_back( f );
            p = q;
        }
        return r;
    }

    void World::reset()
    {
        files.clear();
        fds.clear();
        fdBase = 3;
        faults.clear();
        memset( count, 0, sizeof count );
        zombie = armed = false;
        quota          = -1;
        ioCap          = 0;
        versions.clear();
        misuse.clear();
        hash = 0xcbf29ce484222325ull;
        trace.clear();
        st = Stats();
    }
    void World::beginOp( const std::vector<Fault>& f )
    {
        faults = f;
        memset( count, 0, sizeof count );
        quota   = -1;
        armed   = true;
        ioBytes = 0;
        versions.clear();
        for ( auto& x : faults )
        {
            x.fired = 0;
            if ( x.act == A_QUOTA )
                quota = x.arg;
        }
        steps = 0;
        st.ops++;
    }
    void World::endOp()
    {
        armed = false;
        quota = -1;
        for ( auto& x : faults )
            if ( x.fired )
                st.fired[ x.sys ][ x.act ] += uint64_t( x.fired );
        st.steps += steps;
    }
    int World::firedCount() const
    {
        int n = 0;
        for ( auto& x : faults )
            n += x.fired;
        return n;
    }
    bool World::fired( Act a ) const
    {
        for ( auto& x : faults )
            if ( x.fired && x.act == a )
                return true;
        return false;
    }
    void World::ev( const char* what, long a, long b, long c )
    {
        auto h = [ & ]( uint64_t v ) { hash = ( hash ^ v ) * 0x100000001b3ull; hash ^= hash >> 29; };
        for ( const char* p = what; *p; p++ )
            h( uint8_t( *p ) );
        h( uint64_t( a ) );
        h( uint64_t( b ) );
        h( uint64_t( c ) );
        if ( verbose )
        {
            Host hst;
            char buf[ 160 ];
            snprintf( buf, sizeof buf, "  %s %ld %ld %ld\n", what, a, b, c );
            trace += buf;
        }
    }
    void World::evs( const char* what, const std::string& s )
    {
        uint64_t x = 0xcbf29ce484222325ull;
        for ( unsigned char c : s )
            x = ( x ^ c ) * 0x100000001b3ull;
        ev( what, long( x ), long( s.size() ) );
        if ( verbose )
        {
            Host hst;
            trace += "    = " + quote( s.substr( 0, 300 ) ) + "\n";
        }
    }
    void World::put( const std::string& path, const std::string& bytes )
    {
        auto& i = files[ path ];
        if ( !i || i->dir )
            i = std::make_shared<Inode>();
        i->bytes = bytes;
    }
    bool World::get( const std::string& path, std::string& bytes ) const
    {
        auto it = files.find( path );
        if ( it == files.end() || it->second->dir )
            return false;
        bytes = it->second->bytes;
        return true;
    }
    int World::openCount() const
    {
        int n = 0;
        for ( auto& f : fds )
            n += f != nullptr;
        return n;
    }

    void fatal( const char* cls, const std::string& detail )
    {
        inLib          = 0;
        std::string m  = std::string( "FATAL " ) + cls + " " + detail + "\n";
        long        rc = syscall( SYS_write, 2, m.data(), m.size() );
        (void)rc;
        _exit( 77 );
    }
} // namespace sim
