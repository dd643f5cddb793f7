// Histories over the container types (C16): Array, String and Map against ordinary sequences, strings and sorted maps.
#include "plan.h"
#include "C4Json.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>

using Terathon::Array;
using Terathon::String;
namespace Json = C4::Json;

namespace sim
{
    namespace
    {
        std::vector<std::string>* sink = nullptr; // misuse of elements

        // An element that knows where it lives: relocation without construction, double destruction and lost elements show.
        struct Elem
        {
            static long live;
            Elem*       self;
            uint32_t    magic;
            String<>    s;
            Elem() : self( this ), magic( 0xE1E2E3E4u ) { live++; }
            explicit Elem( const char* t ) : self( this ), magic( 0xE1E2E3E4u ), s( t ) { live++; }
            Elem( const Elem& o ) : self( this ), magic( 0xE1E2E3E4u ), s( ( o.check(), o.s ) ) { live++; }
            Elem( Elem&& o ) noexcept : self( this ), magic( 0xE1E2E3E4u ), s( ( o.check(), static_cast<String<>&&>( o.s ) ) ) { live++; }
            Elem& operator=( const Elem& o )
            {
                check();
                o.check();
                s = o.s;
                return *this;
            }
            ~Elem()
            {
                check();
                magic = 0xDEADDEADu;
                live--;
            }
            void check() const
            {
                if ( ( self != this || magic != 0xE1E2E3E4u ) && sink && sink->size() < 4 )
                {
                    Host h;
                    sink->push_back( magic == 0xE1E2E3E4u ? "element moved without being constructed" : "use of a destroyed or never constructed element" );
                }
            }
            bool operator==( const Elem& o ) const { return s == o.s; }
            bool operator!=( const Elem& o ) const { return s != o.s; }
        };
        long Elem::live = 0;

        template <class T>
        struct As;
        template <>
        struct As<Elem>
        {
            static Elem        make( const std::string& t ) { return Elem( t.c_str() ); }
            static std::string text( const Elem& e )
            {
                e.check();
                std::string r = static_cast<const char*>( e.s );
                if ( int( r.size() ) != e.s.GetStringLength() )
                    r += "(length " + std::to_string( e.s.GetStringLength() ) + ")";
                return r;
            }
            static void        set( Elem& e, const std::string& t ) { e.s = t.c_str(); }
            static std::string canon( const std::string& t ) { return t; }
            static std::string dflt( bool& known )
            {
                known = true;
                return "";
            }
        };
        template <>
        struct As<double>
        {
            static double      make( const std::string& t ) { return double( t.size() ) * 1.5 + ( t.empty() ? 0 : t[ 0 ] ); }
            static std::string text( double d ) { return std::to_string( d ); }
            static void        set( double& e, const std::string& t ) { e = make( t ); }
            static std::string canon( const std::string& t ) { return text( make( t ) ); }
            static std::string dflt( bool& known )
            {
                known = false; // left uninitialised by contract
                return "";
            }
        };

        // optional<string>: an element whose value the contract leaves open is "?"
        const std::string ANY = "\x01?";
        bool same( const std::vector<std::string>& m, const std::vector<std::string>& v )
        {
            if ( m.size() != v.size() )
                return false;
            for ( size_t i = 0; i < m.size(); i++ )
                if ( m[ i ] != ANY && m[ i ] != v[ i ] )
                    return false;
            return true;
        }
        std::string show( const std::vector<std::string>& v )
        {
            std::string r = "[" + std::to_string( v.size() ) + ":";
            for ( size_t i = 0; i < v.size() && i < 12; i++ )
                r += " " + quote( v[ i ] == ANY ? "*" : v[ i ].substr( 0, 24 ) );
            return r + "]";
        }

        struct Cx
        {
            Outcome                  out;
            int                      cur = 0;
            std::vector<std::string> misuse;
            void                     bad( const char* cls, const std::string& d )
            {
                if ( out.v.size() < 40 )
                    out.v.push_back( Violation { cls, d, cur } );
            }
        };

        // runs f as one simulated operation; true: it returned, false: it threw bad_alloc
        template <class F>
        bool attempt( Cx& x, const Op& op, F&& f )
        {
            bool ok = false;
            W.beginOp( op.faults );
            stepCap = 4000000;
            steps   = 0;
            W.evs( "cont", op.a[ 0 ] + " " + op.a[ 1 ] );
            bool other = false;
            {
                Lib l;
                try
                {
                    f();
                    ok = true;
                }
                catch ( const std::bad_alloc& )
                {
                }
                catch ( ... )
                {
                    other = true;
                }
            }
            bool fired = W.firedCount() > 0;
            for ( int i = 0; i < S_COUNT; i++ )
                x.out.counts[ size_t( x.cur ) ].n[ i ] = W.count[ i ];
            W.ev( "cont.result", ok );
            W.endOp();
            if ( other )
                x.bad( "cont.throw", op.a[ 1 ] + " threw something other than bad_alloc" );
            else if ( !ok && !fired )
                x.bad( "cont.throw", op.a[ 1 ] + " threw although no allocation failed" );
            ok ? x.out.oks++ : x.out.fails++;
            return ok;
        }

        // ------------------------------------------------------------ arrays
        template <class A, class T>
        struct Arr
        {
            A*                       a[ 3 ] = {};
            std::vector<std::string> m[ 3 ];

            static std::vector<std::string> read( const A& v )
            {
                std::vector<std::string> r;
                for ( int i = 0; i < v.GetArrayElementCount(); i++ )
                    r.push_back( As<T>::text( v[ i ] ) );
                return r;
            }
            void verify( Cx& x, int k, const std::string& what )
            {
                Host h;
                if ( !a[ k ] )
                    return;
                std::vector<std::string> v = read( *a[ k ] );
                if ( !same( m[ k ], v ) )
                    x.bad( "cont.value", "after " + what + " the array holds " + show( v ) + " instead of " + show( m[ k ] ) );
                size_t n = 0;
                for ( const T& e : *a[ k ] )
                {
                    (void)e;
                    n++;
                }
                if ( n != m[ k ].size() || a[ k ]->Empty() != m[ k ].empty() )
                    x.bad( "cont.value", "after " + what + " iteration or Empty disagree with the element count" );
                m[ k ] = v;
            }
            void drop( int k )
            {
                Lib l;
                delete a[ k ];
                a[ k ] = nullptr;
                m[ k ].clear();
            }
            void need( int k )
            {
                if ( !a[ k ] )
                    a[ k ] = new A;
            }
            void step( Cx& x, const Op& op, int k )
            {
                const std::string& v = op.a[ 1 ];
                auto               arg = [ & ]( size_t i ) { return op.a.size() > i ? op.a[ i ] : std::string(); };
                auto               num = [ & ]( size_t i ) { return atoi( arg( i ).c_str() ); };
                need( k );
                A&                       A_ = *a[ k ];
                std::vector<std::string> old = m[ k ];
                auto&                    mm  = m[ k ];
                bool                     ok  = true;
                std::vector<std::string> weak; // accepted instead of `old` after a failure: this prefix grown towards the target
                bool                     dk;
                std::string              d = As<T>::dflt( dk );
                if ( !dk )
                    d = ANY;
                if ( v == "append" || v == "appendmove" || v == "insert" || v == "insertmove" )
                {
                    std::string t  = arg( v[ 0 ] == 'a' ? 2 : 3 );
                    T           e  = As<T>::make( t );
                    int         ix = v[ 0 ] == 'a' ? int( old.size() ) : num( 2 );
                    T*          p  = nullptr;
                    if ( v == "append" )
                        ok = attempt( x, op, [ & ] { p = A_.AppendArrayElement( static_cast<const T&>( e ) ); } );
                    else if ( v == "appendmove" )
                        ok = attempt( x, op, [ & ] { p = A_.AppendArrayElement( static_cast<T&&>( e ) ); } );
                    else if ( v == "insert" )
                        ok = attempt( x, op, [ & ] { A_.InsertArrayElement( ix, static_cast<const T&>( e ) ); } );
                    else
                        ok = attempt( x, op, [ & ] { A_.InsertArrayElement( ix, static_cast<T&&>( e ) ); } );
                    if ( ok )
                    {
                        if ( ix >= int( mm.size() ) )
                        {
                            while ( int( mm.size() ) < ix )
                                mm.push_back( d );
                            mm.push_back( As<T>::canon( t ) );
                        }
                        else
                            mm.insert( mm.begin() + ix, As<T>::canon( t ) );
                        if ( v[ 0 ] == 'a' && ( !p || p != &A_[ A_.GetArrayElementCount() - 1 ] ) )
                            x.bad( "cont.value", v + " did not return the new element" );
                    }
                    else
                        weak.assign( ix > int( old.size() ) ? size_t( ix ) - old.size() : 0, d );
                }
                else if ( v == "appenddef" )
                {
                    ok = attempt( x, op, [ & ] { A_.AppendArrayElement(); } );
                    if ( ok )
                        mm.push_back( d );
                }
                else if ( v == "remove" )
                {
                    int i = num( 2 );
                    ok    = attempt( x, op, [ & ] { A_.RemoveArrayElement( i ); } );
                    if ( ok && i < int( mm.size() ) )
                        mm.erase( mm.begin() + i );
                }
                else if ( v == "removelast" )
                {
                    ok = attempt( x, op, [ & ] { A_.RemoveLastArrayElement(); } );
                    if ( ok && !mm.empty() )
                        mm.pop_back();
                }
                else if ( v == "count" )
                {
                    int n = num( 2 );
                    ok    = attempt( x, op, [ & ] { A_.SetArrayElementCount( n ); } );
                    if ( ok )
                        mm.resize( size_t( n ), d );
                }
                else if ( v == "countinit" )
                {
                    int n = num( 2 );
                    T   e = As<T>::make( arg( 3 ) );
                    ok    = attempt( x, op, [ & ] { A_.SetArrayElementCount( n, e ); } );
                    if ( ok )
                        mm.resize( size_t( n ), As<T>::canon( arg( 3 ) ) );
                    else
                        weak.assign( n > int( old.size() ) ? size_t( n ) - old.size() : 0, As<T>::canon( arg( 3 ) ) );
                }
                else if ( v == "clear" || v == "purge" )
                {
                    ok = attempt( x, op, [ & ] { v == "clear" ? A_.ClearArray() : A_.PurgeArray(); } );
                    if ( ok )
                        mm.clear();
                }
                else if ( v == "reserve" )
                    ok = attempt( x, op, [ & ] { A_.ReserveArrayElementCount( num( 2 ) ); } );
                else if ( v == "set" )
                {
                    size_t i = size_t( num( 2 ) );
                    if ( i < mm.size() )
                    {
                        ok = attempt( x, op, [ & ] { As<T>::set( A_[ int( i ) ], op.a[ 3 ] ); } );
                        if ( ok )
                            mm[ i ] = As<T>::canon( arg( 3 ) );
                    }
                }
                else if ( v == "copy" || v == "move" )
                {
                    int j = num( 2 );
                    need( j );
                    if ( j != k )
                    {
                        A* n = nullptr;
                        if ( v == "copy" )
                            ok = attempt( x, op, [ & ] { n = new A( static_cast<const A&>( *a[ j ] ) ); } );
                        else
                            ok = attempt( x, op, [ & ] { n = new A( static_cast<A&&>( *a[ j ] ) ); } );
                        if ( ok )
                        {
                            drop( k );
                            a[ k ] = n;
                            m[ k ] = m[ j ];
                            if ( v == "move" )
                                m[ j ].clear();
                        }
                        verify( x, j, v + " (source)" );
                    }
                }
                else if ( v == "find" )
                {
                    T   e  = As<T>::make( arg( 2 ) );
                    int at = -2, want = -1;
                    ok = attempt( x, op, [ & ] { at = A_.FindArrayElementIndex( e ); } );
                    for ( size_t i = 0; i < mm.size() && want < 0; i++ )
                        if ( mm[ i ] == As<T>::canon( arg( 2 ) ) )
                            want = int( i );
                    if ( ok && at != want )
                        x.bad( "cont.value", "search found index " + std::to_string( at ) + " instead of " + std::to_string( want ) );
                }
                else if ( v == "equal" )
                {
                    int j = num( 2 );
                    need( j );
                    bool eq = false;
                    ok      = attempt( x, op, [ & ] { eq = A_ == *a[ j ]; } );
                    if ( ok && eq != ( m[ k ] == m[ j ] ) )
                        x.bad( "cont.value", "comparison of arrays is wrong" );
                }
                if ( !ok )
                {
                    // a failed operation leaves the array as it was; growth by several elements may stop in between
                    std::vector<std::string> now = read( *a[ k ] );
                    mm                           = old;
                    for ( size_t i = 0; i < weak.size() && mm.size() < now.size(); i++ )
                        mm.push_back( weak[ i ] );
                }
                verify( x, k, ok ? v : "a failed " + v );
            }
        };

        // ------------------------------------------------------------ strings
        std::string escaped( const std::string& s )
        {
            std::string r;
            for ( unsigned char c : s )
            {
                if ( c >= 7 && c <= 13 )
                {
                    r += '\\';
                    r += "abtnvfr"[ c - 7 ];
                }
                else if ( c < 32 || c == 127 )
                {
                    r += "\\x";
                    r += "0123456789ABCDEF"[ c >> 4 ];
                    r += "0123456789ABCDEF"[ c & 15 ];
                }
                else if ( c == '"' || c == '\\' )
                {
                    r += '\\';
                    r += char( c );
                }
                else
                    r += char( c );
            }
            return r;
        }
        // numbers and wide text with one obvious spelling
        float       quarter( long n ) { return float( n % 4000 ) * 0.25F; }
        std::string quarterText( long n )
        {
            n %= 4000;
            long        a = n < 0 ? -n : n;
            const char* f[] = { ".0", ".25", ".5", ".75" };
            return ( n < 0 ? "-" : "" ) + std::to_string( a / 4 ) + f[ a % 4 ];
        }
        std::string widen( const std::string& t, std::vector<Terathon::uint16>& w )
        {
            // characters of one, two, three and four bytes in UTF-8
            std::string r;
            for ( unsigned char c : t )
                switch ( c % 5 )
                {
                    case 0: w.push_back( 0xE9 ), r += "\xc3\xa9"; break;
                    case 1: w.push_back( 0x20AC ), r += "\xe2\x82\xac"; break;
                    case 2: w.push_back( 0xD83D ), w.push_back( 0xDE00 ), r += "\xf0\x9f\x98\x80"; break;
                    default: w.push_back( 'a' + c % 26 ), r += char( 'a' + c % 26 ); break;
                }
            w.push_back( 0 );
            return r;
        }
        struct Str
        {
            String<>*   a[ 3 ] = {};
            std::string m[ 3 ];
            void        need( int k )
            {
                if ( !a[ k ] )
                    a[ k ] = new String<>;
            }
            void drop( int k )
            {
                Lib l;
                delete a[ k ];
                a[ k ] = nullptr;
                m[ k ].clear();
            }
            void verify( Cx& x, int k, const std::string& what )
            {
                if ( !a[ k ] )
                    return;
                const String<>& s = *a[ k ];
                std::string     t = static_cast<const char*>( s );
                if ( t != m[ k ] || s.GetStringLength() != int( m[ k ].size() ) )
                    x.bad( "cont.value", "after " + what + " the string is " + quote( t.substr( 0, 80 ) ) + " of length " + std::to_string( s.GetStringLength() ) + " instead of " + quote( m[ k ].substr( 0, 80 ) ) + " of length " + std::to_string( m[ k ].size() ) );
                m[ k ] = t;
            }
            void step( Cx& x, const Op& op, int k )
            {
                const std::string& v   = op.a[ 1 ];
                auto               arg = [ & ]( size_t i ) { return op.a.size() > i ? op.a[ i ] : std::string(); };
                auto               num = [ & ]( size_t i ) { return atol( arg( i ).c_str() ); };
                need( k );
                String<>&   s   = *a[ k ];
                std::string t   = arg( 2 ), want = m[ k ];
                bool        ok  = true;
                int         j   = int( num( 2 ) ) % 3;
                String<>*   fresh = nullptr;
                bool        two = v == "assigns" || v == "assignm" || v == "appends" || v == "copy" || v == "move" || v == "cmp" || v == "pluss";
                if ( two )
                {
                    need( j );
                    if ( j == k )
                        return;
                }
                if ( v == "new" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( t.c_str() ); } ), want = t;
                else if ( v == "newlen" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( t.c_str(), int( num( 3 ) ) ); } ), want = t.substr( 0, size_t( num( 3 ) ) );
                else if ( v == "newint" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( int( num( 2 ) ) ); } ), want = std::to_string( int( num( 2 ) ) );
                else if ( v == "newint64" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( Terathon::int64( num( 2 ) ) ); } ), want = std::to_string( num( 2 ) );
                else if ( v == "newuint" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( Terathon::uint32( num( 2 ) ) ); } ), want = std::to_string( num( 2 ) );
                else if ( v == "newfloat" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( quarter( num( 2 ) ) ); } ), want = quarterText( num( 2 ) );
                else if ( v == "newwide" )
                {
                    std::vector<Terathon::uint16> wide;
                    want = widen( t, wide );
                    ok   = attempt( x, op, [ & ] { fresh = new String<>( wide.data() ); } );
                }
                else if ( v == "assignuint" )
                    ok = attempt( x, op, [ & ] { s = Terathon::uint32( num( 2 ) ); } ), want = std::to_string( num( 2 ) );
                else if ( v == "assignfloat" )
                    ok = attempt( x, op, [ & ] { s = quarter( num( 2 ) ); } ), want = quarterText( num( 2 ) );
                else if ( v == "plusuint" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( s + Terathon::uint32( num( 2 ) ) ); } ), want = m[ k ] + std::to_string( num( 2 ) );
                else if ( v == "plusint64" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( s + Terathon::int64( num( 2 ) ) ); } ), want = m[ k ] + std::to_string( num( 2 ) );
                else if ( v == "appenduint" )
                    ok = attempt( x, op, [ & ] { s += Terathon::uint32( num( 2 ) ); } ), want += std::to_string( num( 2 ) );
                else if ( v == "appenduint64" )
                    ok = attempt( x, op, [ & ] { s += Terathon::uint64( num( 2 ) ); } ), want += std::to_string( num( 2 ) );
                else if ( v == "copy" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( static_cast<const String<>&>( *a[ j ] ) ); } ), want = m[ j ];
                else if ( v == "move" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( static_cast<String<>&&>( *a[ j ] ) ); } ), want = m[ j ];
                else if ( v == "plus" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( s + t.c_str() ); } ), want = m[ k ] + t;
                else if ( v == "plusint" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( s + int( num( 2 ) ) ); } ), want = m[ k ] + std::to_string( int( num( 2 ) ) );
                else if ( v == "pluss" )
                    ok = attempt( x, op, [ & ] { fresh = new String<>( s + static_cast<const char*>( *a[ j ] ) ); } ), want = m[ k ] + m[ j ];
                else if ( v == "assign" )
                    ok = attempt( x, op, [ & ] { s = t.c_str(); } ), want = t;
                else if ( v == "assigns" )
                    ok = attempt( x, op, [ & ] { s = static_cast<const String<>&>( *a[ j ] ); } ), want = m[ j ];
                else if ( v == "assignm" )
                    ok = attempt( x, op, [ & ] { s = static_cast<String<>&&>( *a[ j ] ); } ), want = m[ j ];
                else if ( v == "assignint" )
                    ok = attempt( x, op, [ & ] { s = int( num( 2 ) ); } ), want = std::to_string( int( num( 2 ) ) );
                else if ( v == "assignint64" )
                    ok = attempt( x, op, [ & ] { s = Terathon::int64( num( 2 ) ); } ), want = std::to_string( num( 2 ) );
                else if ( v == "append" )
                    ok = attempt( x, op, [ & ] { s += t.c_str(); } ), want += t;
                else if ( v == "appends" )
                    ok = attempt( x, op, [ & ] { s += static_cast<const String<>&>( *a[ j ] ); } ), want += m[ j ];
                else if ( v == "appendchar" )
                    ok = attempt( x, op, [ & ] { s += t[ 0 ]; } ), want += t[ 0 ];
                else if ( v == "appendint" )
                    ok = attempt( x, op, [ & ] { s += int( num( 2 ) ); } ), want += std::to_string( int( num( 2 ) ) );
                else if ( v == "appendint64" )
                    ok = attempt( x, op, [ & ] { s += Terathon::int64( num( 2 ) ); } ), want += std::to_string( num( 2 ) );
                else if ( v == "appendlen" )
                    ok = attempt( x, op, [ & ] { s.AppendString( t.c_str(), int( num( 3 ) ) ); } ), want += t.substr( 0, size_t( num( 3 ) ) );
                else if ( v == "setlen" )
                    ok = attempt( x, op, [ & ] { s.Set( t.c_str(), int( num( 3 ) ) ); } ), want = t.substr( 0, size_t( num( 3 ) ) );
                else if ( v == "length" )
                {
                    size_t n = size_t( num( 2 ) );
                    ok       = attempt( x, op, [ & ] { s.SetStringLength( int( n ) ); } );
                    if ( ok && n > want.size() )
                    {
                        // the new characters are the caller's to fill
                        char* p = s;
                        if ( s.GetStringLength() != int( n ) || p[ n ] != 0 || memcmp( p, want.data(), want.size() ) != 0 )
                            x.bad( "cont.value", "lengthening a string lost its text, length or end" );
                        else
                            for ( size_t i = want.size(); i < n; i++ )
                                p[ i ] = '.';
                    }
                    want.resize( n, '.' );
                }
                else if ( v == "lower" || v == "upper" )
                {
                    ok = attempt( x, op, [ & ] { v == "lower" ? s.ConvertToLowerCase() : s.ConvertToUpperCase(); } );
                    for ( char& c : want )
                        if ( v == "lower" ? ( c >= 'A' && c <= 'Z' ) : ( c >= 'a' && c <= 'z' ) )
                            c = char( c ^ 32 );
                }
                else if ( v == "replace" )
                {
                    ok = attempt( x, op, [ & ] { s.ReplaceChar( t[ 0 ], t[ 1 ] ); } );
                    std::replace( want.begin(), want.end(), t[ 0 ], t[ 1 ] );
                }
                else if ( v == "escape" )
                    ok = attempt( x, op, [ & ] { s.EncodeEscapeSequences(); } ), want = escaped( want );
                else if ( v == "purge" )
                    ok = attempt( x, op, [ & ] { s.PurgeString(); } ), want.clear();
                else if ( v == "cmp" )
                {
                    bool r[ 8 ] = {};
                    ok          = attempt( x, op, [ & ] {
                        const char* c = *a[ j ];
                        r[ 0 ] = s == c, r[ 1 ] = s != c, r[ 2 ] = s < c, r[ 3 ] = s <= c, r[ 4 ] = s > c, r[ 5 ] = s >= c, r[ 6 ] = s == *a[ j ], r[ 7 ] = s != *a[ j ];
                    } );
                    const std::string &p = m[ k ], &q = m[ j ];
                    if ( ok && ( r[ 0 ] != ( p == q ) || r[ 1 ] != ( p != q ) || r[ 2 ] != ( p < q ) || r[ 3 ] != ( p <= q ) || r[ 4 ] != ( p > q ) || r[ 5 ] != ( p >= q ) || r[ 6 ] != r[ 0 ] || r[ 7 ] != r[ 1 ] ) )
                        x.bad( "cont.value", "comparison of " + quote( p ) + " and " + quote( q ) + " is wrong" );
                }
                if ( ok )
                {
                    if ( fresh )
                    {
                        drop( k );
                        a[ k ] = fresh;
                    }
                    m[ k ] = want;
                }
                verify( x, k, ok ? v : "a failed " + v );
                if ( two )
                {
                    if ( ok && ( v == "move" || v == "assignm" ) )
                    {
                        // a moved-from string is valid with unspecified text
                        const String<>& o = *a[ j ];
                        std::string     q = static_cast<const char*>( o );
                        if ( int( q.size() ) != o.GetStringLength() )
                            x.bad( "cont.value", "a moved-from string has an inconsistent length" );
                        m[ j ] = q;
                    }
                    else
                        verify( x, j, v + " (source)" );
                }
            }
        };

        // ------------------------------------------------------------ strings of fixed capacity
        struct Fix
        {
            String<15>  s;
            std::string m;
            Fix() : s( "" ) {}
            void step( Cx& x, const Op& op )
            {
                const std::string& v = op.a[ 1 ];
                std::string        t = op.a.size() > 2 ? op.a[ 2 ] : "", want = m;
                int                n = atoi( t.c_str() );
                bool               ok = true;
                if ( v == "assign" )
                    ok = attempt( x, op, [ & ] { s = t.c_str(); } ), want = t;
                else if ( v == "append" )
                    ok = attempt( x, op, [ & ] { s += t.c_str(); } ), want += t;
                else if ( v == "appendchar" )
                    ok = attempt( x, op, [ & ] { s += t[ 0 ]; } ), want += t[ 0 ];
                else if ( v == "appendlen" )
                {
                    int l = std::min<int>( atoi( op.a[ 3 ].c_str() ), int( t.size() ) );
                    ok    = attempt( x, op, [ & ] { s.AppendString( t.c_str(), l ); } ), want += t.substr( 0, size_t( l ) );
                }
                else if ( v == "setlen" )
                {
                    int l = atoi( op.a[ 3 ].c_str() );
                    ok    = attempt( x, op, [ & ] { s.Set( t.c_str(), l ); } ), want = t.substr( 0, size_t( l ) );
                }
                else if ( v == "assignint" )
                    ok = attempt( x, op, [ & ] { s = n; } ), want = std::to_string( n );
                else if ( v == "assignuint" )
                    ok = attempt( x, op, [ & ] { s = Terathon::uint32( n & 0x7FFFFFFF ); } ), want = std::to_string( n & 0x7FFFFFFF );
                else if ( v == "assignint64" )
                    ok = attempt( x, op, [ & ] { s = Terathon::int64( n ) * 16807; } ), want = std::to_string( long( n ) * 16807 );
                else if ( v == "assignfloat" )
                    ok = attempt( x, op, [ & ] { s = quarter( n ); } ), want = quarterText( n );
                else if ( v == "appendint" )
                    ok = attempt( x, op, [ & ] { s += n; } ), want += std::to_string( n );
                else if ( v == "appenduint" )
                    ok = attempt( x, op, [ & ] { s += Terathon::uint32( n & 0x7FFFFFFF ); } ), want += std::to_string( n & 0x7FFFFFFF );
                else if ( v == "appendint64" )
                    ok = attempt( x, op, [ & ] { s += Terathon::int64( n ) * 16807; } ), want += std::to_string( long( n ) * 16807 );
                else if ( v == "appenduint64" )
                    ok = attempt( x, op, [ & ] { s += Terathon::uint64( n & 0x7FFFFFFF ) * 16807; } ), want += std::to_string( long( n & 0x7FFFFFFF ) * 16807 );
                else if ( v == "plus" )
                    ok = attempt( x, op, [ & ] { s = s + t.c_str(); } ), want += t;
                else if ( v == "new" )
                    ok = attempt( x, op, [ & ] { s = String<15>( t.c_str() ); } ), want = t;
                else if ( v == "length" )
                {
                    int l = n % 16;
                    if ( l < 0 || l > int( want.size() ) )
                        return;
                    ok = attempt( x, op, [ & ] { s.SetStringLength( l ); } ), want.resize( size_t( l ) );
                }
                else if ( v == "cmp" )
                {
                    bool r[ 6 ] = {};
                    ok          = attempt( x, op, [ & ] {
                        const char* c = t.c_str();
                        r[ 0 ] = s == c, r[ 1 ] = s != c, r[ 2 ] = s < c, r[ 3 ] = s <= c, r[ 4 ] = s > c, r[ 5 ] = s >= c;
                    } );
                    if ( r[ 0 ] != ( m == t ) || r[ 1 ] != ( m != t ) || r[ 2 ] != ( m < t ) || r[ 3 ] != ( m <= t ) || r[ 4 ] != ( m > t ) || r[ 5 ] != ( m >= t ) )
                        x.bad( "cont.value", "comparison of " + quote( m ) + " and " + quote( t ) + " is wrong" );
                }
                (void)ok;
                want = want.substr( 0, 15 );
                if ( s.GetStringLength() != int( want.size() ) )
                    x.bad( "cont.value", "after " + v + " the fixed string has another length" );
                char              b[ 17 ] = {};
                memcpy( b, &s, 16 );
                if ( want != b )
                    x.bad( "cont.value", "after " + v + " the fixed string is " + quote( b ) + " instead of " + quote( want ) );
                m = b;
            }
        };

        // ------------------------------------------------------------ maps
        using ME = Json::ObjectMapElement<Elem>;
        using MM = Json::ObjectMap<Elem>;
        struct Mp
        {
            MM*                                a[ 2 ] = {};
            std::map<std::string, std::string> m[ 2 ];
            std::vector<ME*>                   loose; // elements taken out of a map, to be inserted again or freed at the end
            // an element that left its map stands alone
            void free( Cx& x, ME* e, bool keep, const std::string& what )
            {
                if ( e->GetOwningMap() || e->GetLeftSubnode() || e->GetRightSubnode() || e->GetPreviousMapElement() || e->GetNextMapElement() )
                    x.bad( "cont.broken", "an element taken out by " + what + " is still linked to a map" );
                if ( keep )
                    loose.push_back( e );
                else
                {
                    Lib l;
                    delete e;
                }
            }
            void                               need( int k )
            {
                if ( !a[ k ] )
                    a[ k ] = new MM;
            }
            static int depth( const ME* e, int d )
            {
                if ( !e || d > 4000 )
                    return d;
                return std::max( depth( e->GetLeftSubnode(), d + 1 ), depth( e->GetRightSubnode(), d + 1 ) );
            }
            static std::string val( const ME* e ) { return As<Elem>::text( e->data ); }
            void               verify( Cx& x, int k, const std::string& what )
            {
                if ( !a[ k ] )
                    return;
                Host                                             h;
                std::vector<std::pair<std::string, std::string>> f, want( m[ k ].begin(), m[ k ].end() );
                const MM&                                        M     = *a[ k ];
                size_t                                           limit = m[ k ].size() + 5;
                for ( auto* e : M )
                {
                    f.emplace_back( static_cast<const char*>( e->name ), val( e ) );
                    if ( e->GetOwningMap() != &M || !M.Member( e ) )
                        x.bad( "cont.broken", "after " + what + " an element does not know its map" );
                    if ( f.size() > limit )
                        break;
                }
                auto text = []( const std::vector<std::pair<std::string, std::string>>& v ) {
                    std::string r;
                    for ( size_t i = 0; i < v.size() && i < 8; i++ )
                        r += " " + quote( v[ i ].first ) + "=" + quote( v[ i ].second.substr( 0, 12 ) );
                    return "{" + std::to_string( v.size() ) + r + "}";
                };
                if ( f != want )
                    x.bad( "cont.value", "after " + what + " the map holds " + text( f ) + " instead of " + text( want ) );
                std::vector<std::pair<std::string, std::string>> b;
                for ( ME* e = M.GetLastMapElement(); e && b.size() <= limit; e = e->GetPreviousMapElement() )
                    b.emplace_back( static_cast<const char*>( e->name ), val( e ) );
                std::reverse( b.begin(), b.end() );
                if ( b != f )
                    x.bad( "cont.broken", "after " + what + " the map reads differently backwards" );
                // a balanced tree: no path is longer than that of any common balancing scheme, so that a lookup stays logarithmic
                int deepest = depth( M.GetRootMapElement(), 0 ), allowed = 2;
                for ( size_t q = f.size() + 1; q > 1; q /= 2 )
                    allowed += 2;
                if ( deepest > allowed )
                    x.bad( "cont.deep", "after " + what + " a map of " + std::to_string( f.size() ) + " elements is " + std::to_string( deepest ) + " levels deep" );
                if ( M.GetMapElementCount() != int( m[ k ].size() ) || M.Empty() != m[ k ].empty() )
                    x.bad( "cont.broken", "after " + what + " the element count is wrong" );
                for ( auto& p : m[ k ] )
                {
                    String<> key( p.first.c_str() );
                    ME*      e = M.FindMapElement( key );
                    if ( !e || p.first != static_cast<const char*>( e->name ) || val( e ) != p.second )
                    {
                        x.bad( "cont.broken", "after " + what + " the name " + quote( p.first ) + " is not found" );
                        break;
                    }
                }
                m[ k ].clear();
                for ( auto& p : f )
                    m[ k ][ p.first ] = p.second;
            }
            void drop( int k )
            {
                Lib l;
                delete a[ k ];
                a[ k ] = nullptr;
                m[ k ].clear();
                for ( auto* e : loose )
                    delete e;
                loose.clear();
            }
            void step( Cx& x, const Op& op, int k )
            {
                const std::string& v   = op.a[ 1 ];
                auto               arg = [ & ]( size_t i ) { return op.a.size() > i ? op.a[ i ] : std::string(); };
                need( k );
                MM&         M   = *a[ k ];
                std::string key = arg( 2 );
                bool        ok  = true;
                int         o   = 1 - k;
                bool        had = m[ k ].count( key ) != 0;
                if ( v == "insert" || v == "replace" || v == "reserve" )
                {
                    ME*  e   = nullptr;
                    bool res = false;
                    ME*  rep = nullptr;
                    ok       = attempt( x, op, [ & ] {
                        try
                        {
                            e         = new ME;
                            e->name   = key.c_str();
                            e->data.s = op.a[ 3 ].c_str();
                        }
                        catch ( ... )
                        {
                            delete e;
                            e = nullptr;
                            throw;
                        }
                        if ( v == "insert" )
                            res = M.InsertMapElement( e );
                        else if ( v == "replace" )
                            rep = M.InsertReplaceMapElement( e ), res = true;
                        else
                        {
                            Terathon::MapReservation rs;
                            res = M.ReserveMapElement( e->name, &rs );
                            if ( res )
                                M.InsertMapElement( e, &rs );
                        }
                        if ( !res )
                            delete e;
                    } );
                    if ( rep )
                        free( x, rep, arg( 4 ) == "keep", v );
                    if ( ok )
                    {
                        if ( v == "replace" )
                        {
                            if ( ( rep != nullptr ) != had )
                                x.bad( "cont.value", "replacing insertion returned the wrong element" );
                            m[ k ][ key ] = arg( 3 );
                        }
                        else
                        {
                            if ( res == had )
                                x.bad( "cont.value", v + " of a name that is " + ( had ? "present" : "absent" ) + " returned " + ( res ? "true" : "false" ) );
                            if ( !had )
                                m[ k ][ key ] = arg( 3 );
                        }
                    }
                }
                else if ( v == "remove" || v == "detach" || v == "delete" )
                {
                    ME* e = nullptr;
                    {
                        Host     h;
                        String<> q( key.c_str() );
                        e = M.FindMapElement( q );
                    }
                    if ( e )
                    {
                        ok = attempt( x, op, [ & ] {
                            if ( v == "remove" )
                                M.RemoveMapElement( e );
                            else if ( v == "detach" )
                                e->Detach();
                            else
                                delete e;
                        } );
                        if ( v != "delete" )
                        {
                            if ( M.Member( e ) )
                                x.bad( "cont.broken", "a removed element still belongs to its map" );
                            free( x, e, arg( 3 ) == "keep", v );
                        }
                        m[ k ].erase( key );
                    }
                }
                else if ( v == "transfer" )
                {
                    // an element of this map inserted into the other one leaves this one
                    need( o );
                    ME* e = nullptr;
                    {
                        Host     h;
                        String<> q( key.c_str() );
                        e = M.FindMapElement( q );
                    }
                    if ( e )
                    {
                        bool res = false;
                        ok       = attempt( x, op, [ & ] { res = a[ o ]->InsertMapElement( e ); } );
                        if ( res == ( m[ o ].count( key ) != 0 ) )
                            x.bad( "cont.value", "transfer to a map returned the wrong result" );
                        if ( !m[ o ].count( key ) )
                        {
                            m[ o ][ key ] = m[ k ][ key ];
                            m[ k ].erase( key );
                        }
                        verify( x, o, v + " (target)" );
                    }
                }
                else if ( v == "find" )
                {
                    ME*      e = nullptr;
                    String<> q( key.c_str() );
                    ok = attempt( x, op, [ & ] { e = M.FindMapElement( q ); } );
                    if ( ok && ( e != nullptr ) != had )
                        x.bad( "cont.value", "search for " + quote( key ) + " is wrong" );
                }
                else if ( v == "index" )
                {
                    long i = atol( key.c_str() );
                    ME*  e = nullptr;
                    ok     = attempt( x, op, [ & ] { e = M[ i ]; } );
                    if ( ok )
                    {
                        bool in = i < long( m[ k ].size() );
                        if ( ( e != nullptr ) != in || ( in && std::next( m[ k ].begin(), i )->first != static_cast<const char*>( e->name ) ) )
                            x.bad( "cont.value", "element " + std::to_string( i ) + " of the map is wrong" );
                    }
                }
                else if ( v == "set" )
                {
                    if ( had )
                    {
                        ME* e = nullptr;
                        {
                            Host     h;
                            String<> q( key.c_str() );
                            e = M.FindMapElement( q );
                        }
                        ok = attempt( x, op, [ & ] { e->data.s = op.a[ 3 ].c_str(); } );
                        if ( ok )
                            m[ k ][ key ] = arg( 3 );
                    }
                }
                else if ( v == "range" || v == "unrange" )
                {
                    // many elements in ascending, descending or scattered order, inserted or removed in one go
                    long lo = atol( key.c_str() ), n = atol( arg( 3 ).c_str() ), stride = atol( arg( 4 ).c_str() );
                    for ( long i = 0; i < n && ok; i++ )
                    {
                        long        q = stride > 0 ? lo + i * stride % n : lo + n - 1 - i * -stride % n;
                        char        b[ 24 ];
                        snprintf( b, sizeof b, "%05ld", q );
                        bool has = m[ k ].count( b ) != 0;
                        bool res = false;
                        ok       = attempt( x, op, [ & ] {
                            if ( v == "range" )
                            {
                                ME* e = new ME;
                                try
                                {
                                    e->name = b;
                                }
                                catch ( ... )
                                {
                                    delete e;
                                    throw;
                                }
                                res = M.InsertMapElement( e );
                                if ( !res )
                                    delete e;
                            }
                            else if ( ME* e = M.FindMapElement( String<>( b ) ) )
                            {
                                delete e;
                                res = true;
                            }
                        } );
                        if ( !ok )
                            break;
                        if ( res == ( has == ( v == "range" ) ) )
                            x.bad( "cont.value", v + ( has ? " of a present" : " of an absent" ) + " name returned the wrong result" );
                        if ( v == "range" )
                            m[ k ].emplace( b, "" );
                        else
                            m[ k ].erase( b );
                    }
                }
                else if ( v == "removeall" )
                {
                    std::vector<ME*> all;
                    for ( auto* e : M )
                        all.push_back( e );
                    ok = attempt( x, op, [ & ] { M.RemoveAllMapElements(); } );
                    for ( auto* e : all )
                        free( x, e, key == "keep", v );
                    m[ k ].clear();
                }
                else if ( v == "readd" )
                {
                    if ( !loose.empty() )
                    {
                        size_t      i = size_t( atol( key.c_str() ) ) % loose.size();
                        ME*         e = loose[ i ];
                        std::string n = static_cast<const char*>( e->name ), val0 = val( e );
                        bool        res = false, there = m[ k ].count( n ) != 0;
                        ME*         rep = nullptr;
                        ok              = attempt( x, op, [ & ] {
                            if ( arg( 3 ) == "replace" )
                                rep = M.InsertReplaceMapElement( e ), res = true;
                            else
                                res = M.InsertMapElement( e );
                        } );
                        if ( ok && res )
                        {
                            loose.erase( loose.begin() + long( i ) );
                            if ( ( rep != nullptr ) != ( there && arg( 3 ) == "replace" ) || ( there && !rep ) )
                                x.bad( "cont.value", "inserting an element again returned the wrong result" );
                            m[ k ][ n ] = val0;
                            if ( rep )
                                free( x, rep, true, v );
                        }
                        else if ( ok && !there )
                            x.bad( "cont.value", "an element taken out before was not inserted again" );
                    }
                }
                else if ( v == "purge" )
                {
                    ok = attempt( x, op, [ & ] { M.PurgeMap(); } );
                    m[ k ].clear();
                }
                verify( x, k, ok ? v : "a failed " + v );
            }
        };
    } // namespace

    Outcome runContainers( const Plan& p, bool verbose, std::string* trace )
    {
        Cx x;
        W.reset();
        W.verbose = verbose;
        setLocale( "C" );
        ledgerForget();
        x.out.counts.resize( p.size() );
        Elem::live = 0;
        sink       = &x.misuse;
        {
            Arr<Array<Elem>, Elem>     A;
            Arr<Array<Elem, 4>, Elem>  B;
            Arr<Array<double>, double> D;
            Str                        S;
            Mp                         M;
            Fix                        F;
            for ( size_t i = 0; i < p.size(); i++ )
            {
                x.cur = int( i );
                if ( verbose )
                    W.trace += opToText( p[ i ] ) + "\n";
                const std::string& w = p[ i ].a[ 0 ];
                if ( p[ i ].a.size() < 2 || w.size() < 2 )
                    continue;
                int k = w[ 1 ] - '0';
                switch ( w[ 0 ] )
                {
                    case 'A': A.step( x, p[ i ], k % 3 ); break;
                    case 'B': B.step( x, p[ i ], k % 3 ); break;
                    case 'D': D.step( x, p[ i ], k % 3 ); break;
                    case 'S': S.step( x, p[ i ], k % 3 ); break;
                    case 'M': M.step( x, p[ i ], k % 2 ); break;
                    case 'F': F.step( x, p[ i ] ); break;
                    default: break;
                }
                W.st.ops++;
                for ( auto& s : x.misuse )
                    x.bad( "cont.broken", s + " in " + w + " " + p[ i ].a[ 1 ] );
                x.misuse.clear();
                if ( x.out.v.size() > 20 )
                    break;
            }
            x.cur = int( p.size() );
            for ( int k = 0; k < 3; k++ )
            {
                A.drop( k );
                B.drop( k );
                D.drop( k );
                S.drop( k );
                if ( k < 2 )
                    M.drop( k );
            }
        }
        for ( auto& s : x.misuse )
            x.bad( "cont.broken", s + " in destruction" );
        sink = nullptr;
        if ( Elem::live )
            x.bad( "cont.live", std::to_string( Elem::live ) + " elements constructed but not destroyed (negative: destroyed twice)" );
        if ( L.live )
            x.bad( "leak.mem", std::to_string( L.live ) + " blocks (" + std::to_string( L.liveBytes ) + " bytes) never freed:" + ledgerDescribe( 6 ) );
        ledgerForget();
        x.out.hash = W.hash;
        x.out.st   = W.st;
        if ( trace )
            *trace = W.trace;
        return x.out;
    }

    // ---------------------------------------------------------------- generation
    namespace
    {
        std::string word( Rng& r )
        {
            static const std::vector<int> lens { 0, 1, 3, 14, 15, 16, 17, 30, 59, 60, 61, 63, 64, 65, 90, 130, 300, 700 };
            int                           n = r.chance( 0.6 ) ? lens[ r.below( 7 ) ] : r.pick( lens );
            std::string                   s;
            int                           mode = int( r.below( 4 ) );
            for ( int i = 0; i < n; i++ )
                s += mode == 0 ? char( 'a' + r.below( 26 ) ) : mode == 1 ? char( 1 + r.below( 255 ) ) : mode == 2 ? "aAzZ09\"\\\n\t\x7f\x01 /"[ r.below( 14 ) ] : 'x';
            return s;
        }
        std::string key( Rng& r, int space )
        {
            int k = int( r.below( uint64_t( space ) ) );
            switch ( k % 4 )
            {
                case 0: return "k" + std::to_string( k );
                case 1: return std::string( size_t( k % 40 ), 'm' );
                case 2: return "\xc3\xa9" + std::to_string( k );
                default: return std::to_string( k * 7919 ) + "_a_rather_long_name_for_an_element";
            }
        }
    } // namespace
    Plan skeletonContainers( Rng& r )
    {
        Plan p;
        auto add = [ & ]( std::vector<std::string> a ) {
            Op o;
            o.a = std::move( a );
            p.push_back( o );
        };
        add( { "containers" } );
        auto S_      = []( long v ) { return std::to_string( v ); };
        int  n       = r.range( 4, 40 );
        int  focus   = int( r.below( 6 ) ); // which family dominates
        int  space   = r.chance( 0.3 ) ? 60 : 8;
        bool bulk    = r.chance( 0.15 );
        bool         ranges = r.chance( 0.08 );
        if ( ranges )
            focus = 4;
        if ( bulk )
            n = r.range( 60, 200 ), space = 120;
        if ( r.chance( 0.12 ) ) // one map of a few dozen names that is rebuilt all the time
        {
            static const std::vector<std::string> verbs { "insert", "insert", "replace", "reserve", "remove", "delete", "detach", "transfer" };
            std::vector<std::string>              mix;
            for ( auto& v : verbs )
                for ( int w = r.range( 0, 4 ); w > 0; w-- )
                    mix.push_back( v );
            mix.push_back( "insert" );
            space = r.range( 3, 40 );
            for ( int i = r.range( 20, 150 ); i > 0; i-- )
            {
                std::string v = r.pick( mix ), w = r.chance( 0.95 ) ? "M0" : "M1", k = r.chance( 0.3 ) ? "keep" : "";
                if ( r.chance( 0.15 ) )
                    add( { w, "readd", S_( r.range( 0, 9 ) ), r.chance( 0.2 ) ? "replace" : "" } );
                else if ( r.chance( 0.01 ) )
                    add( { w, "removeall", "keep" } );
                else if ( v == "insert" || v == "replace" || v == "reserve" )
                    add( { w, v, key( r, space ), "v" + S_( r.range( 0, 99 ) ), k } );
                else
                    add( { w, v, key( r, space ), k } );
            }
            return p;
        }
        size_t len[ 256 ] = {};
        for ( int i = 0; i < n; i++ )
        {
            int         f = r.chance( 0.7 ) ? focus : int( r.below( 6 ) );
            std::string k = S_( long( r.below( r.chance( 0.8 ) ? 1 : 3 ) ) );
            if ( f <= 2 )
            {
                std::string w = std::string( 1, "ABD"[ f ] ) + k;
                switch ( r.below( 18 ) )
                {
                    case 0:
                    case 1:
                    case 2:
                    case 3: add( { w, "append", word( r ) } ); break;
                    case 4:
                    case 5: add( { w, "appendmove", word( r ) } ); break;
                    case 6: add( { w, "appenddef" } ); break;
                    case 7:
                    case 8: add( { w, r.chance( 0.5 ) ? "insert" : "insertmove", S_( r.range( 0, r.chance( 0.8 ) ? 5 : 14 ) ), word( r ) } ); break;
                    case 9: add( { w, "remove", S_( r.range( 0, 8 ) ) } ); break;
                    case 10: add( { w, "removelast" } ); break;
                    case 11: add( { w, "count", S_( r.range( 0, 14 ) ) } ); break;
                    case 12: add( { w, "countinit", S_( r.range( 0, 14 ) ), word( r ) } ); break;
                    case 13: add( { w, r.chance( 0.5 ) ? "clear" : "purge" } ); break;
                    case 14: add( { w, "reserve", S_( r.range( 0, 30 ) ) } ); break;
                    case 15: add( { w, "set", S_( r.range( 0, 5 ) ), word( r ) } ); break;
                    case 16: add( { w, r.chance( 0.5 ) ? "copy" : "move", S_( long( r.below( 3 ) ) ) } ); break;
                    default: add( { w, r.chance( 0.5 ) ? "equal" : "find", r.chance( 0.5 ) ? S_( long( r.below( 3 ) ) ) : word( r ) } ); break;
                }
                if ( p.back().a[ 1 ] == "equal" )
                    p.back().a[ 2 ] = S_( long( r.below( 3 ) ) );
            }
            else if ( f == 3 )
            {
                std::string w = "S" + k, t = word( r );
                std::string j = S_( long( r.below( 3 ) ) ), num = S_( r.chance( 0.3 ) ? long( int( r.next() | 1 ) ) : long( r.range( -20, 2000 ) ) );
                switch ( r.below( 24 ) )
                {
                    case 22: add( { w, r.pick( std::vector<std::string> { "newuint", "assignuint", "plusuint", "appenduint", "appenduint64" } ), S_( long( r.below( r.chance( 0.5 ) ? 100 : 0x7FFFFFFF ) ) ) } ); break;
                    case 23:
                        if ( r.chance( 0.4 ) )
                            add( { w, "newwide", t } );
                        else
                            add( { w, r.pick( std::vector<std::string> { "newfloat", "assignfloat", "plusint64" } ), num } );
                        break;
                    case 0: add( { w, "new", t } ); break;
                    case 1: add( { w, "newlen", t, S_( r.range( 0, int( t.size() ) + 3 ) ) } ); break;
                    case 2: add( { w, r.chance( 0.5 ) ? "newint" : "newint64", num } ); break;
                    case 3: add( { w, "copy", j } ); break;
                    case 4: add( { w, "move", j } ); break;
                    case 5: add( { w, "plus", t } ); break;
                    case 6: add( { w, r.chance( 0.5 ) ? "plusint" : "assignint64", num } ); break;
                    case 7:
                    case 8: add( { w, "assign", t } ); break;
                    case 9: add( { w, "assigns", j } ); break;
                    case 10: add( { w, "assignm", j } ); break;
                    case 11: add( { w, r.chance( 0.5 ) ? "assignint" : "appendint", num } ); break;
                    case 12:
                    case 13: add( { w, "append", t } ); break;
                    case 14: add( { w, "appends", j } ); break;
                    case 15: add( { w, "appendchar", "q" } ); break;
                    case 16: add( { w, "appendlen", t, S_( r.range( 0, int( t.size() ) ) ) } ); break;
                    case 17: add( { w, "setlen", t, S_( r.range( 0, int( t.size() ) + 3 ) ) } ); break;
                    case 18: add( { w, "length", S_( r.chance( 0.7 ) ? r.range( 0, 80 ) : r.range( 0, 400 ) ) } ); break;
                    case 19: add( { w, r.chance( 0.5 ) ? "lower" : "upper" } ); break;
                    case 20: r.chance( 0.6 ) ? add( { w, "escape" } ) : r.chance( 0.5 ) ? add( { w, "replace", "xy" } ) : add( { w, "purge" } ); break;
                    default: r.chance( 0.5 ) ? add( { w, "cmp", j } ) : r.chance( 0.5 ) ? add( { w, "pluss", j } ) : add( { w, "appendint64", S_( long( r.next() | 1 ) ) } ); break;
                }
            }
            else if ( f == 4 )
            {
                std::string w = "M" + S_( long( r.below( r.chance( 0.8 ) ? 1 : 2 ) ) );
                if ( ranges && r.chance( 0.5 ) )
                {
                    static const std::vector<long> ns { 3, 7, 16, 40, 130, 400, 1200 };
                    long                           cnt = r.pick( ns ) + r.range( 0, 3 ), st = r.chance( 0.4 ) ? 1 : r.pick( std::vector<long> { 3, 7, 11, 37 } );
                    add( { w, r.chance( 0.6 ) ? "range" : "unrange", S_( r.chance( 0.5 ) ? 0 : r.range( 0, 1500 ) ), S_( cnt ), S_( r.chance( 0.5 ) ? st : -st ) } );
                    if ( i > 14 )
                        break;
                    continue;
                }
                switch ( r.below( bulk ? 14 : 18 ) )
                {
                    case 0:
                    case 1:
                    case 2:
                    case 3:
                    case 4:
                    case 5: add( { w, "insert", key( r, space ), word( r ) } ); break;
                    case 6: add( { w, "replace", key( r, space ), word( r ) } ); break;
                    case 7: add( { w, "reserve", key( r, space ), word( r ) } ); break;
                    case 8:
                    case 9: add( { w, "remove", key( r, space ) } ); break;
                    case 10: add( { w, "detach", key( r, space ) } ); break;
                    case 11: add( { w, "delete", key( r, space ) } ); break;
                    case 12: add( { w, "find", key( r, space ) } ); break;
                    case 13: add( { w, "transfer", key( r, space ) } ); break;
                    case 14: add( { w, "index", S_( r.range( 0, 8 ) ) } ); break;
                    case 15: add( { w, "set", key( r, space ), word( r ) } ); break;
                    case 16: add( { w, "removeall" } ); break;
                    default: add( { w, "purge" } ); break;
                }
            }
            else
            {
                std::string t = word( r );
                switch ( r.below( 9 ) )
                {
                    case 6: add( { "F0", r.pick( std::vector<std::string> { "plus", "new", "cmp" } ), t } ); break;
                    case 7:
                    case 8: add( { "F0", r.pick( std::vector<std::string> { "assignuint", "assignint64", "assignfloat", "appendint", "appenduint", "appendint64", "appenduint64", "length" } ), S_( r.chance( 0.5 ) ? long( r.range( -9, 200 ) ) : long( int( r.next() | 1 ) ) ) } ); break;
                    case 0: add( { "F0", "assign", t } ); break;
                    case 1: add( { "F0", "append", t } ); break;
                    case 2: add( { "F0", "appendchar", "z" } ); break;
                    case 3: add( { "F0", "appendlen", t, S_( r.range( 0, 20 ) ) } ); break;
                    case 4: add( { "F0", "setlen", t, S_( r.range( 0, 20 ) ) } ); break;
                    default: add( { "F0", "assignint", S_( long( int( r.next() ) ) ) } ); break;
                }
                if ( r.chance( 0.5 ) )
                    focus = int( r.below( 5 ) );
            }
        }
        (void)len;
        return p;
    }
    void faultsContainers( Plan& p, const std::vector<Counts>& c, Rng& r )
    {
        std::vector<size_t> cand;
        for ( size_t i = 0; i < p.size() && i < c.size(); i++ )
            if ( c[ i ].n[ S_ALLOC ] > 0 )
                cand.push_back( i );
        if ( cand.empty() )
            return;
        int k = r.chance( 0.5 ) ? 1 : r.range( 1, 5 );
        for ( int q = 0; q < k; q++ )
        {
            size_t i = r.pick( cand );
            Fault  f;
            f.sys  = S_ALLOC;
            f.act  = A_FAIL;
            f.n    = r.range( 1, c[ i ].n[ S_ALLOC ] );
            f.plus = r.chance( 0.3 );
            p[ i ].faults.push_back( f );
        }
    }
} // namespace sim
