#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <locale.h>

namespace ref
{
    const char* const errName[ E_COUNT ] = { "none", "empty", "value", "name", "colon", "comma-or-curly", "comma-or-square", "trailing-comma", "string-char", "string-escape", "string-end", "leading-zero", "number", "trailing" };

    static locale_t cLocale()
    {
        static locale_t l = newlocale( LC_ALL_MASK, "C", nullptr );
        return l;
    }

    const Node* Node::find( const std::string& k ) const
    {
        for ( auto& p : m )
            if ( p.first == k )
                return &p.second;
        return nullptr;
    }
    Node* Node::find( const std::string& k )
    {
        for ( auto& p : m )
            if ( p.first == k )
                return &p.second;
        return nullptr;
    }
    size_t Node::count() const
    {
        size_t n = 1;
        for ( auto& x : a )
            n += x.count();
        for ( auto& x : m )
            n += x.second.count();
        return n;
    }
    int Node::depth() const
    {
        int d = 0;
        for ( auto& x : a )
            d = std::max( d, x.depth() );
        for ( auto& x : m )
            d = std::max( d, x.second.depth() );
        return d + ( t == Arr || t == Obj );
    }
    bool Node::finite() const
    {
        if ( t == Num && !std::isfinite( n ) )
            return false;
        for ( auto& x : a )
            if ( !x.finite() )
                return false;
        for ( auto& x : m )
            if ( !x.second.finite() )
                return false;
        return true;
    }

    static bool sameNum( double a, double b )
    {
        return memcmp( &a, &b, sizeof a ) == 0 || ( a != a && b != b );
    }

    static std::vector<const std::pair<std::string, Node>*> sorted( const Node& x )
    {
        std::vector<const std::pair<std::string, Node>*> v;
        for ( auto& p : x.m )
            v.push_back( &p );
        std::stable_sort( v.begin(), v.end(), []( auto* a, auto* b ) { return a->first < b->first; } );
        return v;
    }

    static const char* tn( Type t )
    {
        static const char* n[] = { "null", "bool", "number", "string", "array", "object" };
        return n[ t ];
    }

    std::string diff( const Node& x, const Node& y, const std::string& path )
    {
        if ( x.t != y.t )
            return path + ": " + tn( x.t ) + " vs " + tn( y.t );
        switch ( x.t )
        {
            case Null: return "";
            case Bool: return x.b == y.b ? "" : path + ": bool differs";
            case Num:
                if ( sameNum( x.n, y.n ) )
                    return "";
                {
                    char b[ 96 ];
                    snprintf( b, sizeof b, ": %a vs %a", x.n, y.n );
                    return path + b;
                }
            case Str: return x.s == y.s ? "" : path + ": " + sim::quote( x.s.substr( 0, 80 ) ) + " vs " + sim::quote( y.s.substr( 0, 80 ) );
            case Arr:
                if ( x.a.size() != y.a.size() )
                    return path + ": " + std::to_string( x.a.size() ) + " vs " + std::to_string( y.a.size() ) + " elements";
                for ( size_t i = 0; i < x.a.size(); i++ )
                {
                    std::string d = diff( x.a[ i ], y.a[ i ], path + "[" + std::to_string( i ) + "]" );
                    if ( !d.empty() )
                        return d;
                }
                return "";
            case Obj:
            {
                if ( x.m.size() != y.m.size() )
                    return path + ": " + std::to_string( x.m.size() ) + " vs " + std::to_string( y.m.size() ) + " members";
                auto a = sorted( x ), b = sorted( y );
                for ( size_t i = 0; i < a.size(); i++ )
                {
                    if ( a[ i ]->first != b[ i ]->first )
                        return path + ": name " + sim::quote( a[ i ]->first.substr( 0, 80 ) ) + " vs " + sim::quote( b[ i ]->first.substr( 0, 80 ) );
                    std::string d = diff( a[ i ]->second, b[ i ]->second, path + "." + sim::quote( a[ i ]->first.substr( 0, 40 ) ) );
                    if ( !d.empty() )
                        return d;
                }
                return "";
            }
        }
        return "";
    }
    static bool sameOrder( const Node& x, const Node& y )
    {
        if ( x.t == Arr )
        {
            for ( size_t i = 0; i < x.a.size(); i++ )
                if ( !sameOrder( x.a[ i ], y.a[ i ] ) )
                    return false;
        }
        else if ( x.t == Obj )
            for ( size_t i = 0; i < x.m.size(); i++ )
                if ( x.m[ i ].first != y.m[ i ].first || !sameOrder( x.m[ i ].second, y.m[ i ].second ) )
                    return false;
        return true;
    }
    bool equal( const Node& x, const Node& y, bool ordered )
    {
        if ( !diff( x, y ).empty() )
            return false;
        return !ordered || sameOrder( x, y );
    }

    std::string show( const Node& x, size_t max )
    {
        sim::Rng    r( 1 );
        std::string s = render( x, Style(), r );
        if ( s.size() > max )
            s = s.substr( 0, max ) + "...";
        return s;
    }

    void lineCol( const std::string& t, size_t off, int& line, int& col )
    {
        line = 1;
        col  = 1;
        for ( size_t i = 0; i < off && i < t.size(); i++ )
        {
            if ( t[ i ] == '\n' )
            {
                line++;
                col = 1;
            }
            else
                col++;
        }
    }

    // ------------------------------------------------------------------ parser
    namespace
    {
        struct P
        {
            const std::string& t;
            size_t             p = 0;
            Result             r;
            int                depth = 0;
            explicit P( const std::string& x ) : t( x ) {}

            int  at( size_t i ) const { return i < t.size() ? int( uint8_t( t[ i ] ) ) : -1; }
            bool fail( Err e, size_t off, size_t tok )
            {
                r.err = e;
                r.off = off;
                r.tok = tok;
                return false;
            }
            void ws()
            {
                while ( p < t.size() && ( t[ p ] == ' ' || t[ p ] == '\t' || t[ p ] == '\n' || t[ p ] == '\r' ) )
                    p++;
            }
            // length of a well-formed UTF-8 sequence at i; 0 malformed; negative: surrogate code point (latitude)
            int utf8( size_t i )
            {
                int c = at( i );
                if ( c < 0x80 )
                    return 1;
                int n = c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
                if ( !n )
                    return 0;
                unsigned x = unsigned( c ) & ( 0xFFu >> ( n + 1 ) );
                for ( int k = 1; k < n; k++ )
                {
                    int d = at( i + size_t( k ) );
                    if ( d < 0x80 || d > 0xBF )
                        return 0;
                    x = x << 6 | unsigned( d & 0x3F );
                }
                if ( ( n == 3 && x < 0x800 ) || ( n == 4 && ( x < 0x10000 || x > 0x10FFFF ) ) )
                    return 0;
                if ( x >= 0xD800 && x <= 0xDFFF )
                    return -n;
                return n;
            }
            static void put( std::string& o, unsigned c )
            {
                if ( c < 0x80 )
                    o += char( c );
                else if ( c < 0x800 )
                {
                    o += char( 0xC0 | c >> 6 );
                    o += char( 0x80 | ( c & 63 ) );
                }
                else if ( c < 0x10000 )
                {
                    o += char( 0xE0 | c >> 12 );
                    o += char( 0x80 | ( c >> 6 & 63 ) );
                    o += char( 0x80 | ( c & 63 ) );
                }
                else
                {
                    o += char( 0xF0 | c >> 18 );
                    o += char( 0x80 | ( c >> 12 & 63 ) );
                    o += char( 0x80 | ( c >> 6 & 63 ) );
                    o += char( 0x80 | ( c & 63 ) );
                }
            }
            bool hex4( size_t i, unsigned& v, size_t& bad )
            {
                v = 0;
                for ( size_t k = 0; k < 4; k++ )
                {
                    int c = at( i + k );
                    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
                    if ( d < 0 )
                    {
                        bad = i + k;
                        return false;
                    }
                    v = v * 16 + unsigned( d );
                }
                return true;
            }
            bool string( std::string& o )
            {
                size_t q = p++;
                for ( ;; )
                {
                    int c = at( p );
                    if ( c < 0 )
                        return fail( E_STR_END, p, q );
                    if ( c == '"' )
                    {
                        p++;
                        return true;
                    }
                    if ( c < 32 )
                        return fail( E_STR_CHAR, p, q );
                    if ( c == 127 )
                        r.del = true;
                    if ( c == '\\' )
                    {
                        int e = at( p + 1 );
                        switch ( e )
                        {
                            case '"': case '\\': case '/': o += char( e ); p += 2; break;
                            case 'b': o += '\b'; p += 2; break;
                            case 'f': o += '\f'; p += 2; break;
                            case 'n': o += '\n'; p += 2; break;
                            case 'r': o += '\r'; p += 2; break;
                            case 't': o += '\t'; p += 2; break;
                            case 'u':
                            {
                                unsigned u, l;
                                size_t   bad;
                                if ( !hex4( p + 2, u, bad ) )
                                    return fail( E_STR_ESC, bad, q );
                                p += 6;
                                if ( u == 0 )
                                    r.nulEsc = true;
                                if ( u >= 0xD800 && u <= 0xDBFF && at( p ) == '\\' && at( p + 1 ) == 'u' && hex4( p + 2, l, bad ) && l >= 0xDC00 && l <= 0xDFFF )
                                {
                                    p += 6;
                                    u = 0x10000 + ( ( u - 0xD800 ) << 10 ) + ( l - 0xDC00 );
                                }
                                else if ( u >= 0xD800 && u <= 0xDFFF )
                                    r.lone = true;
                                put( o, u );
                                break;
                            }
                            default: return fail( E_STR_ESC, p + 1, q );
                        }
                        continue;
                    }
                    int n = utf8( p );
                    if ( n == 0 )
                    {
                        size_t k = p + 1; // first byte that cannot continue the sequence
                        return fail( E_STR_CHAR, k > t.size() ? t.size() : p, q );
                    }
                    if ( n < 0 )
                    {
                        r.utfCorner = true;
                        n           = -n;
                    }
                    o.append( t, p, size_t( n ) );
                    p += size_t( n );
                }
            }
            bool dig( size_t i ) const { return at( i ) >= '0' && at( i ) <= '9'; }
            bool number( Node& v )
            {
                size_t s = p, i = p;
                if ( at( i ) == '-' )
                    i++;
                if ( !dig( i ) )
                    return fail( i == s ? E_VALUE : E_NUM, i, s );
                if ( at( i ) == '0' )
                {
                    if ( dig( i + 1 ) )
                        return fail( E_NUM_ZERO, i + 1, s );
                    i++;
                }
                else
                    while ( dig( i ) )
                        i++;
                if ( at( i ) == '.' )
                {
                    i++;
                    if ( !dig( i ) )
                        return fail( E_NUM, i, s );
                    while ( dig( i ) )
                        i++;
                }
                if ( at( i ) == 'e' || at( i ) == 'E' )
                {
                    i++;
                    if ( at( i ) == '+' || at( i ) == '-' )
                        i++;
                    if ( !dig( i ) )
                        return fail( E_NUM, i, s );
                    while ( dig( i ) )
                        i++;
                }
                v.t = Num;
                v.n = strtod_l( t.substr( s, i - s ).c_str(), nullptr, cLocale() );
                if ( !std::isfinite( v.n ) )
                    r.huge = true;
                // characters a number token could be expected to swallow directly after it
                int c = at( i );
                if ( c == '.' || c == '+' || c == '-' || c == 'e' || c == 'E' )
                    return fail( E_NUM, i, s );
                p = i;
                return true;
            }
            bool lit( const char* w, Node& v, Type ty, bool b )
            {
                size_t n = strlen( w );
                for ( size_t k = 0; k < n; k++ )
                    if ( at( p + k ) != w[ k ] )
                        return fail( E_VALUE, p + k, p );
                p += n;
                v.t = ty;
                v.b = b;
                return true;
            }
            bool value( Node& v )
            {
                switch ( at( p ) )
                {
                    case '"': v.t = Str; return string( v.s );
                    case 't': return lit( "true", v, Bool, true );
                    case 'f': return lit( "false", v, Bool, false );
                    case 'n': return lit( "null", v, Null, false );
                    case '[':
                    {
                        v.t = Arr;
                        if ( ++depth > r.depth )
                            r.depth = depth;
                        if ( depth > 2000 )
                            return fail( E_VALUE, p, p );
                        p++;
                        ws();
                        if ( at( p ) == ']' )
                        {
                            p++;
                            depth--;
                            return true;
                        }
                        for ( ;; )
                        {
                            v.a.emplace_back();
                            if ( !value( v.a.back() ) )
                                return false;
                            ws();
                            if ( at( p ) == ']' )
                            {
                                p++;
                                depth--;
                                return true;
                            }
                            if ( at( p ) != ',' )
                                return fail( E_COMMA_ARR, p, p );
                            p++;
                            ws();
                            if ( at( p ) == ']' )
                                return fail( E_TRAIL_COMMA, p, p );
                        }
                    }
                    case '{':
                    {
                        v.t = Obj;
                        if ( ++depth > r.depth )
                            r.depth = depth;
                        if ( depth > 2000 )
                            return fail( E_VALUE, p, p );
                        p++;
                        ws();
                        if ( at( p ) == '}' )
                        {
                            p++;
                            depth--;
                            return true;
                        }
                        for ( ;; )
                        {
                            if ( at( p ) != '"' )
                                return fail( E_NAME, p, p );
                            std::string k;
                            if ( !string( k ) )
                                return false;
                            ws();
                            if ( at( p ) != ':' )
                                return fail( E_COLON, p, p );
                            p++;
                            ws();
                            v.m.emplace_back( std::move( k ), Node() );
                            if ( !value( v.m.back().second ) )
                                return false;
                            ws();
                            if ( at( p ) == '}' )
                            {
                                p++;
                                depth--;
                                break;
                            }
                            if ( at( p ) != ',' )
                                return fail( E_COMMA_OBJ, p, p );
                            p++;
                            ws();
                            if ( at( p ) == '}' )
                                return fail( E_TRAIL_COMMA, p, p );
                        }
                        if ( v.m.size() > 1 )
                        {
                            auto s = sorted( v );
                            for ( size_t i = 1; i < s.size(); i++ )
                                if ( s[ i ]->first == s[ i - 1 ]->first )
                                    r.dup = true;
                        }
                        return true;
                    }
                    default: return number( v );
                }
            }
        };
    } // namespace

    Result parse( const std::string& text )
    {
        P q( text );
        q.r.nulByte = text.find( '\0' ) != std::string::npos;
        if ( text.compare( 0, 3, "\xEF\xBB\xBF" ) == 0 )
        {
            q.r.bom = true;
            q.p     = 3;
        }
        q.ws();
        if ( q.p >= text.size() )
        {
            q.fail( E_EMPTY, text.size(), text.size() );
            return q.r;
        }
        if ( !q.value( q.r.v ) )
        {
            q.r.v = Node();
            return q.r;
        }
        q.ws();
        if ( q.p < text.size() )
        {
            q.fail( E_TRAILING, q.p, q.p );
            q.r.v = Node();
            return q.r;
        }
        q.r.ok = true;
        return q.r;
    }

    // ------------------------------------------------------------------ rendering
    static void wsp( std::string& o, const Style& st, sim::Rng& r, int depth, bool brk )
    {
        if ( st.ws == 1 )
            o += ' ';
        else if ( st.ws == 2 && brk )
        {
            o += '\n';
            o.append( size_t( depth ) * 2, ' ' );
        }
        else if ( st.ws == 3 )
        {
            int n = int( r.below( 3 ) );
            for ( int i = 0; i < n; i++ )
            {
                static const char* k[] = { " ", "\n", "\t", "\r\n", "  ", "\n\n" };
                o += k[ r.below( 6 ) ];
            }
        }
    }
    static void str( std::string& o, const std::string& s, const Style& st, sim::Rng& r )
    {
        o += '"';
        char b[ 16 ];
        for ( size_t i = 0; i < s.size(); i++ )
        {
            unsigned char c = (unsigned char)s[ i ];
            if ( c >= 0x80 )
            {
                int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
                if ( st.escapes && r.chance( 0.5 ) && i + size_t( n ) <= s.size() )
                {
                    unsigned x = c & ( 0xFFu >> ( n + 1 ) );
                    for ( int k = 1; k < n; k++ )
                        x = x << 6 | ( (unsigned char)s[ i + size_t( k ) ] & 63u );
                    if ( x >= 0x10000 )
                        snprintf( b, sizeof b, r.chance( 0.5 ) ? "\\u%04x\\u%04X" : "\\u%04X\\u%04x", 0xD800 + ( ( x - 0x10000 ) >> 10 ), 0xDC00 + ( ( x - 0x10000 ) & 0x3FF ) );
                    else
                        snprintf( b, sizeof b, r.chance( 0.5 ) ? "\\u%04x" : "\\u%04X", x );
                    o += b;
                }
                else
                    o.append( s, i, size_t( n ) );
                i += size_t( n ) - 1;
                continue;
            }
            const char* sh = nullptr;
            switch ( c )
            {
                case '"': sh = "\\\""; break;
                case '\\': sh = "\\\\"; break;
                case '\b': sh = "\\b"; break;
                case '\f': sh = "\\f"; break;
                case '\n': sh = "\\n"; break;
                case '\r': sh = "\\r"; break;
                case '\t': sh = "\\t"; break;
                case '/': sh = st.escapes && r.chance( 0.5 ) ? "\\/" : nullptr; break;
                default: break;
            }
            if ( ( c < 32 || c == 127 ) && ( !sh || ( st.escapes && r.chance( 0.3 ) ) ) )
            {
                snprintf( b, sizeof b, r.chance( 0.5 ) ? "\\u%04x" : "\\u%04X", c );
                o += b;
            }
            else if ( sh )
                o += sh;
            else if ( st.escapes && r.chance( 0.08 ) )
            {
                snprintf( b, sizeof b, "\\u%04x", c );
                o += b;
            }
            else
                o += char( c );
        }
        o += '"';
    }
    static void num( std::string& o, double d, const Style& st, sim::Rng& r )
    {
        char     b[ 64 ];
        locale_t old = uselocale( cLocale() );
        if ( st.numForms && std::isfinite( d ) )
        {
            switch ( r.below( 5 ) )
            {
                case 0: snprintf( b, sizeof b, "%.17e", d ); break;
                case 1: snprintf( b, sizeof b, "%.17E", d ); break;
                case 2:
                    if ( std::fabs( d ) < 1e15 && d == std::floor( d ) )
                        snprintf( b, sizeof b, "%.1f", d );
                    else
                        snprintf( b, sizeof b, "%.20e", d );
                    break;
                case 3:
                    if ( std::fabs( d ) < 1e15 && d == std::floor( d ) )
                        snprintf( b, sizeof b, "%.0fe0", d );
                    else
                        snprintf( b, sizeof b, "%.18g", d );
                    break;
                default: snprintf( b, sizeof b, "%.17g", d ); break;
            }
        }
        else
            snprintf( b, sizeof b, "%.17g", d );
        uselocale( old );
        if ( b[ 0 ] == 'i' || b[ 0 ] == 'n' || b[ 1 ] == 'i' || b[ 1 ] == 'n' )
            snprintf( b, sizeof b, d < 0 ? "-1e999" : "1e999" );
        o += b;
    }
    static void rend( std::string& o, const Node& v, const Style& st, sim::Rng& r, int d )
    {
        switch ( v.t )
        {
            case Null: o += "null"; break;
            case Bool: o += v.b ? "true" : "false"; break;
            case Num: num( o, v.n, st, r ); break;
            case Str: str( o, v.s, st, r ); break;
            case Arr:
                o += '[';
                for ( size_t i = 0; i < v.a.size(); i++ )
                {
                    if ( i )
                        o += ',';
                    wsp( o, st, r, d + 1, true );
                    rend( o, v.a[ i ], st, r, d + 1 );
                    if ( st.ws == 3 )
                        wsp( o, st, r, d, false );
                }
                wsp( o, st, r, d, true );
                o += ']';
                break;
            case Obj:
                o += '{';
                for ( size_t i = 0; i < v.m.size(); i++ )
                {
                    if ( i )
                        o += ',';
                    wsp( o, st, r, d + 1, true );
                    str( o, v.m[ i ].first, st, r );
                    wsp( o, st, r, d, false );
                    o += ':';
                    wsp( o, st, r, d, false );
                    rend( o, v.m[ i ].second, st, r, d + 1 );
                    if ( st.ws == 3 )
                        wsp( o, st, r, d, false );
                }
                wsp( o, st, r, d, true );
                o += '}';
                break;
        }
    }
    std::string render( const Node& v, const Style& st, sim::Rng& r )
    {
        std::string o;
        for ( int i = 0; i < st.lead; i++ )
            o += " \n\t\n"[ r.below( 4 ) ];
        rend( o, v, st, r, 0 );
        for ( int i = 0; i < st.trail; i++ )
            o += " \n\t\r"[ r.below( 4 ) ];
        return o;
    }

    // ------------------------------------------------------------------ generation
    static void cp( std::string& o, unsigned c )
    {
        P::put( o, c );
    }
    static std::string chars( int n, bool weird, sim::Rng& r )
    {
        std::string o;
        int         mode = weird ? int( r.below( 6 ) ) : 0;
        while ( int( o.size() ) < n )
        {
            switch ( mode )
            {
                case 0: o += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.,:;[]{}()/+#"[ r.below( 78 ) ]; break;
                case 1: o += "\"\\/\b\f\n\r\tax"[ r.below( 10 ) ]; break;
                case 2: o += char( 1 + r.below( 31 ) ); break;
                case 3: o += char( 1 + r.below( 127 ) ); break;
                case 4:
                {
                    static const unsigned c[] = { 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xE9, 0x20AC, 0x1F600, 0xD7FF, 0xE000, 0xFFFD, 0xA0, 0x2028, 0x85, 0xFEFF, 0x7F, 0x3B1 };
                    cp( o, c[ r.below( 18 ) ] );
                    break;
                }
                default:
                {
                    unsigned x = unsigned( r.below( r.chance( 0.5 ) ? 0x300 : 0x110000 ) );
                    if ( x == 0 || ( x >= 0xD800 && x <= 0xDFFF ) )
                        x = 'q';
                    cp( o, x );
                }
            }
            if ( weird && r.chance( 0.15 ) )
                mode = int( r.below( 6 ) );
        }
        return o;
    }
    static int len( sim::Rng& r, bool longOnes )
    {
        static const int edge[] = { 0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 18, 23, 24, 28, 29, 30, 31, 32, 33, 60, 61, 63, 64, 65, 124, 127, 128, 129, 255, 256, 257 };
        if ( longOnes && r.chance( 0.1 ) )
            return r.range( 300, 3000 );
        if ( r.chance( 0.6 ) )
            return r.range( 0, 20 );
        return edge[ r.below( sizeof edge / sizeof *edge ) ];
    }
    std::string genString( const Gen& g, sim::Rng& r )
    {
        return chars( len( r, g.longStr ), g.weirdStr && r.chance( 0.5 ), r );
    }
    std::string genName( const Gen& g, sim::Rng& r )
    {
        if ( r.chance( 0.1 ) )
        {
            static const char* k[] = { "", "a", "name", "data", "a b", "A", "aa", "ab", "b", "key", "value", "x", "0", "00", "sixteen_chars_xx", "fifteen_chars_x" };
            return k[ r.below( 16 ) ];
        }
        int n = r.chance( 0.8 ) ? r.range( 1, 12 ) : len( r, false );
        return chars( n, g.weirdStr && r.chance( 0.35 ), r );
    }
    double genNumber( sim::Rng& r )
    {
        static const double special[] = { 0.0, -0.0, 1, -1, 0.1, 0.2, 0.3, 1e21, 1e22, 1e23, 123456789012345678.0, 9007199254740991.0, 9007199254740993.0, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -5e-324, 2.225073858507201e-308, 1e-7, 1e16, 1e17, 1e15, 4.35, 0.5, 100, 255, 1e5, 1e-5, 3.141592653589793, 1.0 / 3, 2.0 / 3, 65535, 65536, 4294967296.0 };
        switch ( r.below( 6 ) )
        {
            case 0: return special[ r.below( sizeof special / sizeof *special ) ];
            case 1: return double( r.range( -1000, 1000 ) );
            case 2: return double( int64_t( r.next() ) );
            case 3: return double( r.range( -100000, 100000 ) ) / 1000.0;
            case 4: return std::ldexp( double( r.next() >> 11 ), r.range( -120, 60 ) );
            default:
            {
                uint64_t b = r.next();
                double   d;
                memcpy( &d, &b, sizeof d );
                return std::isfinite( d ) ? d : 42.25;
            }
        }
    }
    static Node gen( const Gen& g, sim::Rng& r, int depth, int& budget, bool container )
    {
        Node v;
        budget--;
        bool leaf = depth >= g.maxDepth || budget <= 0;
        int  k    = container ? 5 + int( r.below( 2 ) ) : leaf ? int( r.below( 5 ) ) : int( r.below( 9 ) );
        if ( leaf && container )
            k = 5 + int( r.below( 2 ) );
        if ( k == 7 )
            k = 5;
        if ( k == 8 )
            k = 6;
        switch ( k )
        {
            case 0: v.t = Null; break;
            case 1: v.t = Bool; v.b = r.chance( 0.5 ); break;
            case 2:
                v.t = Num;
                v.n = g.plainNum ? double( r.range( -99, 999 ) ) : genNumber( r );
                break;
            case 3: case 4: v.t = Str; v.s = genString( g, r ); break;
            case 5:
            {
                v.t   = Arr;
                int n = leaf ? 0 : r.chance( 0.12 ) ? 0 : r.range( 1, 6 );
                if ( !leaf && g.manyKeys && r.chance( 0.15 ) )
                    n = r.range( 10, 80 );
                for ( int i = 0; i < n && budget > 0; i++ )
                    v.a.push_back( gen( g, r, depth + 1, budget, false ) );
                break;
            }
            default:
            {
                v.t   = Obj;
                int n = leaf ? 0 : r.chance( 0.12 ) ? 0 : r.range( 1, 6 );
                std::vector<std::string> keys;
                if ( !leaf && g.manyKeys && depth <= 1 && r.chance( 0.4 ) )
                {
                    n         = r.range( 8, 90 );
                    int order = int( r.below( 5 ) );
                    for ( int i = 0; i < n; i++ )
                    {
                        char b[ 32 ];
                        int  x = order == 0 ? i : order == 1 ? n - i : order == 2 ? int( r.below( 1000 ) ) : order == 3 ? ( i % 2 ? n + i : n - i ) : ( i * 37 ) % 101;
                        snprintf( b, sizeof b, order == 4 ? "k%d" : "k%03d", x );
                        keys.push_back( b );
                    }
                    budget += depth == 0 ? n : 0;
                }
                else
                    for ( int i = 0; i < n; i++ )
                        keys.push_back( genName( g, r ) );
                for ( auto& key : keys )
                {
                    if ( v.find( key ) )
                        continue;
                    Node c = keys.size() > 7 && r.chance( 0.9 ) ? Node() : gen( g, r, depth + 1, budget, false );
                    if ( c.t == Null && keys.size() > 7 )
                    {
                        c.t = Num;
                        c.n = double( v.m.size() );
                    }
                    v.m.emplace_back( key, std::move( c ) );
                }
            }
        }
        return v;
    }
    Node generate( const Gen& g, sim::Rng& r )
    {
        int budget = g.maxNodes;
        return gen( g, r, 0, budget, g.container );
    }
} // namespace ref
