// Run generation: for every property a family of operation histories, and the placement of faults on the
// calls an operation is known (from the fault-free run of the same history) to make.
#include "adapter.h"
#include "plan.h"
#include <algorithm>
#include <cerrno>
#include <functional>

using namespace sim;
using ref::Node;

namespace
{
    std::string S( long n ) { return std::to_string( n ); }
    Op          op( std::initializer_list<std::string> a )
    {
        Op o;
        o.a = a;
        return o;
    }
    template <class... A>
    void add( Plan& p, A... a )
    {
        p.push_back( op( { std::string( a )... } ) );
    }

    ref::Style style( Rng& r )
    {
        ref::Style s;
        s.ws       = int( r.below( 4 ) );
        s.escapes  = r.chance( 0.4 );
        s.numForms = r.chance( 0.4 );
        if ( r.chance( 0.25 ) )
            s.lead = r.range( 1, 4 );
        if ( r.chance( 0.25 ) )
            s.trail = r.range( 1, 4 );
        return s;
    }
    std::string compact( const Node& n )
    {
        Rng        r( 1 );
        ref::Style s;
        return ref::render( n, s, r );
    }
    Node num( double d )
    {
        Node n;
        n.t = ref::Num;
        n.n = d;
        return n;
    }
    Node str( const std::string& s )
    {
        Node n;
        n.t = ref::Str;
        n.s = s;
        return n;
    }

    // documents of different characters
    Node document( Rng& r, bool container = false )
    {
        ref::Gen g;
        switch ( r.below( 9 ) )
        {
            case 0: // number heavy
            {
                Node a;
                a.t = ref::Arr;
                for ( int i = r.range( 1, 40 ); i > 0; i-- )
                    a.a.push_back( num( ref::genNumber( r ) ) );
                return a;
            }
            case 1: // string heavy
            {
                g.longStr = r.chance( 0.3 );
                Node o;
                o.t = r.chance( 0.5 ) ? ref::Obj : ref::Arr;
                for ( int i = r.range( 1, 14 ); i > 0; i-- )
                {
                    if ( o.t == ref::Arr )
                        o.a.push_back( str( ref::genString( g, r ) ) );
                    else
                    {
                        std::string k = ref::genName( g, r );
                        if ( !o.find( k ) )
                            o.m.emplace_back( k, str( ref::genString( g, r ) ) );
                    }
                }
                return o;
            }
            case 2: // many members
                g.manyKeys = true;
                g.maxNodes = 120;
                return ref::generate( g, r );
            case 3: // nested
            {
                Node n;
                n = num( 7 );
                for ( int i = r.range( 3, r.chance( 0.1 ) ? 400 : 30 ); i > 0; i-- )
                {
                    Node o;
                    o.t = r.chance( 0.5 ) ? ref::Obj : ref::Arr;
                    if ( o.t == ref::Arr )
                        o.a.push_back( std::move( n ) );
                    else
                        o.m.emplace_back( r.chance( 0.8 ) ? "k" : ref::genName( g, r ), std::move( n ) );
                    n = std::move( o );
                }
                return n;
            }
            case 4: // a bare value
                if ( !container )
                {
                    g.container = false;
                    g.maxNodes  = 1;
                    return ref::generate( g, r );
                }
                return ref::generate( g, r );
            case 5:
                g.maxNodes = r.range( 60, 250 );
                g.maxDepth = 9;
                return ref::generate( g, r );
            case 6: // small and plain
                g.maxNodes = 8;
                g.weirdStr = false;
                g.plainNum = true;
                return ref::generate( g, r );
            default:
                g.container = container || r.chance( 0.9 );
                return ref::generate( g, r );
        }
    }
    std::string renderDoc( const Node& n, Rng& r )
    {
        ref::Style s = style( r );
        if ( s.ws == 2 && n.depth() > 20 )
            s.ws = 0;
        return ref::render( n, s, r );
    }
    // repeats member names (of objects at any depth), with other values
    void repeatNames( Node& n, Rng& r )
    {
        static const std::vector<std::string> usual { "", "a", "name", "key", "a longer name than fits inside" };
        std::vector<Node*> objs, todo { &n };
        while ( !todo.empty() )
        {
            Node* x = todo.back();
            todo.pop_back();
            if ( x->t == ref::Obj )
                objs.push_back( x );
            for ( auto& e : x->a )
                todo.push_back( &e );
            for ( auto& e : x->m )
                todo.push_back( &e.second );
        }
        if ( objs.empty() )
            return;
        Node& o = *objs[ r.below( objs.size() ) ];
        for ( int k = r.chance( 0.7 ) ? 1 : r.range( 2, 5 ); k > 0; k-- )
        {
            std::string name = !o.m.empty() && r.chance( 0.7 ) ? o.m[ r.below( o.m.size() ) ].first : r.pick( usual );
            for ( int j = o.find( name ) ? 1 : 2; j > 0; j-- )
            {
                ref::Gen g;
                g.maxNodes  = 4;
                g.container = false;
                auto v      = ref::generate( g, r );
                o.m.insert( o.m.begin() + long( r.below( o.m.size() + 1 ) ), { name, v } );
            }
        }
    }
    std::string text( Rng& r, bool container = false )
    {
        Node n = document( r, container );
        if ( r.chance( 0.04 ) )
            repeatNames( n, r );
        return renderDoc( n, r );
    }

    void putBig( Plan& p, const std::string& path, Rng& r )
    {
        static const std::vector<int> edge { 65533, 65534, 65535, 65536, 65537, 131072, 4095, 4096, 4097, 8192, 32767, 32768, 60000 };
        static const std::vector<std::string> modes { "ws", "wslead", "str", "nums" };
        if ( r.chance( 0.25 ) ) // sizes whose low bits look small
        {
            static const std::vector<int> bits { 16, 17, 18, 20, 24, 31, 32, 33, 40, 48 };
            std::string t = text( r, true );
            int         b = r.pick( bits );
            long        n = ( 1L << b ) * r.range( 1, 3 ) + ( r.chance( 0.5 ) ? 0 : r.range( -3, 60 ) );
            add( p, "put", path, t );
            if ( b <= 18 && r.chance( 0.5 ) )
                add( p, "pad", path, S( n + long( t.size() ) ), r.chance( 0.7 ) ? "ws" : r.pick( modes ) );
            else if ( n > 65534 )
                add( p, "tail", path, S( n ) );
            return;
        }
        add( p, "put", path, text( r, true ) );
        add( p, "pad", path, S( r.pick( edge ) + ( r.chance( 0.2 ) ? r.range( 0, 300 ) : 0 ) ), r.pick( modes ) );
    }

    // ------------------------------------------------------------ text damage
    std::string mutate( std::string t, Rng& r, int edits )
    {
        static const std::vector<std::string> tok { "0", "1", "9", "-", "+", ".", "e", "E", ",", ":", "[", "]", "{", "}", "\"", "\\", "u", "/", "true", "false", "null", "tru", "nul", "NaN", "Infinity", "0x1", "00", "01", "-0", "-01",
                                                    "1.", ".5", "1e", "1e+", "1e5", "1E-3", "-", "--1", "1.5.2", "\\u", "\\uD800", "\\uDC00", "\\uD83D\\uDE00", "\\u12", "\\u00e9", "\\u0000", "\\x", "\\n", "\\/", "\x01", "\x1f", "\x7f", "\xc3\xa9",
                                                    "\xc0", "\xff", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", " ", "\t", "\n", "\r", "\x0c", "\x0b", "\xa0", "//", "/*", "*/", "'", "'a'", "\"a\"", "\"\"", "[]", "{}", "\"a\":1", "{\"a\":1}", "[1]", "1,", ",1", "#", ";", "=", "TRUE", "True", "None", "undefined", "1e400", "1e-400", "12345678901234567890" };
        for ( int i = 0; i < edits; i++ )
        {
            size_t pos = size_t( r.below( t.size() + 1 ) );
            // prefer structural places
            if ( r.chance( 0.5 ) && !t.empty() )
                for ( int k = 0; k < 12; k++ )
                {
                    size_t q = size_t( r.below( t.size() ) );
                    if ( std::string( "{}[],:\"\\-0123456789.eEtfn" ).find( t[ q ] ) != std::string::npos )
                    {
                        pos = q;
                        break;
                    }
                }
            switch ( r.below( 9 ) )
            {
                case 0:
                case 1:
                    t.insert( pos, r.pick( tok ) );
                    break;
                case 2:
                    if ( pos < t.size() )
                    {
                        std::string k = r.pick( tok );
                        t.replace( pos, std::min( k.size(), t.size() - pos ), k );
                    }
                    break;
                case 3:
                case 4:
                    if ( pos < t.size() )
                        t.erase( pos, size_t( r.range( 1, r.chance( 0.8 ) ? 1 : 6 ) ) );
                    break;
                case 5: t.resize( pos ); break;
                case 6:
                    if ( pos < t.size() )
                        t[ pos ] = char( t[ pos ] ^ ( 1 << r.below( 8 ) ) );
                    break;
                case 7: t.insert( pos, t.substr( pos, size_t( r.range( 1, 5 ) ) ) ); break;
                default: t.insert( pos, 1, "{}[],:\"0-"[ r.below( 9 ) ] ); break;
            }
        }
        return t;
    }
    std::string numberText( Rng& r ) // number-like tokens, right and wrong
    {
        std::string s;
        if ( r.chance( 0.4 ) )
            s += '-';
        if ( r.chance( 0.05 ) )
            s += "+-."[ r.below( 3 ) ];
        auto digits = [ & ]( int lo, int hi ) {
            for ( int k = r.range( lo, hi ); k > 0; k-- )
                s += char( '0' + r.below( 10 ) );
        };
        if ( r.chance( 0.25 ) )
            s += '0';
        if ( r.chance( 0.7 ) )
            digits( 1, r.chance( 0.1 ) ? 40 : 5 );
        if ( r.chance( 0.5 ) )
        {
            s += '.';
            digits( r.chance( 0.1 ) ? 0 : 1, r.chance( 0.1 ) ? 30 : 6 );
        }
        if ( r.chance( 0.4 ) )
        {
            s += "eE"[ r.below( 2 ) ];
            if ( r.chance( 0.6 ) )
                s += "+-"[ r.below( 2 ) ];
            digits( r.chance( 0.1 ) ? 0 : 1, r.chance( 0.1 ) ? 5 : 2 );
        }
        if ( r.chance( 0.05 ) )
            s += "xfL,e."[ r.below( 6 ) ];
        return s;
    }
    std::string stringText( Rng& r ) // string tokens rich in escapes, right and wrong
    {
        std::string s = "\"";
        static const std::vector<std::string> part { "a", "bc", "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\\uDBFF\\uDFFF", "\\uD800\\uDC00", "\\u07ff", "\\u0800", "\\uffff", "\\u007f", "\\u0080", "\\u0001", "\\uFEFF", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/", " ", "'" };
        static const std::vector<std::string> wrong { "\\", "\\u12", "\\u", "\\uzzzz", "\\u12g4", "\\x41", "\\a", "\\'", "\\0", "\\U0041", "\n", "\t", "\x01", "\x1f", "\xff", "\xc3", "\xe2\x82", "\\ud83d", "\\ude00", "\\ud83dx", "\\ud83d\\u0041", "\\ud83d\\", "\xc0\x80", "\xed\xa0\x80", "\xf5\x80\x80\x80" };
        for ( int k = r.range( 0, 8 ); k > 0; k-- )
            s += r.pick( part );
        if ( r.chance( 0.2 ) ) // an escape of which one character may be anything
        {
            static const std::vector<std::string> edge { "d7ff", "D800", "d801", "dBFE", "dbff", "dc00", "DFFF", "dffe", "e000", "E001", "0000", "007f", "0080", "07FF", "0800", "fffd", "ffff" };
            std::string h = r.chance( 0.3 ) ? "\\ud8" : "\\u";
            if ( r.chance( 0.5 ) )
                h = "\\u" + r.pick( edge );
            while ( h.size() < 6 )
                h += "0123456789abcdefABCDEF"[ r.below( 22 ) ];
            if ( ( h[ 2 ] == 'd' || h[ 2 ] == 'D' ) && r.chance( 0.8 ) )
                h += r.chance( 0.3 ) ? std::string( "\\udc00" ) : "\\u" + r.pick( edge );
            if ( r.chance( 0.4 ) )
                h[ r.range( 1, int( h.size() ) - 1 ) ] = char( r.chance( 0.8 ) ? r.range( 32, 126 ) : r.range( 1, 255 ) );
            s += h;
        }
        else if ( r.chance( 0.12 ) ) // a backslash before anything
        {
            s += '\\';
            s += char( r.chance( 0.8 ) ? r.range( 32, 126 ) : r.range( 1, 255 ) );
        }
        else if ( r.chance( 0.12 ) ) // up to four arbitrary bytes of which the first starts a sequence
        {
            s += char( r.range( 0xC0, 0xFF ) );
            for ( int k = r.range( 0, 3 ); k > 0; k-- )
                s += char( r.chance( 0.9 ) ? r.range( 0x80, 0xBF ) : r.range( 1, 255 ) );
        }
        else if ( r.chance( 0.05 ) ) // any byte
            s += char( r.range( 1, 255 ) );
        else if ( r.chance( 0.35 ) )
            s += r.pick( wrong );
        for ( int k = r.range( 0, 4 ); k > 0; k-- )
            s += r.pick( part );
        if ( !r.chance( 0.06 ) )
            s += '"';
        return s;
    }
    std::string damagedText( Rng& r )
    {
        int k = int( r.below( 10 ) );
        if ( k < 2 )
        {
            std::string n = numberText( r );
            switch ( r.below( 4 ) )
            {
                case 0: return n;
                case 1: return "[" + n + "]";
                case 2: return "[1," + n + ",2]";
                default: return "{\"a\":" + n + "}";
            }
        }
        if ( k < 4 )
        {
            std::string n = stringText( r );
            switch ( r.below( 4 ) )
            {
                case 0: return n;
                case 1: return "[" + n + "]";
                case 2: return "{" + n + ":1}";
                default: return "{\"a\":" + n + ",\"b\":2}";
            }
        }
        ref::Gen g;
        g.maxNodes = r.range( 2, 14 );
        g.weirdStr = r.chance( 0.4 );
        std::string t;
        if ( r.chance( 0.2 ) )
            t = text( r );
        else
        {
            Node n = ref::generate( g, r );
            if ( r.chance( 0.12 ) )
                repeatNames( n, r );
            t = ref::render( n, style( r ), r );
        }
        return mutate( t, r, r.chance( 0.05 ) ? 0 : r.chance( 0.7 ) ? 1 : r.range( 2, 4 ) );
    }
    void damage( Plan& p, const std::string& f, Rng& r )
    {
        std::string x = S( long( r.below( 1 << 20 ) ) );
        switch ( r.below( 8 ) )
        {
            case 0:
            case 1: add( p, "flip", f, x, S( r.range( 0, 7 ) ) ); break;
            case 2: add( p, "cut", f, x ); break;
            case 3: add( p, "zero", f, x, S( r.chance( 0.5 ) ? 1 : r.range( 1, 512 ) ) ); break;
            case 4: add( p, "dup", f, x, S( r.range( 1, 30 ) ) ); break;
            case 5: add( p, "swap", f, x, S( r.range( 1, 20 ) ) ); break;
            case 6: add( p, "erase", f, x, S( r.range( 1, 20 ) ) ); break;
            default: add( p, "fill", f, x, text( r ).substr( 0, size_t( r.range( 1, 40 ) ) ) ); break;
        }
    }

    // ------------------------------------------------------------ paths into known documents
    std::string pathTo( const Node& root, Rng& r, const std::function<bool( const Node& )>& pred, const Node** hit )
    {
        std::vector<std::pair<std::string, const Node*>> c;
        std::function<void( const Node&, const std::string& )> go = [ & ]( const Node& n, const std::string& p ) {
            if ( c.size() > 200 )
                return;
            if ( pred( n ) )
                c.emplace_back( p, &n );
            for ( size_t i = 0; i < n.a.size(); i++ )
                go( n.a[ i ], p + "." + S( long( i ) ) );
            for ( size_t i = 0; i < n.m.size(); i++ )
                go( n.m[ i ].second, p + "." + S( long( i ) ) );
        };
        go( root, "" );
        if ( c.empty() )
        {
            *hit = nullptr;
            return ".";
        }
        auto& x = c[ r.below( c.size() ) ];
        *hit    = x.second;
        return x.first.empty() ? "." : x.first;
    }

    void addSome( Plan& p, const std::string& d, Node& model, Rng& r )
    {
        const Node* hit;
        std::string path = pathTo( model, r, []( const Node& n ) { return n.t == ref::Obj || n.t == ref::Arr; }, &hit );
        if ( r.chance( 0.05 ) )
            path = pathTo( model, r, []( const Node& ) { return true; }, &hit );
        int t;
        do
            t = int( r.below( uint64_t( lib::typeCount() ) ) );
        while ( !lib::typeNestable( t ) );
        if ( r.chance( 0.6 ) )
            t = int( r.below( 5 ) );
        Node        v = lib::typeGen( t, r, r.chance( 0.02 ) );
        ref::Gen    g;
        std::string name = ref::genName( g, r );
        if ( hit && hit->t == ref::Obj && !hit->m.empty() && r.chance( 0.3 ) )
            name = hit->m[ r.below( hit->m.size() ) ].first;
        add( p, "add", d, path, name, lib::typeName( t ), compact( v ) );
    }
    void setSome( Plan& p, const std::string& d, Node& model, Rng& r, bool weird )
    {
        const Node* hit;
        std::string path = pathTo( model, r, []( const Node& n ) { return n.t == ref::Num || n.t == ref::Str || n.t == ref::Bool; }, &hit );
        if ( !hit )
            return;
        ref::Gen g;
        if ( hit->t == ref::Num )
            add( p, "set", d, path, weird ? std::string( r.chance( 0.5 ) ? "nan" : "inf" ) : compact( num( ref::genNumber( r ) ) ) );
        else if ( hit->t == ref::Str )
            add( p, "set", d, path, compact( str( ref::genString( g, r ) ) ) );
        else
            add( p, "set", d, path, r.chance( 0.5 ) ? "true" : "false" );
    }
    // removal, clearing or moving of values
    void reshape( Plan& p, const std::string& d, Node& model, Rng& r )
    {
        const Node* hit;
        auto        any  = []( const Node& ) { return true; };
        auto        cont = []( const Node& n ) { return n.t == ref::Obj || n.t == ref::Arr; };
        auto        obj  = []( const Node& n ) { return n.t == ref::Obj; };
        std::string from = pathTo( model, r, any, &hit );
        switch ( r.below( 8 ) )
        {
            case 0:
            case 1:
            case 2: add( p, "drop", d, from, S( r.range( 0, 2 ) ) ); break;
            case 3: add( p, "clear", d, pathTo( model, r, cont, &hit ), S( r.range( 0, 1 ) ) ); break;
            default:
            {
                std::string to = r.chance( 0.5 ) ? pathTo( model, r, obj, &hit ) : pathTo( model, r, cont, &hit );
                ref::Gen    g;
                std::string name = ref::genName( g, r );
                if ( hit && hit->t == ref::Obj && !hit->m.empty() && r.chance( 0.5 ) )
                {
                    size_t k = r.below( hit->m.size() );
                    name     = hit->m[ k ].first;
                    if ( r.chance( 0.6 ) ) // out and in again
                        from = ( to == "." ? std::string() : to ) + "." + S( long( k ) );
                }
                add( p, "move", d, from, to, name, S( r.range( -1, 4 ) ), S( r.range( 0, 7 ) ) );
                break;
            }
        }
    }
    void findSome( Plan& p, const std::string& d, Node& model, Rng& r )
    {
        const Node* hit;
        std::string path = pathTo( model, r, []( const Node& n ) { return n.t == ref::Obj; }, &hit );
        ref::Gen    g;
        std::string name = ref::genName( g, r );
        if ( hit && !hit->m.empty() && r.chance( 0.75 ) )
            name = hit->m[ r.below( hit->m.size() ) ].first;
        add( p, "find", d, path, name );
    }
    void writeOp( Plan& p, const std::string& d, const std::string& f, Rng& r )
    {
        static const std::vector<std::string> ch { "32", "9", "10", "13" };
        if ( r.chance( 0.3 ) )
            add( p, "write", d, f );
        else
            add( p, "write", d, f, S( r.chance( 0.9 ) ? r.range( 0, 9 ) : r.range( 10, 70 ) ), r.chance( 0.7 ) ? std::string( "32" ) : r.pick( ch ) );
    }
    // a typed operation aimed at a value inside the document, by path or by path and name
    void inside( Plan& p, const std::string& verb, const std::string& d, const Node& model, const std::string& type, Rng& r )
    {
        const Node* hit;
        if ( r.chance( 0.5 ) )
        {
            std::string path = pathTo( model, r, [ & ]( const Node& n ) { return n.t == ref::Obj && !n.m.empty(); }, &hit );
            ref::Gen    g;
            std::string name = ref::genName( g, r );
            if ( hit && r.chance( 0.9 ) )
                name = hit->m[ r.below( hit->m.size() ) ].first;
            if ( r.chance( 0.1 ) )
                path = pathTo( model, r, []( const Node& ) { return true; }, &hit );
            add( p, verb, d, type, "@" + path, name );
        }
        else
            add( p, verb, d, type, "@" + pathTo( model, r, []( const Node& ) { return true; }, &hit ) );
    }
    // a type that the value (or a value inside it) has the shape of
    std::string fitting( const Node& n, Rng& r )
    {
        std::vector<int> ok;
        for ( int t = 0; t < lib::typeCount(); t++ )
            if ( lib::typeDefects( t, n ) == 0 )
                ok.push_back( t );
        return lib::typeName( ok.empty() ? int( r.below( uint64_t( lib::typeCount() ) ) ) : ok[ r.below( ok.size() ) ] );
    }
    void serInto( Plan& p, const std::string& d, const Node& model, Rng& r )
    {
        const Node* hit;
        std::string path = pathTo( model, r, []( const Node& ) { return true; }, &hit );
        std::string T    = lib::typeName( int( r.below( uint64_t( lib::typeCount() ) ) ) );
        if ( hit && r.chance( 0.85 ) )
            for ( int k = 0; k < 8; k++ ) // a type of the same kind of value
            {
                int t = int( r.below( uint64_t( lib::typeCount() ) ) );
                if ( lib::typeExpect( t, Node() ).t == hit->t )
                {
                    T = lib::typeName( t );
                    break;
                }
            }
        add( p, "serat", d, path, T, compact( lib::typeGen( lib::typeByName( T ), r, r.chance( 0.02 ) ) ) );
    }
    int anyType( Rng& r ) { return int( r.below( uint64_t( lib::typeCount() ) ) ); }

    // change the shape of a document: wrong types, missing and extra members, wrong elements
    void warp( Node& root, Rng& r )
    {
        std::vector<Node*> all;
        std::function<void( Node& )> go = [ & ]( Node& n ) {
            all.push_back( &n );
            for ( auto& x : n.a )
                go( x );
            for ( auto& x : n.m )
                go( x.second );
        };
        go( root );
        Node&    n = *all[ r.below( all.size() ) ];
        ref::Gen g;
        g.maxNodes = 4;
        switch ( r.below( 7 ) )
        {
            case 0:
                if ( n.t == ref::Obj && !n.m.empty() )
                {
                    n.m.erase( n.m.begin() + long( r.below( n.m.size() ) ) );
                    break;
                }
                [[fallthrough]];
            case 1:
            case 2:
                g.container = r.chance( 0.3 );
                n           = ref::generate( g, r );
                break;
            case 3: n = Node(); break;
            case 4:
                if ( n.t == ref::Obj )
                    n.m.emplace_back( "extra" + S( long( r.below( 100 ) ) ), ref::generate( g, r ) );
                else if ( n.t == ref::Arr )
                {
                    g.container = false;
                    n.a.insert( n.a.begin() + long( r.below( n.a.size() + 1 ) ), ref::generate( g, r ) );
                }
                else
                    n = num( 3 );
                break;
            case 5:
                if ( n.t == ref::Obj && n.m.size() > 1 )
                    std::swap( n.m[ r.below( n.m.size() ) ], n.m[ r.below( n.m.size() ) ] );
                else if ( n.t == ref::Arr && !n.a.empty() )
                    n.a.erase( n.a.begin() + long( r.below( n.a.size() ) ) );
                break;
            default:
                switch ( n.t )
                {
                    case ref::Num: n = str( "5" ); break;
                    case ref::Str: n = num( 5 ); break;
                    case ref::Bool: n = num( 1 ); break;
                    case ref::Arr:
                    {
                        Node o;
                        o.t = ref::Obj;
                        n   = o;
                        break;
                    }
                    case ref::Obj:
                    {
                        Node o;
                        o.t = ref::Arr;
                        n   = o;
                        break;
                    }
                    default:
                        n   = Node();
                        n.t = ref::Bool;
                        break;
                }
        }
    }

    void oldContent( Plan& p, const std::string& f, Rng& r, bool mayBeDir )
    {
        switch ( r.below( mayBeDir ? 8 : 7 ) )
        {
            case 0: break;
            case 1: add( p, "put", f, "" ); break;
            case 2: add( p, "put", f, "x" ); break;
            case 3:
                add( p, "put", f, "[" );
                add( p, "pad", f, S( r.range( 2000, 9000 ) ), "nums" );
                break;
            case 4:
            case 5: add( p, "put", f, text( r, true ) ); break;
            case 6:
                add( p, "put", f, text( r, true ) );
                add( p, "pad", f, S( r.range( 100, 4000 ) ), "ws" );
                break;
            default: add( p, "mkdir", f ); break;
        }
    }

    // a mixed history
    void mixture( Plan& p, Rng& r, int n, bool failing )
    {
        std::map<int, Node> model;
        int                 files = 0;
        for ( int i = 0; i < n; i++ )
        {
            int         di = int( r.below( 2 ) );
            std::string d  = S( di ), f = "/f" + S( long( r.below( 3 ) ) );
            switch ( r.below( failing ? 13 : 10 ) )
            {
                case 0:
                case 1:
                {
                    model[ di ] = document( r );
                    add( p, "put", f, renderDoc( model[ di ], r ) );
                    add( p, "parse", d, f );
                    files++;
                    break;
                }
                case 2:
                    model[ di ] = document( r );
                    add( p, "parsebuf", d, renderDoc( model[ di ], r ) );
                    break;
                case 3: writeOp( p, d, f, r ); break;
                case 4:
                {
                    int t       = anyType( r );
                    model[ di ] = lib::typeGen( t, r );
                    add( p, "ser", d, lib::typeName( t ), compact( model[ di ] ) );
                    if ( r.chance( 0.5 ) )
                        add( p, "val", d, lib::typeName( t ) );
                    if ( r.chance( 0.7 ) )
                    {
                        if ( r.chance( 0.4 ) )
                            add( p, "des", d, lib::typeName( t ), compact( lib::typeGen( t, r ) ) );
                        else
                            add( p, "des", d, lib::typeName( t ) );
                    }
                    break;
                }
                case 5:
                    if ( r.chance( 0.5 ) )
                        add( p, r.chance( 0.5 ) ? "val" : "des", d, lib::typeName( anyType( r ) ) );
                    else
                    {
                        const Node* hit;
                        pathTo( model[ di ], r, []( const Node& ) { return true; }, &hit );
                        inside( p, r.chance( 0.3 ) ? "val" : "des", d, model[ di ], hit ? fitting( *hit, r ) : std::string( "String" ), r );
                    }
                    break;
                case 6:
                    if ( r.chance( 0.3 ) )
                        serInto( p, d, model[ di ], r );
                    else if ( r.chance( 0.4 ) )
                        reshape( p, d, model[ di ], r );
                    else
                        addSome( p, d, model[ di ], r );
                    break;
                case 7:
                    if ( r.chance( 0.5 ) )
                        setSome( p, d, model[ di ], r, false );
                    else
                        findSome( p, d, model[ di ], r );
                    break;
                case 8: add( p, "check", d ); break;
                case 9:
                    if ( r.chance( 0.3 ) )
                        add( p, "del", d );
                    else
                        add( p, "parse", d, f );
                    break;
                case 10:
                    add( p, "put", f, damagedText( r ) );
                    add( p, "parse", d, f );
                    break;
                case 11: add( p, "parsebuf", d, damagedText( r ) ); break;
                default: add( p, "parse", d, r.chance( 0.5 ) ? "/none" : "/no/dir" ); break;
            }
        }
        (void)files;
    }

    // ------------------------------------------------------------ skeletons
    Plan skLoad( Rng& r ) // C01
    {
        Plan p;
        if ( r.chance( 0.1 ) )
            add( p, "fdbase", "0" );
        int n = r.range( 1, 3 );
        for ( int i = 0; i < n; i++ )
        {
            std::string f = i == 1 && r.chance( 0.5 ) ? "/a" : "/f" + S( i );
            int         k = int( r.below( 40 ) );
            if ( k == 0 )
                add( p, "mkdir", f );
            else if ( k == 1 )
                add( p, "rm", f );
            else if ( k < 5 )
                putBig( p, f, r );
            else if ( k == 5 )
                add( p, "many", f, S( r.range( 50, 900 ) ), r.chance( 0.3 ) ? "asc" : r.chance( 0.5 ) ? "desc" : "rand" );
            else if ( k == 6 )
                add( p, "put", f, "" );
            else
                add( p, "put", f, text( r ) );
            std::string d = S( long( r.below( 2 ) ) );
            add( p, "parse", d, f );
            if ( r.chance( 0.5 ) )
                add( p, "check", d );
        }
        return p;
    }
    Plan skDamage( Rng& r ) // C02
    {
        Plan p;
        for ( int i = r.range( 2, 5 ); i > 0; i-- )
        {
            std::string d = S( long( r.below( 2 ) ) );
            int         k = int( r.below( 20 ) );
            if ( k < 6 )
                add( p, "parsebuf", d, damagedText( r ) );
            else if ( k < 12 )
            {
                add( p, "put", "/a", damagedText( r ) );
                add( p, "parse", d, "/a" );
            }
            else if ( k < 19 )
            {
                add( p, "put", "/a", text( r ) );
                for ( int j = r.range( 1, 3 ); j > 0; j-- )
                    damage( p, "/a", r );
                add( p, "parse", d, "/a" );
            }
            else if ( r.chance( 0.15 ) )
            {
                add( p, "nest", "/a", S( r.pick( std::vector<int> { 100, 400, 499, 500, 501, 900, 999, 1000, 1001, 1100, 5000, 30000, 60000 } ) ), r.chance( 0.4 ) ? "arr" : r.chance( 0.5 ) ? "obj" : "open" );
                add( p, "parse", d, "/a" );
            }
            else
            {
                add( p, "put", "/a", text( r ) );
                add( p, "parse", d, "/a" );
            }
            if ( r.chance( 0.3 ) )
                add( p, "check", d );
        }
        return p;
    }
    Plan skWrite( Rng& r, bool crash ) // C03, C04
    {
        Plan p;
        if ( r.chance( 0.1 ) )
            add( p, "fdbase", "0" );
        if ( crash && r.chance( 0.1 ) )
        {
            // nothing to write
            oldContent( p, "/out", r, false );
            if ( r.chance( 0.5 ) )
            {
                add( p, "put", "/src", damagedText( r ) );
                add( p, "parse", "0", "/src" );
            }
            writeOp( p, "0", "/out", r );
            return p;
        }
        int from = int( r.below( 20 ) );
        if ( from < 10 )
        {
            add( p, "put", "/src", text( r ) );
            add( p, "parse", "0", "/src" );
        }
        else if ( from < 14 ) // an edited document
        {
            Node m = document( r );
            add( p, "parsebuf", "0", renderDoc( m, r ) );
            for ( int i = r.range( 1, 4 ); i > 0; i-- )
                if ( r.chance( 0.5 ) )
                    addSome( p, "0", m, r );
                else if ( r.chance( 0.6 ) )
                    reshape( p, "0", m, r );
                else
                    setSome( p, "0", m, r, r.chance( 0.03 ) );
        }
        else if ( from < 16 ) // long texts
        {
            putBig( p, "/src", r );
            add( p, "parse", "0", "/src" );
        }
        else
        {
            int t = anyType( r );
            add( p, "ser", "0", lib::typeName( t ), compact( lib::typeGen( t, r, r.chance( 0.02 ) ) ) );
        }
        if ( r.chance( 0.06 ) )
        {
            add( p, "many", "/src", S( r.range( 500, 4000 ) ), "rand" );
            add( p, "parse", "0", "/src" );
        }
        std::string f = r.chance( 0.04 ) ? "/no/out" : "/out";
        if ( f == "/out" )
            oldContent( p, f, r, true );
        if ( r.chance( 0.1 ) )
            f = "/src";
        writeOp( p, "0", f, r );
        if ( r.chance( 0.3 ) )
            writeOp( p, "0", f, r );
        if ( r.chance( 0.5 ) )
            add( p, "parse", "1", f );
        return p;
    }
    Plan skRound( Rng& r ) // C05
    {
        Plan p;
        Node m;
        if ( r.chance( 0.7 ) )
        {
            m = document( r );
            if ( r.chance( 0.5 ) )
            {
                add( p, "put", "/src", renderDoc( m, r ) );
                add( p, "parse", "0", "/src" );
            }
            else
                add( p, "parsebuf", "0", renderDoc( m, r ) );
            if ( r.chance( 0.12 ) && m.t == ref::Obj && !m.m.empty() ) // duplicate names
            {
                std::string t = ref::render( m, ref::Style(), r );
                Rng         q( 1 );
                t.pop_back();
                t += "," + ref::render( str( m.m[ r.below( m.m.size() ) ].first ), ref::Style(), q ) + ":" + ( r.chance( 0.5 ) ? "1" : "[\"x\"]" ) + "}";
                add( p, "parsebuf", "0", t );
            }
        }
        else
        {
            int t = anyType( r );
            m     = lib::typeGen( t, r );
            add( p, "ser", "0", lib::typeName( t ), compact( m ) );
        }
        for ( int i = r.range( 0, 5 ); i > 0; i-- )
        {
            if ( r.chance( 0.4 ) )
                addSome( p, "0", m, r );
            else if ( r.chance( 0.5 ) )
                reshape( p, "0", m, r );
            else
                setSome( p, "0", m, r, r.chance( 0.03 ) );
        }
        oldContent( p, "/out", r, false );
        writeOp( p, "0", "/out", r );
        add( p, "parse", "1", "/out" );
        if ( r.chance( 0.5 ) )
            add( p, "check", "1" );
        if ( r.chance( 0.4 ) )
        {
            writeOp( p, "1", "/out2", r );
            add( p, "parse", "0", "/out2" );
        }
        return p;
    }
    Plan skTyped( Rng& r ) // C06
    {
        Plan p;
        int  rounds = r.range( 1, 2 );
        for ( int i = 0; i < rounds; i++ )
        {
            int         t = anyType( r );
            std::string T = lib::typeName( t );
            Node        v = lib::typeGen( t, r );
            if ( r.chance( 0.1 ) && i == 0 )
            {
                add( p, "put", "/src", text( r ) );
                add( p, "parse", "0", "/src" );
            }
            add( p, "ser", "0", T, compact( v ) );
            if ( r.chance( 0.7 ) )
                add( p, "val", "0", T );
            if ( r.chance( 0.6 ) )
                add( p, "des", "0", T );
            if ( r.chance( 0.3 ) )
            {
                v = lib::typeGen( t, r, r.chance( 0.1 ) );
                add( p, "ser", "0", T, compact( v ) );
            }
            if ( r.chance( 0.15 ) )
                add( p, "serat", "0", ".", T, compact( lib::typeGen( t, r, r.chance( 0.02 ) ) ) );
            else if ( r.chance( 0.2 ) )
            {
                serInto( p, "0", v, r );
                add( p, "val", "0", T );
                add( p, "des", "0", T );
            }
            writeOp( p, "0", "/out", r );
            add( p, "parse", "1", "/out" );
            add( p, "val", "1", T );
            if ( r.chance( 0.4 ) )
                add( p, "des", "1", T, compact( lib::typeGen( t, r ) ) );
            else
                add( p, "des", "1", T );
            if ( r.chance( 0.3 ) )
                addSome( p, "1", v, r );
        }
        return p;
    }
    Plan skShape( Rng& r ) // C10
    {
        Plan p;
        for ( int i = r.range( 1, 3 ); i > 0; i-- )
        {
            int         t = anyType( r );
            std::string T = lib::typeName( t );
            Node        v = lib::typeGen( t, r );
            for ( int k = r.chance( 0.25 ) ? 0 : r.range( 1, 3 ); k > 0; k-- )
                warp( v, r );
            if ( r.chance( 0.5 ) )
                add( p, "parsebuf", "0", renderDoc( v, r ) );
            else
            {
                add( p, "put", "/src", renderDoc( v, r ) );
                add( p, "parse", "0", "/src" );
            }
            add( p, "val", "0", T );
            if ( r.chance( 0.3 ) )
                add( p, "des", "0", T, compact( lib::typeGen( t, r ) ) );
            else
                add( p, "des", "0", T );
            if ( r.chance( 0.3 ) )
            {
                std::string U = lib::typeName( anyType( r ) );
                add( p, "val", "0", U );
                add( p, "des", "0", U );
            }
            for ( int k = r.chance( 0.5 ) ? r.range( 1, 3 ) : 0; k > 0; k-- )
            {
                const Node* hit;
                pathTo( v, r, []( const Node& ) { return true; }, &hit );
                std::string U = hit && r.chance( 0.8 ) ? fitting( *hit, r ) : std::string( lib::typeName( anyType( r ) ) );
                inside( p, r.chance( 0.5 ) ? "val" : "des", "0", v, U, r );
            }
        }
        return p;
    }
    Plan skReuse( Rng& r ) // C09
    {
        Plan p;
        if ( r.chance( 0.4 ) )
        {
            // operations without a document
            for ( int i = r.range( 1, 3 ); i > 0; i-- )
                switch ( r.below( 4 ) )
                {
                    case 0: add( p, "val", "0", lib::typeName( anyType( r ) ) ); break;
                    case 1: add( p, "des", "0", lib::typeName( anyType( r ) ) ); break;
                    case 2:
                        oldContent( p, "/out", r, false );
                        writeOp( p, "0", "/out", r );
                        break;
                    default: add( p, "check", "0" ); break;
                }
        }
        mixture( p, r, r.range( 2, 5 ), true );
        for ( int k = 0; k < 2; k++ )
        {
            std::string d = S( k );
            if ( r.chance( 0.6 ) )
            {
                add( p, "put", "/last", text( r ) );
                add( p, "parse", d, "/last" );
            }
            else
            {
                int t = anyType( r );
                add( p, "ser", d, lib::typeName( t ), compact( lib::typeGen( t, r, r.chance( 0.02 ) ) ) );
            }
            add( p, "check", d );
            writeOp( p, d, "/final", r );
        }
        return p;
    }
    Plan skLocale( Rng& r ) // C12
    {
        static const std::vector<std::string> names { "de_DE", "fr_FR", "ps_AF", "tr_TR", "C", "de_DE:thread", "ps_AF:thread", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "ru_RU.KOI8-R", "ru_RU.KOI8-R:thread", "zh_CN.GB18030" };
        Plan p;
        auto sw = [ & ]( double c ) {
            if ( r.chance( c ) )
                add( p, "locale", r.pick( names ) );
        };
        sw( 0.95 );
        if ( r.chance( 0.6 ) )
        {
            Node m = document( r );
            if ( r.chance( 0.5 ) )
            {
                m   = Node();
                m.t = ref::Arr;
                for ( int i = r.range( 1, 20 ); i > 0; i-- )
                    m.a.push_back( num( ref::genNumber( r ) ) );
            }
            if ( r.chance( 0.5 ) )
                add( p, "parsebuf", "0", renderDoc( m, r ) );
            else
            {
                add( p, "put", "/src", renderDoc( m, r ) );
                add( p, "parse", "0", "/src" );
            }
            if ( r.chance( 0.3 ) )
            {
                sw( 0.3 );
                setSome( p, "0", m, r, false );
            }
            if ( r.chance( 0.2 ) )
                add( p, "parsebuf", "1", "[1," + numberText( r ) + "]" );
            if ( r.chance( 0.25 ) )
                add( p, "parsebuf", "1", damagedText( r ) );
        }
        else
        {
            static const std::vector<std::string> T { "double", "Array<double>", "vector<double>", "map<double>", "ObjectMap<double>", "Basic", "Opt", "Deep", "String", "Array<String>" };
            std::string                           t = r.pick( T );
            add( p, "ser", "0", t, compact( lib::typeGen( lib::typeByName( t ), r ) ) );
            sw( 0.3 );
            add( p, "val", "0", t );
            add( p, "des", "0", t );
        }
        sw( 0.5 );
        writeOp( p, "0", "/out", r );
        sw( 0.5 );
        add( p, "parse", "1", "/out" );
        sw( 0.3 );
        add( p, "check", "1" );
        return p;
    }
    Plan skBounded( Rng& r ) // C13
    {
        Plan p;
        const char* fit = nullptr;
        int         k   = int( r.below( 12 ) );
        if ( k == 1 )
            fit = r.pick( std::vector<const char*> { "map<double>", "ObjectMap<double>" } );
        else if ( k == 5 )
            fit = r.pick( std::vector<const char*> { "vector<double>", "Array<double>" } );
        switch ( k )
        {
            case 0: add( p, "nest", "/a", S( r.pick( std::vector<int> { 300, 900, 1000, 1001, 5000, 21000, 32000, 65000 } ) ), r.chance( 0.4 ) ? "arr" : r.chance( 0.5 ) ? "obj" : "open" ); break;
            case 1: add( p, "many", "/a", S( r.range( 100, 4500 ) ), r.chance( 0.4 ) ? "asc" : r.chance( 0.5 ) ? "desc" : "rand" ); break;
            case 2:
            case 3: putBig( p, "/a", r ); break;
            case 4: add( p, "put", "/a", damagedText( r ) ); break;
            case 5:
                add( p, "put", "/a", "[" );
                add( p, "pad", "/a", S( r.range( 1000, 65534 ) ), "nums" );
                break;
            case 6: add( p, "put", "/a", numberText( r ) + std::string( size_t( r.range( 1, 3000 ) ), char( '0' + r.below( 10 ) ) ) ); break;
            default: add( p, "put", "/a", text( r ) ); break;
        }
        if ( r.chance( 0.15 ) )
            damage( p, "/a", r );
        add( p, "parse", "0", "/a" );
        if ( fit && r.chance( 0.6 ) )
        {
            add( p, "val", "0", fit );
            add( p, "des", "0", fit );
        }
        if ( k == 1 && r.chance( 0.4 ) )
        {
            add( p, "check", "0" );
            add( p, "find", "0", ".", S( 100000 + long( r.below( 5000 ) ) ) );
            add( p, "add", "0", ".", S( 100000 + long( r.below( 5000 ) ) ), "double", "1" );
        }
        if ( r.chance( 0.5 ) )
        {
            oldContent( p, "/out", r, false );
            writeOp( p, "0", "/out", r );
        }
        if ( r.chance( 0.3 ) )
        {
            int t = anyType( r );
            add( p, "ser", "1", lib::typeName( t ), compact( lib::typeGen( t, r, r.chance( 0.02 ) ) ) );
            add( p, "val", "1", lib::typeName( t ) );
            add( p, "des", "1", lib::typeName( t ) );
        }
        // progress once the faults are over
        add( p, "put", "/b", text( r ) );
        add( p, "parse", "0", "/b" );
        add( p, "write", "0", "/out2" );
        add( p, "parse", "1", "/out2" );
        return p;
    }
    Plan skCauses( Rng& r ) // C14
    {
        Plan p;
        if ( r.chance( 0.05 ) )
            add( p, "describe" );
        for ( int i = r.range( 1, 4 ); i > 0; i-- )
        {
            std::string d = S( long( r.below( 2 ) ) );
            switch ( r.below( 12 ) )
            {
                case 0: add( p, "parse", d, r.chance( 0.5 ) ? "/none" : "/no/dir" ); break;
                case 1:
                    add( p, "mkdir", "/dir" );
                    if ( r.chance( 0.5 ) )
                        add( p, "parse", d, "/dir" );
                    else
                    {
                        add( p, "parsebuf", d, "[1]" );
                        add( p, "write", d, "/dir" );
                    }
                    break;
                case 2:
                    putBig( p, "/big", r );
                    add( p, "parse", d, "/big" );
                    break;
                case 3:
                {
                    std::string t = r.chance( 0.5 ) ? text( r ) : text( r ).substr( 0, size_t( r.range( 0, 4 ) ) );
                    if ( !t.empty() && t.back() == 0 )
                        t.pop_back();
                    add( p, "parsebuf", d, t, "raw" );
                    break;
                }
                case 4:
                    add( p, "del", d );
                    writeOp( p, d, "/out", r );
                    add( p, r.chance( 0.5 ) ? "val" : "des", d, lib::typeName( anyType( r ) ) );
                    break;
                case 5:
                case 6:
                {
                    int  t = anyType( r );
                    Node v = lib::typeGen( t, r );
                    for ( int k = r.range( 0, 2 ); k > 0; k-- )
                        warp( v, r );
                    add( p, "parsebuf", d, compact( v ) );
                    add( p, "val", d, lib::typeName( t ) );
                    add( p, "des", d, lib::typeName( t ) );
                    break;
                }
                case 7:
                case 8:
                    if ( r.chance( 0.5 ) )
                        add( p, "parsebuf", d, damagedText( r ) );
                    else
                    {
                        add( p, "put", "/a", damagedText( r ) );
                        add( p, "parse", d, "/a" );
                    }
                    break;
                case 9:
                    add( p, "put", "/a", text( r ) );
                    add( p, "parse", d, "/a" );
                    break;
                default:
                    add( p, "parsebuf", d, text( r ) );
                    oldContent( p, "/out", r, true );
                    writeOp( p, d, r.chance( 0.1 ) ? "/no/out" : "/out", r );
                    break;
            }
        }
        return p;
    }
    Plan skSyntax( Rng& r ) // C15
    {
        Plan p;
        for ( int i = r.range( 2, 6 ); i > 0; i-- )
        {
            std::string t;
            if ( r.chance( 0.6 ) )
            {
                ref::Gen g;
                g.maxNodes    = r.range( 3, 40 );
                g.weirdStr    = r.chance( 0.3 );
                ref::Style st = style( r );
                st.ws         = r.chance( 0.7 ) ? r.range( 2, 3 ) : st.ws;
                t             = mutate( ref::render( ref::generate( g, r ), st, r ), r, 1 );
            }
            else
                t = damagedText( r );
            if ( r.chance( 0.5 ) )
                add( p, "parsebuf", "0", t );
            else
            {
                add( p, "put", "/a", t );
                if ( r.chance( 0.2 ) )
                    damage( p, "/a", r );
                add( p, "parse", "0", "/a" );
            }
        }
        return p;
    }

    // ------------------------------------------------------------ faults
    Fault mk( Sys s, int n, Act a, long arg )
    {
        Fault f;
        f.sys = s;
        f.n   = n;
        f.act = a;
        f.arg = arg;
        return f;
    }
    int nth( Rng& r, int count ) { return r.range( 1, std::max( 1, count ) ); }

    void allocFault( Op& o, const Counts& c, Rng& r )
    {
        int n = c.n[ S_ALLOC ];
        if ( n == 0 )
            return;
        Fault f = mk( S_ALLOC, r.chance( 0.15 ) ? n : nth( r, n ), A_FAIL, 0 );
        if ( r.chance( 0.3 ) )
        {
            f.plus = true;
            f.span = r.chance( 0.5 ) ? r.range( 2, 6 ) : 0;
        }
        else if ( r.chance( 0.1 ) )
        {
            f.n    = 1;
            f.plus = true;
            f.act  = A_BIG;
            f.arg  = r.pick( std::vector<long> { 16, 40, 64, 100, 200, 512, 4096 } );
        }
        o.faults.push_back( f );
        if ( r.chance( 0.1 ) )
            o.faults.push_back( mk( S_ALLOC, nth( r, n + 2 ), A_FAIL, 0 ) );
    }
    void readFault( Op& o, const Counts& c, Rng& r, bool harsh )
    {
        static const std::vector<int> rdErr { EIO, EINTR, EISDIR, EAGAIN, EIO };
        static const std::vector<int> opErr { ENOENT, EACCES, EMFILE, ENFILE, EINTR, EIO };
        int                           k = int( r.below( harsh ? 13 : 4 ) );
        Fault                         f;
        switch ( k )
        {
            case 0:
            case 1:
                f      = mk( S_READ, 1, A_LIMIT, r.chance( 0.3 ) ? 1 : r.range( 1, 300 ) );
                f.plus = true;
                break;
            case 2:
            case 3: f = mk( S_READ, nth( r, c.n[ S_READ ] + 2 ), A_SHORT, r.chance( 0.4 ) ? 1 : r.range( 1, 2000 ) ); break;
            case 4:
            case 5:
                f = mk( S_READ, nth( r, c.n[ S_READ ] + 1 ), A_ERR, r.pick( rdErr ) );
                if ( r.chance( 0.3 ) )
                {
                    f.plus = true;
                    f.span = f.arg == EINTR || f.arg == EAGAIN || r.chance( 0.5 ) ? r.range( 2, 12 ) : 0;
                }
                break;
            case 6: f = mk( S_READ, nth( r, c.n[ S_READ ] + 2 ), r.chance( 0.5 ) ? A_EOF : A_ZERO, 0 ); break;
            case 7: f = mk( S_OPEN, 1, A_ERR, r.pick( opErr ) ); break;
            case 8: f = mk( S_STAT, nth( r, c.n[ S_STAT ] ), A_ERR, r.chance( 0.5 ) ? EIO : EACCES ); break;
            case 9: f = mk( S_CLOSE, 1, A_ERR, EIO ); break;
            default:
            {
                f      = mk( S_IO, nth( r, c.n[ S_IO ] + 1 ), A_TRUNC, long( r.below( 100000 ) ) );
                f.path = o.a[ 2 ];
                for ( auto& x : o.faults )
                    if ( x.sys == S_IO )
                        return;
                int a = int( r.below( 3 ) );
                if ( a == 1 )
                {
                    f.act  = A_APPEND;
                    f.arg  = 0;
                    f.data = r.chance( 0.3 ) ? "   " : r.chance( 0.4 ) ? text( r ) : std::string( 1, "]}1 ,"[ r.below( 5 ) ] );
                }
                else if ( a == 2 )
                {
                    f.act  = A_REPLACE;
                    f.arg  = 0;
                    f.data = r.chance( 0.8 ) ? text( r ) : "";
                }
            }
        }
        o.faults.push_back( f );
    }
    void writeFault( Op& o, const Counts& c, Rng& r, bool harsh, bool crash )
    {
        static const std::vector<int> wrErr { EIO, ENOSPC, EDQUOT, EFBIG, EINTR, EPIPE, EAGAIN };
        static const std::vector<int> opErr { EACCES, EROFS, EMFILE, ENOSPC, EINTR, ENOENT, EIO };
        if ( crash && r.chance( 0.6 ) )
        {
            o.faults.push_back( mk( S_IO, nth( r, c.n[ S_IO ] + 1 ), A_CRASH, r.chance( 0.3 ) ? 0 : long( r.below( r.chance( 0.5 ) ? 8 : 5000 ) ) ) );
            if ( r.chance( 0.6 ) )
                return;
        }
        Fault f;
        switch ( r.below( harsh ? 11 : 3 ) )
        {
            case 0:
            case 1:
                f      = mk( S_WRITE, 1, A_LIMIT, r.chance( 0.3 ) ? 1 : r.range( 1, 200 ) );
                f.plus = true;
                break;
            case 2: f = mk( S_WRITE, nth( r, c.n[ S_WRITE ] + 2 ), A_SHORT, r.chance( 0.4 ) ? 1 : r.range( 1, 500 ) ); break;
            case 3:
            case 4:
            case 5:
                f = mk( S_WRITE, r.chance( 0.2 ) ? std::max( 1, c.n[ S_WRITE ] ) : nth( r, c.n[ S_WRITE ] ), A_ERR, r.pick( wrErr ) );
                if ( r.chance( 0.3 ) )
                {
                    f.plus = true;
                    f.span = f.arg == EINTR || f.arg == EAGAIN || r.chance( 0.5 ) ? r.range( 2, 12 ) : 0;
                }
                break;
            case 6:
                f = mk( S_WRITE, nth( r, c.n[ S_WRITE ] ), A_ZERO, 0 );
                if ( r.chance( 0.3 ) )
                {
                    f.plus = true;
                    f.span = r.range( 2, 8 );
                }
                break;
            case 7: f = mk( S_OPEN, 1, A_ERR, r.pick( opErr ) ); break;
            case 8: f = mk( S_CLOSE, 1, r.chance( 0.5 ) ? A_ERR : A_LOSE, 0 ); break;
            default: f = mk( S_WRITE, 1, A_QUOTA, r.chance( 0.1 ) ? 0 : long( r.below( r.chance( 0.5 ) ? 40 : 3000 ) ) ); break;
        }
        if ( f.sys == S_CLOSE )
            f.arg = f.act == A_ERR ? ( r.chance( 0.5 ) ? EIO : ENOSPC ) : long( r.below( 200 ) + 1 );
        o.faults.push_back( f );
        if ( r.chance( 0.25 ) && f.act != A_LIMIT )
        {
            Fault g = mk( S_WRITE, 1, A_LIMIT, r.range( 1, 100 ) );
            g.plus  = true;
            o.faults.push_back( g );
        }
    }
    bool isParse( const Op& o ) { return o.a[ 0 ] == "parse"; }
    bool isWrite( const Op& o ) { return o.a[ 0 ] == "write"; }
    bool allocs( const Op& o )
    {
        const std::string& v = o.a[ 0 ];
        return v == "parse" || v == "parsebuf" || v == "write" || v == "ser" || v == "val" || v == "des" || v == "add" || v == "serat" || v == "move" || v == "find" || v == "check";
    }
} // namespace

namespace sim
{
    // C18: the histories of the file properties, with file names of every kind of character, for the Windows back end
    Plan skWindows( Rng& r )
    {
        static const std::vector<std::string> kinds { "C01", "C01", "C01", "C01", "C03", "C03", "C03", "C04", "C04", "C05", "C07", "C08", "C08", "C09", "C13", "C14", "C14" };
        static const std::vector<std::string> names { "x", "out.json", "\xc3\xa4", "stra\xc3\x9f" "e.json", "\xe6\x96\x87\xe4\xbb\xb6", "\xf0\x9f\x98\x80", "a\xf0\x90\x80\x80z", "\xf4\x8f\xbf\xbf", "\xef\xbf\xbf", "\xe0\xa0\x80", "\xdf\xbf", "\xc2\x80", "\xed\x9f\xbf\xee\x80\x80", "a b.json", "\xef\xbb\xbf" "c" };
        std::string kind = r.pick( kinds );
        Plan        p    = skeleton( kind, r );
        std::map<std::string, std::string> to;
        if ( r.chance( 0.7 ) )
            for ( const char* n : { "/a", "/f0", "/f1", "/f2", "/src", "/out", "/out2", "/last", "/final", "/b", "/big", "/dir", "/none" } )
                if ( r.chance( 0.7 ) )
                {
                    std::string x = "/";
                    for ( int k = r.chance( 0.1 ) ? r.range( 20, 240 ) : r.range( 1, 5 ); k > 0; k-- )
                        x += r.pick( names );
                    to[ n ] = x + S( long( to.size() ) ); // different names stay different
                }
        for ( auto& o : p )
            for ( size_t i = 1; i < o.a.size(); i++ )
                if ( i < 3 && to.count( o.a[ i ] ) )
                    o.a[ i ] = to[ o.a[ i ] ];
        p.insert( p.begin(), op( { "as", kind, to.count( "/last" ) ? to[ "/last" ] : "/last" } ) );
        return p;
    }

    Plan skeleton( const std::string& prop, Rng& r )
    {
        Plan p;
        if ( prop == "C18" )
            return skWindows( r );
        if ( prop == "C16" )
            return skeletonContainers( r );
        if ( prop == "C11" )
            return skeletonThreads( r );
        if ( prop == "C01" )
            p = skLoad( r );
        else if ( prop == "C02" )
            p = skDamage( r );
        else if ( prop == "C03" )
            p = skWrite( r, false );
        else if ( prop == "C04" )
            p = skWrite( r, true );
        else if ( prop == "C05" )
            p = skRound( r );
        else if ( prop == "C06" )
            p = skTyped( r );
        else if ( prop == "C07" )
            mixture( p, r, r.range( 1, 4 ), r.chance( 0.2 ) );
        else if ( prop == "C08" )
        {
            if ( r.chance( 0.3 ) )
                add( p, "fdbase", "0" );
            mixture( p, r, r.range( 2, 6 ), r.chance( 0.6 ) );
        }
        else if ( prop == "C09" )
            p = skReuse( r );
        else if ( prop == "C10" )
            p = skShape( r );
        else if ( prop == "C12" )
            p = skLocale( r );
        else if ( prop == "C13" )
            p = skBounded( r );
        else if ( prop == "C14" )
            p = skCauses( r );
        else if ( prop == "C15" )
            p = skSyntax( r );
        if ( r.chance( 0.5 ) )
            p.insert( p.begin(), op( { "salt", S( long( r.below( 100000 ) ) ) } ) );
        return p;
    }

    void placeFaults( const std::string& asked, Plan& p, const std::vector<Counts>& c, Rng& r )
    {
        std::string prop = asked, lastName = "/last";
        if ( prop == "C18" && !p.empty() && p[ 0 ].a[ 0 ] == "as" )
        {
            prop     = p[ 0 ].a[ 1 ];
            lastName = p[ 0 ].a[ 2 ];
        }
        if ( prop == "C16" )
            return faultsContainers( p, c, r );
        if ( prop == "C11" )
            return faultsThreads( p, c, r );
        size_t last = p.size();
        if ( prop == "C13" )
            last = p.size() >= 4 ? p.size() - 4 : 0; // the closing operations stay fault free
        if ( prop == "C09" )
        {
            while ( last > 0 && !( p[ last - 1 ].a[ 0 ] == "put" && p[ last - 1 ].a[ 1 ] == lastName ) && p.size() - last < 8 )
                last--;
        }
        bool single = prop == "C07" || r.chance( 0.3 );
        std::vector<size_t> cand;
        for ( size_t i = 0; i < last; i++ )
            if ( allocs( p[ i ] ) )
                cand.push_back( i );
        if ( cand.empty() )
            return;
        size_t only = cand[ r.below( cand.size() ) ];
        for ( size_t i : cand )
        {
            Op& o = p[ i ];
            if ( single ? i != only : !r.chance( 0.7 ) )
                continue;
            if ( prop == "C01" )
            {
                if ( isParse( o ) )
                    for ( int k = r.range( 1, 2 ); k > 0; k-- )
                        readFault( o, c[ i ], r, true );
            }
            else if ( prop == "C02" )
            {
                if ( isParse( o ) && r.chance( 0.5 ) )
                    readFault( o, c[ i ], r, false );
            }
            else if ( prop == "C03" || prop == "C04" )
            {
                if ( isWrite( o ) )
                    writeFault( o, c[ i ], r, true, prop == "C04" );
                if ( prop == "C03" && isWrite( o ) && r.chance( 0.06 ) )
                    allocFault( o, c[ i ], r );
            }
            else if ( prop == "C05" || prop == "C06" || prop == "C12" || prop == "C15" )
            {
                if ( isParse( o ) )
                    readFault( o, c[ i ], r, false );
                else if ( isWrite( o ) )
                    writeFault( o, c[ i ], r, false, false );
            }
            else if ( prop == "C07" )
            {
                allocFault( o, c[ i ], r );
                if ( isParse( o ) && r.chance( 0.1 ) )
                    readFault( o, c[ i ], r, false );
            }
            else if ( prop == "C10" )
            {
                if ( o.a[ 0 ] == "val" || o.a[ 0 ] == "des" )
                    allocFault( o, c[ i ], r );
                else if ( isParse( o ) )
                    readFault( o, c[ i ], r, false );
            }
            else // C08 C09 C13 C14
            {
                if ( isParse( o ) && r.chance( 0.6 ) )
                    readFault( o, c[ i ], r, true );
                else if ( isWrite( o ) && r.chance( 0.75 ) )
                    writeFault( o, c[ i ], r, true, prop == "C08" && r.chance( 0.2 ) );
                else if ( prop != "C13" || r.chance( 0.3 ) )
                    allocFault( o, c[ i ], r );
            }
        }
    }

    void warpTree( ref::Node& n, Rng& r ) { warp( n, r ); }

    bool owns( const std::string& prop, const std::string& cls )
    {
        static const std::map<std::string, std::vector<std::string>> m {
            { "C01", { "parse.", "size.limit", "file.touched" } },
            { "C02", { "parse.", "tree.corrupt", "find.wrong" } },
            { "C03", { "write.silent_loss", "write.spurious_fail", "write.value", "write.invalid_json" } },
            { "C04", { "write.hybrid", "write.destroyed", "crash.", "nodoc.touched" } },
            { "C05", { "write.invalid_json", "write.value", "write.order", "write.nonfinite", "write.spurious_fail", "parse.wrong", "parse.reject_valid", "tree.", "edit.", "find.wrong" } },
            { "C06", { "ser.", "val.wrong", "des.wrong", "write.invalid_json", "write.value", "write.spurious_fail", "parse.wrong", "parse.reject_valid", "tree." } },
            { "C07", { "alloc.", "tree.corrupt" } },
            { "C08", { "leak.", "fd.", "mismatch" } },
            { "C09", { "stale.", "nodoc.", "parse.wrong", "parse.reject_valid", "parse.phantom", "ser.", "write.silent_loss", "write.spurious_fail", "write.value", "write.order", "write.invalid_json", "tree.", "edit.", "find.wrong" } },
            { "C10", { "val.wrong", "des.wrong", "tree.changed", "alloc." } },
            { "C11", { "thread." } },
            { "C12", { "locale.", "parse.wrong", "parse.reject_valid", "parse.accept_invalid", "write.", "ser.", "val.wrong", "des.wrong" } },
            { "C13", { "hang", "parse.reject_valid", "write.spurious_fail", "ser.spurious" } },
            { "C14", { "status." } },
            { "C15", { "syntax." } },
            { "C18", { "parse.", "size.limit", "file.touched", "write.silent_loss", "write.spurious_fail", "write.hybrid", "write.destroyed", "crash.", "nodoc.", "stale.", "alloc.", "leak.", "fd.", "status." } },
            { "C16", { "cont.", "leak.", "mismatch" } },
        };
        auto it = m.find( prop );
        if ( it == m.end() )
            return false;
        // a call that dies or never ends breaks every property that promises it a result
        if ( cls == "crash" || cls == "hang" || cls == "mismatch" )
            return true;
        for ( auto& x : it->second )
            if ( cls.compare( 0, x.size(), x ) == 0 )
                return true;
        return false;
    }
} // namespace sim
