// Executes a plan against the library inside the simulated world and judges every step.
#include "adapter.h"
#include "plan.h"
#include <algorithm>
#include <cmath>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>
#include <functional>
#include <set>

using namespace sim;
using lib::PR;
using lib::St;
using ref::Node;

namespace
{
    constexpr size_t MAXFILE = 65534;

    struct DocState
    {
        lib::Doc* d       = nullptr;
        bool      has     = false; // model: a document is present
        bool      ordered = true;  // member order of the model is known
        Node      model;
    };

    struct Ex
    {
        Outcome                 out;
        std::map<int, DocState> docs;
        int                     cur = 0;
        bool                    stop = false;
        bool                    verbose;
        uint64_t                salt = 0;

        void bad( const std::string& cls, const std::string& detail )
        {
            W.ev( ( "VIOLATION " + cls ).c_str() );
            out.v.push_back( Violation { cls, detail, cur } );
        }
        DocState& doc( const std::string& s )
        {
            DocState& d = docs[ atoi( s.c_str() ) ];
            if ( !d.d )
                d.d = lib::make();
            return d;
        }
        void drop( DocState& d )
        {
            if ( d.d )
                lib::destroy( d.d );
            d = DocState();
        }

        // ---- fault summaries of the finished operation
        struct Fired
        {
            bool open = false, stat = false, read = false, write = false, close = false, misc = false, eof = false, alloc = false, env = false, crash = false, intr = false, quota = false, zero = false;
            bool any() const { return open || stat || read || write || close || misc || eof || alloc || env || crash || intr || quota || zero; } // other than benign splitting
            bool io() const { return open || stat || read || write || close || misc || eof || env || crash || intr || quota || zero; }
        };
        Fired fired() const
        {
            Fired r;
            for ( auto& f : W.faults )
            {
                if ( !f.fired )
                    continue;
                switch ( f.act )
                {
                    case A_ERR:
                        if ( f.arg == EINTR )
                            r.intr = true;
                        switch ( f.sys )
                        {
                            case S_OPEN: r.open = true; break;
                            case S_STAT: r.stat = true; break;
                            case S_READ: r.read = true; break;
                            case S_WRITE: r.write = true; break;
                            case S_CLOSE: r.close = true; break;
                            default: r.misc = true;
                        }
                        break;
                    case A_ZERO:
                    case A_EOF: ( f.sys == S_READ ? r.eof : r.zero ) = true; break;
                    case A_FAIL:
                    case A_BIG: r.alloc = true; break;
                    case A_QUOTA: r.quota = true; break;
                    case A_LOSE: r.close = true; break;
                    case A_CRASH: r.crash = true; break;
                    case A_TRUNC:
                    case A_APPEND:
                    case A_REPLACE: r.env = true; break;
                    default: break;
                }
            }
            return r;
        }

        static size_t weight( const Node& n )
        {
            size_t w = 64 + n.s.size();
            for ( auto& x : n.a )
                w += weight( x );
            for ( auto& x : n.m )
                w += x.first.size() + weight( x.second );
            return w;
        }
        void begin( const Op& o, size_t size, uint64_t perByte = 60 )
        {
            uint64_t extra = 0;
            for ( auto& f : o.faults )
                extra += 8 + uint64_t( f.span ) * 4 + f.data.size();
            W.ioCap = 64 + 3 * size + extra;
            // seen at most: 50 steps per byte of parsed text ("[[["), 3 per unit of weight; the documents replaced by the operation count as input too
            uint64_t held = 0;
            for ( auto& d : docs )
                held += d.second.has ? weight( d.second.model ) : 0;
            stepCap = 100000 + perByte * size + 400 * extra + 60 * held;
            W.ev( o.a[ 0 ].c_str(), long( size ) );
            if ( currentLocale() != "C" )
                hostLocale = localeState();
            W.beginOp( o.faults );
        }
        void end()
        {
            W.endOp();
            stepCap = 0;
            W.ioCap = 0;
            Counts c;
            for ( int i = 0; i < S_COUNT; i++ )
                c.n[ i ] = W.count[ i ];
            out.counts[ size_t( cur ) ] = c;
            for ( auto& m : W.misuse )
                bad( "fd.foreign", m );
            W.misuse.clear();
            if ( currentLocale() != "C" && hostLocale != localeState() )
                bad( "locale.changed", what + " left another locale behind: " + localeState() + " instead of " + hostLocale );
            if ( W.openCount() )
            {
                bad( "fd.leak", std::to_string( W.openCount() ) + " descriptor(s) still open after " + what );
                W.fds.clear();
            }
        }
        std::string what, hostLocale;

        // ---- comparing the document in memory
        bool fetch( DocState& d, Node& n )
        {
            std::string inc;
            bool        has = lib::root( d.d, n, inc );
            if ( !inc.empty() )
                bad( "tree.corrupt", inc );
            return has;
        }
        void unchanged( DocState& d, const char* cls, const std::string& when )
        {
            Node n;
            bool has = fetch( d, n );
            if ( has != d.has )
                bad( cls, when + ( has ? ": a document appeared" : ": the document disappeared" ) );
            else if ( has )
            {
                std::string df = ref::diff( n, d.model );
                if ( !df.empty() )
                    bad( cls, when + ": document changed at " + df );
            }
            resync( d, n, has );
        }
        void resync( DocState& d, const Node& n, bool has )
        {
            if ( has && d.has && ref::diff( n, d.model ).empty() )
                return;
            d.has     = has;
            d.model   = n;
            d.ordered = false;
        }
        // after a failed parse or serialize: previous document or none
        void noPartial( DocState& d, const std::string& when )
        {
            Node n;
            bool has = fetch( d, n );
            if ( !has )
            {
                d.has     = false;
                d.model   = Node();
                d.ordered = true;
                return;
            }
            if ( !d.has )
                bad( "stale.partial", when + " failed but left a document behind: " + ref::show( n, 80 ) );
            else
            {
                std::string df = ref::diff( n, d.model );
                if ( !df.empty() )
                    bad( "stale.partial", when + " failed and left an altered document: " + df );
            }
            resync( d, n, has );
        }

        static void dedupe( Node& n, bool last )
        {
            for ( auto& x : n.a )
                dedupe( x, last );
            for ( auto& x : n.m )
                dedupe( x.second, last );
            std::vector<std::pair<std::string, Node>> m;
            for ( auto& x : n.m )
            {
                Node* e = nullptr;
                for ( auto& y : m )
                    if ( y.first == x.first )
                        e = &y.second;
                if ( !e )
                    m.push_back( std::move( x ) );
                else if ( last )
                    *e = std::move( x.second );
            }
            n.m = std::move( m );
        }

        // A string whose escapes include NUL or lone surrogates, against what a reader may make of it: a lone surrogate is kept or
        // read as the replacement character, NUL ends the string, is dropped, replaced or kept in an overlong form.
        static bool looseText( const std::string& a, size_t i, const std::string& b, size_t j )
        {
            while ( i < a.size() )
            {
                if ( a[ i ] == 0 )
                    return true;
                if ( uint8_t( a[ i ] ) == 0xED && i + 2 < a.size() && uint8_t( a[ i + 1 ] ) >= 0xA0 )
                    return ( b.compare( j, 3, a, i, 3 ) == 0 && looseText( a, i + 3, b, j + 3 ) ) || ( b.compare( j, 3, "\xEF\xBF\xBD" ) == 0 && looseText( a, i + 3, b, j + 3 ) );
                if ( j >= b.size() || a[ i ] != b[ j ] )
                    return false;
                i++;
                j++;
            }
            return j == b.size();
        }
        static bool special( const std::string& a )
        {
            for ( size_t i = 0; i < a.size(); i++ )
                if ( a[ i ] == 0 || ( uint8_t( a[ i ] ) == 0xED && i + 1 < a.size() && uint8_t( a[ i + 1 ] ) >= 0xA0 ) )
                    return true;
            return false;
        }
        static bool loose( const Node& x, const Node& n )
        {
            if ( x.t != n.t )
                return false;
            if ( x.t == ref::Str )
                return looseText( x.s, 0, n.s, 0 );
            if ( x.t == ref::Arr )
            {
                if ( x.a.size() != n.a.size() )
                    return false;
                for ( size_t i = 0; i < x.a.size(); i++ )
                    if ( !loose( x.a[ i ], n.a[ i ] ) )
                        return false;
                return true;
            }
            if ( x.t == ref::Obj )
            {
                // names may have become equal: then only the presence of every ordinary name can be told
                bool                  odd = false;
                std::set<std::string> seen;
                for ( auto& m : x.m )
                    odd |= special( m.first ) || !seen.insert( m.first ).second;
                for ( auto& m : x.m )
                {
                    const Node* e = n.find( m.first );
                    if ( !special( m.first ) && ( !e || ( !odd && !loose( m.second, *e ) ) ) )
                        return false;
                }
                return n.m.size() <= x.m.size();
            }
            return ref::equal( x, n );
        }

        // Does the tree equal what the text denotes? (0 no, 1 yes, 2 cannot tell: documented latitude)
        int agrees( const ref::Result& r, const Node& n, Node& model, bool& ordered )
        {
            ordered = true;
            if ( r.depth > 500 )
                return 2;
            if ( !r.ok )
                return 0;
            if ( r.nulEsc || r.lone )
                return loose( r.v, n ) ? 2 : 0;
            if ( r.dup )
            {
                ordered = false;
                for ( bool last : { false, true } )
                {
                    model = r.v;
                    dedupe( model, last );
                    if ( ref::diff( n, model ).empty() )
                        return 1;
                }
                return 0;
            }
            model = r.v;
            return ref::diff( n, model ).empty() ? 1 : 0;
        }

        std::set<St> syntaxSet( const std::string& t, const ref::Result& r )
        {
            std::set<St> s;
            int          c   = r.off < t.size() ? int( uint8_t( t[ r.off ] ) ) : -1;
            int          tk  = r.tok < t.size() ? int( uint8_t( t[ r.tok ] ) ) : -1;
            switch ( r.err )
            {
                case ref::E_EMPTY: s = { lib::TEXT_INVALID, lib::VALUE }; break;
                case ref::E_VALUE:
                    s = { lib::VALUE };
                    if ( tk == 't' || tk == 'f' )
                        s.insert( lib::TRUE_FALSE );
                    if ( tk == 'n' )
                        s.insert( lib::EXP_NULL );
                    if ( tk == '+' || tk == '.' || tk == '-' )
                        s.insert( lib::FLOAT );
                    break;
                case ref::E_NAME: s = { lib::BEGIN_QUOTE }; break;
                case ref::E_COLON: s = { lib::COLON }; break;
                case ref::E_COMMA_OBJ: s = { lib::CLOSE_CURLY_COMMA }; break;
                case ref::E_COMMA_ARR: s = { lib::CLOSE_SQUARE_COMMA }; break;
                case ref::E_TRAIL_COMMA: s = { lib::VALUE, lib::BEGIN_QUOTE }; break;
                case ref::E_STR_CHAR: s = { lib::STR_CHAR }; break;
                case ref::E_STR_ESC: s = { lib::STR_ESC }; break;
                case ref::E_STR_END: s = { lib::PREMATURE_NUL, lib::END_QUOTE }; break;
                case ref::E_NUM_ZERO: s = { lib::LEADING_ZERO }; break;
                case ref::E_NUM: s = { lib::FLOAT, lib::VALUE, lib::CLOSE_CURLY_COMMA, lib::CLOSE_SQUARE_COMMA, lib::END_OF_FILE }; break;
                case ref::E_TRAILING: s = { lib::END_OF_FILE }; break;
                default: break;
            }
            if ( c <= 0 )
                s.insert( lib::PREMATURE_NUL );
            if ( c == 0 )
                s.insert( lib::END_OF_FILE );
            return s;
        }
        void position( const std::string& t, const ref::Result& r, const PR& p )
        {
            if ( r.ok || r.lax() || !lib::isSyntax( p.st ) )
                return;
            auto set = syntaxSet( t, r );
            int  l, c, l0, c0;
            ref::lineCol( t, r.off, l, c );
            ref::lineCol( t, r.tok, l0, c0 );
            std::string where = std::string( ref::errName[ r.err ] ) + " at line " + std::to_string( l ) + " column " + std::to_string( c ) + ": reported " + lib::stName[ p.st ] + " line " + std::to_string( p.line ) + " column " + std::to_string( p.col );
            if ( !set.count( p.st ) )
                bad( "syntax.status", where );
            if ( p.st == lib::TEXT_INVALID )
                return;
            if ( p.line != l )
                bad( "syntax.line", where );
            else if ( p.col > c || ( l0 == l && p.col < c0 ) || p.col < 1 )
                bad( "syntax.column", where );
        }
        void texts( const PR& p )
        {
            std::string a = lib::describe( p.st ), b = lib::describe( p );
            if ( a.empty() )
                bad( "status.text", std::string( "no description for " ) + lib::stName[ p.st ] );
            if ( b.compare( 0, a.size(), a ) != 0 )
                bad( "status.text", "description of the result lacks the cause: " + b );
            if ( p.st != lib::OK && p.line > 0 && p.st != lib::EXCEPTION )
            {
                std::string rest = b.substr( std::min( a.size(), b.size() ) );
                size_t      i    = rest.find( std::to_string( p.line ) );
                size_t      j    = i == std::string::npos ? i : rest.find( std::to_string( p.col ), i + std::to_string( p.line ).size() );
                if ( i == std::string::npos || j == std::string::npos )
                    bad( "status.text", "description lacks line " + std::to_string( p.line ) + " column " + std::to_string( p.col ) + ": " + b );
            }
        }

        // ---- parse
        void judgeParse( DocState& d, const PR& p, const std::vector<std::string>& versions, bool exists, bool dir, bool file, const std::string& label )
        {
            Fired      f      = fired();
            const bool opened = W.count[ S_OPEN ] > 0 && !f.open;
            W.ev( "parse.result", p.st, p.line, p.col );
            ( p.st == lib::OK ? out.oks : out.fails )++;
            std::vector<ref::Result> rs;
            for ( auto& v : versions )
                rs.push_back( ref::parse( v ) );
            if ( p.st == lib::OK )
            {
                Node n;
                bool has = fetch( d, n );
                if ( !has )
                {
                    bad( "parse.wrong", label + " reported success without a document" );
                    d.has = false;
                    return;
                }
                if ( !exists || dir )
                {
                    bad( "parse.phantom", label + " succeeded on something that is not a file" );
                    resync( d, n, has );
                    return;
                }
                int         best = 0;
                Node        model;
                bool        ordered = true;
                std::string df;
                bool        tooBig = file;
                for ( auto& v : versions )
                    if ( v.size() <= MAXFILE )
                        tooBig = false;
                for ( size_t i = 0; i < rs.size(); i++ )
                {
                    int a = agrees( rs[ i ], n, model, ordered );
                    if ( a > best )
                        best = a;
                    if ( a == 1 )
                        break;
                    if ( df.empty() && rs[ i ].ok )
                        df = ref::diff( rs[ i ].v, n );
                }
                if ( tooBig )
                    bad( "size.limit", label + " accepted a file of " + std::to_string( versions[ 0 ].size() ) + " bytes" );
                if ( best == 0 )
                {
                    bool anyOk = false;
                    for ( auto& r : rs )
                        anyOk |= r.ok;
                    if ( !anyOk )
                        bad( "parse.accept_invalid", label + " accepted " + quote( versions[ 0 ].substr( 0, 60 ) ) + " (" + ref::errName[ rs[ 0 ].err ] + " at byte " + std::to_string( rs[ 0 ].off ) + ") as " + ref::show( n, 60 ) );
                    else
                        bad( f.alloc ? "alloc.wrong" : "parse.wrong", label + " succeeded with another value: " + df );
                }
                d.has = true;
                if ( best == 1 )
                {
                    d.model   = model;
                    d.ordered = ordered;
                }
                else
                {
                    d.model   = n;
                    d.ordered = false;
                }
                return;
            }
            // failure
            const ref::Result& r0   = rs[ 0 ];
            bool               big  = file && exists && !dir && versions[ 0 ].size() > MAXFILE;
            bool               good = exists && !dir && !big && r0.ok && !r0.lax();
            if ( !f.any() && good )
                bad( "parse.reject_valid", label + " refused a valid text with " + lib::stName[ p.st ] + " line " + std::to_string( p.line ) + " column " + std::to_string( p.col ) + ": " + quote( versions[ 0 ].substr( 0, 60 ) ) );
            // allowed statuses
            std::set<St> ok;
            bool         syn = false;
            if ( !exists )
                ok.insert( lib::FILE_OPEN );
            if ( dir )
            {
                ok.insert( lib::FILE_OPEN );
                ok.insert( lib::FILE_READ );
                ok.insert( lib::FILE_LARGE );
                ok.insert( lib::TEXT_INVALID );
            }
            for ( size_t i = 0; i < versions.size(); i++ )
            {
                if ( file && versions[ i ].size() > MAXFILE )
                    ok.insert( lib::FILE_LARGE );
                if ( ( !rs[ i ].ok || rs[ i ].lax() ) && exists && !dir && !( file && versions[ i ].size() > MAXFILE ) )
                    syn = true;
            }
            if ( f.open )
                ok.insert( lib::FILE_OPEN );
            // once the file is open, whatever fails afterwards is a failure to read it
            if ( ( f.stat || f.misc ) && !opened )
                ok.insert( lib::FILE_OPEN );
            if ( f.stat || f.misc || f.read || f.close || f.eof || f.env )
                ok.insert( lib::FILE_READ );
            if ( f.env )
                syn = true;
            if ( f.alloc )
                ok.insert( lib::EXCEPTION );
            bool fine = ok.count( p.st ) || ( syn && lib::isSyntax( p.st ) ) || f.crash;
            if ( !fine && ( f.any() || !good ) )
            {
                if ( f.alloc && !f.io() && good )
                    bad( "alloc.misreport", label + " of a valid text without memory reported " + lib::stName[ p.st ] );
                bad( "status.class", label + " failed with " + lib::stName[ p.st ] );
            }
            if ( !f.any() && exists && !dir && !big && !( r0.ok ) )
                position( versions[ 0 ], r0, p );
            noPartial( d, label );
        }

        void opParse( const Op& o )
        {
            DocState&   d = doc( o.a[ 1 ] );
            std::string path = o.a[ 2 ], bytes;
            bool        exists = W.exists( path );
            bool        dir    = exists && W.files[ path ]->dir;
            W.get( path, bytes );
            std::vector<std::string> versions { bytes };
            begin( o, std::min<size_t>( bytes.size(), 70000 ) + 64, 400 );
            PR p = lib::parseFile( d.d, path.c_str() );
            end();
            if ( exists && W.files[ path ]->tail )
            {
                Fired      f      = fired();
                const bool opened = W.count[ S_OPEN ] > 0 && !f.open;
                W.ev( "parse.result", p.st );
                if ( p.st == lib::OK )
                {
                    if ( !f.eof )
                        bad( "size.limit", "parse accepted a file of " + std::to_string( bytes.size() + W.files[ path ]->tail ) + " bytes" );
                    d.has     = fetch( d, d.model );
                    d.ordered = false;
                    return;
                }
                out.fails++;
                if ( p.st != lib::FILE_LARGE && !( f.open && p.st == lib::FILE_OPEN ) && !( ( f.stat || f.misc ) && !opened && p.st == lib::FILE_OPEN ) && !( ( f.stat || f.misc || f.read || f.close || f.eof || f.env ) && p.st == lib::FILE_READ ) && !( f.alloc && p.st == lib::EXCEPTION ) && !f.crash )
                {
                    bad( "status.class", std::string( "parse of a file far beyond the size limit failed with " ) + lib::stName[ p.st ] );
                    bad( "size.limit", std::string( "parse of a file far beyond the size limit failed with " ) + lib::stName[ p.st ] );
                }
                noPartial( d, "parse" );
                texts( p );
                crashed( "", nullptr, nullptr );
                return;
            }
            for ( auto& v : W.versions )
                if ( v.first == path )
                    versions.push_back( v.second );
            // any earlier growth of the same file also counts as a version
            judgeParse( d, p, versions, exists, dir, true, "parse" );
            texts( p );
            std::string now;
            bool        still = W.get( path, now );
            if ( !dir && ( still != exists || ( still && now != versions.back() ) ) )
                bad( "file.touched", "parsing changed the file" );
            crashed( "", nullptr, nullptr );
        }
        void opParseBuf( const Op& o )
        {
            DocState&   d     = doc( o.a[ 1 ] );
            std::string bytes = o.a[ 2 ];
            bool        term  = o.a.size() < 4 || o.a[ 3 ] != "raw";
            std::string given = bytes;
            if ( term )
                given += '\0';
            begin( o, bytes.size() + 64, 400 );
            PR p = lib::parseBuf( d.d, given );
            end();
            if ( !term && !given.empty() && given.back() == 0 )
            {
                bytes.pop_back();
                term = true;
            }
            if ( !term )
            {
                W.ev( "parse.result", p.st );
                if ( p.st == lib::OK )
                    bad( "parse.accept_invalid", "buffer without terminator accepted" );
                else if ( p.st != lib::UNTERMINATED && !( p.st == lib::TEXT_INVALID && given.size() < 2 ) )
                    bad( "status.class", std::string( "buffer without terminator reported as " ) + lib::stName[ p.st ] );
                if ( p.st != lib::OK )
                    noPartial( d, "parse" );
                texts( p );
                return;
            }
            judgeParse( d, p, { bytes }, true, false, false, "parse of a buffer" );
            texts( p );
        }

        // ---- write
        bool golden( DocState& d, unsigned ind, char ch, std::string& e, St& st )
        {
            static const std::string gp = "/.golden";
            W.files.erase( gp );
            W.ioCap = 0;
            stepCap = 0;
            W.armed = false;
            W.faults.clear();
            int save[ S_COUNT ];
            memcpy( save, W.count, sizeof save );
            st = lib::write( d.d, gp.c_str(), ind, ch );
            memcpy( W.count, save, sizeof save );
            bool got = W.get( gp, e );
            W.files.erase( gp );
            if ( W.openCount() )
            {
                bad( "fd.leak", "descriptor still open after write" );
                W.fds.clear();
            }
            return got;
        }
        void crashed( const std::string& path, const std::string* old, const std::string* e )
        {
            if ( !W.zombie )
                return;
            W.zombie = false;
            W.st.restarts++;
            W.ev( "restart" );
            for ( auto& d : docs )
                drop( d.second );
            docs.clear();
            W.fds.clear();
            if ( path.empty() || !e )
                return;
            std::string now;
            bool        there = W.get( path, now );
            bool        same  = old ? ( there && now == *old ) : !there;
            bool        pre   = there && e->compare( 0, now.size(), now ) == 0 && now.size() <= e->size();
            if ( !same && !pre )
                bad( "crash.hybrid", "after a crash the file holds neither the old content nor a prefix of the new: " + quote( now.substr( 0, 100 ) ) );
            // reload
            DocState r;
            r.d = lib::make();
            W.beginOp( {} );
            PR p = lib::parseFile( r.d, path.c_str() );
            W.endOp();
            if ( p.st == lib::OK )
            {
                Node        n;
                std::string inc;
                lib::root( r.d, n, inc );
                ref::Result ro = ref::parse( old ? *old : std::string() ), re = ref::parse( *e );
                auto        matches = [ & ]( const ref::Result& x )
                {
                    if ( !x.ok )
                        return false;
                    if ( x.lax() )
                        return true;
                    if ( x.dup )
                    {
                        Node a = x.v, b = x.v;
                        dedupe( a, false );
                        dedupe( b, true );
                        return ref::diff( a, n ).empty() || ref::diff( b, n ).empty();
                    }
                    return ref::diff( x.v, n ).empty();
                };
                bool fine = ( old && matches( ro ) ) || matches( re );
                bool container = re.ok && ( re.v.t == ref::Arr || re.v.t == ref::Obj );
                if ( !fine && container )
                    bad( "crash.reload", "after a crash the file loads as neither the old nor the new document: " + ref::show( n, 100 ) );
            }
            lib::destroy( r.d );
        }
        void opWrite( const Op& o )
        {
            DocState&   d    = doc( o.a[ 1 ] );
            std::string path = o.a[ 2 ];
            unsigned    ind  = o.a.size() > 3 ? unsigned( atoi( o.a[ 3 ].c_str() ) ) : 2;
            char        ch   = o.a.size() > 4 ? char( atoi( o.a[ 4 ].c_str() ) ) : ' ';
            std::string old, e;
            bool        existed = W.exists( path );
            bool        dir     = existed && W.files[ path ]->dir;
            bool        hadOld  = W.get( path, old );
            bool        parent  = true;
            {
                size_t k = path.rfind( '/' );
                if ( k != std::string::npos && k > 0 )
                {
                    auto it = W.files.find( path.substr( 0, k ) );
                    parent  = it != W.files.end() && it->second->dir;
                }
            }
            bool finite = !d.has || d.model.finite();
            bool valid  = d.has && finite; // a complete serialization exists
            if ( d.has )
            {
                St   gs;
                bool got = golden( d, ind, ch, e, gs );
                if ( finite )
                {
                    if ( gs != lib::OK || !got )
                    {
                        bad( "write.spurious_fail", std::string( "fault-free write to a fresh file failed with " ) + lib::stName[ gs ] );
                        valid = false;
                    }
                    else
                    {
                        ref::Result r = ref::parse( e );
                        // latitude of the reader (lone surrogates, DEL) is none of the writer's making, ill-formed text is
                        if ( !r.ok )
                            bad( "write.invalid_json", "written text is not JSON (" + std::string( ref::errName[ r.err ] ) + " at byte " + std::to_string( r.off ) + "): " + quote( e.substr( r.off > 20 ? r.off - 20 : 0, 60 ) ) );
                        else
                        {
                            std::string df = ref::diff( d.model, r.v );
                            if ( !df.empty() )
                                bad( "write.value", "written text denotes another value: " + df );
                            else if ( d.ordered && !ref::equal( d.model, r.v, true ) )
                                bad( "write.order", "written text has the members in another order" );
                            else if ( !d.ordered )
                            {
                                d.model   = r.v; // adopt the order the library uses
                                d.ordered = true;
                            }
                        }
                    }
                }
                else if ( gs == lib::OK )
                    bad( "write.nonfinite", "write of a number JSON cannot represent reported success: " + quote( e.substr( 0, 80 ) ) );
                if ( currentLocale() != "C" )
                {
                    std::string l = currentLocale(), e2;
                    St          s2;
                    setLocale( "C" );
                    golden( d, ind, ch, e2, s2 );
                    setLocale( l );
                    if ( s2 != gs || ( gs == lib::OK && e2 != e ) )
                        bad( "locale.bytes", "under locale " + l + " the written text differs from the C locale: " + quote( e.substr( 0, 60 ) ) + " / " + quote( e2.substr( 0, 60 ) ) );
                }
                W.ev( "golden", gs );
                W.evs( "bytes", e );
            }
            begin( o, e.size() + d.model.count() * ( 4 + ind ) + 64 );
            St st = lib::write( d.d, path.c_str(), ind, ch );
            end();
            Fired f = fired();
            W.ev( "write.result", st );
            ( st == lib::OK ? out.oks : out.fails )++;
            std::string now;
            bool        there = W.get( path, now );
            W.evs( "file", now );
            bool        same  = there == hadOld && now == old && W.exists( path ) == existed;
            if ( f.crash )
            {
                if ( valid || !d.has )
                {
                    std::string none;
                    crashed( path, hadOld ? &old : nullptr, d.has ? &e : &none );
                }
                else
                    crashed( "", nullptr, nullptr );
                return;
            }
            if ( !d.has )
            {
                if ( st == lib::OK )
                    bad( "nodoc.accepted", "write without a document reported success" );
                else if ( st != lib::NO_DOCUMENT && !( f.open && st == lib::FILE_OPEN ) && !( ( dir || !parent ) && st == lib::FILE_OPEN ) && !( f.alloc && st == lib::EXCEPTION ) )
                    bad( "status.class", std::string( "write without a document reported " ) + lib::stName[ st ] );
                if ( !same )
                {
                    bad( "write.destroyed", "refused write changed the file" );
                    bad( "nodoc.touched", "write without a document created or altered the file" );
                }
            }
            else if ( !finite )
            {
                if ( st == lib::OK )
                    bad( "write.nonfinite", "write of a number JSON cannot represent reported success" );
                else if ( !f.any() && !dir && parent && st != lib::FLOAT && st != lib::VALUE_TYPE && st != lib::NO_DOCUMENT )
                    bad( "status.class", std::string( "write of a non-finite number reported " ) + lib::stName[ st ] );
            }
            else if ( valid )
            {
                if ( st == lib::OK )
                {
                    if ( dir || !parent )
                        bad( "write.silent_loss", "write to an unusable path reported success" );
                    else if ( !there || now != e )
                    {
                        std::string dt = !there ? "file is absent" : "file holds " + std::to_string( now.size() ) + " bytes, serialization has " + std::to_string( e.size() );
                        bad( "write.silent_loss", "write reported success but " + dt );
                        if ( f.alloc )
                            bad( "alloc.wrong", "write reported success but " + dt );
                    }
                    if ( f.close )
                        bad( "write.silent_loss", "closing the file failed but the write reported success" );
                }
                else
                {
                    std::set<St> ok;
                    if ( f.open || dir || !parent )
                        ok.insert( lib::FILE_OPEN );
                    if ( f.write || f.close || f.quota || f.zero || f.misc || f.stat )
                        ok.insert( lib::FILE_WRITE );
                    if ( f.misc || f.stat )
                        ok.insert( lib::FILE_OPEN );
                    if ( f.alloc )
                        ok.insert( lib::EXCEPTION );
                    if ( ok.empty() )
                        bad( "write.spurious_fail", std::string( "write failed with " ) + lib::stName[ st ] + " though nothing went wrong" );
                    else if ( !ok.count( st ) )
                    {
                        bad( "status.class", std::string( "write failed with " ) + lib::stName[ st ] );
                        if ( f.alloc && !f.io() )
                            bad( "alloc.misreport", std::string( "write without memory reported " ) + lib::stName[ st ] );
                    }
                    bool pre = there && now.size() <= e.size() && e.compare( 0, now.size(), now ) == 0;
                    if ( !same && !pre )
                        bad( "write.hybrid", "failed write left neither the old content nor a prefix of the new: " + quote( now.substr( 0, 100 ) ) );
                    if ( st == lib::FILE_OPEN && !same && !f.misc && !f.stat )
                        bad( "write.destroyed", "write that could not open the file changed it" );
                }
            }
            unchanged( d, "tree.changed", "write" );
            PR p { st, 0, 0 };
            texts( p );
        }

        // ---- typed data
        // text that no document of this library can hold
        static bool unfit( const Node& n )
        {
            if ( n.s.find( '\0' ) != std::string::npos )
                return true;
            for ( auto& c : n.a )
                if ( unfit( c ) )
                    return true;
            for ( auto& m : n.m )
                if ( m.first.find( '\0' ) != std::string::npos || unfit( m.second ) )
                    return true;
            return false;
        }
        static Node readNode( const std::string& text )
        {
            ref::Result r = ref::parse( text );
            return r.v;
        }
        void opSer( const Op& o )
        {
            DocState& d = doc( o.a[ 1 ] );
            int       t = lib::typeByName( o.a[ 2 ] );
            Node      v = lib::typeExpect( t, readNode( o.a[ 3 ] ) );
            bool      nul = unfit( v );
            begin( o, o.a[ 3 ].size() + 64, 400 );
            St st = lib::ser( d.d, t, v );
            end();
            Fired f = fired();
            W.ev( "ser.result", st );
            ( st == lib::OK ? out.oks : out.fails )++;
            if ( st == lib::OK )
            {
                Node n;
                bool has = fetch( d, n );
                Node e   = lib::typeDoc( t, v );
                if ( nul )
                    bad( f.alloc ? "alloc.wrong" : "ser.wrong", "serialize of text with a null character reported success" );
                else if ( !has )
                    bad( f.alloc ? "alloc.wrong" : "ser.wrong", "serialize reported success without a document" );
                else
                {
                    std::string df = ref::diff( e, n );
                    if ( !df.empty() )
                        bad( f.alloc ? "alloc.wrong" : "ser.wrong", "serialized " + o.a[ 2 ] + " differs at " + df );
                }
                d.has     = has;
                d.model   = n;
                d.ordered = false;
            }
            else
            {
                if ( nul && st == lib::STR_CHAR )
                    ;
                else if ( nul && !( f.alloc && st == lib::EXCEPTION ) )
                    bad( "status.class", "serialize of text with a null character reported " + std::string( lib::stName[ st ] ) );
                else if ( !f.alloc )
                    bad( "ser.spurious", "serialize of " + o.a[ 2 ] + " failed with " + lib::stName[ st ] );
                else if ( st != lib::EXCEPTION )
                {
                    bad( "alloc.misreport", "serialize without memory reported " + std::string( lib::stName[ st ] ) );
                    bad( "status.class", "serialize without memory reported " + std::string( lib::stName[ st ] ) );
                }
                noPartial( d, "serialize" );
            }
        }
        void shapeStatus( const char* op, St st, int defects, const Fired& f, const DocState& d, const std::string& tn )
        {
            if ( !d.has )
            {
                if ( st == lib::OK )
                    bad( "nodoc.accepted", std::string( op ) + " without a document reported success" );
                else if ( st != lib::NO_DOCUMENT && !( f.alloc && st == lib::EXCEPTION ) )
                    bad( "status.class", std::string( op ) + " without a document reported " + lib::stName[ st ] );
                return;
            }
            std::string cls = op[ 0 ] == 'v' ? "val.wrong" : "des.wrong";
            if ( defects == 0 )
            {
                if ( st == lib::OK || ( f.alloc && st == lib::EXCEPTION ) )
                    return;
                if ( f.alloc )
                    bad( "alloc.misreport", std::string( op ) + " of a right shape without memory reported " + lib::stName[ st ] );
                bad( cls, std::string( op ) + " of a document of the right shape for " + tn + " failed with " + lib::stName[ st ] );
            }
            else
            {
                if ( f.alloc && st == lib::EXCEPTION )
                    return;
                if ( st == lib::OK )
                {
                    bad( cls, std::string( op ) + " of a document of the wrong shape for " + tn + " reported success" );
                    if ( f.alloc )
                        bad( "alloc.wrong", std::string( op ) + " of a wrong shape without memory reported success" );
                }
                else if ( !( st == lib::VALUE_TYPE && ( defects & 1 ) ) && !( st == lib::NAME_NOT_PRESENT && ( defects & 2 ) ) )
                {
                    bad( "status.class", std::string( op ) + " into " + tn + " failed with " + lib::stName[ st ] + " (defects " + std::to_string( defects ) + ")" );
                }
            }
        }
        static std::vector<int> pathOf( const std::string& s )
        {
            std::vector<int> v;
            size_t           i = 0;
            while ( i < s.size() )
            {
                if ( s[ i ] == '.' )
                    i++;
                else
                {
                    v.push_back( atoi( s.c_str() + i ) );
                    while ( i < s.size() && s[ i ] != '.' )
                        i++;
                }
            }
            return v;
        }
        static Node* at( Node& root, const std::vector<int>& path )
        {
            Node* n = &root;
            for ( int i : path )
            {
                if ( n->t == ref::Arr && !n->a.empty() )
                    n = &n->a[ size_t( i ) % n->a.size() ];
                else if ( n->t == ref::Obj && !n->m.empty() )
                    n = &n->m[ size_t( i ) % n->m.size() ].second;
                else
                    break;
            }
            return n;
        }
        // what a typed operation is aimed at: the document, a value inside it, or a named member of such a value
        struct Aim
        {
            bool             sub = false, named = false;
            std::vector<int> path;
            std::string      name;
            const Node*      node    = nullptr;
            int              defects = 1;
        };
        Aim aim( const Op& o, DocState& d, int t )
        {
            Aim a;
            for ( size_t i = 3; i < o.a.size(); i++ )
                if ( o.a[ i ][ 0 ] == '@' )
                {
                    a.sub  = true;
                    a.path = pathOf( o.a[ i ].substr( 1 ) );
                    if ( i + 1 < o.a.size() )
                    {
                        a.named = true;
                        a.name  = o.a[ i + 1 ];
                    }
                    break;
                }
            if ( !d.has )
            {
                a.sub = false;
                return a;
            }
            a.node = a.sub ? at( d.model, a.path ) : &d.model;
            if ( a.named )
            {
                if ( a.node->t != ref::Obj )
                    a.node = nullptr;
                else
                {
                    a.node    = a.node->find( a.name );
                    a.defects = 2;
                }
            }
            if ( a.node )
                a.defects = lib::typeDefects( t, *a.node );
            return a;
        }
        void opVal( const Op& o )
        {
            DocState& d = doc( o.a[ 1 ] );
            int       t = lib::typeByName( o.a[ 2 ] );
            Aim       a = aim( o, d, t );
            begin( o, weight( d.model ) + 64 );
            St st = a.sub ? lib::valAt( d.d, d.model, a.path, a.named ? a.name.c_str() : nullptr, t ) : lib::val( d.d, t );
            end();
            Fired f = fired();
            W.ev( "val.result", st );
            ( st == lib::OK ? out.oks : out.fails )++;
            shapeStatus( "validate", st, a.defects, f, d, o.a[ 2 ] );
            unchanged( d, "tree.changed", "validate" );
        }
        void opDes( const Op& o )
        {
            DocState& d = doc( o.a[ 1 ] );
            int       t = lib::typeByName( o.a[ 2 ] );
            Node      prior, got;
            bool      reuse = o.a.size() > 3 && o.a[ 3 ][ 0 ] != '@' && lib::typeReusable( t );
            if ( reuse )
                prior = lib::typeExpect( t, readNode( o.a[ 3 ] ) );
            Aim a = aim( o, d, t );
            begin( o, weight( d.model ) + 64 );
            St st = a.sub ? lib::desAt( d.d, d.model, a.path, a.named ? a.name.c_str() : nullptr, t, reuse ? &prior : nullptr, got ) : lib::des( d.d, t, reuse ? &prior : nullptr, got );
            end();
            Fired f = fired();
            W.ev( "des.result", st );
            ( st == lib::OK ? out.oks : out.fails )++;
            shapeStatus( "deserialize", st, a.defects, f, d, o.a[ 2 ] );
            if ( st == lib::OK && a.node )
            {
                Node        e  = lib::typeExpect( t, *a.node );
                std::string df = ref::diff( e, got );
                if ( !df.empty() )
                {
                    bad( "des.wrong", "deserialized " + o.a[ 2 ] + " differs at " + df );
                    if ( f.alloc )
                        bad( "alloc.wrong", "deserialized " + o.a[ 2 ] + " differs at " + df );
                }
            }
            unchanged( d, "tree.changed", "deserialize" );
        }
        void opSerAt( const Op& o ) // serialize into an existing value: d path type value
        {
            DocState& d = doc( o.a[ 1 ] );
            if ( !d.has )
                return;
            auto  path = pathOf( o.a[ 2 ] );
            int   t    = lib::typeByName( o.a[ 3 ] );
            Node  v    = lib::typeExpect( t, readNode( o.a[ 4 ] ) );
            Node  e    = d.model;
            Node* tgt  = at( e, path );
            Node  w    = lib::typeDoc( t, v );
            bool  can  = tgt->t == w.t;
            bool  flat = w.t != ref::Obj && w.t != ref::Arr;
            bool  nul  = unfit( w );
            if ( lib::typeMerges( t ) && tgt->t == ref::Arr )
                return; // members added to an array become elements: not part of any promise
            if ( can )
            {
                if ( lib::typeMerges( t ) )
                {
                    for ( auto& m : w.m )
                        if ( Node* x = tgt->find( m.first ) )
                            *x = m.second;
                        else
                            tgt->m.push_back( m );
                }
                else
                    *tgt = w;
            }
            begin( o, weight( d.model ) + o.a[ 4 ].size() + 64 );
            St st = lib::serAt( d.d, d.model, path, t, v );
            end();
            Fired f = fired();
            W.ev( "serat.result", st );
            ( st == lib::OK ? out.oks : out.fails )++;
            if ( st != lib::OK )
            {
                if ( can && nul && ( st == lib::STR_CHAR || ( f.alloc && st == lib::EXCEPTION ) ) )
                    ;
                else if ( can && !f.alloc && !nul )
                    bad( "ser.spurious", std::string( "serializing into an existing value failed with " ) + lib::stName[ st ] );
                else if ( f.alloc ? ( st != lib::EXCEPTION && !( !can && st == lib::VALUE_TYPE ) ) : st != lib::VALUE_TYPE )
                {
                    bad( "status.class", std::string( "serializing into an existing value reported " ) + lib::stName[ st ] );
                    if ( f.alloc && can )
                        bad( "alloc.misreport", std::string( "serializing into an existing value without memory reported " ) + lib::stName[ st ] );
                }
                if ( !can )
                {
                    unchanged( d, "tree.changed", "serializing into a value of another type" );
                    return;
                }
            }
            else if ( nul )
                bad( "ser.wrong", "serializing text with a null character into an existing value reported success" );
            else if ( !can )
                bad( "ser.wrong", "serializing into a value of another type reported success" );
            Node        n;
            bool        has = fetch( d, n );
            std::string df  = has ? ref::diff( e, n ) : "no document";
            if ( st == lib::OK && can && !nul && !df.empty() )
                bad( f.alloc ? "alloc.wrong" : "ser.wrong", "after serializing " + o.a[ 3 ] + " into an existing value the document differs at " + df );
            // a failure without memory may leave that value half filled: only the rest of the document is known
            d.has     = has;
            d.model   = df.empty() ? e : n;
            d.ordered = d.ordered && flat && df.empty();
        }
        void opAdd( const Op& o )
        {
            DocState& d = doc( o.a[ 1 ] );
            if ( !d.has )
                return;
            auto        path = pathOf( o.a[ 2 ] );
            std::string name = o.a[ 3 ].c_str(); // passed as a C string
            int         t    = lib::typeByName( o.a[ 4 ] );
            if ( !lib::typeNestable( t ) )
                return;
            Node  v   = lib::typeExpect( t, readNode( o.a[ 5 ] ) );
            Node  e   = d.model;
            Node* tgt = at( e, path );
            bool  can = true, replaced = false, nul = unfit( v );
            if ( tgt->t == ref::Obj )
            {
                if ( Node* x = tgt->find( name ) )
                {
                    *x       = lib::typeDoc( t, v );
                    replaced = true;
                }
                else
                    tgt->m.emplace_back( name, lib::typeDoc( t, v ) );
            }
            else if ( tgt->t == ref::Arr )
                tgt->a.push_back( lib::typeDoc( t, v ) );
            else
                can = false;
            begin( o, weight( d.model ) + o.a[ 5 ].size() + 64 );
            St st = lib::add( d.d, d.model, path, name, t, v );
            end();
            Fired f = fired();
            W.ev( "add.result", st );
            ( st == lib::OK ? out.oks : out.fails )++;
            if ( st == lib::OK )
            {
                if ( !can )
                    bad( "ser.wrong", "adding to a value that cannot hold members reported success" );
                if ( nul )
                    bad( "ser.wrong", "adding text with a null character reported success" );
                Node n;
                bool has = fetch( d, n );
                std::string df = has ? ref::diff( e, n ) : "no document";
                if ( !df.empty() )
                    bad( f.alloc ? "alloc.wrong" : "ser.wrong", "after adding " + quote( name ) + " the document differs at " + df );
                bool simple = v.t != ref::Obj && v.t != ref::Arr;
                d.has       = has;
                if ( df.empty() )
                {
                    d.model   = e;
                    d.ordered = d.ordered && simple && !replaced;
                }
                else
                {
                    d.model   = n;
                    d.ordered = false;
                }
            }
            else
            {
                if ( nul && st == lib::STR_CHAR )
                    ;
                else if ( can && !f.alloc && !nul )
                    bad( "ser.spurious", std::string( "adding a member failed with " ) + lib::stName[ st ] );
                else if ( f.alloc ? ( st != lib::EXCEPTION && !( !can && st == lib::VALUE_TYPE ) ) : st != lib::VALUE_TYPE )
                {
                    bad( "status.class", std::string( "adding a member reported " ) + lib::stName[ st ] );
                    if ( f.alloc && can )
                        bad( "alloc.misreport", std::string( "adding a member without memory reported " ) + lib::stName[ st ] );
                }
                unchanged( d, "stale.partial", "failed adding of a member" );
            }
        }
        void opSet( const Op& o )
        {
            DocState& d = doc( o.a[ 1 ] );
            if ( !d.has )
                return;
            auto  path = pathOf( o.a[ 2 ] );
            Node  leaf = readNode( o.a[ 3 ] );
            if ( leaf.s.find( '\0' ) != std::string::npos )
                return;
            if ( o.a[ 3 ] == "nan" || o.a[ 3 ] == "inf" )
            {
                leaf.t = ref::Num;
                leaf.n = o.a[ 3 ] == "nan" ? std::nan( "" ) : HUGE_VAL;
            }
            Node* tgt = at( d.model, path );
            if ( tgt->t != leaf.t || leaf.t == ref::Arr || leaf.t == ref::Obj || leaf.t == ref::Null )
                return;
            begin( o, 1000 + leaf.s.size() );
            bool ok = lib::setLeaf( d.d, d.model, path, leaf );
            end();
            if ( ok )
                *tgt = leaf;
            unchanged( d, "tree.changed", "editing a value" );
        }
        // the exact steps of a path; false: it leads to the document itself
        static bool steps( const Node& root, const std::string& s, std::vector<int>& parent, int& child )
        {
            const Node* n = &root;
            parent.clear();
            child = -1;
            for ( int i : pathOf( s ) )
            {
                size_t k = n->t == ref::Arr ? n->a.size() : n->t == ref::Obj ? n->m.size() : 0;
                if ( !k )
                    break;
                if ( child >= 0 )
                    parent.push_back( child );
                child = int( size_t( i ) % k );
                n     = n->t == ref::Arr ? &n->a[ size_t( child ) ] : &n->m[ size_t( child ) ].second;
            }
            return child >= 0;
        }
        static void erase( Node& n, int child )
        {
            if ( n.t == ref::Arr )
                n.a.erase( n.a.begin() + child );
            else
                n.m.erase( n.m.begin() + child );
        }
        void edited( DocState& d, const Node& e, lib::Edit r, const char* kind )
        {
            W.ev( kind, r );
            if ( r == lib::LOST )
                bad( "edit.wrong", std::string( kind ) + ": the value is not where it was" );
            Node        n;
            bool        has = fetch( d, n );
            std::string df  = has ? ref::diff( e, n ) : "no document";
            if ( !df.empty() && r != lib::LOST )
                bad( "edit.wrong", std::string( "after " ) + kind + " the document differs at " + df );
            d.has   = has;
            d.model = df.empty() ? e : n;
            if ( !df.empty() )
                d.ordered = false;
        }
        void opDrop( const Op& o ) // d path how
        {
            DocState&        d = doc( o.a[ 1 ] );
            std::vector<int> parent;
            int              child;
            if ( !d.has || !steps( d.model, o.a[ 2 ], parent, child ) )
                return;
            Node e = d.model;
            erase( *at( e, parent ), child );
            begin( o, 1000 + weight( d.model ) );
            lib::Edit r = lib::drop( d.d, d.model, parent, child, atoi( o.a[ 3 ].c_str() ) );
            end();
            edited( d, e, r, "removing a value" );
        }
        void opClear( const Op& o ) // d path how
        {
            DocState& d = doc( o.a[ 1 ] );
            if ( !d.has )
                return;
            auto  path = pathOf( o.a[ 2 ] );
            Node  e    = d.model;
            Node* n    = at( e, path );
            n->a.clear();
            n->m.clear();
            begin( o, 1000 + weight( d.model ) );
            lib::Edit r = lib::clear( d.d, d.model, path, atoi( o.a[ 3 ].c_str() ) );
            end();
            edited( d, e, r, "removing all values" );
        }
        void opMove( const Op& o ) // d from to name place how
        {
            DocState&        d = doc( o.a[ 1 ] );
            std::vector<int> parent;
            int              child;
            if ( !d.has || o.a[ 4 ].find( '\0' ) != std::string::npos || !steps( d.model, o.a[ 2 ], parent, child ) )
                return;
            std::vector<int> to, full = parent;
            full.push_back( child );
            int last;
            if ( steps( d.model, o.a[ 3 ], to, last ) )
                to.push_back( last );
            if ( to.size() >= full.size() && std::equal( full.begin(), full.end(), to.begin() ) )
                return; // into itself
            Node  e   = d.model;
            Node* dst = at( e, to );
            if ( dst->t != ref::Arr && dst->t != ref::Obj )
                return;
            int         how   = atoi( o.a[ 6 ].c_str() );
            bool        repl  = how & 4;
            std::string name  = o.a[ 4 ];
            Node*       from  = at( e, parent );
            Node        moved = *at( e, full );
            // the expected document when the value arrives (good) and when it is lost on the way (gone)
            Node gone = e;
            erase( *at( gone, parent ), child );
            const bool  same  = from == dst;
            int         place = dst->t == ref::Arr ? atoi( o.a[ 5 ].c_str() ) : -1;
            bool        taken = false;
            if ( dst->t == ref::Arr )
            {
                long n = long( dst->a.size() ) - ( same ? 1 : 0 );
                if ( place >= n )
                    place = -1;
            }
            else
                for ( size_t i = 0; i < dst->m.size(); i++ )
                    taken = taken || ( dst->m[ i ].first == name && !( same && int( i ) == child ) );
            begin( o, 1000 + weight( d.model ) + name.size() );
            lib::Edit r = lib::move( d.d, d.model, parent, child, to, name, place, how );
            end();
            if ( r == lib::NO_MEMORY && !fired().alloc )
                bad( "edit.wrong", "moving a value failed without memory though there was some" );
            if ( ( r == lib::REFUSED ) != ( taken && !repl && r != lib::NO_MEMORY ) && r != lib::LOST )
                bad( "edit.wrong", r == lib::REFUSED ? "inserting a new name was refused" : "inserting a name twice was accepted" );
            if ( r == lib::DONE )
            {
                // mark the old place, insert, sweep
                if ( from->t == ref::Arr )
                    from->a[ size_t( child ) ].s = "\1gone";
                else
                    from->m[ size_t( child ) ].second.s = "\1gone";
                auto isGone = [ & ]( const Node& x ) { return x.s == "\1gone"; };
                dst         = at( e, to );
                if ( dst->t == ref::Arr )
                {
                    size_t k = 0, seen = 0;
                    while ( k < dst->a.size() && ( place < 0 || int( seen ) < place || isGone( dst->a[ k ] ) ) )
                        seen += isGone( dst->a[ k++ ] ) ? 0 : 1;
                    dst->a.insert( dst->a.begin() + long( k ), moved );
                }
                else
                {
                    Node* x = nullptr;
                    for ( auto& m : dst->m )
                        if ( m.first == name && !isGone( m.second ) )
                            x = &m.second;
                    if ( x )
                        *x = moved;
                    else
                        dst->m.emplace_back( name, moved );
                }
                std::function<void( Node& )> sweep = [ & ]( Node& x ) {
                    for ( size_t i = 0; i < x.a.size(); )
                        if ( isGone( x.a[ i ] ) )
                            x.a.erase( x.a.begin() + long( i ) );
                        else
                            sweep( x.a[ i++ ] );
                    for ( size_t i = 0; i < x.m.size(); )
                        if ( isGone( x.m[ i ].second ) )
                            x.m.erase( x.m.begin() + long( i ) );
                        else
                            sweep( x.m[ i++ ].second );
                };
                sweep( e );
                if ( taken )
                    d.ordered = false;
                edited( d, e, r, "moving a value" );
            }
            else
                edited( d, r == lib::NOT_DONE ? e : gone, r, "moving a value" );
        }
        void opCheck( const Op& o )
        {
            DocState& d = doc( o.a[ 1 ] );
            unchanged( d, "tree.changed", "look" );
            if ( !d.has )
                return;
            begin( o, d.model.count() * 200 + 1000 );
            std::string w = lib::lookups( d.d, d.model, mix( salt, uint64_t( cur ) ), 300 );
            end();
            if ( !w.empty() )
                bad( "find.wrong", w );
        }
        void opFind( const Op& o )
        {
            DocState& d = doc( o.a[ 1 ] );
            if ( !d.has || o.a[ 3 ].find( '\0' ) != std::string::npos )
                return;
            begin( o, 1000 + o.a[ 3 ].size() );
            std::string w;
            lib::findOne( d.d, d.model, pathOf( o.a[ 2 ] ), o.a[ 3 ], w );
            end();
            if ( !w.empty() )
            {
                bad( "find.wrong", w );
                if ( fired().alloc )
                    bad( "alloc.wrong", w );
            }
        }

        // ---- storage damage
        void opDamage( const Op& o )
        {
            auto it = W.files.find( o.a[ 1 ] );
            if ( it == W.files.end() || it->second->dir )
                return;
            std::string& b = it->second->bytes;
            size_t       x = o.a.size() > 2 ? size_t( strtoull( o.a[ 2 ].c_str(), nullptr, 10 ) ) : 0;
            size_t       n = o.a.size() > 3 ? size_t( strtoull( o.a[ 3 ].c_str(), nullptr, 10 ) ) : 0;
            size_t       p = b.empty() ? 0 : x % ( b.size() + 1 );
            W.st.damage++;
            const std::string& k = o.a[ 0 ];
            if ( k == "flip" )
            {
                if ( !b.empty() )
                    b[ x % b.size() ] = char( b[ x % b.size() ] ^ ( 1 << ( n % 8 ) ) );
            }
            else if ( k == "cut" )
                b.resize( p );
            else if ( k == "zero" )
                for ( size_t i = p; i < b.size() && i < p + n; i++ )
                    b[ i ] = 0;
            else if ( k == "fill" )
                for ( size_t i = p; i < b.size() && i < p + o.a[ 3 ].size(); i++ )
                    b[ i ] = o.a[ 3 ][ i - p ];
            else if ( k == "ins" )
                b.insert( p, o.a[ 3 ] );
            else if ( k == "erase" )
                b.erase( p, n );
            else if ( k == "dup" )
                b.insert( p, b.substr( p, n ) );
            else if ( k == "swap" )
            {
                if ( p + 2 * n <= b.size() )
                    for ( size_t i = 0; i < n; i++ )
                        std::swap( b[ p + i ], b[ p + n + i ] );
            }
            W.evs( k.c_str(), b );
        }

        void step( const Op& o )
        {
            const std::string& v = o.a[ 0 ];
            what                 = v;
            auto need            = [ & ]( size_t n ) { return o.a.size() > n; };
            if ( v == "put" && need( 2 ) )
            {
                W.put( o.a[ 1 ], o.a[ 2 ] );
                W.evs( "put", o.a[ 2 ] );
            }
            else if ( v == "pad" && need( 3 ) ) // grow a file to exactly n bytes: white space after it (mode ws) or a long string document (mode str)
            {
                std::string b;
                W.get( o.a[ 1 ], b );
                size_t n = size_t( atol( o.a[ 2 ].c_str() ) );
                if ( o.a[ 3 ] == "ws" )
                {
                    if ( b.size() < n )
                        b.append( n - b.size(), ' ' );
                }
                else if ( o.a[ 3 ] == "wslead" )
                {
                    if ( b.size() < n )
                        b.insert( 0, std::string( n - b.size(), '\n' ) );
                }
                else if ( o.a[ 3 ] == "str" )
                {
                    b = "[\"";
                    while ( b.size() + 2 < n )
                        b += char( 'a' + b.size() % 26 );
                    b += "\"]";
                }
                else // nums
                {
                    b = "[1";
                    while ( b.size() + 2 < n )
                        b += b.size() % 2 ? '2' : ',';
                    b += b.back() == ',' ? "3]" : "]";
                    while ( b.size() < n )
                        b += ' ';
                }
                W.put( o.a[ 1 ], b );
                W.ev( "pad", long( b.size() ) );
            }
            else if ( v == "tail" && need( 2 ) ) // a huge file: that many blanks follow the content
            {
                auto it = W.files.find( o.a[ 1 ] );
                if ( it != W.files.end() && !it->second->dir )
                    it->second->tail = strtoull( o.a[ 2 ].c_str(), nullptr, 10 );
                W.ev( "tail" );
            }
            else if ( v == "nest" && need( 3 ) ) // deeply nested document
            {
                size_t      n = size_t( atol( o.a[ 2 ].c_str() ) );
                std::string b;
                if ( o.a[ 3 ] == "arr" || o.a[ 3 ] == "open" )
                    b.append( n, '[' );
                else
                    for ( size_t i = 0; i < n; i++ )
                        b += "{\"a\":";
                if ( o.a[ 3 ] == "arr" )
                    b += "1" + std::string( n, ']' );
                else if ( o.a[ 3 ] == "obj" )
                    b += "1" + std::string( n, '}' );
                W.put( o.a[ 1 ], b );
            }
            else if ( v == "many" && need( 3 ) ) // object with n members
            {
                size_t      n = size_t( atol( o.a[ 2 ].c_str() ) );
                std::string b = "{";
                for ( size_t i = 0; i < n; i++ )
                {
                    size_t k = o.a[ 3 ] == "asc" ? i : o.a[ 3 ] == "desc" ? n - i : ( i * 7919 ) % n;
                    std::string key = std::to_string( 100000 + k );
                    b += ( i ? ",\"" : "\"" ) + key + "\":" + std::to_string( i % 10 );
                }
                W.put( o.a[ 1 ], b + "}" );
            }
            else if ( v == "rm" && need( 1 ) )
                W.files.erase( o.a[ 1 ] );
            else if ( v == "mkdir" && need( 1 ) )
            {
                auto i              = std::make_shared<Inode>();
                i->dir              = true;
                W.files[ o.a[ 1 ] ] = i;
            }
            else if ( v == "fdbase" && need( 1 ) )
                W.fdBase = atoi( o.a[ 1 ].c_str() );
            else if ( v == "as" )
                ; // the family of histories this one belongs to
            else if ( v == "salt" && need( 1 ) )
                salt = strtoull( o.a[ 1 ].c_str(), nullptr, 10 );
            else if ( v == "locale" && need( 1 ) )
            {
                if ( setLocale( o.a[ 1 ] ) )
                    W.st.locales++;
                W.ev( "locale" );
            }
            else if ( v == "del" && need( 1 ) )
            {
                auto it = docs.find( atoi( o.a[ 1 ].c_str() ) );
                if ( it != docs.end() )
                {
                    drop( it->second );
                    docs.erase( it );
                }
            }
            else if ( v == "restart" )
            {
                for ( auto& d : docs )
                    drop( d.second );
                docs.clear();
                W.st.restarts++;
            }
            else if ( v == "parse" && need( 2 ) )
                opParse( o );
            else if ( v == "parsebuf" && need( 2 ) )
                opParseBuf( o );
            else if ( v == "write" && need( 2 ) )
                opWrite( o );
            else if ( v == "ser" && need( 3 ) )
                opSer( o );
            else if ( v == "serat" && need( 4 ) )
                opSerAt( o );
            else if ( v == "val" && need( 2 ) )
                opVal( o );
            else if ( v == "des" && need( 2 ) )
                opDes( o );
            else if ( v == "add" && need( 5 ) )
                opAdd( o );
            else if ( v == "set" && need( 3 ) )
                opSet( o );
            else if ( v == "drop" && need( 3 ) )
                opDrop( o );
            else if ( v == "clear" && need( 3 ) )
                opClear( o );
            else if ( v == "move" && need( 6 ) )
                opMove( o );
            else if ( v == "check" && need( 1 ) )
                opCheck( o );
            else if ( v == "find" && need( 3 ) )
                opFind( o );
            else if ( v == "describe" )
            {
                static const struct
                {
                    St          s;
                    const char* k[ 3 ];
                } words[] = { { lib::FILE_OPEN, { "open", nullptr, nullptr } }, { lib::FILE_READ, { "read", nullptr, nullptr } }, { lib::FILE_LARGE, { "large", "big", "size" } },
                              { lib::FILE_WRITE, { "writ", nullptr, nullptr } }, { lib::UNTERMINATED, { "terminat", nullptr, nullptr } }, { lib::EXCEPTION, { "exception", "memory", nullptr } },
                              { lib::VALUE_TYPE, { "type", nullptr, nullptr } }, { lib::NAME_NOT_PRESENT, { "name", nullptr, nullptr } }, { lib::COLON, { "colon", nullptr, nullptr } },
                              { lib::OPEN_CURLY, { "curly", nullptr, nullptr } }, { lib::CLOSE_CURLY_COMMA, { "curly", nullptr, nullptr } }, { lib::OPEN_SQUARE, { "square", nullptr, nullptr } },
                              { lib::CLOSE_SQUARE_COMMA, { "square", nullptr, nullptr } }, { lib::STR_ESC, { "escape", nullptr, nullptr } }, { lib::STR_CHAR, { "char", nullptr, nullptr } },
                              { lib::BEGIN_QUOTE, { "quote", nullptr, nullptr } }, { lib::END_QUOTE, { "quote", nullptr, nullptr } }, { lib::FLOAT, { "number", nullptr, nullptr } },
                              { lib::EXP_NULL, { "null", nullptr, nullptr } }, { lib::TRUE_FALSE, { "true", nullptr, nullptr } }, { lib::VALUE, { "value", nullptr, nullptr } },
                              { lib::END_OF_FILE, { "end", nullptr, nullptr } }, { lib::PREMATURE_NUL, { "premature", nullptr, nullptr } }, { lib::LEADING_ZERO, { "zero", nullptr, nullptr } },
                              { lib::TOO_DEEP, { "nest", "deep", nullptr } }, { lib::MISSING_ELEMENT, { "not found", "missing", nullptr } }, { lib::NO_DOCUMENT, { "structure", "document", nullptr } },
                              { lib::TEXT_INVALID, { "text", nullptr, nullptr } }, { lib::OK, { "ok", nullptr, nullptr } } };
                auto all = lib::allDescriptions();
                for ( size_t i = 0; i < all.size(); i++ )
                {
                    if ( all[ i ].second.empty() )
                        bad( "status.text", "no description for " + all[ i ].first );
                    for ( size_t j = 0; j < i; j++ )
                        if ( all[ i ].second == all[ j ].second )
                            bad( "status.text", all[ i ].first + " and " + all[ j ].first + " have the same description" );
                    std::string low = all[ i ].second;
                    for ( auto& c : low )
                        c = char( tolower( c ) );
                    for ( auto& w : words )
                        if ( all[ i ].first == lib::stName[ w.s ] )
                        {
                            bool hit = false;
                            for ( auto k : w.k )
                                hit |= k && low.find( k ) != std::string::npos;
                            if ( !hit )
                                bad( "status.text", "description of " + all[ i ].first + " does not name it: " + all[ i ].second );
                        }
                }
            }
            else
                opDamage( o );
        }
    };
} // namespace

namespace sim
{
    Outcome runPlan( const Plan& p, bool verbose, std::string* trace )
    {
        if ( !p.empty() && p[ 0 ].a[ 0 ] == "containers" )
            return runContainers( p, verbose, trace );
        if ( !p.empty() && p[ 0 ].a[ 0 ] == "threads" )
            return runThreads( p, verbose, trace );
        Ex x;
        x.verbose = verbose;
        W.reset();
        W.verbose = verbose;
        setLocale( "C" );
        ledgerForget();
        x.out.counts.resize( p.size() );
        for ( size_t i = 0; i < p.size(); i++ )
        {
            x.cur = int( i );
            if ( verbose )
                W.trace += opToText( p[ i ] ) + "\n";
            x.step( p[ i ] );
            if ( x.out.v.size() > 40 )
                break;
        }
        x.cur = int( p.size() );
        x.what = "destruction";
        for ( auto& d : x.docs )
            x.drop( d.second );
        if ( L.live )
            x.bad( "leak.mem", std::to_string( L.live ) + " blocks (" + std::to_string( L.liveBytes ) + " bytes) never freed:" + ledgerDescribe( 6 ) );
        ledgerForget();
        setLocale( "C" );
        x.out.hash = W.hash;
        x.out.st   = W.st;
        if ( trace )
            *trace = W.trace;
        return x.out;
    }
} // namespace sim
