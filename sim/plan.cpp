#include "plan.h"
namespace sim
{
    static bool bare( const std::string& s )
    {
        if ( s.empty() )
            return false;
        for ( unsigned char c : s )
            if ( c <= 32 || c >= 127 || c == '"' || c == '|' || c == '\\' )
                return false;
        return true;
    }
    std::string opToText( const Op& o )
    {
        std::string r;
        for ( size_t i = 0; i < o.a.size(); i++ )
        {
            if ( i )
                r += ' ';
            r += bare( o.a[ i ] ) ? o.a[ i ] : quote( o.a[ i ] );
        }
        if ( !o.faults.empty() )
        {
            r += " |";
            for ( auto& f : o.faults )
                r += " " + faultToText( f );
        }
        return r;
    }
    std::string planToText( const Plan& p )
    {
        std::string r;
        for ( auto& o : p )
            r += opToText( o ) + "\n";
        return r;
    }
    bool planFromText( const std::string& t, Plan& p, std::string& err )
    {
        p.clear();
        size_t i = 0;
        while ( i < t.size() )
        {
            size_t e = t.find( '\n', i );
            if ( e == std::string::npos )
                e = t.size();
            std::string l = t.substr( i, e - i );
            i             = e + 1;
            if ( l.empty() || l[ 0 ] == '#' )
                continue;
            Op     o;
            size_t k = 0;
            while ( k < l.size() )
            {
                if ( l[ k ] == ' ' )
                {
                    k++;
                    continue;
                }
                if ( l[ k ] == '|' )
                {
                    o.faults = faultsFromText( l.substr( k + 1 ) );
                    break;
                }
                if ( l[ k ] == '"' )
                {
                    std::string s;
                    if ( !unquote( l, k, s ) )
                    {
                        err = "bad quoting: " + l;
                        return false;
                    }
                    o.a.push_back( s );
                }
                else
                {
                    size_t q = k;
                    while ( q < l.size() && l[ q ] != ' ' )
                        q++;
                    o.a.push_back( l.substr( k, q - k ) );
                    k = q;
                }
            }
            if ( !o.a.empty() )
                p.push_back( o );
        }
        return true;
    }
} // namespace sim
