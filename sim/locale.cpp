// The host program's locale.
#include "plan.h"
#include <cstdlib>
#include <clocale>
#include <locale>
#include <locale.h>

namespace sim
{
    namespace
    {
        std::string cur = "C";
        struct Punct : std::numpunct<char>
        {
            char        do_decimal_point() const override { return ','; }
            char        do_thousands_sep() const override { return '.'; }
            std::string do_grouping() const override { return "\3"; }
        };
        locale_t made( const std::string& n )
        {
            static std::map<std::string, locale_t> m;
            auto                                   it = m.find( n );
            if ( it != m.end() )
                return it->second;
            locale_t l = newlocale( LC_ALL_MASK, n.c_str(), nullptr );
            if ( !l )
                l = newlocale( LC_NUMERIC_MASK, n.c_str(), nullptr );
            return m[ n ] = l;
        }
    } // namespace
    std::string currentLocale() { return cur; }
    // what the host can observe of the setting
    std::string localeState()
    {
        const char* a = setlocale( LC_ALL, nullptr );
        locale_t    u = uselocale( nullptr );
        return std::string( a ? a : "" ) + "|" + std::to_string( reinterpret_cast<uintptr_t>( u ) ) + "|" + localeconv()->decimal_point + "|" + std::locale().name();
    }
    bool setLocale( const std::string& name )
    {
        if ( name == cur )
            return true;
        uselocale( LC_GLOBAL_LOCALE );
        std::locale::global( std::locale::classic() );
        setlocale( LC_ALL, "C" );
        cur = "C";
        if ( name == "C" )
            return true;
        size_t      k = name.find( ':' );
        std::string n = name.substr( 0, k );
        cur           = name;
        if ( k != std::string::npos )
        {
            locale_t l = made( n );
            if ( l )
                uselocale( l );
            return l != nullptr;
        }
        try
        {
            std::locale::global( std::locale( n.c_str() ) );
            return true;
        }
        catch ( ... )
        {
        }
        std::locale::global( std::locale( std::locale::classic(), new Punct ) );
        return setlocale( LC_NUMERIC, n.c_str() ) != nullptr;
    }
} // namespace sim
