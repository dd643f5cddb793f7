#include "types.h"

void lib::types1( std::vector<Ops>& v )
{
    v.push_back( ops<String<>>( "String" ) );
    v.push_back( ops<double>( "double" ) );
    v.push_back( ops<bool>( "bool" ) );
    v.push_back( ops<Null>( "Null" ) );
    v.push_back( ops<std::string>( "std::string" ) );
    v.push_back( ops<Array<String<>>>( "Array<String>" ) );
    v.push_back( ops<Array<double>>( "Array<double>" ) );
    v.push_back( ops<Array<bool>>( "Array<bool>" ) );
    v.push_back( ops<Array<Null>>( "Array<Null>" ) );
    v.push_back( ops<ObjectMap<String<>>>( "ObjectMap<String>" ) );
    v.push_back( ops<ObjectMap<double>>( "ObjectMap<double>" ) );
    v.push_back( ops<ObjectMap<bool>>( "ObjectMap<bool>" ) );
    v.push_back( ops<ObjectMap<Null>>( "ObjectMap<Null>" ) );
}
