#include "types.h"

void lib::types6( std::vector<Ops>& v )
{
    v.push_back( ops<Basic>( "Basic" ) );
    v.push_back( ops<Opt>( "Opt" ) );
    v.push_back( ops<Array<Basic>>( "Array<Basic>" ) );
    v.push_back( ops<std::vector<Opt>>( "vector<Opt>" ) );
    v.push_back( ops<ObjectMap<Basic>>( "ObjectMap<Basic>" ) );
    v.push_back( ops<std::map<std::string, Basic>>( "map<Basic>" ) );
}
