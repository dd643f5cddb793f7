#include "types.h"

void lib::types5( std::vector<Ops>& v )
{
    v.push_back( ops<Mem>( "Mem" ) );
    v.push_back( ops<Array<Mem>>( "Array<Mem>" ) );
    v.push_back( ops<std::vector<Mem>>( "vector<Mem>" ) );
    v.push_back( ops<std::map<std::string, Mem>>( "map<Mem>" ) );
    v.push_back( ops<ObjectMap<Mem>>( "ObjectMap<Mem>" ) );
    v.push_back( ops<Holder>( "Holder" ) );
}
