#include "types.h"

void lib::types7( std::vector<Ops>& v )
{
    v.push_back( ops<Free>( "Free" ) );
    v.push_back( ops<FreeMem>( "FreeMem" ) );
    v.push_back( ops<Mixed>( "Mixed" ) );
    v.push_back( ops<Array<Free>>( "Array<Free>" ) );
    v.push_back( ops<std::vector<FreeMem>>( "vector<FreeMem>" ) );
    v.push_back( ops<ObjectMap<Opt>>( "ObjectMap<Opt>" ) );
    v.push_back( ops<std::map<std::string, std::vector<Basic>>>( "map<vector<Basic>>" ) );
}
