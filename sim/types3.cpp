#include "types.h"

void lib::types3( std::vector<Ops>& v )
{
    v.push_back( ops<Array<Array<double>>>( "Array<Array<double>>" ) );
    v.push_back( ops<Array<Array<String<>>>>( "Array<Array<String>>" ) );
    v.push_back( ops<ObjectMap<Array<String<>>>>( "ObjectMap<Array<String>>" ) );
    v.push_back( ops<std::vector<std::vector<std::string>>>( "vector<vector<string>>" ) );
    v.push_back( ops<std::vector<MapS>>( "vector<map<string>>" ) );
    v.push_back( ops<std::map<std::string, MapS>>( "map<map<string>>" ) );
    v.push_back( ops<std::map<std::string, std::vector<double>>>( "map<vector<double>>" ) );
}
