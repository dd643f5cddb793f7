#include "types.h"

void lib::types2( std::vector<Ops>& v )
{
    v.push_back( ops<std::vector<std::string>>( "vector<string>" ) );
    v.push_back( ops<std::vector<double>>( "vector<double>" ) );
    v.push_back( ops<std::vector<bool>>( "vector<bool>" ) );
    v.push_back( ops<std::vector<Null>>( "vector<Null>" ) );
    v.push_back( ops<MapS>( "map<string>" ) );
    v.push_back( ops<std::map<std::string, double>>( "map<double>" ) );
    v.push_back( ops<std::map<std::string, bool>>( "map<bool>" ) );
    v.push_back( ops<std::map<std::string, Null>>( "map<Null>" ) );
}
