#include "types.h"

void lib::types4( std::vector<Ops>& v )
{
    v.push_back( ops<Deep>( "Deep" ) );
    v.push_back( ops<Flat>( "Flat" ) );
    v.push_back( ops<std::vector<Flat>>( "vector<Flat>" ) );
}
