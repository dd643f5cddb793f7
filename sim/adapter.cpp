#include "types.h"

namespace lib
{
    const char* const stName[ ST_COUNT ] = { "Ok", "FileOpenError", "FileReadError", "FileTooLarge", "FileWriteError", "TextBufferContentsInvalid", "UnterminatedTextBuffer", "ExpectedOpeningCurlyBraces", "ExpectedClosingCurlyBracesOrComma", "ExpectedOpeningSquareBrackets", "ExpectedClosingSquareBracketsOrComma", "StringIllegalChar", "StringIllegalEscape", "ExpectedColon", "ExpectedBeginingDoubleQuotes", "ExpectedEndingDoubleQuotes", "FloatInvalid", "ExpectedTrueOrFalse", "ExpectedNull", "ExpectedJsonValue", "ExpectedEndOfFile", "PrematureNullTerminator", "NumbersCannotHaveLeadingZeros", "InvalidStructuredData", "MissingObjectElement", "Exception", "InvalidValueType", "NameNotPresent", "NestingTooDeep", "unknown" };

    using S = Json::Status;
    static const struct
    {
        S  raw;
        St st;
    } tab[] = { { S::kOk, OK }, { S::KFileOpenError, FILE_OPEN }, { S::KFileReadError, FILE_READ }, { S::KFileTooLarge, FILE_LARGE },
                { S::KFileWriteError, FILE_WRITE },
                { S::kTextBufferContentsInvalid, TEXT_INVALID }, { S::kUnterminatedTextBuffer, UNTERMINATED },
                { S::kExpectedOpeningCurlyBraces, OPEN_CURLY }, { S::kExpectedClosingCurlyBracesOrComma, CLOSE_CURLY_COMMA },
                { S::kExpectedOpeningSquareBrackets, OPEN_SQUARE }, { S::kExpectedClosingSquareBracketsOrComma, CLOSE_SQUARE_COMMA },
                { S::kStringIllegalChar, STR_CHAR }, { S::kStringIllegalEscape, STR_ESC }, { S::kExpectedColon, COLON },
                { S::kExpectedBeginingDoubleQuotes, BEGIN_QUOTE }, { S::kExpectedEndingDoubleQuotes, END_QUOTE }, { S::kFloatInvalid, FLOAT },
                { S::kExpectedTrueOrFalse, TRUE_FALSE }, { S::kExpectedNull, EXP_NULL }, { S::kExpectedJsonValue, VALUE },
                { S::kExpectedEndOfFile, END_OF_FILE }, { S::kPrematureNullTerminator, PREMATURE_NUL },
                { S::kNumbersCannotHaveLeadingZeros, LEADING_ZERO }, { S::kInvalidStructuredData, NO_DOCUMENT },
                { S::kMissingObjectElement, MISSING_ELEMENT }, { S::kException, EXCEPTION }, { S::kInvalidValueType, VALUE_TYPE },
                { S::kNameNotPresent, NAME_NOT_PRESENT }, { S::kNestingTooDeep, TOO_DEEP } };

    St tr( S s )
    {
        for ( auto& t : tab )
            if ( t.raw == s )
                return t.st;
        return OTHER;
    }
    static S rt( St s )
    {
        for ( auto& t : tab )
            if ( t.st == s )
                return t.raw;
        return S::kOk;
    }
    bool isSyntax( St s )
    {
        return ( s >= OPEN_CURLY && s <= LEADING_ZERO ) || s == TEXT_INVALID || s == TOO_DEEP;
    }

    Doc* make()
    {
        return new Doc;
    }
    void destroy( Doc* d )
    {
        Lib l;
        delete d;
    }

    PR parseFile( Doc* d, const char* path )
    {
        Json::ParseResult p;
        {
            Lib l;
            p = d->sd.Parse( path );
        }
        return PR { tr( p.status ), p.errorLine, p.errorColumn };
    }
    PR parseBuf( Doc* d, const std::string& b )
    {
        Array<char> a( int( b.size() ) );
        for ( char c : b )
            a.AppendArrayElement( c );
        Json::ParseResult p;
        {
            Lib l;
            p = d->sd.Parse( a );
        }
        return PR { tr( p.status ), p.errorLine, p.errorColumn };
    }
    St write( Doc* d, const char* path, unsigned indent, char ch )
    {
        Lib l;
        return tr( d->sd.Write( path, indent, ch ) );
    }

    static void walk( const Json::Value* v, Node& n, std::string& bad )
    {
        if ( auto* s = v->GetDataAsPointerTo<String<>>() )
        {
            n.t = ref::Str;
            n.s = static_cast<const char*>( *s );
            if ( int( n.s.size() ) != s->GetStringLength() )
                bad = "string length " + std::to_string( s->GetStringLength() ) + " but text of " + std::to_string( n.s.size() );
        }
        else if ( auto* d = v->GetDataAsPointerTo<double>() )
        {
            n.t = ref::Num;
            n.n = *d;
        }
        else if ( auto* b = v->GetDataAsPointerTo<bool>() )
        {
            n.t = ref::Bool;
            n.b = *b;
        }
        else if ( v->GetDataAsPointerTo<Json::Null>() )
            n.t = ref::Null;
        else if ( auto* a = v->GetDataAsPointerTo<Array<Json::Value*>>() )
        {
            n.t = ref::Arr;
            n.a.resize( size_t( a->GetArrayElementCount() ) );
            size_t i = 0;
            for ( const Json::Value* e : *a )
                walk( e, n.a[ i++ ], bad );
        }
        else if ( auto* o = v->AsJsonObjectValue() )
        {
            n.t = ref::Obj;
            for ( const Json::Value* e : *o )
            {
                n.m.emplace_back( static_cast<const char*>( e->name ), Node() );
                walk( e, n.m.back().second, bad );
            }
            for ( size_t i = 1; i < n.m.size(); i++ )
                if ( n.m[ i - 1 ].first == n.m[ i ].first )
                    bad = "object with the name " + sim::quote( n.m[ i ].first ) + " twice";
        }
        else
            bad = "value of no type";
    }
    bool root( const Doc* d, Node& out, std::string& bad )
    {
        Host              h;
        const Json::Value* v = d->sd.GetRootJsonValue();
        out                  = Node();
        if ( !v )
            return false;
        walk( v, out, bad );
        return true;
    }

    // which lookups answer, as a bit set: string number bool null array object
    static int probe( const Json::ObjectValue* o, const char* name, const Node* want, std::string& wrong )
    {
        const String<>*             s;
        const double*               d;
        const bool*                 b;
        const Json::Null*           z;
        const Array<Json::Value*>*  a;
        const Json::ObjectValue*    q;
        {
            Lib l;
            s = o->FindString( name );
            d = o->FindNumber( name );
            b = o->FindBool( name );
            z = o->FindJsonNull( name );
            a = o->FindJsonValueArray( name );
            q = o->FindJsonObjectValue( name );
        }
        int got = ( s != nullptr ) | ( d != nullptr ) << 1 | ( b != nullptr ) << 2 | ( z != nullptr ) << 3 | ( a != nullptr ) << 4 | ( q != nullptr ) << 5;
        int exp = 0;
        if ( want )
        {
            switch ( want->t )
            {
                case ref::Str: exp = 1; break;
                case ref::Num: exp = 2; break;
                case ref::Bool: exp = 4; break;
                case ref::Null: exp = 8; break;
                case ref::Arr: exp = 16; break;
                case ref::Obj: exp = 32; break;
            }
        }
        if ( got != exp )
            wrong = "lookup of " + sim::quote( name ) + " answered " + std::to_string( got ) + " instead of " + std::to_string( exp );
        else if ( s && want->s != static_cast<const char*>( *s ) )
            wrong = "lookup of " + sim::quote( name ) + " found another string";
        else if ( d && memcmp( d, &want->n, 8 ) != 0 && !( *d != *d && want->n != want->n ) )
            wrong = "lookup of " + sim::quote( name ) + " found another number";
        else if ( b && *b != want->b )
            wrong = "lookup of " + sim::quote( name ) + " found another boolean";
        else if ( a && size_t( a->GetArrayElementCount() ) != want->a.size() )
            wrong = "lookup of " + sim::quote( name ) + " found another array";
        return got;
    }
    static void lookAll( const Json::Value* v, const Node& n, sim::Rng& r, long& budget, std::string& wrong )
    {
        if ( budget <= 0 || !wrong.empty() )
            return;
        if ( n.t == ref::Obj )
        {
            const Json::ObjectValue* o = v->AsJsonObjectValue();
            if ( !o )
            {
                wrong = "object expected";
                return;
            }
            for ( auto& m : n.m )
            {
                if ( --budget <= 0 )
                    return;
                probe( o, m.first.c_str(), &m.second, wrong );
                if ( !wrong.empty() )
                    return;
                // near misses
                std::string k = m.first;
                switch ( r.below( 4 ) )
                {
                    case 0: k += 'x'; break;
                    case 1: if ( !k.empty() ) k.pop_back(); else k = "~"; break;
                    case 2: if ( !k.empty() ) k[ r.below( k.size() ) ] ^= 1; break;
                    default: k = "\x7f" + k;
                }
                if ( k.find( '\0' ) != std::string::npos )
                    continue;
                probe( o, k.c_str(), n.find( k ), wrong );
                const Json::Value* e = nullptr;
                for ( const Json::Value* x : *o )
                    if ( m.first == static_cast<const char*>( x->name ) )
                        e = x;
                if ( !e )
                    wrong = "member missing";
                else
                    lookAll( e, m.second, r, budget, wrong );
                if ( !wrong.empty() )
                    return;
            }
        }
        else if ( n.t == ref::Arr )
        {
            auto* a = v->GetDataAsPointerTo<Array<Json::Value*>>();
            if ( !a || size_t( a->GetArrayElementCount() ) != n.a.size() )
            {
                wrong = "array expected";
                return;
            }
            for ( size_t i = 0; i < n.a.size(); i++ )
                lookAll( ( *a )[ int( i ) ], n.a[ i ], r, budget, wrong );
        }
    }
    std::string lookups( const Doc* d, const Node& model, uint64_t salt, long budget )
    {
        sim::Rng    r( salt );
        std::string wrong;
        if ( const Json::Value* v = d->sd.GetRootJsonValue() )
            lookAll( v, model, r, budget, wrong );
        return wrong;
    }

    std::string describe( St s )
    {
        Lib l;
        String<256> t = Json::StatusToString( rt( s ) );
        Host h;
        return static_cast<const char*>( t );
    }
    std::string describe( const PR& p )
    {
        Json::ParseResult r;
        r.status      = rt( p.st );
        r.errorLine   = p.line;
        r.errorColumn = p.col;
        Lib         l;
        String<256> t = Json::ParseResultToString( r );
        Host        h;
        return static_cast<const char*>( t );
    }
    std::vector<std::pair<std::string, std::string>> allDescriptions()
    {
        std::vector<std::pair<std::string, std::string>> v;
        for ( auto& t : tab )
            v.emplace_back( stName[ t.st ], describe( t.st ) );
        return v;
    }
    int rawCount()
    {
        return int( sizeof tab / sizeof *tab );
    }

    static Json::Value* locate( Doc* d, const Node& model, const std::vector<int>& path, const Node*& at )
    {
        Host         h;
        Json::Value* v = d->sd.GetRootJsonValue();
        at             = &model;
        for ( int i : path )
        {
            if ( !v )
                return nullptr;
            if ( at->t == ref::Arr && !at->a.empty() )
            {
                size_t k = size_t( i ) % at->a.size();
                auto*  a = v->GetDataAsPointerTo<Array<Json::Value*>>();
                if ( !a || size_t( a->GetArrayElementCount() ) <= k )
                    return nullptr;
                v  = ( *a )[ int( k ) ];
                at = &at->a[ k ];
            }
            else if ( at->t == ref::Obj && !at->m.empty() )
            {
                auto& m = at->m[ size_t( i ) % at->m.size() ];
                auto* o = v->AsJsonObjectValue();
                if ( !o )
                    return nullptr;
                Json::Value* e = nullptr;
                for ( Json::Value* x : *o )
                    if ( m.first == static_cast<const char*>( x->name ) )
                        e = x;
                v  = e;
                at = &m.second;
            }
            else
                break;
        }
        return v;
    }
    bool setLeaf( Doc* d, const Node& model, const std::vector<int>& path, const Node& leaf )
    {
        const Node*  at;
        Json::Value* v = locate( d, model, path, at );
        if ( !v || at->t != leaf.t )
            return false;
        switch ( leaf.t )
        {
            case ref::Str:
                if ( auto* s = v->GetDataAsPointerTo<String<>>() )
                {
                    Lib l;
                    *s = leaf.s.c_str();
                    return true;
                }
                return false;
            case ref::Num:
                if ( auto* x = v->GetDataAsPointerTo<double>() )
                {
                    *x = leaf.n;
                    return true;
                }
                return false;
            case ref::Bool:
                if ( auto* x = v->GetDataAsPointerTo<bool>() )
                {
                    *x = leaf.b;
                    return true;
                }
                return false;
            default: return false;
        }
    }
    // takes the child out of its object or array, by one of the ways the interface has
    static Json::Value* take( Json::Value* v, const Node& at, int child, int how )
    {
        if ( at.t == ref::Arr )
        {
            auto* a = v->GetDataAsPointerTo<Array<Json::Value*>>();
            if ( !a || a->GetArrayElementCount() <= child )
                return nullptr;
            Json::Value* e = ( *a )[ child ];
            Lib          l;
            a->RemoveArrayElement( child );
            return e;
        }
        auto* o = v->AsJsonObjectValue();
        if ( !o )
            return nullptr;
        Json::Value* e = o->FindMapElement( at.m[ size_t( child ) ].first.c_str() );
        if ( !e )
            return nullptr;
        Lib l;
        if ( how & 1 )
            o->RemoveMapElement( e );
        else
            e->Detach();
        return e;
    }
    Edit drop( Doc* d, const Node& model, const std::vector<int>& parent, int child, int how )
    {
        const Node*  at;
        Json::Value* v = locate( d, model, parent, at );
        if ( !v || ( at->t != ref::Arr && at->t != ref::Obj ) )
            return LOST;
        if ( at->t == ref::Obj && how >= 2 ) // deleting a member takes it out of its map
        {
            auto*        o = v->AsJsonObjectValue();
            Json::Value* e = o ? o->FindMapElement( at->m[ size_t( child ) ].first.c_str() ) : nullptr;
            Lib          l;
            delete e;
            return e ? DONE : LOST;
        }
        Json::Value* e = take( v, *at, child, how );
        Lib          l;
        delete e;
        return e ? DONE : LOST;
    }
    Edit clear( Doc* d, const Node& model, const std::vector<int>& path, int how )
    {
        const Node*  at;
        Json::Value* v = locate( d, model, path, at );
        if ( !v )
            return LOST;
        std::vector<Json::Value*> kept;
        if ( at->t == ref::Arr )
        {
            auto* a = v->GetDataAsPointerTo<Array<Json::Value*>>();
            if ( !a )
                return LOST;
            for ( Json::Value* e : *a )
                kept.push_back( e );
            Lib l;
            if ( how & 1 )
                a->PurgeArray();
            else
                a->SetArrayElementCount( 0 );
        }
        else if ( at->t == ref::Obj )
        {
            auto* o = v->AsJsonObjectValue();
            if ( !o )
                return LOST;
            if ( how & 1 )
            {
                Lib l;
                o->PurgeMap();
                return DONE;
            }
            for ( Json::Value* e : *o )
                kept.push_back( e );
            Lib l;
            o->RemoveAllMapElements();
        }
        else
            return NOT_DONE;
        Lib l;
        for ( Json::Value* e : kept )
            delete e;
        return DONE;
    }
    Edit move( Doc* d, const Node& model, const std::vector<int>& parent, int child, const std::vector<int>& to, const std::string& name, int place, int how )
    {
        const Node * at, *dst;
        Json::Value* v = locate( d, model, parent, at );
        Json::Value* w = locate( d, model, to, dst );
        if ( !v || !w )
            return LOST;
        Json::Value* e = take( v, *at, child, how );
        if ( !e )
            return LOST;
        Edit r = DONE;
        Lib  l;
        try
        {
            if ( dst->t == ref::Arr )
            {
                auto* a = w->GetDataAsPointerTo<Array<Json::Value*>>();
                if ( a && place >= 0 && place < a->GetArrayElementCount() )
                    a->InsertArrayElement( place, e );
                else if ( a )
                    a->AppendArrayElement( e );
                else
                    r = LOST;
            }
            else if ( auto* o = w->AsJsonObjectValue() )
            {
                if ( !( name == static_cast<const char*>( e->name ) ) )
                    e->name = name.c_str();
                if ( how & 4 )
                    delete o->InsertReplaceMapElement( e );
                else if ( !( how & 2 ? o->InsertMapElement( e ) : o->InsertAccountedMapElement( e ) ) )
                    r = REFUSED;
            }
            else
                r = LOST;
        }
        catch ( const std::bad_alloc& )
        {
            r = NO_MEMORY;
        }
        if ( r != DONE )
            delete e;
        return r;
    }
    bool findOne( const Doc* d, const Node& model, const std::vector<int>& path, const std::string& name, std::string& wrong )
    {
        const Node*  at;
        Json::Value* v = locate( const_cast<Doc*>( d ), model, path, at );
        if ( !v || at->t != ref::Obj )
            return false;
        const Json::ObjectValue* o = v->AsJsonObjectValue();
        if ( !o )
        {
            wrong = "object expected";
            return true;
        }
        probe( o, name.c_str(), at->find( name ), wrong );
        return true;
    }

    // ------------------------------------------------------------------ typed operations
    static const std::vector<Ops>& types()
    {
        static std::vector<Ops> v;
        if ( v.empty() )
        {
            Host h;
            types1( v );
            types2( v );
            types3( v );
            types4( v );
            types5( v );
            types6( v );
            types7( v );
        }
        return v;
    }
    int typeCount() { return int( types().size() ); }
    const char* typeName( int t ) { return types()[ size_t( t ) ].name; }
    int  typeByName( const std::string& s )
    {
        for ( int i = 0; i < typeCount(); i++ )
            if ( s == types()[ size_t( i ) ].name )
                return i;
        return 0;
    }
    bool typeReusable( int t ) { return types()[ size_t( t ) ].reuse; }
    bool typeNestable( int t ) { return types()[ size_t( t ) ].nest; }
    bool genNul = false;
    Node typeGen( int t, sim::Rng& r, bool nul )
    {
        genNul = nul;
        Node n = types()[ size_t( t ) ].gen( r );
        genNul = false;
        return n;
    }
    int  typeDefects( int t, const Node& n ) { return types()[ size_t( t ) ].defects( n ); }
    Node typeExpect( int t, const Node& n )
    {
        Host h;
        return types()[ size_t( t ) ].expect( n );
    }
    Node typeDoc( int t, const Node& n ) { return typeExpect( t, n ); }
    St   ser( Doc* d, int t, const Node& n ) { return types()[ size_t( t ) ].ser( d, n ); }
    St   val( const Doc* d, int t ) { return types()[ size_t( t ) ].val( d ); }
    St   des( Doc* d, int t, const Node* prior, Node& out ) { return types()[ size_t( t ) ].des( d, prior, out ); }
    St   add( Doc* d, const Node& model, const std::vector<int>& path, const std::string& name, int t, const Node& value )
    {
        const Node*  at;
        Json::Value* v = locate( d, model, path, at );
        if ( !v || !types()[ size_t( t ) ].add )
            return OTHER;
        return types()[ size_t( t ) ].add( v, name.c_str(), value );
    }
    bool typeMerges( int t ) { return types()[ size_t( t ) ].merge; }
    St   valAt( Doc* d, const Node& model, const std::vector<int>& path, const char* name, int t )
    {
        const Node*  at;
        Json::Value* v = locate( d, model, path, at );
        return v ? types()[ size_t( t ) ].valAt( v, name ) : OTHER;
    }
    St desAt( Doc* d, const Node& model, const std::vector<int>& path, const char* name, int t, const Node* prior, Node& out )
    {
        const Node*  at;
        Json::Value* v = locate( d, model, path, at );
        return v ? types()[ size_t( t ) ].desAt( v, name, prior, out ) : OTHER;
    }
    St serAt( Doc* d, const Node& model, const std::vector<int>& path, int t, const Node& value )
    {
        const Node*  at;
        Json::Value* v = locate( d, model, path, at );
        return v ? types()[ size_t( t ) ].serAt( v, value ) : OTHER;
    }
} // namespace lib
