// Typed data: the supported C++ types, their translation to reference trees, and the typed operations.
#pragma once
#include "adapter.h"
#include "C4Json.h"
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace Json = C4::Json;
using sim::Host;
using sim::Lib;
using ref::Node;
using Terathon::Array;
using Terathon::String;

namespace lib
{
    extern bool genNul; // texts and names of the standard library get null characters
}
using lib::genNul;

namespace app
{
    using Json::Null;
    using Json::ObjectMap;

    struct Basic
    {
        String<> name;
        double   number = 0;
        bool     flag   = false;
        Null     nothing;
    };
#define BASIC_PROTO "name", object.name, "number", object.number, "flag", object.flag, "nothing", object.nothing
    DEFINE_JSON4C4_FUNCTIONS( Basic, BASIC_PROTO )

    struct Opt
    {
        Opt() {}
        String<>      id;
        double        weight = -1;
        String<>      note;
        bool          on = true;
        Array<double> extra;
        std::string   tail;
    };
#define OPT_PROTO "id", object.id, Json::optional, "weight", object.weight, Json::optional, "note", object.note, "on", object.on, Json::optional, "extra", object.extra, Json::optional, "a tail \"name\"", object.tail
    DEFINE_JSON4C4_FUNCTIONS( Opt, OPT_PROTO )

    struct Deep
    {
        Basic                              head;
        Array<Basic>                       list;
        ObjectMap<double>                  marks;
        std::vector<std::string>           tags;
        std::map<std::string, Opt>         opts;
        std::vector<std::vector<double>>   grid;
        std::string                        text;
        std::map<std::string, bool>        bits;
        Array<String<>>                    lines;
    };
#define DEEP_PROTO "head", object.head, "list", object.list, "marks", object.marks, "tags", object.tags, Json::optional, "opts", object.opts, "grid", object.grid, "text", object.text, Json::optional, "bits", object.bits, "lines", object.lines
    DEFINE_JSON4C4_FUNCTIONS( Deep, DEEP_PROTO )

    class Mem
    {
    public:
        double                   x = 0;
        String<>                 label;
        std::vector<double>      v;
        bool                     b = false;
#define MEM_PROTO "x", x, "label", label, Json::optional, "v", v, "b", b
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( MEM_PROTO )
    };
    struct Holder
    {
        String<>                   kind;
        Array<Mem>                 arr;
        std::vector<Mem>           vec;
        std::map<std::string, Mem> map;
        ObjectMap<Mem>             omap;
        Mem                        one;
        Mem                        maybe;
    };
#define HOLDER_PROTO "kind", object.kind, "arr", object.arr, "vec", object.vec, "map", object.map, "omap", object.omap, "one", object.one, Json::optional, "maybe", object.maybe
    DEFINE_JSON4C4_FUNCTIONS( Holder, HOLDER_PROTO )

    // a part whose members appear in the same object as those of the whole
    struct Flat
    {
        Basic       part;
        double      more = 0;
        std::string last;
    };
#define FLAT_PROTO object.part, "more", object.more, Json::optional, "last", object.last
    DEFINE_JSON4C4_FUNCTIONS( Flat, FLAT_PROTO )

    // nothing is required but that it is an object
    struct Free
    {
        double                     size = 3.5;
        String<>                   title;
        Basic                      base;
        std::vector<std::string>   words;
        std::map<std::string, std::string> labels;
        bool                       live = false;
    };
#define FREE_PROTO Json::optional, "size", object.size, Json::optional, "title", object.title, Json::optional, "base", object.base, Json::optional, "words", object.words, Json::optional, "labels", object.labels, Json::optional, "live", object.live
    DEFINE_JSON4C4_FUNCTIONS( Free, FREE_PROTO )

    class FreeMem
    {
    public:
        FreeMem() {}
        String<>      a;
        Array<Null>   b;
        double        c = 9;
#define FREEMEM_PROTO Json::optional, "a", a, Json::optional, "b", b, Json::optional, "c", c
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( FREEMEM_PROTO )
    };

    // a part without required members, then required ones, then a member-function part
    struct Mixed
    {
        Mixed() {}
        Free         part;
        Array<Free>  frees;
        FreeMem      fm;
        std::map<std::string, FreeMem> fmap;
        Opt          opt;
        Array<Opt>   opts;
    };
#define MIXED_PROTO object.part, "frees", object.frees, "fm", object.fm, Json::optional, "fmap", object.fmap, "opt", object.opt, Json::optional, "opts", object.opts
    DEFINE_JSON4C4_FUNCTIONS( Mixed, MIXED_PROTO )
} // namespace app

// ------------------------------------------------------------------ C++ values <-> reference trees
namespace
{
    using namespace app;
    constexpr int BADTYPE = 1, NONAME = 2;

    template <class T>
    struct Tr;

    template <>
    struct Tr<String<>>
    {
        static constexpr bool reuse = true;
        static Node           to( const String<>& s )
        {
            Node n;
            n.t = ref::Str;
            n.s = static_cast<const char*>( s );
            return n;
        }
        static void from( String<>& o, const Node& n ) { o = n.s.c_str(); }
        static int  defects( const Node& n ) { return n.t == ref::Str ? 0 : BADTYPE; }
        static Node gen( sim::Rng& r, int )
        {
            Node     n;
            ref::Gen g;
            n.t = ref::Str;
            n.s = ref::genString( g, r );
            return n;
        }
    };
    template <>
    struct Tr<std::string>
    {
        static constexpr bool reuse = true;
        static Node           to( const std::string& s )
        {
            Node n;
            n.t = ref::Str;
            n.s = s;
            return n;
        }
        static void from( std::string& o, const Node& n ) { o = n.s; }
        static int  defects( const Node& n ) { return n.t == ref::Str ? 0 : BADTYPE; }
        static Node gen( sim::Rng& r, int d )
        {
            Node n = Tr<String<>>::gen( r, d );
            if ( genNul && r.chance( 0.3 ) )
                n.s.insert( size_t( r.below( n.s.size() + 1 ) ), 1, char( 0 ) );
            return n;
        }
    };
    template <>
    struct Tr<double>
    {
        static constexpr bool reuse = true;
        static Node           to( double v )
        {
            Node n;
            n.t = ref::Num;
            n.n = v;
            return n;
        }
        static void from( double& o, const Node& n ) { o = n.n; }
        static int  defects( const Node& n ) { return n.t == ref::Num ? 0 : BADTYPE; }
        static Node gen( sim::Rng& r, int ) { return to( ref::genNumber( r ) ); }
    };
    template <>
    struct Tr<bool>
    {
        static constexpr bool reuse = true;
        static Node           to( bool v )
        {
            Node n;
            n.t = ref::Bool;
            n.b = v;
            return n;
        }
        static void from( bool& o, const Node& n ) { o = n.b; }
        static int  defects( const Node& n ) { return n.t == ref::Bool ? 0 : BADTYPE; }
        static Node gen( sim::Rng& r, int ) { return to( r.chance( 0.5 ) ); }
    };
    template <>
    struct Tr<Null>
    {
        static constexpr bool reuse = true;
        static Node           to( const Null& ) { return Node(); }
        static void           from( Null&, const Node& ) {}
        static int            defects( const Node& n ) { return n.t == ref::Null ? 0 : BADTYPE; }
        static Node           gen( sim::Rng&, int ) { return Node(); }
    };

    int genCount( sim::Rng& r, int d )
    {
        if ( r.chance( 0.15 ) )
            return 0;
        if ( d == 0 && r.chance( 0.2 ) )
            return r.range( 4, 24 );
        return r.range( 1, d ? 3 : 5 );
    }
    template <class T>
    Node genArr( sim::Rng& r, int d )
    {
        Node n;
        n.t = ref::Arr;
        for ( int k = genCount( r, d ); k > 0; k-- )
            n.a.push_back( Tr<T>::gen( r, d + 1 ) );
        return n;
    }
    template <class T>
    Node genMap( sim::Rng& r, int d, bool nul = false )
    {
        Node     n;
        ref::Gen g;
        n.t = ref::Obj;
        for ( int k = genCount( r, d ); k > 0; k-- )
        {
            std::string key = ref::genName( g, r );
            if ( nul && r.chance( 0.3 ) )
                key.insert( size_t( r.below( key.size() + 1 ) ), 1, char( 0 ) );
            if ( !n.find( key ) )
                n.m.emplace_back( key, Tr<T>::gen( r, d + 1 ) );
        }
        return n;
    }
    template <class T>
    int arrDefects( const Node& n )
    {
        if ( n.t != ref::Arr )
            return BADTYPE;
        int d = 0;
        for ( auto& x : n.a )
            d |= Tr<T>::defects( x );
        return d;
    }
    template <class T>
    int mapDefects( const Node& n )
    {
        if ( n.t != ref::Obj )
            return BADTYPE;
        int d = 0;
        for ( auto& x : n.m )
            d |= Tr<T>::defects( x.second );
        return d;
    }

    template <class T>
    struct Tr<Array<T>>
    {
        static constexpr bool reuse = Tr<T>::reuse;
        static Node           to( const Array<T>& v )
        {
            Node n;
            n.t = ref::Arr;
            for ( const T& x : v )
                n.a.push_back( Tr<T>::to( x ) );
            return n;
        }
        static void from( Array<T>& o, const Node& n )
        {
            o.PurgeArray();
            for ( auto& x : n.a )
                Tr<T>::from( *o.AppendArrayElement(), x );
        }
        static int  defects( const Node& n ) { return arrDefects<T>( n ); }
        static Node gen( sim::Rng& r, int d ) { return genArr<T>( r, d ); }
    };
    template <class T>
    struct Tr<std::vector<T>>
    {
        static constexpr bool reuse = Tr<T>::reuse;
        static Node           to( const std::vector<T>& v )
        {
            Node n;
            n.t = ref::Arr;
            for ( size_t i = 0; i < v.size(); i++ )
                n.a.push_back( Tr<T>::to( v[ i ] ) );
            return n;
        }
        static void from( std::vector<T>& o, const Node& n )
        {
            o.clear();
            for ( auto& x : n.a )
            {
                T t {};
                Tr<T>::from( t, x );
                o.push_back( std::move( t ) );
            }
        }
        static int  defects( const Node& n ) { return arrDefects<T>( n ); }
        static Node gen( sim::Rng& r, int d ) { return genArr<T>( r, d ); }
    };
    template <class T>
    struct Tr<ObjectMap<T>>
    {
        static constexpr bool reuse = false;
        static Node           to( const ObjectMap<T>& v )
        {
            Node n;
            n.t = ref::Obj;
            for ( const auto* e : v )
                n.m.emplace_back( static_cast<const char*>( e->name ), Tr<T>::to( e->data ) );
            return n;
        }
        static void from( ObjectMap<T>& o, const Node& n )
        {
            for ( auto& x : n.m )
            {
                auto* e = new Json::ObjectMapElement<T>;
                e->name = x.first.c_str();
                Tr<T>::from( e->data, x.second );
                o.InsertMapElement( e );
            }
        }
        static int  defects( const Node& n ) { return mapDefects<T>( n ); }
        static Node gen( sim::Rng& r, int d ) { return genMap<T>( r, d ); }
    };
    template <class T>
    struct Tr<std::map<std::string, T>>
    {
        static constexpr bool reuse = false;
        static Node           to( const std::map<std::string, T>& v )
        {
            Node n;
            n.t = ref::Obj;
            for ( auto& e : v )
                n.m.emplace_back( e.first, Tr<T>::to( e.second ) );
            return n;
        }
        static void from( std::map<std::string, T>& o, const Node& n )
        {
            for ( auto& x : n.m )
                Tr<T>::from( o[ x.first ], x.second );
        }
        static int  defects( const Node& n ) { return mapDefects<T>( n ); }
        static Node gen( sim::Rng& r, int d ) { return genMap<T>( r, d, genNul ); }
    };

    // structs: a visitor over (name, optional, member)
    template <class S, class F>
    void fields( S& o, F&& f );

#define STRUCT_TR( S, REUSE )                                                                   \
    template <>                                                                                 \
    struct Tr<S>                                                                                \
    {                                                                                           \
        static constexpr bool reuse = REUSE;                                                    \
        static constexpr bool isStruct = true;                                                  \
        static Node           to( const S& v )                                                  \
        {                                                                                       \
            Node n;                                                                             \
            n.t = ref::Obj;                                                                     \
            fields( const_cast<S&>( v ), [ & ]( const char* k, bool, auto& m )                  \
            {                                                                                   \
                using M = std::decay_t<decltype( m )>;                                          \
                n.m.emplace_back( k, Tr<M>::to( m ) );                                          \
            } );                                                                                \
            return n;                                                                           \
        }                                                                                       \
        static void from( S& o, const Node& n )                                                 \
        {                                                                                       \
            fields( o, [ & ]( const char* k, bool, auto& m )                                    \
            {                                                                                   \
                using M = std::decay_t<decltype( m )>;                                          \
                if ( const Node* c = n.find( k ) )                                              \
                    Tr<M>::from( m, *c );                                                       \
            } );                                                                                \
        }                                                                                       \
        static int defects( const Node& n )                                                     \
        {                                                                                       \
            if ( n.t != ref::Obj )                                                              \
                return BADTYPE;                                                                 \
            int d = 0;                                                                          \
            S   s;                                                                              \
            fields( s, [ & ]( const char* k, bool opt, auto& m )                                \
            {                                                                                   \
                using M       = std::decay_t<decltype( m )>;                                    \
                const Node* c = n.find( k );                                                    \
                if ( c )                                                                        \
                    d |= Tr<M>::defects( *c );                                                  \
                else if ( !opt )                                                                \
                    d |= NONAME;                                                                \
            } );                                                                                \
            return d;                                                                           \
        }                                                                                       \
        static Node gen( sim::Rng& r, int d )                                                   \
        {                                                                                       \
            Node n;                                                                             \
            S    s;                                                                             \
            n.t = ref::Obj;                                                                     \
            fields( s, [ & ]( const char* k, bool, auto& m )                                    \
            {                                                                                   \
                using M = std::decay_t<decltype( m )>;                                          \
                n.m.emplace_back( k, Tr<M>::gen( r, d + 1 ) );                                  \
            } );                                                                                \
            return n;                                                                           \
        }                                                                                       \
    };

    template <class F>
    void fields( Basic& o, F&& f )
    {
        f( "name", false, o.name );
        f( "number", false, o.number );
        f( "flag", false, o.flag );
        f( "nothing", false, o.nothing );
    }
    template <class F>
    void fields( Opt& o, F&& f )
    {
        f( "id", false, o.id );
        f( "weight", true, o.weight );
        f( "note", true, o.note );
        f( "on", false, o.on );
        f( "extra", true, o.extra );
        f( "a tail \"name\"", true, o.tail );
    }
    template <class F>
    void fields( Deep& o, F&& f )
    {
        f( "head", false, o.head );
        f( "list", false, o.list );
        f( "marks", false, o.marks );
        f( "tags", false, o.tags );
        f( "opts", true, o.opts );
        f( "grid", false, o.grid );
        f( "text", false, o.text );
        f( "bits", true, o.bits );
        f( "lines", false, o.lines );
    }
    template <class F>
    void fields( Mem& o, F&& f )
    {
        f( "x", false, o.x );
        f( "label", false, o.label );
        f( "v", true, o.v );
        f( "b", false, o.b );
    }
    template <class F>
    void fields( Holder& o, F&& f )
    {
        f( "kind", false, o.kind );
        f( "arr", false, o.arr );
        f( "vec", false, o.vec );
        f( "map", false, o.map );
        f( "omap", false, o.omap );
        f( "one", false, o.one );
        f( "maybe", true, o.maybe );
    }
    template <class F>
    void fields( Flat& o, F&& f )
    {
        fields( o.part, f );
        f( "more", false, o.more );
        f( "last", true, o.last );
    }
    template <class F>
    void fields( Free& o, F&& f )
    {
        f( "size", true, o.size );
        f( "title", true, o.title );
        f( "base", true, o.base );
        f( "words", true, o.words );
        f( "labels", true, o.labels );
        f( "live", true, o.live );
    }
    template <class F>
    void fields( FreeMem& o, F&& f )
    {
        f( "a", true, o.a );
        f( "b", true, o.b );
        f( "c", true, o.c );
    }
    template <class F>
    void fields( Mixed& o, F&& f )
    {
        fields( o.part, f );
        f( "frees", false, o.frees );
        f( "fm", false, o.fm );
        f( "fmap", true, o.fmap );
        f( "opt", false, o.opt );
        f( "opts", true, o.opts );
    }
    STRUCT_TR( Basic, true )
    STRUCT_TR( Free, false )
    STRUCT_TR( FreeMem, false )
    STRUCT_TR( Mixed, false )
    STRUCT_TR( Flat, false )
    STRUCT_TR( Opt, false )
    STRUCT_TR( Mem, false )
    STRUCT_TR( Deep, false )
    STRUCT_TR( Holder, false )
} // namespace

namespace lib
{
    St tr( Json::Status s );
    struct Doc
    {
        Json::StructuredData sd;
    };

    // ------------------------------------------------------------------ typed operations
    struct Ops
    {
        const char* name;
        bool        reuse, nest, merge; // merge: serializing into an existing object keeps its other members
        Node ( *gen )( sim::Rng& );
        int ( *defects )( const Node& );
        Node ( *expect )( const Node& );
        St ( *ser )( Doc*, const Node& );
        St ( *val )( const Doc* );
        St ( *des )( Doc*, const Node*, Node& );
        St ( *add )( Json::Value*, const char*, const Node& );
        St ( *valAt )( const Json::Value*, const char* );
        St ( *desAt )( const Json::Value*, const char*, const Node*, Node& );
        St ( *serAt )( Json::Value*, const Node& );
    };
    template <class T, class = void>
    struct Merge
    {
        static constexpr bool v = false;
    };
    template <class T>
    struct Merge<T, std::enable_if_t<Tr<T>::isStruct>>
    {
        static constexpr bool v = true;
    };
    template <class T>
    struct Box // value-initialised object, also for types without public list initialisation
    {
        T v;
        Box() : v() {}
    };
    template <class T>
    struct Impl
    {
        static Node gen( sim::Rng& r ) { return Tr<T>::gen( r, 0 ); }
        static int  defects( const Node& n ) { return Tr<T>::defects( n ); }
        static Node expect( const Node& n )
        {
            Box<T> box;
            T&     t = box.v;
            Tr<T>::from( t, n );
            return Tr<T>::to( t );
        }
        static St ser( Doc* d, const Node& n )
        {
            Box<T> box;
            T&     t = box.v;
            Tr<T>::from( t, n );
            Lib l;
            return tr( d->sd.SerializeFrom( t ) );
        }
        static St val( const Doc* d )
        {
            const Box<T> box;
            const T&     t = box.v;
            Lib     l;
            return tr( Json::Validate( d->sd, t ) );
        }
        static St des( Doc* d, const Node* prior, Node& out )
        {
            Box<T> box;
            T&     t = box.v;
            if ( prior )
                Tr<T>::from( t, *prior );
            St s;
            {
                Lib l;
                s = tr( d->sd.DeserializeTo( t ) );
            }
            out = Tr<T>::to( t );
            return s;
        }
        static St add( Json::Value* v, const char* name, const Node& n )
        {
            Box<T> box;
            T&     t = box.v;
            Tr<T>::from( t, n );
            Lib l;
            return tr( Json::Serialize( v, name, t ) );
        }
        // the value-level functions, with a name inside the value or without
        static St valAt( const Json::Value* v, const char* name )
        {
            const Box<T> box;
            const T&     t = box.v;
            Lib          l;
            if ( name )
                return tr( Json::Validate( v, name, t ) );
            using Json::Validate;
            return tr( Validate( v, t ) );
        }
        static St desAt( const Json::Value* v, const char* name, const Node* prior, Node& out )
        {
            Box<T> box;
            T&     t = box.v;
            if ( prior )
                Tr<T>::from( t, *prior );
            St s;
            {
                Lib l;
                using Json::Deserialize;
                s = tr( name ? Json::Deserialize( v, name, t ) : Deserialize( v, t ) );
            }
            out = Tr<T>::to( t );
            return s;
        }
        static St serAt( Json::Value* v, const Node& n )
        {
            Box<T> box;
            T&     t = box.v;
            Tr<T>::from( t, n );
            Lib l;
            using Json::Serialize;
            return tr( Serialize( v, t ) );
        }
    };
    template <class T>
    static Ops ops( const char* name )
    {
        return Ops { name, Tr<T>::reuse, true, Merge<T>::v, Impl<T>::gen, Impl<T>::defects, Impl<T>::expect, Impl<T>::ser, Impl<T>::val, Impl<T>::des, Impl<T>::add, Impl<T>::valAt, Impl<T>::desAt, Impl<T>::serAt };
    }
    using MapS = std::map<std::string, std::string>;
    // one table per translation unit, so that they compile in parallel
    void types1( std::vector<Ops>& );
    void types2( std::vector<Ops>& );
    void types3( std::vector<Ops>& );
    void types4( std::vector<Ops>& );
    void types5( std::vector<Ops>& );
    void types6( std::vector<Ops>& );
    void types7( std::vector<Ops>& );
} // namespace lib
