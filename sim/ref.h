// Reference model of JSON documents, independent of the library under test.
#pragma once
#include "world.h"
#include <string>
#include <utility>
#include <vector>

namespace ref
{
    enum Type
    {
        Null,
        Bool,
        Num,
        Str,
        Arr,
        Obj
    };
    struct Node
    {
        Type                                      t = Null;
        bool                                      b = false;
        double                                    n = 0;
        std::string                               s;
        std::vector<Node>                         a;
        std::vector<std::pair<std::string, Node>> m; // ordered members
        const Node*                               find( const std::string& k ) const;
        Node*                                     find( const std::string& k );
        size_t                                    count() const; // nodes
        int                                       depth() const;
        bool                                      finite() const;
    };
    bool        equal( const Node& x, const Node& y, bool ordered = false );
    std::string diff( const Node& x, const Node& y, const std::string& path = "$" ); // first difference ("" if equal, members unordered)
    std::string show( const Node& x, size_t max = 200 );

    // Kinds of syntax violation
    enum Err
    {
        E_NONE,
        E_EMPTY,        // no value at all
        E_VALUE,        // a value was expected
        E_NAME,         // a member name was expected
        E_COLON,
        E_COMMA_OBJ,    // , or } expected
        E_COMMA_ARR,    // , or ] expected
        E_TRAIL_COMMA,  // , directly before } or ]
        E_STR_CHAR,     // control character or ill-formed UTF-8 in a string
        E_STR_ESC,
        E_STR_END,      // end of text inside a string
        E_NUM_ZERO,     // leading zero
        E_NUM,          // malformed number
        E_TRAILING,     // characters after the value
        E_COUNT
    };
    extern const char* const errName[ E_COUNT ];

    struct Result
    {
        bool   ok = false;
        Node   v;
        Err    err = E_NONE;
        size_t off = 0, tok = 0; // first offending byte, start of the token it belongs to
        // latitude
        bool nulEsc = false, del = false, lone = false, huge = false, dup = false, bom = false, utfCorner = false, nulByte = false;
        int  depth = 0;
        bool lax() const { return nulEsc || del || lone || huge || bom || utfCorner || depth > 500; }
    };
    Result parse( const std::string& text );

    // position of a byte offset
    void lineCol( const std::string& text, size_t off, int& line, int& col );

    // ---- rendering
    struct Style
    {
        int  ws       = 0;     // 0 compact, 1 spaces, 2 pretty, 3 random mixtures with line breaks
        bool escapes  = false; // use \u and short escapes at random for ordinary characters
        bool numForms = false; // varied number spellings
        int  lead = 0, trail = 0;
    };
    std::string render( const Node& v, const Style& st, sim::Rng& r );

    // ---- generation
    struct Gen
    {
        int  maxNodes  = 30;
        int  maxDepth  = 6;
        bool weirdStr  = true;
        bool longStr   = false;
        bool manyKeys  = false;
        bool container = true; // root is an object or array
        bool plainNum  = false;
    };
    Node        generate( const Gen& g, sim::Rng& r );
    std::string genString( const Gen& g, sim::Rng& r );
    std::string genName( const Gen& g, sim::Rng& r );
    double      genNumber( sim::Rng& r );
} // namespace ref
