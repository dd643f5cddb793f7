// The only door to the library under test. Everything behind it uses the library's public interface.
#pragma once
#include "ref.h"
#include "world.h"
#include <string>
#include <vector>

namespace lib
{
    // Status codes by cause (translated from the library's enumeration by name).
    enum St
    {
        OK,
        FILE_OPEN,
        FILE_READ,
        FILE_LARGE,
        FILE_WRITE,
        TEXT_INVALID,
        UNTERMINATED,
        OPEN_CURLY,
        CLOSE_CURLY_COMMA,
        OPEN_SQUARE,
        CLOSE_SQUARE_COMMA,
        STR_CHAR,
        STR_ESC,
        COLON,
        BEGIN_QUOTE,
        END_QUOTE,
        FLOAT,
        TRUE_FALSE,
        EXP_NULL,
        VALUE,
        END_OF_FILE,
        PREMATURE_NUL,
        LEADING_ZERO,
        NO_DOCUMENT,
        MISSING_ELEMENT,
        EXCEPTION,
        VALUE_TYPE,
        NAME_NOT_PRESENT,
        TOO_DEEP,
        OTHER,
        ST_COUNT
    };
    extern const char* const stName[ ST_COUNT ];
    bool                     isSyntax( St s );

    struct PR
    {
        St  st;
        int line, col;
    };

    struct Doc;
    Doc* make();
    void destroy( Doc* );

    PR          parseFile( Doc*, const char* path );
    PR          parseBuf( Doc*, const std::string& bytes ); // bytes handed over as they are (terminator included or not)
    St          write( Doc*, const char* path, unsigned indent, char ch );
    bool        root( const Doc*, ref::Node& out, std::string& inconsistent ); // false: no document
    std::string lookups( const Doc*, const ref::Node& model, uint64_t salt, long budget ); // "" or what is wrong
    std::string describe( St );
    std::string describe( const PR& );
    int         rawCount(); // number of status values known to the adapter
    std::vector<std::pair<std::string, std::string>> allDescriptions(); // (name, text)

    // edits through the public interface; path = child indices in model order
    bool setLeaf( Doc*, const ref::Node& model, const std::vector<int>& path, const ref::Node& leaf );
    // removal and moving of values through the public map and array interfaces
    enum Edit
    {
        NOT_DONE,  // nothing to do, nothing changed
        DONE,      // done as asked
        REFUSED,   // the name was taken: the moved value is gone
        NO_MEMORY, // the allocation failed: the moved value is gone
        LOST       // the library contradicted itself
    };
    Edit drop( Doc*, const ref::Node& model, const std::vector<int>& parent, int child, int how );
    Edit clear( Doc*, const ref::Node& model, const std::vector<int>& path, int how );
    Edit move( Doc*, const ref::Node& model, const std::vector<int>& parent, int child, const std::vector<int>& to, const std::string& name, int place, int how );
    // lookup under faults
    bool findOne( const Doc*, const ref::Node& model, const std::vector<int>& path, const std::string& name, std::string& wrong );

    // typed data
    int         typeCount();
    const char* typeName( int t );
    int         typeByName( const std::string& );
    bool        typeReusable( int t ); // deserializing replaces all earlier content
    bool        typeNestable( int t ); // may be added under a name
    ref::Node   typeGen( int t, sim::Rng& r, bool nul = false ); // nul: standard strings may hold null characters, which no document can
    // defects: bit 0 wrong type somewhere, bit 1 missing name somewhere
    int         typeDefects( int t, const ref::Node& doc );
    ref::Node   typeExpect( int t, const ref::Node& doc ); // what deserialization into a fresh object yields
    ref::Node   typeDoc( int t, const ref::Node& value );  // what serialization yields
    St          ser( Doc*, int t, const ref::Node& value );
    St          val( const Doc*, int t );
    St          des( Doc*, int t, const ref::Node* prior, ref::Node& out );
    bool        typeMerges( int t ); // serializing into an existing object keeps its other members
    // value-level functions on the value at a path, with a name inside that value or without
    St          valAt( Doc*, const ref::Node& model, const std::vector<int>& path, const char* name, int t );
    St          desAt( Doc*, const ref::Node& model, const std::vector<int>& path, const char* name, int t, const ref::Node* prior, ref::Node& out );
    St          serAt( Doc*, const ref::Node& model, const std::vector<int>& path, int t, const ref::Node& value );
    St          add( Doc*, const ref::Node& model, const std::vector<int>& path, const std::string& name, int t, const ref::Node& value );
} // namespace lib
