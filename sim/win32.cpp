// Win32 file functions on the simulated file system (variant `win`): each passes through the interposed system call of the
// same meaning, so every fault the simulator knows reaches the Windows back end of the library too.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#define wchar_t char16_t // the library side of this variant is compiled with 16 bit wide characters
#include "win/windows.h"
#undef wchar_t
#include "world.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;

namespace
{
    DWORD lastError = 0;

    DWORD fromErrno( int e )
    {
        switch ( e )
        {
            case ENOENT: return ERROR_FILE_NOT_FOUND;
            case ENOTDIR: return ERROR_PATH_NOT_FOUND;
            case EMFILE:
            case ENFILE: return ERROR_TOO_MANY_OPEN_FILES;
            case EACCES:
            case EISDIR:
            case EPERM:
            case EROFS: return ERROR_ACCESS_DENIED;
            case EBADF: return ERROR_INVALID_HANDLE;
            case ENOMEM: return ERROR_NOT_ENOUGH_MEMORY;
            case EEXIST: return ERROR_FILE_EXISTS;
            case ENOSPC:
            case EDQUOT: return ERROR_DISK_FULL;
            case EINTR: return ERROR_OPERATION_ABORTED;
            default: return ERROR_IO_DEVICE;
        }
    }
    BOOL fail( DWORD e )
    {
        lastError = e;
        return FALSE;
    }
    BOOL failErrno() { return fail( fromErrno( errno ) ); }

    HANDLE toHandle( int fd ) { return reinterpret_cast<HANDLE>( intptr_t( fd + 1 ) * 4 ); }
    int    toFd( HANDLE h )
    {
        auto v = reinterpret_cast<intptr_t>( h );
        return v > 0 && v % 4 == 0 ? int( v / 4 - 1 ) : -1;
    }

    // UTF-16 to UTF-8; unpaired surrogates become U+FFFD. Returns the number of bytes without the terminator.
    template <class F>
    void decode16( const char16_t* s, long n, F f )
    {
        for ( long i = 0; n < 0 ? s[ i ] != 0 : i < n; i++ )
        {
            uint32_t c = s[ i ];
            if ( c >= 0xD800 && c < 0xDC00 && ( n < 0 || i + 1 < n ) && s[ i + 1 ] >= 0xDC00 && s[ i + 1 ] < 0xE000 )
                c = 0x10000 + ( ( c - 0xD800 ) << 10 ) + ( s[ ++i ] - 0xDC00u );
            else if ( c >= 0xD800 && c < 0xE000 )
                c = 0xFFFD;
            char b[ 4 ];
            int  k = 0;
            if ( c < 0x80 )
                b[ k++ ] = char( c );
            else if ( c < 0x800 )
            {
                b[ k++ ] = char( 0xC0 | c >> 6 );
                b[ k++ ] = char( 0x80 | ( c & 63 ) );
            }
            else if ( c < 0x10000 )
            {
                b[ k++ ] = char( 0xE0 | c >> 12 );
                b[ k++ ] = char( 0x80 | ( c >> 6 & 63 ) );
                b[ k++ ] = char( 0x80 | ( c & 63 ) );
            }
            else
            {
                b[ k++ ] = char( 0xF0 | c >> 18 );
                b[ k++ ] = char( 0x80 | ( c >> 12 & 63 ) );
                b[ k++ ] = char( 0x80 | ( c >> 6 & 63 ) );
                b[ k++ ] = char( 0x80 | ( c & 63 ) );
            }
            f( b, k );
        }
    }
    struct Path
    {
        char s[ 4096 ];
        explicit Path( const char16_t* w )
        {
            size_t n = 0;
            decode16( w, -1,
                      [ & ]( const char* b, int k )
                      {
                          for ( int i = 0; i < k && n + 1 < sizeof s; i++ )
                              s[ n++ ] = b[ i ];
                      } );
            s[ n ] = 0;
        }
    };
    bool isDir( const char* p )
    {
        Host h;
        auto it = W.files.find( p );
        return it != W.files.end() && it->second->dir;
    }

    HANDLE createFile( const char* path, DWORD access, DWORD disposition )
    {
        int fl = ( access & GENERIC_WRITE ) ? ( ( access & GENERIC_READ ) ? O_RDWR : O_WRONLY ) : O_RDONLY;
        switch ( disposition )
        {
            case CREATE_NEW: fl |= O_CREAT | O_EXCL; break;
            case CREATE_ALWAYS: fl |= O_CREAT | O_TRUNC; break;
            case OPEN_EXISTING: break;
            case OPEN_ALWAYS: fl |= O_CREAT; break;
            case TRUNCATE_EXISTING: fl |= O_TRUNC; break;
            default: lastError = ERROR_INVALID_PARAMETER; return INVALID_HANDLE_VALUE;
        }
        if ( isDir( path ) ) // not without FILE_FLAG_BACKUP_SEMANTICS
        {
            lastError = ERROR_ACCESS_DENIED;
            return INVALID_HANDLE_VALUE;
        }
        bool there = false;
        {
            Host h;
            there = W.files.count( path ) != 0;
        }
        int fd = ::open( path, fl, 0644 );
        if ( fd < 0 )
        {
            lastError = fromErrno( errno );
            return INVALID_HANDLE_VALUE;
        }
        lastError = there && ( disposition == CREATE_ALWAYS || disposition == OPEN_ALWAYS ) ? ERROR_ALREADY_EXISTS : NO_ERROR;
        return toHandle( fd );
    }
} // namespace

extern "C"
{
    HANDLE CreateFileW( LPCWSTR n, DWORD access, DWORD, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD, HANDLE )
    {
        Path p( n );
        return createFile( p.s, access, disposition );
    }
    // the byte functions use the process code page; in the simulated one only ASCII names mean the same there
    HANDLE CreateFileA( LPCSTR n, DWORD access, DWORD, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD, HANDLE )
    {
        char   s[ 4096 ];
        size_t k = 0;
        for ( ; *n && k + 3 < sizeof s; n++ )
            if ( static_cast<unsigned char>( *n ) < 0x80 )
                s[ k++ ] = *n;
            else
            {
                s[ k++ ] = char( 0xC0 | static_cast<unsigned char>( *n ) >> 6 );
                s[ k++ ] = char( 0x80 | ( static_cast<unsigned char>( *n ) & 63 ) );
            }
        s[ k ] = 0;
        return createFile( s, access, disposition );
    }
    BOOL ReadFile( HANDLE h, LPVOID b, DWORD n, LPDWORD got, LPOVERLAPPED )
    {
        if ( got )
            *got = 0;
        ssize_t r = ::read( toFd( h ), b, n );
        if ( r < 0 )
            return failErrno();
        if ( got )
            *got = DWORD( r );
        return TRUE;
    }
    BOOL WriteFile( HANDLE h, LPCVOID b, DWORD n, LPDWORD put, LPOVERLAPPED )
    {
        if ( put )
            *put = 0;
        ssize_t r = ::write( toFd( h ), b, n );
        if ( r < 0 )
            return failErrno();
        if ( put )
            *put = DWORD( r );
        return TRUE;
    }
    BOOL CloseHandle( HANDLE h ) { return ::close( toFd( h ) ) == 0 ? TRUE : failErrno(); }
    BOOL FlushFileBuffers( HANDLE h ) { return ::fsync( toFd( h ) ) == 0 ? TRUE : failErrno(); }
    BOOL GetFileInformationByHandleEx( HANDLE h, FILE_INFO_BY_HANDLE_CLASS c, LPVOID out, DWORD size )
    {
        if ( c != FileStandardInfo || size < sizeof( FILE_STANDARD_INFO ) )
            return fail( ERROR_INVALID_PARAMETER );
        struct stat s;
        if ( ::fstat( toFd( h ), &s ) != 0 )
            return failErrno();
        auto* i                    = static_cast<FILE_STANDARD_INFO*>( out );
        i->AllocationSize.QuadPart = ( s.st_size + 4095 ) / 4096 * 4096;
        i->EndOfFile.QuadPart      = s.st_size;
        i->NumberOfLinks           = 1;
        i->DeletePending           = 0;
        i->Directory               = 0;
        return TRUE;
    }
    BOOL GetFileInformationByHandle( HANDLE h, LPBY_HANDLE_FILE_INFORMATION i )
    {
        struct stat s;
        if ( ::fstat( toFd( h ), &s ) != 0 )
            return failErrno();
        *i                  = BY_HANDLE_FILE_INFORMATION {};
        i->dwFileAttributes = FILE_ATTRIBUTE_NORMAL;
        i->nFileSizeHigh    = DWORD( uint64_t( s.st_size ) >> 32 );
        i->nFileSizeLow     = DWORD( s.st_size );
        i->nNumberOfLinks   = 1;
        return TRUE;
    }
    BOOL GetFileSizeEx( HANDLE h, PLARGE_INTEGER n )
    {
        struct stat s;
        if ( ::fstat( toFd( h ), &s ) != 0 )
            return failErrno();
        n->QuadPart = s.st_size;
        return TRUE;
    }
    DWORD GetFileSize( HANDLE h, LPDWORD high )
    {
        struct stat s;
        if ( ::fstat( toFd( h ), &s ) != 0 )
        {
            failErrno();
            return INVALID_FILE_SIZE;
        }
        if ( high )
            *high = DWORD( uint64_t( s.st_size ) >> 32 );
        lastError = NO_ERROR;
        return DWORD( s.st_size );
    }
    BOOL SetFilePointerEx( HANDLE h, LARGE_INTEGER d, PLARGE_INTEGER np, DWORD m )
    {
        off_t r = ::lseek( toFd( h ), d.QuadPart, m == FILE_BEGIN ? SEEK_SET : m == FILE_CURRENT ? SEEK_CUR : SEEK_END );
        if ( r < 0 )
            return failErrno();
        if ( np )
            np->QuadPart = r;
        return TRUE;
    }
    DWORD SetFilePointer( HANDLE h, LONG d, PLONG high, DWORD m )
    {
        LARGE_INTEGER a, b;
        a.QuadPart = d;
        if ( high )
            a.QuadPart = int64_t( uint64_t( uint32_t( *high ) ) << 32 | uint32_t( d ) );
        if ( !SetFilePointerEx( h, a, &b, m ) )
            return INVALID_SET_FILE_POINTER;
        if ( high )
            *high = b.HighPart;
        lastError = NO_ERROR;
        return b.LowPart;
    }
    BOOL SetEndOfFile( HANDLE h )
    {
        off_t r = ::lseek( toFd( h ), 0, SEEK_CUR );
        return r >= 0 && ::ftruncate( toFd( h ), r ) == 0 ? TRUE : failErrno();
    }
    BOOL DeleteFileW( LPCWSTR n )
    {
        Path p( n );
        return ::unlink( p.s ) == 0 ? TRUE : failErrno();
    }
    BOOL MoveFileExW( LPCWSTR a, LPCWSTR b, DWORD )
    {
        Path p( a ), q( b );
        return ::rename( p.s, q.s ) == 0 ? TRUE : failErrno();
    }
    DWORD GetFileAttributesW( LPCWSTR n )
    {
        Path p( n );
        Host h;
        auto it = W.files.find( p.s );
        if ( it == W.files.end() )
        {
            fail( ERROR_FILE_NOT_FOUND );
            return INVALID_FILE_ATTRIBUTES;
        }
        return it->second->dir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_NORMAL;
    }
    DWORD GetLastError() { return lastError; }
    void  SetLastError( DWORD e ) { lastError = e; }
    int   MultiByteToWideChar( UINT cp, DWORD flags, LPCCH s, int n, LPWSTR out, int max )
    {
        size_t len = 0;
        if ( n < 0 )
            while ( s[ len ] )
                len++;
        size_t bytes = n < 0 ? len + 1 : size_t( n );
        int    k     = 0;
        bool   bad   = false;
        auto   put   = [ & ]( uint32_t c )
        {
            if ( max && out && k < max )
                out[ k ] = char16_t( c );
            k++;
        };
        for ( size_t i = 0; i < bytes; )
        {
            auto     at = [ & ]( size_t j ) { return j < bytes ? static_cast<unsigned char>( s[ j ] ) : 0u; };
            uint32_t c  = at( i );
            size_t   m  = c < 0x80 || cp != CP_UTF8 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : ( c & 0xF0 ) == 0xE0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
            if ( m > 1 )
            {
                c &= 0xFF >> ( m + 1 );
                for ( size_t j = 1; j < m; j++ )
                    if ( ( at( i + j ) & 0xC0 ) == 0x80 )
                        c = c << 6 | ( at( i + j ) & 63 );
                    else
                    {
                        m = 0;
                        break;
                    }
                if ( ( m == 3 && ( c < 0x800 || ( c >= 0xD800 && c < 0xE000 ) ) ) || ( m == 4 && ( c < 0x10000 || c > 0x10FFFF ) ) )
                    m = 0;
            }
            if ( m == 0 )
            {
                bad = true;
                c   = 0xFFFD;
                m   = 1;
            }
            i += m;
            if ( c >= 0x10000 )
            {
                put( 0xD800 + ( ( c - 0x10000 ) >> 10 ) );
                put( 0xDC00 + ( ( c - 0x10000 ) & 0x3FF ) );
            }
            else
                put( c );
        }
        if ( bad && ( flags & MB_ERR_INVALID_CHARS ) )
            return fail( ERROR_NO_UNICODE_TRANSLATION );
        if ( max && k > max )
            return fail( ERROR_INSUFFICIENT_BUFFER );
        return k;
    }
    int WideCharToMultiByte( UINT, DWORD, LPCWSTR s, int n, LPSTR out, int max, LPCCH, LPBOOL used )
    {
        long len = 0;
        if ( n < 0 )
            while ( s[ len ] )
                len++;
        int k = 0;
        decode16( s, n < 0 ? len + 1 : n,
                  [ & ]( const char* b, int c )
                  {
                      for ( int i = 0; i < c; i++, k++ )
                          if ( max && k < max )
                              out[ k ] = b[ i ];
                  } );
        if ( used )
            *used = FALSE;
        if ( max && k > max )
            return fail( ERROR_INSUFFICIENT_BUFFER );
        return k;
    }
    int lstrlenW( LPCWSTR s )
    {
        int n = 0;
        while ( s[ n ] )
            n++;
        return n;
    }
}
