// libc entry points as seen by the library under test: routed to the simulated file system while
// a sim::Lib scope is active, to the kernel otherwise.
#include <dlfcn.h>
#include "world.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>

using namespace sim;

namespace
{
    void env( const Fault& f )
    {
        auto it = W.files.find( f.path );
        if ( it == W.files.end() || it->second->dir || it->second->tail )
            return;
        if ( f.act == A_TRUNC )
        {
            size_t k = it->second->bytes.empty() ? 0 : size_t( f.arg ) % it->second->bytes.size();
            it->second->bytes.resize( k );
        }
        else if ( f.act == A_APPEND )
            it->second->bytes += f.data;
        else if ( f.act == A_REPLACE )
        {
            auto n    = std::make_shared<Inode>();
            n->bytes  = f.data;
            it->second = n;
        }
        W.versions.emplace_back( f.path, it->second->bytes );
    }

    bool hits( const Fault& f, int n )
    {
        if ( f.plus )
            return n >= f.n && ( f.span == 0 || n < f.n + f.span );
        return n == f.n;
    }

    // Accounts for one call; returns the fault that applies to it.
    Fault* enter( Sys s, long& crashBytes )
    {
        crashBytes = -1;
        if ( yieldHook )
            yieldHook( 1, nullptr );
        int n  = ++W.count[ s ];
        int io = ++W.count[ S_IO ];
        W.st.calls[ s ]++;
        W.st.calls[ S_IO ]++;
        if ( W.ioCap && uint64_t( io ) > W.ioCap )
            fatal( "hang", std::string( "system call budget exceeded in " ) + sysName[ s ] );
        if ( !W.armed )
            return nullptr;
        Fault* res = nullptr;
        for ( auto& f : W.faults )
        {
            if ( f.sys == S_IO )
            {
                if ( !hits( f, io ) || W.zombie )
                    continue;
                if ( f.act == A_CRASH )
                {
                    f.fired++;
                    crashBytes = f.arg;
                }
                else if ( f.act == A_TRUNC || f.act == A_APPEND || f.act == A_REPLACE )
                {
                    f.fired++;
                    env( f );
                }
            }
            else if ( f.sys == s && hits( f, n ) && f.act != A_QUOTA && !res )
                res = &f;
        }
        return res;
    }

    OpenFile* get( int fd, const char* what )
    {
        int i = fd - W.fdBase;
        if ( i >= 0 && size_t( i ) < W.fds.size() && W.fds[ size_t( i ) ] )
            return W.fds[ size_t( i ) ].get();
        if ( fd == -1 )
        {
            errno = EBADF;
            return nullptr;
        }
        W.misuse.push_back( std::string( what ) + " on descriptor " + std::to_string( fd ) + " which is not open" );
        errno = EBADF;
        return nullptr;
    }

    bool parentOk( const std::string& p )
    {
        size_t k = p.rfind( '/' );
        if ( k == std::string::npos || k == 0 )
            return true;
        auto it = W.files.find( p.substr( 0, k ) );
        return it != W.files.end() && it->second->dir;
    }

    int simOpen( const char* path, int flags )
    {
        Host   h;
        long   cb;
        Fault* f = enter( S_OPEN, cb );
        std::string p = path ? path : "";
        if ( cb >= 0 )
        {
            W.zombie = true;
            W.st.crashes++;
            W.ev( "crash@open" );
        }
        if ( f && f->act == A_ERR )
        {
            f->fired++;
            W.ev( "open.err", f->arg, flags & ( O_CREAT | O_TRUNC | O_ACCMODE ) );
            errno = int( f->arg );
            return -1;
        }
        auto   it = W.files.find( p );
        InodeP ino;
        int    acc = flags & O_ACCMODE;
        if ( it == W.files.end() )
        {
            if ( !( flags & O_CREAT ) || !parentOk( p ) || p.empty() )
            {
                W.ev( "open.enoent" );
                errno = ENOENT;
                return -1;
            }
            ino = std::make_shared<Inode>();
            if ( !W.zombie )
                W.files[ p ] = ino;
        }
        else
        {
            ino = it->second;
            if ( ( flags & O_CREAT ) && ( flags & O_EXCL ) )
            {
                errno = EEXIST;
                return -1;
            }
            if ( ino->dir && ( acc != O_RDONLY || ( flags & O_CREAT ) ) )
            {
                W.ev( "open.eisdir" );
                errno = EISDIR;
                return -1;
            }
            if ( ( flags & O_TRUNC ) && acc != O_RDONLY )
            {
                if ( W.zombie )
                    ino = std::make_shared<Inode>();
                else
                {
                    ino->bytes.clear();
                    ino->tail = 0;
                }
            }
        }
        auto o   = std::make_unique<OpenFile>();
        o->inode = ino;
        o->path  = p;
        o->rd    = acc != O_WRONLY;
        o->wr    = acc != O_RDONLY;
        o->app   = flags & O_APPEND;
        size_t i = 0;
        while ( i < W.fds.size() && W.fds[ i ] )
            i++;
        if ( i == W.fds.size() )
            W.fds.emplace_back();
        W.fds[ i ] = std::move( o );
        W.ev( "open", long( i ), flags & ( O_CREAT | O_TRUNC | O_ACCMODE ), long( ino->bytes.size() ) );
        return W.fdBase + int( i );
    }

    int simClose( int fd )
    {
        Host   h;
        long   cb;
        Fault* f = enter( S_CLOSE, cb );
        OpenFile* o = get( fd, "close" );
        if ( cb >= 0 )
        {
            W.zombie = true;
            W.st.crashes++;
            W.ev( "crash@close" );
        }
        if ( !o )
            return -1;
        int rc = 0;
        if ( f && ( f->act == A_ERR || f->act == A_LOSE ) )
        {
            f->fired++;
            rc    = -1;
            errno = f->act == A_LOSE ? EIO : int( f->arg );
            if ( f->act == A_LOSE && o->wr && !W.zombie )
            {
                size_t k = std::min( o->wrote, size_t( f->arg ) );
                k        = std::min( k, o->inode->bytes.size() );
                o->inode->bytes.resize( o->inode->bytes.size() - k );
            }
        }
        W.ev( "close", fd - W.fdBase, rc );
        W.fds[ size_t( fd - W.fdBase ) ].reset();
        return rc;
    }

    size_t limit( Fault* f, size_t n )
    {
        if ( !f || n == 0 )
            return n;
        if ( f->act == A_SHORT )
        {
            size_t k = size_t( f->arg < 1 ? 1 : f->arg );
            if ( k < n )
            {
                f->fired++;
                return k;
            }
        }
        else if ( f->act == A_LIMIT )
        {
            size_t k = 1 + size_t( mix( uint64_t( f->arg ), uint64_t( W.count[ S_IO ] ) ) % uint64_t( f->arg < 1 ? 1 : f->arg ) );
            if ( k < n )
            {
                f->fired++;
                return k;
            }
        }
        return n;
    }

    ssize_t simRead( int fd, void* buf, size_t n, long off )
    {
        Host   h;
        long   cb;
        Fault* f = enter( S_READ, cb );
        OpenFile* o = get( fd, "read" );
        if ( cb >= 0 )
        {
            W.zombie = true;
            W.st.crashes++;
            W.ev( "crash@read" );
        }
        if ( !o )
            return -1;
        if ( o->inode->dir )
        {
            errno = EISDIR;
            return -1;
        }
        if ( !o->rd )
        {
            errno = EBADF;
            return -1;
        }
        if ( f && f->act == A_ERR )
        {
            f->fired++;
            W.ev( "read.err", f->arg );
            errno = int( f->arg );
            return -1;
        }
        if ( f && ( f->act == A_EOF || f->act == A_ZERO ) )
        {
            f->fired++;
            o->eof = true;
        }
        if ( o->eof )
        {
            W.ev( "read.eof" );
            return 0;
        }
        size_t pos = off >= 0 ? size_t( off ) : o->pos;
        size_t av  = pos < o->inode->bytes.size() ? o->inode->bytes.size() - pos : 0;
        size_t k   = limit( f, std::min( n, av ) );
        memcpy( buf, o->inode->bytes.data() + ( av ? pos : 0 ), k );
        if ( !av && o->inode->tail )
        {
            uint64_t end = o->inode->bytes.size() + o->inode->tail;
            k            = pos < end ? limit( f, size_t( std::min<uint64_t>( n, end - pos ) ) ) : 0;
            memset( buf, ' ', k );
        }
        if ( off < 0 )
            o->pos += k;
        W.ioBytes += k;
        W.ev( "read", long( n ), long( k ) );
        return ssize_t( k );
    }

    ssize_t simWrite( int fd, const void* buf, size_t n, long off )
    {
        Host   h;
        long   cb;
        Fault* f = enter( S_WRITE, cb );
        OpenFile* o = get( fd, "write" );
        if ( !o )
            return -1;
        if ( !o->wr )
        {
            errno = EBADF;
            return -1;
        }
        bool torn = false;
        if ( cb >= 0 )
        {
            torn = true;
            W.st.crashes++;
        }
        size_t k = n;
        if ( !W.zombie && !torn )
        {
            if ( f && f->act == A_ERR )
            {
                f->fired++;
                W.ev( "write.err", f->arg, long( n ) );
                errno = int( f->arg );
                return -1;
            }
            if ( f && f->act == A_ZERO && n )
            {
                f->fired++;
                W.ev( "write.zero" );
                return 0;
            }
            k = limit( f, n );
            if ( W.quota >= 0 && n )
            {
                if ( long( k ) > W.quota )
                {
                    for ( auto& x : W.faults )
                        if ( x.act == A_QUOTA )
                            x.fired++;
                    if ( W.quota == 0 )
                    {
                        W.ev( "write.enospc" );
                        errno = ENOSPC;
                        return -1;
                    }
                    k = size_t( W.quota );
                }
                W.quota -= long( k );
            }
        }
        size_t store = torn ? std::min( n, size_t( cb ) ) : k;
        if ( !W.zombie )
        {
            auto&  b   = o->inode->bytes;
            size_t pos = off >= 0 ? size_t( off ) : ( o->app ? b.size() : o->pos );
            if ( store )
            {
                if ( pos + store > b.size() )
                    b.resize( pos + store, '\0' );
                memcpy( &b[ pos ], buf, store );
            }
            if ( off < 0 )
                o->pos = pos + k;
            o->wrote += store;
        }
        W.ioBytes += k;
        W.ev( torn ? "write.torn" : "write", long( n ), long( store ) );
        if ( torn )
            W.zombie = true;
        return ssize_t( k );
    }

    int simStat( OpenFile* o, InodeP ino, struct stat* st )
    {
        Host   h;
        long   cb;
        Fault* f = enter( S_STAT, cb );
        if ( cb >= 0 )
        {
            W.zombie = true;
            W.st.crashes++;
        }
        if ( f && f->act == A_ERR )
        {
            f->fired++;
            W.ev( "stat.err", f->arg );
            errno = int( f->arg );
            return -1;
        }
        if ( o )
            ino = o->inode;
        memset( st, 0, sizeof *st );
        st->st_mode    = ino->dir ? ( S_IFDIR | 0755 ) : ( S_IFREG | 0644 );
        st->st_size    = ino->dir ? 4096 : off_t( ino->bytes.size() + ino->tail );
        st->st_blksize = 4096;
        st->st_nlink   = 1;
        W.ev( "stat", long( st->st_size ) );
        return 0;
    }

    int misc( const char* what )
    {
        long   cb;
        Fault* f = enter( S_MISC, cb );
        if ( cb >= 0 )
        {
            W.zombie = true;
            W.st.crashes++;
        }
        W.ev( what );
        if ( f && f->act == A_ERR )
        {
            f->fired++;
            errno = int( f->arg );
            return -1;
        }
        return 0;
    }

    std::unordered_map<FILE*, int>& fileFds()
    {
        static auto* m = new std::unordered_map<FILE*, int>;
        return *m;
    }
} // namespace

extern "C"
{
    int open( const char* path, int flags, ... )
    {
        va_list ap;
        va_start( ap, flags );
        int mode = ( flags & ( O_CREAT | O_TMPFILE ) ) ? va_arg( ap, int ) : 0;
        va_end( ap );
        if ( inLib )
            return simOpen( path, flags );
        return int( syscall( SYS_openat, AT_FDCWD, path, flags, mode ) );
    }
    int open64( const char* path, int flags, ... )
    {
        va_list ap;
        va_start( ap, flags );
        int mode = ( flags & ( O_CREAT | O_TMPFILE ) ) ? va_arg( ap, int ) : 0;
        va_end( ap );
        if ( inLib )
            return simOpen( path, flags );
        return int( syscall( SYS_openat, AT_FDCWD, path, flags, mode ) );
    }
    int openat( int d, const char* path, int flags, ... )
    {
        va_list ap;
        va_start( ap, flags );
        int mode = ( flags & ( O_CREAT | O_TMPFILE ) ) ? va_arg( ap, int ) : 0;
        va_end( ap );
        if ( inLib )
            return simOpen( path, flags );
        return int( syscall( SYS_openat, d, path, flags, mode ) );
    }
    int creat( const char* path, mode_t mode )
    {
        if ( inLib )
            return simOpen( path, O_WRONLY | O_CREAT | O_TRUNC );
        return int( syscall( SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, mode ) );
    }
    int mkstemp( char* t )
    {
        if ( inLib )
        {
            unsigned k = 0;
            size_t          n = strlen( t );
            for ( ;; )
            {
                unsigned x = k++;
                for ( size_t i = n - 6; i < n; i++, x /= 26 )
                    t[ i ] = char( 'a' + x % 26 );
                if ( !W.files.count( t ) )
                    break;
            }
            return simOpen( t, O_RDWR | O_CREAT );
        }
        static unsigned k = unsigned( getpid() ) * 1000;
        size_t          n = strlen( t );
        for ( ;; )
        {
            unsigned x = k++;
            for ( size_t i = n - 6; i < n; i++, x /= 26 )
                t[ i ] = char( 'a' + x % 26 );
            int fd = int( syscall( SYS_openat, AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL, 0600 ) );
            if ( fd >= 0 || errno != EEXIST )
                return fd;
        }
    }
    int close( int fd )
    {
        if ( inLib )
            return simClose( fd );
        return int( syscall( SYS_close, fd ) );
    }
    ssize_t read( int fd, void* b, size_t n )
    {
        if ( inLib )
            return simRead( fd, b, n, -1 );
        return syscall( SYS_read, fd, b, n );
    }
    ssize_t pread( int fd, void* b, size_t n, off_t off )
    {
        if ( inLib )
            return simRead( fd, b, n, off );
        return syscall( SYS_pread64, fd, b, n, off );
    }
    ssize_t pread64( int fd, void* b, size_t n, off64_t off )
    {
        return pread( fd, b, n, off );
    }
    ssize_t write( int fd, const void* b, size_t n )
    {
        if ( inLib )
            return simWrite( fd, b, n, -1 );
        return syscall( SYS_write, fd, b, n );
    }
    ssize_t pwrite( int fd, const void* b, size_t n, off_t off )
    {
        if ( inLib )
            return simWrite( fd, b, n, off );
        return syscall( SYS_pwrite64, fd, b, n, off );
    }
    ssize_t pwrite64( int fd, const void* b, size_t n, off64_t off )
    {
        return pwrite( fd, b, n, off );
    }
    ssize_t readv( int fd, const struct iovec* v, int c )
    {
        if ( inLib )
        {
            for ( int i = 0; i < c; i++ )
                if ( v[ i ].iov_len )
                    return simRead( fd, v[ i ].iov_base, v[ i ].iov_len, -1 );
            return 0;
        }
        return syscall( SYS_readv, fd, v, c );
    }
    ssize_t writev( int fd, const struct iovec* v, int c )
    {
        if ( inLib )
        {
            Host        h;
            std::string s;
            for ( int i = 0; i < c; i++ )
                s.append( static_cast<const char*>( v[ i ].iov_base ), v[ i ].iov_len );
            return simWrite( fd, s.data(), s.size(), -1 );
        }
        return syscall( SYS_writev, fd, v, c );
    }
    off_t lseek( int fd, off_t off, int wh )
    {
        if ( inLib )
        {
            Host      h;
            OpenFile* o = get( fd, "lseek" );
            if ( !o || misc( "lseek" ) != 0 )
                return -1;
            long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? long( o->pos ) : long( o->inode->bytes.size() + o->inode->tail );
            if ( base + off < 0 )
            {
                errno = EINVAL;
                return -1;
            }
            o->pos = size_t( base + off );
            return off_t( o->pos );
        }
        return syscall( SYS_lseek, fd, off, wh );
    }
    off64_t lseek64( int fd, off64_t off, int wh )
    {
        return lseek( fd, off, wh );
    }
    int fstat( int fd, struct stat* st )
    {
        if ( inLib )
        {
            OpenFile* o;
            {
                Host h;
                o = get( fd, "fstat" );
            }
            if ( !o )
                return -1;
            return simStat( o, nullptr, st );
        }
        return int( syscall( SYS_newfstatat, fd, "", st, AT_EMPTY_PATH ) );
    }
    int fstat64( int fd, struct stat64* st )
    {
        return fstat( fd, reinterpret_cast<struct stat*>( st ) );
    }
    int __fxstat( int, int fd, struct stat* st )
    {
        return fstat( fd, st );
    }
    int stat( const char* p, struct stat* st )
    {
        if ( inLib )
        {
            InodeP ino;
            {
                Host h;
                auto it = W.files.find( p );
                if ( it == W.files.end() )
                {
                    misc( "stat.enoent" );
                    errno = ENOENT;
                    return -1;
                }
                ino = it->second;
            }
            return simStat( nullptr, ino, st );
        }
        return int( syscall( SYS_newfstatat, AT_FDCWD, p, st, 0 ) );
    }
    int stat64( const char* p, struct stat64* st )
    {
        return stat( p, reinterpret_cast<struct stat*>( st ) );
    }
    int lstat( const char* p, struct stat* st )
    {
        if ( inLib )
            return stat( p, st );
        return int( syscall( SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW ) );
    }
    int fsync( int fd )
    {
        if ( inLib )
        {
            Host h;
            return get( fd, "fsync" ) ? misc( "fsync" ) : -1;
        }
        return int( syscall( SYS_fsync, fd ) );
    }
    int fdatasync( int fd )
    {
        if ( inLib )
        {
            Host h;
            return get( fd, "fdatasync" ) ? misc( "fdatasync" ) : -1;
        }
        return int( syscall( SYS_fdatasync, fd ) );
    }
    int ftruncate( int fd, off_t n )
    {
        if ( inLib )
        {
            Host      h;
            OpenFile* o = get( fd, "ftruncate" );
            if ( !o || misc( "ftruncate" ) != 0 )
                return -1;
            if ( !W.zombie )
                {
                    o->inode->bytes.resize( size_t( n ), '\0' );
                    o->inode->tail = 0;
                }
            return 0;
        }
        return int( syscall( SYS_ftruncate, fd, n ) );
    }
    int ftruncate64( int fd, off64_t n )
    {
        return ftruncate( fd, n );
    }
    int truncate( const char* p, off_t n )
    {
        if ( inLib )
        {
            Host h;
            if ( misc( "truncate" ) != 0 )
                return -1;
            auto it = W.files.find( p );
            if ( it == W.files.end() || it->second->dir )
            {
                errno = ENOENT;
                return -1;
            }
            if ( !W.zombie )
                it->second->bytes.resize( size_t( n ), '\0' );
            return 0;
        }
        return int( syscall( SYS_truncate, p, n ) );
    }
    int unlink( const char* p )
    {
        if ( inLib )
        {
            Host h;
            if ( misc( "unlink" ) != 0 )
                return -1;
            auto it = W.files.find( p );
            if ( it == W.files.end() || it->second->dir )
            {
                errno = ENOENT;
                return -1;
            }
            if ( !W.zombie )
                W.files.erase( it );
            return 0;
        }
        return int( syscall( SYS_unlinkat, AT_FDCWD, p, 0 ) );
    }
    int remove( const char* p )
    {
        return unlink( p );
    }
    int rename( const char* a, const char* b )
    {
        if ( inLib )
        {
            Host h;
            if ( misc( "rename" ) != 0 )
                return -1;
            auto it = W.files.find( a );
            if ( it == W.files.end() || !parentOk( b ) )
            {
                errno = ENOENT;
                return -1;
            }
            auto jt = W.files.find( b );
            if ( jt != W.files.end() && jt->second->dir )
            {
                errno = EISDIR;
                return -1;
            }
            if ( !W.zombie )
            {
                InodeP i = it->second;
                W.files.erase( it );
                W.files[ b ] = i;
            }
            return 0;
        }
        return int( syscall( SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0 ) );
    }
    int access( const char* p, int m )
    {
        if ( inLib )
        {
            Host h;
            if ( misc( "access" ) != 0 )
                return -1;
            if ( W.files.count( p ) )
                return 0;
            errno = ENOENT;
            return -1;
        }
        return int( syscall( SYS_faccessat, AT_FDCWD, p, m ) );
    }
    int fchmod( int fd, mode_t m )
    {
        if ( inLib )
        {
            Host h;
            return get( fd, "fchmod" ) ? misc( "fchmod" ) : -1;
        }
        return int( syscall( SYS_fchmod, fd, m ) );
    }

    // stdio, should the library come to use it: a cookie stream over the simulated descriptors
    static ssize_t ckRead( void* c, char* b, size_t n )
    {
        return simRead( int( reinterpret_cast<intptr_t>( c ) ), b, n, -1 );
    }
    static ssize_t ckWrite( void* c, const char* b, size_t n )
    {
        ssize_t k = simWrite( int( reinterpret_cast<intptr_t>( c ) ), b, n, -1 );
        return k < 0 ? 0 : k;
    }
    static int ckSeek( void* c, off64_t* off, int wh )
    {
        Lib     l;
        off64_t r = lseek( int( reinterpret_cast<intptr_t>( c ) ), *off, wh );
        if ( r < 0 )
            return -1;
        *off = r;
        return 0;
    }
    static int ckClose( void* c )
    {
        return simClose( int( reinterpret_cast<intptr_t>( c ) ) );
    }
    FILE* fopen( const char* p, const char* mode )
    {
        int  fl   = 0;
        bool plus = strchr( mode, '+' ) != nullptr;
        switch ( mode[ 0 ] )
        {
            case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
            case 'w': fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_TRUNC; break;
            default: fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_APPEND; break;
        }
        if ( inLib )
        {
            int fd = simOpen( p, fl );
            if ( fd < 0 )
                return nullptr;
            Host                    h;
            cookie_io_functions_t   f { ckRead, ckWrite, ckSeek, ckClose };
            FILE*                   F = fopencookie( reinterpret_cast<void*>( intptr_t( fd ) ), mode, f );
            fileFds()[ F ]            = fd;
            return F;
        }
        int fd = int( syscall( SYS_openat, AT_FDCWD, p, fl, 0644 ) );
        if ( fd < 0 )
            return nullptr;
        return fdopen( fd, mode );
    }
    FILE* fdopen( int fd, const char* mode ) noexcept
    {
        if ( inLib )
        {
            if ( !get( fd, "fdopen" ) )
                return nullptr;
            Host                  h;
            cookie_io_functions_t f { ckRead, ckWrite, ckSeek, ckClose };
            FILE*                 F = fopencookie( reinterpret_cast<void*>( intptr_t( fd ) ), mode, f );
            fileFds()[ F ]          = fd;
            return F;
        }
        using Fn       = FILE* ( * )( int, const char* );
        static Fn real = reinterpret_cast<Fn>( dlsym( RTLD_NEXT, "fdopen" ) );
        return real( fd, mode );
    }
    FILE* fopen64( const char* p, const char* mode )
    {
        return fopen( p, mode );
    }
    int fileno( FILE* F ) noexcept
    {
        if ( inLib )
        {
            Host h;
            auto it = fileFds().find( F );
            if ( it != fileFds().end() )
                return it->second;
        }
        return fileno_unlocked( F );
    }
}
