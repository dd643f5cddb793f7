// The part of the Win32 interface a file back end can need, for the variant of the simulator in which the library is
// compiled as for Windows (sim/win32.cpp implements it on the simulated file system). Only declarations of documented names.
#pragma once
#include <cstddef>
#include <cstdint>

typedef void*          HANDLE;
typedef uint32_t       DWORD;
typedef int            BOOL;
typedef int32_t        LONG;
typedef int64_t        LONGLONG;
typedef uint8_t        BOOLEAN;
typedef uint16_t       WORD;
typedef unsigned char  BYTE;
typedef unsigned int   UINT;
typedef void*          LPVOID;
typedef const void*    LPCVOID;
typedef DWORD*         LPDWORD;
typedef BOOL*          LPBOOL;
typedef LONG*          PLONG;
typedef wchar_t        WCHAR;
typedef wchar_t*       LPWSTR;
typedef const wchar_t* LPCWSTR;
typedef char*          LPSTR;
typedef const char*    LPCSTR;
typedef const char*    LPCCH;

typedef union _LARGE_INTEGER
{
    struct
    {
        DWORD LowPart;
        LONG  HighPart;
    };
    struct
    {
        DWORD LowPart;
        LONG  HighPart;
    } u;
    LONGLONG QuadPart;
} LARGE_INTEGER, *PLARGE_INTEGER;

typedef struct _FILE_STANDARD_INFO
{
    LARGE_INTEGER AllocationSize;
    LARGE_INTEGER EndOfFile;
    DWORD         NumberOfLinks;
    BOOLEAN       DeletePending;
    BOOLEAN       Directory;
} FILE_STANDARD_INFO;

typedef struct _FILETIME
{
    DWORD dwLowDateTime, dwHighDateTime;
} FILETIME;

typedef struct _BY_HANDLE_FILE_INFORMATION
{
    DWORD    dwFileAttributes;
    FILETIME ftCreationTime, ftLastAccessTime, ftLastWriteTime;
    DWORD    dwVolumeSerialNumber, nFileSizeHigh, nFileSizeLow, nNumberOfLinks, nFileIndexHigh, nFileIndexLow;
} BY_HANDLE_FILE_INFORMATION, *LPBY_HANDLE_FILE_INFORMATION;

typedef enum _FILE_INFO_BY_HANDLE_CLASS
{
    FileBasicInfo    = 0,
    FileStandardInfo = 1
} FILE_INFO_BY_HANDLE_CLASS;

typedef struct _OVERLAPPED
{
    void* unused;
} OVERLAPPED, *LPOVERLAPPED;
typedef struct _SECURITY_ATTRIBUTES
{
    DWORD nLength;
    void* lpSecurityDescriptor;
    BOOL  bInheritHandle;
} SECURITY_ATTRIBUTES, *LPSECURITY_ATTRIBUTES;

#ifndef TRUE
#    define TRUE 1
#    define FALSE 0
#endif
#define WINAPI
#define INVALID_HANDLE_VALUE ( (HANDLE)(intptr_t)-1 )
#define INVALID_FILE_SIZE ( (DWORD)0xFFFFFFFF )
#define INVALID_FILE_ATTRIBUTES ( (DWORD)-1 )
#define INVALID_SET_FILE_POINTER ( (DWORD)-1 )
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define CREATE_NEW 1u
#define CREATE_ALWAYS 2u
#define OPEN_EXISTING 3u
#define OPEN_ALWAYS 4u
#define TRUNCATE_EXISTING 5u
#define FILE_ATTRIBUTE_READONLY 1u
#define FILE_ATTRIBUTE_DIRECTORY 0x10u
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define FILE_FLAG_WRITE_THROUGH 0x80000000u
#define FILE_FLAG_SEQUENTIAL_SCAN 0x08000000u
#define FILE_BEGIN 0u
#define FILE_CURRENT 1u
#define FILE_END 2u
#define MAX_PATH 260
#define CP_ACP 0u
#define CP_UTF8 65001u
#define MB_ERR_INVALID_CHARS 8u
#define WC_ERR_INVALID_CHARS 0x80u
#define MOVEFILE_REPLACE_EXISTING 1u
#define MOVEFILE_WRITE_THROUGH 8u
#define NO_ERROR 0u
#define ERROR_SUCCESS 0u
#define ERROR_FILE_NOT_FOUND 2u
#define ERROR_PATH_NOT_FOUND 3u
#define ERROR_TOO_MANY_OPEN_FILES 4u
#define ERROR_ACCESS_DENIED 5u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_NOT_ENOUGH_MEMORY 8u
#define ERROR_GEN_FAILURE 31u
#define ERROR_SHARING_VIOLATION 32u
#define ERROR_HANDLE_EOF 38u
#define ERROR_FILE_EXISTS 80u
#define ERROR_INVALID_PARAMETER 87u
#define ERROR_DISK_FULL 112u
#define ERROR_INSUFFICIENT_BUFFER 122u
#define ERROR_ALREADY_EXISTS 183u
#define ERROR_OPERATION_ABORTED 995u
#define ERROR_NO_UNICODE_TRANSLATION 1113u
#define ERROR_IO_DEVICE 1117u

extern "C"
{
    HANDLE CreateFileW( LPCWSTR, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD flags, HANDLE );
    HANDLE CreateFileA( LPCSTR, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD flags, HANDLE );
    BOOL   ReadFile( HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED );
    BOOL   WriteFile( HANDLE, LPCVOID, DWORD, LPDWORD, LPOVERLAPPED );
    BOOL   CloseHandle( HANDLE );
    BOOL   FlushFileBuffers( HANDLE );
    BOOL   GetFileInformationByHandleEx( HANDLE, FILE_INFO_BY_HANDLE_CLASS, LPVOID, DWORD );
    BOOL   GetFileInformationByHandle( HANDLE, LPBY_HANDLE_FILE_INFORMATION );
    BOOL   GetFileSizeEx( HANDLE, PLARGE_INTEGER );
    DWORD  GetFileSize( HANDLE, LPDWORD high );
    BOOL   SetFilePointerEx( HANDLE, LARGE_INTEGER, PLARGE_INTEGER, DWORD );
    DWORD  SetFilePointer( HANDLE, LONG, PLONG, DWORD );
    BOOL   SetEndOfFile( HANDLE );
    BOOL   DeleteFileW( LPCWSTR );
    BOOL   MoveFileExW( LPCWSTR, LPCWSTR, DWORD );
    DWORD  GetFileAttributesW( LPCWSTR );
    DWORD  GetLastError();
    void   SetLastError( DWORD );
    int    MultiByteToWideChar( UINT, DWORD, LPCCH, int, LPWSTR, int );
    int    WideCharToMultiByte( UINT, DWORD, LPCWSTR, int, LPSTR, int, LPCCH, LPBOOL );
    int    lstrlenW( LPCWSTR );
}

#ifdef UNICODE
#    define CreateFile CreateFileW
#else
#    define CreateFile CreateFileA
#endif
