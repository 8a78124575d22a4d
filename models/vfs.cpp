#include "vfs.h"
#include "sym.h"
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>

VfsCtl vfs;
struct Fd { bool open; VfsFile *f; uint64_t off; bool append; };
static VfsFile *files[16];
static int nFiles = 0;
static Fd fds[16];
static const int kBase = 1000;

VfsFile *vfs_find( const char *name )
{
   for ( int i = 0; i < nFiles; i++ )
      if ( files[i]->exists && !strcmp( files[i]->name, name ) ) return files[i];
   return nullptr;
}
VfsFile *vfs_create( const char *name )
{
   VfsFile *f = vfs_find( name );
   if ( !f )
   {
      f = new VfsFile;
      strncpy( f->name, name, 31 );
      f->name[31] = 0;
      f->exists = true;
      files[nFiles++] = f;
   }
   f->data.clear();
   return f;
}
int vfs_open_count()
{
   int n = 0;
   for ( int i = 0; i < 16; i++ ) n += fds[i].open;
   return n;
}
// true: the current operation must fail
static bool fault( int op )
{
   int k = vfs.ops++;
   if ( vfs.crashed ) return true;
   if ( k == vfs.crash_at ) vfs.crashed = true;
   if ( k == vfs.fail_at || ( vfs.sticky && vfs.fired && op != 'c' ) )
   {
      vfs.fired = true;
      vfs.fired_op = op;
      return true;
   }
   return false;
}
// copies the first k of n bytes, k may be symbolic
static void merge( uint8_t *d, const uint8_t *s, size_t n, size_t k )
{
   for ( size_t i = 0; i < n; i++ )
      d[i] = (uint8_t)( d[i] ^ ( ( s[i] ^ d[i] ) & (uint8_t)( (int64_t)( i - k ) >> 63 ) ) );
}
static Fd *get( int fd )
{
   if ( fd < kBase || fd >= kBase + 16 || !fds[fd - kBase].open ) return nullptr;
   return &fds[fd - kBase];
}
static int vopen( const char *name, int flags )
{
   if ( fault( 'o' ) ) { errno = EIO; return -1; }
   VfsFile *f = vfs_find( name );
   if ( !f )
   {
      if ( !( flags & O_CREAT ) ) { errno = ENOENT; return -1; }
      if ( vfs.crashed )
      {
         f = new VfsFile; // exists for the running program only
         f->name[0] = 0;
         f->exists = false;
      }
      else f = vfs_create( name );
   }
   else if ( ( flags & O_CREAT ) && ( flags & O_EXCL ) ) { errno = EEXIST; return -1; }
   else if ( flags & O_TRUNC )
   {
      if ( !vfs.crashed ) f->data.clear();
   }
   for ( int i = 0; i < 16; i++ )
      if ( !fds[i].open )
      {
         fds[i].open = true;
         fds[i].f = f;
         fds[i].off = 0;
         fds[i].append = flags & O_APPEND;
         return kBase + i;
      }
   errno = EMFILE;
   return -1;
}
// one of a few lengths below n for a transfer that extends the file
static size_t some( int any, size_t n )
{
   const size_t L[] = { 0, 1, n / 2, n - 4, n - 1 };
   size_t k = L[sym_choice( 5, "partial length" )];
   __sym_assume( (size_t)any == k );
   return k;
}
static long vread( Fd *d, void *buf, size_t n )
{
   bool bad = fault( 'r' );
   if ( bad && ( vfs.fail_kind == 0 || vfs.crashed ) ) { errno = EIO; return -1; }
   if ( d->off >= d->f->data.size() ) return 0;
   size_t k = d->f->data.size() - d->off;
   if ( k > n ) k = n;
   if ( bad && vfs.any_len )
   {
      size_t full = k;
      k = (size_t)vfs.short_len;
      __sym_assume( k < full );
      merge( (uint8_t *)buf, d->f->data.data() + d->off, full, k );
      d->off += k;
      return (long)k;
   }
   if ( bad && (size_t)vfs.short_len < k ) k = (size_t)vfs.short_len;
   if ( k ) memcpy( buf, d->f->data.data() + d->off, k );
   d->off += k;
   return (long)k;
}
static long vwrite( Fd *d, const void *buf, size_t n )
{
   bool was = vfs.crashed;
   bool bad = fault( 'w' );
   vfs.writes++;
   if ( bad && ( vfs.fail_kind == 0 || vfs.crashed ) ) { errno = ENOSPC; return -1; }
   size_t k = n;
   const bool grows = d->off + n > d->f->data.size();
   if ( bad && vfs.any_len && !grows )
   {
      k = (size_t)vfs.short_len;
      __sym_assume( k < n );
      merge( d->f->data.data() + d->off, (const uint8_t *)buf, n, k );
      d->off += k;
      return (long)k;
   }
   if ( bad && vfs.any_len ) k = some( vfs.short_len, n );
   else if ( bad && (size_t)vfs.short_len < k ) k = (size_t)vfs.short_len;
   size_t reach = k;
   if ( vfs.crashed && !was && vfs.any_len && !grows )
   {
      merge( d->f->data.data() + d->off, (const uint8_t *)buf, n, (size_t)vfs.torn );
      d->off += k;
      return (long)k;
   }
   if ( vfs.crashed && !was && vfs.any_len ) reach = some( vfs.torn, n );
   else
   if ( vfs.crashed ) reach = was ? 0 : ( (size_t)vfs.torn < k ? (size_t)vfs.torn : k );
   if ( d->append ) d->off = d->f->data.size();
   if ( reach )
   {
      if ( d->off + reach > d->f->data.size() )
      {
         if ( d->off + reach > ( size_t( 1 ) << 24 ) ) { errno = EFBIG; return -1; }
         d->f->data.resize( d->off + reach );
      }
      memcpy( d->f->data.data() + d->off, buf, reach );
   }
   d->off += k;
   return (long)k;
}
static long vseek( Fd *d, long off, int whence )
{
   if ( fault( 's' ) ) { errno = EIO; return -1; }
   long b = whence == 0 ? 0 : whence == 1 ? (long)d->off : (long)d->f->data.size();
   if ( b + off < 0 ) { errno = EINVAL; return -1; }
   d->off = (uint64_t)( b + off );
   return (long)d->off;
}
static int vclose( Fd *d )
{
   bool bad = fault( 'c' );
   d->open = false;
   if ( bad ) { errno = EIO; return -1; }
   return 0;
}
static int vremove( const char *name )
{
   VfsFile *f = vfs_find( name );
   if ( !f ) { errno = ENOENT; return -1; }
   vfs.ops++;
   if ( !vfs.crashed ) f->exists = false;
   return 0;
}
static int vtrunc( Fd *d, long n )
{
   if ( fault( 't' ) ) { errno = EIO; return -1; }
   if ( !vfs.crashed ) d->f->data.resize( (size_t)n );
   return 0;
}

#ifdef VF_NATIVE
#include <unistd.h>
#include <cstdio>
extern "C" {
int __real_open( const char *, int, ... );
int __real_open64( const char *, int, ... );
ssize_t __real_read( int, void *, size_t );
ssize_t __real_write( int, const void *, size_t );
off_t __real_lseek( int, off_t, int );
off64_t __real_lseek64( int, off64_t, int );
int __real_close( int );
int __real_remove( const char * );
int __real_unlink( const char * );
int __wrap_open( const char *n, int f, ... )
{
   if ( n[0] == '/' ) { errno = EACCES; return -1; }
   return vopen( n, f );
}
int __wrap_open64( const char *n, int f, ... )
{
   if ( n[0] == '/' ) { errno = EACCES; return -1; }
   return vopen( n, f );
}
ssize_t __wrap_read( int fd, void *b, size_t n ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vread( d, b, n ); }
ssize_t __wrap_write( int fd, const void *b, size_t n ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vwrite( d, b, n ); }
off_t __wrap_lseek( int fd, off_t o, int w ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vseek( d, o, w ); }
off64_t __wrap_lseek64( int fd, off64_t o, int w ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vseek( d, o, w ); }
int __wrap_close( int fd ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vclose( d ); }
int __wrap_remove( const char *n ) { return vremove( n ); }
int __wrap_unlink( const char *n ) { return vremove( n ); }
int __wrap_ftruncate( int fd, off_t o ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vtrunc( d, o ); }
int __wrap_fsync( int fd ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } if ( fault( 'f' ) ) { errno = EIO; return -1; } return 0; }
}
#else
extern "C" {
int open( const char *n, int f, ... ) { return vopen( n, f ); }
int open64( const char *n, int f, ... ) { return vopen( n, f ); }
ssize_t read( int fd, void *b, size_t n ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vread( d, b, n ); }
ssize_t write( int fd, const void *b, size_t n ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vwrite( d, b, n ); }
off_t lseek( int fd, off_t o, int w ) noexcept { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vseek( d, o, w ); }
off64_t lseek64( int fd, off64_t o, int w ) noexcept { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vseek( d, o, w ); }
int close( int fd ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vclose( d ); }
int remove( const char *n ) noexcept { return vremove( n ); }
int unlink( const char *n ) noexcept { return vremove( n ); }
int ftruncate( int fd, off_t o ) noexcept { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } return vtrunc( d, o ); }
int fsync( int fd ) { Fd *d = get( fd ); if ( !d ) { errno = EBADF; return -1; } if ( fault( 'f' ) ) { errno = EIO; return -1; } return 0; }
}
#endif
