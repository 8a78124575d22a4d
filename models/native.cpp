// Native side of the harness interface: replays the inputs of one path against the real code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <locale>
#include <unistd.h>
struct VEnt { const char *n; void ( *f )(); };
static std::vector<VEnt> &tab() { static std::vector<VEnt> t; return t; }
VfReg::VfReg( const char *n, void ( *f )() ) { tab().push_back( VEnt{ n, f } ); }
struct In { std::string name; std::vector<unsigned char> v; };
static std::vector<In> ins;
static size_t pos = 0;
static unsigned long param = 0;
extern "C" int vf_opaque_numbers = 0;
extern "C" int vf_alloc_refused = 0;
extern "C" uint64_t vf_exact_m = 0;
extern "C" int vf_exact_shift = 0;
struct VfPunct : std::numpunct<char>
{
   char do_decimal_point() const override { return ','; }
   char do_thousands_sep() const override { return '.'; }
   std::string do_grouping() const override { return "\3"; }
};
extern "C" void vf_set_locale( int k )
{
   if ( k ) std::locale::global( std::locale( std::locale::classic(), new VfPunct ) );
}
extern "C" {
void __sym_make( void *p, size_t n, const char *name )
{
   memset( p, 0, n );
   if ( pos >= ins.size() ) { pos++; return; }
   In &i = ins[pos++];
   if ( i.name != name || i.v.size() != n )
   {
      printf( "REPLAY-DESYNC expected %s/%zu got %s/%zu\n", i.name.c_str(), i.v.size(), name, n );
      fflush( stdout );
      _exit( 78 );
   }
   if ( n ) memcpy( p, i.v.data(), n );
}
void __sym_assume( bool c )
{
   if ( !c ) { printf( "REPLAY-ASSUME\n" ); fflush( stdout ); _exit( 77 ); }
}
void __sym_assert( bool c, const char *id )
{
   if ( !c ) { printf( "REPLAY-VIOLATION %s\n", id ); fflush( stdout ); _exit( 42 ); }
}
void __sym_cover( const char *id ) { printf( "COVER %s\n", id ); }
uint64_t __sym_concrete( uint64_t v ) { return v; }
int __sym_is_symbolic( const void *, size_t ) { return 0; }
void __sym_end( void ) { printf( "REPLAY-OK\n" ); fflush( stdout ); _exit( 0 ); }
void __sym_print( const char *s, uint64_t v ) { printf( "PRINT %s %lx\n", s, (unsigned long)v ); }
void __sym_observe( const char *s, uint64_t v ) { printf( "OBS %s %lx\n", s, (unsigned long)v ); }
void __sym_where( void ) {}
uint64_t __sym_param( void ) { return param; }
int __sym_symbolic( void ) { return 0; }
uint32_t __sym_crc( const void *p, size_t n )
{
   uint32_t c = ~0u;
   const unsigned char *b = (const unsigned char *)p;
   for ( size_t i = 0; i < n; i++ )
   {
      c ^= b[i];
      for ( int k = 0; k < 8; k++ ) c = c >> 1 ^ ( c & 1 ? 0x82F63B78u : 0 );
   }
   return ~c;
}
}
// the symbolic build refuses requests above 256 MiB; do the same here
#include <new>
static void *vnew( size_t n )
{
   void *p = n > ( size_t( 256 ) << 20 ) ? nullptr : malloc( n ? n : 1 );
   if ( !p ) { vf_alloc_refused++; throw std::bad_alloc(); }
   return p;
}
void *operator new( size_t n ) { return vnew( n ); }
void *operator new[]( size_t n ) { return vnew( n ); }
void operator delete( void *p ) noexcept { free( p ); }
void operator delete[]( void *p ) noexcept { free( p ); }
void operator delete( void *p, size_t ) noexcept { free( p ); }
void operator delete[]( void *p, size_t ) noexcept { free( p ); }
int main( int argc, char **argv )
{
   if ( argc < 3 ) return 2;
   FILE *f = fopen( argv[2], "r" );
   if ( !f ) return 2;
   char *line = nullptr;
   size_t cap = 0;
   auto hex = []( char c ) -> unsigned { return c <= '9' ? c - '0' : ( c | 32 ) - 'a' + 10; };
   while ( getline( &line, &cap, f ) > 0 )
   {
      if ( !strncmp( line, "#param ", 7 ) ) param = strtoul( line + 7, nullptr, 10 );
      if ( line[0] == '#' ) continue;
      // a name, which may contain spaces, a size and the bytes (none for size 0)
      size_t end = strlen( line );
      while ( end && line[end - 1] == '\n' ) line[--end] = 0;
      char *data = strrchr( line, ' ' );
      if ( !data ) continue;
      *data++ = 0;
      char *size = strrchr( line, ' ' );
      if ( !size ) continue;
      *size++ = 0;
      const unsigned n = strtoul( size, nullptr, 10 );
      In i;
      i.name = line;
      for ( unsigned k = 0; k < n; k++ )
      {
         const char *h = data + 2 * k;
         i.v.push_back( (unsigned char)( hex( h[0] ) << 4 | hex( h[1] ) ) );
      }
      ins.push_back( i );
   }
   fclose( f );
   for ( auto &e : tab() )
      if ( !strcmp( e.n, argv[1] ) )
      {
         try
         {
            e.f();
         }
         catch ( std::exception &x )
         {
            printf( "REPLAY-VIOLATION no-abnormal-termination: uncaught %s\n", x.what() );
            fflush( stdout );
            _exit( 42 );
         }
         catch ( ... )
         {
            printf( "REPLAY-VIOLATION no-abnormal-termination: uncaught exception\n" );
            fflush( stdout );
            _exit( 42 );
         }
         printf( "REPLAY-OK\n" );
         fflush( stdout );
         _exit( 0 );
      }
   return 2;
}
