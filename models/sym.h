// Harness interface.  In the symbolic build the functions are interpreted by the engine; in the
// native build (replay) they read the values of a counterexample from a file.
#pragma once
#include <cstddef>
#include <cstdint>
#ifdef __cplusplus
extern "C" {
#endif
void __sym_make( void *p, size_t n, const char *name );
void __sym_assume( bool c );
void __sym_assert( bool c, const char *id );
void __sym_cover( const char *id );
uint64_t __sym_concrete( uint64_t v );
int __sym_is_symbolic( const void *p, size_t n );
void __sym_end( void );
uint64_t __sym_param( void );
void __sym_observe( const char *name, uint64_t v );
void __sym_print( const char *s, uint64_t v );
void __sym_where( void );
uint32_t __sym_crc( const void *p, size_t n );
int __sym_symbolic( void );
int __sym_fmt_double( char *buf, size_t size, int prec, int kind, uint64_t bits );
void *__sym_alloc( size_t n, int kind );
#ifdef __cplusplus
}
template <class T> inline T sym( const char *name )
{
   T t;
   __sym_make( &t, sizeof( T ), name );
   return t;
}
inline bool sym_bool( const char *name )
{
   unsigned char c;
   __sym_make( &c, 1, name );
   return c & 1;
}
// value in [0,n), one path per value
inline unsigned sym_choice( unsigned n, const char *name )
{
   unsigned char c;
   __sym_make( &c, 1, name );
   __sym_assume( c < n );
   return (unsigned)__sym_concrete( c );
}
// value in [lo,hi], stays symbolic
template <class T> inline T sym_range( T lo, T hi, const char *name )
{
   T t = sym<T>( name );
   __sym_assume( t >= lo && t <= hi );
   return t;
}
// a value to be compared between the engine and a native run of the same path
#define sym_observe( n, v ) __sym_observe( n, (uint64_t)( v ) )
#ifdef VF_NATIVE
struct VfReg { VfReg( const char *, void ( * )() ); };
#define HARNESS( name ) \
   extern "C" void name(); \
   static VfReg vfreg_##name( #name, name ); \
   extern "C" void name()
#else
#define HARNESS( name ) extern "C" void name()
#endif
#define sym_param() __sym_param()
#define sym_assume( c ) __sym_assume( ( c ) )
#define sym_assert( c, id ) __sym_assert( ( c ), id )
#define sym_cover( id ) __sym_cover( id )
#endif
