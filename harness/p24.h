// Shared by the checks of the simple interface.
#pragma once
#include "h.h"
#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"
#include <memory>
static uint64_t bitsOf( double d )
{
   uint64_t u;
   memcpy( &u, &d, 8 );
   return u;
}
static uint32_t bitsOf( float d )
{
   uint32_t u;
   memcpy( &u, &d, 4 );
   return u;
}
// equal as numbers (a number never is NaN here), without branching
static bool eq( double a, double b )
{
   const uint64_t x = bitsOf( a );
   const uint64_t y = bitsOf( b );
   return ( x == y ) | ( ( ( x | y ) << 1 ) == 0 );
}
static bool eq( float a, float b )
{
   const uint32_t x = bitsOf( a );
   const uint32_t y = bitsOf( b );
   return ( x == y ) | ( ( ( x | y ) << 1 ) == 0 );
}
static bool eq( const std::string &a, const std::string &b )
{
   if ( a.size() != b.size() ) return false;
   uint8_t d = 0;
   for ( size_t i = 0; i < a.size(); i++ ) d |= (uint8_t)( a[i] ^ b[i] );
   return d == 0;
}
// any finite number
static double anyDouble( const char *name )
{
   uint64_t u = sym<uint64_t>( name );
   sym_assume( ( u >> 52 & 0x7FF ) != 0x7FF );
   double d;
   memcpy( &d, &u, 8 );
   return d;
}
static float anyFloat( const char *name )
{
   uint32_t u = sym<uint32_t>( name );
   sym_assume( ( u >> 23 & 0xFF ) != 0xFF );
   float d;
   memcpy( &d, &u, 4 );
   return d;
}
// two letters, any
static std::string anyText( const char *name )
{
   std::string s( 2, 'a' );
   uint8_t b[2];
   __sym_make( b, 2, name );
   sym_assume( ( b[0] >= 'a' ) & ( b[0] <= 'z' ) & ( b[1] >= 'a' ) & ( b[1] <= 'z' ) );
   s[0] = (char)b[0];
   s[1] = (char)b[1];
   return s;
}
static bool eq( const DateTime &a, const DateTime &b )
{
   return eq( a.dateTimeValue, b.dateTimeValue ) & ( a.isAtomicClockReferenced == b.isAtomicClockReferenced );
}
static bool eq( const RigidBodyTransform &a, const RigidBodyTransform &b )
{
   return eq( a.rotation.w, b.rotation.w ) & eq( a.rotation.x, b.rotation.x ) & eq( a.rotation.y, b.rotation.y ) & eq( a.rotation.z, b.rotation.z ) & eq( a.translation.x, b.translation.x ) &
          eq( a.translation.y, b.translation.y ) & eq( a.translation.z, b.translation.z );
}
static void anyPose( RigidBodyTransform &p )
{
   p.rotation.w = anyDouble( "rw" );
   p.rotation.x = anyDouble( "rx" );
   p.rotation.y = anyDouble( "ry" );
   p.rotation.z = anyDouble( "rz" );
   p.translation.x = anyDouble( "tx" );
   p.translation.y = anyDouble( "ty" );
   p.translation.z = anyDouble( "tz" );
}
// start of a call of the simple interface that must not raise
#define QUIETLY( what, ... ) \
   try \
   { \
      __VA_ARGS__; \
   } \
   catch ( E57Exception & e ) \
   { \
      __sym_print( "error code", (uint64_t)e.errorCode() ); \
      sym_assert( false, what ); \
   }
