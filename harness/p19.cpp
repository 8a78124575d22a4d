// P19: numbers in the XML section
#include "cv.h"
static int64_t value64( const char *name ) { return sym<int64_t>( name ); }
static double real64( const char *name )
{
   const uint64_t u = sym<uint64_t>( name );
   double d;
   memcpy( &d, &u, 8 );
   return d;
}
static uint64_t bitsOf( double d )
{
   uint64_t u;
   memcpy( &u, &d, 8 );
   return u;
}
// equal numbers; NaN equals NaN
static bool same( double a, double b )
{
   const uint64_t x = bitsOf( a ), y = bitsOf( b ), m = ~uint64_t( 0 ) >> 1, inf = 0x7FF0000000000000ULL;
   return ( x == y ) | ( ( ( x | y ) & m ) == 0 ) | ( ( ( x & m ) > inf ) & ( ( y & m ) > inf ) );
}
static bool isNumber( double d ) { return ( bitsOf( d ) & 0x7FF0000000000000ULL ) != 0x7FF0000000000000ULL; }
template <class W, class R> static void reopened( W w, R r )
{
   {
      ImageFile f( "a.e57", "w" );
      if ( errorOf( [&] { w( f ); } ) != Success )
      {
         __sym_cover( "refused" );
         f.cancel();
         return;
      }
      f.close();
   }
   const int e = errorOf( [&] {
      ImageFile f( "a.e57", "r" );
      r( f );
      f.close();
   } );
   __sym_assert( e == Success, "P19.reopens" );
   __sym_cover( "kept" );
}
static void mode() { vf_opaque_numbers = 2; vf_set_locale( (int)( __sym_param() & 1 ) ); }
HARNESS( p19_integer )
{
   mode();
   const int64_t lo = value64( "minimum" ), hi = value64( "maximum" ), v = value64( "value" );
   reopened( [&]( ImageFile &f ) { f.root().set( "k", IntegerNode( f, v, lo, hi ) ); },
             [&]( ImageFile &f ) {
                IntegerNode n( f.root().get( "k" ) );
                __sym_assert( n.value() == v, "P19.integer_value" );
                __sym_assert( n.minimum() == lo, "P19.integer_minimum" );
                __sym_assert( n.maximum() == hi, "P19.integer_maximum" );
             } );
}
HARNESS( p19_scaled )
{
   mode();
   const int64_t lo = value64( "minimum" ), hi = value64( "maximum" ), v = value64( "value" );
   const double scale = real64( "scale" ), offset = real64( "offset" );
   reopened( [&]( ImageFile &f ) { f.root().set( "k", ScaledIntegerNode( f, v, lo, hi, scale, offset ) ); },
             [&]( ImageFile &f ) {
                ScaledIntegerNode n( f.root().get( "k" ) );
                __sym_assert( n.rawValue() == v, "P19.raw_value" );
                __sym_assert( n.minimum() == lo, "P19.raw_minimum" );
                __sym_assert( n.maximum() == hi, "P19.raw_maximum" );
                __sym_assert( same( n.scale(), scale ), "P19.scale" );
                __sym_assert( same( n.offset(), offset ), "P19.offset" );
             } );
}
HARNESS( p19_double )
{
   mode();
   const double lo = real64( "minimum" ), hi = real64( "maximum" ), v = real64( "value" );
   __sym_assume( isNumber( lo ) && isNumber( hi ) );
   reopened( [&]( ImageFile &f ) { f.root().set( "k", FloatNode( f, v, PrecisionDouble, lo, hi ) ); },
             [&]( ImageFile &f ) {
                FloatNode n( f.root().get( "k" ) );
                __sym_assert( n.precision() == PrecisionDouble, "P19.precision" );
                __sym_assert( same( n.value(), v ), "P19.value" );
                __sym_assert( same( n.minimum(), lo ), "P19.minimum" );
                __sym_assert( same( n.maximum(), hi ), "P19.maximum" );
             } );
}
static float real32( const char *name )
{
   const uint32_t u = sym<uint32_t>( name );
   float d;
   memcpy( &d, &u, 4 );
   return d;
}
HARNESS( p19_single )
{
   mode();
   const float v = real32( "value" );
   double lo = -std::numeric_limits<float>::max(), hi = std::numeric_limits<float>::max();
   // one of the three at a time is arbitrary
   const unsigned which = (unsigned)__sym_param() >> 1;
   float w = 1;
   if ( which == 0 ) w = v;
   if ( which == 1 ) lo = v;
   if ( which == 2 ) hi = v;
   __sym_assume( which == 0 || isNumber( v ) );
   reopened( [&]( ImageFile &f ) { f.root().set( "k", FloatNode( f, w, PrecisionSingle, lo, hi ) ); },
             [&]( ImageFile &f ) {
                FloatNode n( f.root().get( "k" ) );
                __sym_assert( n.precision() == PrecisionSingle, "P19.precision" );
                __sym_assert( same( n.value(), w ), "P19.value" );
                __sym_assert( same( n.minimum(), lo ), "P19.minimum" );
                __sym_assert( same( n.maximum(), hi ), "P19.maximum" );
             } );
}
// every digit of numbers m / 2^shift; param = number of bits of m + 100 * shift
HARNESS( p19_digits )
{
   vf_opaque_numbers = 3;
   const unsigned bits = __sym_param() % 100;
   vf_exact_shift = (int)( __sym_param() / 100 );
   vf_exact_m = sym<uint32_t>( "m" ) & ( ( 1u << bits ) - 1 );
   __sym_assume( vf_exact_m != 0 );
   // the encoding of the floating point number is left open, its printed digits are those of m / 2^shift
   double v = real64( "encoding" );
   __sym_assume( !__sym_symbolic() || ( bitsOf( v ) >= 0x3F00000000000000ULL && bitsOf( v ) < 0x4400000000000000ULL ) );
   if ( !__sym_symbolic() ) v = (double)vf_exact_m / ( 1 << vf_exact_shift );
   const unsigned neg = sym_choice( 2, "negative" );
   if ( neg ) v = -v;
   reopened( [&]( ImageFile &f ) { f.root().set( "k", FloatNode( f, v ) ); },
             [&]( ImageFile &f ) { __sym_assert( same( FloatNode( f.root().get( "k" ) ).value(), v ), "P19.digits" ); } );
}
