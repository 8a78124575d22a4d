// P03: conversions between buffer element types and field types
#include "cv.h"

enum { INT, SCALED, SINGLE, DOUBLE };
static Node field( ImageFile imf, int kind )
{
   const int64_t lo = INT64_MIN, hi = INT64_MAX;
   switch ( kind )
   {
      case INT: return IntegerNode( imf, 0, lo, hi );
      case SCALED: return ScaledIntegerNode( imf, 0, lo, hi, 0.5, 3.0 );
      case SINGLE: return FloatNode( imf, 0, PrecisionSingle );
      default: return FloatNode( imf, 0, PrecisionDouble );
   }
}
template <class T> struct Is { enum { real = 0, boolean = 0 }; };
template <> struct Is<float> { enum { real = 1, boolean = 0 }; };
template <> struct Is<double> { enum { real = 1, boolean = 0 }; };
template <> struct Is<bool> { enum { real = 0, boolean = 1 }; };
template <class T> static T anyValue() { return sym<T>( "v" ); }
template <> bool anyValue<bool>() { return sym<uint8_t>( "v" ) & 1; }
static const double TWO63 = 9223372036854775808.0;
template <class T> static bool sameReal( T a, T b )
{
   if ( a != a || b != b ) return a != a && b != b;
   unsigned char x[sizeof( T )], y[sizeof( T )];
   memcpy( x, &a, sizeof( T ) );
   memcpy( y, &b, sizeof( T ) );
   return memcmp( x, y, sizeof( T ) ) == 0;
}
static bool representableError( int e )
{
   return e == ErrorValueNotRepresentable || e == ErrorReal64TooLarge || e == ErrorValueOutOfBounds;
}

// What must come of a number v delivered into type D.
// 0: must be delivered as *out, 1: must be refused, 2: either
template <class S> static int expectInt( S v, double lo, double hi1, int64_t *out ) // integers: [lo, hi1)
{
   if ( !Is<S>::real )
   {
      *out = (int64_t)v;
      return 0;
   }
   double d = (double)v;
   if ( d != d || d <= lo - 1 && lo > -TWO63 || d < lo && lo == -TWO63 || d >= hi1 ) return 1;
   *out = (int64_t)d;
   return d < lo || d > hi1 - 1 && hi1 < TWO63 ? 2 : 0;
}
template <class S> static int expectSingle( S v, float *out )
{
   if ( sizeof( S ) == 8 && Is<S>::real )
   {
      double d = (double)v;
      const double M = 3.4028234663852886e38, R = 3.4028235677973366e38; // R: rounds to infinity
      if ( d > M || d < -M )
      {
         if ( d > -R && d < R || d > 1.7976931348623157e308 || d < -1.7976931348623157e308 )
         {
            *out = (float)d;
            return 2;
         }
         return 1;
      }
   }
   *out = (float)v;
   return 0;
}

// buffer of S -> field
template <class S> static void toField( int kind, bool conv )
{
   struct Slot { S v; unsigned char guard[sizeof( S )]; } s[2];
   memset( &s, 0x5a, sizeof s );
   s[0].v = anyValue<S>();
   s[1].v = (S)1;
   S v = s[0].v;
   Cv f;
   f.proto.set( "x", field( f.imf, kind ) );
   CompressedVectorNode cv = f.attach();
   int e = errorOf( [&] { put( cv, "x", &s[0].v, 2, conv, false, sizeof( Slot ) ); } );
   bool cross = kind <= SCALED ? Is<S>::real || Is<S>::boolean : !Is<S>::real;
   if ( !conv && cross )
   {
      sym_assert( e == ErrorConversionRequired, "conversion must be requested" );
      sym_cover( "unrequested" );
      return;
   }
   if ( kind <= SCALED )
   {
      int64_t exp = 0, out[2] = { 0, 0 };
      int x = expectInt<S>( v, -TWO63, TWO63, &exp );
      if ( e == Success )
      {
         sym_assert( x != 1, "must be refused" );
         sym_assert( take( cv, "x", out, 2, false ) == 2, "count" );
         sym_assert( out[0] == exp, "stored integer" );
         sym_assert( out[1] == 1, "second record" );
         sym_cover( "stored" );
      }
      else
      {
         sym_assert( representableError( e ), "documented error" );
         sym_assert( x != 0, "must be accepted" );
      }
   }
   else if ( kind == SINGLE )
   {
      float exp = 0, out[2] = { 0, 0 };
      int x = expectSingle<S>( v, &exp );
      if ( e == Success )
      {
         sym_assert( x != 1, "must be refused" );
         sym_assert( take( cv, "x", out, 2, false ) == 2, "count" );
         sym_assert( sameReal( out[0], exp ), "stored single" );
         sym_assert( out[1] == 1, "second record" );
         sym_cover( "stored" );
      }
      else
      {
         sym_assert( representableError( e ), "documented error" );
         sym_assert( x != 0, "must be accepted" );
      }
   }
   else
   {
      double out[2] = { 0, 0 };
      sym_assert( e == Success, "must be accepted" );
      sym_assert( take( cv, "x", out, 2, false ) == 2, "count" );
      sym_assert( sameReal( out[0], (double)v ), "stored double" );
      sym_assert( out[1] == 1, "second record" );
      sym_cover( "stored" );
   }
}

template <class F, class D> static void deliver( CompressedVectorNode cv, int kind, bool conv, F v )
{
   struct Slot { D v; unsigned char guard[sizeof( D )]; } s[3];
   memset( &s, 0, sizeof s );
   for ( auto &q : s ) memset( q.guard, 0x5a, sizeof q.guard );
   unsigned n = 0;
   int e = errorOf( [&] { n = take( cv, "x", &s[0].v, 2, conv, false, sizeof( Slot ) ); } );
   for ( auto &q : s )
      for ( unsigned char g : q.guard ) sym_assert( g == 0x5a, "neighbouring memory" );
   sym_assert( s[2].v == (D)0, "capacity" );
   bool real = kind >= SINGLE;
   bool cross = real != (bool)Is<D>::real;
   if ( !conv && cross )
   {
      sym_assert( e == ErrorConversionRequired, "conversion must be requested" );
      sym_cover( "unrequested" );
      return;
   }
   if ( !conv && Is<D>::boolean && e == ErrorConversionRequired ) return;
   int x = 0;
   if ( Is<D>::boolean )
   {
      sym_assert( e == Success || !( v == v ) && representableError( e ), "bool delivered" );
      if ( e == Success && v == v ) sym_assert( s[0].v == ( v != 0 ? (D)1 : (D)0 ), "bool value" );
      sym_cover( "delivered" );
      return;
   }
   if ( !Is<D>::real )
   {
      int64_t exp = 0;
      x = expectInt<F>( v, (double)std::numeric_limits<D>::min(), sizeof( D ) == 8 ? TWO63 : (double)std::numeric_limits<D>::max() + 1.0, &exp );
      if ( x == 0 && !Is<F>::real && ( exp < (int64_t)std::numeric_limits<D>::min() || exp > (int64_t)std::numeric_limits<D>::max() ) ) x = 1;
      if ( e == Success )
      {
         sym_assert( x != 1, "must be refused" );
         sym_assert( (int64_t)s[0].v == exp, "delivered integer" );
      }
   }
   else if ( sizeof( D ) == 4 )
   {
      float exp = 0;
      x = expectSingle<F>( v, &exp );
      if ( e == Success )
      {
         sym_assert( x != 1, "must be refused" );
         sym_assert( sameReal<float>( (float)s[0].v, exp ), "delivered single" );
      }
   }
   else if ( e == Success )
      sym_assert( sameReal<double>( (double)s[0].v, (double)v ), "delivered double" );
   if ( e == Success )
   {
      sym_assert( n == 2 && s[1].v == (D)1, "second record" );
      sym_cover( "delivered" );
   }
   else
   {
      sym_assert( representableError( e ), "documented error" );
      sym_assert( x != 0, "must be accepted" );
   }
}
// field -> buffer of D
template <class D> static void fromField( int kind, bool conv )
{
   Cv f;
   f.proto.set( "x", field( f.imf, kind ) );
   CompressedVectorNode cv = f.attach();
   if ( kind <= SCALED )
   {
      int64_t w[2] = { sym<int64_t>( "v" ), 1 };
      put( cv, "x", w, 2, false );
      deliver<int64_t, D>( cv, kind, conv, w[0] );
   }
   else if ( kind == SINGLE )
   {
      float w[2] = { sym<float>( "v" ), 1 };
      put( cv, "x", w, 2, false );
      deliver<float, D>( cv, kind, conv, w[0] );
   }
   else
   {
      double w[2] = { sym<double>( "v" ), 1 };
      put( cv, "x", w, 2, false );
      deliver<double, D>( cv, kind, conv, w[0] );
   }
}
template <class T> static void both( bool dir, int kind, bool conv )
{
   if ( dir ) fromField<T>( kind, conv );
   else toField<T>( kind, conv );
}
// param = direction * 40 + kind * 10 + type
HARNESS( p03_convert )
{
   vf_opaque_numbers = 1;
   unsigned p = (unsigned)sym_param();
   bool conv = sym_choice( 2, "conv" );
   bool dir = p >= 40;
   int kind = (int)( p / 10 % 4 );
   switch ( p % 10 )
   {
      case 0: both<int8_t>( dir, kind, conv ); break;
      case 1: both<uint8_t>( dir, kind, conv ); break;
      case 2: both<int16_t>( dir, kind, conv ); break;
      case 3: both<uint16_t>( dir, kind, conv ); break;
      case 4: both<int32_t>( dir, kind, conv ); break;
      case 5: both<uint32_t>( dir, kind, conv ); break;
      case 6: both<int64_t>( dir, kind, conv ); break;
      case 7: both<bool>( dir, kind, conv ); break;
      case 8: both<float>( dir, kind, conv ); break;
      case 9: both<double>( dir, kind, conv ); break;
   }
}
// strings never convert
HARNESS( p03_string )
{
   vf_opaque_numbers = 1;
   Cv f;
   bool numericField = sym_choice( 2, "field" );
   bool conv = sym_choice( 2, "conv" );
   if ( numericField ) f.proto.set( "x", field( f.imf, (int)sym_choice( 4, "kind" ) ) );
   else f.proto.set( "x", StringNode( f.imf ) );
   CompressedVectorNode cv = f.attach();
   bool write = sym_choice( 2, "write" );
   double num[1] = { 1.0 };
   std::vector<ustring> str( 1, "abc" );
   if ( !write )
   {
      if ( numericField ) put( cv, "x", num, 1 );
      else
      {
         std::vector<SourceDestBuffer> sb;
         sb.push_back( SourceDestBuffer( f.imf, "x", &str ) );
         CompressedVectorWriter w = cv.writer( sb );
         w.write( 1 );
         w.close();
      }
   }
   num[0] = 7;
   str[0] = "before";
   std::vector<SourceDestBuffer> b;
   if ( numericField ) b.push_back( SourceDestBuffer( f.imf, "x", &str ) );
   else b.push_back( SourceDestBuffer( f.imf, "x", num, 1, conv ) );
   int e = errorOf( [&] {
      if ( write ) cv.writer( b ).write( 1 );
      else cv.reader( b ).read();
   } );
   sym_assert( e == ErrorExpectingNumeric || e == ErrorExpectingUString, "no conversion from or to strings" );
   sym_assert( num[0] == 7 && str[0] == "before", "buffer untouched" );
   sym_cover( "string" );
}
