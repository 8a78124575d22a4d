// P04: scaled integers
#include "cv.h"
static const double SC[] = { 1.0, 0.5, 0.001, 1e-6, -0.25, 3.0, 1024.0, 0.1 };
static const double OF[] = { 0.0, 2.5, 0.0, 100.0, -1.0, -7.0, 12345.5, 0.3 };

// raw values -> scaled delivery -> written scaled again -> same raw values.  param = scale index + 8 * constant field
HARNESS( p04_scaled )
{
   vf_opaque_numbers = 1;
   unsigned k = (unsigned)sym_param() & 7;
   bool constant = sym_param() & 8;
   bool single = sym_param() & 16; // float buffers
   const int bits = single ? 10 : 16;
   // writing back divides by the scale; the solver copes with that only for powers of two
   const bool exact = constant || k == 0 || k == 1 || k == 4 || k == 6;
   int64_t lo = constant ? 77 : -( 1 << ( bits - 1 ) ), hi = constant ? 77 : ( 1 << ( bits - 1 ) ) - 1;
   int64_t raw[2] = { constant ? 77 : sym_range<int64_t>( lo, hi, "raw" ), constant ? 77 : 5 };
   Cv f;
   f.proto.set( "x", ScaledIntegerNode( f.imf, lo, lo, hi, SC[k], OF[k] ) );
   CompressedVectorNode cv = f.attach( "a" );
   put( cv, "x", raw, 2 );
   StructureNode p2( f.imf );
   p2.set( "x", ScaledIntegerNode( f.imf, lo, lo, hi, SC[k], OF[k] ) );
   CompressedVectorNode cvb( f.imf, p2, VectorNode( f.imf, true ) );
   f.imf.root().set( "b", cvb );
   int64_t back[2] = { 0, 0 };
   int64_t kept[2] = { 0, 0 };
   sym_assert( take( cv, "x", kept, 2 ) == 2, "count" );
   sym_assert( kept[0] == raw[0], "raw value" );
   if ( single )
   {
      float s[2] = { 0, 0 };
      sym_assert( take( cv, "x", s, 2, true, true ) == 2, "count" );
      sym_assert( s[0] == (float)( (double)kept[0] * SC[k] + OF[k] ), "scaled value" );
      if ( !exact ) return sym_cover( "scaled" );
      put( cvb, "x", s, 2, true, true );
   }
   else
   {
      double s[2] = { 0, 0 };
      sym_assert( take( cv, "x", s, 2, true, true ) == 2, "count" );
      sym_assert( s[0] == (double)kept[0] * SC[k] + OF[k], "scaled value" );
      if ( !exact ) return sym_cover( "scaled" );
      put( cvb, "x", s, 2, true, true );
   }
   sym_assert( take( cvb, "x", back, 2 ) == 2, "count" );
   sym_assert( back[0] == raw[0], "same raw value" );
   sym_assert( back[1] == raw[1], "second record" );
   sym_cover( "scaled" );
}
// the same for every 52-bit raw value where scaling is exact
HARNESS( p04_exact )
{
   vf_opaque_numbers = 1;
   static const double sc[] = { 1.0, 0.5, 1024.0, -0.125 };
   unsigned k = (unsigned)sym_param() & 3;
   const int64_t lo = -( int64_t( 1 ) << 51 ), hi = ( int64_t( 1 ) << 51 ) - 1;
   int64_t raw = sym_range<int64_t>( lo, hi, "raw" ), back = 0;
   Cv f;
   f.proto.set( "x", ScaledIntegerNode( f.imf, lo, lo, hi, sc[k], 0.0 ) );
   CompressedVectorNode cv = f.attach( "a" );
   StructureNode p2( f.imf );
   p2.set( "x", ScaledIntegerNode( f.imf, lo, lo, hi, sc[k], 0.0 ) );
   CompressedVectorNode cvb( f.imf, p2, VectorNode( f.imf, true ) );
   f.imf.root().set( "b", cvb );
   put( cv, "x", &raw, 1 );
   double s = 0;
   sym_assert( take( cv, "x", &s, 1, true, true ) == 1, "count" );
   sym_assert( s == (double)raw * sc[k], "scaled value" );
   put( cvb, "x", &s, 1, true, true );
   sym_assert( take( cvb, "x", &back, 1 ) == 1, "count" );
   sym_assert( back == raw, "same raw value" );
   sym_cover( "exact" );
}
// delivery of scaled values into integer buffers: nearest integer or refusal
template <class D> static void toInt( unsigned k )
{
   int64_t raw = sym_range<int64_t>( -40000, 40000, "raw" );
   Cv f;
   static const double sc[] = { 1.0, 0.5, 1024.0, -0.125 };
   static const double of[] = { 0.0, 3.0, -100.0, 0.25 };
   f.proto.set( "x", ScaledIntegerNode( f.imf, 0, -40000, 40000, sc[k], of[k] ) );
   CompressedVectorNode cv = f.attach();
   put( cv, "x", &raw, 1 );
   D out = (D)0;
   int e = errorOf( [&] { take( cv, "x", &out, 1, true, true ); } );
   // in units of 1/8: exact integer arithmetic
   int64_t v8 = raw * (int64_t)( sc[k] * 8 ) + (int64_t)( of[k] * 8 );
   int64_t lo = (int64_t)std::numeric_limits<D>::min(), hi = (int64_t)std::numeric_limits<D>::max();
   if ( e == Success )
   {
      int64_t d = v8 - 8 * (int64_t)out;
      sym_assert( d >= -4 && d <= 4, "nearest integer" );
      sym_cover( "int delivered" );
   }
   else
   {
      sym_assert( e == ErrorScaledValueNotRepresentable || e == ErrorValueNotRepresentable, "documented error" );
      sym_assert( !( v8 >= 8 * lo && v8 <= 8 * hi ), "must be accepted" );
   }
}
HARNESS( p04_toint )
{
   vf_opaque_numbers = 1;
   unsigned p = (unsigned)sym_param();
   switch ( p % 10 )
   {
      case 0: toInt<int8_t>( p / 10 ); break;
      case 1: toInt<uint8_t>( p / 10 ); break;
      case 2: toInt<int16_t>( p / 10 ); break;
      case 3: toInt<uint16_t>( p / 10 ); break;
      case 4: toInt<int32_t>( p / 10 ); break;
      case 5: toInt<uint32_t>( p / 10 ); break;
      default:
      {
         // 64-bit integers
         int64_t raw = sym_range<int64_t>( -40000, 40000, "raw" ), out = 0;
         Cv f;
         f.proto.set( "x", ScaledIntegerNode( f.imf, 0, -40000, 40000, 0.5, 3.0 ) );
         CompressedVectorNode cv = f.attach();
         put( cv, "x", &raw, 1 );
         take( cv, "x", &out, 1, true, true );
         int64_t d = 2 * out - ( raw + 6 );
         sym_assert( d >= -1 && d <= 1, "nearest integer" );
         sym_cover( "int delivered" );
      }
   }
}
// integer buffers written with scaling
template <class S> static void fromInt( unsigned k )
{
   S v = sym<S>( "v" );
   static const double sc[] = { 1.0, 0.5, 8.0, -0.25 };
   static const double of[] = { 0.0, 3.0, -100.0, 2.0 };
   Cv f;
   const int64_t lo = -300, hi = 200;
   f.proto.set( "x", ScaledIntegerNode( f.imf, 0, lo, hi, sc[k], of[k] ) );
   CompressedVectorNode cv = f.attach();
   int e = errorOf( [&] { put( cv, "x", &v, 1, true, true ); } );
   int64_t num = 4 * ( (int64_t)v - (int64_t)of[k] ), den = (int64_t)( sc[k] * 4 ); // raw = num / den
   if ( den < 0 ) { num = -num; den = -den; }
   if ( e == Success )
   {
      int64_t out = 0;
      take( cv, "x", &out, 1 );
      int64_t d = 2 * ( num - den * out );
      sym_assert( d >= -den && d <= den, "nearest raw value" );
      sym_cover( "int written" );
   }
   else
   {
      sym_assert( e == ErrorScaledValueNotRepresentable || e == ErrorValueOutOfBounds, "documented error" );
      sym_assert( !( num >= den * lo && num <= den * hi ), "must be accepted" );
   }
}
HARNESS( p04_fromint )
{
   vf_opaque_numbers = 1;
   unsigned p = (unsigned)sym_param();
   switch ( p % 10 )
   {
      case 0: fromInt<int8_t>( p / 10 ); break;
      case 1: fromInt<uint8_t>( p / 10 ); break;
      case 2: fromInt<int16_t>( p / 10 ); break;
      case 3: fromInt<uint16_t>( p / 10 ); break;
      case 4: fromInt<int32_t>( p / 10 ); break;
      case 5: fromInt<uint32_t>( p / 10 ); break;
   }
}
// raw transfers ignore scale and offset; node values obey the relation
HARNESS( p04_node )
{
   vf_opaque_numbers = 1;
   unsigned k = (unsigned)sym_param() & 7;
   int64_t raw = sym<int64_t>( "raw" ), lo = sym<int64_t>( "lo" ), hi = sym<int64_t>( "hi" );
   sym_assume( lo <= raw && raw <= hi );
   ImageFile imf( "a.e57", "w" );
   ScaledIntegerNode n( imf, raw, lo, hi, SC[k], OF[k] );
   sym_assert( n.rawValue() == raw && n.minimum() == lo && n.maximum() == hi, "raw" );
   sym_assert( n.scale() == SC[k] && n.offset() == OF[k], "scale" );
   sym_assert( n.scaledValue() == (double)raw * SC[k] + OF[k], "value" );
   sym_assert( n.scaledMinimum() == (double)lo * SC[k] + OF[k], "minimum" );
   sym_assert( n.scaledMaximum() == (double)hi * SC[k] + OF[k], "maximum" );
   sym_cover( "node" );
}
