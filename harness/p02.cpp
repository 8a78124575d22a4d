// P02: out-of-bounds values are refused, never stored altered
#include "cv.h"

// Any bounds, any value; integer field (0) or scaled-integer field transferred raw (1).
HARNESS( p02_record )
{
   vf_opaque_numbers = 1;
   const bool scaled = sym_param() & 1;
   int64_t lo = sym<int64_t>( "lo" ), hi = sym<int64_t>( "hi" );
   sym_assume( lo <= hi );
   int64_t v[3];
   for ( int i = 0; i < 3; i++ ) v[i] = lo;
   int k = (int)sym_choice( 3, "pos" );
   int64_t x = v[k] = sym<int64_t>( "v" );
   Cv f;
   if ( scaled ) f.proto.set( "x", ScaledIntegerNode( f.imf, lo, lo, hi, 0.5, 1.0 ) );
   else f.proto.set( "x", IntegerNode( f.imf, hi, lo, hi ) );
   CompressedVectorNode cv = f.attach();
   int e = errorOf( [&] { put( cv, "x", v, 3 ); } );
   bool in = x >= lo && x <= hi;
   if ( e == Success )
   {
      sym_assert( in, "accepted only in bounds" );
      int64_t out[3] = { 0, 0, 0 };
      sym_assert( take( cv, "x", out, 3 ) == 3, "count" );
      for ( int i = 0; i < 3; i++ ) sym_assert( out[i] == ( i == k ? x : lo ), "stored value" );
      sym_cover( "accepted" );
   }
   else
   {
      sym_assert( e == ErrorValueOutOfBounds, "documented error" );
      sym_assert( !in, "refused only out of bounds" );
      sym_cover( "refused" );
   }
}

// Narrow buffer types against arbitrary bounds
template <class T> static void narrow()
{
   int64_t lo = sym<int64_t>( "lo" ), hi = sym<int64_t>( "hi" );
   sym_assume( lo <= hi );
   T v = sym<T>( "v" );
   Cv f;
   f.proto.set( "x", IntegerNode( f.imf, lo, lo, hi ) );
   CompressedVectorNode cv = f.attach();
   int e = errorOf( [&] { put( cv, "x", &v, 1 ); } );
   bool in = (int64_t)v >= lo && (int64_t)v <= hi;
   sym_assert( e == ( in ? Success : ErrorValueOutOfBounds ), "decision" );
   if ( e == Success )
   {
      int64_t out = 0;
      sym_assert( take( cv, "x", &out, 1 ) == 1 && out == (int64_t)v, "stored value" );
      sym_cover( "narrow" );
   }
}
HARNESS( p02_narrow )
{
   vf_opaque_numbers = 1;
   switch ( sym_param() )
   {
      case 0: narrow<int8_t>(); break;
      case 1: narrow<uint8_t>(); break;
      case 2: narrow<int16_t>(); break;
      case 3: narrow<uint16_t>(); break;
      case 4: narrow<int32_t>(); break;
      case 5: narrow<uint32_t>(); break;
   }
}

// Scaled-integer field written with scaling: any number, power-of-two scale, small raw bounds
HARNESS( p02_scaled )
{
   vf_opaque_numbers = 1;
   static const double sc[] = { 1.0, 0.25, 8.0, -2.0 };
   static const double of[] = { 0.0, 10.0, -3.5, 1.0 };
   unsigned k = (unsigned)sym_param() & 3;
   bool constant = sym_param() & 4;
   int64_t lo = sym_range<int64_t>( -100000, 100000, "lo" );
   int64_t hi = constant ? lo : lo + sym_range<int64_t>( 200, 255, "d" );
   double v = sym<double>( "v" );
   Cv f;
   f.proto.set( "x", ScaledIntegerNode( f.imf, lo, lo, hi, sc[k], of[k] ) );
   CompressedVectorNode cv = f.attach();
   int e = errorOf( [&] { put( cv, "x", &v, 1, true, true ); } );
   double q = ( v - of[k] ) / sc[k];
   if ( e == Success )
   {
      int64_t out = 0;
      sym_assert( take( cv, "x", &out, 1 ) == 1, "count" );
      sym_assert( out >= lo && out <= hi, "stored in bounds" );
      double d = q - (double)out;
      sym_assert( d >= -0.5001 && d <= 0.5001, "stored value is the nearest" );
      sym_cover( "scaled accepted" );
   }
   else
   {
      sym_assert( e == ErrorValueOutOfBounds || e == ErrorScaledValueNotRepresentable, "documented error" );
      sym_assert( !( q >= (double)lo && q <= (double)hi ), "refused only out of bounds" );
      sym_cover( "scaled refused" );
   }
}

// Node construction
HARNESS( p02_nodes )
{
   vf_opaque_numbers = 1;
   ImageFile imf( "a.e57", "w" );
   int64_t lo = sym<int64_t>( "lo" ), hi = sym<int64_t>( "hi" ), v = sym<int64_t>( "v" );
   bool in = v >= lo && v <= hi;
   switch ( sym_param() )
   {
      case 0:
      {
         int e = errorOf( [&] {
            IntegerNode n( imf, v, lo, hi );
            sym_assert( n.value() == v && n.minimum() == lo && n.maximum() == hi, "integer node holds its arguments" );
         } );
         sym_assert( e == ( in ? Success : ErrorValueOutOfBounds ), "integer node" );
         break;
      }
      case 1:
      {
         int e = errorOf( [&] {
            ScaledIntegerNode n( imf, v, lo, hi, 0.001, 5.0 );
            sym_assert( n.rawValue() == v && n.minimum() == lo && n.maximum() == hi, "scaled node holds its arguments" );
         } );
         sym_assert( e == ( in ? Success : ErrorValueOutOfBounds ), "scaled integer node" );
         break;
      }
      case 2:
      {
         double d = sym<double>( "d" ), dl = sym<double>( "dl" ), dh = sym<double>( "dh" );
         sym_assume( d == d && dl == dl && dh == dh );
         bool din = d >= dl && d <= dh;
         int e = errorOf( [&] {
            FloatNode n( imf, d, PrecisionDouble, dl, dh );
            sym_assert( n.value() == d && n.minimum() == dl && n.maximum() == dh, "float node holds its arguments" );
         } );
         sym_assert( e == ( din ? Success : ErrorValueOutOfBounds ), "double node" );
         break;
      }
      case 3:
      {
         double d = sym<double>( "d" ), dl = sym<double>( "dl" ), dh = sym<double>( "dh" );
         sym_assume( d == d && dl == dl && dh == dh );
         // a single precision node must refuse a value outside its bounds and never hold something else than it was given
         int e = errorOf( [&] {
            FloatNode n( imf, d, PrecisionSingle, dl, dh );
            sym_assert( n.value() == d || (float)n.value() == (float)d, "single node holds its argument" );
         } );
         if ( e == Success ) sym_assert( d >= dl && d <= dh, "single node" );
         else
         {
            sym_assert( e == ErrorValueOutOfBounds, "documented error" );
            const double M = 3.4028234663852886e38;
            sym_assert( !( d >= dl && d <= dh && d >= -M && d <= M && dl >= -M && dl <= M && dh >= -M && dh <= M ), "single node refused" );
         }
         break;
      }
      case 4:
      {
         // scaled-integer node given in scaled units: refused or within bounds
         int16_t a = sym<int16_t>( "a" ), b = -700, c = 1300;
         double s = 0.25, o = 2.0;
         int e = errorOf( [&] {
            ScaledIntegerNode n( imf, (double)a * 0.125, (double)b * 0.25, (double)c * 0.25, s, o );
            sym_assert( n.minimum() == b - 8 && n.maximum() == c - 8, "scaled bounds" );
            double r = (double)n.rawValue() * s + o - (double)a * 0.125;
            sym_assert( r >= -0.125 && r <= 0.125, "scaled value" );
            sym_assert( n.rawValue() >= n.minimum() && n.rawValue() <= n.maximum(), "in bounds" );
         } );
         if ( e != Success )
         {
            sym_assert( e == ErrorValueOutOfBounds, "documented error" );
            sym_assert( !( a >= 2 * b && a <= 2 * c ), "scaled refused" );
         }
         break;
      }
   }
   sym_cover( "nodes" );
}
