// P01: integer records come back as written
#include "cv.h"

// Bounds of exactly the width given by the parameter, everything else symbolic.
HARNESS( p01_width )
{
   vf_opaque_numbers = 1;
   const unsigned b = (unsigned)sym_param();
   const int N = 4;
   int64_t lo = sym<int64_t>( "lo" ), hi = sym<int64_t>( "hi" );
   sym_assume( lo <= hi );
   uint64_t d = (uint64_t)hi - (uint64_t)lo;
   if ( b == 0 ) sym_assume( d == 0 );
   else if ( b == 64 ) sym_assume( d >> 63 == 1 );
   else sym_assume( d >> b == 0 && d >> ( b - 1 ) == 1 );
   Cv f;
   f.proto.set( "x", IntegerNode( f.imf, lo, lo, hi ) );
   CompressedVectorNode cv = f.attach();
   int64_t val[N], buf[N];
   for ( int i = 0; i < N; i++ )
   {
      val[i] = sym<int64_t>( "v" );
      sym_assume( val[i] >= lo && val[i] <= hi );
   }
   int k = (int)sym_choice( N + 1, "split" );
   {
      std::vector<SourceDestBuffer> sb;
      sb.push_back( SourceDestBuffer( f.imf, "x", buf, N, true ) );
      CompressedVectorWriter w = cv.writer( sb );
      for ( int i = 0; i < k; i++ ) buf[i] = val[i];
      w.write( k );
      for ( int i = k; i < N; i++ ) buf[i - k] = val[i];
      w.write( N - k );
      w.close();
   }
   sym_assert( cv.childCount() == N, "record count" );
   int c = 1 + (int)sym_choice( N, "chunk" );
   int64_t out[N + 1];
   for ( int i = 0; i <= N; i++ ) out[i] = 0x5555;
   std::vector<SourceDestBuffer> db;
   db.push_back( SourceDestBuffer( f.imf, "x", out, c, true ) );
   CompressedVectorReader r = cv.reader( db );
   int got = 0;
   for ( ;; )
   {
      unsigned n = r.read();
      sym_assert( n <= (unsigned)c && got + (int)n <= N, "read count" );
      if ( n == 0 ) break;
      for ( unsigned i = 0; i < n; i++ )
      {
         sym_assert( out[i] == val[got + i], "value" );
         sym_observe( "out", out[i] );
      }
      sym_assert( out[c] == 0x5555, "overrun" );
      got += (int)n;
   }
   sym_assert( got == N, "all records" );
   r.close();
   sym_cover( "width" );
}

// Every buffer element type, values over the whole type.
template <class T> static void types()
{
   const int N = 3;
   T val[N], out[N + 1];
   for ( int i = 0; i < N; i++ ) val[i] = sym<T>( "v" );
   Cv f;
   f.proto.set( "x", IntegerNode( f.imf, 0, std::numeric_limits<T>::min(), std::numeric_limits<T>::max() ) );
   CompressedVectorNode cv = f.attach();
   {
      std::vector<SourceDestBuffer> sb;
      sb.push_back( SourceDestBuffer( f.imf, "x", val, N, true ) );
      CompressedVectorWriter w = cv.writer( sb );
      w.write( N );
      w.close();
   }
   T mark = (T)0x55;
   for ( int i = 0; i <= N; i++ ) out[i] = mark;
   std::vector<SourceDestBuffer> db;
   db.push_back( SourceDestBuffer( f.imf, "x", out, N, true ) );
   CompressedVectorReader r = cv.reader( db );
   sym_assert( r.read() == N, "all records" );
   for ( int i = 0; i < N; i++ )
   {
      sym_assert( out[i] == val[i], "value" );
      sym_observe( "out", out[i] );
   }
   sym_assert( out[N] == mark, "overrun" );
   sym_cover( "types" );
}
HARNESS( p01_types )
{
   vf_opaque_numbers = 1;
   switch ( sym_param() )
   {
      case 0: types<int8_t>(); break;
      case 1: types<uint8_t>(); break;
      case 2: types<int16_t>(); break;
      case 3: types<uint16_t>(); break;
      case 4: types<int32_t>(); break;
      case 5: types<uint32_t>(); break;
      case 6: types<int64_t>(); break;
   }
}

// Enough records for several packets, every value symbolic, bounds fixed.  param = width
HARNESS( p01_packets )
{
   vf_opaque_numbers = 1;
   const unsigned b = (unsigned)sym_param() & 255;
   const int W = 1500, C = 1111; // records per write and per read call
   const int N = (int)( 2.3 * 65536 * 8 / b );
   int64_t lo = b == 64 ? INT64_MIN : b == 63 ? 0 : 5;
   int64_t hi = b == 64 ? INT64_MAX : (int64_t)( (uint64_t)lo + ( ( uint64_t( 1 ) << b ) - 1 ) );
   std::vector<int64_t> val( N );
   __sym_make( val.data(), 8 * (size_t)N, "vals" );
   for ( int i = 0; i < N; i++ )
   {
      // any value of the width, shifted to the bounds
      if ( b < 64 ) val[i] = ( val[i] & (int64_t)( ( uint64_t( 1 ) << b ) - 1 ) ) + lo;
   }
   Cv f;
   f.proto.set( "x", IntegerNode( f.imf, lo, lo, hi ) );
   CompressedVectorNode cv = f.attach();
   std::vector<int64_t> buf( W );
   {
      std::vector<SourceDestBuffer> sb;
      sb.push_back( SourceDestBuffer( f.imf, "x", buf.data(), W, true ) );
      CompressedVectorWriter w = cv.writer( sb );
      for ( int i = 0; i < N; )
      {
         int n = N - i < W ? N - i : W;
         for ( int k = 0; k < n; k++ ) buf[k] = val[i + k];
         w.write( n );
         i += n;
      }
      w.close();
   }
   std::vector<int64_t> out( C );
   std::vector<SourceDestBuffer> db;
   db.push_back( SourceDestBuffer( f.imf, "x", out.data(), C, true ) );
   CompressedVectorReader r = cv.reader( db );
   int got = 0;
   while ( unsigned n = r.read() )
   {
      sym_assert( got + (int)n <= N, "read count" );
      uint64_t diff = 0;
      for ( unsigned i = 0; i < n; i++ ) diff |= (uint64_t)( out[i] ^ val[got + i] );
      sym_assert( diff == 0, "value" );
      got += (int)n;
   }
   sym_assert( got == N, "all records" );
   sym_cover( "packets" );
}
