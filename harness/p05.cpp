// P05: floating point records keep every bit pattern
#include "cv.h"
template <class T, class U> static void bits( FloatPrecision prec )
{
   const int N = 4;
   U val[N];
   T buf[N];
   for ( int i = 0; i < N; i++ ) val[i] = sym<U>( "v" );
   Cv f;
   f.proto.set( "x", FloatNode( f.imf, 0, prec ) );
   CompressedVectorNode cv = f.attach();
   int k = (int)sym_choice( N + 1, "split" );
   {
      std::vector<SourceDestBuffer> sb;
      sb.push_back( SourceDestBuffer( f.imf, "x", buf, N, false ) );
      CompressedVectorWriter w = cv.writer( sb );
      memcpy( buf, val, k * sizeof( T ) );
      w.write( k );
      memcpy( buf, val + k, ( N - k ) * sizeof( T ) );
      w.write( N - k );
      w.close();
   }
   int c = 1 + (int)sym_choice( N, "chunk" );
   T out[N + 1];
   memset( out, 0x55, sizeof out );
   std::vector<SourceDestBuffer> db;
   db.push_back( SourceDestBuffer( f.imf, "x", out, c, false ) );
   CompressedVectorReader r = cv.reader( db );
   int got = 0;
   while ( unsigned n = r.read() )
   {
      sym_assert( n <= (unsigned)c && got + (int)n <= N, "read count" );
      for ( unsigned i = 0; i < n; i++ )
      {
         U b;
         memcpy( &b, &out[i], sizeof b );
         sym_assert( b == val[got + i], "bits" );
         sym_observe( "bits", b );
      }
      unsigned char g;
      memcpy( &g, &out[c], 1 );
      sym_assert( g == 0x55, "overrun" );
      got += (int)n;
   }
   sym_assert( got == N, "all records" );
   sym_cover( "bits" );
}
HARNESS( p05_bits )
{
   vf_opaque_numbers = 1;
   if ( sym_param() ) bits<double, uint64_t>( PrecisionDouble );
   else bits<float, uint32_t>( PrecisionSingle );
}
template <class T, class U> static void packets( FloatPrecision prec )
{
   const int N = (int)( 2.3 * 65536 / sizeof( T ) ), W = 1500, C = 1111;
   std::vector<U> val( N );
   __sym_make( val.data(), sizeof( U ) * N, "vals" );
   Cv f;
   f.proto.set( "x", FloatNode( f.imf, 0, prec ) );
   CompressedVectorNode cv = f.attach();
   std::vector<T> buf( W ), out( C );
   {
      std::vector<SourceDestBuffer> sb;
      sb.push_back( SourceDestBuffer( f.imf, "x", buf.data(), W, false ) );
      CompressedVectorWriter w = cv.writer( sb );
      for ( int i = 0; i < N; )
      {
         int n = N - i < W ? N - i : W;
         memcpy( buf.data(), &val[i], n * sizeof( T ) );
         w.write( n );
         i += n;
      }
      w.close();
   }
   std::vector<SourceDestBuffer> db;
   db.push_back( SourceDestBuffer( f.imf, "x", out.data(), C, false ) );
   CompressedVectorReader r = cv.reader( db );
   int got = 0;
   while ( unsigned n = r.read() )
   {
      sym_assert( got + (int)n <= N, "read count" );
      U diff = 0;
      for ( unsigned i = 0; i < n; i++ )
      {
         U b;
         memcpy( &b, &out[i], sizeof b );
         diff |= b ^ val[got + i];
      }
      sym_assert( diff == 0, "bits" );
      got += (int)n;
   }
   sym_assert( got == N, "all records" );
   sym_cover( "packets" );
}
HARNESS( p05_packets )
{
   vf_opaque_numbers = 1;
   if ( sym_param() ) packets<double, uint64_t>( PrecisionDouble );
   else packets<float, uint32_t>( PrecisionSingle );
}
