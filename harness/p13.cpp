// P13: blobs
#include "cv.h"
static std::vector<uint8_t> bytes( size_t n, const char *name )
{
   std::vector<uint8_t> b( n );
   if ( n ) __sym_make( b.data(), n, name );
   return b;
}
static BlobNode blob( ImageFile imf, const char *name, size_t n )
{
   BlobNode b( imf, (int64_t)n );
   imf.root().set( name, b );
   return b;
}
// any 64-bit range that is not inside the blob is refused and nothing is touched
HARNESS( p13_range )
{
   vf_opaque_numbers = 1;
   static const size_t LENS[] = { 0, 5, 1500 };
   const size_t len = LENS[sym_param() % 3];
   const bool write = sym_param() >= 3;
   std::vector<uint8_t> in = bytes( len, "blob" ), other = bytes( 700, "other" );
   ImageFile imf( "a.e57", "w" );
   BlobNode left = blob( imf, "left", 700 ), b = blob( imf, "b", len ), right = blob( imf, "right", 700 );
   left.write( other.data(), 0, 700 );
   if ( len ) b.write( in.data(), 0, len );
   right.write( other.data(), 0, 700 );
   int64_t start = sym<int64_t>( "start" );
   uint64_t count = sym<uint64_t>( "count" );
   bool inside = ( start >= 0 ) & ( (uint64_t)start <= len ) & ( count <= len - (uint64_t)start );
   sym_assume( !inside );
   uint8_t buf[8] = { 9, 9, 9, 9, 9, 9, 9, 9 };
   int e = errorOf( [&] {
      if ( write ) b.write( buf, start, count );
      else b.read( buf, start, count );
   } );
   sym_assert( e == ErrorBadAPIArgument, "range outside the blob" );
   for ( uint8_t x : buf ) sym_assert( x == 9, "buffer untouched" );
   std::vector<uint8_t> out( 700 );
   left.read( out.data(), 0, 700 );
   sym_assert( memcmp( out.data(), other.data(), 700 ) == 0, "left neighbour" );
   right.read( out.data(), 0, 700 );
   sym_assert( memcmp( out.data(), other.data(), 700 ) == 0, "right neighbour" );
   out.resize( len + 1 );
   b.read( out.data(), 0, len );
   sym_assert( len == 0 || memcmp( out.data(), in.data(), len ) == 0, "contents" );
   sym_cover( "range" );
}
// overlapping writes, then reads of parts, before and after reopening
HARNESS( p13_data )
{
   vf_opaque_numbers = 1;
   static const size_t LENS[] = { 1, 4, 7, 955, 1020, 1021, 2100, 3000 };
   const size_t len = LENS[sym_param() % 8];
   std::vector<uint8_t> ref( len ), other = bytes( 90, "other" );
   int32_t pts[3] = { sym<int32_t>( "p" ), sym<int32_t>( "p" ), sym<int32_t>( "p" ) };
   const size_t AT[] = { 0, 1, len / 2, len - 1, len };
   {
      Cv f;
      BlobNode left = blob( f.imf, "left", 90 ), b = blob( f.imf, "b", len );
      sym_assert( b.byteCount() == (int64_t)len, "length" );
      f.proto.set( "x", IntegerNode( f.imf, 0, INT32_MIN, INT32_MAX ) );
      CompressedVectorNode cv = f.attach();
      put( cv, "x", pts, 3 );
      BlobNode right = blob( f.imf, "right", 90 );
      left.write( other.data(), 0, 90 );
      right.write( other.data(), 0, 90 );
      for ( int k = 0; k < 2; k++ )
      {
         size_t o = AT[sym_choice( 5, "at" )], n = ( len - o ) / ( 1 + sym_choice( 2, "part" ) );
         std::vector<uint8_t> in = bytes( n, "in" );
         b.write( in.data(), (int64_t)o, n );
         for ( size_t i = 0; i < n; i++ ) ref[o + i] = in[i];
      }
      std::vector<uint8_t> out( len + 1, 0x77 );
      b.read( out.data(), 0, len );
      sym_assert( memcmp( out.data(), ref.data(), len ) == 0 && out[len] == 0x77, "contents before closing" );
      f.imf.close();
   }
   ImageFile imf( "a.e57", "r" );
   BlobNode b( imf.root().get( "b" ) );
   sym_assert( b.byteCount() == (int64_t)len, "length after reopening" );
   size_t o = AT[sym_choice( 5, "read at" )], n = ( len - o ) / ( 1 + sym_choice( 2, "read part" ) );
   std::vector<uint8_t> out( n + 1, 0x77 );
   b.read( out.data(), (int64_t)o, n );
   sym_assert( n == 0 || memcmp( out.data(), ref.data() + o, n ) == 0, "contents after reopening" );
   sym_assert( out[n] == 0x77, "no more than asked" );
   std::vector<uint8_t> nb( 90 );
   for ( const char *w : { "left", "right" } )
   {
      BlobNode( imf.root().get( w ) ).read( nb.data(), 0, 90 );
      sym_assert( memcmp( nb.data(), other.data(), 90 ) == 0, "neighbour" );
   }
   int32_t back[3];
   take( CompressedVectorNode( imf.root().get( "points" ) ), "x", back, 3 );
   sym_assert( memcmp( back, pts, sizeof pts ) == 0, "points" );
   sym_assert( errorOf( [&] { b.write( nb.data(), 0, 1 ); } ) == ErrorFileReadOnly, "read only" );
   sym_cover( "data" );
}
// what is never written reads as zero, also at the end of the file and before anything follows
HARNESS( p13_fresh )
{
   vf_opaque_numbers = 1;
   static const size_t LENS[] = { 1, 7, 955, 1021, 2100, 5000 };
   const size_t len = LENS[sym_param() % 6];
   const size_t AT[] = { 0, 1, len / 2, len - 1 };
   const size_t SIZE[] = { 0, 1, 3 };
   const unsigned writes = sym_choice( 3, "writes" );
   const bool before = sym_choice( 2, "read at once" );
   const bool more = sym_choice( 2, "another blob" );
   std::vector<uint8_t> ref( len ), other = bytes( 9, "other" );
   ImageFile imf( "a.e57", "w" );
   BlobNode left = blob( imf, "left", 9 );
   left.write( other.data(), 0, 9 );
   BlobNode b = blob( imf, "b", len );
   sym_assert( b.byteCount() == (int64_t)len, "length" );
   const int e = errorOf( [&] {
      for ( unsigned k = 0; k < writes; k++ )
      {
         const size_t at = AT[sym_choice( 4, "at" )];
         size_t n = SIZE[sym_choice( 3, "size" )];
         if ( n > len - at ) n = len - at;
         std::vector<uint8_t> part = bytes( n, "part" );
         part.resize( n + 1 );
         b.write( part.data(), (int64_t)at, n );
         for ( size_t j = 0; j < n; j++ ) ref[at + j] = part[j];
      }
      std::vector<uint8_t> out( len, 0x55 );
      if ( before )
      {
         b.read( out.data(), 0, len );
         sym_assert( memcmp( out.data(), ref.data(), len ) == 0, "zero where nothing was written" );
      }
      if ( more )
      {
         BlobNode right = blob( imf, "right", 9 );
         right.write( other.data(), 0, 9 );
      }
      imf.close();
      ImageFile again( "a.e57", "r" );
      std::vector<uint8_t> back( len, 0x55 );
      BlobNode( again.root().get( "b" ) ).read( back.data(), 0, len );
      sym_assert( memcmp( back.data(), ref.data(), len ) == 0, "zero where nothing was written, after reopening" );
      back.assign( 9, 0x55 );
      BlobNode( again.root().get( "left" ) ).read( back.data(), 0, 9 );
      sym_assert( memcmp( back.data(), other.data(), 9 ) == 0, "left neighbour" );
      if ( more )
      {
         BlobNode( again.root().get( "right" ) ).read( back.data(), 0, 9 );
         sym_assert( memcmp( back.data(), other.data(), 9 ) == 0, "right neighbour" );
      }
      again.close();
   } );
   sym_assert( e == Success, "no error" );
   sym_cover( writes ? "partly written" : "never written" );
}
