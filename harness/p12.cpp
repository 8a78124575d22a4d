// P12: arbitrary bytes in binary sections
#include "cv.h"
static const size_t PAGE = 1024;
static const unsigned N = 20;  // records according to the XML section
static const size_t SECTION = 48, PACKET = 80;
static int kind;
static CompressedVectorNode make( ImageFile imf )
{
   StructureNode p( imf );
   switch ( kind )
   {
   case 0: p.set( "x", IntegerNode( imf, 0, 0, 200 ) ); break;
   case 1:
      p.set( "x", IntegerNode( imf, -3, -3, 90 ) );
      p.set( "y", FloatNode( imf, 0, PrecisionSingle ) );
      break;
   case 2: p.set( "s", StringNode( imf ) ); break;
   case 3:
      p.set( "c", IntegerNode( imf, 5, 5, 5 ) );
      p.set( "x", IntegerNode( imf, 0, 0, ( int64_t( 1 ) << 33 ) - 1 ) );
      break;
   case 4:
      p.set( "x", IntegerNode( imf, 0, INT64_MIN, INT64_MAX ) );
      p.set( "s", StringNode( imf ) );
      break;
   }
   CompressedVectorNode cv( imf, p, VectorNode( imf, true ) );
   imf.root().set( "points", cv );
   return cv;
}
struct Bufs
{
   int64_t x[N + 1];
   float y[N + 1];
   std::vector<ustring> s;
   std::vector<SourceDestBuffer> v;
   Bufs( ImageFile imf, size_t cap ) : s( cap )
   {
      memset( x, 0, sizeof x );
      memset( y, 0, sizeof y );
      x[cap] = 0x1234567;
      for ( size_t i = 0; i < cap; i++ )
      {
         x[i] = kind == 3 ? 5 : 1;
         s[i] = "ab";
      }
      if ( kind == 0 || kind == 1 || kind == 4 ) v.push_back( SourceDestBuffer( imf, "x", x, cap, true ) );
      if ( kind == 1 ) v.push_back( SourceDestBuffer( imf, "y", y, cap, true ) );
      if ( kind == 2 || kind == 4 ) v.push_back( SourceDestBuffer( imf, "s", &s ) );
      if ( kind == 3 )
      {
         v.push_back( SourceDestBuffer( imf, "c", y, cap, true ) );
         v.push_back( SourceDestBuffer( imf, "x", x, cap, true ) );
         for ( size_t i = 0; i < cap; i++ ) y[i] = 5;
      }
   }
};
static VfsFile *sound( size_t room )
{
   {
      ImageFile imf( "a.e57", "w" );
      CompressedVectorNode cv = make( imf );
      Bufs b( imf, N );
      CompressedVectorWriter w = cv.writer( b.v );
      w.write( N );
      w.close();
      BlobNode blob( imf, (int64_t)room );
      imf.root().set( "b", blob );
      imf.close();
   }
   return vfs_find( "a.e57" );
}
// reads until nothing more comes
static void readAll( size_t cap )
{
   int e = errorOf( [&] {
      ImageFile imf( "a.e57", "r" );
      CompressedVectorNode cv( imf.root().get( "points" ) );
      Bufs b( imf, cap );
      CompressedVectorReader r = cv.reader( b.v );
      unsigned total = 0;
      for ( ;; )
      {
         unsigned n = r.read();
         sym_assert( n <= cap, "records delivered" );
         total += n;
         sym_assert( total <= N, "no more than recorded" );
         if ( n == 0 ) break;
      }
      sym_assert( b.x[cap] == 0x1234567, "buffer end" );
      r.close();
      sym_cover( "read to the end" );
   } );
   if ( e != Success ) sym_cover( "refused" );
}
static void put64( uint8_t *d, uint64_t v )
{
   for ( int i = 0; i < 8; i++ ) d[i] = (uint8_t)( v >> 8 * i );
}
// any section header
HARNESS( p12_section )
{
   vf_opaque_numbers = 1;
   kind = (int)( sym_param() % 10 );
   VfsFile *f = sound( 400 );
   const uint64_t size = f->data.size();
   uint8_t *d = f->data.data() + SECTION;
   uint64_t off = sym<uint64_t>( "data offset" );
   const uint64_t AT[] = { PACKET, 0, 1, 48, 79, 81, 84, 96, 1016, 1020, 1023, 1024, size - 8, size - 4, size - 1 };
   if ( sym_param() >= 10 ) sym_assume( off >= size );
   else off = AT[sym_choice( 15, "at" )];
   __sym_make( d, 32, "section header" );
   if ( sym_choice( 2, "plain" ) )
   {
      memset( d, 0, 8 );
      d[0] = 1;
   }
   put64( d + 16, off );
   sealPage( f->data.data() );
   readAll( N );
}
// Arbitrary strings: two of any of a few lengths in short or long form, then empty ones.
static void strings( uint8_t *d, unsigned n )
{
   unsigned pos = 0;
   for ( int k = 0; k < 2 && pos < n; k++ )
   {
      const unsigned rest = n - pos;
      switch ( sym_choice( 5, "string" ) )
      {
      case 0: // short form
      {
         const unsigned L[] = { 0, 1, 2, rest - 1, rest, 127 };
         unsigned len = L[sym_choice( 6, "string length" )];
         if ( len > 127 ) len = 127;
         d[pos] = (uint8_t)( 2 * len );
         pos += 1 + len;
         break;
      }
      case 1: // long form, small
      {
         unsigned len = sym_choice( 3, "long string length" );
         memset( d + pos, 0, 8 );
         d[pos] = (uint8_t)( 2 * len + 1 );
         pos += 8 + len;
         break;
      }
      case 2: // long form, any length beyond the packet
      {
         uint64_t v = sym<uint64_t>( "huge length" ) | 1;
         sym_assume( v > 2 * 70000 );
         put64( d + pos, v );
         pos = n;
         break;
      }
      default: // short form, any length beyond the packet
         sym_assume( ( d[pos] & 1 ) == 0 && d[pos] / 2u >= rest );
         pos = n;
         break;
      }
   }
   if ( pos < n ) memset( d + pos, 0, n - pos );
}
// An arbitrary packet of n bytes: type, flags and contents are symbolic.  The lengths of up to
// three streams are either ones that fill the packet or any others.
static void packet( uint8_t *d, unsigned n, bool coarse )
{
   d[2] = (uint8_t)( n - 1 );
   d[3] = (uint8_t)( ( n - 1 ) >> 8 );
   if ( n < 6 ) return;
   const unsigned type = sym_choice( coarse ? 3 : 4, "type" );
   if ( type == 3 )
   {
      sym_assume( d[0] > 2 );
      return;
   }
   d[0] = (uint8_t)type;
   if ( type == 0 ) // index packet
   {
      const unsigned fit = n < 16 ? 0 : ( n - 16 ) / 16;
      const unsigned E[] = { 1, fit, fit + 1, 0, 2048, 2049, 65535 };
      unsigned e = E[sym_choice( coarse ? 3 : 7, "entries" )];
      d[4] = (uint8_t)e;
      d[5] = (uint8_t)( e >> 8 );
      return;
   }
   if ( type == 2 ) return; // empty packet
   unsigned c = sym_choice( coarse ? 3 : 5, "streams" );
   if ( c == 4 )
   {
      sym_assume( d[4] + 256u * d[5] >= ( n > 16 ? ( n - 6 ) / 2 : 4 ) );
      return;
   }
   d[4] = (uint8_t)c;
   d[5] = 0;
   if ( c == 0 || n < 6 + 2 * c ) return;
   const unsigned room = n - 6 - 2 * c;
   unsigned pad = sym_choice( coarse ? 2 : 5, "padding" );
   if ( pad == 4 )
   {
      unsigned sum = 0;
      for ( unsigned k = 0; k < c; k++ ) sum += d[6 + 2 * k] + 256u * d[7 + 2 * k];
      sym_assume( sum + 3 < room || sum > room );
      return;
   }
   sym_assume( pad <= room );
   unsigned left = room - pad, at = 0;
   for ( unsigned k = 0; k < c; k++ )
   {
      const unsigned PART[] = { 0, left, left / 2, left > 0 };
      unsigned len = k + 1 == c ? left : PART[sym_choice( coarse ? 2 : 4, "stream length" )];
      if ( len && n <= 1000 && ( kind == 2 || kind == 4 ) && k == ( kind == 2 ? 0u : 1u ) )
         strings( d + 6 + 2 * c + at, len );
      at += len;
      d[6 + 2 * k] = (uint8_t)len;
      d[7 + 2 * k] = (uint8_t)( len >> 8 );
      left -= len;
   }
}
// any bytes where the packets should be
HARNESS( p12_packet )
{
   vf_opaque_numbers = 1;
   kind = (int)( sym_param() % 10 );
   VfsFile *f = sound( 1400 );
   uint8_t *d = f->data.data() + PACKET;
   const unsigned LEN[] = { 4, 8, 12, 16, 24, 32, 30, 64, 940, 2000, 65536 };
   const unsigned n1 = LEN[sym_param() / 100 % 100];
   __sym_make( d, 48, "bytes" );
   memset( d + 48, 0, 880 );
   packet( d, n1, false );
   unsigned total = n1;
   if ( sym_param() >= 10000 )
   {
      const unsigned n2 = LEN[sym_choice( 4, "second length" )];
      packet( d + n1, n2, true );
      total += n2;
   }
   put64( f->data.data() + SECTION + 8, 32 + ( total > 60 ? 60 : total & ~3u ) ); // the section ends here
   sealPage( f->data.data() );
   readAll( sym_param() / 10 % 10 ? 3 : N );
}
static const char *ROOT = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">\n";
// positions and lengths claimed for a blob
HARNESS( p12_blob )
{
   vf_opaque_numbers = 1;
   static const char *OFF[] = { "48", "0", "1", "1016", "1023", "1024", "2047", "2048", "9223372036854775807", "-1", "18446744073709551615", "x", "" };
   static const char *LEN[] = { "8", "0", "1984", "1985", "5000", "9223372036854775807", "9223372036854775791", "-1", "-16", "18446744073709551615", "1e3" };
   std::vector<uint8_t> bin( 1500 );
   __sym_make( bin.data(), bin.size(), "bytes" );
   const char *off = OFF[sym_choice( 13, "offset" )];
   const char *len = LEN[sym_choice( 11, "length" )];
   std::string xml = ROOT;
   xml += std::string( "<b type=\"Blob\" fileOffset=\"" ) + off + "\" length=\"" + len + "\"/></e57Root>";
   makeFile( "a.e57", bin, xml );
   int e = errorOf( [&] {
      ImageFile imf( "a.e57", "r" );
      BlobNode b( imf.root().get( "b" ) );
      static const int64_t AT[] = { 0, 1, 7, 1983, 1984, INT64_MAX, INT64_MAX - 16, -1, -17 };
      static const size_t N[] = { 0, 1, 8, 1984 };
      int64_t at = AT[sym_choice( 9, "at" )];
      size_t n = N[sym_choice( 4, "count" )];
      std::vector<uint8_t> out( n + 1, 0x77 );
      b.read( out.data(), at, n );
      sym_assert( out[n] == 0x77, "buffer end" );
      sym_assert( at >= 0 && b.byteCount() >= 0 && at <= b.byteCount() && n <= (uint64_t)( b.byteCount() - at ), "inside the blob" );
      sym_cover( "blob read" );
   } );
   if ( e != Success ) sym_cover( "blob refused" );
}
// record counts and positions claimed for a compressed vector
HARNESS( p12_claims )
{
   vf_opaque_numbers = 1;
   kind = 0;
   VfsFile *f = sound( 0 );
   std::vector<uint8_t> bin( f->data.begin() + 48, f->data.begin() + 148 );
   static const char *OFF[] = { "48", "0", "1", "52", "80", "1016", "1023", "1024", "2048", "9223372036854775807", "-1", "18446744073709551615", "x", "" };
   static const char *CNT[] = { "20", "0", "19", "21", "1000000000000", "9223372036854775807", "-1", "18446744073709551615", "x", "" };
   const char *off = OFF[sym_choice( 14, "offset" )];
   const char *cnt = CNT[sym_choice( 10, "records" )];
   std::string xml = ROOT;
   xml += std::string( "<points type=\"CompressedVector\" fileOffset=\"" ) + off + "\" recordCount=\"" + cnt +
          "\"><prototype type=\"Structure\"><x type=\"Integer\" minimum=\"0\" maximum=\"200\">0</x></prototype><codecs type=\"Vector\" allowHeterogeneousChildren=\"1\"></codecs></points></e57Root>";
   makeFile( "a.e57", bin, xml );
   int e = errorOf( [&] {
      ImageFile imf( "a.e57", "r" );
      CompressedVectorNode cv( imf.root().get( "points" ) );
      int32_t x[31];
      x[30] = 0x1234567;
      std::vector<SourceDestBuffer> v;
      v.push_back( SourceDestBuffer( imf, "x", x, 30, true ) );
      CompressedVectorReader r = cv.reader( v );
      unsigned n = r.read();
      sym_assert( n <= 20 && n <= cv.childCount(), "records delivered" );
      for ( unsigned i = 0; i < n; i++ ) sym_assert( x[i] == 1, "value" );
      sym_assert( x[30] == 0x1234567, "buffer end" );
      sym_assert( r.read() == 0, "end" );
      sym_cover( "claims read" );
   } );
   if ( e != Success ) sym_cover( "claims refused" );
}
