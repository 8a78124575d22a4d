// P08/P09/P10: the paged file
#include "h.h"
#include "CheckedFile.h"
#include "cv.h"
#define CRC RealCRC
#include "../extern/CRCpp/inc/CRC.h"
#undef CRC

static const size_t PAGE = 1024, PAYLOAD = 1020;

// offset translation, for every offset
HARNESS( p08_offsets )
{
   // every logical offset below 2^42 is q * 1020 + r, every payload byte of a page q * 1024 + r
   uint64_t q = sym<uint32_t>( "q" ), r = sym<uint16_t>( "r" ) % 1020u;
   uint64_t x = q * PAYLOAD + r, px = CheckedFile::logicalToPhysical( x );
   sym_assert( px == q * PAGE + r, "page and place within it" );
   sym_assert( CheckedFile::physicalToLogical( q * PAGE + r ) == x, "there and back" );
   // positions inside a checksum count as the end of the payload
   uint64_t c = sym<uint8_t>( "c" ) & 3u;
   sym_assert( CheckedFile::physicalToLogical( q * PAGE + PAYLOAD + c ) == ( q + 1 ) * PAYLOAD, "inside a checksum" );
   sym_cover( "offsets" );
}

struct Flat
{
   std::vector<uint8_t> d;
   void write( size_t o, const std::vector<uint8_t> &b )
   {
      if ( o + b.size() > d.size() ) d.resize( o + b.size() );
      for ( size_t i = 0; i < b.size(); i++ ) d[o + i] = b[i];
   }
};
static void pagesChecked( const VfsFile *f )
{
   sym_assert( f->data.size() % PAGE == 0, "whole pages" );
   for ( size_t p = 0; p + PAGE <= f->data.size(); p += PAGE )
   {
      uint32_t c = __sym_crc( f->data.data() + p, PAYLOAD );
      const uint8_t *s = f->data.data() + p + PAYLOAD;
      uint32_t stored = (uint32_t)s[0] << 24 | (uint32_t)s[1] << 16 | (uint32_t)s[2] << 8 | s[3];
      sym_assert( stored == c, "page checksum" );
   }
}
static const size_t AT[] = { 0, 1, 1018, 1019, 1020, 1021, 2039, 2040, 2041, 2500 };
static const size_t LEN[] = { 1, 2, 1019, 1020, 1021, 2040, 2042, 0 };
// a starting state, one more operation, then any boundary read.  param: first operation 0..79 (offset index * 8 + length index is the second)
static void ops( bool checkPages )
{
   unsigned p = (unsigned)sym_param();
   Flat flat;
   {
      CheckedFile f( ustring( "a" ), CheckedFile::Write, ChecksumAll );
      // the beginning: a write of a given length, or an extension
      size_t n0 = AT[1 + p % 9];
      if ( p / 9 == 0 )
      {
         std::vector<uint8_t> b( n0 );
         __sym_make( b.data(), b.size(), "first" );
         f.write( (const char *)b.data(), b.size() );
         flat.write( 0, b );
      }
      else
      {
         f.extend( n0 );
         flat.d.resize( n0 );
      }
      sym_assert( f.position() == n0 && f.length() == n0, "position after" );
      for ( int k = 0; k < ( p / 9 == 2 ? 1 : 2 ); k++ )
      {
         if ( sym_choice( 2, "extend" ) )
         {
            size_t n = flat.d.size() + LEN[sym_choice( 8, "more" )];
            f.extend( n );
            flat.d.resize( n );
            sym_assert( f.position() == n, "position after extend" );
         }
         else
         {
            size_t o = AT[sym_choice( 10, "at" )];
            sym_assume( o <= flat.d.size() );
            std::vector<uint8_t> b( LEN[sym_choice( 8, "len" )] );
            if ( b.size() ) __sym_make( b.data(), b.size(), "bytes" );
            f.seek( o );
            sym_assert( f.position() == o, "position after seek" );
            f.write( (const char *)b.data(), b.size() );
            sym_assert( f.position() == o + b.size(), "position after write" );
            if ( b.size() ) flat.write( o, b );
         }
         sym_assert( f.length() == flat.d.size(), "length" );
         if ( p / 9 != 2 && k == 0 && !sym_choice( 2, "again" ) ) break;
      }
      if ( !checkPages )
      {
         // read a range back before closing
         size_t o = AT[sym_choice( 10, "read at" )];
         sym_assume( o <= flat.d.size() );
         std::vector<uint8_t> out( flat.d.size() - o + 1, 0x77 );
         f.seek( o );
         f.read( (char *)out.data(), flat.d.size() - o );
         sym_assert( f.position() == flat.d.size(), "position after read" );
         sym_assert( out.size() == 1 || memcmp( out.data(), flat.d.data() + o, out.size() - 1 ) == 0, "bytes read back" );
         sym_assert( out.back() == 0x77, "reads no more than asked" );
         f.seek( o );
         sym_assert( errorOf( [&] { f.read( (char *)out.data(), out.size() ); } ) != Success, "read beyond the end" );
      }
      f.close();
   }
   if ( checkPages )
   {
      pagesChecked( vfs_find( "a" ) );
      sym_cover( "pages" );
      return;
   }
   CheckedFile r( ustring( "a" ), CheckedFile::Read, ChecksumAll );
   size_t padded = ( flat.d.size() + PAYLOAD - 1 ) / PAYLOAD * PAYLOAD;
   sym_assert( r.length() == padded, "length on disk" );
   std::vector<uint8_t> out( flat.d.size() );
   size_t half = out.size() / 2;
   r.read( (char *)out.data(), half );
   r.read( (char *)out.data() + half, out.size() - half );
   sym_assert( memcmp( out.data(), flat.d.data(), out.size() ) == 0, "bytes on disk" );
   sym_assert( errorOf( [&] { r.write( "x", 1 ); } ) == ErrorFileReadOnly && errorOf( [&] { r.extend( 9999 ); } ) == ErrorFileReadOnly, "read only" );
   sym_cover( "ops" );
}
HARNESS( p08_ops )
{
   vf_opaque_numbers = 1;
   ops( false );
}
HARNESS( p09_pages )
{
   vf_opaque_numbers = 1;
   ops( true );
}
// the checksum routine computes the standard CRC-32C: any message of the given length
HARNESS( p09_crc )
{
   unsigned n = (unsigned)sym_param();
   std::vector<uint8_t> m( n );
   if ( n ) __sym_make( m.data(), n, "message" );
   RealCRC::Parameters<crcpp_uint32, 32> par{ 0x1EDC6F41, 0xFFFFFFFF, 0xFFFFFFFF, true, true };
   const RealCRC::Table<crcpp_uint32, 32> tab = par.MakeTable();
   uint32_t got = RealCRC::Calculate<crcpp_uint32, 32>( m.data(), n, tab );
   uint32_t c = ~0u;
   for ( unsigned i = 0; i < n; i++ )
   {
      c ^= m[i];
      for ( int k = 0; k < 8; k++ )
      {
         uint32_t m = c & 1; // spread over all bits without a choice
         for ( int j = 1; j < 32; j *= 2 ) m |= m << j;
         c = c >> 1 ^ ( 0x82F63B78u & m );
      }
   }
   sym_assert( got == ~c, "CRC-32C" );
   sym_cover( "crc" );
}
// one further byte from any state: by induction the routine is right for messages of every length
HARNESS( p09_step )
{
   uint8_t b = sym<uint8_t>( "byte" );
   uint32_t crc = sym<uint32_t>( "crc" );
   RealCRC::Parameters<crcpp_uint32, 32> par{ 0x1EDC6F41, 0xFFFFFFFF, 0xFFFFFFFF, true, true };
   const RealCRC::Table<crcpp_uint32, 32> tab = par.MakeTable();
   uint32_t got = RealCRC::Calculate<crcpp_uint32, 32>( &b, 1, tab, crc );
   uint32_t c = ~crc ^ b;
   for ( int k = 0; k < 8; k++ )
   {
      uint32_t m = c & 1;
      for ( int j = 1; j < 32; j *= 2 ) m |= m << j;
      c = c >> 1 ^ ( 0x82F63B78u & m );
   }
   sym_assert( got == ~c, "CRC-32C step" );
   sym_cover( "step" );
}
// a whole file written through the public interface
HARNESS( p09_file )
{
   vf_opaque_numbers = 1;
   {
      Cv f;
      f.proto.set( "x", IntegerNode( f.imf, 0, 0, 255 ) );
      f.proto.set( "y", FloatNode( f.imf, 0, PrecisionDouble ) );
      CompressedVectorNode cv = f.attach();
      static const int NN[] = { 0, 1, 100, 400 };
      int N = NN[sym_param() & 3];
      std::vector<uint8_t> x( N + 1 );
      std::vector<double> y( N + 1 );
      __sym_make( x.data(), N + 1, "x" );
      __sym_make( y.data(), ( N + 1 ) * 8, "y" );
      std::vector<SourceDestBuffer> sb;
      sb.push_back( SourceDestBuffer( f.imf, "x", x.data(), N + 1 ) );
      sb.push_back( SourceDestBuffer( f.imf, "y", y.data(), N + 1 ) );
      CompressedVectorWriter w = cv.writer( sb );
      w.write( N );
      w.close();
      size_t n = LEN[sym_choice( 7, "blob" )];
      BlobNode blob( f.imf, (int64_t)n );
      f.imf.root().set( "blob", blob );
      std::vector<uint8_t> b( n );
      __sym_make( b.data(), n, "blob" );
      blob.write( b.data(), 0, n );
      f.imf.close();
   }
   pagesChecked( vfs_find( "a.e57" ) );
   sym_cover( "file" );
}
// pages with arbitrary payload and arbitrary mismatch of the stored checksum
static void corrupt( int policy )
{
   const size_t NP = 4;
   VfsFile *f = vfs_create( "a" );
   f->data.resize( NP * PAGE );
   uint32_t delta[NP];
   for ( size_t p = 0; p < NP; p++ )
   {
      uint8_t *d = f->data.data() + p * PAGE;
      __sym_make( d, PAYLOAD, "payload" );
      uint32_t c = __sym_crc( d, PAYLOAD );
      delta[p] = sym<uint32_t>( "delta" );
      c ^= delta[p];
      d[PAYLOAD] = (uint8_t)( c >> 24 );
      d[PAYLOAD + 1] = (uint8_t)( c >> 16 );
      d[PAYLOAD + 2] = (uint8_t)( c >> 8 );
      d[PAYLOAD + 3] = (uint8_t)c;
   }
   CheckedFile r( ustring( "a" ), CheckedFile::Read, policy );
   static const size_t at[] = { 0, 1, 1019, 1020, 2040, 2045, 3060, 4079, 4080 };
   static const size_t len[] = { 0, 1, 2, 1019, 1020, 1021, 1200, 2040, 3060, 4080 };
   size_t o = at[sym_choice( 9, "at" )], n = len[sym_choice( 10, "len" )];
   sym_assume( o + n <= NP * PAYLOAD );
   std::vector<uint8_t> out( n + 1, 0x77 );
   r.seek( o );
   int e = errorOf( [&] { r.read( (char *)out.data(), n ); } );
   bool bad = false;
   for ( size_t p = 0; p < NP; p++ )
      if ( n && p >= o / PAYLOAD && p <= ( o + n - 1 ) / PAYLOAD ) bad = bad | ( delta[p] != 0 );
   if ( e == Success )
   {
      for ( size_t i = 0; i < n; i++ ) sym_assert( out[i] == f->data[( o + i ) / PAYLOAD * PAGE + ( o + i ) % PAYLOAD], "delivered as stored" );
      sym_assert( out[n] == 0x77, "no more than asked" );
      if ( policy == ChecksumAll ) sym_assert( !bad, "corrupt page delivered" );
      sym_cover( "delivered" );
   }
   else
   {
      sym_assert( e == ErrorBadChecksum, "bad checksum error" );
      sym_assert( bad, "sound pages refused" );
      sym_assert( policy != ChecksumNone, "verification is off" );
      sym_cover( "refused" );
   }
}
HARNESS( p10_policy )
{
   vf_opaque_numbers = 1;
   corrupt( (int)sym_param() );
}
// a whole file: a mismatch on any page is noticed while everything in it is read
HARNESS( p10_file )
{
   vf_opaque_numbers = 1;
   const int N = 300;
   std::vector<double> y( N );
   std::vector<uint8_t> b( 1500 );
   __sym_make( y.data(), N * 8, "y" );
   __sym_make( b.data(), b.size(), "blob" );
   {
      Cv f;
      f.proto.set( "y", FloatNode( f.imf, 0, PrecisionDouble ) );
      CompressedVectorNode cv = f.attach();
      put( cv, "y", y.data(), N );
      BlobNode blob( f.imf, (int64_t)b.size() );
      f.imf.root().set( "blob", blob );
      blob.write( b.data(), 0, b.size() );
      f.imf.close();
   }
   VfsFile *v = vfs_find( "a.e57" );
   size_t pages = v->data.size() / PAGE;
   size_t hit = sym_choice( (unsigned)pages, "page" );
   uint32_t delta = sym<uint32_t>( "delta" );
   for ( int i = 0; i < 4; i++ ) v->data[hit * PAGE + PAYLOAD + i] ^= (uint8_t)( delta >> 8 * i );
   bool all = sym_param();
   int e = errorOf( [&] {
      ImageFile imf( "a.e57", "r", all ? ChecksumAll : ChecksumNone );
      CompressedVectorNode cv( imf.root().get( "points" ) );
      std::vector<double> y2( N );
      sym_assert( take( cv, "y", y2.data(), N ) == (unsigned)N, "count" );
      sym_assert( memcmp( y2.data(), y.data(), N * 8 ) == 0, "points" );
      BlobNode blob( imf.root().get( "blob" ) );
      std::vector<uint8_t> b2( b.size() );
      blob.read( b2.data(), 0, b2.size() );
      sym_assert( memcmp( b2.data(), b.data(), b.size() ) == 0, "blob" );
   } );
   if ( e == Success )
   {
      if ( all ) sym_assert( delta == 0, "corrupt page unnoticed" );
      sym_cover( "file sound" );
   }
   else
   {
      sym_assert( e == ErrorBadChecksum, "bad checksum error" );
      sym_assert( delta != 0 && all, "sound file refused" );
      sym_cover( "file corrupt" );
   }
}
