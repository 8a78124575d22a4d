// P11: opening files with arbitrary headers
#include "cv.h"
static const size_t PAGE = 1024, PAYLOAD = 1020;
struct Header
{
   char sig[8];
   uint32_t major, minor;
   uint64_t length, xmlOffset, xmlLength, pageSize;
};
static_assert( sizeof( Header ) == 48, "header" );
static VfsFile *sound()
{
   {
      Cv f;
      f.proto.set( "x", IntegerNode( f.imf, 0, 0, 255 ) );
      CompressedVectorNode cv = f.attach();
      uint8_t x[5] = { 1, 2, 3, 4, 5 };
      put( cv, "x", x, 5 );
      BlobNode b( f.imf, 900 ); // the XML section starts on the second page
      f.imf.root().set( "b", b );
      f.imf.close();
   }
   return vfs_find( "a.e57" );
}
static void store( VfsFile *f, const Header &h )
{
   memcpy( f->data.data(), &h, sizeof h );
   sealPage( f->data.data() );
}
// the same bytes from disk and from memory
static int openIt( bool memory )
{
   VfsFile *f = vfs_find( "a.e57" );
   return errorOf( [&] {
      if ( memory )
      {
         // an exact-size block, so that reading beyond it is noticed
         std::vector<char> copy( f->data.begin(), f->data.end() );
         ImageFile imf( copy.data(), copy.size(), ChecksumAll );
      }
      else ImageFile imf( "a.e57", "r", ChecksumAll );
   } );
}
HARNESS( p11_fields )
{
   vf_opaque_numbers = 1;
   VfsFile *f = sound();
   Header good, h;
   memcpy( &good, f->data.data(), sizeof good );
   __sym_make( &h, sizeof h, "header" );
   // signature and the rest in separate runs: a wrong byte anywhere is refused
   if ( sym_param() & 2 ) memcpy( h.sig, good.sig, 8 );
   h.xmlOffset = good.xmlOffset;
   h.xmlLength = good.xmlLength;
   store( f, h );
   bool sig = memcmp( h.sig, "ASTM-E57", 8 ) == 0;
   bool version = ( h.major == 1 && h.minor == 0 ) || h.major == 0;
   bool size = h.major == 0 || h.pageSize == PAGE;
   int e = openIt( sym_param() & 1 );
   if ( e == Success )
   {
      sym_assert( sig, "signature" );
      sym_assert( version, "version" );
      sym_assert( h.length == f->data.size(), "length" );
      sym_assert( size, "page size" );
      sym_cover( "accepted" );
   }
   else
   {
      sym_assert( !( sig && version && size && h.length == f->data.size() ), "a sound header was refused" );
      if ( !sig ) sym_assert( e == ErrorBadFileSignature, "error for the signature" );
      sym_cover( "refused" );
   }
}
// any position and length of the XML section
HARNESS( p11_xml )
{
   vf_opaque_numbers = 1;
   VfsFile *f = sound();
   Header h;
   memcpy( &h, f->data.data(), sizeof h );
   const uint64_t o = h.xmlOffset, n = h.xmlLength, size = f->data.size();
   const uint64_t logical = size / PAGE * PAYLOAD;
   const uint64_t OFF[] = { o, 0, 1, 47, 48, 1019, 1020, 1023, 1024, o - 1, o + 1, o + 4, size - 5, size - 4, size - 1 };
   const uint64_t LEN[] = { n, 0, 1, 4, n - 1, n + 1, n + 4, n + 100, logical };
   uint64_t off = sym<uint64_t>( "offset" ), len = sym<uint64_t>( "length" );
   if ( sym_param() & 2 )
   {
      // page and offset in it; the last four bytes of a page are its checksum
      uint64_t in = sym_param() & 8 ? 1020 + ( sym<uint8_t>( "in checksum" ) & 3 ) : sym<uint16_t>( "in page" ) % 1020;
      off = ( off >> 10 << 10 ) | in;
      sym_assume( off >= size );
   }
   else off = OFF[sym_choice( 15, "which offset" )];
   if ( sym_param() & 4 ) sym_assume( len > logical );
   else len = LEN[sym_choice( 9, "which length" )];
   h.xmlOffset = off;
   h.xmlLength = len;
   store( f, h );
   int e = openIt( sym_param() & 1 );
   if ( e == Success )
   {
      sym_assert( off == o && len >= n - 3, "accepted XML section" ); // up to three padding characters
      sym_assert( len <= logical - ( off / PAGE * PAYLOAD + off % PAGE ), "XML section inside the file" );
      sym_cover( "xml accepted" );
   }
   else
   {
      sym_assert( !( off == o && len == n ), "a sound file was refused" );
      sym_cover( "xml refused" );
   }
}
// any truncation or extension of a file, and any tiny file
HARNESS( p11_length )
{
   vf_opaque_numbers = 1;
   VfsFile *f = sound();
   const size_t size = f->data.size();
   const size_t N[] = { 0, 1, 7, 8, 47, 48, 1019, 1020, 1023, 1024, 1025, 1500, size - 1024, size - 1, size, size + 1, size + 1023, size + 1024 };
   size_t n = N[sym_choice( 18, "length" )];
   f->data.resize( n );
   for ( size_t i = size; i < n; i++ ) f->data[i] = sym<uint8_t>( "tail" );
   int e = openIt( sym_param() & 1 );
   sym_assert( ( e == Success ) == ( n == size ), "only the recorded length" );
   sym_cover( "length" );
}
