// P06: string records
#include "cv.h"
static void writeStrings( CompressedVectorNode cv, const std::vector<ustring> &val, size_t cap )
{
   std::vector<ustring> buf( cap );
   std::vector<SourceDestBuffer> sb;
   sb.push_back( SourceDestBuffer( cv.destImageFile(), "s", &buf ) );
   CompressedVectorWriter w = cv.writer( sb );
   for ( size_t i = 0; i < val.size(); i += cap )
   {
      size_t n = std::min( cap, val.size() - i );
      for ( size_t j = 0; j < n; j++ ) buf[j] = val[i + j];
      w.write( n );
   }
   w.close();
}
static void readStrings( CompressedVectorNode cv, const std::vector<ustring> &val, size_t cap )
{
   std::vector<ustring> buf( cap, "before" );
   std::vector<SourceDestBuffer> db;
   db.push_back( SourceDestBuffer( cv.destImageFile(), "s", &buf ) );
   CompressedVectorReader r = cv.reader( db );
   size_t got = 0;
   while ( unsigned n = r.read() )
   {
      sym_assert( n <= cap && got + n <= val.size(), "read count" );
      for ( unsigned j = 0; j < n; j++ )
      {
         sym_assert( buf[j].size() == val[got + j].size(), "length" );
         sym_assert( memcmp( buf[j].data(), val[got + j].data(), buf[j].size() ) == 0, "bytes" );
      }
      got += n;
   }
   sym_assert( got == val.size(), "all records" );
   sym_assert( cv.childCount() == (int64_t)val.size(), "record count" );
}
static ustring text( size_t n )
{
   ustring s( n, 'x' );
   if ( n ) __sym_make( &s[0], n, "text" );
   return s;
}
HARNESS( p06_chunks )
{
   vf_opaque_numbers = 1;
   static const size_t LEN[] = { 0, 1, 127, 128, 300, 129 };
   unsigned p = (unsigned)sym_param();
   std::vector<ustring> val;
   for ( int i = 0; i < 3; i++ ) val.push_back( text( LEN[sym_choice( 6, "len" )] ) );
   Cv f;
   f.proto.set( "s", StringNode( f.imf ) );
   CompressedVectorNode cv = f.attach();
   writeStrings( cv, val, 1 + p % 3 );
   readStrings( cv, val, 1 + p / 3 );
   sym_cover( "chunks" );
}
// strings longer than a packet
HARNESS( p06_long )
{
   vf_opaque_numbers = 1;
   unsigned p = (unsigned)sym_param();
   static const size_t LEN[4][4] = { { 70000, 5, 0, 66000 }, { 65535, 1, 65536, 3 }, { 0, 140000, 0, 0 }, { 32760, 32760, 32760, 32760 } };
   std::vector<ustring> val;
   for ( size_t n : LEN[p % 4] ) val.push_back( text( n ) );
   Cv f;
   f.proto.set( "s", StringNode( f.imf ) );
   CompressedVectorNode cv = f.attach();
   writeStrings( cv, val, 1 + p / 4 );
   readStrings( cv, val, 1 + ( p / 4 + 1 ) % 4 );
   sym_cover( "long" );
}
// many short strings over several packets
HARNESS( p06_packets )
{
   vf_opaque_numbers = 1;
   unsigned p = (unsigned)sym_param();
   std::vector<ustring> val;
   for ( size_t i = 0, total = 0; total < 150000; i++ )
   {
      size_t n = p == 0 ? i % 23 * 3 : p == 1 ? i % 7 ? 126 : 128 : i % 3 * 500;
      val.push_back( text( n ) );
      total += n + 1;
   }
   Cv f;
   f.proto.set( "s", StringNode( f.imf ) );
   CompressedVectorNode cv = f.attach();
   writeStrings( cv, val, 700 );
   readStrings( cv, val, p == 0 ? 611 : 37 );
   sym_cover( "packets" );
}
