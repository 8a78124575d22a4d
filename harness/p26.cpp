// P26: the same bytes read from a memory buffer and from disk (damage as in P12)
#include "p12.cpp"
// what a reader saw
struct Seen
{
   bool refused = false;
   std::vector<uint64_t> num;
   std::vector<ustring> text;
};
static void same( const Seen &a, const Seen &b )
{
   sym_assert( a.refused == b.refused, "outcome" );
   if ( a.refused || b.refused )
   {
      sym_cover( "both refuse" );
      return;
   }
   sym_assert( a.num.size() == b.num.size() && a.text.size() == b.text.size(), "amount of data" );
   if ( a.num.size() != b.num.size() || a.text.size() != b.text.size() ) return;
   uint64_t d = 0;
   for ( size_t i = 0; i < a.num.size(); i++ ) d |= a.num[i] ^ b.num[i];
   for ( size_t i = 0; i < a.text.size(); i++ )
   {
      sym_assert( a.text[i].size() == b.text[i].size(), "text length" );
      if ( a.text[i].size() != b.text[i].size() ) return;
      for ( size_t k = 0; k < a.text[i].size(); k++ ) d |= (uint8_t)( a.text[i][k] ^ b.text[i][k] );
   }
   sym_assert( d == 0, "data" );
   sym_cover( "both read" );
}
// the file in memory: a block of its exact size, which must not change
struct Memory
{
   std::vector<char> bytes, kept;
   Memory() : bytes( vfs_find( "a.e57" )->data.begin(), vfs_find( "a.e57" )->data.end() ), kept( bytes ) {}
   ~Memory()
   {
      char d = 0;
      for ( size_t i = 0; i < bytes.size(); i++ ) d |= bytes[i] ^ kept[i];
      sym_assert( d == 0, "caller's memory unchanged" );
   }
};
template <class F> static Seen see( bool memory, ReadChecksumPolicy policy, F f )
{
   Seen s;
   const int e = errorOf( [&] {
      if ( memory )
      {
         Memory m;
         ImageFile imf( m.bytes.data(), m.bytes.size(), policy );
         f( imf, s );
      }
      else
      {
         ImageFile imf( "a.e57", "r", policy );
         f( imf, s );
      }
   } );
   s.refused = e != Success;
   return s;
}
template <class F> static void bothWays( F f, ReadChecksumPolicy policy = ChecksumAll )
{
   const Seen a = see( false, policy, f );
   const Seen b = see( true, policy, f );
   same( a, b );
}
static void records( ImageFile imf, size_t cap, Seen &s )
{
   CompressedVectorNode cv( imf.root().get( "points" ) );
   Bufs b( imf, cap );
   CompressedVectorReader r = cv.reader( b.v );
   for ( ;; )
   {
      unsigned n = r.read();
      s.num.push_back( n );
      if ( n == 0 ) break;
      for ( unsigned i = 0; i < n; i++ )
      {
         uint32_t y;
         memcpy( &y, &b.y[i], 4 );
         s.num.push_back( (uint64_t)b.x[i] );
         s.num.push_back( y );
         s.text.push_back( b.s[i] );
      }
   }
   r.close();
}
HARNESS( p26_section )
{
   vf_opaque_numbers = 1;
   kind = (int)( sym_param() % 10 );
   VfsFile *f = sound( 400 );
   const uint64_t size = f->data.size();
   uint8_t *d = f->data.data() + SECTION;
   uint64_t off = sym<uint64_t>( "data offset" );
   const uint64_t AT[] = { PACKET, 0, 1, 48, 79, 81, 84, 96, 1016, 1020, 1023, 1024, size - 8, size - 4, size - 1 };
   if ( sym_param() >= 10 ) sym_assume( off >= size );
   else off = AT[sym_choice( 15, "at" )];
   __sym_make( d, 32, "section header" );
   if ( sym_choice( 2, "plain" ) )
   {
      memset( d, 0, 8 );
      d[0] = 1;
   }
   put64( d + 16, off );
   sealPage( f->data.data() );
   bothWays( []( ImageFile imf, Seen &s ) { records( imf, N, s ); } );
}
HARNESS( p26_packet )
{
   vf_opaque_numbers = 1;
   kind = (int)( sym_param() % 10 );
   VfsFile *f = sound( 1400 );
   uint8_t *d = f->data.data() + PACKET;
   const unsigned LEN[] = { 4, 8, 12, 16, 24, 32, 30, 64, 940, 2000, 65536 };
   const unsigned n = LEN[sym_param() / 100 % 100];
   __sym_make( d, 48, "bytes" );
   memset( d + 48, 0, 880 );
   packet( d, n, false );
   put64( f->data.data() + SECTION + 8, 32 + ( n > 60 ? 60 : n & ~3u ) );
   sealPage( f->data.data() );
   bothWays( []( ImageFile imf, Seen &s ) { records( imf, sym_param() / 10 % 10 ? 3 : N, s ); } );
}
HARNESS( p26_blob )
{
   vf_opaque_numbers = 1;
   static const char *OFF[] = { "48", "0", "1", "1016", "1023", "1024", "2047", "2048", "9223372036854775807", "-1", "18446744073709551615", "x", "" };
   static const char *LEN[] = { "8", "0", "1984", "1985", "5000", "9223372036854775807", "9223372036854775791", "-1", "-16", "18446744073709551615", "1e3" };
   std::vector<uint8_t> bin( 1500 );
   __sym_make( bin.data(), bin.size(), "bytes" );
   const char *off = OFF[sym_choice( 13, "offset" )];
   const char *len = LEN[sym_choice( 11, "length" )];
   std::string xml = ROOT;
   xml += std::string( "<b type=\"Blob\" fileOffset=\"" ) + off + "\" length=\"" + len + "\"/></e57Root>";
   makeFile( "a.e57", bin, xml );
   static const int64_t AT[] = { 0, 1, 7, 1983, 1984, INT64_MAX, INT64_MAX - 16, -1, -17 };
   static const size_t CNT[] = { 0, 1, 8, 1984 };
   const int64_t at = AT[sym_choice( 9, "at" )];
   const size_t n = CNT[sym_choice( 4, "count" )];
   bothWays( [&]( ImageFile imf, Seen &s ) {
      BlobNode b( imf.root().get( "b" ) );
      std::vector<uint8_t> out( n );
      b.read( out.data(), at, n );
      s.num.push_back( (uint64_t)b.byteCount() );
      for ( uint8_t v : out ) s.num.push_back( v );
   } );
}
// Undamaged content of any values; every checksum policy, and any change of any one page's bytes
// not accompanied by a new checksum.
HARNESS( p26_corrupt )
{
   vf_opaque_numbers = 1;
   kind = 4;
   {
      ImageFile imf( "a.e57", "w" );
      CompressedVectorNode cv = make( imf );
      Bufs b( imf, N );
      __sym_make( b.x, 8 * N, "values" );
      CompressedVectorWriter w = cv.writer( b.v );
      w.write( N );
      w.close();
      BlobNode blob( imf, 3000 );
      imf.root().set( "b", blob );
      imf.close();
   }
   VfsFile *f = vfs_find( "a.e57" );
   const ReadChecksumPolicy POLICY[] = { ChecksumNone, ChecksumSparse, ChecksumHalf, ChecksumAll };
   const ReadChecksumPolicy policy = POLICY[sym_choice( 4, "policy" )];
   const size_t pages = f->data.size() / PAGE;
   const size_t page = sym_choice( (unsigned)pages + 1, "page" );
   if ( page < pages )
   {
      static const size_t AT[] = { 100, 300, 1019, 1020, 1023 };
      // not in the XML section, whose contents would no longer be text
      const size_t at = AT[page == 0 || page + 2 < pages ? sym_choice( 5, "at" ) : 3 + sym_choice( 2, "at" )];
      f->data[page * PAGE + at] ^= sym<uint8_t>( "change" );
   }
   bothWays( []( ImageFile imf, Seen &s ) {
      records( imf, 7, s );
      BlobNode b( imf.root().get( "b" ) );
      uint8_t out[40];
      b.read( out, 2000, 40 );
      for ( uint8_t v : out ) s.num.push_back( v );
      BlobNode c( imf.root().get( "b" ) );
      c.read( out, 0, 40 );
      for ( uint8_t v : out ) s.num.push_back( v );
   }, policy );
}
// two transfers from one file over a buffer, and from two files over it taking turns
HARNESS( p26_turns )
{
   vf_opaque_numbers = 1;
   kind = 0;
   int64_t x[N], y[N];
   {
      ImageFile imf( "a.e57", "w" );
      for ( int k = 0; k < 2; k++ )
      {
         int64_t *v = k ? y : x;
         __sym_make( v, 8 * N, "values" );
         for ( unsigned i = 0; i < N; i++ ) sym_assume( v[i] >= 0 && v[i] <= 200 );
         StructureNode p( imf );
         p.set( "x", IntegerNode( imf, 0, 0, 200 ) );
         CompressedVectorNode cv( imf, p, VectorNode( imf, true ) );
         imf.root().set( k ? "b" : "a", cv );
         put( cv, "x", v, N );
      }
      imf.close();
   }
   Memory m;
   ImageFile one( m.bytes.data(), m.bytes.size() ), other( m.bytes.data(), m.bytes.size() );
   ImageFile &two = sym_param() ? other : one;
   int64_t a[7], b[5];
   std::vector<SourceDestBuffer> va, vb;
   va.push_back( SourceDestBuffer( one, "x", a, 7 ) );
   vb.push_back( SourceDestBuffer( two, "x", b, 5 ) );
   CompressedVectorNode ca( one.root().get( "a" ) ), cb( two.root().get( "b" ) );
   CompressedVectorReader ra = ca.reader( va );
   std::vector<int64_t> ga, gb;
   if ( sym_param() )
   {
      CompressedVectorReader rb = cb.reader( vb );
      for ( int i = 0; i < 9; i++ )
      {
         if ( sym_choice( 2, "turn" ) )
         {
            unsigned n = ra.read();
            ga.insert( ga.end(), a, a + n );
         }
         else
         {
            unsigned n = rb.read();
            gb.insert( gb.end(), b, b + n );
         }
      }
      rb.close();
   }
   else
   {
      // one transfer at a time per file
      unsigned n;
      while ( ( n = ra.read() ) > 0 ) ga.insert( ga.end(), a, a + n );
      ra.close();
      CompressedVectorReader rb = cb.reader( vb );
      while ( ( n = rb.read() ) > 0 ) gb.insert( gb.end(), b, b + n );
      rb.close();
      sym_assert( ga.size() == N && gb.size() == N, "all records" );
   }
   sym_assert( ga.size() <= N && gb.size() <= N, "no more than recorded" );
   for ( size_t i = 0; i < ga.size(); i++ ) sym_assert( ga[i] == x[i], "first transfer" );
   for ( size_t i = 0; i < gb.size(); i++ ) sym_assert( gb[i] == y[i], "second transfer" );
   sym_cover( "turns" );
}
