// P22: an independent decoder of the published layout reads what was written
#include "p07.cpp"
static uint64_t le( const uint8_t *d, int n )
{
   uint64_t v = 0;
   for ( int i = 0; i < n; i++ ) v |= (uint64_t)d[i] << 8 * i;
   return v;
}
struct Image
{
   std::vector<uint8_t> l; // the pages' contents without checksums
   uint64_t end = 0;       // where the XML section begins
   std::string xml;
   explicit Image( const char *name )
   {
      VfsFile *f = vfs_find( name );
      const size_t size = f->data.size();
      sym_assert( size % 1024 == 0, "whole pages" );
      for ( size_t p = 0; p + 1024 <= size; p += 1024 ) l.insert( l.end(), f->data.begin() + p, f->data.begin() + p + 1020 );
      sym_assert( le( &l[16], 8 ) == size, "recorded length" );
      end = logical( le( &l[24], 8 ) );
      const uint64_t n = le( &l[32], 8 );
      sym_assert( end >= 48 && end % 4 == 0 && end <= l.size() && n <= l.size() - end, "place of the XML section" );
      xml.assign( l.begin() + end, l.begin() + end + n );
   }
   static uint64_t logical( uint64_t physical )
   {
      sym_assert( physical % 1024 < 1020, "offset outside checksums" );
      return physical / 1024 * 1020 + physical % 1024;
   }
   // logical place of the section of element `name`
   uint64_t place( const std::string &name ) const
   {
      const size_t at = xml.find( "<" + name + " " );
      sym_assert( at != std::string::npos, "element" );
      const size_t o = xml.find( "fileOffset=\"", at );
      uint64_t v = 0;
      for ( size_t i = o + 12; xml[i] >= '0' && xml[i] <= '9'; i++ ) v = 10 * v + ( xml[i] - '0' );
      return logical( v );
   }
};
struct Section
{
   uint64_t begin = 0, length = 0;
   unsigned packets = 0;
   std::vector<std::vector<uint8_t>> streams;
   Section( const Image &f, const std::string &name, unsigned fields ) : streams( fields )
   {
      begin = f.place( name );
      const uint8_t *d = f.l.data();
      sym_assert( begin >= 48 && begin % 4 == 0 && begin + 32 <= f.end, "place of the section" );
      sym_assert( d[begin] == 1, "section id" );
      uint8_t r = 0;
      for ( int i = 1; i < 8; i++ ) r |= d[begin + i];
      sym_assert( r == 0, "reserved bytes of the section" );
      length = le( d + begin + 8, 8 );
      sym_assert( length % 4 == 0 && length >= 32 && length <= f.end - begin, "section length" );
      const uint64_t first = f.logical( le( d + begin + 16, 8 ) ), index = f.logical( le( d + begin + 24, 8 ) );
      sym_assert( first == begin + 32, "first packet follows the header" );
      bool indexed = false, data = false;
      uint64_t at = first;
      while ( at < begin + length )
      {
         sym_assert( at + 4 <= begin + length, "packet begins inside the section" );
         const uint64_t n = le( d + at + 2, 2 ) + 1;
         sym_assert( n % 4 == 0 && n >= 4 && n <= begin + length - at, "packet length" );
         packets++;
         if ( d[at] == 1 )
         {
            data = true;
            sym_assert( d[at + 1] == 0, "flags" );
            sym_assert( le( d + at + 4, 2 ) == fields, "number of streams" );
            uint64_t sum = 6 + 2 * fields;
            for ( unsigned k = 0; k < fields; k++ )
            {
               const uint64_t m = le( d + at + 6 + 2 * k, 2 );
               sym_assert( sum + m <= n, "stream inside the packet" );
               if ( sum + m > n ) return;
               streams[k].insert( streams[k].end(), d + at + sum, d + at + sum + m );
               sum += m;
            }
            sym_assert( n - sum < 4, "padding" );
            for ( ; sum < n; sum++ ) sym_assert( d[at + sum] == 0, "padding is zero" );
         }
         else
         {
            sym_assert( d[at] == 0, "packet type" );
            if ( at == index ) indexed = true;
            const uint64_t entries = le( d + at + 4, 2 );
            sym_assert( entries >= 1 && entries <= 2048 && n == 16 + 16 * entries, "index entries" );
            sym_assert( d[at + 1] == 0 && d[at + 6] == 0, "index flags and level" );
            for ( int i = 7; i < 16; i++ ) sym_assert( d[at + i] == 0, "reserved bytes of the index" );
            sym_assert( le( d + at + 16, 8 ) == 0 && f.logical( le( d + at + 24, 8 ) ) == first, "first index entry" );
         }
         at += n;
      }
      sym_assert( at == begin + length, "packets fill the section" );
      sym_assert( indexed && data && d[first] == 1, "data and index packets" );
   }
};
// one stream's expected contents
struct Bits
{
   std::vector<uint8_t> b;
   uint64_t acc = 0;
   unsigned n = 0;
   void put( uint64_t v, unsigned width )
   {
      while ( width )
      {
         const unsigned take = std::min( 8 - n, width );
         acc |= ( v & ( ( 1u << take ) - 1 ) ) << n;
         v >>= take;
         n += take;
         width -= take;
         if ( n == 8 ) flush();
      }
   }
   void flush()
   {
      if ( n ) b.push_back( (uint8_t)acc );
      acc = 0;
      n = 0;
   }
   void text( const ustring &s )
   {
      if ( s.size() < 128 ) put( s.size() << 1, 8 );
      else put( (uint64_t)s.size() << 1 | 1, 64 );
      b.insert( b.end(), s.begin(), s.end() );
   }
};
static void matches( Bits e, const std::vector<uint8_t> &s, bool whole )
{
   e.flush();
   // packed integers may be followed by what fills the last word
   sym_assert( s.size() >= e.b.size() && s.size() < e.b.size() + ( whole ? 1 : 8 ), "stream length" );
   if ( s.size() < e.b.size() ) return;
   uint8_t d = 0;
   for ( size_t i = 0; i < e.b.size(); i++ )
   {
      d |= e.b[i] ^ s[i];
      if ( i % 512 == 511 )
      {
         sym_assert( d == 0, "stream contents" );
         d = 0;
      }
   }
   for ( size_t i = e.b.size(); i < s.size(); i++ ) d |= s[i];
   sym_assert( d == 0, "stream contents" );
}
static uint64_t bits64( const void *p, int n )
{
   uint64_t v = 0;
   memcpy( &v, p, n );
   return v;
}
static void checkColumns( const Section &s, const Columns &v )
{
   // streams in the order of the prototype's leaves
   static const int LEAF[NF] = { A, B, C, D, F, E, G, H };
   const size_t n = v.a.size();
   for ( int k = 0; k < NF; k++ )
   {
      Bits b;
      for ( size_t i = 0; i < n; i++ ) switch ( LEAF[k] )
         {
            case A: b.put( v.a[i], 3 ); break;
            case B: b.put( bits64( &v.b[i], 4 ), 32 ); break;
            case C: b.text( v.c[i] ); break;
            case D: b.put( bits64( &v.d[i], 8 ), 64 ); break;
            case E: b.put( (uint64_t)v.e[i] - (uint64_t)INT64_MIN, 64 ); break;
            case F: break;
            case G: b.put( (uint64_t)v.g[i], 12 ); break;
            case H: b.put( v.h[i], 16 ); break;
         }
      matches( b, s.streams[k], LEAF[k] == B || LEAF[k] == C || LEAF[k] == D );
   }
}
// every kind of field; two sections.  param = write order + 4 * write block
HARNESS( p22_mix )
{
   vf_opaque_numbers = 1;
   static const unsigned CNT[] = { 1, 0, 2, 3, 5, 7, 8, 9, 16, 33 };
   const unsigned n = CNT[sym_choice( 10, "records" )], m = CNT[sym_choice( 3, "more records" )];
   Columns v( n ), w( m );
   v.fill( 5 );
   w.fill( 4 );
   {
      Cv f;
      CompressedVectorNode a = vector( f ), b = vector( f, "more" );
      const size_t block = sym_param() / 4 ? sym_param() / 4 : std::max( n, 1u );
      writeAll( a, v, block, (int)sym_param() % 4 );
      writeAll( b, w, 2, 0 );
      f.imf.close();
   }
   const Image f( "a.e57" );
   const Section s( f, "points", NF ), t( f, "more", NF );
   sym_assert( t.begin >= s.begin + s.length || s.begin >= t.begin + t.length, "sections apart" );
   checkColumns( s, v );
   checkColumns( t, w );
   sym_cover( "mix" );
}
HARNESS( p22_packets )
{
   vf_opaque_numbers = 1;
   const unsigned p = (unsigned)sym_param();
   Columns v( 5000 );
   v.fill( 9 );
   {
      Cv f;
      CompressedVectorNode a = vector( f );
      writeAll( a, v, p & 1 ? 5000 : 333, (int)( p % 3 ) );
      f.imf.close();
   }
   const Image f( "a.e57" );
   const Section s( f, "points", NF );
   sym_assert( s.packets > 3, "several packets" );
   checkColumns( s, v );
   sym_cover( "packets" );
}
// any minimum with a range of any number of bits
HARNESS( p22_width )
{
   vf_opaque_numbers = 1;
   const unsigned width = (unsigned)sym_param() % 100;
   const bool scaled = sym_param() >= 100;
   // the smallest, the largest and some range of that many bits
   uint64_t range = width == 0 ? 0 : (uint64_t)1 << ( width - 1 );
   const unsigned which = width == 0 ? 0 : sym_choice( 3, "range" );
   if ( which == 1 ) range = range * 2 - 1;
   if ( which == 2 ) range |= range >> 1;
   static const unsigned CNT[] = { 1, 9, 33 };
   const unsigned n = CNT[sym_choice( 3, "records" )];
   const int64_t lo = sym<int64_t>( "minimum" );
   const int64_t hi = (int64_t)( (uint64_t)lo + range );
   sym_assume( lo <= hi );
   std::vector<int64_t> v( n );
   Bits e;
   for ( auto &x : v )
   {
      uint64_t above = sym<uint64_t>( "above minimum" );
      if ( which == 1 || width == 0 ) above &= range;
      else sym_assume( above <= range );
      x = (int64_t)( (uint64_t)lo + above );
      e.put( above, width );
   }
   {
      Cv f;
      if ( scaled ) f.proto.set( "x", ScaledIntegerNode( f.imf, lo, lo, hi, 0.25, 3. ) );
      else f.proto.set( "x", IntegerNode( f.imf, lo, lo, hi ) );
      put( f.attach(), "x", v.data(), n );
      f.imf.close();
   }
   const Image f( "a.e57" );
   const Section s( f, "points", 1 );
   matches( e, s.streams[0], width == 0 );
   sym_cover( "width" );
}
// strings up to several packets long beside other fields
HARNESS( p22_strings )
{
   vf_opaque_numbers = 1;
   static const unsigned LEN[] = { 0, 1, 126, 127, 128, 129, 255, 256, 32766, 32767, 32768, 49140, 65500, 65527, 65528, 65535, 65536, 70000, 140000 };
   const unsigned len = LEN[sym_param() % 100];
   const bool first = sym_param() >= 100;
   std::vector<ustring> c( 3, ustring() );
   const unsigned which = sym_choice( 3, "which is long" );
   for ( unsigned i = 0; i < 3; i++ )
   {
      c[i] = ustring( i == which ? len : i, 'x' );
      const size_t m = std::min<size_t>( c[i].size(), 40 );
      if ( m )
      {
         __sym_make( &c[i][0], m, "beginning" );
         __sym_make( &c[i][c[i].size() - m], m, "end" );
      }
   }
   int16_t x[3];
   double y[3];
   __sym_make( x, sizeof x, "x" );
   __sym_make( y, sizeof y, "y" );
   Bits ex, ey, ec;
   for ( int i = 0; i < 3; i++ )
   {
      ex.put( (uint16_t)( x[i] + 32768 ), 16 );
      ey.put( bits64( &y[i], 8 ), 64 );
      ec.text( c[i] );
   }
   {
      Cv f;
      if ( first ) f.proto.set( "c", StringNode( f.imf ) );
      f.proto.set( "x", IntegerNode( f.imf, 0, -32768, 32767 ) );
      f.proto.set( "y", FloatNode( f.imf, 0. ) );
      if ( !first ) f.proto.set( "c", StringNode( f.imf ) );
      CompressedVectorNode cv = f.attach();
      std::vector<SourceDestBuffer> sb;
      sb.push_back( SourceDestBuffer( f.imf, "x", x, 3 ) );
      sb.push_back( SourceDestBuffer( f.imf, "c", &c ) );
      sb.push_back( SourceDestBuffer( f.imf, "y", y, 3 ) );
      CompressedVectorWriter w = cv.writer( sb );
      w.write( 3 );
      w.close();
      f.imf.close();
   }
   const Image f( "a.e57" );
   const Section s( f, "points", 3 );
   matches( ec, s.streams[first ? 0 : 2], true );
   matches( ex, s.streams[first ? 1 : 0], false );
   matches( ey, s.streams[first ? 2 : 1], true );
   sym_cover( "strings" );
}
// many fields share a packet
HARNESS( p22_fields )
{
   vf_opaque_numbers = 1;
   const unsigned fields = (unsigned)sym_param(), n = 60;
   std::vector<uint8_t> v( fields * n );
   __sym_make( v.data(), v.size(), "values" );
   {
      Cv f;
      std::vector<SourceDestBuffer> sb;
      std::vector<int8_t> none;
      for ( unsigned k = 0; k < fields; k++ )
      {
         const std::string name = "f" + std::to_string( k );
         f.proto.set( name, IntegerNode( f.imf, 0, 0, 255 ) );
         sb.push_back( SourceDestBuffer( f.imf, name, &v[k * n], n ) );
      }
      CompressedVectorNode cv = f.attach();
      CompressedVectorWriter w = cv.writer( sb );
      w.write( n );
      w.close();
      f.imf.close();
   }
   const Image f( "a.e57" );
   const Section s( f, "points", fields );
   for ( unsigned k = 0; k < fields; k++ )
   {
      Bits e;
      for ( unsigned i = 0; i < n; i++ ) e.put( v[k * n + i], 8 );
      matches( e, s.streams[k], false );
   }
   sym_cover( "fields" );
}
// blobs of any bytes beside a section
HARNESS( p22_blob )
{
   vf_opaque_numbers = 1;
   static const unsigned LEN[] = { 0, 1, 2, 3, 4, 5, 940, 956, 957, 1020, 2100 };
   const unsigned n = LEN[sym_choice( 11, "length" )];
   std::vector<uint8_t> b( n );
   if ( n ) __sym_make( b.data(), n, "bytes" );
   uint8_t x[2];
   __sym_make( x, 2, "x" );
   const bool before = sym_choice( 2, "before" );
   {
      Cv f;
      f.proto.set( "x", IntegerNode( f.imf, 0, 0, 255 ) );
      CompressedVectorNode cv = f.attach();
      if ( !before ) put( cv, "x", x, 2 );
      BlobNode d( f.imf, n );
      f.imf.root().set( "b", d );
      if ( before ) put( cv, "x", x, 2 );
      if ( n ) d.write( b.data(), 0, n );
      f.imf.close();
   }
   const Image f( "a.e57" );
   const Section s( f, "points", 1 );
   Bits e;
   e.put( x[0], 8 );
   e.put( x[1], 8 );
   matches( e, s.streams[0], false );
   const uint64_t at = f.place( "b" );
   const uint8_t *d = f.l.data() + at;
   sym_assert( at >= 48 && at % 4 == 0 && at + 16 + n <= f.end, "place of the blob" );
   const uint64_t length = le( d + 8, 8 );
   sym_assert( d[0] == 0 && length >= 16 + n && length < 16 + n + 4 && at + length <= f.end, "blob section" );
   for ( int i = 1; i < 8; i++ ) sym_assert( d[i] == 0, "reserved bytes of the blob" );
   sym_assert( at >= s.begin + s.length || s.begin >= at + length, "sections apart" );
   uint8_t diff = 0;
   for ( unsigned i = 0; i < n; i++ ) diff |= d[16 + i] ^ b[i];
   sym_assert( diff == 0, "blob bytes" );
   sym_cover( "blob" );
}
