// P07: several fields per record
#include "cv.h"
// One record of every field kind
enum { A, B, C, D, E, F, G, H, NF };
static const char *PATH[NF] = { "a", "b", "c", "pose/d", "e", "pose/f", "v/0", "v/1" };
struct Columns
{
   std::vector<uint8_t> a;   // 3-bit integer
   std::vector<float> b;     // single
   std::vector<ustring> c;   // string
   std::vector<double> d;    // double
   std::vector<int64_t> e;   // full integer
   std::vector<int32_t> f;   // constant 7
   std::vector<int16_t> g;   // scaled, raw 12 bits
   std::vector<uint16_t> h;  // scaled, raw 16 bits
   explicit Columns( size_t n ) : a( n, 0xAA ), b( n, -1.f ), c( n, "before" ), d( n, -1. ), e( n, -77 ), f( n, -77 ), g( n, -77 ), h( n, 0xAAAA ) {}
   SourceDestBuffer buffer( ImageFile imf, int k )
   {
      switch ( k )
      {
         case A: return SourceDestBuffer( imf, PATH[k], a.data(), a.size() );
         case B: return SourceDestBuffer( imf, PATH[k], b.data(), b.size() );
         case C: return SourceDestBuffer( imf, PATH[k], &c );
         case D: return SourceDestBuffer( imf, PATH[k], d.data(), d.size() );
         case E: return SourceDestBuffer( imf, PATH[k], e.data(), e.size() );
         case F: return SourceDestBuffer( imf, PATH[k], f.data(), f.size() );
         case G: return SourceDestBuffer( imf, PATH[k], g.data(), g.size() );
         default: return SourceDestBuffer( imf, PATH[k], h.data(), h.size() );
      }
   }
   void fill( size_t strLen )
   {
      size_t n = a.size();
      __sym_make( a.data(), n, "a" );
      for ( auto &x : a ) x &= 7;
      __sym_make( b.data(), n * 4, "b" );
      for ( size_t i = 0; i < n; i++ )
      {
         c[i] = ustring( ( strLen * 7 + i * 3 ) % ( strLen + 1 ), 'x' );
         if ( c[i].size() ) __sym_make( &c[i][0], c[i].size(), "c" );
      }
      __sym_make( d.data(), n * 8, "d" );
      __sym_make( e.data(), n * 8, "e" );
      for ( auto &x : f ) x = 7;
      __sym_make( g.data(), n * 2, "g" );
      for ( auto &x : g ) x &= 0xfff;
      __sym_make( h.data(), n * 2, "h" );
   }
   // copy n records of column k
   void copy( int k, size_t to, const Columns &o, size_t from, size_t n )
   {
      for ( size_t i = 0; i < n; i++ ) switch ( k )
         {
            case A: a[to + i] = o.a[from + i]; break;
            case B: memcpy( &b[to + i], &o.b[from + i], 4 ); break;
            case C: c[to + i] = o.c[from + i]; break;
            case D: memcpy( &d[to + i], &o.d[from + i], 8 ); break;
            case E: e[to + i] = o.e[from + i]; break;
            case F: f[to + i] = o.f[from + i]; break;
            case G: g[to + i] = o.g[from + i]; break;
            case H: h[to + i] = o.h[from + i]; break;
         }
   }
   bool same( int k, size_t i, const Columns &o, size_t j ) const
   {
      switch ( k )
      {
         case A: return a[i] == o.a[j];
         case B: return memcmp( &b[i], &o.b[j], 4 ) == 0;
         case C: return c[i].size() == o.c[j].size() && memcmp( c[i].data(), o.c[j].data(), c[i].size() ) == 0;
         case D: return memcmp( &d[i], &o.d[j], 8 ) == 0;
         case E: return e[i] == o.e[j];
         case F: return f[i] == o.f[j];
         case G: return g[i] == o.g[j];
         default: return h[i] == o.h[j];
      }
   }
};
static CompressedVectorNode vector( Cv &f, const char *name = "points" )
{
   ImageFile imf = f.imf;
   StructureNode p( imf );
   p.set( "a", IntegerNode( imf, 0, 0, 7 ) );
   p.set( "b", FloatNode( imf, 0, PrecisionSingle ) );
   p.set( "c", StringNode( imf ) );
   StructureNode pose( imf );
   p.set( "pose", pose );
   pose.set( "d", FloatNode( imf, 0, PrecisionDouble ) );
   p.set( "e", IntegerNode( imf, 0, INT64_MIN, INT64_MAX ) );
   pose.set( "f", IntegerNode( imf, 7, 7, 7 ) );
   VectorNode v( imf, true );
   p.set( "v", v );
   v.append( ScaledIntegerNode( imf, 0, 0, 4095, 0.5, 1.0 ) );
   v.append( ScaledIntegerNode( imf, 0, 0, 65535, 0.25, 0.0 ) );
   CompressedVectorNode cv( imf, p, VectorNode( imf, true ) );
   imf.root().set( name, cv );
   return cv;
}
static int order( int mode, int i ) // permutations of the fields
{
   switch ( mode )
   {
      case 0: return i;
      case 1: return NF - 1 - i;
      default: return ( i * 3 + mode ) % NF;
   }
}
static void writeAll( CompressedVectorNode cv, const Columns &val, size_t cap, int mode )
{
   Columns buf( cap );
   ImageFile imf = cv.destImageFile();
   std::vector<SourceDestBuffer> sb;
   for ( int i = 0; i < NF; i++ ) sb.push_back( buf.buffer( imf, order( mode, i ) ) );
   CompressedVectorWriter w = cv.writer( sb );
   for ( size_t i = 0; i < val.a.size(); i += cap )
   {
      size_t n = std::min( cap, val.a.size() - i );
      for ( int k = 0; k < NF; k++ ) buf.copy( k, 0, val, i, n );
      w.write( n );
   }
   w.close();
}
static void readSome( CompressedVectorNode cv, const Columns &val, size_t cap, int mode, unsigned mask )
{
   Columns buf( cap );
   const Columns before( 1 );
   ImageFile imf = cv.destImageFile();
   std::vector<SourceDestBuffer> db;
   for ( int i = 0; i < NF; i++ )
      if ( mask >> order( mode, i ) & 1 ) db.push_back( buf.buffer( imf, order( mode, i ) ) );
   CompressedVectorReader r = cv.reader( db );
   size_t got = 0;
   while ( unsigned n = r.read() )
   {
      sym_assert( n <= cap && got + n <= val.a.size(), "read count" );
      for ( int k = 0; k < NF; k++ )
         for ( unsigned j = 0; j < n; j++ )
         {
            if ( mask >> k & 1 ) sym_assert( buf.same( k, j, val, got + j ), "value belongs to its record and field" );
            else sym_assert( buf.same( k, j, before, 0 ), "field not asked for" );
         }
      got += n;
   }
   sym_assert( got == val.a.size(), "all records" );
   sym_assert( r.read() == 0, "nothing after the end" );
   r.close();
}
// any subset, 3 records.  param = write order * 9 + (write block - 1) * 3 + (read block - 1)
HARNESS( p07_subset )
{
   vf_opaque_numbers = 1;
   unsigned p = (unsigned)sym_param();
   Cv f;
   CompressedVectorNode cv = vector( f );
   Columns val( 3 );
   val.fill( 4 );
   writeAll( cv, val, 1 + p / 3 % 3, (int)( p / 9 ) );
   unsigned mask = sym<uint8_t>( "mask" );
   sym_assume( mask != 0 );
   mask = (unsigned)__sym_concrete( mask );
   readSome( cv, val, 1 + p % 3, (int)( p / 9 + 1 ) % 4, mask );
   sym_cover( "subset" );
}
// enough records for several packets, streams of very different density
HARNESS( p07_packets )
{
   vf_opaque_numbers = 1;
   static const unsigned MASK[] = { 0xff, 0x01, 0x08, 0x04, 0x12, 0x41, 0x8c, 0x21 };
   unsigned p = (unsigned)sym_param();
   Cv f;
   CompressedVectorNode cv = vector( f );
   Columns val( 5000 );
   val.fill( 9 );
   writeAll( cv, val, p & 1 ? 5000 : 333, (int)( p % 3 ) );
   readSome( cv, val, p & 2 ? 5000 : p & 1 ? 1111 : 97, (int)( p % 4 ), MASK[p % 8] );
   sym_cover( "packets" );
}
// zero records
HARNESS( p07_none )
{
   vf_opaque_numbers = 1;
   Cv f;
   CompressedVectorNode cv = vector( f ), cv2 = vector( f, "more" );
   Columns none( 0 ), buf( 2 ), val( 2 );
   val.fill( 3 );
   ImageFile imf = f.imf;
   std::vector<SourceDestBuffer> sb;
   for ( int i = 0; i < NF; i++ ) sb.push_back( buf.buffer( imf, i ) );
   CompressedVectorWriter w = cv.writer( sb );
   if ( sym_choice( 2, "zero" ) ) w.write( 0 );
   w.close();
   sym_assert( cv.childCount() == 0, "no records" );
   unsigned mask = sym<uint8_t>( "mask" );
   sym_assume( mask != 0 );
   mask = (unsigned)__sym_concrete( mask );
   readSome( cv, none, 2, 0, mask );
   writeAll( cv2, val, 2, 0 );
   readSome( cv2, val, 2, 0, mask );
   readSome( cv, none, 1, 0, mask );
   sym_cover( "none" );
}
// new buffers given between calls
HARNESS( p07_newbuf )
{
   vf_opaque_numbers = 1;
   int mode = (int)sym_param();
   Cv f;
   CompressedVectorNode cv = vector( f );
   ImageFile imf = f.imf;
   Columns val( 4 ), x( 2 ), y( 2 );
   const Columns before( 2 );
   val.fill( 3 );
   {
      Columns x( 2 ), y( 2 );
      std::vector<SourceDestBuffer> sx, sy;
      for ( int i = 0; i < NF; i++ ) sx.push_back( x.buffer( imf, order( mode, i ) ) ), sy.push_back( y.buffer( imf, order( mode, i ) ) );
      for ( int k = 0; k < NF; k++ ) x.copy( k, 0, val, 0, 2 ), y.copy( k, 0, val, 2, 2 );
      CompressedVectorWriter w = cv.writer( sx );
      w.write( 2 );
      w.write( sy, 2 );
      w.close();
   }
   readSome( cv, val, 4, 0, 0xff );
   std::vector<SourceDestBuffer> dx, dy;
   for ( int i = 0; i < NF; i++ ) dx.push_back( x.buffer( imf, order( mode, i ) ) ), dy.push_back( y.buffer( imf, order( mode, i ) ) );
   CompressedVectorReader r = cv.reader( dx );
   sym_assert( r.read() == 2, "first block" );
   for ( int k = 0; k < NF; k++ ) sym_assert( x.same( k, 0, val, 0 ) && x.same( k, 1, val, 1 ) && y.same( k, 0, before, 0 ), "first block" );
   sym_assert( r.read( dy ) == 2, "second block" );
   for ( int k = 0; k < NF; k++ )
   {
      sym_assert( y.same( k, 0, val, 2 ) && y.same( k, 1, val, 3 ), "second block in the new buffers" );
      sym_assert( x.same( k, 0, val, 0 ) && x.same( k, 1, val, 1 ), "old buffers left alone" );
   }
   sym_assert( r.read( dx ) == 0, "end" );
   sym_cover( "newbuf" );
}
// two vectors written one after the other, read in any order
HARNESS( p07_two )
{
   vf_opaque_numbers = 1;
   Cv f;
   CompressedVectorNode cv[2] = { vector( f, "one" ), vector( f, "two" ) };
   Columns val[2] = { Columns( 3 ), Columns( 2 ) };
   for ( int i = 0; i < 2; i++ )
   {
      val[i].fill( 3 );
      writeAll( cv[i], val[i], 3, i );
   }
   for ( int step = 0; step < 3; step++ )
   {
      int i = sym_choice( 2, "which" );
      readSome( cv[i], val[i], 1 + sym_choice( 2, "block" ), i, 0xff );
   }
   sym_cover( "two" );
}
