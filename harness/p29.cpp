// P29: transfers take exactly the sets of buffers that fit the record, and a refused set changes nothing
#include "cv.h"
static const char *const NAME[] = { "i", "s/f", "t", "s", "nosuch", "s/nosuch" };
enum { LEAVES = 3, NAMES = 6, ROOM = 4 };
struct Memory
{
   int32_t i[ROOM];
   double f[ROOM];
   std::vector<std::string> t;
   Memory() : t( ROOM )
   {
      for ( int k = 0; k < ROOM; k++ )
      {
         i[k] = -1;
         f[k] = -1;
         t[k] = "o";
      }
   }
};
static void add( std::vector<SourceDestBuffer> &v, ImageFile &f, Memory &m, unsigned name, size_t capacity )
{
   switch ( name )
   {
   case 1: v.emplace_back( f, NAME[name], m.f, capacity, true ); break;
   case 2: v.emplace_back( f, NAME[name], &m.t ); break; // as many as there are strings
   default: v.emplace_back( f, NAME[name], m.i, capacity, true );
   }
}
static CompressedVectorNode records( ImageFile &f )
{
   StructureNode p( f ), s( f );
   p.set( "i", IntegerNode( f, 0, 0, 1000 ) );
   p.set( "s", s );
   s.set( "f", FloatNode( f, 0. ) );
   p.set( "t", StringNode( f, "" ) );
   CompressedVectorNode c( f, p, VectorNode( f, true ) );
   f.root().set( "c", c );
   return c;
}
static void anyRecord( Memory &m, int k )
{
   m.i[k] = sym_range<uint16_t>( 0, 1000, "whole" );
   m.f[k] = (double)sym<int16_t>( "number" );
   m.t[k] = std::string( 1, (char)sym_range<uint8_t>( 'a', 'z', "letter" ) );
}
static bool sameRecord( const Memory &a, int j, const Memory &b, int k )
{
   return ( a.i[j] == b.i[k] ) & ( a.f[j] == b.f[k] ) & ( a.t[j].size() == b.t[k].size() && a.t[j][0] == b.t[k][0] );
}
static void fits( std::vector<SourceDestBuffer> &v, ImageFile &f, Memory &m )
{
   for ( unsigned k = 0; k < LEAVES; k++ ) add( v, f, m, k, ROOM );
}
// what may be said about a list of buffers
struct Verdict
{
   bool mismatch = false, twice = false, undefined = false, missing = false, inner = false, empty = false;
   bool good() const { return !( mismatch | twice | undefined | missing | inner | empty ); }
   bool allows( int e ) const
   {
      if ( good() ) return e == Success;
      return ( mismatch & ( e == ErrorBufferSizeMismatch ) ) | ( twice & ( e == ErrorBufferDuplicatePathName ) ) | ( undefined & ( e == ErrorPathUndefined ) ) | ( missing & ( e == ErrorNoBufferForElement ) ) |
             ( empty & ( e == ErrorBadAPIArgument ) ) | ( inner & ( e != Success ) );
   }
};
static Verdict anyList( std::vector<SourceDestBuffer> &v, ImageFile &f, Memory &m, unsigned n, bool writing, bool *named )
{
   Verdict r;
   r.empty = n == 0;
   unsigned count[NAMES] = { 0 };
   size_t first = 0;
   for ( unsigned k = 0; k < n; k++ )
   {
      const unsigned name = sym_choice( NAMES, "name" );
      // the first and the last capacity may differ
      size_t capacity = ROOM;
      if ( name != 2 && ( k == 0 || k + 1 == n ) ) capacity = sym_range<uint8_t>( 1, ROOM, "capacity" );
      add( v, f, m, name, capacity );
      if ( k == 0 ) first = capacity;
      r.mismatch |= capacity != first;
      r.twice |= ++count[name] > 1;
      r.undefined |= name > 3;
      r.inner |= name == 3;
   }
   for ( unsigned k = 0; k < LEAVES; k++ )
   {
      named[k] = count[k] > 0;
      if ( writing ) r.missing |= !named[k];
   }
   return r;
}
// the buffers a writer is opened with; param = number of buffers
HARNESS( p29_writer )
{
   vf_opaque_numbers = 2;
   Memory in;
   anyRecord( in, 0 );
   ImageFile f( "a.e57", "w" );
   CompressedVectorNode c = records( f );
   bool named[LEAVES];
   std::vector<SourceDestBuffer> v;
   const Verdict good = anyList( v, f, in, (unsigned)sym_param(), true, named );
   const int e = errorOf( [&] {
      CompressedVectorWriter w = c.writer( v );
      w.write( 1 );
      w.close();
   } );
   sym_assert( good.allows( e ), "writer taken or refused" );
   sym_assert( f.writerCount() == 0 && f.readerCount() == 0 && c.childCount() == ( e == Success ), "nothing left of a refused writer" );
   if ( e != Success )
   {
      // another one can be opened
      std::vector<SourceDestBuffer> u;
      fits( u, f, in );
      const int again = errorOf( [&] {
         CompressedVectorWriter w = c.writer( u );
         w.write( 1 );
         w.close();
      } );
      sym_assert( again == Success, "a refused writer is no obstacle" );
   }
   Memory out;
   std::vector<SourceDestBuffer> u;
   fits( u, f, out );
   unsigned n = 0;
   const int back = errorOf( [&] {
      CompressedVectorReader r = c.reader( u );
      n = r.read();
      r.close();
   } );
   sym_assert( back == Success && n == 1 && sameRecord( in, 0, out, 0 ), "record written" );
   sym_observe( "error", e );
   sym_cover( e == Success ? "writer taken" : "writer refused" );
   f.cancel();
}
// the buffers a reader is opened with; param = number of buffers
HARNESS( p29_reader )
{
   vf_opaque_numbers = 2;
   Memory in, out;
   anyRecord( in, 0 );
   ImageFile f( "a.e57", "w" );
   CompressedVectorNode c = records( f );
   std::vector<SourceDestBuffer> u;
   fits( u, f, in );
   CompressedVectorWriter w = c.writer( u );
   w.write( 1 );
   w.close();
   bool named[LEAVES];
   std::vector<SourceDestBuffer> v;
   const Verdict good = anyList( v, f, out, (unsigned)sym_param(), false, named );
   unsigned n = 0;
   const int e = errorOf( [&] {
      CompressedVectorReader r = c.reader( v );
      n = r.read();
      r.close();
   } );
   sym_assert( good.allows( e ), "reader taken or refused" );
   sym_assert( f.writerCount() == 0 && f.readerCount() == 0, "nothing left of a refused reader" );
   // exactly the named fields arrive
   Memory want;
   if ( e == Success )
   {
      sym_assert( n == 1, "one record" );
      if ( named[0] ) want.i[0] = in.i[0];
      if ( named[1] ) want.f[0] = in.f[0];
      if ( named[2] ) want.t[0] = in.t[0];
   }
   bool same = true;
   for ( int k = 0; k < ROOM; k++ ) same &= sameRecord( want, k, out, k );
   sym_assert( same, "nothing but the named fields is filled" );
   if ( e != Success )
   {
      std::vector<SourceDestBuffer> x;
      fits( x, f, out );
      const int again = errorOf( [&] {
         CompressedVectorReader r = c.reader( x );
         n = r.read();
         r.close();
      } );
      sym_assert( again == Success && n == 1 && sameRecord( in, 0, out, 0 ), "a refused reader is no obstacle" );
   }
   sym_observe( "error", e );
   sym_cover( e == Success ? "reader taken" : "reader refused" );
   f.cancel();
}
// buffers given later: the same but for the address, or different in one respect
enum { FRESH, FEWER, MORE, ORDER, TYPE, CONVERSION, STRIDE, OTHER_NAME, DOUBLE_NAME, KINDS };
struct Wide
{
   double f[2 * ROOM];
   int16_t i[ROOM];
};
static void changed( std::vector<SourceDestBuffer> &v, ImageFile &f, Memory &m, Wide &x, unsigned kind )
{
   if ( kind == ORDER )
   {
      add( v, f, m, 1, ROOM );
      add( v, f, m, 0, ROOM );
   }
   else
   {
      if ( kind == TYPE ) v.emplace_back( f, "i", x.i, (size_t)ROOM, true );
      else if ( kind == CONVERSION ) v.emplace_back( f, "i", m.i, (size_t)ROOM, false );
      else if ( kind == OTHER_NAME ) v.emplace_back( f, "nosuch", m.i, (size_t)ROOM, true );
      else add( v, f, m, 0, ROOM );
      if ( kind == STRIDE ) v.emplace_back( f, "s/f", x.f, (size_t)ROOM, true, false, 2 * sizeof( double ) );
      else if ( kind == DOUBLE_NAME ) add( v, f, m, 0, ROOM );
      else add( v, f, m, 1, ROOM );
   }
   if ( kind != FEWER ) add( v, f, m, 2, ROOM );
   if ( kind == MORE ) v.emplace_back( f, "t", &m.t );
}
// a set that differs must be refused; which error comes first is open when several apply
static bool refusal( unsigned kind, int e )
{
   return ( e == ErrorBuffersNotCompatible ) | ( ( kind == OTHER_NAME ) & ( ( e == ErrorPathUndefined ) | ( e == ErrorNoBufferForElement ) ) ) |
          ( ( kind == DOUBLE_NAME ) & ( ( e == ErrorBufferDuplicatePathName ) | ( e == ErrorNoBufferForElement ) ) ) | ( ( kind == MORE ) & ( e == ErrorBufferDuplicatePathName ) ) |
          ( ( kind == FEWER ) & ( e == ErrorNoBufferForElement ) );
}
HARNESS( p29_later_write )
{
   vf_opaque_numbers = 2;
   const unsigned kind = sym_choice( KINDS, "kind" );
   const size_t count = sym_range<uint8_t>( 0, 255, "count" );
   Memory a, b, out;
   for ( int k = 0; k < ROOM; k++ )
   {
      anyRecord( a, k );
      anyRecord( b, k );
   }
   Wide x;
   memset( &x, 0, sizeof x );
   ImageFile f( "a.e57", "w" );
   CompressedVectorNode c = records( f );
   std::vector<SourceDestBuffer> u, v;
   fits( u, f, a );
   changed( v, f, b, x, kind );
   CompressedVectorWriter w = c.writer( u );
   w.write( 1 );
   const int e = errorOf( [&] { w.write( v, 1 ); } );
   if ( kind == FRESH ) sym_assert( e == Success, "new memory taken" );
   else sym_assert( refusal( kind, e ), "a different set refused" );
   sym_assert( w.isOpen() && f.writerCount() == 1, "still open" );
   // more than the buffers hold is refused, and changes nothing either
   const int many = errorOf( [&] { w.write( count ); } );
   sym_assert( many == ( count > ROOM ? ErrorBadAPIArgument : Success ), "count against capacity" );
   const size_t extra = many == Success ? count : 0;
   w.close();
   const Memory &last = kind == FRESH ? b : a;
   const size_t at = 1 + ( kind == FRESH );
   sym_assert( c.childCount() == (int64_t)( at + extra ), "records counted" );
   std::vector<SourceDestBuffer> back;
   fits( back, f, out );
   CompressedVectorReader r = c.reader( back );
   const unsigned n = r.read();
   sym_assert( n == ( at + extra < ROOM ? at + extra : ROOM ), "records read" );
   r.close();
   sym_assert( sameRecord( a, 0, out, 0 ), "first record" );
   if ( kind == FRESH ) sym_assert( sameRecord( b, 0, out, 1 ), "record of the new memory" );
   bool same = true;
   for ( unsigned k = 0; at + k < n; k++ ) same &= sameRecord( last, (int)k, out, (int)( at + k ) );
   sym_assert( same, "later records come from the memory last accepted" );
   sym_observe( "error", e );
   sym_cover( kind == FRESH ? "new memory" : "different set" );
   f.cancel();
}
HARNESS( p29_later_read )
{
   vf_opaque_numbers = 2;
   const unsigned kind = sym_choice( KINDS, "kind" );
   const unsigned refused = kind == FRESH ? 0 : 1 + sym_choice( 2, "times" );
   Memory in, a, b;
   const Memory untouched;
   for ( int k = 0; k < ROOM; k++ ) anyRecord( in, k );
   Wide x;
   memset( &x, 0, sizeof x );
   ImageFile f( "a.e57", "w" );
   CompressedVectorNode c = records( f );
   std::vector<SourceDestBuffer> u, v, y;
   fits( u, f, in );
   CompressedVectorWriter w = c.writer( u );
   w.write( ROOM );
   w.write( ROOM );
   w.close();
   fits( y, f, a );
   changed( v, f, b, x, kind );
   CompressedVectorReader r = c.reader( y );
   sym_assert( r.read() == ROOM, "first block" );
   bool same = true;
   for ( int k = 0; k < ROOM; k++ ) same &= sameRecord( in, k, a, k );
   sym_assert( same, "first block" );
   unsigned n = 0;
   if ( kind == FRESH )
   {
      sym_assert( errorOf( [&] { n = r.read( v ); } ) == Success && n == ROOM, "new memory taken" );
      for ( int k = 0; k < ROOM; k++ ) same &= sameRecord( in, k, b, k );
   }
   else
   {
      for ( unsigned k = 0; k < refused; k++ ) sym_assert( refusal( kind, errorOf( [&] { n = r.read( v ); } ) ), "a different set refused" );
      sym_assert( r.isOpen() && f.readerCount() == 1, "still open" );
      for ( int k = 0; k < ROOM; k++ ) same &= sameRecord( untouched, k, b, k );
      for ( int k = 0; k < ROOM; k++ ) a.i[k] = -1;
      sym_assert( errorOf( [&] { n = r.read(); } ) == Success && n == ROOM, "the old memory is still good" );
      for ( int k = 0; k < ROOM; k++ ) same &= sameRecord( in, k, a, k );
   }
   sym_assert( same, "second block" );
   sym_assert( r.read() == 0, "end" );
   r.close();
   sym_observe( "n", n );
   sym_cover( kind == FRESH ? "new memory" : "different set" );
   f.cancel();
}
