// P27: the public consistency check finds nothing wrong in anything built through the interface
#include "p16.cpp"
#include "p21.cpp"
#include <cfloat>
template <class T> static void consistent( T &x, const char *what )
{
   // an inconsistency is reported by raising an error
   sym_assert( errorOf( [&] { x.checkInvariant(); } ) == Success, what );
}
static void consistentTree( Tree &t )
{
   consistent( t.imf, "file" );
   consistent( t.other, "other file" );
   for ( Node &n : t.node )
   {
      consistent( n, "element" );
      // each kind has a check of its own
      if ( n.type() == TypeStructure )
      {
         StructureNode s( n );
         consistent( s, "structure" );
      }
      else if ( n.type() == TypeVector )
      {
         VectorNode v( n );
         consistent( v, "vector" );
      }
      else
      {
         IntegerNode i( n );
         consistent( i, "integer" );
      }
   }
}
// trees under any calls, accepted or refused; param as p16_tree
HARNESS( p27_tree )
{
   vf_opaque_numbers = 1;
   Tree t;
   prefix( t, sym_param() % 100 );
   consistentTree( t );
   for ( unsigned k = sym_param() / 100; k > 0; k-- )
      if ( !t.step( true ) ) return;
   if ( !t.step( false ) ) return;
   consistentTree( t );
   // nothing is changed by looking
   t.check();
   if ( sym_choice( 2, "close" ) ) t.imf.close();
   else t.imf.cancel();
   consistentTree( t );
   sym_cover( "tree" );
}
// transfers under any calls; param as p21_seq
static void consistentSession( Session &s )
{
   consistent( s.imf, "file" );
   consistent( s.a, "compressed vector" );
   consistent( s.b, "compressed vector" );
   if ( s.w ) consistent( *s.w, "writer" );
   if ( s.r ) consistent( *s.r, "reader" );
}
HARNESS( p27_transfer )
{
   vf_opaque_numbers = 1;
   static const unsigned PRE[][4] = { { 99 }, { 0, 99 }, { 0, 2, 4, 99 }, { 0, 4, 1, 99 } };
   Session s;
   consistentSession( s );
   for ( unsigned i = 0; PRE[sym_param() / 10][i] != 99; i++ ) s.step( PRE[sym_param() / 10][i] );
   for ( unsigned n = sym_param() % 10; n > 0; n-- )
   {
      s.step( sym_choice( 15, "op" ) );
      consistentSession( s );
   }
   sym_cover( "transfers" );
}
static double finite( const char *what )
{
   const double d = number( what );
   sym_assume( ( d >= -DBL_MAX ) & ( d <= DBL_MAX ) );
   return d;
}
// elements of every kind with any values; param = kind
HARNESS( p27_values )
{
   vf_opaque_numbers = 4;
   ImageFile f( "a.e57", "w" );
   consistent( f, "empty file" );
   int e = Success;
   std::unique_ptr<Node> n;
   const auto keep = [&]( const Node &x ) { n.reset( new Node( x ) ); };
   switch ( sym_param() )
   {
   case INTEGER:
   {
      const int64_t v = sym<int64_t>( "value" ), a = sym<int64_t>( "minimum" ), b = sym<int64_t>( "maximum" );
      e = errorOf( [&] {
         IntegerNode k( f, v, a, b );
         keep( k );
         consistent( k, "integer" );
      } );
      break;
   }
   case SCALED:
   {
      const int64_t v = sym<int64_t>( "value" ), a = sym<int64_t>( "minimum" ), b = sym<int64_t>( "maximum" );
      const double s = finite( "scale" );
      const double o = finite( "offset" );
      sym_assume( s != 0 );
      e = errorOf( [&] {
         ScaledIntegerNode k( f, v, a, b, s, o );
         keep( k );
         consistent( k, "scaled integer" );
      } );
      break;
   }
   case SINGLE:
   case DOUBLE:
   {
      const double v = number( "value" );
      const double a = number( "minimum" );
      const double b = number( "maximum" );
      e = errorOf( [&] {
         FloatNode k( f, v, sym_param() == SINGLE ? PrecisionSingle : PrecisionDouble, a, b );
         keep( k );
         consistent( k, "float" );
      } );
      break;
   }
   case STRING:
   {
      char c[3];
      __sym_make( c, 3, "text" );
      StringNode k( f, std::string( c, sym_choice( 4, "length" ) ) );
      keep( k );
      consistent( k, "string" );
      break;
   }
   case BLOB:
   {
      BlobNode k( f, (int64_t)sym_choice( 5, "length" ) );
      keep( k );
      consistent( k, "blob" );
      break;
   }
   default:
   {
      StructureNode p( f );
      p.set( "x", IntegerNode( f, 0, 0, 9 ) );
      VectorNode in( f, true );
      in.append( FloatNode( f ) );
      p.set( "v", in );
      VectorNode c( f, true );
      CompressedVectorNode k( f, p, c );
      keep( k );
      consistent( k, "compressed vector" );
      consistent( p, "prototype" );
      consistent( in, "part of a prototype" );
      consistent( c, "codecs" );
   }
   }
   if ( e != Success )
   {
      consistent( f, "file after a refusal" );
      sym_cover( "refused" );
      return;
   }
   consistent( *n, "loose element" );
   const unsigned at = sym_choice( 3, "place" );
   StructureNode s( f );
   VectorNode v( f, true );
   if ( at == 0 ) f.root().set( "k", *n );
   if ( at == 1 ) s.set( "k", *n );
   if ( at == 2 ) v.append( *n );
   consistent( *n, "placed element" );
   consistent( s, "structure" );
   consistent( v, "vector" );
   f.root().set( "s", s );
   f.root().set( "v", v );
   consistent( *n, "attached element" );
   consistent( f, "file" );
   f.close();
   consistent( *n, "element of a closed file" );
   consistent( s, "structure of a closed file" );
   consistent( v, "vector of a closed file" );
   consistent( f, "closed file" );
   sym_cover( "accepted" );
}
// declarations of extensions, accepted or refused
HARNESS( p27_extensions )
{
   vf_opaque_numbers = 1;
   ImageFile f( "a.e57", "w" );
   for ( unsigned i = 0; i < 3; i++ )
   {
      std::string p( 2, ' ' ), u( 2, ' ' );
      __sym_make( &p[0], 2, "prefix" );
      __sym_make( &u[0], 2, "uri" );
      errorOf( [&] { f.extensionsAdd( p, u ); } );
      consistent( f, "file" );
   }
   sym_cover( "extensions" );
}
template <class T> static void buffers( ImageFile &f, const char *what )
{
   T b[3] = {};
   const size_t stride = sizeof( T ) + sym_choice( 9, "gap" );
   SourceDestBuffer d( f, "x", b, 3, sym_choice( 2, "convert" ), false, stride ), c( d );
   consistent( d, what );
   consistent( c, what );
   sym_assert( d.stride() == stride && d.capacity() == 3, what );
}
HARNESS( p27_buffer )
{
   vf_opaque_numbers = 1;
   ImageFile f( "a.e57", "w" );
   const unsigned kind = sym_choice( 11, "representation" );
   switch ( kind )
   {
   case 0: buffers<int8_t>( f, "int8" ); break;
   case 1: buffers<uint8_t>( f, "uint8" ); break;
   case 2: buffers<int16_t>( f, "int16" ); break;
   case 3: buffers<uint16_t>( f, "uint16" ); break;
   case 4: buffers<int32_t>( f, "int32" ); break;
   case 5: buffers<uint32_t>( f, "uint32" ); break;
   case 6: buffers<int64_t>( f, "int64" ); break;
   case 7: buffers<bool>( f, "bool" ); break;
   case 8: buffers<float>( f, "float" ); break;
   case 9: buffers<double>( f, "double" ); break;
   case 10:
   {
      std::vector<ustring> s( 2 );
      SourceDestBuffer d( f, "x", &s );
      consistent( d, "strings" );
   }
   }
   sym_cover( "buffer" );
}
