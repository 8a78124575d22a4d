// P27: the public consistency check on trees that are written out and read back
#include "p20.cpp"
template <class T> static void consistent( T &x, const char *what )
{
   __sym_assert( errorOf( [&] { x.checkInvariant(); } ) == Success, what );
}
static void consistentBelow( const Node &top )
{
   Node n = top;
   consistent( n, "element" );
   if ( n.type() == TypeStructure )
   {
      StructureNode s( n );
      for ( int64_t i = 0; i < s.childCount(); i++ ) consistentBelow( s.get( i ) );
   }
   if ( n.type() == TypeVector )
   {
      VectorNode v( n );
      for ( int64_t i = 0; i < v.childCount(); i++ ) consistentBelow( v.get( i ) );
   }
   if ( n.type() == TypeCompressedVector )
   {
      CompressedVectorNode c( n );
      consistentBelow( c.prototype() );
      consistentBelow( c.codecs() );
   }
}
// param as p20_tree
HARNESS( p27_reopen )
{
   vf_opaque_numbers = 4;
   {
      Build b;
      b.f.extensionsAdd( "x", "http://example.org/x" );
      StructureNode root = b.f.root();
      b.child( root, 0, __sym_param() % 10, true );
      b.child( root, 1, (unsigned)( __sym_param() / 10 ), false );
      consistent( b.f, "file being written" );
      consistentBelow( root );
      b.f.close();
      consistent( b.f, "closed file" );
      consistent( root, "root of a closed file" );
   }
   ImageFile f( "a.e57", "r" );
   consistent( f, "file being read" );
   StructureNode root = f.root();
   consistentBelow( root );
   f.close();
   consistent( f, "closed file" );
   consistent( root, "root of a closed file" );
   __sym_cover( "reopened" );
}
