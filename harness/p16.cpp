// P16: construction rules of the element tree
#include "cv.h"
#include <memory>
enum { ROOT, S1, S2, HOMO, HETERO, I1, I2, I3, OTHER, NODES };
// reference tree
struct Ref
{
   int parent = -1;
   std::string name;
   std::vector<int> kids;
};
struct Tree
{
   ImageFile imf, other;
   std::vector<Node> node;
   Ref m[NODES];
   int max;
   Tree() : imf( "a.e57", "w" ), other( "b.e57", "w" )
   {
      node.push_back( imf.root() );
      node.push_back( StructureNode( imf ) );
      node.push_back( StructureNode( imf ) );
      node.push_back( VectorNode( imf, false ) );
      node.push_back( VectorNode( imf, true ) );
      node.push_back( IntegerNode( imf, 1, 0, 10 ) );
      node.push_back( IntegerNode( imf, 1, 0, max = sym_range<uint8_t>( 1, 20, "maximum" ) ) );
      node.push_back( IntegerNode( imf, 2, 0, 10 ) );
      node.push_back( IntegerNode( other, 1, 0, 10 ) );
   }
   static bool vec( int n ) { return n == HOMO || n == HETERO; }
   static bool container( int n ) { return n <= HETERO; }
   int top( int n ) const
   {
      while ( m[n].parent >= 0 ) n = m[n].parent;
      return n;
   }
   std::string path( int n ) const
   {
      if ( m[n].parent < 0 ) return "/";
      std::string p = path( m[n].parent );
      if ( p != "/" ) p += "/";
      return p + m[n].name;
   }
   int child( int n, const std::string &name ) const
   {
      for ( int k : m[n].kids )
         if ( m[k].name == name ) return k;
      return -1;
   }
   bool alike( int a, int b ) const
   {
      if ( a == b ) return true;
      if ( a >= I1 && b >= I1 ) return ( a == I2 ) == ( b == I2 ) || max == 10;
      if ( ( a == S1 && b == S2 ) || ( a == S2 && b == S1 ) )
      {
         if ( m[a].kids.size() != m[b].kids.size() ) return false;
         for ( int k : m[a].kids )
         {
            int o = child( b, m[k].name );
            if ( o < 0 || !alike( k, o ) ) return false;
         }
         return true;
      }
      return false;
   }
   // may child c be added to node n?
   bool allowed( int n, int c ) const
   {
      if ( m[c].parent >= 0 || c == ROOT || c == OTHER || top( n ) == c ) return false;
      for ( int p = m[n].parent; p >= 0; p = m[p].parent )
         if ( p == HOMO && m[p].kids.size() > 1 ) return false;
      if ( n == HOMO )
         for ( int k : m[n].kids )
            if ( !alike( k, c ) ) return false;
      return true;
   }
   void link( int n, int c, const std::string &name )
   {
      m[c].parent = n;
      m[c].name = name;
      m[n].kids.push_back( c );
   }
   static std::string digit( size_t k ) { return std::string( 1, (char)( '0' + k ) ); }
   bool append( int n, int c, bool onlyAccepted )
   {
      const bool ok = allowed( n, c );
      if ( onlyAccepted && !ok ) return false;
      int e = errorOf( [&] { VectorNode( node[n] ).append( node[c] ); } );
      sym_assert( ( e == Success ) == ok, "append accepted" );
      if ( ok ) link( n, c, digit( m[n].kids.size() ) );
      else sym_cover( "append refused" );
      return true;
   }
   bool set( int n, const char *p, int c, bool onlyAccepted )
   {
      // reference: walk down, then add
      int at = n;
      const char *q = p;
      if ( *q == '/' )
      {
         at = top( n );
         q++;
      }
      bool ok = true;
      std::string last;
      for ( ;; )
      {
         const char *s = strchr( q, '/' );
         last = s ? std::string( q, s ) : std::string( q );
         if ( !s ) break;
         at = child( at, last );
         if ( at < 0 || !container( at ) )
         {
            ok = false;
            break;
         }
         q = s + 1;
      }
      if ( ok )
      {
         if ( child( at, last ) >= 0 ) ok = false;
         else if ( vec( at ) && last != digit( m[at].kids.size() ) ) ok = false;
         else ok = allowed( at, c );
      }
      if ( onlyAccepted && !ok ) return false;
      int e = errorOf( [&] { StructureNode( node[n] ).set( p, node[c] ); } );
      sym_assert( ( e == Success ) == ok, "set accepted" );
      if ( ok ) link( at, c, last );
      else sym_cover( "set refused" );
      return true;
   }
   bool step( bool onlyAccepted )
   {
      const int n = (int)sym_choice( 5, "where" );
      const int c = (int)sym_choice( NODES, "what" );
      if ( vec( n ) ) return append( n, c, onlyAccepted );
      // any letters for x and y
      static const char *P[] = { "x", "/x", "x/y", "/x/y", "x/0", "/x/1" };
      std::string p = P[sym_choice( 6, "path" )];
      const char x = (char)( 'a' + sym<uint8_t>( "x" ) % 26 ), y = (char)( 'a' + sym<uint8_t>( "y" ) % 26 );
      for ( char &k : p )
         if ( k == 'x' ) k = x;
         else if ( k == 'y' ) k = y;
      return set( n, p.c_str(), c, onlyAccepted );
   }
   void check()
   {
      for ( int n = 0; n < OTHER; n++ )
      {
         const bool root = m[n].parent < 0;
         sym_assert( node[n].isRoot() == root, "is root" );
         sym_assert( node[n].parent() == node[root ? n : m[n].parent], "parent" );
         sym_assert( node[n].pathName() == path( n ), "path" );
         if ( !root ) sym_assert( node[n].elementName() == m[n].name, "name" );
         sym_assert( node[n].isAttached() == ( top( n ) == ROOT ), "attached" );
         sym_assert( node[n].destImageFile() == imf, "file" );
         if ( !container( n ) ) continue;
         if ( vec( n ) )
         {
            VectorNode v( node[n] );
            sym_assert( v.childCount() == (int64_t)m[n].kids.size(), "count" );
            for ( size_t i = 0; i < m[n].kids.size(); i++ ) sym_assert( v.get( i ) == node[m[n].kids[i]] && v.get( digit( i ) ) == node[m[n].kids[i]], "child" );
            sym_assert( !v.isDefined( digit( m[n].kids.size() ) ), "no child" );
         }
         else
         {
            StructureNode s( node[n] );
            sym_assert( s.childCount() == (int64_t)m[n].kids.size(), "count" );
            for ( size_t i = 0; i < m[n].kids.size(); i++ ) sym_assert( s.get( i ) == node[m[n].kids[i]] && s.get( m[m[n].kids[i]].name ) == node[m[n].kids[i]], "child" );
            sym_assert( s.isDefined( "a" ) == ( child( n, "a" ) >= 0 ), "defined" );
         }
         for ( int k : m[n].kids )
         {
            // by absolute path from anywhere in the tree
            if ( vec( n ) ) sym_assert( VectorNode( node[n] ).get( path( k ) ) == node[k], "absolute" );
            else sym_assert( StructureNode( node[n] ).get( path( k ) ) == node[k], "absolute" );
         }
      }
      sym_assert( node[OTHER].isRoot() && !node[OTHER].isAttached() && node[OTHER].destImageFile() == other, "other" );
   }
};
static void prefix( Tree &t, unsigned k )
{
   switch ( k )
   {
   case 1: t.set( ROOT, "a", S1, true ); break;
   case 2: t.set( S1, "a", S2, true ); break;
   case 3: t.append( HOMO, I1, true ); break;
   case 4:
      t.append( HOMO, S1, true );
      t.append( HOMO, S2, true );
      break;
   case 5:
      t.set( ROOT, "a", HOMO, true );
      t.append( HOMO, I1, true );
      break;
   case 6:
      t.set( ROOT, "a", S1, true );
      t.set( S1, "b", S2, true );
      break;
   case 7:
      t.append( HETERO, S1, true );
      t.append( HETERO, HOMO, true );
      break;
   case 8:
      t.set( S1, "a", HETERO, true );
      t.append( HETERO, S2, true );
      t.set( S2, "b", I1, true );
      break;
   case 9:
      t.set( S1, "b", I1, true );
      t.append( HOMO, S1, true );
      t.set( S2, "b", I3, true );
      t.append( HETERO, HOMO, true );
      t.set( ROOT, "a", HETERO, true );
      break;
   case 10:
      t.set( S1, "b", HETERO, true );
      t.append( HOMO, S1, true );
      t.append( HETERO, S2, true );
      break;
   }
   t.check();
}
HARNESS( p16_tree )
{
   vf_opaque_numbers = 1;
   Tree t;
   prefix( t, sym_param() % 100 );
   for ( unsigned k = sym_param() / 100; k > 0; k-- )
   {
      if ( !t.step( true ) ) return;
      t.check();
   }
   if ( !t.step( false ) ) return;
   t.check();
   sym_cover( "checked" );
}
// what may follow a first child in a homogeneous vector: the same in everything visible but the values
enum { INTEGER, SCALED, SINGLE, DOUBLE, STRING, BLOB, STRUCTURE, VECTOR, COMPRESSED, KINDS };
struct Look
{
   int64_t a = 0, b = 0;
   double x = 0, y = 0;
   char name = 'a', second = 'b';
   unsigned count = 0, hetero = 0;
   Look *in = nullptr;
};
static double number( const char *what )
{
   const uint64_t v = sym<uint64_t>( what );
   double d;
   memcpy( &d, &v, 8 );
   return d;
}
static Node made( ImageFile &f, int kind, Look &k, int inner )
{
   switch ( kind )
   {
   case INTEGER:
   case SCALED:
   {
      k.a = sym<int64_t>( "minimum" );
      k.b = sym<int64_t>( "maximum" );
      const int64_t v = sym<int64_t>( "value" );
      sym_assume( ( k.a <= v ) & ( v <= k.b ) );
      if ( kind == INTEGER ) return IntegerNode( f, v, k.a, k.b );
      k.x = number( "scale" );
      k.y = number( "offset" );
      sym_assume( ( k.x == k.x ) & ( k.x != 0 ) & ( k.y == k.y ) );
      return ScaledIntegerNode( f, v, k.a, k.b, k.x, k.y );
   }
   case SINGLE:
   case DOUBLE:
   {
      k.x = number( "minimum" );
      k.y = number( "maximum" );
      const double v = number( "value" );
      sym_assume( ( k.x <= v ) & ( v <= k.y ) );
      if ( kind == SINGLE ) sym_assume( ( k.x >= -3e38 ) & ( k.y <= 3e38 ) );
      return FloatNode( f, v, kind == SINGLE ? PrecisionSingle : PrecisionDouble, k.x, k.y );
   }
   case STRING: return StringNode( f, sym_choice( 2, "text" ) ? "some" : "" );
   case BLOB: return BlobNode( f, k.a = (int64_t)sym_choice( 3, "length" ) );
   case STRUCTURE:
   case COMPRESSED:
   {
      StructureNode s( f );
      k.count = sym_choice( 3, "children" );
      k.name = (char)sym_range<uint8_t>( 'a', 'e', "name" );
      k.second = (char)sym_range<uint8_t>( 'v', 'z', "name" );
      k.in = new Look;
      // the names may come in either order
      const bool turned = k.count > 1 && sym_choice( 2, "turned" );
      if ( turned ) s.set( std::string( 1, k.second ), StringNode( f ) );
      if ( k.count ) s.set( std::string( 1, k.name ), made( f, inner, *k.in, INTEGER ) );
      if ( k.count > 1 && !turned ) s.set( std::string( 1, k.second ), StringNode( f ) );
      if ( kind == STRUCTURE ) return s;
      VectorNode c( f, true );
      k.hetero = sym_choice( 2, "codecs" );
      if ( k.hetero ) c.append( StructureNode( f ) );
      return CompressedVectorNode( f, s, c );
   }
   default:
   {
      k.hetero = sym_choice( 2, "heterogeneous" );
      VectorNode v( f, k.hetero );
      k.count = sym_choice( 3, "children" );
      k.in = new Look;
      if ( k.count ) v.append( made( f, inner, *k.in, INTEGER ) );
      if ( k.count > 1 && k.hetero ) v.append( IntegerNode( f, 1, 0, 1 ) );
      else if ( k.count > 1 ) k.count = 1;
      return v;
   }
   }
}
static bool sameLook( int kind, const Look &p, const Look &q, int inner )
{
   bool same = ( p.a == q.a ) & ( p.b == q.b ) & ( p.x == q.x ) & ( p.y == q.y ) & ( p.count == q.count ) & ( p.hetero == q.hetero );
   if ( p.count != q.count || p.count == 0 ) return same;
   if ( kind != VECTOR ) same &= p.name == q.name;
   if ( kind != VECTOR && p.count > 1 ) same &= p.second == q.second;
   return same & sameLook( inner, *p.in, *q.in, INTEGER );
}
// param: kind + 10 * kind of a child + 100 * (inside a structure)
HARNESS( p16_alike )
{
   vf_opaque_numbers = 1;
   ImageFile f( "a.e57", "w" );
   const int kind = (int)( sym_param() % 10 ), inner = (int)( sym_param() / 10 % 10 );
   const bool nested = sym_param() / 100;
   const int other = sym_choice( 4, "other" ) ? kind : ( kind + 1 ) % KINDS;
   VectorNode v( f, false );
   Look p, q;
   Node a = made( f, kind, p, inner );
   if ( nested )
   {
      StructureNode s( f );
      s.set( "n", a );
      v.append( s );
   }
   else v.append( a );
   Node b = made( f, other, q, inner );
   Node c = b;
   if ( nested )
   {
      StructureNode s( f );
      s.set( "n", b );
      c = s;
   }
   const int e = errorOf( [&] { v.append( c ); } );
   const bool same = kind == other && sameLook( kind, p, q, inner );
   sym_assert( ( e == Success ) == same, "only the same kind of child accepted" );
   sym_assert( ( e == Success ) | ( e == ErrorHomogeneousViolation ), "the documented error" );
   sym_assert( v.childCount() == ( e == Success ? 2 : 1 ) && c.isRoot() == ( e != Success ), "refusal leaves things as they were" );
   if ( e == Success ) sym_cover( "alike accepted" );
   else sym_cover( "unlike refused" );
   sym_observe( "e", e );
}
// nothing below a homogeneous vector of two children can be changed any more
HARNESS( p16_frozen )
{
   vf_opaque_numbers = 1;
   ImageFile f( "a.e57", "w" );
   VectorNode top( f, false );
   const unsigned n = sym_choice( 3, "children" );
   const int at = (int)sym_choice( 6, "where" );
   std::vector<Node> spot;
   for ( unsigned k = 0; k < n; k++ )
   {
      StructureNode s( f ), t( f ), u( f );
      VectorNode v( f, true ), w( f, false );
      s.set( "t", t );
      s.set( "v", v );
      v.append( u );
      v.append( w );
      t.set( "s", StringNode( f, "x" ) );
      Node all[] = { s, t, v, u, w };
      spot.assign( all, all + 5 );
      top.append( s );
   }
   StructureNode outer( f );
   if ( sym_choice( 2, "attached" ) )
   {
      outer.set( "o", top );
      f.root().set( "r", outer );
   }
   if ( n == 0 || at == 5 )
   {
      outer.set( "more", StringNode( f ) );
      sym_cover( "open" );
      return;
   }
   StringNode x( f, "new" );
   const int e = errorOf( [&] {
      if ( spot[at].type() == TypeVector ) VectorNode( spot[at] ).append( x );
      else StructureNode( spot[at] ).set( "new", x );
   } );
   sym_assert( ( e == Success ) == ( n < 2 ), "changed only while there is one child" );
   sym_assert( x.isRoot() == ( n == 2 ), "refused node is left alone" );
   sym_cover( n < 2 ? "not frozen" : "frozen" );
}
