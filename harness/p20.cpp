// P20: the element tree survives closing and reopening
#include "cv.h"
struct Item
{
   int kind;
   std::string path, text;
   std::vector<uint64_t> num;
};
static uint64_t bitsOf( double d )
{
   uint64_t u;
   memcpy( &u, &d, 8 );
   return u;
}
typedef std::vector<Item> Tree;
static void describe( const Node &n, Tree &t )
{
   Item i;
   i.kind = n.type();
   i.path = n.pathName();
   i.num.push_back( n.isRoot() );
   i.num.push_back( n.elementName().size() );
   const size_t at = t.size();
   t.push_back( i );
   switch ( n.type() )
   {
      case TypeStructure:
      {
         StructureNode s( n );
         i.num.push_back( (uint64_t)s.childCount() );
         for ( int64_t k = 0; k < s.childCount(); k++ ) describe( s.get( k ), t );
         break;
      }
      case TypeVector:
      {
         VectorNode s( n );
         i.num.push_back( s.allowHeteroChildren() );
         i.num.push_back( (uint64_t)s.childCount() );
         for ( int64_t k = 0; k < s.childCount(); k++ ) describe( s.get( k ), t );
         break;
      }
      case TypeCompressedVector:
      {
         CompressedVectorNode c( n );
         i.num.push_back( (uint64_t)c.childCount() );
         describe( c.prototype(), t );
         describe( c.codecs(), t );
         break;
      }
      case TypeInteger:
      {
         IntegerNode k( n );
         i.num.push_back( (uint64_t)k.value() );
         i.num.push_back( (uint64_t)k.minimum() );
         i.num.push_back( (uint64_t)k.maximum() );
         break;
      }
      case TypeScaledInteger:
      {
         ScaledIntegerNode k( n );
         i.num.push_back( (uint64_t)k.rawValue() );
         i.num.push_back( (uint64_t)k.minimum() );
         i.num.push_back( (uint64_t)k.maximum() );
         i.num.push_back( bitsOf( k.scale() ) );
         i.num.push_back( bitsOf( k.offset() ) );
         break;
      }
      case TypeFloat:
      {
         FloatNode k( n );
         i.num.push_back( k.precision() );
         i.num.push_back( bitsOf( k.value() ) );
         i.num.push_back( bitsOf( k.minimum() ) );
         i.num.push_back( bitsOf( k.maximum() ) );
         break;
      }
      case TypeString:
         i.text = StringNode( n ).value();
         break;
      case TypeBlob:
         i.num.push_back( (uint64_t)BlobNode( n ).byteCount() );
         break;
   }
   t[at] = i;
}
static bool sameText( const std::string &a, const std::string &b )
{
   if ( a.size() != b.size() ) return false;
   uint8_t d = 0;
   for ( size_t i = 0; i < a.size(); i++ ) d |= (uint8_t)( a[i] ^ b[i] );
   return d == 0;
}
static void compare( const Tree &a, const Tree &b )
{
   __sym_assert( a.size() == b.size(), "P20.elements" );
   if ( a.size() != b.size() ) return;
   for ( size_t i = 0; i < a.size(); i++ )
   {
      __sym_assert( a[i].kind == b[i].kind, "P20.type" );
      __sym_assert( sameText( a[i].path, b[i].path ), "P20.path" );
      __sym_assert( sameText( a[i].text, b[i].text ), "P20.text" );
      __sym_assert( a[i].num.size() == b[i].num.size(), "P20.attributes" );
      for ( size_t k = 0; k < a[i].num.size() && k < b[i].num.size(); k++ ) __sym_assert( a[i].num[k] == b[i].num[k], "P20.attribute" );
   }
}
struct Build
{
   ImageFile f;
   std::vector<std::string> blobs, vectors;
   std::vector<uint8_t> bytes;
   std::vector<int64_t> records;
   int64_t lo = 0, hi = 0;
   Build() : f( "a.e57", "w" ) {}
   // accepted values that are not the default ones (those are the subject of P19)
   Node integer()
   {
      const int64_t v = sym<int64_t>( "integer" ), a = sym<int64_t>( "minimum" ), b = sym<int64_t>( "maximum" );
      __sym_assume( ( a <= v ) & ( v <= b ) & ( a != INT64_MIN ) & ( b != INT64_MAX ) & ( v != 0 ) );
      return IntegerNode( f, v, a, b );
   }
   double number( const char *name )
   {
      uint64_t u = sym<uint64_t>( name );
      __sym_assume( u > 0x0010000000000000ULL && u < 0x7FE0000000000000ULL && u != 0x3FF0000000000000ULL );
      double d;
      memcpy( &d, &u, 8 );
      return d;
   }
   Node leaf( unsigned kind )
   {
      switch ( kind )
      {
         case 0: return integer();
         case 1: return FloatNode( f, number( "value" ) );
         case 2:
         {
            char c[3];
            __sym_make( c, 3, "text" );
            for ( char k : c ) __sym_assume( k >= ' ' && k < 127 );
            return StringNode( f, std::string( c, 3 ) );
         }
         case 3:
         {
            const int64_t v = sym<int64_t>( "raw" ), a = sym<int64_t>( "minimum" ), b = sym<int64_t>( "maximum" );
            __sym_assume( ( a <= v ) & ( v <= b ) & ( a != INT64_MIN ) & ( b != INT64_MAX ) & ( v != 0 ) );
            const double s = number( "scale" ), o = number( "offset" );
            return ScaledIntegerNode( f, v, a, b, s, o );
         }
         default: return StringNode( f );
      }
   }
   // symbolic letter in every name
   std::string name( unsigned i )
   {
      char c = sym<char>( "letter" );
      __sym_assume( c >= 'a' && c <= 'z' );
      return std::string( 1, (char)( 'A' + i ) ) + c;
   }
   void blob( StructureNode s, const std::string &k )
   {
      const size_t n = sym_choice( 3, "blob length" );
      uint8_t b[3];
      __sym_make( b, 3, "blob" );
      BlobNode d( f, (int64_t)n );
      s.set( k, d );
      if ( n ) d.write( b, 0, n );
      blobs.push_back( d.pathName() );
      bytes.assign( b, b + n );
   }
   void vector( StructureNode s, const std::string &k )
   {
      StructureNode proto( f );
      hi = 1 + sym_choice( 3, "range" ) * 7;
      const unsigned second = sym_choice( 3, "second field" );
      proto.set( "r", IntegerNode( f, 0, 0, hi ) );
      if ( second == 1 ) proto.set( "x:i", FloatNode( f, 0., PrecisionSingle, -4., 4. ) );
      if ( second == 2 ) proto.set( "t", StringNode( f ) );
      VectorNode codecs( f, true );
      CompressedVectorNode c( f, proto, codecs );
      s.set( k, c );
      const unsigned n = sym_choice( 3, "records" );
      if ( !n ) return;
      int64_t v[2];
      float fl[2] = { 1, 2 };
      std::vector<std::string> st( 2, "s" );
      __sym_make( v, sizeof v, "values" );
      for ( int64_t x : v ) __sym_assume( x >= 0 && x <= hi );
      std::vector<SourceDestBuffer> sb;
      sb.emplace_back( f, "r", v, (size_t)2 );
      if ( second == 1 ) sb.emplace_back( f, "x:i", fl, (size_t)2 );
      if ( second == 2 ) sb.emplace_back( f, "t", &st );
      CompressedVectorWriter w = c.writer( sb );
      w.write( n );
      w.close();
      vectors.push_back( c.pathName() );
      records.assign( v, v + n );
   }
   void child( StructureNode s, unsigned i, unsigned kind, bool deep )
   {
      const std::string k = name( i );
      switch ( kind )
      {
         case 0: case 1: case 2: case 3: case 4: s.set( k, leaf( kind ) ); break;
         case 5:
         {
            StructureNode t( f );
            s.set( sym_choice( 2, "name kind" ) ? "e57Root" : k, t );
            const unsigned inner = sym_choice( deep ? 9 : 5, "inner kind" );
            if ( inner == 4 ) break;
            child( t, 0, inner, false );
            child( t, 1, 0, false );
            break;
         }
         case 6:
         {
            // homogeneous vector with more than ten children
            VectorNode v( f, false );
            s.set( k, v );
            const int64_t a = sym<int64_t>( "vector element" );
            __sym_assume( ( a != 0 ) & ( a != INT64_MAX ) & ( a != INT64_MIN ) );
            for ( int j = 0; j < 12; j++ ) v.append( IntegerNode( f, j == 11 ? a : j ) );
            break;
         }
         case 7:
         {
            VectorNode v( f, true );
            s.set( k, v );
            const unsigned n = sym_choice( 3, "children" );
            for ( unsigned j = 0; j < n; j++ )
            {
               StructureNode t( f );
               v.append( t );
               if ( j == 0 ) t.set( "z", leaf( 0 ) );
            }
            if ( n ) v.append( leaf( sym_choice( 4, "element kind" ) ) );
            break;
         }
         case 8: blob( s, k ); break;
         case 9: vector( s, k ); break;
      }
   }
};
// param = kind of the first child + 10 * kind of the second
HARNESS( p20_tree )
{
   vf_opaque_numbers = 4;
   Tree before, after;
   std::vector<std::string> blobs, vectors;
   std::vector<uint8_t> bytes;
   std::vector<int64_t> records;
   std::string guid;
   {
      Build b;
      b.f.extensionsAdd( "x", "http://example.org/x" );
      StructureNode root = b.f.root();
      b.child( root, 0, __sym_param() % 10, true );
      const unsigned second = (unsigned)( __sym_param() / 10 );
      b.child( root, 1, second, false );
      describe( root, before );
      blobs = b.blobs;
      bytes = b.bytes;
      vectors = b.vectors;
      records = b.records;
      b.f.close();
   }
   const int e = errorOf( [&] {
      ImageFile f( "a.e57", "r" );
      describe( f.root(), after );
      compare( before, after );
      std::string uri;
      __sym_assert( f.extensionsLookupPrefix( "x", uri ) && uri == "http://example.org/x", "P20.extension" );
      if ( !blobs.empty() )
      {
         BlobNode d( f.root().get( blobs.back() ) );
         uint8_t got[3] = {};
         if ( !bytes.empty() ) d.read( got, 0, bytes.size() );
         for ( size_t i = 0; i < bytes.size(); i++ ) __sym_assert( got[i] == bytes[i], "P20.blob" );
         __sym_cover( "blob" );
      }
      if ( !vectors.empty() )
      {
         int64_t got[2] = {};
         CompressedVectorNode c( f.root().get( vectors.back() ) );
         __sym_assert( take( c, "r", got, 2 ) == records.size(), "P20.records" );
         for ( size_t i = 0; i < records.size(); i++ ) __sym_assert( got[i] == records[i], "P20.record" );
         __sym_cover( "records" );
      }
      f.close();
   } );
   __sym_assert( e == Success, "P20.reopens" );
   __sym_cover( "reopened" );
}
