// P17: grammar of path names and element names
#include "cv.h"
static bool letter( uint8_t c ) { return ( (unsigned)( c - 'a' ) < 26u ) | ( (unsigned)( c - 'A' ) < 26u ) | ( c == '_' ) | ( c >= 128 ); }
static bool isDigit( uint8_t c ) { return (unsigned)( c - '0' ) < 10u; }
static bool nameChar( uint8_t c ) { return letter( c ) | isDigit( c ) | ( c == '-' ) | ( c == '.' ) | ( c == ':' ); }
// without forks: is [b,e) a number / a name whose prefix is empty or "x"?
static bool number( const char *p, size_t b, size_t e )
{
   bool ok = b < e;
   for ( size_t i = b; i < e; i++ ) ok &= isDigit( (uint8_t)p[i] );
   return ok;
}
static bool name( const char *p, size_t b, size_t e, bool anyPrefix )
{
   if ( b == e ) return false;
   bool ok = letter( (uint8_t)p[b] );
   unsigned colons = 0;
   bool prefixOk = true;
   for ( size_t i = b + 1; i < e; i++ )
   {
      const bool colon = p[i] == ':';
      ok &= nameChar( (uint8_t)p[i] );
      // what follows the colon is a name of its own
      ok &= !colon | ( i + 1 < e && letter( (uint8_t)p[i + 1 < e ? i + 1 : i] ) );
      prefixOk &= !colon | ( ( i == b + 1 ) & ( p[b] == 'x' ) );
      colons += colon;
   }
   return ok & ( colons <= 1 ) & ( anyPrefix | prefixOk );
}
static bool badPath( int e ) { return e == ErrorPathNameEmpty || e == ErrorPathNameMalformed || e == ErrorPathNameExtensionNotRegistered; }
static void path( std::string s )
{
   ImageFile imf( "a.e57", "w" );
   imf.extensionsAdd( "x", "uri:x" );
   StructureNode root = imf.root();
   bool defined = true;
   // the name of an unknown extension is not defined, but no error when only asked for
   const int asked = errorOf( [&] { defined = root.isDefined( s ); } );
   const int g = errorOf( [&] { root.get( s ); } ), e = g == ErrorPathUndefined ? (int)Success : g;
   sym_assert( asked == ( e == ErrorPathNameExtensionNotRegistered ? (int)Success : e ), "asked" );
   // reference: where the separators are decides the path taken here
   std::vector<size_t> cut;
   const bool absolute = s[0] == '/';
   for ( size_t i = absolute; i < s.size(); i++ )
      if ( s[i] == '/' ) cut.push_back( i );
   cut.push_back( s.size() );
   bool ok = true, names = true;
   if ( !( absolute && s.size() == 1 ) )
   {
      size_t b = absolute;
      for ( size_t k : cut )
      {
         const bool n = name( s.data(), b, k, false );
         ok &= n | number( s.data(), b, k );
         names &= n;
         b = k + 1;
      }
   }
   sym_assert( ( e == Success ) == ok, "accepted" );
   if ( e != Success )
   {
      sym_assert( badPath( e ) && ( asked != Success || !defined ), "error" );
      sym_assert( badPath( errorOf( [&] { root.set( s, IntegerNode( imf, 1 ) ); } ) ), "set refused" );
      sym_assert( root.childCount() == 0, "unchanged" );
      int32_t buf[1];
      sym_assert( badPath( errorOf( [&] { SourceDestBuffer( imf, s, buf, 1 ); } ) ), "buffer refused" );
      sym_cover( "refused" );
      return;
   }
   if ( absolute && s.size() == 1 )
   {
      sym_assert( defined && g == Success, "root" );
      return;
   }
   sym_assert( !defined && g == ErrorPathUndefined, "undefined" );
   if ( !names ) return;
   // build the structures above, then set by the whole path
   StructureNode at = root;
   size_t b = absolute;
   for ( size_t k = 0; k + 1 < cut.size(); k++ )
   {
      StructureNode n( imf );
      at.set( s.substr( b, cut[k] - b ), n );
      at = n;
      b = cut[k] + 1;
   }
   IntegerNode leaf( imf, 1 );
   root.set( s, leaf );
   sym_assert( leaf.parent() == at && leaf.elementName() == s.substr( b ), "placed" );
   sym_assert( leaf.pathName() == ( absolute ? s : "/" + s ), "path again" );
   sym_assert( root.get( s ) == leaf && root.isDefined( s ), "found" );
   sym_cover( "accepted" );
}
HARNESS( p17_path )
{
   vf_opaque_numbers = 1;
   std::string s( sym_param(), 0 );
   if ( !s.empty() ) __sym_make( &s[0], s.size(), "path" );
   path( s );
}
// longer paths over one character of each kind
HARNESS( p17_kinds )
{
   vf_opaque_numbers = 1;
   std::string s( sym_param(), 0 );
   __sym_make( &s[0], s.size(), "path" );
   for ( char c : s ) sym_assume( ( c == 'x' ) | ( c == '7' ) | ( c == '/' ) | ( c == ':' ) | ( c == '.' ) );
   path( s );
}
// element names: prefix and local part
HARNESS( p17_element )
{
   vf_opaque_numbers = 1;
   ImageFile imf( "a.e57", "w" );
   std::string s( sym_param(), 0 ), prefix, local;
   if ( !s.empty() ) __sym_make( &s[0], s.size(), "name" );
   int e = errorOf( [&] { imf.elementNameParse( s, prefix, local ); } );
   const bool isNumber = number( s.data(), 0, s.size() );
   const bool ok = name( s.data(), 0, s.size(), true ) | isNumber;
   sym_assert( ( e == Success ) == ok, "name accepted" );
   const bool extended = imf.isElementNameExtended( s );
   if ( e != Success )
   {
      sym_assert( ( e == ErrorPathNameEmpty || e == ErrorPathNameMalformed ) && !extended, "name refused" );
      return;
   }
   if ( isNumber ) return;
   size_t colon = s.find( ':' );
   if ( colon == std::string::npos ) sym_assert( prefix.empty() && local == s && !extended, "plain" );
   else sym_assert( prefix == s.substr( 0, colon ) && local == s.substr( colon + 1 ) && extended, "extended" );
   sym_cover( "name" );
}
