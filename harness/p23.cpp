// P23: registry of extensions
#include "cv.h"
static std::string text( const char *name, unsigned n )
{
   std::string s( n, ' ' );
   __sym_make( &s[0], n, name );
   return s;
}
static bool same( const std::string &a, const std::string &b )
{
   if ( a.size() != b.size() ) return false;
   uint8_t d = 0;
   for ( size_t i = 0; i < a.size(); i++ ) d |= (uint8_t)( a[i] ^ b[i] );
   return d == 0;
}
typedef std::vector<std::pair<std::string, std::string>> Decl;
static void agree( const ImageFile &f, const Decl &m )
{
   __sym_assert( f.extensionsCount() == m.size(), "P23.count" );
   for ( size_t i = 0; i < m.size(); i++ )
   {
      __sym_assert( same( f.extensionsPrefix( i ), m[i].first ), "P23.index_prefix" );
      __sym_assert( same( f.extensionsUri( i ), m[i].second ), "P23.index_uri" );
   }
}
static void lookups( const ImageFile &f, const Decl &m, const std::string &p, const std::string &u )
{
   int ip = -1, iu = -1;
   for ( size_t i = 0; i < m.size(); i++ )
   {
      if ( same( m[i].first, p ) ) ip = (int)i;
      if ( same( m[i].second, u ) ) iu = (int)i;
   }
   std::string out = "untouched";
   const bool gp = f.extensionsLookupPrefix( p, out );
   __sym_assert( gp == ( ip >= 0 ), "P23.lookup_prefix" );
   __sym_assert( f.extensionsLookupPrefix( p ) == gp, "P23.lookup_prefix_only" );
   if ( gp ) __sym_assert( same( out, m[ip].second ), "P23.prefix_to_uri" );
   out = "untouched";
   const bool gu = f.extensionsLookupUri( u, out );
   __sym_assert( gu == ( iu >= 0 ), "P23.lookup_uri" );
   if ( gu ) __sym_assert( same( out, m[iu].first ), "P23.uri_to_prefix" );
   __sym_cover( gp ? "prefix found" : "prefix unknown" );
   __sym_cover( gu ? "uri found" : "uri unknown" );
}
// any strings, param = number of declarations
HARNESS( p23_registry )
{
   vf_opaque_numbers = 1;
   ImageFile f( "a.e57", "w" );
   Decl m;
   const unsigned n = (unsigned)__sym_param();
   for ( unsigned i = 0; i < n; i++ )
   {
      const unsigned lp = 1 + sym_choice( 2, "prefix length" );
      const unsigned lu = 1 + sym_choice( 2, "uri length" );
      const std::string p = text( "prefix", lp ), u = text( "uri", lu );
      bool dp = false, du = false;
      for ( auto &d : m )
      {
         dp |= same( d.first, p );
         du |= same( d.second, u );
      }
      const int e = errorOf( [&] { f.extensionsAdd( p, u ); } );
      __sym_assert( e == ( dp ? (int)ErrorDuplicateNamespacePrefix : du ? (int)ErrorDuplicateNamespaceURI : (int)Success ), "P23.outcome" );
      if ( !dp && !du ) m.emplace_back( p, u );
      __sym_cover( dp ? "duplicate prefix" : du ? "duplicate uri" : "declared" );
      agree( f, m );
   }
   const unsigned ql = sym_choice( 3, "query length" );
   const std::string qp = text( "query prefix", ql ), qu = text( "query uri", ql );
   lookups( f, m, qp, qu );
}
// declarations survive closing and reopening; param = length of the URIs
HARNESS( p23_reopen )
{
   vf_opaque_numbers = 1;
   Decl m;
   {
      ImageFile f( "a.e57", "w" );
      for ( unsigned i = 0; i < 2; i++ )
      {
         std::string p = text( "prefix", 2 ), u = text( "uri", (unsigned)__sym_param() );
         __sym_assume( ( p[0] >= 'a' ) & ( p[0] <= 'w' ) & ( ( ( p[1] >= '0' ) & ( p[1] <= '9' ) ) | ( p[1] == '-' ) | ( p[1] == '_' ) | ( ( p[1] >= 'A' ) & ( p[1] <= 'Z' ) ) ) );
         for ( char c : u ) __sym_assume( ( c > ' ' ) & ( c < 127 ) );
         if ( errorOf( [&] { f.extensionsAdd( p, u ); } ) == Success ) m.emplace_back( p, u );
      }
      // elements of a declared extension are accepted
      f.root().set( m[0].first + ":k", IntegerNode( f, 7 ) );
      const std::string other = text( "unused", 2 );
      __sym_assume( ( other[0] >= 'a' ) & ( other[0] <= 'z' ) & ( other[1] >= 'a' ) & ( other[1] <= 'z' ) );
      __sym_assert( errorOf( [&] { f.root().set( other + ":k", IntegerNode( f, 7 ) ); } ) == ErrorPathNameExtensionNotRegistered, "P23.undeclared" );
      f.close();
   }
   ImageFile f( "a.e57", "r" );
   const std::string std57 = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0";
   __sym_assert( f.extensionsCount() == m.size() + 1, "P23.reopened_count" );
   Decl all;
   // the standard's own namespace appears with an empty prefix
   for ( size_t i = 0, k = 0; i < f.extensionsCount(); i++ )
   {
      if ( f.extensionsPrefix( i ).empty() ) all.emplace_back( "", std57 );
      else if ( k < m.size() ) all.push_back( m[k++] );
   }
   agree( f, all );
   lookups( f, all, m[0].first, m[m.size() - 1].second );
   __sym_assert( IntegerNode( f.root().get( m[0].first + ":k" ) ).value() == 7, "P23.element" );
   __sym_cover( m.size() == 2 ? "both" : "one" );
}
