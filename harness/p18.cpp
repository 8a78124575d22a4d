// P18: text values survive the XML section
#include "cv.h"
static void roundTrip( const std::string &v )
{
   {
      ImageFile f( "a.e57", "w" );
      f.root().set( "k", StringNode( f, v ) );
      f.root().set( "after", IntegerNode( f, 5 ) );
      __sym_assert( StringNode( f.root().get( "k" ) ).value() == v, "P18.held" );
      f.close();
   }
   int e = Success;
   std::string got;
   int64_t after = 0, n = 0;
   try
   {
      ImageFile f( "a.e57", "r" );
      got = StringNode( f.root().get( "k" ) ).value();
      after = IntegerNode( f.root().get( "after" ) ).value();
      n = f.root().childCount();
      f.close();
   }
   catch ( E57Exception &x )
   {
      e = (int)x.errorCode();
   }
   __sym_assert( e == Success, "P18.reopens" );
   __sym_assert( got.size() == v.size(), "P18.length" );
   uint8_t d = 0;
   for ( size_t i = 0; i < v.size() && i < got.size(); i++ ) d |= (uint8_t)( got[i] ^ v[i] );
   __sym_assert( d == 0, "P18.value" );
   __sym_assert( after == 5 && n == 2, "P18.neighbours" );
}
// any string of XML characters below 128; param = length + 100 * length of a fixed beginning
HARNESS( p18_text )
{
   vf_opaque_numbers = 1;
   const unsigned n = __sym_param() % 100;
   std::string v( __sym_param() / 100, 'p' ), s( n, ' ' );
   if ( n ) __sym_make( &s[0], n, "text" );
   for ( char c : s ) __sym_assume( ( ( c >= ' ' ) & ( c < 127 ) ) | ( c == '\t' ) | ( c == '\n' ) | ( c == '\r' ) );
   roundTrip( v + s );
   __sym_cover( "kept" );
   for ( unsigned i = 0; i + 2 < n; i++ )
      if ( ( s[i] == ']' ) & ( s[i + 1] == ']' ) & ( s[i + 2] == '>' ) ) __sym_cover( "terminator" );
}
// characters that matter to the markup, longer strings
HARNESS( p18_markup )
{
   vf_opaque_numbers = 1;
   const unsigned n = __sym_param() % 100;
   std::string v( __sym_param() / 100, 'p' ), s( n, ' ' );
   __sym_make( &s[0], n, "text" );
   for ( char c : s ) __sym_assume( ( c == ']' ) | ( c == '>' ) | ( c == '&' ) | ( c == 'x' ) );
   roundTrip( v + s );
   __sym_cover( "kept" );
}
// one character outside ASCII between two arbitrary others
HARNESS( p18_unicode )
{
   vf_opaque_numbers = 1;
   std::string s;
   const unsigned kind = sym_choice( 3, "kind" );
   uint8_t b[6];
   __sym_make( b, sizeof b, "bytes" );
   for ( int i = 1; i < 4; i++ ) __sym_assume( ( b[i] & 0xC0 ) == 0x80 );
   if ( kind == 0 ) __sym_assume( b[0] >= 0xC2 && b[0] <= 0xDF );
   if ( kind == 1 ) __sym_assume( b[0] >= 0xE1 && b[0] <= 0xEC );
   if ( kind == 2 ) __sym_assume( b[0] >= 0xF1 && b[0] <= 0xF3 );
   __sym_assume( ( b[4] >= ' ' ) & ( b[4] < 127 ) & ( b[5] >= ' ' ) & ( b[5] < 127 ) );
   s.push_back( (char)b[4] );
   for ( unsigned i = 0; i < 2 + kind; i++ ) s.push_back( (char)b[i] );
   s.push_back( (char)b[5] );
   roundTrip( s );
   __sym_cover( kind == 0 ? "two bytes" : kind == 1 ? "three bytes" : "four bytes" );
}
