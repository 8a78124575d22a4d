// Where the standard keeps what the simple interface calls by other names.
#pragma once
enum { TEXT, NUMBER, NARROW, WHOLE, WHOLE32 };
struct Place
{
   const char *path;
   int kind;
   void *at; // in a header of the simple interface
   int group;
};
static double numberAt( const Place &p )
{
   return p.kind == NARROW ? (double)*(float *)p.at : *(double *)p.at;
}
static int64_t wholeAt( const Place &p )
{
   return p.kind == WHOLE32 ? *(int32_t *)p.at : *(int64_t *)p.at;
}
static bool samePlace( const Place &a, const Place &b )
{
   switch ( a.kind )
   {
   case TEXT: return eq( *(std::string *)a.at, *(std::string *)b.at );
   case NUMBER: return eq( *(double *)a.at, *(double *)b.at );
   case NARROW: return eq( *(float *)a.at, *(float *)b.at );
   default: return wholeAt( a ) == wholeAt( b );
   }
}
// any value
static void anyAt( const Place &p )
{
   switch ( p.kind )
   {
   case TEXT: *(std::string *)p.at = anyText( p.path ); break;
   case NUMBER: *(double *)p.at = anyDouble( p.path ); break;
   case NARROW: *(float *)p.at = anyFloat( p.path ); break;
   case WHOLE: *(int64_t *)p.at = sym<int64_t>( p.path ); break;
   default: *(int32_t *)p.at = sym_range<int32_t>( 0, 0x7FFFFFFF, p.path );
   }
}
// a fixed value other than the default
static void someAt( const Place &p, int k )
{
   switch ( p.kind )
   {
   case TEXT: *(std::string *)p.at = std::string( 1, (char)( 'a' + k % 26 ) ) + "z"; break;
   case NUMBER: *(double *)p.at = 2 + k * 0.5; break;
   case NARROW: *(float *)p.at = 2 + (float)k * 0.5f; break;
   case WHOLE: *(int64_t *)p.at = 2 + k; break;
   default: *(int32_t *)p.at = 2 + k;
   }
}
// is the element of the given path what the header says? an absent element stands for the default
static bool storedAs( const StructureNode &s, const Place &p, const Place &byDefault )
{
   if ( !s.isDefined( p.path ) ) return samePlace( p, byDefault );
   const Node n = s.get( p.path );
   switch ( p.kind )
   {
   case TEXT: return n.type() == TypeString && eq( StringNode( n ).value(), *(std::string *)p.at );
   case NUMBER:
   case NARROW:
      if ( n.type() == TypeInteger ) return eq( (double)IntegerNode( n ).value(), numberAt( p ) );
      if ( n.type() == TypeScaledInteger ) return eq( ScaledIntegerNode( n ).scaledValue(), numberAt( p ) );
      return n.type() == TypeFloat && eq( FloatNode( n ).value(), numberAt( p ) );
   default: return n.type() == TypeInteger && IntegerNode( n ).value() == wholeAt( p );
   }
}
// puts the value into the tree; form 0: as it is, 1: numbers as scaled integers, 2: numbers as integers
static void place( StructureNode top, const Place &p, int form )
{
   ImageFile f = top.destImageFile();
   // the structures on the way
   std::string path = p.path;
   for ( size_t i = path.find( '/' ); i != std::string::npos; i = path.find( '/', i + 1 ) )
      if ( !top.isDefined( path.substr( 0, i ) ) ) top.set( path.substr( 0, i ), StructureNode( f ) );
   if ( p.kind == TEXT ) top.set( path, StringNode( f, *(std::string *)p.at ) );
   else if ( p.kind == WHOLE || p.kind == WHOLE32 ) top.set( path, IntegerNode( f, wholeAt( p ) ) );
   else if ( form == 0 ) top.set( path, FloatNode( f, numberAt( p ), p.kind == NARROW ? PrecisionSingle : PrecisionDouble ) );
   else
   {
      const int64_t raw = sym_range<int8_t>( 1, 100, p.path );
      *(double *)p.at = form == 1 ? (double)raw * 0.25 : (double)raw;
      if ( form == 1 ) top.set( path, ScaledIntegerNode( f, raw, (int64_t)0, (int64_t)127, 0.25, 0.0 ) );
      else top.set( path, IntegerNode( f, raw, 0, 127 ) );
   }
}
