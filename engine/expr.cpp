#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

static std::vector<E> table( 1 << 20, nullptr );
static uint32_t nExpr = 0;
static std::vector<E> vars;
static std::vector<std::string> varNames;
static std::vector<std::vector<E>> ufTab;
static std::vector<E> arenaCur;

size_t exprCount() { return nExpr; }

static E allocExpr()
{
   static Expr *blk = nullptr;
   static size_t left = 0;
   if ( left == 0 )
   {
      left = 8192;
      blk = (Expr *)malloc( sizeof( Expr ) * left );
   }
   left--;
   return blk++;
}

static inline uint64_t mix( uint64_t h, uint64_t v )
{
   h ^= v + 0x9e3779b97f4a7c15ULL + ( h << 6 ) + ( h >> 2 );
   return h * 0xff51afd7ed558ccdULL;
}

static E cons( K k, unsigned w, unsigned aux, uint64_t c, E a, E b, E d )
{
   uint64_t h = mix( ( (uint64_t)k << 16 ) | ( w << 8 ) | aux, c );
   h = mix( h, (uint64_t)a );
   h = mix( h, (uint64_t)b );
   h = mix( h, (uint64_t)d );
   if ( nExpr > table.size() * 2 )
   {
      // grow
      std::vector<E> nt( table.size() * 4, nullptr );
      for ( E e : table )
         while ( e )
         {
            E nx = e->next;
            uint64_t hh = mix( ( (uint64_t)e->k << 16 ) | ( e->w << 8 ) | e->aux, e->c );
            hh = mix( hh, (uint64_t)e->a );
            hh = mix( hh, (uint64_t)e->b );
            hh = mix( hh, (uint64_t)e->d );
            size_t ix = ( hh >> 20 ) & ( nt.size() - 1 );
            e->next = nt[ix];
            nt[ix] = e;
            e = nx;
         }
      table.swap( nt );
   }
   size_t ix = ( h >> 20 ) & ( table.size() - 1 );
   for ( E e = table[ix]; e; e = e->next )
      if ( e->k == k && e->w == w && e->aux == aux && e->c == c && e->a == a && e->b == b && e->d == d )
         return e;
   E e = allocExpr();
   e->k = k;
   e->w = w;
   e->aux = aux;
   e->rangeKnown = false;
   e->id = nExpr++;
   e->c = c;
   e->a = a;
   e->b = b;
   e->d = d;
   e->next = table[ix];
   table[ix] = e;
   return e;
}

E mkConst( uint64_t v, unsigned w ) { return cons( K::Const, w, 0, v & maskw( w ), nullptr, nullptr, nullptr ); }

E mkVar( const std::string &name, unsigned w )
{
   uint32_t id = vars.size();
   E e = cons( K::Var, w, 0, id, nullptr, nullptr, nullptr );
   vars.push_back( e );
   varNames.push_back( name );
   return e;
}
const std::string &varName( uint32_t v ) { return varNames[v]; }
unsigned varWidth( uint32_t v ) { return vars[v]->w; }
uint32_t varCount() { return vars.size(); }
E varExpr( uint32_t v ) { return vars[v]; }

E mkUF( const std::vector<E> &bytes )
{
   static std::map<std::vector<uint32_t>, uint32_t> idx;
   bool allc = true;
   std::vector<uint32_t> key;
   key.reserve( bytes.size() );
   for ( E b : bytes )
   {
      key.push_back( b->id );
      if ( !isC( b ) ) allc = false;
   }
   if ( allc )
   {
      std::vector<uint8_t> buf;
      for ( E b : bytes ) buf.push_back( b->c );
      return mkConst( crc32c( buf.data(), buf.size() ), 32 );
   }
   auto it = idx.find( key );
   uint32_t ix;
   if ( it == idx.end() )
   {
      ix = ufTab.size();
      ufTab.push_back( bytes );
      idx[key] = ix;
   }
   else
      ix = it->second;
   return cons( K::UF, 32, 0, ix, nullptr, nullptr, nullptr );
}
const std::vector<E> &ufArgs( E e ) { return ufTab[e->c]; }

uint32_t crc32c( const uint8_t *p, size_t n )
{
   uint32_t crc = 0xFFFFFFFFu;
   for ( size_t i = 0; i < n; i++ )
   {
      crc ^= p[i];
      for ( int k = 0; k < 8; k++ ) crc = ( crc >> 1 ) ^ ( ( crc & 1 ) ? 0x82F63B78u : 0 );
   }
   return ~crc;
}

// ---------------------------------------------------------------- ranges
void urange( E e, uint64_t &lo, uint64_t &hi )
{
   if ( e->rangeKnown )
   {
      lo = e->umin;
      hi = e->umax;
      return;
   }
   uint64_t m = maskw( e->w ), l1, h1, l2, h2;
   lo = 0;
   hi = m;
   switch ( e->k )
   {
      case K::Const: lo = hi = e->c; break;
      case K::ZExt: urange( e->a, lo, hi ); break;
      case K::Concat:
         if ( e->a->w + e->b->w <= 64 )
         {
            urange( e->a, l1, h1 );
            urange( e->b, l2, h2 );
            unsigned s = e->b->w;
            lo = ( l1 << s ) | l2;
            hi = ( h1 << s ) | h2;
         }
         break;
      case K::Extract:
         urange( e->a, l1, h1 );
         if ( e->aux == 0 )
         {
            if ( h1 <= m )
            {
               lo = l1;
               hi = h1;
            }
         }
         else
         {
            l2 = l1 >> e->aux;
            h2 = h1 >> e->aux;
            if ( h2 <= m )
            {
               lo = l2;
               hi = h2;
            }
         }
         break;
      case K::And:
         urange( e->a, l1, h1 );
         urange( e->b, l2, h2 );
         hi = std::min( h1, h2 );
         break;
      case K::Or:
         urange( e->a, l1, h1 );
         urange( e->b, l2, h2 );
         lo = std::max( l1, l2 );
         {
            uint64_t t = h1 | h2;
            t |= t >> 1; t |= t >> 2; t |= t >> 4; t |= t >> 8; t |= t >> 16; t |= t >> 32;
            hi = t & m;
         }
         break;
      case K::Add:
         urange( e->a, l1, h1 );
         urange( e->b, l2, h2 );
         if ( (unsigned __int128)h1 + h2 <= m )
         {
            lo = l1 + l2;
            hi = h1 + h2;
         }
         else if ( isC( e->b ) && (unsigned __int128)l1 + e->b->c > m )
         {
            lo = ( l1 + e->b->c ) & m;
            hi = ( h1 + e->b->c ) & m;
         }
         break;
      case K::Mul:
         urange( e->a, l1, h1 );
         urange( e->b, l2, h2 );
         if ( (unsigned __int128)h1 * h2 <= m )
         {
            lo = l1 * l2;
            hi = h1 * h2;
         }
         break;
      case K::UDiv:
         urange( e->a, l1, h1 );
         if ( isC( e->b ) && e->b->c )
         {
            lo = l1 / e->b->c;
            hi = h1 / e->b->c;
         }
         break;
      case K::URem:
         urange( e->a, l1, h1 );
         if ( isC( e->b ) && e->b->c )
         {
            if ( h1 < e->b->c )
            {
               lo = l1;
               hi = h1;
            }
            else
               hi = e->b->c - 1;
         }
         break;
      case K::LShr:
         urange( e->a, l1, h1 );
         hi = h1;
         break;
      case K::Ite:
         urange( e->b, l1, h1 );
         urange( e->d, l2, h2 );
         lo = std::min( l1, l2 );
         hi = std::max( h1, h2 );
         break;
      default: break;
   }
   e->umin = lo;
   e->umax = hi;
   e->rangeKnown = true;
}

// ---------------------------------------------------------------- segments
struct Seg
{
   E e;
};
// decompose into pieces from least significant to most significant
static void segs( E e, std::vector<E> &out, int depth = 0 )
{
   if ( e->k == K::Concat && depth < 64 )
   {
      segs( e->b, out, depth + 1 );
      segs( e->a, out, depth + 1 );
   }
   else if ( e->k == K::ZExt )
   {
      segs( e->a, out, depth + 1 );
      out.push_back( mkConst( 0, e->w - e->a->w ) );
   }
   else
      out.push_back( e );
}
static E joinSegs( std::vector<E> &v )
{
   E r = v[0];
   for ( size_t i = 1; i < v.size(); i++ ) r = mkConcat( v[i], r );
   return r;
}
static void constRuns( uint64_t c, unsigned w, std::vector<unsigned> &runs )
{
   unsigned i = 0;
   while ( i < w )
   {
      unsigned j = i;
      while ( j < w && ( ( c >> j ) & 1 ) == ( ( c >> i ) & 1 ) ) j++;
      runs.push_back( j - i );
      i = j;
   }
}

static bool commut( K k )
{
   return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
}

static E bitwiseSegs( K k, E a, E b )
{
   // returns null if not profitable
   std::vector<E> sa, sb;
   if ( isC( a ) )
   {
      std::vector<unsigned> runs;
      constRuns( a->c, a->w, runs );
      if ( runs.size() > 4 && k != K::Or ) return nullptr;
      if ( runs.size() > 16 ) return nullptr;
      unsigned off = 0;
      for ( unsigned r : runs )
      {
         sa.push_back( mkConst( a->c >> off, r ) );
         off += r;
      }
   }
   else
      segs( a, sa );
   if ( isC( b ) )
   {
      std::vector<unsigned> runs;
      constRuns( b->c, b->w, runs );
      if ( runs.size() > 4 && k != K::Or ) return nullptr;
      if ( runs.size() > 16 ) return nullptr;
      unsigned off = 0;
      for ( unsigned r : runs )
      {
         sb.push_back( mkConst( b->c >> off, r ) );
         off += r;
      }
   }
   else
      segs( b, sb );
   if ( sa.size() == 1 && sb.size() == 1 ) return nullptr;
   std::vector<E> out;
   size_t i = 0, j = 0;
   unsigned oi = 0, oj = 0;
   bool gain = false;
   while ( i < sa.size() && j < sb.size() )
   {
      unsigned ri = sa[i]->w - oi, rj = sb[j]->w - oj;
      unsigned r = std::min( ri, rj );
      E x = mkExtract( sa[i], oi, r ), y = mkExtract( sb[j], oj, r );
      if ( isC( x ) || isC( y ) ) gain = true;
      out.push_back( nullptr );
      out.back() = nullptr;
      // postpone building until gain known
      out.pop_back();
      out.push_back( x );
      out.push_back( y );
      oi += r;
      oj += r;
      if ( oi == sa[i]->w )
      {
         i++;
         oi = 0;
      }
      if ( oj == sb[j]->w )
      {
         j++;
         oj = 0;
      }
   }
   if ( !gain ) return nullptr;
   std::vector<E> res;
   for ( size_t q = 0; q < out.size(); q += 2 ) res.push_back( mkBin( k, out[q], out[q + 1] ) );
   return joinSegs( res );
}

// ---------------------------------------------------------------- FP folding
static double bd( uint64_t v ) { double d; memcpy( &d, &v, 8 ); return d; }
static float bf( uint64_t v ) { uint32_t x = (uint32_t)v; float f; memcpy( &f, &x, 4 ); return f; }
static uint64_t db( double d ) { uint64_t v; memcpy( &v, &d, 8 ); return v; }
static uint64_t fb( float f ) { uint32_t x; memcpy( &x, &f, 4 ); return x; }

uint64_t foldF2( K k, uint64_t a, uint64_t b, unsigned w, bool &ok )
{
   ok = true;
   if ( w == 64 )
   {
      double x = bd( a ), y = bd( b );
      switch ( k )
      {
         case K::FAdd: return db( x + y );
         case K::FSub: return db( x - y );
         case K::FMul: return db( x * y );
         case K::FDiv: return db( x / y );
         case K::FEq: return x == y;
         case K::FLt: return x < y;
         case K::FLe: return x <= y;
         default: break;
      }
   }
   else
   {
      float x = bf( a ), y = bf( b );
      switch ( k )
      {
         case K::FAdd: return fb( x + y );
         case K::FSub: return fb( x - y );
         case K::FMul: return fb( x * y );
         case K::FDiv: return fb( x / y );
         case K::FEq: return x == y;
         case K::FLt: return x < y;
         case K::FLe: return x <= y;
         default: break;
      }
   }
   ok = false;
   return 0;
}
static double rnd( double x, unsigned aux )
{
   switch ( aux )
   {
      case 0: return std::nearbyint( x );
      case 1: return std::floor( x );
      case 2: return std::ceil( x );
      case 3: return std::trunc( x );
      default: return std::round( x );
   }
}
uint64_t foldF1( K k, uint64_t a, unsigned wf, unsigned w, unsigned aux )
{
   switch ( k )
   {
      case K::FSqrt: return w == 64 ? db( std::sqrt( bd( a ) ) ) : fb( std::sqrt( bf( a ) ) );
      case K::FIsNan: return wf == 64 ? std::isnan( bd( a ) ) : std::isnan( bf( a ) );
      case K::FPExt: return db( (double)bf( a ) );
      case K::FPTrunc: return fb( (float)bd( a ) );
      case K::SI2F: return w == 64 ? db( (double)sextw( a, wf ) ) : fb( (float)sextw( a, wf ) );
      case K::UI2F: return w == 64 ? db( (double)a ) : fb( (float)a );
      case K::F2SI:
      {
         double x = wf == 64 ? bd( a ) : (double)bf( a );
         if ( !( x >= -9223372036854775808.0 && x < 9223372036854775808.0 ) )
            return ( 1ULL << ( w - 1 ) ) & maskw( w );
         return (uint64_t)(int64_t)x & maskw( w );
      }
      case K::F2UI:
      {
         double x = wf == 64 ? bd( a ) : (double)bf( a );
         if ( !( x > -1.0 && x < 18446744073709551616.0 ) ) return 0;
         return (uint64_t)x & maskw( w );
      }
      case K::FRnd: return w == 64 ? db( rnd( bd( a ), aux ) ) : fb( (float)rnd( bf( a ), aux ) );
      default: return 0;
   }
}

// ---------------------------------------------------------------- constructors
static bool foldBin( K k, uint64_t a, uint64_t b, unsigned w, uint64_t &r )
{
   uint64_t m = maskw( w );
   switch ( k )
   {
      case K::Add: r = ( a + b ) & m; return true;
      case K::Sub: r = ( a - b ) & m; return true;
      case K::Mul: r = ( a * b ) & m; return true;
      case K::UDiv: if ( !b ) { r = m; return true; } r = a / b; return true;
      case K::URem: if ( !b ) { r = a; return true; } r = a % b; return true;
      case K::SDiv:
      {
         int64_t x = sextw( a, w ), y = sextw( b, w );
         if ( !y ) { r = x < 0 ? 1 : m; return true; }
         if ( y == -1 ) { r = ( 0 - (uint64_t)x ) & m; return true; }
         r = (uint64_t)( x / y ) & m;
         return true;
      }
      case K::SRem:
      {
         int64_t x = sextw( a, w ), y = sextw( b, w );
         if ( !y ) { r = a; return true; }
         if ( y == -1 ) { r = 0; return true; }
         r = (uint64_t)( x % y ) & m;
         return true;
      }
      case K::And: r = a & b; return true;
      case K::Or: r = a | b; return true;
      case K::Xor: r = a ^ b; return true;
      case K::Shl: r = b >= w ? 0 : ( a << b ) & m; return true;
      case K::LShr: r = b >= w ? 0 : ( a >> b ); return true;
      case K::AShr: r = (uint64_t)( sextw( a, w ) >> ( b >= w ? w - 1 : b ) ) & m; return true;
      case K::Eq: r = a == b; return true;
      case K::Ult: r = a < b; return true;
      case K::Ule: r = a <= b; return true;
      case K::Slt: r = sextw( a, w ) < sextw( b, w ); return true;
      case K::Sle: r = sextw( a, w ) <= sextw( b, w ); return true;
      default: return false;
   }
}

// a = q * c + r with r < c and no overflow
static bool quotRem( E a, uint64_t c, E &q, E &r )
{
   uint64_t k = 0;
   E core = a;
   if ( a->k == K::Add && isC( a->b ) )
   {
      k = a->b->c;
      core = a->a;
   }
   for ( int i = 0; i < 3; i++ )
   {
      E x, y;
      if ( i == 2 )
      {
         x = core;
         y = mkConst( 0, a->w );
      }
      else
      {
         if ( core->k != K::Add ) continue;
         x = i ? core->b : core->a;
         y = i ? core->a : core->b;
      }
      if ( x->k != K::Mul || !isC( x->b ) || x->b->c != c ) continue;
      uint64_t lo, hi, ql, qh;
      urange( y, lo, hi );
      urange( x->a, ql, qh );
      if ( (unsigned __int128)qh * c + hi + k > maskw( a->w ) ) continue;
      uint64_t n = ( lo + k ) / c;
      if ( ( hi + k ) / c != n ) continue;
      q = mkBin( K::Add, x->a, mkConst( n, a->w ) );
      r = mkBin( K::Add, y, mkConst( ( k - n * c ) & maskw( a->w ), a->w ) );
      return true;
   }
   return false;
}
E mkBin( K k, E a, E b )
{
   if ( k >= K::FAdd ) return mkF2( k, a, b );
   unsigned w = a->w;
   bool cmp = k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle;
   unsigned rw = cmp ? 1 : w;
   if ( isC( a ) && isC( b ) )
   {
      uint64_t r;
      if ( foldBin( k, a->c, b->c, w, r ) ) return mkConst( r, rw );
   }
   if ( commut( k ) && ( isC( a ) || ( !isC( b ) && a->id > b->id ) ) ) std::swap( a, b );
   uint64_t m = maskw( w );
   switch ( k )
   {
      case K::Add:
         if ( isC( b ) )
         {
            if ( b->c == 0 ) return a;
            if ( a->k == K::Add && isC( a->b ) ) return mkBin( K::Add, a->a, mkConst( a->b->c + b->c, w ) );
         }
         if ( w == 1 ) return mkBin( K::Xor, a, b );
         // (x - y) + y
         if ( a->k == K::Sub && a->b == b ) return a->a;
         if ( b->k == K::Sub && b->b == a ) return b->a;
         // (x + c) + y -> (x + y) + c
         if ( a->k == K::Add && isC( a->b ) && !isC( b ) ) return mkBin( K::Add, mkBin( K::Add, a->a, b ), a->b );
         if ( b->k == K::Add && isC( b->b ) ) return mkBin( K::Add, mkBin( K::Add, a, b->a ), b->b );
         break;
      case K::Sub:
         if ( a == b ) return mkConst( 0, w );
         if ( isC( b ) ) return mkBin( K::Add, a, mkConst( 0 - b->c, w ) );
         if ( w == 1 ) return mkBin( K::Xor, a, b );
         if ( a->k == K::Add )
         {
            if ( a->a == b ) return a->b;
            if ( a->b == b ) return a->a;
            if ( isC( a->b ) ) return mkBin( K::Add, mkBin( K::Sub, a->a, b ), a->b );
         }
         if ( b->k == K::Add && isC( b->b ) ) return mkBin( K::Add, mkBin( K::Sub, a, b->a ), mkConst( 0 - b->b->c, w ) );
         if ( b->k == K::Sub && b->a == a ) return b->b;
         break;
      case K::Mul:
         if ( isC( b ) )
         {
            if ( b->c == 0 ) return b;
            if ( b->c == 1 ) return a;
            if ( ( b->c & ( b->c - 1 ) ) == 0 ) return mkBin( K::Shl, a, mkConst( __builtin_ctzll( b->c ), w ) );
         }
         break;
      case K::UDiv:
         if ( isC( b ) && b->c == 1 ) return a;
         if ( isC( b ) && b->c && ( b->c & ( b->c - 1 ) ) == 0 ) return mkBin( K::LShr, a, mkConst( __builtin_ctzll( b->c ), w ) );
         if ( isC( b ) && b->c )
         {
            uint64_t lo, hi;
            urange( a, lo, hi );
            if ( lo / b->c == hi / b->c ) return mkConst( lo / b->c, w );
            E q, r;
            if ( quotRem( a, b->c, q, r ) ) return q;
         }
         break;
      case K::URem:
         if ( isC( b ) && b->c == 1 ) return mkConst( 0, w );
         if ( isC( b ) && b->c && ( b->c & ( b->c - 1 ) ) == 0 ) return mkBin( K::And, a, mkConst( b->c - 1, w ) );
         if ( isC( b ) && b->c )
         {
            uint64_t lo, hi;
            urange( a, lo, hi );
            if ( hi < b->c ) return a;
            if ( lo / b->c == hi / b->c ) return mkBin( K::Sub, a, mkConst( lo - lo % b->c, w ) );
            E q, r;
            if ( quotRem( a, b->c, q, r ) ) return r;
         }
         break;
      case K::SDiv:
      case K::SRem:
         if ( isC( b ) && (int64_t)sextw( b->c, w ) > 0 )
         {
            uint64_t lo, hi;
            urange( a, lo, hi );
            if ( hi <= ( m >> 1 ) ) return mkBin( k == K::SDiv ? K::UDiv : K::URem, a, b );
         }
         if ( k == K::SDiv && isC( b ) && b->c == 1 ) return a;
         break;
      case K::And:
         if ( a == b ) return a;
         if ( isC( b ) )
         {
            if ( b->c == 0 ) return b;
            if ( b->c == m ) return a;
         }
         if ( w == 1 )
         {
            if ( a->k == K::Not && a->a == b ) return mkConst( 0, 1 );
            if ( b->k == K::Not && b->a == a ) return mkConst( 0, 1 );
            break;
         }
         if ( E r = bitwiseSegs( k, a, b ) ) return r;
         break;
      case K::Or:
         if ( a == b ) return a;
         if ( isC( b ) )
         {
            if ( b->c == 0 ) return a;
            if ( b->c == m ) return b;
         }
         if ( w == 1 )
         {
            if ( a->k == K::Not && a->a == b ) return mkConst( 1, 1 );
            if ( b->k == K::Not && b->a == a ) return mkConst( 1, 1 );
            break;
         }
         if ( E r = bitwiseSegs( k, a, b ) ) return r;
         break;
      case K::Xor:
         if ( a == b ) return mkConst( 0, w );
         if ( isC( b ) )
         {
            if ( b->c == 0 ) return a;
            if ( b->c == m ) return mkNot( a );
         }
         if ( a->k == K::Xor && ( a->a == b ) ) return a->b;
         if ( a->k == K::Xor && ( a->b == b ) ) return a->a;
         if ( b->k == K::Xor && ( b->a == a ) ) return b->b;
         if ( b->k == K::Xor && ( b->b == a ) ) return b->a;
         if ( w == 1 ) break;
         if ( E r = bitwiseSegs( k, a, b ) ) return r;
         break;
      case K::Shl:
         if ( isC( b ) )
         {
            if ( b->c >= w ) return mkConst( 0, w );
            if ( b->c == 0 ) return a;
            return mkConcat( mkExtract( a, 0, w - b->c ), mkConst( 0, b->c ) );
         }
         if ( isC( a ) && a->c == 0 ) return a;
         break;
      case K::LShr:
         if ( isC( b ) )
         {
            if ( b->c >= w ) return mkConst( 0, w );
            if ( b->c == 0 ) return a;
            return mkZExt( mkExtract( a, b->c, w - b->c ), w );
         }
         if ( isC( a ) && a->c == 0 ) return a;
         break;
      case K::AShr:
         if ( isC( b ) )
         {
            if ( b->c == 0 ) return a;
            unsigned s = b->c >= w ? w - 1 : b->c;
            return mkSExt( mkExtract( a, s, w - s ), w );
         }
         break;
      case K::Eq:
      {
         if ( a == b ) return mkConst( 1, 1 );
         if ( w == 1 && isC( b ) ) return b->c ? a : mkNot( a );
         uint64_t l1, h1, l2, h2;
         urange( a, l1, h1 );
         urange( b, l2, h2 );
         if ( h1 < l2 || h2 < l1 ) return mkConst( 0, 1 );
         if ( isC( b ) )
         {
            if ( a->k == K::ZExt ) return mkBin( K::Eq, a->a, mkConst( b->c, a->a->w ) ); // range checked above
            if ( a->k == K::SExt )
            {
               uint64_t lowv = b->c & maskw( a->a->w );
               if ( ( (uint64_t)sextw( lowv, a->a->w ) & m ) != b->c ) return mkConst( 0, 1 );
               return mkBin( K::Eq, a->a, mkConst( lowv, a->a->w ) );
            }
            if ( a->k == K::Add && isC( a->b ) ) return mkBin( K::Eq, a->a, mkConst( b->c - a->b->c, w ) );
            if ( a->k == K::Sub && isC( a->a ) ) return mkBin( K::Eq, a->b, mkConst( a->a->c - b->c, w ) );
            if ( a->k == K::Xor && isC( a->b ) ) return mkBin( K::Eq, a->a, mkConst( b->c ^ a->b->c, w ) );
            if ( a->k == K::Not ) return mkBin( K::Eq, a->a, mkConst( ~b->c, w ) );
            if ( a->k == K::Ite && isC( a->b ) && isC( a->d ) )
            {
               bool t = a->b->c == b->c, f = a->d->c == b->c;
               if ( t && f ) return mkConst( 1, 1 );
               if ( !t && !f ) return mkConst( 0, 1 );
               return t ? a->a : mkNot( a->a );
            }
            if ( a->k == K::Ite && ( isC( a->b ) || isC( a->d ) ) )
               return mkIte( a->a, mkBin( K::Eq, a->b, b ), mkBin( K::Eq, a->d, b ) );
            if ( a->k == K::Concat )
               return mkBin( K::And, mkBin( K::Eq, a->a, mkConst( b->c >> a->b->w, a->a->w ) ),
                             mkBin( K::Eq, a->b, mkConst( b->c, a->b->w ) ) );
         }
         if ( a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w ) return mkBin( K::Eq, a->a, b->a );
         if ( a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w ) return mkBin( K::Eq, a->a, b->a );
         if ( a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w )
            return mkBin( K::And, mkBin( K::Eq, a->a, b->a ), mkBin( K::Eq, a->b, b->b ) );
         if ( a->k == K::Add && b->k == K::Add && isC( a->b ) && a->b == b->b ) return mkBin( K::Eq, a->a, b->a );
         // x + y == y  etc
         if ( a->k == K::Add && a->a == b ) return mkBin( K::Eq, a->b, mkConst( 0, w ) );
         if ( a->k == K::Add && a->b == b ) return mkBin( K::Eq, a->a, mkConst( 0, w ) );
         if ( b->k == K::Add && b->a == a ) return mkBin( K::Eq, b->b, mkConst( 0, w ) );
         if ( b->k == K::Add && b->b == a ) return mkBin( K::Eq, b->a, mkConst( 0, w ) );
         break;
      }
      case K::Ult:
      {
         if ( a == b ) return mkConst( 0, 1 );
         uint64_t l1, h1, l2, h2;
         urange( a, l1, h1 );
         urange( b, l2, h2 );
         if ( h1 < l2 ) return mkConst( 1, 1 );
         if ( l1 >= h2 ) return mkConst( 0, 1 );
         if ( isC( b ) && b->c == 1 ) return mkBin( K::Eq, a, mkConst( 0, w ) );
         if ( isC( a ) && a->c == 0 ) return mkNot( mkBin( K::Eq, b, a ) );
         if ( a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w ) return mkBin( k, a->a, b->a );
         if ( a->k == K::ZExt && isC( b ) ) return mkBin( k, a->a, mkConst( b->c, a->a->w ) ); // h2 within range
         if ( b->k == K::ZExt && isC( a ) ) return mkBin( k, mkConst( a->c, b->a->w ), b->a );
         break;
      }
      case K::Ule:
         return mkNot( mkBin( K::Ult, b, a ) );
      case K::Slt:
      {
         if ( a == b ) return mkConst( 0, 1 );
         uint64_t l1, h1, l2, h2;
         urange( a, l1, h1 );
         urange( b, l2, h2 );
         uint64_t half = m >> 1;
         if ( h1 <= half && h2 <= half ) return mkBin( K::Ult, a, b );
         if ( l1 > half && l2 > half ) return mkBin( K::Ult, a, b );
         if ( l1 > half && h2 <= half ) return mkConst( 1, 1 );
         if ( h1 <= half && l2 > half ) return mkConst( 0, 1 );
         if ( a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w ) return mkBin( k, a->a, b->a );
         if ( a->k == K::SExt && isC( b ) && sextw( b->c, w ) == sextw( b->c & maskw( a->a->w ), a->a->w ) )
            return mkBin( k, a->a, mkConst( b->c, a->a->w ) );
         if ( b->k == K::SExt && isC( a ) && sextw( a->c, w ) == sextw( a->c & maskw( b->a->w ), b->a->w ) )
            return mkBin( k, mkConst( a->c, b->a->w ), b->a );
         if ( isC( b ) && b->c == ( ( m >> 1 ) + 1 ) ) return mkConst( 0, 1 ); // < INT_MIN
         if ( isC( a ) && a->c == ( m >> 1 ) ) return mkConst( 0, 1 );        // INT_MAX <
         break;
      }
      case K::Sle:
         return mkNot( mkBin( K::Slt, b, a ) );
      default: break;
   }
   return cons( k, rw, 0, 0, a, b, nullptr );
}

E mkNot( E a )
{
   if ( isC( a ) ) return mkConst( ~a->c, a->w );
   if ( a->k == K::Not ) return a->a;
   return cons( K::Not, a->w, 0, 0, a, nullptr, nullptr );
}

E mkIte( E c, E t, E f )
{
   if ( isC( c ) ) return c->c ? t : f;
   if ( t == f ) return t;
   if ( c->k == K::Not ) return mkIte( c->a, f, t );
   if ( t->w == 1 )
   {
      if ( isC( t ) && isC( f ) ) return t->c ? c : mkNot( c );
      if ( isC( t ) ) return t->c ? mkBin( K::Or, c, f ) : mkBin( K::And, mkNot( c ), f );
      if ( isC( f ) ) return f->c ? mkBin( K::Or, mkNot( c ), t ) : mkBin( K::And, c, t );
   }
   if ( t->k == K::Ite && t->a == c ) return mkIte( c, t->b, f );
   if ( f->k == K::Ite && f->a == c ) return mkIte( c, t, f->d );
   return cons( K::Ite, t->w, 0, 0, c, t, f );
}

E mkZExt( E a, unsigned w )
{
   if ( w == a->w ) return a;
   if ( isC( a ) ) return mkConst( a->c, w );
   if ( a->k == K::ZExt ) return mkZExt( a->a, w );
   if ( a->k == K::Concat && isC( a->a ) && a->a->c == 0 ) return mkZExt( a->b, w );
   return cons( K::ZExt, w, 0, 0, a, nullptr, nullptr );
}
E mkSExt( E a, unsigned w )
{
   if ( w == a->w ) return a;
   if ( isC( a ) ) return mkConst( (uint64_t)sextw( a->c, a->w ), w );
   if ( a->k == K::SExt ) return mkSExt( a->a, w );
   if ( a->k == K::ZExt ) return mkZExt( a->a, w );
   uint64_t lo, hi;
   urange( a, lo, hi );
   if ( hi <= ( maskw( a->w ) >> 1 ) ) return mkZExt( a, w );
   return cons( K::SExt, w, 0, 0, a, nullptr, nullptr );
}
E mkExtract( E a, unsigned off, unsigned w )
{
   if ( off == 0 && w == a->w ) return a;
   if ( isC( a ) ) return mkConst( a->c >> off, w );
   switch ( a->k )
   {
      case K::Extract: return mkExtract( a->a, off + a->aux, w );
      case K::ZExt:
         if ( off >= a->a->w ) return mkConst( 0, w );
         if ( off + w <= a->a->w ) return mkExtract( a->a, off, w );
         return mkZExt( mkExtract( a->a, off, a->a->w - off ), w );
      case K::SExt:
         if ( off + w <= a->a->w ) return mkExtract( a->a, off, w );
         if ( off < a->a->w ) return mkSExt( mkExtract( a->a, off, a->a->w - off ), w );
         break;
      case K::Concat:
         if ( off + w <= a->b->w ) return mkExtract( a->b, off, w );
         if ( off >= a->b->w ) return mkExtract( a->a, off - a->b->w, w );
         return mkConcat( mkExtract( a->a, 0, off + w - a->b->w ), mkExtract( a->b, off, a->b->w - off ) );
      case K::And:
      case K::Or:
      case K::Xor: return mkBin( a->k, mkExtract( a->a, off, w ), mkExtract( a->b, off, w ) );
      case K::Not: return mkNot( mkExtract( a->a, off, w ) );
      case K::Ite:
         if ( isC( a->b ) || isC( a->d ) || w == 8 || off == 0 )
            return mkIte( a->a, mkExtract( a->b, off, w ), mkExtract( a->d, off, w ) );
         break;
      case K::Add:
      case K::Sub:
      case K::Mul:
         // low part of arithmetic only needs the low parts, when those are simple truncations of extensions
         if ( off == 0 && a->k != K::Mul )
         {
            auto simple = []( E x, unsigned w ) { return isC( x ) || ( ( x->k == K::ZExt || x->k == K::SExt ) && x->a->w <= w ); };
            if ( simple( a->a, w ) && simple( a->b, w ) ) return mkBin( a->k, mkExtract( a->a, 0, w ), mkExtract( a->b, 0, w ) );
         }
         break;
      default: break;
   }
   return cons( K::Extract, w, off, 0, a, nullptr, nullptr );
}
E mkConcat( E hi, E lo )
{
   unsigned w = hi->w + lo->w;
   if ( isC( hi ) && isC( lo ) ) return mkConst( ( hi->c << lo->w ) | lo->c, w );
   if ( isC( hi ) && hi->c == 0 ) return mkZExt( lo, w );
   // merge adjacent extracts
   if ( hi->k == K::Extract )
   {
      if ( lo->k == K::Extract && lo->a == hi->a && lo->aux + lo->w == hi->aux ) return mkExtract( hi->a, lo->aux, w );
      if ( lo->k == K::Concat && lo->a->k == K::Extract && lo->a->a == hi->a && lo->a->aux + lo->a->w == hi->aux )
         return mkConcat( mkExtract( hi->a, lo->a->aux, lo->a->w + hi->w ), lo->b );
      // the low part may have been rewritten by mkExtract
      if ( hi->aux == lo->w && ( hi->a->k == K::Add || hi->a->k == K::Sub || hi->a->k == K::Ite || hi->a->k == K::SExt ) && mkExtract( hi->a, 0, lo->w ) == lo )
         return mkExtract( hi->a, 0, w );
   }
   if ( hi->k == K::ZExt ) return mkZExt( mkConcat( hi->a, lo ), w );
   // right-leaning canonical form: concat(concat(x,y),z) -> concat(x, concat(y,z))
   if ( hi->k == K::Concat ) return mkConcat( hi->a, mkConcat( hi->b, lo ) );
   if ( isC( hi ) && lo->k == K::Concat && isC( lo->a ) )
      return mkConcat( mkConst( ( hi->c << lo->a->w ) | lo->a->c, hi->w + lo->a->w ), lo->b );
   if ( hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a )
      return mkIte( hi->a, mkConcat( hi->b, lo->b ), mkConcat( hi->d, lo->d ) );
   // sign replication: concat(extract of sext) handled by caller
   return cons( K::Concat, w, 0, 0, hi, lo, nullptr );
}

E mkF1( K k, E a, unsigned w, unsigned aux )
{
   if ( isC( a ) ) return mkConst( foldF1( k, a->c, a->w, w, aux ), w );
   if ( k == K::FPTrunc && a->k == K::FPExt ) return a->a;
   if ( k == K::FIsNan && a->k == K::FPExt ) return mkF1( K::FIsNan, a->a, 1 );
   if ( k == K::FIsNan && ( a->k == K::SI2F || a->k == K::UI2F ) ) return mkConst( 0, 1 );
   return cons( k, w, aux, 0, a, nullptr, nullptr );
}
E mkF2( K k, E a, E b )
{
   bool cmp = k == K::FEq || k == K::FLt || k == K::FLe;
   unsigned rw = cmp ? 1 : a->w;
   if ( isC( a ) && isC( b ) )
   {
      bool ok;
      uint64_t r = foldF2( k, a->c, b->c, a->w, ok );
      if ( ok ) return mkConst( r, rw );
   }
   if ( ( k == K::FAdd || k == K::FMul || k == K::FEq ) && a->id > b->id ) std::swap( a, b );
   // division by a power of two is exact multiplication by its reciprocal
   if ( k == K::FDiv && isC( b ) )
   {
      unsigned mb = b->w == 64 ? 52 : 23, bias = b->w == 64 ? 1023 : 127;
      uint64_t ex = ( b->c >> mb ) & maskw( b->w - 1 - mb ), sign = b->c >> ( b->w - 1 );
      if ( ( b->c & maskw( mb ) ) == 0 && ex > 1 && ex < 2 * bias - 1 )
         return mkF2( K::FMul, a, mkConst( ( sign << ( b->w - 1 ) ) | ( ( 2 * bias - ex ) << mb ), b->w ) );
   }
   return cons( k, rw, 0, 0, a, b, nullptr );
}

// ---------------------------------------------------------------- evaluation
static std::vector<uint32_t> evStamp;
static std::vector<uint64_t> evVal;
static uint32_t evEpoch = 1;
void evalReset() { evEpoch++; }
static uint64_t ev( E e, const Model &m )
{
   if ( e->k == K::Const ) return e->c;
   if ( e->id >= evStamp.size() )
   {
      evStamp.resize( std::max<size_t>( nExpr + 1024, evStamp.size() * 2 ), 0 );
      evVal.resize( evStamp.size() );
   }
   if ( evStamp[e->id] == evEpoch ) return evVal[e->id];
   uint64_t r = 0;
   switch ( e->k )
   {
      case K::Var:
      {
         auto it = m.find( (uint32_t)e->c );
         r = it == m.end() ? 0 : it->second & maskw( e->w );
         break;
      }
      case K::UF:
      {
         std::vector<uint8_t> buf;
         for ( E b : ufTab[e->c] ) buf.push_back( (uint8_t)ev( b, m ) );
         r = crc32c( buf.data(), buf.size() );
         break;
      }
      case K::Not: r = ~ev( e->a, m ) & maskw( e->w ); break;
      case K::Ite: r = ev( e->a, m ) ? ev( e->b, m ) : ev( e->d, m ); break;
      case K::ZExt: r = ev( e->a, m ); break;
      case K::SExt: r = (uint64_t)sextw( ev( e->a, m ), e->a->w ) & maskw( e->w ); break;
      case K::Extract: r = ( ev( e->a, m ) >> e->aux ) & maskw( e->w ); break;
      case K::Concat: r = ( ev( e->a, m ) << e->b->w ) | ev( e->b, m ); break;
      case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FEq: case K::FLt: case K::FLe:
      {
         bool ok;
         r = foldF2( e->k, ev( e->a, m ), ev( e->b, m ), e->a->w, ok );
         break;
      }
      case K::FSqrt: case K::FIsNan: case K::FPExt: case K::FPTrunc: case K::SI2F: case K::UI2F: case K::F2SI:
      case K::F2UI: case K::FRnd:
         r = foldF1( e->k, ev( e->a, m ), e->a->w, e->w, e->aux );
         break;
      default: foldBin( e->k, ev( e->a, m ), ev( e->b, m ), e->a->w, r ); break;
   }
   // vectors may have been resized in recursion
   evStamp[e->id] = evEpoch;
   evVal[e->id] = r;
   return r;
}
uint64_t evalExpr( E e, const Model &m ) { return ev( e, m ); }

// ---------------------------------------------------------------- variable sets
static std::unordered_map<uint32_t, std::vector<uint32_t>> varsCache;
static std::vector<uint32_t> vsStamp;
static uint32_t vsEpoch = 0;
static void collect( E e, std::vector<uint32_t> &out )
{
   std::vector<E> st{ e };
   while ( !st.empty() )
   {
      E x = st.back();
      st.pop_back();
      if ( x->k == K::Const ) continue;
      if ( vsStamp.size() <= x->id ) vsStamp.resize( std::max<size_t>( nExpr + 1024, vsStamp.size() * 2 ), 0 );
      if ( vsStamp[x->id] == vsEpoch ) continue;
      vsStamp[x->id] = vsEpoch;
      if ( x->k == K::Var ) out.push_back( (uint32_t)x->c );
      else if ( x->k == K::UF )
      {
         out.push_back( (uint32_t)x->c | 0x80000000u );
         for ( E b : ufTab[x->c] ) st.push_back( b );
      }
      else
      {
         if ( x->a ) st.push_back( x->a );
         if ( x->b ) st.push_back( x->b );
         if ( x->d ) st.push_back( x->d );
      }
   }
}
const std::vector<uint32_t> &varsOf( E e )
{
   auto it = varsCache.find( e->id );
   if ( it != varsCache.end() ) return it->second;
   vsEpoch++;
   std::vector<uint32_t> v;
   collect( e, v );
   std::sort( v.begin(), v.end() );
   v.erase( std::unique( v.begin(), v.end() ), v.end() );
   return varsCache[e->id] = std::move( v );
}
bool hasFP( E e )
{
   static std::unordered_map<uint32_t, bool> memo;
   auto it = memo.find( e->id );
   if ( it != memo.end() ) return it->second;
   std::unordered_set<E> seen;
   std::vector<E> st{ e };
   bool r = false;
   while ( !st.empty() && !r )
   {
      E x = st.back();
      st.pop_back();
      if ( !seen.insert( x ).second ) continue;
      if ( x->k >= K::FAdd && x->k <= K::FRnd ) r = true;
      if ( x->k == K::UF ) for ( E b : ufTab[x->c] ) st.push_back( b );
      if ( x->a ) st.push_back( x->a );
      if ( x->b ) st.push_back( x->b );
      if ( x->d ) st.push_back( x->d );
   }
   memo[e->id] = r;
   return r;
}

// ---------------------------------------------------------------- SMT-LIB output
std::string toSmt( const std::vector<E> &cs )
{
   std::ostringstream o;
   std::unordered_map<uint32_t, int> done; // id -> emitted
   std::ostringstream defs;
   std::set<uint32_t> vs, ufs;
   bool fp = false;
   std::function<void( E )> go;
   auto sort = []( unsigned w ) { return w == 1 ? std::string( "Bool" ) : "(_ BitVec " + std::to_string( w ) + ")"; };
   auto nm = [&]( E e ) -> std::string {
      if ( e->k == K::Const )
      {
         if ( e->w == 1 ) return e->c ? "true" : "false";
         return "(_ bv" + std::to_string( e->c ) + " " + std::to_string( e->w ) + ")";
      }
      return "e" + std::to_string( e->id );
   };
   auto bvof = [&]( E e ) -> std::string { // as bit-vector even when width 1
      if ( e->w == 1 ) return "(ite " + nm( e ) + " #b1 #b0)";
      return nm( e );
   };
   auto fsort = []( unsigned w ) { return w == 64 ? std::string( "11 53" ) : std::string( "8 24" ); };
   auto isF = []( E e ) {
      switch ( e->k )
      {
         case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FSqrt: case K::FPExt: case K::FPTrunc: case K::SI2F: case K::UI2F: case K::FRnd: return true;
         default: return false;
      }
   };
   auto fpn = [&]( E e ) -> std::string { // floating point term
      if ( isF( e ) ) return "f" + std::to_string( e->id );
      return "((_ to_fp " + fsort( e->w ) + ") " + nm( e ) + ")";
   };
   std::vector<E> stack;
   go = [&]( E e0 ) {
      std::vector<std::pair<E, bool>> st{ { e0, false } };
      while ( !st.empty() )
      {
         auto [e, post] = st.back();
         st.pop_back();
         if ( e->k == K::Const || done.count( e->id ) ) continue;
         if ( !post )
         {
            st.push_back( { e, true } );
            if ( e->k == K::UF ) for ( E b : ufTab[e->c] ) st.push_back( { b, false } );
            if ( e->a ) st.push_back( { e->a, false } );
            if ( e->b ) st.push_back( { e->b, false } );
            if ( e->d ) st.push_back( { e->d, false } );
            continue;
         }
         done[e->id] = 1;
         std::string n = "e" + std::to_string( e->id );
         std::string body;
         auto bin = [&]( const char *op ) { return std::string( "(" ) + op + " " + nm( e->a ) + " " + nm( e->b ) + ")"; };
         switch ( e->k )
         {
            case K::Var:
               defs << "(declare-const " << n << " " << sort( e->w ) << ")\n";
               continue;
            case K::UF:
               defs << "(declare-const " << n << " (_ BitVec 32))\n";
               ufs.insert( e->c );
               continue;
            case K::Add: body = bin( "bvadd" ); break;
            case K::Sub: body = bin( "bvsub" ); break;
            case K::Mul: body = bin( "bvmul" ); break;
            case K::UDiv: body = bin( "bvudiv" ); break;
            case K::SDiv: body = bin( "bvsdiv" ); break;
            case K::URem: body = bin( "bvurem" ); break;
            case K::SRem: body = bin( "bvsrem" ); break;
            case K::And: body = bin( e->w == 1 ? "and" : "bvand" ); break;
            case K::Or: body = bin( e->w == 1 ? "or" : "bvor" ); break;
            case K::Xor: body = bin( e->w == 1 ? "xor" : "bvxor" ); break;
            case K::Shl: body = bin( "bvshl" ); break;
            case K::LShr: body = bin( "bvlshr" ); break;
            case K::AShr: body = bin( "bvashr" ); break;
            case K::Eq: body = bin( "=" ); break;
            case K::Ult: body = e->a->w == 1 ? "(and (not " + nm( e->a ) + ") " + nm( e->b ) + ")" : bin( "bvult" ); break;
            case K::Ule: body = bin( "bvule" ); break;
            case K::Slt: body = e->a->w == 1 ? "(and " + nm( e->a ) + " (not " + nm( e->b ) + "))" : bin( "bvslt" ); break;
            case K::Sle: body = bin( "bvsle" ); break;
            case K::Not: body = e->w == 1 ? "(not " + nm( e->a ) + ")" : "(bvnot " + nm( e->a ) + ")"; break;
            case K::Ite: body = "(ite " + nm( e->a ) + " " + nm( e->b ) + " " + nm( e->d ) + ")"; break;
            case K::ZExt: body = "((_ zero_extend " + std::to_string( e->w - e->a->w ) + ") " + bvof( e->a ) + ")"; break;
            case K::SExt: body = "((_ sign_extend " + std::to_string( e->w - e->a->w ) + ") " + bvof( e->a ) + ")"; break;
            case K::Extract:
               body = "((_ extract " + std::to_string( e->aux + e->w - 1 ) + " " + std::to_string( e->aux ) + ") " + bvof( e->a ) + ")";
               if ( e->w == 1 ) body = "(= " + body + " #b1)";
               break;
            case K::Concat: body = "(concat " + bvof( e->a ) + " " + bvof( e->b ) + ")"; break;
            case K::FEq: fp = true; body = "(fp.eq " + fpn( e->a ) + " " + fpn( e->b ) + ")"; break;
            case K::FLt: fp = true; body = "(fp.lt " + fpn( e->a ) + " " + fpn( e->b ) + ")"; break;
            case K::FLe: fp = true; body = "(fp.leq " + fpn( e->a ) + " " + fpn( e->b ) + ")"; break;
            case K::FIsNan: fp = true; body = "(fp.isNaN " + fpn( e->a ) + ")"; break;
            case K::F2SI: fp = true; body = "((_ fp.to_sbv " + std::to_string( e->w ) + ") RTZ " + fpn( e->a ) + ")"; break;
            case K::F2UI: fp = true; body = "((_ fp.to_ubv " + std::to_string( e->w ) + ") RTZ " + fpn( e->a ) + ")"; break;
            default: break;
         }
         if ( isF( e ) )
         {
            fp = true;
            std::string t;
            switch ( e->k )
            {
               case K::FAdd: t = "(fp.add RNE " + fpn( e->a ) + " " + fpn( e->b ) + ")"; break;
               case K::FSub: t = "(fp.sub RNE " + fpn( e->a ) + " " + fpn( e->b ) + ")"; break;
               case K::FMul: t = "(fp.mul RNE " + fpn( e->a ) + " " + fpn( e->b ) + ")"; break;
               case K::FDiv: t = "(fp.div RNE " + fpn( e->a ) + " " + fpn( e->b ) + ")"; break;
               case K::FSqrt: t = "(fp.sqrt RNE " + fpn( e->a ) + ")"; break;
               case K::FPExt:
               case K::FPTrunc: t = "((_ to_fp " + fsort( e->w ) + ") RNE " + fpn( e->a ) + ")"; break;
               case K::SI2F: t = "((_ to_fp " + fsort( e->w ) + ") RNE " + bvof( e->a ) + ")"; break;
               case K::UI2F: t = "((_ to_fp_unsigned " + fsort( e->w ) + ") RNE " + bvof( e->a ) + ")"; break;
               case K::FRnd:
               {
                  static const char *md[] = { "RNE", "RTN", "RTP", "RTZ", "RNA" };
                  t = std::string( "(fp.roundToIntegral " ) + md[e->aux] + " " + fpn( e->a ) + ")";
                  break;
               }
               default: break;
            }
            defs << "(define-fun f" << e->id << " () (_ FloatingPoint " << fsort( e->w ) << ") " << t << ")\n";
            // bit pattern of the result
            defs << "(declare-const " << n << " (_ BitVec " << (int)e->w << "))\n";
            defs << "(assert (= ((_ to_fp " << fsort( e->w ) << ") " << n << ") f" << e->id << "))\n";
            continue;
         }
         defs << "(define-fun " << n << " () " << sort( e->w ) << " " << body << ")\n";
      }
   };
   for ( E c : cs ) go( c );
   // congruence of checksums
   std::vector<uint32_t> ul( ufs.begin(), ufs.end() );
   std::ostringstream cong;
   for ( size_t i = 0; i < ul.size(); i++ )
      for ( size_t j = i + 1; j < ul.size(); j++ )
      {
         auto &A = ufTab[ul[i]], &B = ufTab[ul[j]];
         if ( A.size() != B.size() ) continue;
         bool differ = false;
         std::string conj;
         for ( size_t q = 0; q < A.size() && !differ; q++ )
         {
            if ( A[q] == B[q] ) continue;
            if ( isC( A[q] ) && isC( B[q] ) ) { differ = true; break; }
            conj += " (= " + nm( A[q] ) + " " + nm( B[q] ) + ")";
         }
         if ( differ ) continue;
         E x = cons( K::UF, 32, 0, ul[i], nullptr, nullptr, nullptr ), y = cons( K::UF, 32, 0, ul[j], nullptr, nullptr, nullptr );
         cong << "(assert (=> (and true" << conj << ") (= " << nm( x ) << " " << nm( y ) << ")))\n";
      }
   o << "(set-logic " << ( fp ? "QF_BVFP" : "QF_BV" ) << ")\n" << defs.str() << cong.str();
   for ( E c : cs ) o << "(assert " << nm( c ) << ")\n";
   o << "(check-sat)\n";
   return o.str();
}
