// Library-level models used by the symbolic build only.
#include <new>
#include <exception>
#include <stdexcept>
#include <memory>
#include <map>
#include <random>
#include <functional>
#include <typeinfo>
#include <cstring>
#include <cstdlib>
#include <string>
#include "sym.h"
#include "vf_stream.h"
#include "xercesc/vf_xerces.h"

extern "C" int vf_opaque_numbers = 0;
extern "C" int vf_alloc_refused = 0;
extern "C" int vf_global_locale = 0;
extern "C" uint64_t vf_exact_m = 0;
extern "C" int vf_exact_shift = 0;
extern "C" void vf_set_locale( int k ) { vf_global_locale = k; }

// ---- decimal texts standing for symbolic numbers
struct VfTok { char text[40]; size_t n; uint64_t bits; int kind, single, exact, shift; uint64_t m; };
static VfTok vf_tok[99];
static int vf_ntok = 0;
static VfTok &vf_new_tok( uint64_t bits, int kind )
{
   if ( vf_ntok >= 99 ) vf_unmodelled( "too many symbolic numbers printed" );
   VfTok &t = vf_tok[vf_ntok++];
   t.bits = bits;
   t.kind = kind;
   t.n = t.single = t.exact = 0;
   return t;
}
extern "C" size_t vf_tok_int( char *buf, uint64_t v )
{
   VfTok &t = vf_new_tok( v, 'd' );
   memcpy( t.text, "8305721946011370", 16 );
   t.text[16] = (char)( '0' + vf_ntok / 10 );
   t.text[17] = (char)( '0' + vf_ntok % 10 );
   t.text[18] = '3';
   t.n = 19;
   memcpy( buf, t.text, t.n );
   return t.n;
}
extern "C" size_t vf_tok_double( char *buf, int prec, uint64_t bits, int single )
{
   VfTok &t = vf_new_tok( bits, 'e' );
   t.single = single;
   size_t n = 0;
   if ( vf_opaque_numbers == 3 )
   {
      // |value| = m / 2^shift = N / 10^shift, N = m * 5^shift
      t.exact = 1;
      t.m = vf_exact_m;
      t.shift = vf_exact_shift;
      uint32_t N = (uint32_t)vf_exact_m; // below 10^9
      for ( int i = 0; i < t.shift; i++ ) N *= 5;
      int digits = 1;
      for ( uint32_t p = 10; N >= p; p *= 10 ) digits++;
      if ( bits >> 63 ) buf[n++] = '-';
      uint32_t p = 1;
      for ( int i = 1; i < digits; i++ ) p *= 10;
      for ( int i = 0; i <= prec; i++ )
      {
         buf[n++] = p ? (char)( '0' + N / p % 10 ) : '0';
         if ( i == 0 ) buf[n++] = '.';
         p /= 10;
      }
      int e = digits - 1 - t.shift;
      buf[n++] = 'e';
      buf[n++] = e < 0 ? '-' : '+';
      if ( e < 0 ) e = -e;
      buf[n++] = (char)( '0' + e / 10 );
      buf[n++] = (char)( '0' + e % 10 );
      return n;
   }
   t.text[n++] = '1';
   t.text[n++] = '.';
   t.text[n++] = (char)( '0' + vf_ntok / 10 );
   t.text[n++] = (char)( '0' + vf_ntok % 10 );
   while ( (int)n < prec + 1 ) t.text[n++] = '8';
   t.text[n++] = '7';
   memcpy( t.text + n, "e+05", 4 );
   n += 4;
   t.n = n;
   memcpy( buf, t.text, n );
   return n;
}
// does the text begin with the text of a printed number?
extern "C" int vf_tok_find( const char *s, uint64_t *bits, size_t *used, int kind )
{
   for ( int i = 0; i < vf_ntok; i++ )
   {
      VfTok &t = vf_tok[i];
      if ( t.kind != kind ) continue;
      if ( !t.exact )
      {
         size_t k = 0;
         while ( k < t.n && s[k] == t.text[k] ) k++;
         if ( k < t.n || ( s[k] >= '0' && s[k] <= '9' ) ) continue;
         *used = k;
         // what was printed of a single precision number is only near it
         *bits = t.single ? t.bits | 1 : t.bits;
         return 1;
      }
      // D / 10^f * 10^e compared with m / 2^shift
      size_t k = 0;
      int f = 0, e = 0, dot = 0, any = 0;
      bool neg = false;
      uint64_t D = 0;
      if ( s[k] == '-' ) { neg = true; k++; }
      for ( ;; k++ )
      {
         if ( s[k] == '.' && !dot ) dot = 1;
         else if ( s[k] >= '0' && s[k] <= '9' )
         {
            D = D * 10 + (uint64_t)( s[k] - '0' );
            any = 1;
            f += dot;
         }
         else break;
      }
      if ( !any ) continue;
      if ( s[k] == 'e' )
      {
         k++;
         bool en = s[k] == '-';
         if ( s[k] == '-' || s[k] == '+' ) k++;
         for ( ; s[k] >= '0' && s[k] <= '9'; k++ ) e = e * 10 + ( s[k] - '0' );
         if ( en ) e = -e;
      }
      uint64_t left = D << t.shift, right = t.m;
      for ( int j = 0; j < e - f; j++ ) left *= 10;
      for ( int j = 0; j < f - e; j++ ) right *= 10;
      *used = k;
      *bits = left == right && neg == ( t.bits >> 63 != 0 ) ? t.bits : 0x7FF8000000000123ULL;
      return 1;
   }
   return 0;
}

// ---- allocation: requests above 256 MiB fail the way an exhausted machine fails
static const size_t kAllocLimit = size_t( 256 ) << 20;
static void *vf_new( size_t n, int kind )
{
   if ( n > kAllocLimit )
   {
      vf_alloc_refused++;
      throw std::bad_alloc();
   }
   return __sym_alloc( n, kind );
}
void *operator new( size_t n ) { return vf_new( n, 1 ); }
void *operator new[]( size_t n ) { return vf_new( n, 2 ); }
void *operator new( size_t n, const std::nothrow_t & ) noexcept { return n > kAllocLimit ? nullptr : __sym_alloc( n, 1 ); }
void *operator new[]( size_t n, const std::nothrow_t & ) noexcept { return n > kAllocLimit ? nullptr : __sym_alloc( n, 2 ); }

namespace std
{
   exception::~exception() noexcept {}
   const char *exception::what() const noexcept { return "std::exception"; }
   bad_exception::~bad_exception() noexcept {}
   const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
   bad_alloc::~bad_alloc() noexcept {}
   const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
   bad_array_new_length::~bad_array_new_length() noexcept {}
   const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
   bad_cast::~bad_cast() noexcept {}
   const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
   bad_weak_ptr::~bad_weak_ptr() noexcept {}
   const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
   bad_function_call::~bad_function_call() noexcept {}
   const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

   __cow_string::__cow_string( const std::string &s )
   {
      char *p = (char *)malloc( s.size() + 1 );
      memcpy( p, s.c_str(), s.size() + 1 );
      _M_p = p;
   }
   __cow_string::__cow_string( const char *s, size_t n )
   {
      char *p = (char *)malloc( n + 1 );
      memcpy( p, s, n );
      p[n] = 0;
      _M_p = p;
   }
   __cow_string::__cow_string( const __cow_string &o ) noexcept : __cow_string( o._M_p, strlen( o._M_p ) ) {}
   __cow_string::~__cow_string() { free( (void *)_M_p ); }
   logic_error::logic_error( const char *s ) : _M_msg( s, strlen( s ) ) {}
   logic_error::logic_error( const string &s ) : _M_msg( s ) {}
   logic_error::~logic_error() noexcept {}
   const char *logic_error::what() const noexcept { return _M_msg._M_p; }
   runtime_error::runtime_error( const char *s ) : _M_msg( s, strlen( s ) ) {}
   runtime_error::runtime_error( const string &s ) : _M_msg( s ) {}
   runtime_error::~runtime_error() noexcept {}
   const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define VF_ERR( C, B ) \
   C::C( const char *s ) : B( s ) {} \
   C::C( const string &s ) : B( s ) {} \
   C::~C() noexcept {}
   VF_ERR( domain_error, logic_error )
   VF_ERR( invalid_argument, logic_error )
   VF_ERR( length_error, logic_error )
   VF_ERR( out_of_range, logic_error )
   VF_ERR( range_error, runtime_error )
   VF_ERR( overflow_error, runtime_error )
   VF_ERR( underflow_error, runtime_error )

   void __throw_bad_exception() { throw bad_exception(); }
   void __throw_bad_alloc() { throw bad_alloc(); }
   void __throw_bad_array_new_length() { throw bad_array_new_length(); }
   void __throw_bad_cast() { throw bad_cast(); }
   void __throw_bad_function_call() { throw bad_function_call(); }
   void __throw_logic_error( const char *s ) { throw logic_error( s ); }
   void __throw_domain_error( const char *s ) { throw domain_error( s ); }
   void __throw_invalid_argument( const char *s ) { throw invalid_argument( s ); }
   void __throw_length_error( const char *s ) { throw length_error( s ); }
   void __throw_out_of_range( const char *s ) { throw out_of_range( s ); }
   void __throw_out_of_range_fmt( const char *s, ... ) { throw out_of_range( s ); }
   void __throw_runtime_error( const char *s ) { throw runtime_error( s ); }
   void __throw_range_error( const char *s ) { throw range_error( s ); }
   void __throw_overflow_error( const char *s ) { throw overflow_error( s ); }

   ostream cout, cerr, clog;
   istream cin;

   // ---- std::map / std::set tree (unbalanced binary search tree with libstdc++'s node layout)
   static _Rb_tree_node_base *vf_inc( _Rb_tree_node_base *x )
   {
      if ( x->_M_right )
      {
         x = x->_M_right;
         while ( x->_M_left ) x = x->_M_left;
         return x;
      }
      _Rb_tree_node_base *y = x->_M_parent;
      while ( x == y->_M_right )
      {
         x = y;
         y = y->_M_parent;
      }
      if ( x->_M_right != y ) x = y;
      return x;
   }
   static _Rb_tree_node_base *vf_dec( _Rb_tree_node_base *x )
   {
      if ( x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x ) return x->_M_right;
      if ( x->_M_left )
      {
         _Rb_tree_node_base *y = x->_M_left;
         while ( y->_M_right ) y = y->_M_right;
         return y;
      }
      _Rb_tree_node_base *y = x->_M_parent;
      while ( x == y->_M_left )
      {
         x = y;
         y = y->_M_parent;
      }
      return y;
   }
   _Rb_tree_node_base *_Rb_tree_increment( _Rb_tree_node_base *x ) throw() { return vf_inc( x ); }
   const _Rb_tree_node_base *_Rb_tree_increment( const _Rb_tree_node_base *x ) throw() { return vf_inc( const_cast<_Rb_tree_node_base *>( x ) ); }
   _Rb_tree_node_base *_Rb_tree_decrement( _Rb_tree_node_base *x ) throw() { return vf_dec( x ); }
   const _Rb_tree_node_base *_Rb_tree_decrement( const _Rb_tree_node_base *x ) throw() { return vf_dec( const_cast<_Rb_tree_node_base *>( x ) ); }
   void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h ) throw()
   {
      x->_M_parent = p;
      x->_M_left = x->_M_right = nullptr;
      x->_M_color = _S_black;
      if ( left )
      {
         p->_M_left = x;
         if ( p == &h )
         {
            h._M_parent = x;
            h._M_right = x;
         }
         else if ( p == h._M_left ) h._M_left = x;
      }
      else
      {
         p->_M_right = x;
         if ( p == h._M_right ) h._M_right = x;
      }
   }
   _Rb_tree_node_base *_Rb_tree_rebalance_for_erase( _Rb_tree_node_base *const z, _Rb_tree_node_base &h ) throw()
   {
      _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
      if ( !y->_M_left ) x = y->_M_right;
      else if ( !y->_M_right ) x = y->_M_left;
      else
      {
         y = y->_M_right;
         while ( y->_M_left ) y = y->_M_left;
         x = y->_M_right;
      }
      if ( y != z )
      {
         z->_M_left->_M_parent = y;
         y->_M_left = z->_M_left;
         if ( y != z->_M_right )
         {
            xp = y->_M_parent;
            if ( x ) x->_M_parent = xp;
            xp->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
         }
         if ( h._M_parent == z ) h._M_parent = y;
         else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = y;
         else z->_M_parent->_M_right = y;
         y->_M_parent = z->_M_parent;
         return z;
      }
      xp = y->_M_parent;
      if ( x ) x->_M_parent = xp;
      if ( h._M_parent == z ) h._M_parent = x;
      else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = x;
      else z->_M_parent->_M_right = x;
      if ( h._M_left == z )
      {
         if ( !z->_M_right ) h._M_left = z->_M_parent;
         else
         {
            _Rb_tree_node_base *m = x;
            while ( m->_M_left ) m = m->_M_left;
            h._M_left = m;
         }
      }
      if ( h._M_right == z )
      {
         if ( !z->_M_left ) h._M_right = z->_M_parent;
         else
         {
            _Rb_tree_node_base *m = x;
            while ( m->_M_right ) m = m->_M_right;
            h._M_right = m;
         }
      }
      return z;
   }

   // ---- entropy: a fixed sequence
   void random_device::_M_init( const string & ) {}
   void random_device::_M_fini() {}
   static unsigned vf_rnd = 12345;
   random_device::result_type random_device::_M_getval() { return vf_rnd = vf_rnd * 1664525u + 1013904223u; }
   double random_device::_M_getentropy() const noexcept { return 32; }
}

extern "C" uint32_t vf_crc_other( const void *p, size_t n, uint32_t poly, uint32_t init, uint32_t fin, int ri, int ro )
{
   return __sym_crc( p, n ) ^ ( poly * 0x9E3779B1u + init + fin * 3u + (uint32_t)ri * 5u + (uint32_t)ro * 7u ) ^ 0x5a5a5a5au;
}

// ---- XML reader
namespace xercesc
{
   MemoryManager *XMLPlatformUtils::fgMemoryManager = nullptr;
   const XMLCh XMLUni::fgSAX2CoreValidation[] = u"a", XMLUni::fgXercesDynamic[] = u"b", XMLUni::fgSAX2CoreNameSpaces[] = u"c",
                                                               XMLUni::fgXercesSchema[] = u"d", XMLUni::fgXercesSchemaFullChecking[] = u"e",
                                                               XMLUni::fgSAX2CoreNameSpacePrefixes[] = u"f", XMLUni::fgXercesLoadSchema[] = u"g",
                                                               XMLUni::fgXercesDisableDefaultEntityResolution[] = u"h";
   void vf_utf8( const XMLCh *s, std::string &out )
   {
      for ( ; *s; s++ )
      {
         uint32_t c = *s;
         if ( c < 0x80 ) { out.push_back( (char)c ); continue; }
         if ( c < 0x800 )
         {
            out.push_back( (char)( 0xC0 | ( c >> 6 ) ) );
            out.push_back( (char)( 0x80 | ( c & 63 ) ) );
            continue;
         }
         if ( c >= 0xD800 && c < 0xDC00 && s[1] >= 0xDC00 && s[1] < 0xE000 )
         {
            c = 0x10000 + ( ( c - 0xD800 ) << 10 ) + ( s[1] - 0xDC00u );
            s++;
            out.push_back( (char)( 0xF0 | ( c >> 18 ) ) );
            out.push_back( (char)( 0x80 | ( ( c >> 12 ) & 63 ) ) );
            out.push_back( (char)( 0x80 | ( ( c >> 6 ) & 63 ) ) );
            out.push_back( (char)( 0x80 | ( c & 63 ) ) );
            continue;
         }
         out.push_back( (char)( 0xE0 | ( c >> 12 ) ) );
         out.push_back( (char)( 0x80 | ( ( c >> 6 ) & 63 ) ) );
         out.push_back( (char)( 0x80 | ( c & 63 ) ) );
      }
   }
   struct VFatal { const char *m; };
   struct VAttr { XS qname, uri, local, value; };
   class VAttrs : public Attributes
   {
   public:
      std::vector<VAttr> v;
      XMLSize_t getLength() const override { return v.size(); }
      const XMLCh *getURI( XMLSize_t i ) const override { return i < v.size() ? v[i].uri.c_str() : nullptr; }
      const XMLCh *getLocalName( XMLSize_t i ) const override { return i < v.size() ? v[i].local.c_str() : nullptr; }
      const XMLCh *getQName( XMLSize_t i ) const override { return i < v.size() ? v[i].qname.c_str() : nullptr; }
      const XMLCh *getValue( XMLSize_t i ) const override { return i < v.size() ? v[i].value.c_str() : nullptr; }
      bool getIndex( const XMLCh *q, XMLSize_t &k ) const override
      {
         for ( size_t i = 0; i < v.size(); i++ )
            if ( XMLString::equals( v[i].qname.c_str(), q ) ) { k = i; return true; }
         return false;
      }
      const XMLCh *getValue( const XMLCh *q ) const override
      {
         XMLSize_t k;
         return getIndex( q, k ) ? v[k].value.c_str() : nullptr;
      }
   };
   struct VParser
   {
      DefaultHandler *h;
      std::string t;
      size_t p = 0;
      struct Ns { XS prefix, uri; size_t depth; };
      std::vector<Ns> ns;
      std::vector<XS> open;

      [[noreturn]] void bad( const char *m ) { throw VFatal{ m }; }
      bool more() const { return p < t.size(); }
      char c() const { return p < t.size() ? t[p] : 0; }
      bool at( const char *s ) const
      {
         for ( size_t i = 0; s[i]; i++ )
            if ( p + i >= t.size() || t[p + i] != s[i] ) return false;
         return true;
      }
      static bool sp( char x ) { return x == ' ' || x == '\t' || x == '\n' || x == '\r'; }
      void ws() { while ( more() && sp( t[p] ) ) p++; }
      static bool nameStart( char x ) { return ( x >= 'a' && x <= 'z' ) || ( x >= 'A' && x <= 'Z' ) || x == '_' || x == ':' || (unsigned char)x >= 0x80; }
      static bool nameChar( char x ) { return nameStart( x ) || ( x >= '0' && x <= '9' ) || x == '-' || x == '.'; }
      // one character (code point) of content, line ends normalised
      uint64_t ch()
      {
         unsigned char a = (unsigned char)t[p++];
         if ( a < 0x80 )
         {
            if ( a == '\r' )
            {
               if ( c() == '\n' ) p++;
               return '\n';
            }
            if ( a < 0x20 && a != '\t' && a != '\n' ) bad( "invalid character" );
            return a;
         }
         int n;
         uint32_t v;
         if ( a >= 0xC2 && a <= 0xDF ) { n = 1; v = a & 31u; }
         else if ( a >= 0xE0 && a <= 0xEF ) { n = 2; v = a & 15u; }
         else if ( a >= 0xF0 && a <= 0xF4 ) { n = 3; v = a & 7u; }
         else bad( "invalid UTF-8" );
         for ( int i = 0; i < n; i++ )
         {
            if ( !more() ) bad( "invalid UTF-8" );
            unsigned char b = (unsigned char)t[p++];
            if ( ( b & 0xC0 ) != 0x80 ) bad( "invalid UTF-8" );
            v = v << 6 | ( b & 63u );
         }
         if ( ( n == 2 && v < 0x800 ) || ( n == 3 && ( v < 0x10000 || v > 0x10FFFF ) ) || ( v >= 0xD800 && v < 0xE000 ) || v == 0xFFFE || v == 0xFFFF ) bad( "invalid UTF-8" );
         return v;
      }
      static void add( XS &o, uint32_t v )
      {
         if ( v >= 0x10000 )
         {
            o.push_back( (XMLCh)( 0xD800 + ( ( v - 0x10000 ) >> 10 ) ) );
            o.push_back( (XMLCh)( 0xDC00 + ( ( v - 0x10000 ) & 0x3FF ) ) );
         }
         else o.push_back( (XMLCh)v );
      }
      XS name()
      {
         XS n;
         if ( !more() || !nameStart( c() ) ) bad( "name expected" );
         while ( more() && nameChar( c() ) )
         {
            if ( (unsigned char)c() < 0x80 ) { n.push_back( (XMLCh)c() ); p++; }
            else add( n, (uint32_t)ch() );
         }
         return n;
      }
      uint32_t reference()
      {
         p++; // &
         if ( c() == '#' )
         {
            p++;
            uint32_t v = 0;
            bool any = false;
            if ( c() == 'x' )
            {
               p++;
               for ( ;; p++ )
               {
                  char k = c();
                  if ( k >= '0' && k <= '9' ) v = v * 16 + (uint32_t)( k - '0' );
                  else if ( k >= 'a' && k <= 'f' ) v = v * 16 + (uint32_t)( k - 'a' + 10 );
                  else if ( k >= 'A' && k <= 'F' ) v = v * 16 + (uint32_t)( k - 'A' + 10 );
                  else break;
                  any = true;
                  if ( v > 0x10FFFF ) bad( "invalid character reference" );
               }
            }
            else
               for ( ; c() >= '0' && c() <= '9'; p++ )
               {
                  v = v * 10 + (uint32_t)( c() - '0' );
                  any = true;
                  if ( v > 0x10FFFF ) bad( "invalid character reference" );
               }
            if ( !any || c() != ';' ) bad( "invalid character reference" );
            p++;
            if ( ( v < 0x20 && v != 9 && v != 10 && v != 13 ) || ( v >= 0xD800 && v < 0xE000 ) || v == 0xFFFE || v == 0xFFFF ) bad( "invalid character reference" );
            return v;
         }
         if ( at( "lt;" ) ) { p += 3; return '<'; }
         if ( at( "gt;" ) ) { p += 3; return '>'; }
         if ( at( "amp;" ) ) { p += 4; return '&'; }
         if ( at( "quot;" ) ) { p += 5; return '"'; }
         if ( at( "apos;" ) ) { p += 5; return '\''; }
         bad( "undefined entity" );
      }
      XS attValue()
      {
         char q = c();
         if ( q != '"' && q != '\'' ) bad( "quote expected" );
         p++;
         XS v;
         for ( ;; )
         {
            if ( !more() ) bad( "unterminated attribute" );
            char k = c();
            if ( k == q ) { p++; return v; }
            if ( k == '<' ) bad( "'<' in attribute" );
            if ( k == '&' ) { add( v, reference() ); continue; }
            uint32_t x = (uint32_t)ch();
            if ( x == '\n' || x == '\t' ) x = ' ';
            add( v, x );
         }
      }
      void split( const XS &q, XS &prefix, XS &local )
      {
         for ( size_t i = 0; i < q.size(); i++ )
            if ( q[i] == ':' )
            {
               prefix.assign( q, 0, i );
               local.assign( q, i + 1, XS::npos );
               if ( i == 0 || local.empty() || local.find( u':' ) != XS::npos ) bad( "bad qualified name" );
               return;
            }
         local = q;
      }
      bool lookup( const XS &prefix, XS &uri )
      {
         for ( size_t i = ns.size(); i > 0; i-- )
            if ( ns[i - 1].prefix == prefix ) { uri = ns[i - 1].uri; return true; }
         if ( prefix == u"xml" ) { uri = u"http://www.w3.org/XML/1998/namespace"; return true; }
         return prefix.empty();
      }
      void comment()
      {
         p += 4;
         for ( ;; )
         {
            if ( !more() ) bad( "unterminated comment" );
            if ( at( "--" ) )
            {
               if ( !at( "-->" ) ) bad( "'--' in comment" );
               p += 3;
               return;
            }
            ch();
         }
      }
      void pi()
      {
         p += 2;
         XS n = name();
         if ( n == u"xml" ) bad( "misplaced XML declaration" );
         for ( ;; )
         {
            if ( !more() ) bad( "unterminated processing instruction" );
            if ( at( "?>" ) ) { p += 2; return; }
            ch();
         }
      }
      void endTag( const XS &q )
      {
         XS prefix, local, uri;
         split( q, prefix, local );
         lookup( prefix, uri );
         h->endElement( uri.c_str(), local.c_str(), q.c_str() );
         open.pop_back();
         while ( !ns.empty() && ns.back().depth > open.size() ) ns.pop_back();
      }
      void startTag()
      {
         p++;
         XS q = name();
         VAttrs a;
         for ( ;; )
         {
            size_t b = p;
            ws();
            if ( !more() ) bad( "unterminated tag" );
            if ( c() == '>' || c() == '/' ) break;
            if ( p == b ) bad( "whitespace expected" );
            VAttr x;
            x.qname = name();
            ws();
            if ( c() != '=' ) bad( "'=' expected" );
            p++;
            ws();
            x.value = attValue();
            for ( size_t i = 0; i < a.v.size(); i++ )
               if ( a.v[i].qname == x.qname ) bad( "duplicate attribute" );
            a.v.push_back( x );
         }
         bool empty = false;
         if ( c() == '/' ) { empty = true; p++; }
         if ( c() != '>' ) bad( "'>' expected" );
         p++;
         open.push_back( q );
         for ( size_t i = 0; i < a.v.size(); i++ )
         {
            XS prefix, local;
            split( a.v[i].qname, prefix, local );
            if ( a.v[i].qname == u"xmlns" ) ns.push_back( Ns{ XS(), a.v[i].value, open.size() } );
            else if ( prefix == u"xmlns" )
            {
               if ( a.v[i].value.empty() ) bad( "empty namespace" );
               if ( local == u"xmlns" || ( local == u"xml" ) != ( a.v[i].value == u"http://www.w3.org/XML/1998/namespace" ) ) bad( "reserved prefix" );
               ns.push_back( Ns{ local, a.v[i].value, open.size() } );
            }
         }
         for ( size_t i = 0; i < a.v.size(); i++ )
         {
            XS prefix, local;
            split( a.v[i].qname, prefix, local );
            a.v[i].local = local;
            if ( prefix == u"xmlns" ) a.v[i].uri = u"http://www.w3.org/2000/xmlns/";
            else if ( !prefix.empty() && !lookup( prefix, a.v[i].uri ) ) bad( "undeclared prefix" );
         }
         XS prefix, local, uri;
         split( q, prefix, local );
         if ( !lookup( prefix, uri ) ) bad( "undeclared prefix" );
         h->startElement( uri.c_str(), local.c_str(), q.c_str(), a );
         if ( empty ) endTag( q );
      }
      void flush( XS &text )
      {
         if ( !text.empty() )
         {
            h->characters( text.c_str(), text.size() );
            text.clear();
         }
      }
      void run()
      {
         if ( t.size() >= 3 && t[0] == '\xEF' && t[1] == '\xBB' && t[2] == '\xBF' ) p = 3;
         if ( at( "<?xml " ) )
         {
            while ( more() && !at( "?>" ) ) p++;
            if ( !more() ) bad( "unterminated declaration" );
            p += 2;
         }
         bool seen = false;
         XS text;
         for ( ;; )
         {
            if ( open.empty() )
            {
               ws();
               if ( !more() )
               {
                  if ( !seen ) bad( "no root element" );
                  h->endDocument();
                  return;
               }
               if ( at( "<!--" ) ) { comment(); continue; }
               if ( at( "<?" ) ) { pi(); continue; }
               if ( at( "<!" ) ) vf_unmodelled( "DOCTYPE" );
               if ( c() != '<' || seen ) bad( "content outside the root element" );
               seen = true;
               startTag();
               continue;
            }
            if ( !more() ) bad( "unexpected end" );
            char k = c();
            if ( k == '<' )
            {
               if ( at( "<!--" ) ) { flush( text ); comment(); continue; }
               if ( at( "<![CDATA[" ) )
               {
                  flush( text );
                  p += 9;
                  for ( ;; )
                  {
                     if ( !more() ) bad( "unterminated CDATA" );
                     if ( c() == ']' && at( "]]>" ) ) { p += 3; break; }
                     add( text, ch() );
                  }
                  flush( text );
                  continue;
               }
               flush( text );
               if ( at( "<?" ) ) { pi(); continue; }
               if ( at( "</" ) )
               {
                  p += 2;
                  XS q = name();
                  ws();
                  if ( c() != '>' ) bad( "'>' expected" );
                  p++;
                  if ( q != open.back() ) bad( "mismatched end tag" );
                  endTag( q );
                  continue;
               }
               startTag();
               continue;
            }
            if ( k == '&' ) { flush( text ); add( text, reference() ); continue; }
            if ( k == ']' && at( "]]>" ) ) bad( "']]>' in text" );
            add( text, ch() );
         }
      }
   };
   void SAX2XMLReader::parse( const InputSource &src )
   {
      BinInputStream *s = src.makeStream();
      VParser v;
      v.h = h_;
      try
      {
         const size_t chunk = 48 * 1024;
         XMLByte *b = new XMLByte[chunk];
         try
         {
            for ( ;; )
            {
               size_t n = s->readBytes( b, chunk );
               if ( n == 0 ) break;
               v.t.append( (const char *)b, n );
            }
         }
         catch ( ... )
         {
            delete[] b;
            throw;
         }
         delete[] b;
         h_->startDocument();
         v.run();
      }
      catch ( const VFatal &f )
      {
         delete s;
         SAXParseException e;
         for ( const char *m = f.m; *m; m++ ) e.msg.push_back( (XMLCh)*m );
         if ( eh_ ) eh_->fatalError( e );
         return;
      }
      catch ( ... )
      {
         delete s;
         throw;
      }
      delete s;
   }
}

// ---- containers whose code is in the C++ library itself
#include <list>
#include <unordered_map>
namespace std
{
   namespace __detail
   {
      void _List_node_base::_M_hook( _List_node_base *p ) noexcept
      {
         _M_next = p;
         _M_prev = p->_M_prev;
         p->_M_prev->_M_next = this;
         p->_M_prev = this;
      }
      void _List_node_base::_M_unhook() noexcept
      {
         _M_next->_M_prev = _M_prev;
         _M_prev->_M_next = _M_next;
      }
      void _List_node_base::_M_transfer( _List_node_base *first, _List_node_base *last ) noexcept
      {
         if ( this == last ) return;
         last->_M_prev->_M_next = this;
         first->_M_prev->_M_next = last;
         _M_prev->_M_next = first;
         _List_node_base *t = _M_prev;
         _M_prev = last->_M_prev;
         last->_M_prev = first->_M_prev;
         first->_M_prev = t;
      }
      size_t _Prime_rehash_policy::_M_next_bkt( size_t n ) const
      {
         static const size_t primes[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731, 236897 };
         size_t r = 480881;
         for ( size_t p : primes )
            if ( p >= n )
            {
               r = p;
               break;
            }
         _M_next_resize = (size_t)( (double)r * _M_max_load_factor );
         return r;
      }
      pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash( size_t bkt, size_t elt, size_t ins ) const
      {
         if ( elt + ins <= _M_next_resize ) return { false, 0 };
         const double least = (double)( elt + ins ) / _M_max_load_factor;
         if ( least >= (double)bkt ) return { true, _M_next_bkt( (size_t)least + 1 > 2 * bkt ? (size_t)least + 1 : 2 * bkt ) };
         _M_next_resize = (size_t)( (double)bkt * _M_max_load_factor );
         return { false, 0 };
      }
   }
   size_t _Hash_bytes( const void *p, size_t n, size_t seed )
   {
      size_t h = seed;
      for ( size_t i = 0; i < n; i++ ) h = h * 31 + ( (const unsigned char *)p )[i];
      return h;
   }
   size_t _Fnv_hash_bytes( const void *p, size_t n, size_t seed ) { return _Hash_bytes( p, n, seed ); }
}
// ---- formatted output of C, by way of the stream model
#include <cstdarg>
#include <sstream>
extern "C" int vsnprintf( char *buf, size_t size, const char *f, va_list ap ) noexcept
{
   std::ostringstream o;
   o.imbue( std::locale::classic() );
   for ( ; *f; f++ )
   {
      if ( *f != '%' )
      {
         o << *f;
         continue;
      }
      f++;
      if ( *f == '%' )
      {
         o << '%';
         continue;
      }
      o.flags( std::ios_base::fmtflags() );
      o.fill( ' ' );
      for ( ;; f++ )
      {
         if ( *f == '0' ) o.fill( '0' );
         else if ( *f == '-' ) o.setf( std::ios_base::left );
         else if ( *f == '+' ) o.setf( std::ios_base::showpos );
         else if ( *f == '#' ) o.setf( std::ios_base::showbase );
         else break;
      }
      int width = 0, precision = -1;
      if ( *f == '*' )
      {
         width = va_arg( ap, int );
         f++;
      }
      else
         for ( ; *f >= '0' && *f <= '9'; f++ ) width = width * 10 + ( *f - '0' );
      if ( *f == '.' )
      {
         f++;
         precision = 0;
         if ( *f == '*' )
         {
            precision = va_arg( ap, int );
            f++;
         }
         else
            for ( ; *f >= '0' && *f <= '9'; f++ ) precision = precision * 10 + ( *f - '0' );
      }
      int big = 0;
      for ( ; *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h'; f++ )
         if ( *f != 'h' ) big = 1;
      o.width( width );
      switch ( *f )
      {
      case 'd':
      case 'i':
         if ( big ) o << va_arg( ap, long );
         else o << va_arg( ap, int );
         break;
      case 'X': o.setf( std::ios_base::uppercase );
      // fall through
      case 'x': o.setf( std::ios_base::hex );
      // fall through
      case 'u':
         if ( big ) o << va_arg( ap, unsigned long );
         else o << va_arg( ap, unsigned );
         break;
      case 'c': o << (char)va_arg( ap, int ); break;
      case 's':
      {
         const char *t = va_arg( ap, const char * );
         if ( precision < 0 ) o << t;
         else o << std::string( t, strnlen( t, (size_t)precision ) );
         break;
      }
      case 'e':
      case 'f':
      case 'g':
         if ( *f == 'e' ) o.setf( std::ios_base::scientific );
         if ( *f == 'f' ) o.setf( std::ios_base::fixed );
         o.precision( precision < 0 ? 6 : precision );
         o << va_arg( ap, double );
         break;
      default: vf_unmodelled( "output format" );
      }
   }
   const std::string t = o.str();
   for ( size_t i = 0; i < size && i <= t.size(); i++ ) buf[i] = i + 1 < size && i < t.size() ? t[i] : 0;
   return (int)t.size();
}
extern "C" int snprintf( char *buf, size_t size, const char *f, ... ) noexcept
{
   va_list ap;
   va_start( ap, f );
   const int n = vsnprintf( buf, size, f, ap );
   va_end( ap );
   return n;
}
extern "C" int sprintf( char *buf, const char *f, ... ) noexcept
{
   va_list ap;
   va_start( ap, f );
   const int n = vsnprintf( buf, (size_t)1 << 30, f, ap );
   va_end( ap );
   return n;
}
namespace std
{
   template <class T> static string vf_text( T v )
   {
      ostringstream o;
      o.imbue( locale::classic() );
      o << v;
      return o.str();
   }
   string vf_to_string( long v ) { return vf_text( v ); }
   string vf_to_string( unsigned long v ) { return vf_text( v ); }
   string vf_to_string( double v )
   {
      char b[512];
      snprintf( b, sizeof b, "%f", v );
      return b;
   }
}
