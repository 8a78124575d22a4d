// Streams reduced to what a string formatter / parser needs.  Replaces libstdc++'s locale-based
// implementation in the symbolic build only.
#pragma once
#include <string>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cctype>
#include <cstdio>
#include <limits>
#include <stdexcept>
#include <iosfwd>
#include <bits/localefwd.h>

extern "C" int __sym_fmt_double( char *buf, size_t size, int prec, int kind, uint64_t bits );
extern "C" int __sym_is_symbolic( const void *p, size_t n );
// 0: digits of symbolic numbers are computed exactly; 1: symbolic numbers print as "?" (messages only);
// 2: a symbolic number prints as a unique decimal text that reads back as the number; 3: as 2, but
// digits of floating point numbers of the form vf_exact_m / 2^vf_exact_shift are exact; 4: as 2 without special cases
extern "C" int vf_opaque_numbers;
extern "C" int vf_global_locale; // 0 "C"; 1 groups thousands with '.' and has a decimal ','
extern "C" size_t vf_tok_int( char *buf, uint64_t v );
extern "C" size_t vf_tok_double( char *buf, int prec, uint64_t bits, int single );
extern "C" int vf_tok_find( const char *text, uint64_t *bits, size_t *used, int kind );

namespace std
{
   typedef long streamsize_vf;

   class locale
   {
   public:
      int kind_;
      locale() : kind_( vf_global_locale ) {}
      explicit locale( const char * ) : kind_( 0 ) {}
      explicit locale( const string & ) : kind_( 0 ) {}
      locale( const locale &l ) : kind_( l.kind_ ) {}
      locale &operator=( const locale &l ) { kind_ = l.kind_; return *this; }
      ~locale() {}
      static const locale &classic()
      {
         static locale l( "C" );
         return l;
      }
      static locale global( const locale &l ) { locale o; vf_global_locale = l.kind_; return o; }
      string name() const { return "C"; }
      bool operator==( const locale &l ) const { return kind_ == l.kind_; }
   };

   class ios_base
   {
   public:
      typedef unsigned fmtflags;
      static constexpr fmtflags dec = 1, hex = 2, oct = 4, fixed = 8, scientific = 16, left = 32, right = 64, internal = 128, boolalpha = 256,
                                showbase = 512, showpoint = 1024, uppercase = 2048, skipws = 4096, showpos = 8192, unitbuf = 16384,
                                basefield = 7, floatfield = 24, adjustfield = 224;
      typedef unsigned iostate;
      static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
      typedef unsigned openmode;
      static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
      enum seekdir { beg, cur, end };
      class Init {};
      class failure {};
      fmtflags flags_ = dec | skipws;
      long prec_ = 6, width_ = 0;
      iostate state_ = 0;
      fmtflags flags() const { return flags_; }
      fmtflags flags( fmtflags f ) { fmtflags o = flags_; flags_ = f; return o; }
      fmtflags setf( fmtflags f ) { fmtflags o = flags_; flags_ |= f; return o; }
      fmtflags setf( fmtflags f, fmtflags m ) { fmtflags o = flags_; flags_ = ( flags_ & ~m ) | ( f & m ); return o; }
      void unsetf( fmtflags f ) { flags_ &= ~f; }
      long precision() const { return prec_; }
      long precision( long p ) { long o = prec_; prec_ = p; return o; }
      long width() const { return width_; }
      long width( long w ) { long o = width_; width_ = w; return o; }
      locale loc_;
      locale imbue( const locale &l ) { locale o( loc_ ); loc_ = l; return o; }
      locale getloc() const { return loc_; }
      virtual ~ios_base() {}
   };

   template <> class basic_streambuf<char, char_traits<char>>
   {
   };

   template <> class basic_ios<char, char_traits<char>> : public ios_base
   {
   public:
      char fill_ = ' ';
      iostate rdstate() const { return state_; }
      void clear( iostate s = goodbit ) { state_ = s; }
      void setstate( iostate s ) { state_ |= s; }
      bool good() const { return state_ == 0; }
      bool eof() const { return state_ & eofbit; }
      bool fail() const { return state_ & ( badbit | failbit ); }
      bool bad() const { return state_ & badbit; }
      explicit operator bool() const { return !fail(); }
      bool operator!() const { return fail(); }
      char fill() const { return fill_; }
      char fill( char c ) { char o = fill_; fill_ = c; return o; }
      void exceptions( iostate ) {}
   };

   template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char>
   {
   public:
      string *out_ = nullptr;
      basic_ostream() {}
      explicit basic_ostream( basic_streambuf<char> * ) {}
      void emit( const char *s, size_t n )
      {
         size_t pad = width_ > (long)n ? (size_t)width_ - n : 0;
         width_ = 0;
         if ( !out_ ) return;
         if ( pad && !( flags_ & left ) ) out_->append( pad, fill_ );
         out_->append( s, n );
         if ( pad && ( flags_ & left ) ) out_->append( pad, fill_ );
      }
      void unum( unsigned long v, bool neg )
      {
         if ( __sym_is_symbolic( &v, sizeof v ) && vf_opaque_numbers == 1 )
         {
            emit( "?", 1 );
            return;
         }
         char b[96];
         int p = 96;
         const int end = p;
         if ( flags_ & hex )
         {
            const char *dg = ( flags_ & uppercase ) ? "0123456789ABCDEF" : "0123456789abcdef";
            do { b[--p] = dg[v & 15]; v >>= 4; } while ( v );
            if ( flags_ & showbase ) { b[--p] = 'x'; b[--p] = '0'; }
         }
         else if ( flags_ & oct )
            do { b[--p] = (char)( '0' + ( v & 7 ) ); v >>= 3; } while ( v );
         else
         {
            int k = 0;
            do
            {
               if ( loc_.kind_ && k && k % 3 == 0 ) b[--p] = '.';
               k++;
               b[--p] = (char)( '0' + v % 10 );
               v /= 10;
            } while ( v );
         }
         if ( neg ) b[--p] = '-';
         else if ( flags_ & showpos ) b[--p] = '+';
         emit( b + p, (size_t)( end - p ) );
      }
      void token( uint64_t v )
      {
         char b[40];
         size_t n = vf_tok_int( b, v );
         if ( loc_.kind_ && n > 3 )
         {
            b[n + 1] = 0;
            for ( size_t i = n; i > n - 3; i-- ) b[i] = b[i - 1];
            b[n++ - 3] = '.';
         }
         emit( b, n );
      }
      void inum( long v )
      {
         if ( flags_ & ( hex | oct ) ) { unum( (unsigned long)v, false ); return; }
         if ( vf_opaque_numbers >= 2 && __sym_is_symbolic( &v, sizeof v ) )
         {
            if ( v == numeric_limits<long>::min() ) { emit( "-9223372036854775808", 20 ); return; }
            if ( v == numeric_limits<long>::max() ) { emit( "9223372036854775807", 19 ); return; }
            token( (uint64_t)v );
            return;
         }
         if ( v < 0 ) unum( 0UL - (unsigned long)v, true );
         else unum( (unsigned long)v, false );
      }
      void fnum( double d, int single = 0 )
      {
         if ( __sym_is_symbolic( &d, sizeof d ) && vf_opaque_numbers == 1 )
         {
            emit( "?", 1 );
            return;
         }
         char b[512];
         uint64_t u;
         memcpy( &u, &d, 8 );
         if ( __sym_is_symbolic( &d, sizeof d ) && vf_opaque_numbers >= 2 )
         {
            // extreme and unlucky values are printed for real, like everything concrete
            static const uint64_t real[] = { 0, 0x8000000000000000ULL, 0x7FF0000000000000ULL, 0xFFF0000000000000ULL, 0x7FEFFFFFFFFFFFFFULL, 0xFFEFFFFFFFFFFFFFULL, 1, 0x3FB999999999999BULL };
            static const uint64_t realf[] = { 0, 0x8000000000000000ULL, 0x7FF0000000000000ULL, 0xFFF0000000000000ULL, 0x47EFFFFFE0000000ULL, 0xC7EFFFFFE0000000ULL, 0x36A0000000000000ULL, 0x408F400020000000ULL };
            bool done = vf_opaque_numbers >= 3;
            for ( int i = 0; i < 8 && !done; i++ )
            {
               const uint64_t r = single ? realf[i] : real[i];
               if ( u == r )
               {
                  u = r;
                  done = true;
               }
            }
            if ( !done && ( u & 0x7FFFFFFFFFFFFFFFULL ) > 0x7FF0000000000000ULL )
            {
               if ( u >> 63 ) emit( "-nan", 4 );
               else emit( "nan", 3 );
               return;
            }
            if ( __sym_is_symbolic( &u, sizeof u ) )
            {
               size_t n = vf_tok_double( b, (int)prec_, u, single );
               if ( loc_.kind_ )
                  for ( size_t i = 0; i < n; i++ )
                     if ( b[i] == '.' ) b[i] = ',';
               emit( b, n );
               return;
            }
         }
         int k = ( flags_ & floatfield ) == scientific ? 'e' : ( flags_ & floatfield ) == fixed ? 'f' : 'g';
         int n = __sym_fmt_double( b, sizeof b, (int)( k == 'g' && prec_ == 0 ? 1 : prec_ ), k, u );
         if ( loc_.kind_ )
            for ( int i = 0; i < n; i++ )
               if ( b[i] == '.' ) b[i] = ',';
         emit( b, (size_t)n );
      }
      basic_ostream &operator<<( short v ) { if ( flags_ & ( hex | oct ) ) unum( (unsigned short)v, false ); else inum( v ); return *this; }
      basic_ostream &operator<<( int v ) { if ( flags_ & ( hex | oct ) ) unum( (unsigned)v, false ); else inum( v ); return *this; }
      basic_ostream &operator<<( long v ) { inum( v ); return *this; }
      basic_ostream &operator<<( long long v ) { inum( v ); return *this; }
      basic_ostream &operator<<( unsigned short v ) { unum( v, false ); return *this; }
      basic_ostream &operator<<( unsigned v ) { unum( v, false ); return *this; }
      basic_ostream &operator<<( unsigned long v ) { if ( vf_opaque_numbers >= 2 && __sym_is_symbolic( &v, sizeof v ) && !( flags_ & ( hex | oct ) ) ) token( v ); else unum( v, false ); return *this; }
      basic_ostream &operator<<( unsigned long long v ) { return *this << (unsigned long)v; }
      basic_ostream &operator<<( bool v ) { if ( flags_ & boolalpha ) { if ( v ) emit( "true", 4 ); else emit( "false", 5 ); } else unum( v, false ); return *this; }
      basic_ostream &operator<<( double v ) { fnum( v ); return *this; }
      basic_ostream &operator<<( float v ) { fnum( v, 1 ); return *this; }
      basic_ostream &operator<<( const void *p ) { emit( "0x0", 3 ); (void)p; return *this; }
      basic_ostream &operator<<( basic_ostream &( *f )( basic_ostream & ) ) { return f( *this ); }
      basic_ostream &operator<<( basic_ios<char> &( *f )( basic_ios<char> & ) ) { f( *this ); return *this; }
      basic_ostream &operator<<( ios_base &( *f )( ios_base & ) ) { f( *this ); return *this; }
      basic_ostream &put( char c ) { if ( out_ ) out_->push_back( c ); return *this; }
      basic_ostream &write( const char *s, long n ) { if ( out_ ) out_->append( s, (size_t)n ); return *this; }
      basic_ostream &flush() { return *this; }
   };
   inline ostream &operator<<( ostream &o, const char *s ) { o.emit( s, strlen( s ) ); return o; }
   inline ostream &operator<<( ostream &o, const signed char *s ) { o.emit( (const char *)s, strlen( (const char *)s ) ); return o; }
   inline ostream &operator<<( ostream &o, const unsigned char *s ) { o.emit( (const char *)s, strlen( (const char *)s ) ); return o; }
   inline ostream &operator<<( ostream &o, char c ) { o.emit( &c, 1 ); return o; }
   inline ostream &operator<<( ostream &o, signed char c ) { o.emit( (const char *)&c, 1 ); return o; }
   inline ostream &operator<<( ostream &o, unsigned char c ) { o.emit( (const char *)&c, 1 ); return o; }
   inline ostream &operator<<( ostream &o, const string &s ) { o.emit( s.data(), s.size() ); return o; }
   inline ostream &endl( ostream &o ) { return o.put( '\n' ); }
   inline ostream &ends( ostream &o ) { return o.put( 0 ); }
   inline ostream &flush( ostream &o ) { return o; }
   inline ios_base &hex( ios_base &b ) { b.setf( ios_base::hex, ios_base::basefield ); return b; }
   inline ios_base &dec( ios_base &b ) { b.setf( ios_base::dec, ios_base::basefield ); return b; }
   inline ios_base &oct( ios_base &b ) { b.setf( ios_base::oct, ios_base::basefield ); return b; }
   inline ios_base &fixed( ios_base &b ) { b.setf( ios_base::fixed, ios_base::floatfield ); return b; }
   inline ios_base &scientific( ios_base &b ) { b.setf( ios_base::scientific, ios_base::floatfield ); return b; }
   inline ios_base &defaultfloat( ios_base &b ) { b.unsetf( ios_base::floatfield ); return b; }
   inline ios_base &left( ios_base &b ) { b.setf( ios_base::left, ios_base::adjustfield ); return b; }
   inline ios_base &right( ios_base &b ) { b.setf( ios_base::right, ios_base::adjustfield ); return b; }
   inline ios_base &internal( ios_base &b ) { b.setf( ios_base::internal, ios_base::adjustfield ); return b; }
   inline ios_base &boolalpha( ios_base &b ) { b.setf( ios_base::boolalpha ); return b; }
   inline ios_base &noboolalpha( ios_base &b ) { b.unsetf( ios_base::boolalpha ); return b; }
   inline ios_base &uppercase( ios_base &b ) { b.setf( ios_base::uppercase ); return b; }
   inline ios_base &nouppercase( ios_base &b ) { b.unsetf( ios_base::uppercase ); return b; }
   inline ios_base &showbase( ios_base &b ) { b.setf( ios_base::showbase ); return b; }
   inline ios_base &showpos( ios_base &b ) { b.setf( ios_base::showpos ); return b; }
   inline ios_base &skipws( ios_base &b ) { b.setf( ios_base::skipws ); return b; }
   inline ios_base &noskipws( ios_base &b ) { b.unsetf( ios_base::skipws ); return b; }
   struct vf_setw { int n; };
   struct vf_setprec { int n; };
   struct vf_setfill { char c; };
   inline vf_setw setw( int n ) { return vf_setw{ n }; }
   inline vf_setprec setprecision( int n ) { return vf_setprec{ n }; }
   inline vf_setfill setfill( char c ) { return vf_setfill{ c }; }
   inline ostream &operator<<( ostream &o, vf_setw w ) { o.width( w.n ); return o; }
   inline ostream &operator<<( ostream &o, vf_setprec w ) { o.precision( w.n ); return o; }
   inline ostream &operator<<( ostream &o, vf_setfill w ) { o.fill( w.c ); return o; }

   template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char>
   {
   public:
      string *in_ = nullptr;
      size_t pos_ = 0;
      basic_istream() {}
      explicit basic_istream( basic_streambuf<char> * ) {}
      int get() { if ( !in_ || pos_ >= in_->size() ) { state_ |= eofbit | failbit; return -1; } return (unsigned char)( *in_ )[pos_++]; }
      basic_istream &get( char &c ) { int k = get(); if ( k >= 0 ) c = (char)k; return *this; }
      int peek() { if ( !in_ || pos_ >= in_->size() ) { state_ |= eofbit; return -1; } return (unsigned char)( *in_ )[pos_]; }
      void skip() { while ( in_ && pos_ < in_->size() && ( ( *in_ )[pos_] == ' ' || ( ( *in_ )[pos_] >= 9 && ( *in_ )[pos_] <= 13 ) ) ) pos_++; }
      static bool numc( char c ) { return ( c >= '0' && c <= '9' ) || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E'; }
      template <class T> void fl( T &v )
      {
         if ( fail() ) return;
         skip();
         string t;
         if ( vf_opaque_numbers >= 2 && in_ && !loc_.kind_ )
         {
            uint64_t u;
            size_t used;
            double d;
            if ( vf_tok_find( in_->c_str() + pos_, &u, &used, 'e' ) )
            {
               memcpy( &d, &u, 8 );
               pos_ += used;
               if ( pos_ >= in_->size() ) state_ |= eofbit;
               v = (T)d;
               return;
            }
         }
         while ( in_ && pos_ < in_->size() && ( numc( ( *in_ )[pos_] ) || ( loc_.kind_ && ( *in_ )[pos_] == ',' ) ) )
         {
            char c = ( *in_ )[pos_];
            if ( loc_.kind_ && c == ',' ) c = '.';
            else if ( loc_.kind_ && c == '.' ) { pos_++; continue; }
            if ( ( c == '+' || c == '-' ) && !t.empty() && t.back() != 'e' && t.back() != 'E' ) break;
            t.push_back( c );
            pos_++;
         }
         if ( in_ && pos_ >= in_->size() ) state_ |= eofbit;
         char *e = nullptr;
         double d = t.empty() ? 0 : strtod( t.c_str(), &e );
         if ( t.empty() || *e ) { v = 0; state_ |= failbit; return; }
         v = (T)d;
         if ( d > 1.7976931348623157e308 ) { v = (T)1.7976931348623157e308; state_ |= failbit; }
         if ( d < -1.7976931348623157e308 ) { v = (T)-1.7976931348623157e308; state_ |= failbit; }
      }
      template <class T> void in( T &v )
      {
         if ( fail() ) return;
         skip();
         string t;
         while ( in_ && pos_ < in_->size() && ( ( ( *in_ )[pos_] >= '0' && ( *in_ )[pos_] <= '9' ) || ( t.empty() && ( ( *in_ )[pos_] == '-' || ( *in_ )[pos_] == '+' ) ) ) ) t.push_back( ( *in_ )[pos_++] );
         if ( in_ && pos_ >= in_->size() ) state_ |= eofbit;
         if ( t.empty() || t == "-" || t == "+" ) { v = 0; state_ |= failbit; return; }
         v = (T)strtoll( t.c_str(), nullptr, 10 );
      }
      basic_istream &operator>>( double &v ) { fl( v ); return *this; }
      basic_istream &operator>>( float &v ) { fl( v ); return *this; }
      basic_istream &operator>>( int &v ) { in( v ); return *this; }
      basic_istream &operator>>( unsigned &v ) { in( v ); return *this; }
      basic_istream &operator>>( long &v ) { in( v ); return *this; }
      basic_istream &operator>>( unsigned long &v ) { in( v ); return *this; }
      basic_istream &operator>>( long long &v ) { in( v ); return *this; }
      basic_istream &operator>>( unsigned long long &v ) { in( v ); return *this; }
      basic_istream &operator>>( short &v ) { in( v ); return *this; }
      basic_istream &operator>>( unsigned short &v ) { in( v ); return *this; }
      basic_istream &operator>>( ios_base &( *f )( ios_base & ) ) { f( *this ); return *this; }
   };
   inline istream &operator>>( istream &i, char &c ) { i.skip(); int k = i.get(); if ( k >= 0 ) c = (char)k; return i; }
   inline istream &operator>>( istream &i, string &s )
   {
      s.clear();
      i.skip();
      while ( i.in_ && i.pos_ < i.in_->size() )
      {
         char c = ( *i.in_ )[i.pos_];
         if ( c == ' ' || ( c >= 9 && c <= 13 ) ) break;
         s.push_back( c );
         i.pos_++;
      }
      if ( i.in_ && i.pos_ >= i.in_->size() ) i.setstate( ios_base::eofbit );
      if ( s.empty() ) i.setstate( ios_base::failbit );
      return i;
   }
   inline istream &getline( istream &i, string &s, char d = '\n' )
   {
      s.clear();
      bool any = false;
      while ( i.in_ && i.pos_ < i.in_->size() )
      {
         char c = ( *i.in_ )[i.pos_++];
         any = true;
         if ( c == d ) return i;
         s.push_back( c );
      }
      i.setstate( ios_base::eofbit );
      if ( !any ) i.setstate( ios_base::failbit );
      return i;
   }
   inline istream &ws( istream &i ) { i.skip(); return i; }
   template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char>
   {
   };
   inline namespace __cxx11
   {
      template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char>
      {
         string buf_;
      public:
         basic_ostringstream() { out_ = &buf_; }
         explicit basic_ostringstream( const string &s ) : buf_( s ) { out_ = &buf_; }
         string str() const { return buf_; }
         void str( const string &s ) { buf_ = s; }
      };
      template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char>
      {
         string buf_;
      public:
         basic_istringstream() { in_ = &buf_; }
         explicit basic_istringstream( const string &s ) : buf_( s ) { in_ = &buf_; }
         string str() const { return buf_; }
         void str( const string &s ) { buf_ = s; pos_ = 0; }
      };
      template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char>
      {
         string buf_;
      public:
         basic_stringstream() { in_ = out_ = &buf_; }
         explicit basic_stringstream( const string &s ) : buf_( s ) { in_ = out_ = &buf_; }
         string str() const { return buf_; }
         void str( const string &s ) { buf_ = s; pos_ = 0; }
      };
   }
   extern ostream cout, cerr, clog;
   extern istream cin;
}
