#include <stddef.h>
// ---- libc bits
static int vf_errno;
int *__errno_location( void ) { return &vf_errno; }
char *strerror( int ) { return (char *)"error"; }
int strncmp( const char *a, const char *b, size_t n )
{
   for ( size_t i = 0; i < n; i++ )
   {
      if ( a[i] != b[i] ) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
      if ( !a[i] ) break;
   }
   return 0;
}
int strcmp( const char *a, const char *b ) { return strncmp( a, b, ~(size_t)0 ); }
char *strchr( const char *s, int c )
{
   for ( ;; s++ )
   {
      if ( *s == (char)c ) return (char *)s;
      if ( !*s ) return 0;
   }
}
static unsigned long long vf_strtou( const char *s, char **end, int *pneg, int *pover, int base )
{
   const char *p = s;
   int neg = 0, over = 0;
   while ( *p == ' ' || ( *p >= 9 && *p <= 13 ) ) p++;
   if ( *p == '-' ) { neg = 1; p++; }
   else if ( *p == '+' ) p++;
   if ( base == 0 ) base = 10;
   unsigned long long v = 0;
   const char *d = p;
   for ( ;; p++ )
   {
      unsigned k;
      if ( *p >= '0' && *p <= '9' ) k = (unsigned)( *p - '0' );
      else if ( base > 10 && *p >= 'a' && *p <= 'z' ) k = (unsigned)( *p - 'a' + 10 );
      else if ( base > 10 && *p >= 'A' && *p <= 'Z' ) k = (unsigned)( *p - 'A' + 10 );
      else break;
      if ( k >= (unsigned)base ) break;
      if ( over || v > ( ~0ULL - k ) / (unsigned)base ) over = 1;
      else v = v * (unsigned)base + k;
   }
   *pneg = neg;
   *pover = over;
   if ( end ) *end = (char *)( p == d ? s : p );
   return v;
}
extern int vf_opaque_numbers;
int vf_tok_find( const char *text, unsigned long *bits, unsigned long *used, int kind );
long long vf_strtoll( const char *s, char **end, int base )
{
   int neg, over;
   unsigned long bits, used;
   if ( vf_opaque_numbers >= 2 && vf_tok_find( s, &bits, &used, 'd' ) )
   {
      if ( end ) *end = (char *)s + used;
      return (long long)bits;
   }
   unsigned long long v = vf_strtou( s, end, &neg, &over, base );
   if ( neg )
   {
      if ( over || v > 0x8000000000000000ULL ) { vf_errno = 34; return (long long)0x8000000000000000ULL; }
      return (long long)( 0 - v );
   }
   if ( over || v > 0x7fffffffffffffffULL ) { vf_errno = 34; return 0x7fffffffffffffffLL; }
   return (long long)v;
}
long long strtoll( const char *s, char **e, int b ) { return vf_strtoll( s, e, b ); }
long strtol( const char *s, char **e, int b ) { return vf_strtoll( s, e, b ); }
long long __isoc23_strtoll( const char *s, char **e, int b ) { return vf_strtoll( s, e, b ); }
long __isoc23_strtol( const char *s, char **e, int b ) { return vf_strtoll( s, e, b ); }
unsigned long long vf_strtoull( const char *s, char **e, int b )
{
   int neg, over;
   unsigned long long v = vf_strtou( s, e, &neg, &over, b );
   if ( over ) { vf_errno = 34; return ~0ULL; }
   return neg ? 0 - v : v;
}
unsigned long long strtoull( const char *s, char **e, int b ) { return vf_strtoull( s, e, b ); }
unsigned long strtoul( const char *s, char **e, int b ) { return vf_strtoull( s, e, b ); }
unsigned long long __isoc23_strtoull( const char *s, char **e, int b ) { return vf_strtoull( s, e, b ); }
unsigned long __isoc23_strtoul( const char *s, char **e, int b ) { return vf_strtoull( s, e, b ); }
long long atoll( const char *s ) { return vf_strtoll( s, 0, 10 ); }
long atol( const char *s ) { return vf_strtoll( s, 0, 10 ); }
int atoi( const char *s ) { return (int)vf_strtoll( s, 0, 10 ); }

char *strncpy( char *d, const char *s, size_t n )
{
   size_t i = 0;
   for ( ; i < n && s[i]; i++ ) d[i] = s[i];
   for ( ; i < n; i++ ) d[i] = 0;
   return d;
}
char *strcpy( char *d, const char *s )
{
   size_t i = 0;
   for ( ; s[i]; i++ ) d[i] = s[i];
   d[i] = 0;
   return d;
}
char *strrchr( const char *s, int c )
{
   char *r = 0;
   for ( ;; s++ )
   {
      if ( *s == (char)c ) r = (char *)s;
      if ( !*s ) return r;
   }
}
int isspace( int c ) { return c == ' ' || ( c >= 9 && c <= 13 ); }
int isdigit( int c ) { return c >= '0' && c <= '9'; }
int isalpha( int c ) { return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ); }
int isalnum( int c ) { return isdigit( c ) || isalpha( c ); }
int isxdigit( int c ) { return isdigit( c ) || ( c >= 'a' && c <= 'f' ) || ( c >= 'A' && c <= 'F' ); }
int isupper( int c ) { return c >= 'A' && c <= 'Z'; }
int islower( int c ) { return c >= 'a' && c <= 'z'; }
int tolower( int c ) { return isupper( c ) ? c + 32 : c; }
int toupper( int c ) { return islower( c ) ? c - 32 : c; }
int ispunct( int c ) { return c > 32 && c < 127 && !isalnum( c ); }
int isprint( int c ) { return c >= 32 && c < 127; }
int iscntrl( int c ) { return ( c >= 0 && c < 32 ) || c == 127; }
char *stpcpy( char *d, const char *s )
{
   while ( ( *d = *s++ ) ) d++;
   return d;
}
char *strcat( char *d, const char *s )
{
   char *e = d;
   while ( *e ) e++;
   strcpy( e, s );
   return d;
}
char *strncat( char *d, const char *s, size_t n )
{
   char *e = d;
   while ( *e ) e++;
   size_t i = 0;
   for ( ; i < n && s[i]; i++ ) e[i] = s[i];
   e[i] = 0;
   return d;
}
size_t strnlen( const char *s, size_t n )
{
   size_t i = 0;
   while ( i < n && s[i] ) i++;
   return i;
}
char *strstr( const char *s, const char *t )
{
   size_t n = 0;
   while ( t[n] ) n++;
   for ( ;; s++ )
   {
      if ( strncmp( s, t, n ) == 0 ) return (char *)s;
      if ( !*s ) return 0;
   }
}
size_t strspn( const char *s, const char *t )
{
   size_t i = 0;
   while ( s[i] && strchr( t, s[i] ) ) i++;
   return i;
}
size_t strcspn( const char *s, const char *t )
{
   size_t i = 0;
   while ( s[i] && !strchr( t, s[i] ) ) i++;
   return i;
}
char *strpbrk( const char *s, const char *t )
{
   s += strcspn( s, t );
   return *s ? (char *)s : 0;
}
int strcasecmp( const char *a, const char *b )
{
   for ( ;; a++, b++ )
   {
      int x = tolower( (unsigned char)*a ), y = tolower( (unsigned char)*b );
      if ( x != y || !x ) return x - y;
   }
}
int pthread_mutex_lock( void *m ) { return 0; }
int pthread_mutex_trylock( void *m ) { return 0; }
int pthread_mutex_unlock( void *m ) { return 0; }
