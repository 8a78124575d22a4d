#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <z3.h>

SolverStats gStats;
unsigned gQueryTimeoutMs = 20000;
unsigned gExternTimeoutS = 60;
unsigned gCrossEvery = 0;
double gSolverBudgetS = 1e9;

static Z3_context C;
static bool z3err = false;
static void errh( Z3_context c, Z3_error_code e )
{
   z3err = true;
   (void)c;
   if ( e != Z3_OK ) fprintf( stderr, "z3 error: %s\n", Z3_get_error_msg( c, e ) );
}
static void init()
{
   if ( C ) return;
   Z3_config cfg = Z3_mk_config();
   C = Z3_mk_context( cfg ); // terms stay alive with the context
   Z3_del_config( cfg );
   Z3_set_error_handler( C, errh );
}

static std::unordered_map<uint32_t, Z3_ast> bvMemo, fpMemo;
static Z3_sort fsort( unsigned w )
{
   static Z3_sort s32 = nullptr, s64 = nullptr;
   if ( !s32 )
   {
      s32 = Z3_mk_fpa_sort_32( C );
      Z3_inc_ref( C, Z3_sort_to_ast( C, s32 ) );
      s64 = Z3_mk_fpa_sort_64( C );
      Z3_inc_ref( C, Z3_sort_to_ast( C, s64 ) );
   }
   return w == 64 ? s64 : s32;
}
static Z3_ast rm( unsigned aux )
{
   switch ( aux )
   {
      case 0: return Z3_mk_fpa_rne( C );
      case 1: return Z3_mk_fpa_rtn( C );
      case 2: return Z3_mk_fpa_rtp( C );
      case 3: return Z3_mk_fpa_rtz( C );
      default: return Z3_mk_fpa_rna( C );
   }
}
static bool isFres( K k )
{
   switch ( k )
   {
      case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FSqrt: case K::FPExt: case K::FPTrunc: case K::SI2F:
      case K::UI2F: case K::FRnd: return true;
      default: return false;
   }
}
// width-1 terms are Bool, others bit-vectors
static Z3_ast T( E e );
static Z3_ast bvT( E e )
{
   Z3_ast x = T( e );
   if ( e->w == 1 )
   {
      Z3_sort s = Z3_mk_bv_sort( C, 1 );
      return Z3_mk_ite( C, x, Z3_mk_unsigned_int64( C, 1, s ), Z3_mk_unsigned_int64( C, 0, s ) );
   }
   return x;
}
static Z3_ast F( E e )
{
   auto it = fpMemo.find( e->id );
   if ( it != fpMemo.end() ) return it->second;
   Z3_ast r = nullptr;
   switch ( e->k )
   {
      case K::FAdd: r = Z3_mk_fpa_add( C, rm( 0 ), F( e->a ), F( e->b ) ); break;
      case K::FSub: r = Z3_mk_fpa_sub( C, rm( 0 ), F( e->a ), F( e->b ) ); break;
      case K::FMul: r = Z3_mk_fpa_mul( C, rm( 0 ), F( e->a ), F( e->b ) ); break;
      case K::FDiv: r = Z3_mk_fpa_div( C, rm( 0 ), F( e->a ), F( e->b ) ); break;
      case K::FSqrt: r = Z3_mk_fpa_sqrt( C, rm( 0 ), F( e->a ) ); break;
      case K::FPExt:
      case K::FPTrunc: r = Z3_mk_fpa_to_fp_float( C, rm( 0 ), F( e->a ), fsort( e->w ) ); break;
      case K::SI2F: r = Z3_mk_fpa_to_fp_signed( C, rm( 0 ), bvT( e->a ), fsort( e->w ) ); break;
      case K::UI2F: r = Z3_mk_fpa_to_fp_unsigned( C, rm( 0 ), bvT( e->a ), fsort( e->w ) ); break;
      case K::FRnd: r = Z3_mk_fpa_round_to_integral( C, rm( e->aux ), F( e->a ) ); break;
      default: r = Z3_mk_fpa_to_fp_bv( C, T( e ), fsort( e->w ) ); break;
   }
   Z3_inc_ref( C, r );
   fpMemo[e->id] = r;
   return r;
}
static Z3_ast T1( E e )
{
   Z3_ast r = nullptr;
   auto two = [&]( Z3_ast ( *f )( Z3_context, Z3_ast, Z3_ast ) ) { return f( C, bvT( e->a ), bvT( e->b ) ); };
   switch ( e->k )
   {
      case K::Const:
         if ( e->w == 1 ) r = e->c ? Z3_mk_true( C ) : Z3_mk_false( C );
         else r = Z3_mk_unsigned_int64( C, e->c, Z3_mk_bv_sort( C, e->w ) );
         break;
      case K::Var:
      {
         std::string n = "v" + std::to_string( e->c );
         r = Z3_mk_const( C, Z3_mk_string_symbol( C, n.c_str() ), e->w == 1 ? Z3_mk_bool_sort( C ) : Z3_mk_bv_sort( C, e->w ) );
         break;
      }
      case K::UF:
      {
         std::string n = "u" + std::to_string( e->c );
         r = Z3_mk_const( C, Z3_mk_string_symbol( C, n.c_str() ), Z3_mk_bv_sort( C, 32 ) );
         break;
      }
      case K::Add: r = two( Z3_mk_bvadd ); break;
      case K::Sub: r = two( Z3_mk_bvsub ); break;
      case K::Mul: r = two( Z3_mk_bvmul ); break;
      case K::UDiv: r = two( Z3_mk_bvudiv ); break;
      case K::SDiv: r = two( Z3_mk_bvsdiv ); break;
      case K::URem: r = two( Z3_mk_bvurem ); break;
      case K::SRem: r = two( Z3_mk_bvsrem ); break;
      case K::And:
         if ( e->w == 1 )
         {
            Z3_ast x[2] = { T( e->a ), T( e->b ) };
            r = Z3_mk_and( C, 2, x );
         }
         else r = two( Z3_mk_bvand );
         break;
      case K::Or:
         if ( e->w == 1 )
         {
            Z3_ast x[2] = { T( e->a ), T( e->b ) };
            r = Z3_mk_or( C, 2, x );
         }
         else r = two( Z3_mk_bvor );
         break;
      case K::Xor: r = e->w == 1 ? Z3_mk_xor( C, T( e->a ), T( e->b ) ) : two( Z3_mk_bvxor ); break;
      case K::Shl: r = two( Z3_mk_bvshl ); break;
      case K::LShr: r = two( Z3_mk_bvlshr ); break;
      case K::AShr: r = two( Z3_mk_bvashr ); break;
      case K::Eq: r = Z3_mk_eq( C, T( e->a ), T( e->b ) ); break;
      case K::Ult: r = two( Z3_mk_bvult ); break;
      case K::Ule: r = two( Z3_mk_bvule ); break;
      case K::Slt: r = two( Z3_mk_bvslt ); break;
      case K::Sle: r = two( Z3_mk_bvsle ); break;
      case K::Not: r = e->w == 1 ? Z3_mk_not( C, T( e->a ) ) : Z3_mk_bvnot( C, T( e->a ) ); break;
      case K::Ite: r = Z3_mk_ite( C, T( e->a ), T( e->b ), T( e->d ) ); break;
      case K::ZExt: r = Z3_mk_zero_ext( C, e->w - e->a->w, bvT( e->a ) ); break;
      case K::SExt: r = Z3_mk_sign_ext( C, e->w - e->a->w, bvT( e->a ) ); break;
      case K::Extract:
         r = Z3_mk_extract( C, e->aux + e->w - 1, e->aux, bvT( e->a ) );
         if ( e->w == 1 ) r = Z3_mk_eq( C, r, Z3_mk_unsigned_int64( C, 1, Z3_mk_bv_sort( C, 1 ) ) );
         break;
      case K::Concat: r = Z3_mk_concat( C, bvT( e->a ), bvT( e->b ) ); break;
      case K::FEq: r = Z3_mk_fpa_eq( C, F( e->a ), F( e->b ) ); break;
      case K::FLt: r = Z3_mk_fpa_lt( C, F( e->a ), F( e->b ) ); break;
      case K::FLe: r = Z3_mk_fpa_leq( C, F( e->a ), F( e->b ) ); break;
      case K::FIsNan: r = Z3_mk_fpa_is_nan( C, F( e->a ) ); break;
      case K::F2SI: r = Z3_mk_fpa_to_sbv( C, Z3_mk_fpa_rtz( C ), F( e->a ), e->w ); break;
      case K::F2UI: r = Z3_mk_fpa_to_ubv( C, Z3_mk_fpa_rtz( C ), F( e->a ), e->w ); break;
      default: r = Z3_mk_fpa_to_ieee_bv( C, F( e ) ); break;
   }
   return r;
}
static Z3_ast T( E e )
{
   auto it = bvMemo.find( e->id );
   if ( it != bvMemo.end() ) return it->second;
   // iterative pre-translation of deep operands
   std::vector<std::pair<E, bool>> st{ { e, false } };
   while ( !st.empty() )
   {
      auto p = st.back();
      st.pop_back();
      if ( bvMemo.count( p.first->id ) ) continue;
      if ( !p.second )
      {
         st.push_back( { p.first, true } );
         for ( E x : { p.first->a, p.first->b, p.first->d } )
            if ( x && !bvMemo.count( x->id ) )
            {
               if ( isFres( p.first->k ) && isFres( x->k ) ) continue;
               st.push_back( { x, false } );
            }
         continue;
      }
      Z3_ast r = T1( p.first );
      Z3_inc_ref( C, r );
      bvMemo[p.first->id] = r;
   }
   return bvMemo[e->id];
}

static double now()
{
   return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
}

struct ExtRes
{
   Res r = Res::Unknown;
   std::string out;
};
// run an external solver on text; returns process output
static std::string runExt( const char *path, std::vector<std::string> args, const std::string &file, unsigned secs )
{
   int pp[2];
   if ( pipe( pp ) ) return "";
   pid_t pid = fork();
   if ( pid == 0 )
   {
      dup2( pp[1], 1 );
      int dn = open( "/dev/null", O_WRONLY );
      dup2( dn, 2 );
      close( pp[0] );
      alarm( secs + 2 );
      std::vector<char *> av;
      av.push_back( (char *)path );
      for ( auto &a : args ) av.push_back( (char *)a.c_str() );
      av.push_back( (char *)file.c_str() );
      av.push_back( nullptr );
      execv( path, av.data() );
      _exit( 127 );
   }
   close( pp[1] );
   std::string out;
   char buf[65536];
   ssize_t n;
   while ( ( n = read( pp[0], buf, sizeof buf ) ) > 0 ) out.append( buf, n );
   close( pp[0] );
   int stt;
   waitpid( pid, &stt, 0 );
   return out;
}
static Res parseExt( const std::string &out )
{
   if ( out.find( "(error" ) != std::string::npos ) return Res::Unknown;
   if ( out.rfind( "sat", 0 ) == 0 ) return Res::Sat;
   if ( out.rfind( "unsat", 0 ) == 0 ) return Res::Unsat;
   return Res::Unknown;
}
static std::string tmpFile( const std::string &text )
{
   static int n = 0;
   const char *d = getenv( "SYMEX_TMP" );
   std::string f = std::string( d ? d : "/tmp" ) + "/q" + std::to_string( getpid() ) + "_" + std::to_string( n++ ) + ".smt2";
   FILE *fp = fopen( f.c_str(), "w" );
   fwrite( text.data(), 1, text.size(), fp );
   fclose( fp );
   return f;
}
static std::vector<std::string> z3args( unsigned s ) { return { "-T:" + std::to_string( s ) }; }
static std::vector<std::string> cvargs( unsigned s )
{
   return { "--tlimit=" + std::to_string( s * 1000 ), "--produce-models", "--lang=smt2" };
}
#ifndef Z3NEW
#define Z3NEW "/usr/local/bin/z3-new"
#endif
#ifndef CVC5
#define CVC5 "/usr/bin/cvc5"
#endif

static bool parseVal( const std::string &s, uint64_t &v )
{
   if ( s == "true" ) { v = 1; return true; }
   if ( s == "false" ) { v = 0; return true; }
   if ( s.rfind( "#x", 0 ) == 0 ) { v = strtoull( s.c_str() + 2, nullptr, 16 ); return true; }
   if ( s.rfind( "#b", 0 ) == 0 ) { v = strtoull( s.c_str() + 2, nullptr, 2 ); return true; }
   return false;
}

// portfolio of external solvers running concurrently
static Res portfolio( const std::vector<E> &cs, const std::vector<uint32_t> &vs, Model &out )
{
   std::string smt = toSmt( cs );
   if ( !vs.empty() )
   {
      smt += "(get-value (";
      for ( uint32_t v : vs ) smt += " e" + std::to_string( varExpr( v )->id );
      smt += "))\n";
   }
   smt = "(set-option :produce-models true)\n" + smt;
   std::string f = tmpFile( smt );
   // two children writing into files
   std::string o1 = f + ".o1", o2 = f + ".o2";
   pid_t p[2];
   for ( int i = 0; i < 2; i++ )
   {
      p[i] = fork();
      if ( p[i] == 0 )
      {
         int fd = open( ( i ? o2 : o1 ).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600 );
         dup2( fd, 1 );
         int dn = open( "/dev/null", O_WRONLY );
         dup2( dn, 2 );
         alarm( gExternTimeoutS + 2 );
         auto a = i ? cvargs( gExternTimeoutS ) : z3args( gExternTimeoutS );
         const char *path = i ? CVC5 : Z3NEW;
         std::vector<char *> av;
         av.push_back( (char *)path );
         for ( auto &x : a ) av.push_back( (char *)x.c_str() );
         av.push_back( (char *)f.c_str() );
         av.push_back( nullptr );
         execv( path, av.data() );
         _exit( 127 );
      }
   }
   Res r = Res::Unknown;
   int left = 2;
   while ( left )
   {
      int stt;
      pid_t d = wait( &stt );
      if ( d < 0 ) break;
      int i = d == p[0] ? 0 : d == p[1] ? 1 : -1;
      if ( i < 0 ) continue;
      left--;
      p[i] = 0;
      std::string txt;
      FILE *fp = fopen( ( i ? o2 : o1 ).c_str(), "r" );
      if ( fp )
      {
         char b[65536];
         size_t n;
         while ( ( n = fread( b, 1, sizeof b, fp ) ) > 0 ) txt.append( b, n );
         fclose( fp );
      }
      Res q = Res::Unknown;
      if ( txt.rfind( "unsat", 0 ) == 0 ) q = Res::Unsat; // get-value afterwards errors, ignore
      else q = parseExt( txt );
      if ( q == Res::Unknown ) continue;
      r = q;
      if ( q == Res::Sat )
      {
         // parse ((eN val) ...)
         size_t pos = 0;
         std::unordered_map<std::string, uint32_t> nm;
         for ( uint32_t v : vs ) nm["e" + std::to_string( varExpr( v )->id )] = v;
         while ( ( pos = txt.find( "(e", pos ) ) != std::string::npos )
         {
            size_t sp = txt.find( ' ', pos );
            size_t en = txt.find( ')', pos );
            if ( sp == std::string::npos || en == std::string::npos ) break;
            auto it = nm.find( txt.substr( pos + 1, sp - pos - 1 ) );
            uint64_t v;
            if ( it != nm.end() && parseVal( txt.substr( sp + 1, en - sp - 1 ), v ) ) out[it->second] = v;
            pos = en;
         }
      }
      break;
   }
   for ( int i = 0; i < 2; i++ )
      if ( p[i] > 0 )
      {
         kill( p[i], SIGKILL );
         int stt;
         waitpid( p[i], &stt, 0 );
      }
   unlink( f.c_str() );
   unlink( o1.c_str() );
   unlink( o2.c_str() );
   return r;
}

static std::string ufKey( const std::vector<uint32_t> &k ) { return std::string( (const char *)k.data(), k.size() * 4 ); }
struct CacheEnt
{
   Res r;
   Model m;
   bool exact;
};
static std::unordered_map<std::string, CacheEnt> cache;
static std::vector<Model> recent;

static bool holds( const std::vector<E> &cs, const Model &m )
{
   evalReset();
   for ( E c : cs )
      if ( !evalExpr( c, m ) ) return false;
   return true;
}

static Res z3solve( const std::vector<E> &cs, const std::vector<uint32_t> &vs, bool fp, Model &out )
{
   init();
   Z3_solver s;
   if ( fp )
   {
      static Z3_tactic t = nullptr;
      if ( !t )
      {
         auto mk = []( const char *n ) {
            Z3_tactic x = Z3_mk_tactic( C, n );
            Z3_tactic_inc_ref( C, x );
            return x;
         };
         auto then = []( Z3_tactic a, Z3_tactic b ) {
            Z3_tactic x = Z3_tactic_and_then( C, a, b );
            Z3_tactic_inc_ref( C, x );
            return x;
         };
         t = then( mk( "simplify" ),
                   then( mk( "propagate-values" ),
                         then( mk( "fpa2bv" ),
                               then( mk( "propagate-values" ), then( mk( "simplify" ), then( mk( "solve-eqs" ), then( mk( "bit-blast" ), then( mk( "simplify" ), mk( "sat" ) ) ) ) ) ) ) ) );
      }
      s = Z3_mk_solver_from_tactic( C, t );
   }
   else
      s = getenv("SS") ? Z3_mk_simple_solver( C ) : Z3_mk_solver_for_logic( C, Z3_mk_string_symbol( C, "QF_BV" ) );
   Z3_solver_inc_ref( C, s );
   Z3_params p = Z3_mk_params( C );
   Z3_params_inc_ref( C, p );
   Z3_params_set_uint( C, p, Z3_mk_string_symbol( C, "timeout" ), gQueryTimeoutMs );
   Z3_solver_set_params( C, s, p );
   Z3_params_dec_ref( C, p );
   z3err = false;
   for ( E c : cs ) Z3_solver_assert( C, s, T( c ) );
   Z3_lbool r = Z3_solver_check( C, s );
   Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
   if ( z3err ) res = Res::Unknown;
   if ( res == Res::Sat )
   {
      Z3_model m = Z3_solver_get_model( C, s );
      Z3_model_inc_ref( C, m );
      for ( uint32_t v : vs )
      {
         if ( v & 0x80000000u ) continue;
         Z3_ast val;
         if ( Z3_model_eval( C, m, T( varExpr( v ) ), true, &val ) )
         {
            Z3_inc_ref( C, val );
            uint64_t x = 0;
            if ( varWidth( v ) == 1 ) x = Z3_get_bool_value( C, val ) == Z3_L_TRUE;
            else Z3_get_numeral_uint64( C, val, &x );
            out[v] = x;
            Z3_dec_ref( C, val );
         }
      }
      Z3_model_dec_ref( C, m );
   }
   Z3_solver_dec_ref( C, s );
   return res;
}

// gather all UF nodes below a set of constraints
static void collectUF( const std::vector<E> &cs, std::vector<E> &out )
{
   std::unordered_set<E> seen;
   std::vector<E> st( cs.begin(), cs.end() );
   while ( !st.empty() )
   {
      E x = st.back();
      st.pop_back();
      if ( !seen.insert( x ).second ) continue;
      if ( x->k == K::UF )
      {
         out.push_back( x );
         for ( E b : ufArgs( x ) ) st.push_back( b );
      }
      for ( E y : { x->a, x->b, x->d } )
         if ( y ) st.push_back( y );
   }
}

Res solve( const std::vector<E> &pc, const std::vector<E> &extra, const Model *base, Model *m, bool *exact )
{
   if ( exact ) *exact = true;
   for ( E e : extra )
      if ( isC( e ) && !e->c ) return Res::Unsat;
   // independent slice
   std::vector<E> cs;
   std::unordered_set<uint32_t> vset;
   for ( E e : extra )
      if ( !isC( e ) )
      {
         cs.push_back( e );
         for ( uint32_t v : varsOf( e ) ) vset.insert( v );
      }
   if ( cs.empty() )
   {
      if ( m && base ) *m = *base;
      return Res::Sat;
   }
   std::vector<char> used( pc.size(), 0 );
   bool ch = true;
   while ( ch )
   {
      ch = false;
      for ( size_t i = 0; i < pc.size(); i++ )
      {
         if ( used[i] || isC( pc[i] ) ) continue;
         auto &vv = varsOf( pc[i] );
         bool hit = false;
         for ( uint32_t v : vv )
            if ( vset.count( v ) ) { hit = true; break; }
         if ( hit )
         {
            used[i] = 1;
            ch = true;
            cs.push_back( pc[i] );
            for ( uint32_t v : vv ) vset.insert( v );
         }
      }
   }
   std::sort( cs.begin(), cs.end(), []( E a, E b ) { return a->id < b->id; } );
   cs.erase( std::unique( cs.begin(), cs.end() ), cs.end() );
   // trivial contradiction
   {
      std::unordered_set<E> s( cs.begin(), cs.end() );
      for ( E c : cs )
         if ( c->k == K::Not && s.count( c->a ) ) return Res::Unsat;
   }
   std::vector<uint32_t> key;
   for ( E c : cs ) key.push_back( c->id );
   std::string ks = ufKey( key );
   auto fill = [&]( const Model &mm ) {
      if ( !m ) return;
      Model t = base ? *base : Model();
      for ( uint32_t v : vset )
         if ( !( v & 0x80000000u ) )
         {
            auto it = mm.find( v );
            t[v] = it == mm.end() ? 0 : it->second;
         }
      *m = std::move( t );
   };
   auto it = cache.find( ks );
   if ( it != cache.end() )
   {
      gStats.cacheHits++;
      if ( it->second.r == Res::Sat )
      {
         if ( exact ) *exact = it->second.exact;
         fill( it->second.m );
      }
      return it->second.r;
   }
   for ( auto r = recent.rbegin(); r != recent.rend(); ++r )
      if ( holds( cs, *r ) )
      {
         gStats.modelHits++;
         fill( *r );
         return Res::Sat;
      }
   if ( gStats.seconds > gSolverBudgetS ) { gStats.unknown++; return Res::Unknown; }
   double t0 = now();
   gStats.queries++;
   bool fp = false;
   for ( E c : cs ) fp = fp || hasFP( c );
   if ( fp ) gStats.fpQueries++;
   std::vector<uint32_t> vs( vset.begin(), vset.end() );
   std::sort( vs.begin(), vs.end() );
   std::vector<uint32_t> vonly;
   for ( uint32_t v : vs )
      if ( !( v & 0x80000000u ) ) vonly.push_back( v );
   std::vector<E> ufs;
   collectUF( cs, ufs );
   std::vector<E> all = cs;
   // congruence
   for ( size_t i = 0; i < ufs.size(); i++ )
      for ( size_t j = i + 1; j < ufs.size(); j++ )
      {
         auto &A = ufArgs( ufs[i] ), &B = ufArgs( ufs[j] );
         if ( A.size() != B.size() ) continue;
         E conj = mkConst( 1, 1 );
         for ( size_t q = 0; q < A.size() && !( isC( conj ) && !conj->c ); q++ ) conj = mkBin( K::And, conj, mkBin( K::Eq, A[q], B[q] ) );
         if ( isC( conj ) && !conj->c ) continue;
         all.push_back( mkBin( K::Or, mkNot( conj ), mkBin( K::Eq, ufs[i], ufs[j] ) ) );
      }
   Model mm;
   Res r = Res::Unknown;
   bool ex = true;
   for ( int iter = 0; iter < 6; iter++ )
   {
      mm.clear();
      r = z3solve( all, vs, fp, mm );
      if ( r == Res::Unknown && gExternTimeoutS )
      {
         gStats.external++;
         r = portfolio( all, vonly, mm );
      }
      ex = true;
      if ( r != Res::Sat ) break;
      if ( holds( cs, mm ) ) break;
      ex = false;
      if ( ufs.empty() ) break;
      // pin the checksum of the current arguments to its real value
      evalReset();
      for ( E u : ufs )
      {
         E conj = mkConst( 1, 1 );
         for ( E b : ufArgs( u ) ) conj = mkBin( K::And, conj, mkBin( K::Eq, b, mkConst( evalExpr( b, mm ), 8 ) ) );
         uint64_t val = evalExpr( u, mm );
         all.push_back( mkBin( K::Or, mkNot( conj ), mkBin( K::Eq, u, mkConst( val, 32 ) ) ) );
         // prefer models where the arguments stay as they are
         if ( iter >= 1 ) {}
      }
   }
   double dt = now() - t0;
   gStats.seconds += dt;
   if ( dt > gStats.maxSeconds ) gStats.maxSeconds = dt;
   if ( r == Res::Sat ) gStats.sat++;
   else if ( r == Res::Unsat ) gStats.unsat++;
   else gStats.unknown++;
   static const double slowLim = getenv( "SYMEX_SLOWT" ) ? atof( getenv( "SYMEX_SLOWT" ) ) : 5;
   if ( dt > slowLim && getenv( "SYMEX_SLOW" ) )
   {
      static int n = 0;
      std::string f = std::string( getenv( "SYMEX_SLOW" ) ) + "/slow" + std::to_string( n++ ) + ".smt2";
      FILE *fpn = fopen( f.c_str(), "w" );
      if ( fpn )
      {
         std::string s = toSmt( all );
         fwrite( s.data(), 1, s.size(), fpn );
         fclose( fpn );
      }
   }
   if ( gCrossEvery && r != Res::Unknown && ( gStats.queries % gCrossEvery ) == 0 && gStats.crossSeconds < 60 )
   {
      double c0 = now();
      std::string f = tmpFile( toSmt( all ) );
      static bool flip = false;
      flip = !flip;
      Res q = parseExt( flip ? runExt( Z3NEW, z3args( 20 ), f, 20 ) : runExt( CVC5, cvargs( 20 ), f, 20 ) );
      unlink( f.c_str() );
      if ( q == Res::Unknown ) gStats.crossInconclusive++;
      else
      {
         gStats.cross++;
         if ( q != r )
         {
            gStats.crossDisagree++;
            fprintf( stderr, "solver disagreement\n" );
         }
      }
      gStats.crossSeconds += now() - c0;
   }
   if ( r != Res::Unknown ) cache[ks] = CacheEnt{ r, mm, ex };
   if ( r == Res::Sat )
   {
      if ( exact ) *exact = ex;
      fill( mm );
      if ( ex )
      {
         recent.push_back( mm );
         if ( recent.size() > 12 ) recent.erase( recent.begin() );
      }
   }
   return r;
}
