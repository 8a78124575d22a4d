// included by symex.cpp
static void finish( State &s, Inst &in, const std::vector<Val> &r )
{
   Frame &g = s.fr.back();
   if ( in.dst >= 0 )
      for ( size_t i = 0; i < r.size() && i < in.n; i++ ) s.st[g.base + in.dst + i] = r[i];
   if ( in.k == OpK::Invoke ) takeEdge( s, in.edges[0] );
}
// decide a condition on this path; the other outcome re-executes the current instruction
static bool decide( State &s, Ex c )
{
   if ( isC( c ) ) return c->c;
   return branchSym( s, c, []( State &o, bool ) { o.fr.back().pc--; } );
}

static void intrinsic( State &s, Inst &in, Function *cal, std::vector<Val> &a, Val & )
{
   auto id = cal->getIntrinsicID();
   auto *cb = cast<CallBase>( in.I );
   auto W = [&]( unsigned i ) -> unsigned {
      Type *T = cb->getArgOperand( i )->getType();
      if ( T->isVectorTy() ) T = cast<VectorType>( T )->getElementType();
      return (unsigned)DL->getTypeSizeInBits( T );
   };
   std::vector<Val> r;
   unsigned n = in.dst >= 0 ? in.n : 0;
   switch ( id )
   {
      case Intrinsic::memcpy:
      case Intrinsic::memcpy_inline:
      case Intrinsic::memmove:
      {
         uint64_t sz = concretize( s, a[2], 64, "copy size" );
         uint64_t d = concretize( s, a[0], 64, "address" ), sp = concretize( s, a[1], 64, "address" );
         copyMem( s, d, sp, sz );
         break;
      }
      case Intrinsic::memset:
      case Intrinsic::memset_inline:
      {
         uint64_t sz = concretize( s, a[2], 64, "fill size" );
         uint64_t d = concretize( s, a[0], 64, "address" );
         setMem( s, d, a[1], sz );
         break;
      }
      case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
      {
         unsigned w = W( 0 );
         Ex x = ex( a[0], w ), y = ex( a[1], w );
         if ( !a[0].e && !a[1].e )
         {
            __int128 sx = sextw( a[0].c, w ), sy = sextw( a[1].c, w );
            unsigned __int128 ux = a[0].c, uy = a[1].c;
            __int128 sr = 0;
            unsigned __int128 ur = 0;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            if ( id == Intrinsic::sadd_with_overflow ) sr = sx + sy;
            if ( id == Intrinsic::ssub_with_overflow ) sr = sx - sy;
            if ( id == Intrinsic::smul_with_overflow ) sr = sx * sy;
            if ( id == Intrinsic::uadd_with_overflow ) ur = ux + uy;
            if ( id == Intrinsic::usub_with_overflow ) ur = ux - uy;
            if ( id == Intrinsic::umul_with_overflow ) ur = ux * uy;
            uint64_t res = sg ? (uint64_t)sr : (uint64_t)ur;
            res &= maskw( w );
            bool ov = sg ? ( (__int128)sextw( res, w ) != sr ) : ( (unsigned __int128)res != ur );
            r = { cv( res ), cv( ov ) };
            break;
         }
         Ex res, ov;
         Ex zero = mkConst( 0, w );
         auto neg = [&]( Ex e ) { return mkBin( K::Slt, e, zero ); };
         switch ( id )
         {
            case Intrinsic::uadd_with_overflow: res = mkBin( K::Add, x, y ); ov = mkBin( K::Ult, res, x ); break;
            case Intrinsic::usub_with_overflow: res = mkBin( K::Sub, x, y ); ov = mkBin( K::Ult, x, y ); break;
            case Intrinsic::sadd_with_overflow:
               res = mkBin( K::Add, x, y );
               ov = mkBin( K::And, mkBin( K::Eq, neg( x ), neg( y ) ), mkNot( mkBin( K::Eq, neg( x ), neg( res ) ) ) );
               break;
            case Intrinsic::ssub_with_overflow:
               res = mkBin( K::Sub, x, y );
               ov = mkBin( K::And, mkNot( mkBin( K::Eq, neg( x ), neg( y ) ) ), mkNot( mkBin( K::Eq, neg( x ), neg( res ) ) ) );
               break;
            case Intrinsic::umul_with_overflow:
               res = mkBin( K::Mul, x, y );
               ov = mkBin( K::And, mkNot( mkBin( K::Eq, y, zero ) ), mkBin( K::Ult, mkBin( K::UDiv, mkConst( maskw( w ), w ), y ), x ) );
               if ( isC( y ) && y->c == 0 ) ov = mkConst( 0, 1 );
               break;
            default:
            {
               res = mkBin( K::Mul, x, y );
               if ( w <= 32 )
               {
                  Ex wide = mkBin( K::Mul, mkSExt( x, 2 * w ), mkSExt( y, 2 * w ) );
                  ov = mkNot( mkBin( K::Eq, wide, mkSExt( mkExtract( wide, 0, w ), 2 * w ) ) );
               }
               else if ( isC( y ) && (int64_t)y->c > 0 )
               {
                  int64_t k = (int64_t)y->c;
                  ov = mkBin( K::Or, mkBin( K::Slt, x, mkConst( (uint64_t)( INT64_MIN / k ), 64 ) ), mkBin( K::Slt, mkConst( (uint64_t)( INT64_MAX / k ), 64 ), x ) );
               }
               else
               {
                  // y != 0 and (res / y != x or (y==-1 and x==min))
                  Ex mone = mkConst( ~0ULL, w ), mn = mkConst( 1ULL << ( w - 1 ), w );
                  ov = mkBin( K::And, mkNot( mkBin( K::Eq, y, zero ) ),
                              mkBin( K::Or, mkBin( K::And, mkBin( K::Eq, y, mone ), mkBin( K::Eq, x, mn ) ), mkNot( mkBin( K::Eq, mkBin( K::SDiv, res, y ), x ) ) ) );
               }
               break;
            }
         }
         r = { ve( res ), ve( ov ) };
         break;
      }
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
         for ( unsigned i = 0; i < n; i++ )
         {
            unsigned w = W( 0 );
            Ex x = ex( a[i], w ), y = ex( a[n + i], w );
            bool sg = id == Intrinsic::smax || id == Intrinsic::smin;
            bool mx = id == Intrinsic::umax || id == Intrinsic::smax;
            Ex lt = mkBin( sg ? K::Slt : K::Ult, x, y );
            r.push_back( ve( mx ? mkIte( lt, y, x ) : mkIte( lt, x, y ) ) );
         }
         break;
      case Intrinsic::usub_sat:
      {
         Ex x = ex( a[0], W( 0 ) ), y = ex( a[1], W( 0 ) );
         r = { ve( mkIte( mkBin( K::Ult, x, y ), mkConst( 0, W( 0 ) ), mkBin( K::Sub, x, y ) ) ) };
         break;
      }
      case Intrinsic::uadd_sat:
      {
         Ex x = ex( a[0], W( 0 ) ), y = ex( a[1], W( 0 ) );
         Ex t = mkBin( K::Add, x, y );
         r = { ve( mkIte( mkBin( K::Ult, t, x ), mkConst( ~0ULL, W( 0 ) ), t ) ) };
         break;
      }
      case Intrinsic::abs:
      {
         unsigned w = W( 0 );
         Ex x = ex( a[0], w );
         r = { ve( mkIte( mkBin( K::Slt, x, mkConst( 0, w ) ), mkBin( K::Sub, mkConst( 0, w ), x ), x ) ) };
         break;
      }
      case Intrinsic::bswap:
      {
         unsigned w = W( 0 );
         Ex x = ex( a[0], w ), q = nullptr;
         for ( unsigned i = 0; i < w; i += 8 )
         {
            Ex b = mkExtract( x, i, 8 );
            q = q ? mkConcat( q, b ) : b;
         }
         r = { ve( q ) };
         break;
      }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
      {
         unsigned w = W( 0 );
         if ( !a[0].e )
         {
            uint64_t v = a[0].c;
            if ( id == Intrinsic::ctpop ) r = { cv( __builtin_popcountll( v ) ) };
            else if ( id == Intrinsic::ctlz ) r = { cv( v ? __builtin_clzll( v ) - ( 64 - w ) : w ) };
            else r = { cv( v ? __builtin_ctzll( v ) : w ) };
            break;
         }
         Ex q = mkConst( id == Intrinsic::ctpop ? 0 : w, w );
         for ( unsigned i = 0; i < w; i++ )
         {
            if ( id == Intrinsic::ctpop ) q = mkBin( K::Add, q, mkZExt( mkExtract( a[0].e, i, 1 ), w ) );
            else if ( id == Intrinsic::ctlz ) q = mkIte( mkExtract( a[0].e, i, 1 ), mkConst( w - 1 - i, w ), q );
            else q = mkIte( mkExtract( a[0].e, w - 1 - i, 1 ), mkConst( w - 1 - i, w ), q );
         }
         r = { ve( q ) };
         break;
      }
      case Intrinsic::fshl: case Intrinsic::fshr:
      {
         unsigned w = W( 0 );
         uint64_t sh = concretize( s, a[2], w, "shift" ) % w;
         Ex x = ex( a[0], w ), y = ex( a[1], w );
         if ( sh == 0 ) r = { id == Intrinsic::fshl ? a[0] : a[1] };
         else
         {
            unsigned l = id == Intrinsic::fshl ? sh : w - sh;
            r = { ve( mkConcat( mkExtract( x, 0, w - l ), mkExtract( y, w - l, l ) ) ) };
         }
         break;
      }
      case Intrinsic::fabs:
         for ( unsigned i = 0; i < n; i++ ) r.push_back( ve( mkBin( K::And, ex( a[i], W( 0 ) ), mkConst( maskw( W( 0 ) ) >> 1, W( 0 ) ) ) ) );
         break;
      case Intrinsic::floor: r = { ve( mkF1( K::FRnd, ex( a[0], W( 0 ) ), W( 0 ), 1 ) ) }; break;
      case Intrinsic::ceil: r = { ve( mkF1( K::FRnd, ex( a[0], W( 0 ) ), W( 0 ), 2 ) ) }; break;
      case Intrinsic::trunc: r = { ve( mkF1( K::FRnd, ex( a[0], W( 0 ) ), W( 0 ), 3 ) ) }; break;
      case Intrinsic::round: r = { ve( mkF1( K::FRnd, ex( a[0], W( 0 ) ), W( 0 ), 4 ) ) }; break;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven:
         r = { ve( mkF1( K::FRnd, ex( a[0], W( 0 ) ), W( 0 ), 0 ) ) };
         break;
      case Intrinsic::sqrt: r = { ve( mkF1( K::FSqrt, ex( a[0], W( 0 ) ), W( 0 ) ) ) }; break;
      case Intrinsic::fmuladd: // unfused: the native build targets plain x86-64
         for ( unsigned i = 0; i < n; i++ ) r.push_back( ve( mkF2( K::FAdd, mkF2( K::FMul, ex( a[i], W( 0 ) ), ex( a[n + i], W( 0 ) ) ), ex( a[2 * n + i], W( 0 ) ) ) ) );
         break;
      case Intrinsic::copysign:
      {
         unsigned w = W( 0 );
         r = { ve( mkConcat( mkExtract( ex( a[1], w ), w - 1, 1 ), mkExtract( ex( a[0], w ), 0, w - 1 ) ) ) };
         break;
      }
      case Intrinsic::minnum: case Intrinsic::maxnum:
      {
         unsigned w = W( 0 );
         Ex x = ex( a[0], w ), y = ex( a[1], w );
         Ex lt = id == Intrinsic::minnum ? mkF2( K::FLt, y, x ) : mkF2( K::FLt, x, y );
         r = { ve( mkIte( mkF1( K::FIsNan, x, 1 ), y, mkIte( mkF1( K::FIsNan, y, 1 ), x, mkIte( lt, y, x ) ) ) ) };
         break;
      }
      case Intrinsic::is_fpclass:
      {
         unsigned w = W( 0 );
         uint64_t mask = a[1].c;
         Ex x = ex( a[0], w );
         unsigned eb = w == 64 ? 11 : 8, mb = w == 64 ? 52 : 23;
         Ex ee = mkExtract( x, mb, eb ), mm = mkExtract( x, 0, mb ), sg = mkExtract( x, w - 1, 1 );
         Ex emax = mkBin( K::Eq, ee, mkConst( ~0ULL, eb ) ), ez = mkBin( K::Eq, ee, mkConst( 0, eb ) ), mz = mkBin( K::Eq, mm, mkConst( 0, mb ) );
         Ex q = mkExtract( mm, mb - 1, 1 );
         Ex res = mkConst( 0, 1 );
         auto add = [&]( uint64_t bit, Ex c ) { if ( mask & bit ) res = mkBin( K::Or, res, c ); };
         Ex nan = mkBin( K::And, emax, mkNot( mz ) ), inf = mkBin( K::And, emax, mz ), zer = mkBin( K::And, ez, mz ), sub = mkBin( K::And, ez, mkNot( mz ) ),
            nrm = mkBin( K::And, mkNot( emax ), mkNot( ez ) );
         add( 1, mkBin( K::And, nan, mkNot( q ) ) );
         add( 2, mkBin( K::And, nan, q ) );
         add( 4, mkBin( K::And, inf, sg ) );
         add( 8, mkBin( K::And, nrm, sg ) );
         add( 16, mkBin( K::And, sub, sg ) );
         add( 32, mkBin( K::And, zer, sg ) );
         add( 64, mkBin( K::And, zer, mkNot( sg ) ) );
         add( 128, mkBin( K::And, sub, mkNot( sg ) ) );
         add( 256, mkBin( K::And, nrm, mkNot( sg ) ) );
         add( 512, mkBin( K::And, inf, mkNot( sg ) ) );
         r = { ve( res ) };
         break;
      }
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
      case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: r = { a[0] }; break;
      case Intrinsic::eh_typeid_for: r = { cv( typeIdFor( a[0].c ) ) }; break;
      case Intrinsic::vastart: // everything lies in the overflow area
         storeMem( s, a[0], 4, cv( 48 ), 32 );
         storeMem( s, cv( a[0].c + 4 ), 4, cv( 176 ), 32 );
         storeMem( s, cv( a[0].c + 8 ), 8, cv( s.fr.back().va ), 64 );
         storeMem( s, cv( a[0].c + 16 ), 8, cv( 0 ), 64 );
         break;
      case Intrinsic::vaend: break;
      case Intrinsic::vacopy: copyMem( s, a[0].c, a[1].c, 24 ); break;
      case Intrinsic::stacksave: r = { cv( 0 ) }; break;
      case Intrinsic::stackrestore: break;
      case Intrinsic::objectsize: r = { cv( a[1].c ? 0 : ~0ULL ) }; break;
      case Intrinsic::is_constant: r = { cv( 0 ) }; break;
      case Intrinsic::trap: case Intrinsic::debugtrap:
         candidate( s, s.model, abortId, "trap", "trap instruction" );
         throw PathEnd{ 1 };
      case Intrinsic::ubsantrap:
      {
         static const char *nm[] = { "add overflow", "builtin unreachable", "cfi check fail", "divrem overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin",
                                     "invalid objc cast", "load invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow",
                                     "shift out of bounds", "sub overflow", "type mismatch", "alignment assumption", "vla bound not positive" };
         unsigned k = (unsigned)a[0].c;
         candidate( s, s.model, "undefined-behaviour", "ub", k < sizeof nm / sizeof *nm ? nm[k] : "undefined behaviour" );
         throw PathEnd{ 1 };
      }
      case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add:
      {
         unsigned w = W( 0 );
         Ex q = ex( a[0], w );
         for ( size_t i = 1; i < a.size(); i++ ) q = mkBin( id == Intrinsic::vector_reduce_or ? K::Or : id == Intrinsic::vector_reduce_and ? K::And : K::Add, q, ex( a[i], w ) );
         r = { ve( q ) };
         break;
      }
      default: fatal( "intrinsic " + cal->getName().str() + " in " + s.fr.back().f->dem );
   }
   finish( s, in, r );
}

static Val f64op( Val v, double ( *fn )( double ) )
{
   double d;
   memcpy( &d, &v.c, 8 );
   d = fn( d );
   uint64_t c;
   memcpy( &c, &d, 8 );
   return cv( c );
}

static void registerExterns()
{
   typedef std::vector<Val> AV;
#define EXT( name ) regExt( name, []( State & s, Inst & in, AV & a, Val & ret ) { (void)s; (void)in; (void)a; (void)ret;
#define END } );
   EXT( "malloc" ) ret = cv( heapAlloc( s, concretize( s, a[0], 64, "allocation size" ), OMalloc ) ); END
   EXT( "calloc" )
      uint64_t n = concretize( s, a[0], 64, "allocation size" ) * concretize( s, a[1], 64, "allocation size" );
      uint64_t p = heapAlloc( s, n, OMalloc );
      if ( p ) setMem( s, p, cv( 0 ), n );
      ret = cv( p );
   END
   EXT( "free" ) doFree( s, a[0].c, 0 ); END
   EXT( "__sym_alloc" ) ret = cv( heapAlloc( s, concretize( s, a[0], 64, "allocation size" ), (ObjKind)( OMalloc + a[1].c ) ) ); END
   for ( const char *n : { "_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t" } ) { EXT( n ) doFree( s, a[0].c, 1 ); END }
   for ( const char *n : { "_ZdaPv", "_ZdaPvm" } ) { EXT( n ) doFree( s, a[0].c, 2 ); END }
   for ( const char *n : { "memcpy", "memmove", "__memcpy_chk", "__memmove_chk" } )
   {
      EXT( n )
         uint64_t sz = concretize( s, a[2], 64, "copy size" );
         uint64_t d = concretize( s, a[0], 64, "address" ), sp = concretize( s, a[1], 64, "address" );
         copyMem( s, d, sp, sz );
         ret = cv( d );
      END
   }
   EXT( "memset" )
      uint64_t sz = concretize( s, a[2], 64, "fill size" );
      setMem( s, concretize( s, a[0], 64, "address" ), a[1].e ? ve( mkExtract( a[1].e, 0, 8 ) ) : a[1], sz );
      ret = a[0];
   END
   for ( const char *n : { "memcmp", "bcmp" } )
   {
      EXT( n )
         uint64_t sz = concretize( s, a[2], 64, "compare size" );
         uint64_t p = concretize( s, a[0], 64, "address" ), q = concretize( s, a[1], 64, "address" );
         if ( !sz ) { ret = cv( 0 ); return; }
         MemObj *x = access( s, p, sz, false ), *y = access( s, q, sz, false );
         Ex r = mkConst( 0, 32 );
         bool anySym = !x->s.empty() || !y->s.empty();
         if ( !anySym )
         {
            int c = memcmp( &x->b[(uint32_t)p], &y->b[(uint32_t)q], sz );
            ret = cv( c < 0 ? 0xFFFFFFFFu : c > 0 ? 1 : 0 );
            return;
         }
         // stop at first certainly different byte
         std::vector<std::pair<Ex, Ex>> pr;
         for ( uint64_t i = 0; i < sz; i++ )
         {
            Ex u = byteAt( x, (uint32_t)p + i ), v = byteAt( y, (uint32_t)q + i );
            if ( u == v ) continue;
            pr.push_back( { u, v } );
            if ( isC( u ) && isC( v ) ) break;
         }
         for ( size_t i = pr.size(); i-- > 0; )
         {
            Ex lt = mkBin( K::Ult, pr[i].first, pr[i].second );
            r = mkIte( mkBin( K::Eq, pr[i].first, pr[i].second ), r, mkIte( lt, mkConst( 0xFFFFFFFFu, 32 ), mkConst( 1, 32 ) ) );
         }
         ret = ve( r );
      END
   }
   EXT( "strlen" )
      uint64_t p = concretize( s, a[0], 64, "address" );
      uint64_t n = 0;
      for ( ;; )
      {
         MemObj *o = access( s, p + n, 1, false );
         Ex b = byteAt( o, (uint32_t)( p + n ) );
         if ( decide( s, mkBin( K::Eq, b, mkConst( 0, 8 ) ) ) ) break;
         n++;
      }
      ret = cv( n );
   END
   EXT( "memchr" )
      uint64_t sz = concretize( s, a[2], 64, "search size" ), p = concretize( s, a[0], 64, "address" );
      Ex want = mkExtract( ex( a[1], 32 ), 0, 8 );
      ret = cv( 0 );
      if ( sz ) access( s, p, 1, false );
      for ( uint64_t i = 0; i < sz; i++ )
      {
         MemObj *o = access( s, p + i, 1, false );
         if ( decide( s, mkBin( K::Eq, byteAt( o, (uint32_t)( p + i ) ), want ) ) )
         {
            ret = cv( p + i );
            break;
         }
      }
   END
   // ---- exceptions
   EXT( "__cxa_allocate_exception" ) ret = cv( heapAlloc( s, a[0].c, OMalloc ) ); END
   EXT( "__cxa_free_exception" ) doFree( s, a[0].c, 0 ); END
   EXT( "__cxa_throw" )
      s.thrown = where( s );
      if ( verbose ) fprintf( stderr, "[throw] %s\n", s.thrown.c_str() );
      unwind( s, a[0].c, a[1].c ); END
   EXT( "__cxa_rethrow" )
      if ( s.caught.empty() )
      {
         candidate( s, s.model, abortId, "terminate", "rethrow without exception" );
         throw PathEnd{ 1 };
      }
      s.caught.back().rethrown = true;
      unwind( s, s.caught.back().obj, s.caught.back().ti );
   END
   EXT( "__cxa_begin_catch" )
      s.caught.push_back( Caught{ a[0].c, s.excType[a[0].c], false } );
      ret = a[0];
   END
   EXT( "__cxa_get_exception_ptr" ) ret = a[0]; END
   EXT( "__cxa_end_catch" )
      if ( !s.caught.empty() )
      {
         s.caught.pop_back();
      }
   END
   EXT( "_ZSt9terminatev" )
      candidate( s, s.model, abortId, "terminate", "std::terminate called" + ( s.excTi ? " (last exception " + tiStr( s.excTi ) + ")" : std::string() ) );
      throw PathEnd{ 1 };
   END
   for ( const char *n : { "abort", "__cxa_pure_virtual", "__cxa_call_unexpected", "__assert_fail" } )
   {
      EXT( n )
         candidate( s, s.model, abortId, "abort", "abnormal termination through " + in.callee->getName().str() );
         throw PathEnd{ 1 };
      END
   }
   EXT( "__cxa_guard_acquire" )
      Val v = loadMem( s, a[0], 1, 8 );
      ret = cv( v.c ? 0 : 1 );
   END
   EXT( "__cxa_guard_release" ) storeMem( s, a[0], 1, cv( 1 ), 8 ); END
   EXT( "__cxa_guard_abort" ) END
   EXT( "__cxa_atexit" ) ret = cv( 0 ); END
   EXT( "_ZSt18uncaught_exceptionv" ) ret = cv( 0 ); END
   EXT( "_ZSt19uncaught_exceptionsv" ) ret = cv( 0 ); END
   EXT( "__dynamic_cast" )
      // src ptr, src ti, dst ti, hint: read the most derived type from the vtable
      if ( !a[0].c ) { ret = cv( 0 ); return; }
      uint64_t vptr = loadMem( s, a[0], 8, 64 ).c;
      uint64_t off = loadMem( s, cv( vptr - 16 ), 8, 64 ).c, ti = loadMem( s, cv( vptr - 8 ), 8, 64 ).c;
      ret = cv( tiMatch( s, ti, a[2].c ) ? a[0].c + off : 0 ); // single non-virtual inheritance: same address
   END
   // ---- harness interface
   EXT( "__sym_make" )
      uint64_t n = concretize( s, a[1], 64, "size" );
      std::string name = readCStr( s, a[2].c );
      Input inp;
      inp.name = name;
      inp.size = (uint32_t)n;
      // names are per path position, so that identical prefixes share variables
      static std::unordered_map<std::string, std::vector<Ex>> pool;
      std::string key = name + "#" + std::to_string( s.inputs.size() ) + "#" + std::to_string( n );
      auto it = pool.find( key );
      if ( it == pool.end() )
      {
         std::vector<Ex> v;
         if ( n == 1 || n == 2 || n == 4 || n == 8 ) v.push_back( mkVar( name, (unsigned)n * 8 ) );
         else
            for ( uint64_t i = 0; i < n; i++ ) v.push_back( mkVar( name + "[" + std::to_string( i ) + "]", 8 ) );
         it = pool.emplace( key, v ).first;
      }
      inp.vars = it->second;
      if ( n )
      {
         MemObj *o = access( s, a[0].c, n, true );
         if ( inp.vars.size() == 1 && n <= 8 ) writeBytes( o, (uint32_t)a[0].c, (unsigned)n, ve( inp.vars[0] ), (unsigned)n * 8 );
         else
            for ( uint64_t i = 0; i < n; i++ ) writeBytes( o, (uint32_t)( a[0].c + i ), 1, ve( inp.vars[i] ), 8 );
      }
      s.inputs.push_back( inp );
   END
   EXT( "__sym_assume" )
      assumeC( s, ex( a[0], 1 ) );
   END
   EXT( "__sym_assert" )
      std::string id = readCStr( s, a[1].c );
      checkAssert( s, ex( a[0], 1 ), id, true );
   END
   EXT( "__sym_cover" ) covers[readCStr( s, a[0].c )]++; END
   EXT( "__sym_concrete" ) ret = cv( concretize( s, a[0], 64, "harness value" ) ); END
   EXT( "__sym_is_symbolic" )
      uint64_t n = a[1].c;
      MemObj *o = access( s, a[0].c, n, false );
      bool any = false;
      if ( !o->s.empty() )
         for ( uint64_t i = 0; i < n; i++ ) any = any || o->s[(uint32_t)a[0].c + i];
      ret = cv( any );
   END
   EXT( "__sym_end" ) throw PathEnd{ 0 }; END
   EXT( "__sym_print" )
      std::string t = readCStr( s, a[0].c );
      if ( a[1].e )
      {
         evalReset();
         fprintf( stderr, "[print] %s = <symbolic w%d, e.g. %ld>\n", t.c_str(), a[1].e->w, (long)evalExpr( a[1].e, s.model ) );
      }
      else fprintf( stderr, "[print] %s = %ld\n", t.c_str(), (long)a[1].c );
   END
   EXT( "__sym_param" ) ret = cv( gParam ); END
   EXT( "__sym_observe" ) s.obs.push_back( { readCStr( s, a[0].c ), a[1] } ); END
   EXT( "vf_unmodelled" ) throw Abort{ "unmodelled: " + readCStr( s, a[0].c ) }; END
   EXT( "__sym_where" ) fprintf( stderr, "[where] %s\n", where( s ).c_str() ); END
   EXT( "__sym_crc" )
      uint64_t n = concretize( s, a[1], 64, "checksum size" );
      std::vector<Ex> v;
      v.reserve( n );
      if ( n )
      {
         MemObj *o = access( s, a[0].c, n, false );
         for ( uint64_t i = 0; i < n; i++ ) v.push_back( byteAt( o, (uint32_t)( a[0].c + i ) ) );
      }
      ret = ve( mkUF( v ) );
   END
   EXT( "__sym_safety_id" ) safetyId = readCStr( s, a[0].c ); END
   EXT( "__sym_symbolic" ) ret = cv( 1 ); END
   // any(cond): builds a symbolic select without forking is done by the compiler
   EXT( "__sym_fmt_double" ) // buf, size, precision, kind ('e','f','g'), bits
      double d;
      uint64_t bits = concretize( s, a[4], 64, "formatted number" );
      memcpy( &d, &bits, 8 );
      char fmt[16];
      snprintf( fmt, sizeof fmt, "%%.*%c", (char)a[3].c );
      char buf[512];
      int n = snprintf( buf, sizeof buf, fmt, (int)a[2].c, d );
      for ( int i = 0; i <= n; i++ ) storeMem( s, cv( a[0].c + i ), 1, cv( (uint8_t)buf[i] ), 8 );
      ret = cv( (uint32_t)n );
   END
   for ( const char *nm : { "strtod", "strtof" } )
   {
      EXT( nm )
         std::string t = readCStr( s, a[0].c );
         char *e;
         uint64_t bits = 0;
         errno = 0;
         bool isf = in.callee->getName() == "strtof";
         if ( isf ) { float d = strtof( t.c_str(), &e ); memcpy( &bits, &d, 4 ); }
         else { double d = strtod( t.c_str(), &e ); memcpy( &bits, &d, 8 ); }
         if ( a[1].c ) storeMem( s, a[1], 8, cv( a[0].c + ( e - t.c_str() ) ), 64 );
         ret = cv( bits );
      END
   }
   // ---- math on concrete values, exact operations on symbolic ones
   struct M1 { const char *n; double ( *f )( double ); };
   static const M1 m1[] = { { "sin", sin }, { "cos", cos }, { "tan", tan }, { "atan", atan }, { "asin", asin }, { "acos", acos }, { "exp", exp }, { "log", log }, { "log10", log10 }, { "log2", log2 }, { "exp2", exp2 }, { "expm1", expm1 }, { "log1p", log1p }, { "sinh", sinh }, { "cosh", cosh }, { "tanh", tanh }, { "cbrt", cbrt } };
   for ( auto &m : m1 )
      regExt( m.n, [f = m.f]( State &s, Inst &, AV &a, Val &r ) {
         uint64_t c = concretize( s, a[0], 64, "argument of a transcendental function" );
         r = f64op( cv( c ), f );
      } );
   struct M3 { const char *n; double ( *f )( double, double ); };
   static const M3 m3[] = { { "fmod", fmod }, { "pow", pow }, { "atan2", atan2 }, { "hypot", hypot }, { "remainder", remainder }, { "nextafter", nextafter } };
   for ( auto &m : m3 )
      regExt( m.n, [f = m.f]( State &s, Inst &, AV &a, Val &r ) {
         uint64_t b[2] = { concretize( s, a[0], 64, "argument of a mathematical function" ), concretize( s, a[1], 64, "argument of a mathematical function" ) };
         double d[2];
         memcpy( d, b, 16 );
         d[0] = f( d[0], d[1] );
         memcpy( b, d, 8 );
         r = cv( b[0] );
      } );
   EXT( "ldexp" )
      uint64_t b = concretize( s, a[0], 64, "argument of a mathematical function" );
      double d;
      memcpy( &d, &b, 8 );
      d = ldexp( d, (int)concretize( s, a[1], 32, "argument of a mathematical function" ) );
      memcpy( &b, &d, 8 );
      ret = cv( b );
   END
   EXT( "frexp" )
      uint64_t b = concretize( s, a[0], 64, "argument of a mathematical function" );
      double d;
      int e;
      memcpy( &d, &b, 8 );
      d = frexp( d, &e );
      memcpy( &b, &d, 8 );
      storeMem( s, a[1], 4, cv( (uint32_t)e ), 32 );
      ret = cv( b );
   END
   EXT( "ilogb" )
      uint64_t b = concretize( s, a[0], 64, "argument of a mathematical function" );
      double d;
      memcpy( &d, &b, 8 );
      ret = cv( (uint32_t)ilogb( d ) );
   END
   for ( const char *nm : { "lrint", "llrint" } )
   {
      EXT( nm ) ret = ve( mkF1( K::F2SI, mkF1( K::FRnd, ex( a[0], 64 ), 64, 0 ), 64 ) ); END
   }
   EXT( "modf" )
      Ex whole = mkF1( K::FRnd, ex( a[0], 64 ), 64, 3 );
      storeMem( s, a[1], 8, ve( whole ), 64 );
      ret = ve( mkF2( K::FSub, ex( a[0], 64 ), whole ) );
   END
   EXT( "fabsf" ) ret = ve( mkBin( K::And, ex( a[0], 32 ), mkConst( 0x7FFFFFFF, 32 ) ) ); END
   EXT( "sqrtf" ) ret = ve( mkF1( K::FSqrt, ex( a[0], 32 ), 32 ) ); END
   struct M2 { const char *n; int aux; unsigned w; };
   static const M2 m2[] = { { "floor", 1, 64 }, { "ceil", 2, 64 }, { "trunc", 3, 64 }, { "round", 4, 64 }, { "rint", 0, 64 }, { "nearbyint", 0, 64 }, { "floorf", 1, 32 }, { "ceilf", 2, 32 }, { "truncf", 3, 32 }, { "roundf", 4, 32 } };
   for ( auto &m : m2 )
      regExt( m.n, [m]( State &, Inst &, AV &a, Val &r ) { r = ve( mkF1( K::FRnd, ex( a[0], m.w ), m.w, m.aux ) ); } );
   EXT( "fabs" ) ret = ve( mkBin( K::And, ex( a[0], 64 ), mkConst( ~0ULL >> 1, 64 ) ) ); END
   EXT( "sqrt" ) ret = ve( mkF1( K::FSqrt, ex( a[0], 64 ), 64 ) ); END
   for ( const char *nm : { "llround", "lround" } )
   {
      EXT( nm ) ret = ve( mkF1( K::F2SI, mkF1( K::FRnd, ex( a[0], 64 ), 64, 4 ), 64 ) ); END
   }
#undef EXT
#undef END
}
