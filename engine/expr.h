// Hash-consed bit-vector / floating-point terms with a local simplifier.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

enum class K : uint8_t
{
   Const, Var,
   Add, Sub, Mul, UDiv, SDiv, URem, SRem,
   And, Or, Xor, Shl, LShr, AShr,
   Eq, Ult, Ule, Slt, Sle,
   Not, Ite, ZExt, SExt, Extract, Concat,
   // floating point: operands/results are IEEE bit patterns (32 or 64 bits)
   FAdd, FSub, FMul, FDiv, FSqrt,
   FEq, FLt, FLe, FIsNan,
   FPExt, FPTrunc, SI2F, UI2F, F2SI, F2UI, FRnd, // FRnd: aux 0 RNE 1 floor 2 ceil 3 trunc 4 RNA
   UF // uninterpreted checksum of a byte sequence, c = index in argument table
};

struct Expr
{
   K k;
   uint8_t w;     // result width in bits, 1..64
   uint8_t aux;   // Extract offset / FRnd mode
   bool rangeKnown;
   uint32_t id;
   uint64_t c;    // Const value / Var id / UF table index
   Expr *a, *b, *d;
   uint64_t umin, umax;
   Expr *next;    // hash chain
};
typedef Expr *E;

typedef std::unordered_map<uint32_t, uint64_t> Model; // Var id -> value

inline uint64_t maskw( unsigned w ) { return w >= 64 ? ~0ULL : ( ( 1ULL << w ) - 1 ); }
inline int64_t sextw( uint64_t v, unsigned w )
{
   if ( w >= 64 ) return (int64_t)v;
   return ( (int64_t)( v << ( 64 - w ) ) ) >> ( 64 - w );
}

E mkConst( uint64_t v, unsigned w );
E mkVar( const std::string &name, unsigned w );
const std::string &varName( uint32_t vid );
unsigned varWidth( uint32_t vid );
uint32_t varCount();
E varExpr( uint32_t vid );
E mkBin( K k, E a, E b );
E mkNot( E a ); // bitwise not
E mkIte( E c, E t, E f );
E mkZExt( E a, unsigned w );
E mkSExt( E a, unsigned w );
E mkExtract( E a, unsigned off, unsigned w );
E mkConcat( E hi, E lo );
E mkF1( K k, E a, unsigned w, unsigned aux = 0 );
E mkF2( K k, E a, E b );
E mkUF( const std::vector<E> &bytes );
const std::vector<E> &ufArgs( E e );
inline bool isC( E e ) { return e->k == K::Const; }

uint64_t evalExpr( E e, const Model &m );
void evalReset(); // forget memo (call when model changes)
uint64_t foldF2( K k, uint64_t a, uint64_t b, unsigned w, bool &ok );
uint64_t foldF1( K k, uint64_t a, unsigned wfrom, unsigned w, unsigned aux );
void urange( E e, uint64_t &lo, uint64_t &hi );
const std::vector<uint32_t> &varsOf( E e ); // variable ids (and UF ids | 0x80000000)
bool hasFP( E e );
size_t exprCount();
uint32_t crc32c( const uint8_t *p, size_t n );
std::string toSmt( const std::vector<E> &cs );
