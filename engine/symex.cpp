// Symbolic execution of LLVM IR.  One process explores one harness.
#include "expr.h"
#include "mem.h"
#include "solver.h"

#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"

#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
typedef ::Expr *Ex;

// ------------------------------------------------------------------ values
struct Val
{
   uint64_t c;
   Ex e; // null when concrete
};
static inline Val cv( uint64_t c ) { return Val{ c, nullptr }; }
static inline Val ve( Ex e )
{
   if ( isC( e ) ) return Val{ e->c, nullptr };
   return Val{ 0, e };
}
static inline Ex ex( const Val &v, unsigned w ) { return v.e ? v.e : mkConst( v.c, w ); }

// ------------------------------------------------------------------ decoded code
struct Opnd
{
   int32_t slot = -1; // >=0 register base
   uint32_t n = 1;
   uint64_t c = 0;
   std::vector<uint64_t> *cs = nullptr; // constants when n>1
};
struct SlotT
{
   uint32_t off;
   uint8_t w;
   uint8_t bytes;
};
enum class OpK : uint8_t
{
   Bin, Cmp, FCmp, FBin, FNeg, Cast, Load, Store, Gep, Alloca, Br, CondBr, Switch, Ret, Call, Invoke, Unreachable, Select, ExtractV,
   InsertV, LandingPad, Resume, Freeze, ExtractE, InsertE, Shuffle, Rmw, CmpXchg, Nop, BitcastMulti
};
struct PhiCopy
{
   int32_t dst;
   Opnd src;
};
struct Edge
{
   int32_t pc = -1;
   std::vector<PhiCopy> phis;
};
struct FnInfo;
struct Inst
{
   OpK k;
   uint16_t sub = 0;
   uint8_t w = 0;  // operand width
   uint8_t w2 = 0; // result width
   int32_t dst = -1;
   uint32_t n = 1; // slots of result
   std::vector<Opnd> ops;
   std::vector<SlotT> *lay = nullptr; // load/store layout
   std::vector<std::pair<int, uint64_t>> gidx; // op index, scale
   uint64_t imm = 0;
   std::vector<Edge> edges;
   std::vector<uint64_t> cases;
   std::vector<int> mask;
   const Instruction *I = nullptr;
   Function *callee = nullptr;
   FnInfo *cfi = nullptr;
   int ext = -1; // external handler
   std::vector<uint32_t> byval;
};
struct FnInfo
{
   Function *F = nullptr;
   std::vector<Inst> code;
   uint32_t nslots = 0;
   bool decoded = false;
   uint64_t calls = 0;
   std::string dem;
   int branches = 0;
};

struct Frame
{
   FnInfo *f;
   uint32_t base;
   int32_t pc;
   std::vector<uint32_t> allocas;
   int special = 0; // 1: returning from exception destructor etc.
   uint64_t va = 0;  // variable arguments in memory, eight bytes each
};
struct Input
{
   std::string name;
   std::vector<Ex> vars; // bytes or one wide var
   uint32_t size;
};
struct Caught
{
   uint64_t obj;
   uint64_t ti;
   bool rethrown = false;
};
struct State
{
   Memory mem;
   std::vector<Frame> fr;
   std::vector<Val> st;
   std::vector<Ex> pc;
   Model model;
   bool exact = true;
   std::vector<Input> inputs;
   std::vector<Caught> caught;
   uint64_t excObj = 0, excTi = 0;
   uint64_t steps = 0;
   std::map<uint64_t, uint64_t> excType; // exception object -> typeinfo
   uint32_t depth = 0; // forks
   std::vector<std::string> trace;
   std::vector<std::pair<std::string, Val>> obs;
   std::string thrown; // where the last exception was raised
   std::map<std::pair<FnInfo *, uint32_t>, uint32_t> conc; // values already split off per call site
};

// ------------------------------------------------------------------ globals
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint32_t, Function *> fnById;
static std::unordered_map<Function *, std::unique_ptr<FnInfo>> fns;
static std::unordered_map<Type *, std::vector<SlotT> *> layCache;
static std::vector<State *> work;
static std::map<std::string, uint64_t> covers;
struct AssertInfo
{
   uint64_t concrete = 0, discharged = 0, failed = 0, unknown = 0;
};
static std::map<std::string, AssertInfo> asserts;
static uint64_t nPaths = 0, nPathsErr = 0, nForks = 0, nSteps = 0, nInfeasible = 0, nConcretize = 0, nSymRead = 0, nUnknownBr = 0;
static std::vector<std::string> incomplete;
static std::string outDir = ".";
static uint64_t maxSteps = 400000000ULL;
static double timeLimit = 600;
static uint64_t maxPaths = 1000000, stopAfter = 6, perAssert = 3;
static double t0;
static bool hangIsViolation = true;
static std::mt19937_64 rng( 1 );
static double nowS() { return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count(); }

static int verbose = getenv( "SYMEX_VERBOSE" ) ? atoi( getenv( "SYMEX_VERBOSE" ) ) : 0;
static uint32_t maxValues = 300; // distinct values followed at one place on one path
static void addIncomplete( const std::string &s )
{
   for ( auto &x : incomplete )
      if ( x == s ) return;
   if ( incomplete.size() < 40 ) incomplete.push_back( s );
}
struct Abort
{
   std::string why;
};
[[noreturn]] static void fatal( const std::string &s ) { throw Abort{ s }; }

// ------------------------------------------------------------------ layouts
static void flat( Type *T, uint32_t off, std::vector<SlotT> &out )
{
   if ( auto *S = dyn_cast<StructType>( T ) )
   {
      auto *SL = DL->getStructLayout( S );
      for ( unsigned i = 0; i < S->getNumElements(); i++ ) flat( S->getElementType( i ), off + (uint32_t)SL->getElementOffset( i ), out );
   }
   else if ( auto *A = dyn_cast<ArrayType>( T ) )
   {
      uint64_t sz = DL->getTypeAllocSize( A->getElementType() );
      for ( uint64_t i = 0; i < A->getNumElements(); i++ ) flat( A->getElementType(), off + (uint32_t)( i * sz ), out );
   }
   else if ( auto *V = dyn_cast<FixedVectorType>( T ) )
   {
      uint64_t sz = DL->getTypeStoreSize( V->getElementType() );
      for ( unsigned i = 0; i < V->getNumElements(); i++ ) flat( V->getElementType(), off + (uint32_t)( i * sz ), out );
   }
   else if ( T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() )
   {
   }
   else
   {
      uint64_t bits = DL->getTypeSizeInBits( T );
      if ( bits > 64 ) // i128 / fp80: split into 64-bit slots
      {
         uint64_t nb = ( bits + 63 ) / 64;
         for ( uint64_t i = 0; i < nb; i++ ) out.push_back( SlotT{ (uint32_t)( off + 8 * i ), 64, 8 } );
         return;
      }
      out.push_back( SlotT{ off, (uint8_t)bits, (uint8_t)DL->getTypeStoreSize( T ) } );
   }
}
static std::vector<SlotT> *layout( Type *T )
{
   auto &p = layCache[T];
   if ( !p )
   {
      p = new std::vector<SlotT>;
      flat( T, 0, *p );
   }
   return p;
}
static unsigned nslots( Type *T ) { return layout( T )->size(); }

// ------------------------------------------------------------------ constants
static uint64_t constScalar( const Constant *C );
static uint64_t gepConst( const GEPOperator *G )
{
   APInt off( 64, 0 );
   if ( !G->accumulateConstantOffset( *DL, off ) ) fatal( "non-constant gep constant" );
   return constScalar( cast<Constant>( G->getPointerOperand() ) ) + off.getSExtValue();
}
static uint64_t constScalar( const Constant *C )
{
   if ( auto *I = dyn_cast<ConstantInt>( C ) ) return I->getValue().extractBitsAsZExtValue( std::min( 64u, I->getBitWidth() ), 0 );
   if ( auto *F = dyn_cast<ConstantFP>( C ) ) return F->getValueAPF().bitcastToAPInt().extractBitsAsZExtValue( std::min( 64u, F->getValueAPF().bitcastToAPInt().getBitWidth() ), 0 );
   if ( isa<ConstantPointerNull>( C ) || isa<UndefValue>( C ) || isa<ConstantAggregateZero>( C ) ) return 0;
   if ( auto *A = dyn_cast<GlobalAlias>( C ) ) return constScalar( A->getAliasee() );
   if ( auto *G = dyn_cast<GlobalValue>( C ) )
   {
      auto it = gaddr.find( G );
      if ( it == gaddr.end() ) fatal( "no address for " + G->getName().str() );
      return it->second;
   }
   if ( auto *CE = dyn_cast<ConstantExpr>( C ) )
   {
      switch ( CE->getOpcode() )
      {
         case Instruction::GetElementPtr: return gepConst( cast<GEPOperator>( CE ) );
         case Instruction::BitCast:
         case Instruction::IntToPtr:
         case Instruction::PtrToInt:
         case Instruction::AddrSpaceCast: return constScalar( CE->getOperand( 0 ) );
         case Instruction::Trunc: return constScalar( CE->getOperand( 0 ) ) & maskw( CE->getType()->getIntegerBitWidth() );
         case Instruction::ZExt: return constScalar( CE->getOperand( 0 ) );
         case Instruction::Add: return constScalar( CE->getOperand( 0 ) ) + constScalar( CE->getOperand( 1 ) );
         case Instruction::Sub: return constScalar( CE->getOperand( 0 ) ) - constScalar( CE->getOperand( 1 ) );
         case Instruction::ICmp:
         {
            auto p = CE->getPredicate();
            uint64_t a = constScalar( CE->getOperand( 0 ) ), b = constScalar( CE->getOperand( 1 ) );
            if ( p == CmpInst::ICMP_EQ ) return a == b;
            if ( p == CmpInst::ICMP_NE ) return a != b;
            break;
         }
         case Instruction::Select: break;
      }
   }
   std::string s;
   raw_string_ostream o( s );
   C->print( o );
   fatal( "constant not supported: " + o.str() );
}
static void constFlat( const Constant *C, std::vector<uint64_t> &out )
{
   Type *T = C->getType();
   if ( T->isAggregateType() || T->isVectorTy() )
   {
      unsigned n = T->isVectorTy() ? cast<FixedVectorType>( T )->getNumElements() : T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements();
      for ( unsigned i = 0; i < n; i++ )
      {
         Constant *e = C->getAggregateElement( i );
         if ( !e ) fatal( "aggregate constant" );
         constFlat( e, out );
      }
   }
   else if ( DL->getTypeSizeInBits( T ) > 64 )
   {
      unsigned nb = ( DL->getTypeSizeInBits( T ) + 63 ) / 64;
      APInt v( nb * 64, 0 );
      if ( auto *I = dyn_cast<ConstantInt>( C ) ) v = I->getValue().zext( nb * 64 );
      for ( unsigned i = 0; i < nb; i++ ) out.push_back( v.extractBitsAsZExtValue( 64, i * 64 ) );
   }
   else
      out.push_back( constScalar( C ) );
}

// ------------------------------------------------------------------ decode
static std::unordered_map<std::string, int> extIndex;
typedef std::function<void( State &, Inst &, std::vector<Val> &, Val & )> ExtFn;
static std::vector<std::pair<std::string, ExtFn>> exts;
static void regExt( const std::string &n, ExtFn f )
{
   extIndex[n] = exts.size();
   exts.push_back( { n, std::move( f ) } );
}
static FnInfo *fnInfo( Function *F )
{
   auto &p = fns[F];
   if ( !p )
   {
      p.reset( new FnInfo );
      p->F = F;
   }
   return p.get();
}

static void decode( FnInfo &fi )
{
   Function &F = *fi.F;
   fi.decoded = true;
   fi.dem = demangle( F.getName().str() );
   std::unordered_map<const Value *, int32_t> slot;
   uint32_t ns = 0;
   auto give = [&]( const Value *v ) {
      unsigned n = nslots( v->getType() );
      slot[v] = ns;
      ns += n;
   };
   for ( auto &a : F.args() ) give( &a );
   for ( auto &B : F )
      for ( auto &I : B )
         if ( !I.getType()->isVoidTy() ) give( &I );
   fi.nslots = ns;
   auto opnd = [&]( const Value *v ) {
      Opnd o;
      o.n = nslots( v->getType() );
      if ( auto *c = dyn_cast<Constant>( v ) )
      {
         auto *vec = new std::vector<uint64_t>;
         constFlat( c, *vec );
         if ( vec->size() == 1 )
         {
            o.c = ( *vec )[0];
            delete vec;
         }
         else
            o.cs = vec;
         o.slot = -1;
      }
      else if ( isa<MetadataAsValue>( v ) || isa<InlineAsm>( v ) || isa<BasicBlock>( v ) )
      {
         o.n = 0;
      }
      else
         o.slot = slot.at( v );
      return o;
   };
   // first pass: positions
   std::unordered_map<const BasicBlock *, int32_t> bpc;
   int32_t pc = 0;
   for ( auto &B : F )
   {
      bpc[&B] = pc;
      for ( auto &I : B )
      {
         if ( isa<PHINode>( I ) ) continue;
         if ( auto *ii = dyn_cast<IntrinsicInst>( &I ) )
         {
            auto id = ii->getIntrinsicID();
            if ( id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::lifetime_start ||
                 id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl ||
                 id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch || id == Intrinsic::donothing )
               continue;
         }
         pc++;
      }
   }
   auto mkEdge = [&]( const BasicBlock *from, const BasicBlock *to ) {
      Edge e;
      e.pc = bpc.at( to );
      for ( auto &P : to->phis() )
      {
         PhiCopy pcp;
         pcp.dst = slot.at( &P );
         pcp.src = opnd( P.getIncomingValueForBlock( from ) );
         e.phis.push_back( pcp );
      }
      return e;
   };
   fi.code.reserve( pc );
   for ( auto &B : F )
      for ( auto &I : B )
      {
         if ( isa<PHINode>( I ) ) continue;
         if ( auto *ii = dyn_cast<IntrinsicInst>( &I ) )
         {
            auto id = ii->getIntrinsicID();
            if ( id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::lifetime_start ||
                 id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl ||
                 id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch || id == Intrinsic::donothing )
               continue;
         }
         Inst n;
         n.I = &I;
         if ( !I.getType()->isVoidTy() )
         {
            n.dst = slot.at( &I );
            n.n = nslots( I.getType() );
         }
         auto scalarW = [&]( Type *T ) -> unsigned {
            if ( T->isVectorTy() ) T = cast<VectorType>( T )->getElementType();
            if ( T->isVoidTy() || T->isAggregateType() ) return 0;
            return (unsigned)DL->getTypeSizeInBits( T );
         };
         n.w2 = scalarW( I.getType() );
         if ( I.getNumOperands() && !isa<CallBase>( I ) && !isa<BranchInst>( I ) ) n.w = scalarW( I.getOperand( 0 )->getType() );
         auto addOps = [&]() {
            for ( auto &o : I.operands() ) n.ops.push_back( opnd( o.get() ) );
         };
         switch ( I.getOpcode() )
         {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
            case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            {
               n.k = OpK::Bin;
               addOps();
               K k = K::Add;
               switch ( I.getOpcode() )
               {
                  case Instruction::Add: k = K::Add; break;
                  case Instruction::Sub: k = K::Sub; break;
                  case Instruction::Mul: k = K::Mul; break;
                  case Instruction::UDiv: k = K::UDiv; break;
                  case Instruction::SDiv: k = K::SDiv; break;
                  case Instruction::URem: k = K::URem; break;
                  case Instruction::SRem: k = K::SRem; break;
                  case Instruction::And: k = K::And; break;
                  case Instruction::Or: k = K::Or; break;
                  case Instruction::Xor: k = K::Xor; break;
                  case Instruction::Shl: k = K::Shl; break;
                  case Instruction::LShr: k = K::LShr; break;
                  case Instruction::AShr: k = K::AShr; break;
               }
               n.sub = (uint16_t)k;
               break;
            }
            case Instruction::FAdd: n.k = OpK::FBin; n.sub = (uint16_t)K::FAdd; addOps(); break;
            case Instruction::FSub: n.k = OpK::FBin; n.sub = (uint16_t)K::FSub; addOps(); break;
            case Instruction::FMul: n.k = OpK::FBin; n.sub = (uint16_t)K::FMul; addOps(); break;
            case Instruction::FDiv: n.k = OpK::FBin; n.sub = (uint16_t)K::FDiv; addOps(); break;
            case Instruction::FNeg: n.k = OpK::FNeg; addOps(); break;
            case Instruction::ICmp: n.k = OpK::Cmp; n.sub = cast<ICmpInst>( I ).getPredicate(); addOps(); break;
            case Instruction::FCmp: n.k = OpK::FCmp; n.sub = cast<FCmpInst>( I ).getPredicate(); addOps(); break;
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI:
            case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt:
            case Instruction::IntToPtr: case Instruction::BitCast:
               n.k = OpK::Cast;
               n.sub = I.getOpcode();
               addOps();
               if ( I.getOpcode() == Instruction::BitCast && ( n.n != 1 || n.ops[0].n != 1 ) )
               {
                  if ( n.n == n.ops[0].n && n.w == n.w2 ) {} // elementwise copy
                  else
                     n.k = OpK::BitcastMulti;
                  n.lay = layout( I.getType() );
               }
               break;
            case Instruction::Load:
               n.k = OpK::Load;
               addOps();
               n.lay = layout( I.getType() );
               break;
            case Instruction::Store:
               n.k = OpK::Store;
               addOps();
               n.lay = layout( I.getOperand( 0 )->getType() );
               break;
            case Instruction::GetElementPtr:
            {
               n.k = OpK::Gep;
               auto &G = cast<GetElementPtrInst>( I );
               n.ops.push_back( opnd( G.getPointerOperand() ) );
               uint64_t c = 0;
               for ( auto gi = gep_type_begin( G ), ge = gep_type_end( G ); gi != ge; ++gi )
               {
                  Value *ix = gi.getOperand();
                  if ( StructType *S = gi.getStructTypeOrNull() )
                     c += DL->getStructLayout( S )->getElementOffset( (unsigned)cast<ConstantInt>( ix )->getZExtValue() );
                  else
                  {
                     uint64_t sz = DL->getTypeAllocSize( gi.getIndexedType() );
                     if ( auto *ci = dyn_cast<ConstantInt>( ix ) )
                        c += sz * (uint64_t)ci->getSExtValue();
                     else
                     {
                        n.gidx.push_back( { (int)n.ops.size(), sz } );
                        n.ops.push_back( opnd( ix ) );
                        n.cases.push_back( scalarW( ix->getType() ) );
                     }
                  }
               }
               n.imm = c;
               break;
            }
            case Instruction::Alloca:
            {
               n.k = OpK::Alloca;
               auto &A = cast<AllocaInst>( I );
               n.imm = DL->getTypeAllocSize( A.getAllocatedType() );
               n.ops.push_back( opnd( A.getArraySize() ) );
               break;
            }
            case Instruction::Br:
            {
               auto &b = cast<BranchInst>( I );
               if ( b.isUnconditional() )
               {
                  n.k = OpK::Br;
                  n.edges.push_back( mkEdge( &B, b.getSuccessor( 0 ) ) );
               }
               else
               {
                  n.k = OpK::CondBr;
                  n.ops.push_back( opnd( b.getCondition() ) );
                  n.edges.push_back( mkEdge( &B, b.getSuccessor( 0 ) ) );
                  n.edges.push_back( mkEdge( &B, b.getSuccessor( 1 ) ) );
                  fi.branches++;
               }
               break;
            }
            case Instruction::Switch:
            {
               n.k = OpK::Switch;
               auto &s = cast<SwitchInst>( I );
               n.ops.push_back( opnd( s.getCondition() ) );
               n.w = scalarW( s.getCondition()->getType() );
               n.edges.push_back( mkEdge( &B, s.getDefaultDest() ) );
               for ( auto &c : s.cases() )
               {
                  n.cases.push_back( c.getCaseValue()->getZExtValue() );
                  n.edges.push_back( mkEdge( &B, c.getCaseSuccessor() ) );
               }
               fi.branches++;
               break;
            }
            case Instruction::Ret:
               n.k = OpK::Ret;
               addOps();
               break;
            case Instruction::Unreachable: n.k = OpK::Unreachable; break;
            case Instruction::Select: n.k = OpK::Select; addOps(); n.w2 = n.w2; n.lay = layout( I.getType() ); break;
            case Instruction::ExtractValue:
            {
               n.k = OpK::ExtractV;
               auto &x = cast<ExtractValueInst>( I );
               n.ops.push_back( opnd( x.getAggregateOperand() ) );
               uint32_t off = 0;
               Type *T = x.getAggregateOperand()->getType();
               for ( unsigned ix : x.indices() )
               {
                  if ( T->isStructTy() )
                  {
                     for ( unsigned q = 0; q < ix; q++ ) off += nslots( T->getStructElementType( q ) );
                     T = T->getStructElementType( ix );
                  }
                  else
                  {
                     off += ix * nslots( T->getArrayElementType() );
                     T = T->getArrayElementType();
                  }
               }
               n.imm = off;
               break;
            }
            case Instruction::InsertValue:
            {
               n.k = OpK::InsertV;
               auto &x = cast<InsertValueInst>( I );
               n.ops.push_back( opnd( x.getAggregateOperand() ) );
               n.ops.push_back( opnd( x.getInsertedValueOperand() ) );
               uint32_t off = 0;
               Type *T = x.getAggregateOperand()->getType();
               for ( unsigned ix : x.indices() )
               {
                  if ( T->isStructTy() )
                  {
                     for ( unsigned q = 0; q < ix; q++ ) off += nslots( T->getStructElementType( q ) );
                     T = T->getStructElementType( ix );
                  }
                  else
                  {
                     off += ix * nslots( T->getArrayElementType() );
                     T = T->getArrayElementType();
                  }
               }
               n.imm = off;
               break;
            }
            case Instruction::ExtractElement: n.k = OpK::ExtractE; addOps(); break;
            case Instruction::InsertElement: n.k = OpK::InsertE; addOps(); break;
            case Instruction::ShuffleVector:
            {
               n.k = OpK::Shuffle;
               auto &s = cast<ShuffleVectorInst>( I );
               n.ops.push_back( opnd( s.getOperand( 0 ) ) );
               n.ops.push_back( opnd( s.getOperand( 1 ) ) );
               for ( int m : s.getShuffleMask() ) n.mask.push_back( m );
               break;
            }
            case Instruction::Freeze: n.k = OpK::Freeze; addOps(); break;
            case Instruction::LandingPad: n.k = OpK::LandingPad; break;
            case Instruction::Resume: n.k = OpK::Resume; addOps(); break;
            case Instruction::Fence: n.k = OpK::Nop; break;
            case Instruction::AtomicRMW:
               n.k = OpK::Rmw;
               n.sub = cast<AtomicRMWInst>( I ).getOperation();
               addOps();
               n.lay = layout( I.getType() );
               break;
            case Instruction::AtomicCmpXchg:
               n.k = OpK::CmpXchg;
               addOps();
               n.lay = layout( I.getOperand( 1 )->getType() );
               break;
            case Instruction::Call:
            case Instruction::Invoke:
            {
               auto &cb = cast<CallBase>( I );
               n.k = I.getOpcode() == Instruction::Call ? OpK::Call : OpK::Invoke;
               for ( unsigned q = 0; q < cb.arg_size(); q++ )
               {
                  n.ops.push_back( opnd( cb.getArgOperand( q ) ) );
                  if ( cb.isByValArgument( q ) )
                  {
                     n.byval.push_back( q );
                     n.byval.push_back( (uint32_t)DL->getTypeAllocSize( cb.getParamByValType( q ) ) );
                  }
               }
               Value *cal = cb.getCalledOperand()->stripPointerCasts();
               if ( auto *ga = dyn_cast<GlobalAlias>( cal ) ) cal = const_cast<GlobalObject *>( ga->getAliaseeObject() );
               n.callee = dyn_cast<Function>( cal );
               if ( !n.callee ) n.ops.push_back( opnd( cb.getCalledOperand() ) ); // last operand: target
               if ( auto *iv = dyn_cast<InvokeInst>( &I ) )
               {
                  n.edges.push_back( mkEdge( &B, iv->getNormalDest() ) );
                  n.edges.push_back( mkEdge( &B, iv->getUnwindDest() ) );
               }
               if ( n.callee )
               {
                  std::string nm = n.callee->getName().str();
                  if ( n.callee->isIntrinsic() )
                  {
                     // strip type suffixes handled at run time
                  }
                  auto it = extIndex.find( nm );
                  if ( it != extIndex.end() ) n.ext = it->second;
                  else if ( !n.callee->isDeclaration() ) n.cfi = fnInfo( n.callee );
               }
               break;
            }
            default: fatal( std::string( "unsupported instruction " ) + I.getOpcodeName() + " in " + fi.dem );
         }
         fi.code.push_back( std::move( n ) );
      }
}

// ------------------------------------------------------------------ reporting
static std::string where( State &s )
{
   std::string r;
   int n = 0;
   for ( auto it = s.fr.rbegin(); it != s.fr.rend() && n < 10; ++it, ++n )
   {
      if ( n ) r += " < ";
      std::string d = it->f->dem;
      size_t p = d.find( '(' );
      if ( p != std::string::npos ) d = d.substr( 0, p );
      if ( d.size() > 70 ) d = d.substr( 0, 70 );
      r += d;
   }
   return r;
}
struct Cand
{
   std::string id, kind, msg, loc, file;
};
static std::vector<Cand> cands;
static std::string jesc( const std::string &s )
{
   std::string o;
   for ( unsigned char c : s )
   {
      if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
      else if ( c < 32 || c > 126 ) { char b[8]; snprintf( b, 8, "\\u%04x", c ); o += b; }
      else o += c;
   }
   return o;
}
static uint64_t gParam = 0;
static void dumpInputs( State &s, const Model &m, FILE *f )
{
   fprintf( f, "#param %lu\n", (unsigned long)gParam );
   evalReset();
   for ( auto &in : s.inputs )
   {
      fprintf( f, "%s %u ", in.name.c_str(), in.size );
      for ( uint32_t i = 0; i < in.size; i++ )
      {
         unsigned v;
         if ( in.vars.size() == 1 ) v = (unsigned)( evalExpr( in.vars[0], m ) >> ( 8 * i ) ) & 255;
         else v = (unsigned)evalExpr( in.vars[i], m );
         fprintf( f, "%02x", v );
      }
      fprintf( f, "\n" );
   }
}
static uint64_t maxWit = 0, nWit = 0;
// inputs of a completed path plus the values the harness observed on it, for comparison with a native run
static void witness( State &s )
{
   if ( nWit >= maxWit || !s.exact || s.inputs.empty() ) return;
   FILE *f = fopen( ( outDir + "/wit_" + std::to_string( nWit++ ) + ".txt" ).c_str(), "w" );
   if ( !f ) return;
   dumpInputs( s, s.model, f );
   for ( auto &o : s.obs ) fprintf( f, "#obs %s %lx\n", o.first.c_str(), (unsigned long)( o.second.e ? evalExpr( o.second.e, s.model ) : o.second.c ) );
   fclose( f );
}
static void candidate( State &s, const Model &m, const std::string &id, const std::string &kind, const std::string &msg )
{
   auto &a = asserts[id];
   a.failed++;
   if ( a.failed > perAssert ) return;
   Cand c;
   c.id = id;
   c.kind = kind;
   c.msg = msg;
   c.loc = where( s );
   c.file = outDir + "/cand_" + std::to_string( cands.size() ) + ".txt";
   FILE *f = fopen( c.file.c_str(), "w" );
   if ( f )
   {
      fprintf( f, "#assert %s\n#kind %s\n#msg %s\n#at %s\n", id.c_str(), kind.c_str(), msg.c_str(), c.loc.c_str() );
      dumpInputs( s, m, f );
      fclose( f );
   }
   cands.push_back( c );
   fprintf( stderr, "CANDIDATE %s %s: %s at %s\n", id.c_str(), kind.c_str(), msg.c_str(), c.loc.c_str() );
}
struct PathEnd
{
   int kind; // 0 normal, 1 error, 2 infeasible, 3 incomplete
};
static std::string safetyId = "memory-safety";
static std::string abortId = "no-abnormal-termination";
[[noreturn]] static void memError( State &s, const std::string &msg )
{
   candidate( s, s.model, safetyId, "memory", msg );
   throw PathEnd{ 1 };
}

// ------------------------------------------------------------------ solver glue
static void addPc( State &s, Ex c )
{
   if ( isC( c ) ) return;
   if ( c->k == K::And && c->w == 1 )
   {
      addPc( s, c->a );
      addPc( s, c->b );
      return;
   }
   s.pc.push_back( c );
}
// evaluates which side of c the witness model takes; -1 if witness not usable
static int witness( State &s, Ex c )
{
   if ( !s.exact ) return -1;
   evalReset();
   return (int)evalExpr( c, s.model );
}
static State *forkState( State &s )
{
   State *n = new State( s );
   n->depth++;
   s.depth++;
   nForks++;
   if ( verbose > 1 ) fprintf( stderr, "[fork] at %s\n", where( s ).c_str() );
   return n;
}
// require c; throws when infeasible
static void assumeC( State &s, Ex c )
{
   if ( isC( c ) )
   {
      if ( !c->c ) throw PathEnd{ 2 };
      return;
   }
   if ( witness( s, c ) == 1 )
   {
      addPc( s, c );
      return;
   }
   Model m;
   bool exact;
   Res r = solve( s.pc, { c }, &s.model, &m, &exact );
   if ( r == Res::Unsat ) throw PathEnd{ 2 };
   if ( r == Res::Unknown )
   {
      addIncomplete( "solver gave no answer on an assumption at " + where( s ) );
      throw PathEnd{ 3 };
   }
   s.model = m;
   s.exact = exact && s.exact;
   if ( exact && !s.exact )
   { // re-check whole
      evalReset();
      bool ok = true;
      for ( Ex p : s.pc ) ok = ok && evalExpr( p, s.model );
      s.exact = ok;
   }
   addPc( s, c );
}
// feasibility of c in s with model
static Res feasible( State &s, Ex c, Model &m, bool &exact )
{
   Res r = solve( s.pc, { c }, &s.model, &m, &exact );
   if ( r == Res::Sat && exact && !s.exact )
   {
      evalReset();
      for ( Ex p : s.pc ) exact = exact && evalExpr( p, m );
   }
   return r;
}
static uint64_t concretize( State &s, Val v, unsigned w, const char *what );

// branch on symbolic condition: returns chosen side for s, pushes other to work with callback
static bool branchSym( State &s, Ex c, const std::function<void( State &, bool )> &otherSetup )
{
   int wsd = witness( s, c );
   if ( wsd >= 0 )
   {
      bool side = wsd;
      Ex nc = side ? mkNot( c ) : c;
      Model m;
      bool exact;
      Res r = feasible( s, nc, m, exact );
      if ( r == Res::Sat )
      {
         State *o = forkState( s );
         o->model = m;
         o->exact = exact;
         addPc( *o, nc );
         otherSetup( *o, !side );
         work.push_back( o );
         addPc( s, side ? c : mkNot( c ) );
      }
      else if ( r == Res::Unknown )
      {
         nUnknownBr++;
         addIncomplete( "solver gave no answer on a branch at " + where( s ) );
         addPc( s, side ? c : mkNot( c ) );
      }
      return side;
   }
   Model m1, m0;
   bool e1, e0;
   Res r1 = feasible( s, c, m1, e1 ), r0 = feasible( s, mkNot( c ), m0, e0 );
   if ( r1 == Res::Unknown || r0 == Res::Unknown )
   {
      nUnknownBr++;
      addIncomplete( "solver gave no answer on a branch at " + where( s ) );
   }
   if ( r1 != Res::Sat && r0 != Res::Sat )
   {
      if ( r1 == Res::Unsat && r0 == Res::Unsat ) throw PathEnd{ 2 };
      throw PathEnd{ 3 };
   }
   if ( r1 == Res::Sat && r0 == Res::Sat )
   {
      State *o = forkState( s );
      o->model = m0;
      o->exact = e0;
      addPc( *o, mkNot( c ) );
      otherSetup( *o, false );
      work.push_back( o );
      s.model = m1;
      s.exact = e1;
      addPc( s, c );
      return true;
   }
   bool side = r1 == Res::Sat;
   s.model = side ? m1 : m0;
   s.exact = side ? e1 : e0;
   addPc( s, side ? c : mkNot( c ) );
   return side;
}

static uint64_t concretize( State &s, Val v, unsigned w, const char *what )
{
   if ( !v.e ) return v.c;
   w = v.e->w;
   nConcretize++;
   // choose the witness value; the alternative re-executes the current instruction
   if ( !s.exact )
   {
      // obtain some model
      Model m;
      bool e;
      Res r = solve( s.pc, s.pc.empty() ? std::vector<Ex>{ mkConst( 1, 1 ) } : std::vector<Ex>{ s.pc.back() }, &s.model, &m, &e );
      if ( r == Res::Sat )
      {
         s.model = m;
         s.exact = e;
      }
   }
   evalReset();
   uint64_t val = evalExpr( v.e, s.model );
   Ex eq = mkBin( K::Eq, v.e, mkConst( val, w ) );
   if ( isC( eq ) ) return val;
   if ( verbose > 1 ) fprintf( stderr, "[conc] %s = %lu at %s\n", what, (unsigned long)val, where( s ).c_str() );
   uint32_t &cnt = s.conc[{ s.fr.back().f, s.fr.back().pc }];
   if ( ++cnt > maxValues )
   {
      addIncomplete( std::string( "more values than explored for " ) + what + " at " + where( s ) );
      throw PathEnd{ 3 };
   }
   Model m;
   bool exact;
   Res r = feasible( s, mkNot( eq ), m, exact );
   if ( r == Res::Sat )
   {
      State *o = forkState( s );
      o->model = m;
      o->exact = exact;
      addPc( *o, mkNot( eq ) );
      o->fr.back().pc--; // re-execute
      work.push_back( o );
   }
   else if ( r == Res::Unknown )
      addIncomplete( std::string( "solver gave no answer while fixing " ) + what + " at " + where( s ) );
   if ( !s.exact )
   {
      Model m2;
      bool e2;
      Res r2 = feasible( s, eq, m2, e2 );
      if ( r2 != Res::Sat ) throw PathEnd{ r2 == Res::Unsat ? 2 : 3 };
      s.model = m2;
      s.exact = e2;
   }
   addPc( s, eq );
   return val;
}

// ------------------------------------------------------------------ memory access
static Val readBytes( MemObj *o, uint32_t off, unsigned nbytes, unsigned w )
{
   if ( o->s.empty() )
   {
      uint64_t v = 0;
      memcpy( &v, &o->b[off], nbytes );
      return cv( v & maskw( w ) );
   }
   bool any = false;
   for ( unsigned i = 0; i < nbytes; i++ )
      if ( o->s[off + i] ) { any = true; break; }
   if ( !any )
   {
      uint64_t v = 0;
      memcpy( &v, &o->b[off], nbytes );
      return cv( v & maskw( w ) );
   }
   auto byte = [&]( unsigned i ) { return o->s[off + i] ? o->s[off + i] : mkConst( o->b[off + i], 8 ); };
   Ex r = byte( 0 );
   for ( unsigned i = 1; i < nbytes; i++ ) r = mkConcat( byte( i ), r );
   if ( w < 8 * nbytes ) r = mkExtract( r, 0, w );
   return ve( r );
}
static void writeBytes( MemObj *o, uint32_t off, unsigned nbytes, Val v, unsigned w )
{
   if ( !v.e )
   {
      memcpy( &o->b[off], &v.c, nbytes );
      if ( !o->s.empty() )
         for ( unsigned i = 0; i < nbytes; i++ ) o->s[off + i] = nullptr;
      return;
   }
   if ( o->s.empty() ) o->s.assign( o->size, nullptr );
   Ex e = v.e;
   if ( w < 8 * nbytes ) e = mkZExt( e, 8 * nbytes );
   for ( unsigned i = 0; i < nbytes; i++ )
   {
      Ex b = mkExtract( e, 8 * i, 8 );
      if ( isC( b ) )
      {
         o->s[off + i] = nullptr;
         o->b[off + i] = (uint8_t)b->c;
      }
      else
         o->s[off + i] = b;
   }
}
static std::string addrStr( State &s, uint64_t a )
{
   char b[96];
   MemObj *o = s.mem.get( a >> 32 );
   snprintf( b, sizeof b, "addr obj=%u off=%d size=%d kind=%d", (unsigned)( a >> 32 ), (int)(uint32_t)a, o ? (int)o->size : -1, o ? o->kind : -1 );
   return b;
}
static MemObj *access( State &s, uint64_t addr, uint64_t n, bool write )
{
   uint32_t id = addr >> 32, off = (uint32_t)addr;
   MemObj *o = write ? s.mem.getW( id ) : s.mem.get( id );
   if ( !o )
   {
      if ( id == 0 ) memError( s, std::string( "null pointer " ) + ( write ? "write" : "read" ) + " " + addrStr( s, addr ) );
      memError( s, std::string( "use of freed or invalid memory (" ) + ( write ? "write" : "read" ) + ") " + addrStr( s, addr ) );
   }
   if ( (uint64_t)off + n > o->size || n > o->size ) memError( s, std::string( "out of bounds " ) + ( write ? "write" : "read" ) + " of " + std::to_string( n ) + " bytes " + addrStr( s, addr ) );
   if ( write && o->kind == OConstGlobal ) memError( s, "write to constant " + addrStr( s, addr ) );
   if ( o->kind == OFunc ) memError( s, "data access to code " + addrStr( s, addr ) );
   return o;
}

// Symbolic address: restrict to one object (by the witness), check bounds, keep offset symbolic if the span is small.
struct SymAddr
{
   uint32_t id;
   Ex off; // 32-bit symbolic offset, or null
   uint32_t lo, hi;
};
static bool resolveSym( State &s, Ex a, unsigned n, bool write, SymAddr &out )
{
   // find the object: base with constant high part
   uint64_t val;
   evalReset();
   if ( !s.exact )
   {
      val = concretize( s, ve( a ), 64, "address" );
      out.id = val >> 32;
      out.off = nullptr;
      out.lo = out.hi = (uint32_t)val;
      return true;
   }
   val = evalExpr( a, s.model );
   uint32_t id = val >> 32;
   MemObj *o = s.mem.get( id );
   if ( !o )
   {
      // feasible wild access under the witness
      memError( s, "invalid pointer through symbolic address " + addrStr( s, val ) );
   }
   Ex inb = mkBin( K::And, mkBin( K::Ule, mkConst( (uint64_t)id << 32, 64 ), a ),
                   mkBin( K::Ule, a, mkConst( ( (uint64_t)id << 32 ) + ( o->size >= n ? o->size - n : 0 ), 64 ) ) );
   if ( o->size < n ) inb = mkConst( 0, 1 );
   // can it be outside?
   if ( !isC( inb ) || !inb->c )
   {
      Model m;
      bool exact;
      Res r = isC( inb ) ? Res::Sat : feasible( s, mkNot( inb ), m, exact );
      if ( isC( inb ) ) m = s.model;
      if ( r == Res::Sat )
      {
         // outside this object: could be another valid object only through pointer selection; check that
         evalReset();
         uint64_t v2 = evalExpr( a, m );
         MemObj *o2 = s.mem.get( v2 >> 32 );
         if ( o2 && ( v2 >> 32 ) != id && (uint64_t)(uint32_t)v2 + n <= o2->size )
         {
            // pointer choice: fork per object
            State *o3 = forkState( s );
            o3->model = m;
            o3->exact = exact;
            addPc( *o3, mkNot( inb ) );
            o3->fr.back().pc--;
            work.push_back( o3 );
         }
         else
         {
            Model keep = s.model;
            s.model = m;
            candidate( s, m, safetyId, "memory", std::string( "out of bounds " ) + ( write ? "write " : "read " ) + addrStr( s, v2 ) );
            s.model = keep;
         }
         assumeC( s, inb );
      }
      else if ( r == Res::Unknown )
      {
         addIncomplete( "solver gave no answer on an address bound at " + where( s ) );
         assumeC( s, inb );
      }
   }
   Ex off = mkExtract( a, 0, 32 );
   uint64_t lo, hi;
   urange( off, lo, hi );
   if ( hi > o->size - n ) hi = o->size - n;
   if ( lo > hi ) lo = hi;
   out.id = id;
   out.off = isC( off ) ? nullptr : off;
   out.lo = (uint32_t)lo;
   out.hi = (uint32_t)hi;
   return true;
}
static uint32_t maxSpan = 4096;

static Val loadMem( State &s, Val addr, unsigned nbytes, unsigned w )
{
   if ( !addr.e )
   {
      MemObj *o = access( s, addr.c, nbytes, false );
      return readBytes( o, (uint32_t)addr.c, nbytes, w );
   }
   SymAddr sa;
   resolveSym( s, addr.e, nbytes, false, sa );
   nSymRead++;
   if ( !sa.off || sa.hi - sa.lo > maxSpan )
   {
      uint64_t v = sa.off ? concretize( s, addr, 64, "address" ) : ( ( (uint64_t)sa.id << 32 ) | sa.lo );
      MemObj *o = access( s, v, nbytes, false );
      return readBytes( o, (uint32_t)v, nbytes, w );
   }
   MemObj *o = s.mem.get( sa.id );
   // ITE over the distinct offsets; alignment by nbytes when all offsets share it
   Ex r = nullptr;
   unsigned step = 1;
   // offsets of the form base + k*idx
   Ex off = sa.off;
   {
      // known trailing zero bits
      unsigned tz = 0;
      Ex lowk = nullptr;
      while ( tz < 6 )
      {
         lowk = mkExtract( off, tz, 1 );
         if ( isC( lowk ) && lowk->c == 0 ) tz++;
         else break;
      }
      step = 1u << tz;
   }
   uint32_t lo = ( sa.lo + step - 1 ) / step * step;
   // balanced selection tree over the offset value
   std::vector<std::pair<uint32_t, Ex>> items;
   for ( uint32_t q = lo; q <= sa.hi; q += step ) items.push_back( { q, ex( readBytes( o, q, nbytes, w ), w ) } );
   std::function<Ex( size_t, size_t )> build = [&]( size_t a, size_t b ) -> Ex {
      if ( b - a == 1 ) return items[a].second;
      size_t mid = ( a + b ) / 2;
      Ex l = build( a, mid ), h = build( mid, b );
      if ( l == h ) return l;
      return mkIte( mkBin( K::Ult, off, mkConst( items[mid].first, 32 ) ), l, h );
   };
   r = build( 0, items.size() );
   return ve( r );
}
static void storeMem( State &s, Val addr, unsigned nbytes, Val v, unsigned w )
{
   if ( !addr.e )
   {
      MemObj *o = access( s, addr.c, nbytes, true );
      writeBytes( o, (uint32_t)addr.c, nbytes, v, w );
      return;
   }
   SymAddr sa;
   resolveSym( s, addr.e, nbytes, true, sa );
   if ( !sa.off || sa.hi - sa.lo > 256 )
   {
      uint64_t a = sa.off ? concretize( s, addr, 64, "address" ) : ( ( (uint64_t)sa.id << 32 ) | sa.lo );
      MemObj *o = access( s, a, nbytes, true );
      writeBytes( o, (uint32_t)a, nbytes, v, w );
      return;
   }
   MemObj *o = access( s, (uint64_t)sa.id << 32, 0, true );
   for ( uint32_t q = sa.lo; q <= sa.hi; q++ )
   {
      Ex c = mkBin( K::Eq, sa.off, mkConst( q, 32 ) );
      if ( isC( c ) && !c->c ) continue;
      Ex old = ex( readBytes( o, q, nbytes, w ), w );
      writeBytes( o, q, nbytes, ve( mkIte( c, ex( v, w ), old ) ), w );
   }
}
static std::string readCStr( State &s, uint64_t a )
{
   std::string r;
   while ( r.size() < 100000 )
   {
      MemObj *o = access( s, a, 1, false );
      Val v = readBytes( o, (uint32_t)a, 1, 8 );
      uint64_t c = v.e ? concretize( s, v, 8, "string" ) : v.c;
      if ( !c ) break;
      r += (char)c;
      a++;
   }
   return r;
}

// ------------------------------------------------------------------ frames
static void pushFrame( State &s, FnInfo *f, const std::vector<Val> &args )
{
   if ( !f->decoded ) decode( *f );
   f->calls++;
   if ( s.fr.size() > 3000 )
   {
      candidate( s, s.model, abortId, "recursion", "call depth exceeds 3000" );
      throw PathEnd{ 1 };
   }
   Frame fr;
   fr.f = f;
   fr.base = s.st.size();
   fr.pc = 0;
   s.st.resize( fr.base + f->nslots, Val{ 0, nullptr } );
   for ( size_t i = 0; i < args.size() && i < f->nslots; i++ ) s.st[fr.base + i] = args[i];
   s.fr.push_back( std::move( fr ) );
}
static void popFrame( State &s )
{
   Frame &f = s.fr.back();
   for ( uint32_t id : f.allocas ) s.mem.freeObj( id, true );
   s.st.resize( f.base );
   s.fr.pop_back();
}
static inline Val get( State &s, uint32_t base, const Opnd &o, unsigned i = 0 )
{
   if ( o.slot >= 0 ) return s.st[base + o.slot + i];
   return Val{ o.cs ? ( *o.cs )[i] : o.c, nullptr };
}
static void takeEdge( State &s, const Edge &e )
{
   Frame &f = s.fr.back();
   if ( !e.phis.empty() )
   {
      static std::vector<Val> tmp;
      tmp.clear();
      for ( auto &p : e.phis )
         for ( uint32_t i = 0; i < p.src.n; i++ ) tmp.push_back( get( s, f.base, p.src, i ) );
      size_t q = 0;
      for ( auto &p : e.phis )
         for ( uint32_t i = 0; i < p.src.n; i++ ) s.st[f.base + p.dst + i] = tmp[q++];
   }
   f.pc = e.pc;
}

// ------------------------------------------------------------------ exceptions
static std::unordered_map<uint64_t, std::string> tiName; // typeinfo address -> mangled global name
static std::unordered_map<std::string, std::string> stdBase = {
   { "_ZTISt13runtime_error", "_ZTISt9exception" },
   { "_ZTISt11logic_error", "_ZTISt9exception" },
   { "_ZTISt12out_of_range", "_ZTISt11logic_error" },
   { "_ZTISt16invalid_argument", "_ZTISt11logic_error" },
   { "_ZTISt12length_error", "_ZTISt11logic_error" },
   { "_ZTISt12domain_error", "_ZTISt11logic_error" },
   { "_ZTISt9bad_alloc", "_ZTISt9exception" },
   { "_ZTISt8bad_cast", "_ZTISt9exception" },
   { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" },
   { "_ZTISt12bad_weak_ptr", "_ZTISt9exception" },
   { "_ZTISt17bad_function_call", "_ZTISt9exception" },
   { "_ZTISt11range_error", "_ZTISt13runtime_error" },
   { "_ZTISt14overflow_error", "_ZTISt13runtime_error" },
};
static bool tiMatch( State &s, uint64_t thrown, uint64_t want )
{
   if ( want == 0 ) return true;
   int guard = 0;
   std::vector<uint64_t> q{ thrown };
   while ( !q.empty() && guard++ < 64 )
   {
      uint64_t t = q.back();
      q.pop_back();
      if ( t == want ) return true;
      auto n1 = tiName.find( t ), n2 = tiName.find( want );
      if ( n1 != tiName.end() && n2 != tiName.end() && n1->second == n2->second ) return true;
      if ( n1 != tiName.end() )
      {
         auto sb = stdBase.find( n1->second );
         if ( sb != stdBase.end() )
         {
            for ( auto &kv : tiName )
               if ( kv.second == sb->second ) q.push_back( kv.first );
            continue;
         }
      }
      // read the typeinfo object: {vptr, name, [base...]}
      MemObj *o = s.mem.get( t >> 32 );
      if ( !o || o->kind == OExt ) continue;
      if ( o->size == 24 ) // single inheritance
      {
         Val b = readBytes( o, 16, 8, 64 );
         q.push_back( b.c );
      }
      else if ( o->size > 24 ) // vmi: flags,count, then {base, offset_flags}
      {
         uint32_t cnt;
         memcpy( &cnt, &o->b[20], 4 );
         for ( uint32_t i = 0; i < cnt && 24 + 16 * i + 8 <= o->size; i++ )
         {
            uint64_t b;
            memcpy( &b, &o->b[24 + 16 * i], 8 );
            q.push_back( b );
         }
      }
   }
   return false;
}
static std::unordered_map<uint64_t, int> typeIds;
static int typeIdFor( uint64_t ti )
{
   auto n = tiName.find( ti );
   (void)n;
   auto it = typeIds.find( ti );
   if ( it != typeIds.end() ) return it->second;
   int id = (int)typeIds.size() + 1;
   typeIds[ti] = id;
   return id;
}
static std::string tiStr( uint64_t ti )
{
   auto it = tiName.find( ti );
   return it == tiName.end() ? "?" : demangle( it->second );
}
// unwind from the current frame (its pc is just after the throwing call)
static void unwind( State &s, uint64_t obj, uint64_t ti )
{
   s.excObj = obj;
   s.excTi = ti;
   s.excType[obj] = ti;
   bool first = true;
   while ( !s.fr.empty() )
   {
      Frame &f = s.fr.back();
      Inst &in = f.f->code[f.pc - 1];
      (void)first;
      if ( in.k == OpK::Invoke )
      {
         // does the landing pad care?
         const auto *iv = cast<InvokeInst>( in.I );
         const auto *lp = iv->getLandingPadInst();
         int sel = -1;
         for ( unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++ )
         {
            if ( lp->isCatch( i ) )
            {
               uint64_t want = constScalar( lp->getClause( i ) );
               if ( tiMatch( s, ti, want ) ) sel = typeIdFor( want );
            }
            else
            {
               // filter: exception not in list -> terminate
               sel = -2;
            }
         }
         if ( sel == -2 )
         {
            candidate( s, s.model, abortId, "terminate", "exception " + tiStr( ti ) + " leaves a function that must not throw" );
            throw PathEnd{ 1 };
         }
         if ( sel > 0 || lp->isCleanup() )
         {
            takeEdge( s, in.edges[1] );
            Frame &g = s.fr.back();
            Inst &li = g.f->code[g.pc];
            if ( li.k != OpK::LandingPad ) fatal( "landing pad expected" );
            s.st[g.base + li.dst] = cv( obj );
            s.st[g.base + li.dst + 1] = cv( sel > 0 ? sel : 0 );
            g.pc++;
            return;
         }
      }
      else if ( s.fr.size() > 0 && in.k == OpK::Call && f.f->F->doesNotThrow() )
      {
         candidate( s, s.model, abortId, "terminate", "exception " + tiStr( ti ) + " leaves noexcept function" );
         throw PathEnd{ 1 };
      }
      popFrame( s );
      first = false;
   }
   candidate( s, s.model, abortId, "uncaught", "uncaught exception " + tiStr( ti ) + " raised at " + s.thrown );
   throw PathEnd{ 1 };
}

// ------------------------------------------------------------------ externals
static uint64_t heapAlloc( State &s, uint64_t n, ObjKind k )
{
   if ( n > ( 1ULL << 31 ) ) return 0;
   uint32_t id = s.mem.alloc( (uint32_t)n, k, 0xCD );
   return (uint64_t)id << 32;
}
static void doFree( State &s, uint64_t p, int how )
{
   if ( !p ) return;
   MemObj *o = s.mem.get( p >> 32 );
   if ( !o ) memError( s, "free of freed or invalid pointer " + addrStr( s, p ) );
   if ( (uint32_t)p != 0 || o->kind < OMalloc || o->kind > ONewArr ) memError( s, "invalid free " + addrStr( s, p ) );
   static const char *nm[] = { "", "", "", "malloc", "new", "new[]" };
   int want = how == 0 ? OMalloc : how == 1 ? ONew : ONewArr;
   if ( o->kind != want ) memError( s, std::string( "mismatched deallocation of memory from " ) + nm[o->kind] );
   s.mem.freeObj( p >> 32, false );
}
static void copyMem( State &s, uint64_t d, uint64_t src, uint64_t n )
{
   if ( !n ) return;
   MemObj *o = access( s, src, n, false );
   uint32_t so = (uint32_t)src, doff = (uint32_t)d;
   if ( o->s.empty() )
   {
      if ( ( d >> 32 ) == ( src >> 32 ) )
      {
         MemObj *w = access( s, d, n, true );
         memmove( &w->b[doff], &w->b[so], n );
         return;
      }
      MemObj *w = access( s, d, n, true );
      o = s.mem.get( src >> 32 );
      memcpy( &w->b[doff], &o->b[so], n );
      if ( !w->s.empty() ) std::fill( w->s.begin() + doff, w->s.begin() + doff + n, nullptr );
      return;
   }
   std::vector<uint8_t> tb( o->b.begin() + so, o->b.begin() + so + n );
   std::vector<Ex> ts( o->s.begin() + so, o->s.begin() + so + n );
   MemObj *w = access( s, d, n, true );
   bool any = false;
   for ( Ex e : ts )
      if ( e ) { any = true; break; }
   memcpy( &w->b[doff], tb.data(), n );
   if ( any && w->s.empty() ) w->s.assign( w->size, nullptr );
   if ( !w->s.empty() ) std::copy( ts.begin(), ts.end(), w->s.begin() + doff );
}
static void setMem( State &s, uint64_t d, Val v, uint64_t n )
{
   if ( !n ) return;
   MemObj *w = access( s, d, n, true );
   uint32_t off = (uint32_t)d;
   if ( !v.e )
   {
      memset( &w->b[off], (int)v.c, n );
      if ( !w->s.empty() ) std::fill( w->s.begin() + off, w->s.begin() + off + n, nullptr );
   }
   else
   {
      if ( w->s.empty() ) w->s.assign( w->size, nullptr );
      for ( uint64_t i = 0; i < n; i++ ) w->s[off + i] = v.e;
   }
}
static Ex byteAt( MemObj *o, uint32_t i ) { return !o->s.empty() && o->s[i] ? o->s[i] : mkConst( o->b[i], 8 ); }

static void checkAssert( State &s, Ex cond, const std::string &id, bool stop, const char *kind = "assert", const std::string &msg = "" )
{
   auto &a = asserts[id];
   if ( isC( cond ) )
   {
      if ( cond->c )
      {
         a.concrete++;
         return;
      }
      candidate( s, s.model, id, kind, msg.empty() ? "condition is false on this path" : msg );
      throw PathEnd{ 1 };
   }
   Ex nc = mkNot( cond );
   if ( witness( s, nc ) == 1 )
   {
      candidate( s, s.model, id, kind, msg.empty() ? "solver model violates condition" : msg );
      assumeC( s, cond );
      return;
   }
   Model m;
   bool exact;
   Res r = feasible( s, nc, m, exact );
   if ( r == Res::Unsat )
   {
      a.discharged++;
      return;
   }
   if ( r == Res::Unknown )
   {
      a.unknown++;
      addIncomplete( "solver gave no answer on assertion " + id );
      addPc( s, cond );
      return;
   }
   candidate( s, m, id, kind, msg.empty() ? "solver model violates condition" : msg );
   (void)stop;
   assumeC( s, cond );
}

// formatting of concrete numbers on behalf of the stream model
static void registerExterns();

#include "externs.inc"

// ------------------------------------------------------------------ main loop
static inline bool binConc( K k, uint64_t a, uint64_t b, unsigned w, uint64_t &r )
{
   uint64_t m = maskw( w );
   switch ( k )
   {
      case K::Add: r = ( a + b ) & m; return true;
      case K::Sub: r = ( a - b ) & m; return true;
      case K::Mul: r = ( a * b ) & m; return true;
      case K::And: r = a & b; return true;
      case K::Or: r = a | b; return true;
      case K::Xor: r = a ^ b; return true;
      case K::Shl: r = b >= w ? 0 : ( a << b ) & m; return true;
      case K::LShr: r = b >= w ? 0 : a >> b; return true;
      case K::AShr: r = (uint64_t)( sextw( a, w ) >> ( b >= w ? w - 1 : b ) ) & m; return true;
      case K::UDiv: if ( !b ) return false; r = a / b; return true;
      case K::URem: if ( !b ) return false; r = a % b; return true;
      case K::SDiv:
      {
         int64_t x = sextw( a, w ), y = sextw( b, w );
         if ( !y ) return false;
         r = y == -1 ? ( 0 - (uint64_t)x ) & m : (uint64_t)( x / y ) & m;
         return true;
      }
      case K::SRem:
      {
         int64_t x = sextw( a, w ), y = sextw( b, w );
         if ( !y ) return false;
         r = y == -1 ? 0 : (uint64_t)( x % y ) & m;
         return true;
      }
      default: return false;
   }
}
static Ex cmpExpr( unsigned p, Ex a, Ex b )
{
   switch ( p )
   {
      case CmpInst::ICMP_EQ: return mkBin( K::Eq, a, b );
      case CmpInst::ICMP_NE: return mkNot( mkBin( K::Eq, a, b ) );
      case CmpInst::ICMP_ULT: return mkBin( K::Ult, a, b );
      case CmpInst::ICMP_ULE: return mkBin( K::Ule, a, b );
      case CmpInst::ICMP_UGT: return mkBin( K::Ult, b, a );
      case CmpInst::ICMP_UGE: return mkBin( K::Ule, b, a );
      case CmpInst::ICMP_SLT: return mkBin( K::Slt, a, b );
      case CmpInst::ICMP_SLE: return mkBin( K::Sle, a, b );
      case CmpInst::ICMP_SGT: return mkBin( K::Slt, b, a );
      case CmpInst::ICMP_SGE: return mkBin( K::Sle, b, a );
   }
   fatal( "icmp predicate" );
}
static bool cmpConc( unsigned p, uint64_t a, uint64_t b, unsigned w )
{
   switch ( p )
   {
      case CmpInst::ICMP_EQ: return a == b;
      case CmpInst::ICMP_NE: return a != b;
      case CmpInst::ICMP_ULT: return a < b;
      case CmpInst::ICMP_ULE: return a <= b;
      case CmpInst::ICMP_UGT: return a > b;
      case CmpInst::ICMP_UGE: return a >= b;
      case CmpInst::ICMP_SLT: return sextw( a, w ) < sextw( b, w );
      case CmpInst::ICMP_SLE: return sextw( a, w ) <= sextw( b, w );
      case CmpInst::ICMP_SGT: return sextw( a, w ) > sextw( b, w );
      case CmpInst::ICMP_SGE: return sextw( a, w ) >= sextw( b, w );
   }
   return false;
}
static Ex fcmpExpr( unsigned p, Ex a, Ex b )
{
   Ex T = mkConst( 1, 1 ), F = mkConst( 0, 1 );
   Ex un = mkBin( K::Or, mkF1( K::FIsNan, a, 1 ), mkF1( K::FIsNan, b, 1 ) );
   switch ( p )
   {
      case FCmpInst::FCMP_FALSE: return F;
      case FCmpInst::FCMP_TRUE: return T;
      case FCmpInst::FCMP_OEQ: return mkF2( K::FEq, a, b );
      case FCmpInst::FCMP_OGT: return mkF2( K::FLt, b, a );
      case FCmpInst::FCMP_OGE: return mkF2( K::FLe, b, a );
      case FCmpInst::FCMP_OLT: return mkF2( K::FLt, a, b );
      case FCmpInst::FCMP_OLE: return mkF2( K::FLe, a, b );
      case FCmpInst::FCMP_ONE: return mkBin( K::And, mkNot( un ), mkNot( mkF2( K::FEq, a, b ) ) );
      case FCmpInst::FCMP_ORD: return mkNot( un );
      case FCmpInst::FCMP_UNO: return un;
      case FCmpInst::FCMP_UEQ: return mkBin( K::Or, un, mkF2( K::FEq, a, b ) );
      case FCmpInst::FCMP_UGT: return mkNot( mkF2( K::FLe, a, b ) );
      case FCmpInst::FCMP_UGE: return mkNot( mkF2( K::FLt, a, b ) );
      case FCmpInst::FCMP_ULT: return mkNot( mkF2( K::FLe, b, a ) );
      case FCmpInst::FCMP_ULE: return mkNot( mkF2( K::FLt, b, a ) );
      case FCmpInst::FCMP_UNE: return mkNot( mkF2( K::FEq, a, b ) );
   }
   fatal( "fcmp" );
}
static Val castVal( State &s, unsigned op, Val v, unsigned w, unsigned w2 )
{
   switch ( op )
   {
      case Instruction::Trunc:
         return v.e ? ve( mkExtract( v.e, 0, w2 ) ) : cv( v.c & maskw( w2 ) );
      case Instruction::ZExt: return v.e ? ve( mkZExt( v.e, w2 ) ) : v;
      case Instruction::SExt: return v.e ? ve( mkSExt( v.e, w2 ) ) : cv( (uint64_t)sextw( v.c, w ) & maskw( w2 ) );
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
         if ( w2 < w ) return v.e ? ve( mkExtract( v.e, 0, w2 ) ) : cv( v.c & maskw( w2 ) );
         if ( w2 > w ) return v.e ? ve( mkZExt( v.e, w2 ) ) : v;
         return v;
      case Instruction::BitCast: return v;
      case Instruction::FPToSI: return v.e ? ve( mkF1( K::F2SI, v.e, w2 ) ) : cv( foldF1( K::F2SI, v.c, w, w2, 0 ) );
      case Instruction::FPToUI: return v.e ? ve( mkF1( K::F2UI, v.e, w2 ) ) : cv( foldF1( K::F2UI, v.c, w, w2, 0 ) );
      case Instruction::SIToFP: return v.e ? ve( mkF1( K::SI2F, v.e, w2 ) ) : cv( foldF1( K::SI2F, v.c, w, w2, 0 ) );
      case Instruction::UIToFP: return v.e ? ve( mkF1( K::UI2F, v.e, w2 ) ) : cv( foldF1( K::UI2F, v.c, w, w2, 0 ) );
      case Instruction::FPTrunc: return v.e ? ve( mkF1( K::FPTrunc, v.e, 32 ) ) : cv( foldF1( K::FPTrunc, v.c, w, w2, 0 ) );
      case Instruction::FPExt: return v.e ? ve( mkF1( K::FPExt, v.e, 64 ) ) : cv( foldF1( K::FPExt, v.c, w, w2, 0 ) );
   }
   (void)s;
   fatal( "cast" );
}

static void doCall( State &s, Inst &in )
{
   Frame &f = s.fr.back();
   static std::vector<Val> args;
   args.clear();
   size_t na = in.ops.size() - ( in.callee ? 0 : 1 );
   for ( size_t i = 0; i < na; i++ )
      for ( uint32_t q = 0; q < in.ops[i].n; q++ ) args.push_back( get( s, f.base, in.ops[i], q ) );
   Function *cal = in.callee;
   FnInfo *fi = in.cfi;
   int ext = in.ext;
   if ( !cal )
   {
      Val t = get( s, f.base, in.ops.back() );
      uint64_t a = concretize( s, t, 64, "call target" );
      auto it = fnById.find( a >> 32 );
      if ( it == fnById.end() || (uint32_t)a != 0 )
      {
         if ( isa<InlineAsm>( cast<CallBase>( in.I )->getCalledOperand() ) ) fatal( "inline asm in " + f.f->dem );
         memError( s, "call through invalid function pointer " + addrStr( s, a ) );
      }
      cal = it->second;
      auto ei = extIndex.find( cal->getName().str() );
      if ( ei != extIndex.end() ) ext = ei->second;
      else if ( !cal->isDeclaration() ) fi = fnInfo( cal );
   }
   if ( ext >= 0 )
   {
      Val ret = cv( 0 );
      size_t depth = s.fr.size();
      FnInfo *before = s.fr.back().f;
      int32_t pcBefore = s.fr.back().pc;
      std::vector<Val> a2 = args;
      exts[ext].second( s, in, a2, ret );
      if ( s.fr.size() != depth || s.fr.back().f != before || s.fr.back().pc != pcBefore ) return; // control transferred
      Frame &g = s.fr.back();
      if ( in.dst >= 0 ) s.st[g.base + in.dst] = ret;
      if ( in.k == OpK::Invoke ) takeEdge( s, in.edges[0] );
      return;
   }
   if ( fi )
   {
      if ( !in.byval.empty() )
      {
         for ( size_t i = 0; i < in.byval.size(); i += 2 )
         {
            uint32_t ai = 0;
            for ( uint32_t q = 0; q < in.byval[i]; q++ ) ai += in.ops[q].n;
            uint32_t id = s.mem.alloc( in.byval[i + 1], OStack, 0xCD );
            s.fr.back().allocas.push_back( id );
            std::vector<Val> sv = args;
            copyMem( s, (uint64_t)id << 32, args[ai].c, in.byval[i + 1] );
            args = sv;
            args[ai] = cv( (uint64_t)id << 32 );
         }
      }
      std::vector<Val> a2 = args;
      uint32_t va = 0;
      if ( fi->F->isVarArg() )
      {
         const auto *cb = cast<CallBase>( in.I );
         const unsigned fixed = fi->F->getFunctionType()->getNumParams();
         va = s.mem.alloc( 8 * ( cb->arg_size() - fixed ) + 8, OStack, 0 );
         uint32_t ai = 0;
         for ( unsigned q = 0; q < cb->arg_size(); q++ )
         {
            Type *t = cb->getArgOperand( q )->getType();
            if ( q >= fixed )
            {
               if ( in.ops[q].n != 1 || ( !t->isIntegerTy() && !t->isDoubleTy() && !t->isPointerTy() ) ) throw Abort{ "variable argument of this type" };
               const unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
               storeMem( s, cv( ( (uint64_t)va << 32 ) + 8 * ( q - fixed ) ), w / 8, a2[ai], w );
            }
            ai += in.ops[q].n;
         }
      }
      pushFrame( s, fi, a2 );
      if ( va )
      {
         s.fr.back().va = (uint64_t)va << 32;
         s.fr.back().allocas.push_back( va );
      }
      return;
   }
   // intrinsic?
   if ( cal->isIntrinsic() )
   {
      Val ret = cv( 0 );
      std::vector<Val> a2 = args;
      intrinsic( s, in, cal, a2, ret );
      return;
   }
   fatal( "call of unmodelled function " + cal->getName().str() + " (" + demangle( cal->getName().str() ) + ") from " + f.f->dem );
}

static void step( State &s )
{
   Frame &f = s.fr.back();
   Inst &in = f.f->code[f.pc++];
   uint32_t base = f.base;
   s.steps++;
   switch ( in.k )
   {
      case OpK::Bin:
      {
         for ( uint32_t i = 0; i < in.n; i++ )
         {
            Val a = get( s, base, in.ops[0], i ), b = get( s, base, in.ops[1], i );
            Val r;
            if ( !a.e && !b.e )
            {
               uint64_t x;
               if ( !binConc( (K)in.sub, a.c, b.c, in.w, x ) )
               {
                  candidate( s, s.model, abortId, "arith", "division by zero" );
                  throw PathEnd{ 1 };
               }
               r = cv( x );
            }
            else
            {
               K k = (K)in.sub;
               if ( k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem )
               {
                  Ex bz = mkNot( mkBin( K::Eq, ex( b, in.w ), mkConst( 0, in.w ) ) );
                  if ( !isC( bz ) || !bz->c ) checkAssert( s, bz, abortId, true, "arith", "division by zero" );
               }
               r = ve( mkBin( k, ex( a, in.w ), ex( b, in.w ) ) );
            }
            s.st[base + in.dst + i] = r;
         }
         break;
      }
      case OpK::Cmp:
         for ( uint32_t i = 0; i < in.n; i++ )
         {
            Val a = get( s, base, in.ops[0], i ), b = get( s, base, in.ops[1], i );
            s.st[base + in.dst + i] = ( !a.e && !b.e ) ? cv( cmpConc( in.sub, a.c, b.c, in.w ) ) : ve( cmpExpr( in.sub, ex( a, in.w ), ex( b, in.w ) ) );
         }
         break;
      case OpK::FBin:
         for ( uint32_t i = 0; i < in.n; i++ )
         {
            Val a = get( s, base, in.ops[0], i ), b = get( s, base, in.ops[1], i );
            bool ok;
            s.st[base + in.dst + i] = ( !a.e && !b.e ) ? cv( foldF2( (K)in.sub, a.c, b.c, in.w, ok ) ) : ve( mkF2( (K)in.sub, ex( a, in.w ), ex( b, in.w ) ) );
         }
         break;
      case OpK::FCmp:
         for ( uint32_t i = 0; i < in.n; i++ )
         {
            Val a = get( s, base, in.ops[0], i ), b = get( s, base, in.ops[1], i );
            s.st[base + in.dst + i] = ve( fcmpExpr( in.sub, ex( a, in.w ), ex( b, in.w ) ) );
         }
         break;
      case OpK::FNeg:
         for ( uint32_t i = 0; i < in.n; i++ )
         {
            Val a = get( s, base, in.ops[0], i );
            uint64_t sb = 1ULL << ( in.w - 1 );
            s.st[base + in.dst + i] = a.e ? ve( mkBin( K::Xor, a.e, mkConst( sb, in.w ) ) ) : cv( a.c ^ sb );
         }
         break;
      case OpK::Cast:
         if ( in.n == 1 && in.sub == Instruction::ZExt && in.w == 1 && in.w2 > 8 )
         {
            Val c = get( s, base, in.ops[0], 0 );
            if ( c.e )
            {
               uint32_t slot = base + in.dst;
               bool t = branchSym( s, c.e, [&]( State &o, bool side ) { o.st[slot] = cv( side ); } );
               s.st[slot] = cv( t );
               break;
            }
         }
         for ( uint32_t i = 0; i < in.n; i++ ) s.st[base + in.dst + i] = castVal( s, in.sub, get( s, base, in.ops[0], i ), in.w, in.w2 );
         break;
      case OpK::BitcastMulti:
      {
         // via a byte image
         std::vector<Ex> bits;
         Ex whole = nullptr;
         unsigned tot = in.ops[0].n * in.w;
         std::vector<Val> srcs;
         for ( uint32_t i = 0; i < in.ops[0].n; i++ ) srcs.push_back( get( s, base, in.ops[0], i ) );
         unsigned ow = tot / in.n;
         for ( uint32_t i = 0; i < in.n; i++ )
         {
            // bits [i*ow, (i+1)*ow)
            Ex r = nullptr;
            unsigned p = i * ow, end = p + ow;
            while ( p < end )
            {
               unsigned si = p / in.w, so = p % in.w;
               unsigned take = std::min( in.w - so, end - p );
               Ex piece = mkExtract( ex( srcs[si], in.w ), so, take );
               r = r ? mkConcat( piece, r ) : piece;
               p += take;
            }
            s.st[base + in.dst + i] = ve( r );
         }
         (void)whole;
         break;
      }
      case OpK::Load:
      {
         Val a = get( s, base, in.ops[0] );
         if ( in.lay->size() == 1 )
         {
            auto &L = ( *in.lay )[0];
            Val r = loadMem( s, a, L.bytes, L.w );
            s.st[base + in.dst] = r;
         }
         else
            for ( size_t i = 0; i < in.lay->size(); i++ )
            {
               auto &L = ( *in.lay )[i];
               Val aa = a.e ? ve( mkBin( K::Add, a.e, mkConst( L.off, 64 ) ) ) : cv( a.c + L.off );
               Val r = loadMem( s, aa, L.bytes, L.w );
               s.st[base + in.dst + i] = r;
            }
         break;
      }
      case OpK::Store:
      {
         Val a = get( s, base, in.ops[1] );
         for ( size_t i = 0; i < in.lay->size(); i++ )
         {
            auto &L = ( *in.lay )[i];
            Val aa = L.off ? ( a.e ? ve( mkBin( K::Add, a.e, mkConst( L.off, 64 ) ) ) : cv( a.c + L.off ) ) : a;
            storeMem( s, aa, L.bytes, get( s, base, in.ops[0], i ), L.w );
         }
         break;
      }
      case OpK::Gep:
      {
         Val b = get( s, base, in.ops[0] );
         uint64_t c = in.imm;
         Ex e = b.e;
         if ( !e ) c += b.c;
         for ( size_t i = 0; i < in.gidx.size(); i++ )
         {
            Val ix = get( s, base, in.ops[in.gidx[i].first] );
            unsigned w = (unsigned)in.cases[i];
            if ( !ix.e )
               c += (uint64_t)sextw( ix.c, w ) * in.gidx[i].second;
            else
            {
               Ex t = mkBin( K::Mul, mkSExt( ix.e, 64 ), mkConst( in.gidx[i].second, 64 ) );
               e = e ? mkBin( K::Add, e, t ) : t;
            }
         }
         s.st[base + in.dst] = e ? ve( mkBin( K::Add, e, mkConst( c, 64 ) ) ) : cv( c );
         break;
      }
      case OpK::Alloca:
      {
         Val n = get( s, base, in.ops[0] );
         uint64_t cnt = concretize( s, n, 64, "alloca size" );
         uint32_t id = s.mem.alloc( (uint32_t)( cnt * in.imm ), OStack, 0xCD );
         s.fr.back().allocas.push_back( id );
         s.st[base + in.dst] = cv( (uint64_t)id << 32 );
         break;
      }
      case OpK::Br: takeEdge( s, in.edges[0] ); break;
      case OpK::CondBr:
      {
         Val c = get( s, base, in.ops[0] );
         if ( !c.e )
            takeEdge( s, in.edges[c.c ? 0 : 1] );
         else
         {
            bool side = branchSym( s, c.e, [&]( State &o, bool sd ) { takeEdge( o, in.edges[sd ? 0 : 1] ); } );
            takeEdge( s, in.edges[side ? 0 : 1] );
         }
         break;
      }
      case OpK::Switch:
      {
         Val v = get( s, base, in.ops[0] );
         if ( !v.e )
         {
            size_t t = 0;
            for ( size_t i = 0; i < in.cases.size(); i++ )
               if ( in.cases[i] == v.c ) { t = i + 1; break; }
            takeEdge( s, in.edges[t] );
         }
         else
         {
            // successive two-way branches; alternatives resume with "not this case" and re-execute
            for ( size_t i = 0; i < in.cases.size(); i++ )
            {
               Ex c = mkBin( K::Eq, v.e, mkConst( in.cases[i], in.w ) );
               if ( isC( c ) )
               {
                  if ( c->c ) { takeEdge( s, in.edges[i + 1] ); return; }
                  continue;
               }
               bool side = branchSym( s, c, [&]( State &o, bool sd ) {
                  if ( sd ) takeEdge( o, in.edges[i + 1] );
                  else o.fr.back().pc--; // re-execute, the case is now excluded by the path condition
               } );
               if ( side ) { takeEdge( s, in.edges[i + 1] ); return; }
            }
            takeEdge( s, in.edges[0] );
         }
         break;
      }
      case OpK::Ret:
      {
         Val r[16];
         uint32_t n = in.ops.empty() ? 0 : in.ops[0].n;
         std::vector<Val> big;
         if ( n > 16 )
         {
            big.resize( n );
            for ( uint32_t i = 0; i < n; i++ ) big[i] = get( s, base, in.ops[0], i );
         }
         else
            for ( uint32_t i = 0; i < n; i++ ) r[i] = get( s, base, in.ops[0], i );
         if ( n == 1 && r[0].e && r[0].e->w == 32 )
         {
            // a small count (such as a number of bits) returned by a function steers sizes: split on it
            uint64_t lo, hi;
            urange( r[0].e, lo, hi );
            if ( hi - lo <= 127 ) r[0] = cv( concretize( s, r[0], 32, "returned count" ) );
         }
         popFrame( s );
         if ( s.fr.empty() ) throw PathEnd{ 0 };
         Frame &g = s.fr.back();
         if ( g.pc == 0 ) break; // started by the driver
         Inst &ci = g.f->code[g.pc - 1];
         if ( ci.dst >= 0 )
            for ( uint32_t i = 0; i < n; i++ ) s.st[g.base + ci.dst + i] = n > 16 ? big[i] : r[i];
         if ( ci.k == OpK::Invoke ) takeEdge( s, ci.edges[0] );
         break;
      }
      case OpK::Call:
      case OpK::Invoke: doCall( s, in ); break;
      case OpK::Unreachable:
         candidate( s, s.model, abortId, "unreachable", "control reaches a point the compiler assumes unreachable" );
         throw PathEnd{ 1 };
      case OpK::Select:
      {
         for ( uint32_t i = 0; i < in.n; i++ )
         {
            Val c = get( s, base, in.ops[0], in.ops[0].n > 1 ? i : 0 );
            Val a = get( s, base, in.ops[1], i ), b = get( s, base, in.ops[2], i );
            unsigned w = ( *in.lay )[i].w;
            Val r;
            if ( !c.e ) r = c.c ? a : b;
            else if ( !a.e && !b.e && a.c == b.c ) r = a;
            else if ( in.n == 1 && w > 8 && !a.e && !b.e )
            {
               // a choice between two constants is control: follow both so that sizes stay concrete
               uint32_t slot = base + in.dst;
               bool t = branchSym( s, c.e, [&]( State &o, bool side ) { o.st[slot] = side ? a : b; } );
               r = t ? a : b;
            }
            else r = ve( mkIte( c.e, ex( a, w ), ex( b, w ) ) );
            s.st[base + in.dst + i] = r;
         }
         break;
      }
      case OpK::ExtractV:
         for ( uint32_t i = 0; i < in.n; i++ ) s.st[base + in.dst + i] = get( s, base, in.ops[0], (unsigned)in.imm + i );
         break;
      case OpK::InsertV:
      {
         for ( uint32_t i = 0; i < in.n; i++ ) s.st[base + in.dst + i] = get( s, base, in.ops[0], i );
         for ( uint32_t i = 0; i < in.ops[1].n; i++ ) s.st[base + in.dst + in.imm + i] = get( s, base, in.ops[1], i );
         break;
      }
      case OpK::ExtractE:
      {
         uint64_t ix = concretize( s, get( s, base, in.ops[1] ), 64, "vector index" );
         s.st[base + in.dst] = get( s, base, in.ops[0], (unsigned)ix );
         break;
      }
      case OpK::InsertE:
      {
         uint64_t ix = concretize( s, get( s, base, in.ops[2] ), 64, "vector index" );
         for ( uint32_t i = 0; i < in.n; i++ ) s.st[base + in.dst + i] = get( s, base, in.ops[0], i );
         s.st[base + in.dst + ix] = get( s, base, in.ops[1] );
         break;
      }
      case OpK::Shuffle:
         for ( uint32_t i = 0; i < in.n; i++ )
         {
            int m = in.mask[i];
            Val v = cv( 0 );
            if ( m >= 0 ) v = (uint32_t)m < in.ops[0].n ? get( s, base, in.ops[0], m ) : get( s, base, in.ops[1], m - in.ops[0].n );
            s.st[base + in.dst + i] = v;
         }
         break;
      case OpK::Freeze:
         for ( uint32_t i = 0; i < in.n; i++ ) s.st[base + in.dst + i] = get( s, base, in.ops[0], i );
         break;
      case OpK::LandingPad: fatal( "landing pad reached by fallthrough" );
      case OpK::Resume:
      {
         uint64_t obj = get( s, base, in.ops[0], 0 ).c;
         uint64_t ti = s.excType[obj];
         popFrame( s );
         if ( s.fr.empty() )
         {
            candidate( s, s.model, abortId, "uncaught", "uncaught exception " + tiStr( ti ) + " raised at " + s.thrown );
            throw PathEnd{ 1 };
         }
         unwind( s, obj, ti );
         break;
      }
      case OpK::Rmw:
      {
         Val a = get( s, base, in.ops[0] ), v = get( s, base, in.ops[1] );
         auto &L = ( *in.lay )[0];
         Val old = loadMem( s, a, L.bytes, L.w );
         Ex eo = ex( old, L.w ), evv = ex( v, L.w ), r;
         switch ( in.sub )
         {
            case AtomicRMWInst::Xchg: r = evv; break;
            case AtomicRMWInst::Add: r = mkBin( K::Add, eo, evv ); break;
            case AtomicRMWInst::Sub: r = mkBin( K::Sub, eo, evv ); break;
            case AtomicRMWInst::And: r = mkBin( K::And, eo, evv ); break;
            case AtomicRMWInst::Or: r = mkBin( K::Or, eo, evv ); break;
            case AtomicRMWInst::Xor: r = mkBin( K::Xor, eo, evv ); break;
            default: fatal( "rmw" );
         }
         storeMem( s, a, L.bytes, ve( r ), L.w );
         s.st[base + in.dst] = old;
         break;
      }
      case OpK::CmpXchg:
      {
         Val a = get( s, base, in.ops[0] ), c = get( s, base, in.ops[1] ), nw = get( s, base, in.ops[2] );
         auto &L = ( *in.lay )[0];
         Val old = loadMem( s, a, L.bytes, L.w );
         Ex eq = mkBin( K::Eq, ex( old, L.w ), ex( c, L.w ) );
         storeMem( s, a, L.bytes, ve( mkIte( eq, ex( nw, L.w ), ex( old, L.w ) ) ), L.w );
         s.st[base + in.dst] = old;
         s.st[base + in.dst + 1] = ve( eq );
         break;
      }
      case OpK::Nop: break;
   }
}

// run one state to the end of its path; 0 ok
static int runState( State &s )
{
   try
   {
      for ( ;; )
      {
         step( s );
         if ( ( s.steps & 0xFFFF ) == 0 )
         {
            if ( s.steps > maxSteps )
            {
               if ( hangIsViolation ) candidate( s, s.model, "termination", "steps", "no result after " + std::to_string( maxSteps ) + " instructions" );
               else addIncomplete( "instruction limit reached" );
               throw PathEnd{ 1 };
            }
            if ( nowS() - t0 > timeLimit )
            {
               addIncomplete( "time limit reached" );
               throw PathEnd{ 3 };
            }
         }
      }
   }
   catch ( PathEnd &p )
   {
      return p.kind;
   }
}

static void initGlobals( State &s )
{
   // addresses
   for ( auto &F : *M )
   {
      if ( F.isDeclaration() && F.hasExternalWeakLinkage() )
      {
         gaddr[&F] = 0;
         continue;
      }
      uint32_t id = s.mem.alloc( 0, OFunc, 0 );
      gaddr[&F] = (uint64_t)id << 32;
      fnById[id] = &F;
   }
   for ( auto &G : M->globals() )
   {
      uint64_t sz = DL->getTypeAllocSize( G.getValueType() );
      bool decl = G.isDeclaration();
      if ( decl && G.hasExternalWeakLinkage() )
      {
         gaddr[&G] = 0;
         continue;
      }
      if ( decl && sz < 256 ) sz = 256;
      uint32_t id = s.mem.alloc( (uint32_t)sz, decl ? OExt : OGlobal, 0 );
      gaddr[&G] = (uint64_t)id << 32;
      std::string nm = G.getName().str();
      s.mem.get( id )->name = strdup( nm.c_str() );
      if ( nm.rfind( "_ZTI", 0 ) == 0 ) tiName[(uint64_t)id << 32] = nm;
   }
   for ( auto &A : M->aliases() ) (void)A;
   std::function<void( const Constant *, MemObj *, uint32_t )> fill = [&]( const Constant *C, MemObj *o, uint32_t off ) {
      if ( isa<ConstantAggregateZero>( C ) || isa<UndefValue>( C ) ) return;
      Type *T = C->getType();
      if ( auto *cd = dyn_cast<ConstantDataSequential>( C ) )
      {
         StringRef r = cd->getRawDataValues();
         memcpy( &o->b[off], r.data(), r.size() );
         return;
      }
      if ( auto *S = dyn_cast<StructType>( T ) )
      {
         auto *SL = DL->getStructLayout( S );
         for ( unsigned i = 0; i < S->getNumElements(); i++ ) fill( C->getAggregateElement( i ), o, off + (uint32_t)SL->getElementOffset( i ) );
         return;
      }
      if ( T->isArrayTy() || T->isVectorTy() )
      {
         Type *ET = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>( T )->getElementType();
         unsigned n = T->isArrayTy() ? (unsigned)T->getArrayNumElements() : cast<FixedVectorType>( T )->getNumElements();
         uint64_t es = DL->getTypeAllocSize( ET );
         for ( unsigned i = 0; i < n; i++ ) fill( C->getAggregateElement( i ), o, off + (uint32_t)( i * es ) );
         return;
      }
      uint64_t v = constScalar( C );
      memcpy( &o->b[off], &v, DL->getTypeStoreSize( T ) );
   };
   for ( auto &G : M->globals() )
      if ( G.hasInitializer() )
      {
         MemObj *o = s.mem.getW( gaddr[&G] >> 32 );
         fill( G.getInitializer(), o, 0 );
         if ( G.isConstant() ) o->kind = OConstGlobal;
      }
   if ( auto *g = M->getNamedGlobal( "__libc_single_threaded" ) )
   {
      MemObj *o = s.mem.getW( gaddr[g] >> 32 );
      o->b[0] = 1;
   }
}

static void optimise( const std::string &entry )
{
   for ( auto &F : *M )
   {
      if ( F.isDeclaration() ) continue;
      F.removeFnAttr( Attribute::OptimizeNone );
      F.removeFnAttr( "target-features" );
      std::string n = F.getName().str();
      if ( n.rfind( "_ZN3e57", 0 ) == 0 || n.rfind( "_ZNK3e57", 0 ) == 0 || n.find( "3e57" ) != std::string::npos )
      {
         if ( !F.hasFnAttribute( Attribute::AlwaysInline ) && F.size() > 1 )
            F.addFnAttr( Attribute::NoInline );
      }
      if ( extIndex.count( n ) ) F.deleteBody();
   }
   PassBuilder PB;
   LoopAnalysisManager LAM;
   FunctionAnalysisManager FAM;
   CGSCCAnalysisManager CGAM;
   ModuleAnalysisManager MAM;
   // No library-call knowledge: keep calls as written
   FAM.registerPass( [&] {
      TargetLibraryInfoImpl I( Triple( M->getTargetTriple() ) );
      I.disableAllFunctions();
      return TargetLibraryAnalysis( I );
   } );
   PB.registerModuleAnalyses( MAM );
   PB.registerCGSCCAnalyses( CGAM );
   PB.registerFunctionAnalyses( FAM );
   PB.registerLoopAnalyses( LAM );
   PB.crossRegisterProxies( LAM, FAM, CGAM, MAM );
   ModulePassManager MPM;
   MPM.addPass( InternalizePass( [&]( const GlobalValue &G ) { return G.getName() == entry || G.getName() == "llvm.global_ctors"; } ) );
   MPM.addPass( GlobalDCEPass() );
   if ( auto E = PB.parsePassPipeline( MPM, "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline),globaldce,function(sroa,early-cse<memssa>,simplifycfg<switch-range-to-icmp>,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce" ) )
      fatal( "pass pipeline: " + toString( std::move( E ) ) );
   MPM.run( *M, MAM );
}

int main( int argc, char **argv )
{
   std::vector<std::string> mods;
   std::string entry = "harness";
   std::string report;
   bool dump = false, optim = true;
   uint64_t seed = 0;
   for ( int i = 1; i < argc; i++ )
   {
      std::string a = argv[i];
      auto nx = [&]() { return std::string( argv[++i] ); };
      if ( a == "--entry" ) entry = nx();
      else if ( a == "--out" ) outDir = nx();
      else if ( a == "--report" ) report = nx();
      else if ( a == "--time" ) timeLimit = atof( nx().c_str() );
      else if ( a == "--steps" ) maxSteps = strtoull( nx().c_str(), nullptr, 10 );
      else if ( a == "--paths" ) maxPaths = strtoull( nx().c_str(), nullptr, 10 );
      else if ( a == "--stop" ) stopAfter = strtoull( nx().c_str(), nullptr, 10 );
      else if ( a == "--per" ) perAssert = strtoull( nx().c_str(), nullptr, 10 );
      else if ( a == "--qms" ) gQueryTimeoutMs = atoi( nx().c_str() );
      else if ( a == "--xs" ) gExternTimeoutS = atoi( nx().c_str() );
      else if ( a == "--cross" ) gCrossEvery = atoi( nx().c_str() );
      else if ( a == "--solver-budget" ) gSolverBudgetS = atof( nx().c_str() );
      else if ( a == "--span" ) maxSpan = atoi( nx().c_str() );
      else if ( a == "--seed" ) seed = strtoull( nx().c_str(), nullptr, 10 );
      else if ( a == "--param" ) gParam = strtoull( nx().c_str(), nullptr, 10 );
      else if ( a == "--values" ) maxValues = (uint32_t)atoi( nx().c_str() );
      else if ( a == "--wit" ) maxWit = strtoull( nx().c_str(), nullptr, 10 );
      else if ( a == "--no-hang" ) hangIsViolation = false;
      else if ( a == "--dump" ) dump = true;
      else if ( a == "--O0" ) optim = false;
      else if ( a == "--mem" )
      {
         rlimit rl;
         rl.rlim_cur = rl.rlim_max = strtoull( nx().c_str(), nullptr, 10 ) << 20;
         setrlimit( RLIMIT_AS, &rl );
      }
      else mods.push_back( a );
   }
   rng.seed( seed );
   t0 = nowS();
   registerExterns();
   std::string fatalMsg;
   double tStart = 0;
   try
   {
      for ( auto &m : mods )
      {
         SMDiagnostic err;
         auto mod = parseIRFile( m, err, LC );
         if ( !mod )
         {
            fprintf( stderr, "cannot read %s: %s\n", m.c_str(), err.getMessage().str().c_str() );
            return 2;
         }
         if ( !M ) M = std::move( mod );
         else if ( Linker::linkModules( *M, std::move( mod ) ) )
         {
            fprintf( stderr, "link failure for %s\n", m.c_str() );
            return 2;
         }
      }
      if ( optim ) optimise( entry );
      DL = &M->getDataLayout();
      if ( dump )
      {
         std::error_code ec;
         raw_fd_ostream o( outDir + "/module.ll", ec );
         M->print( o, nullptr );
      }
      State *s0 = new State;
      initGlobals( *s0 );
      // constructors
      std::vector<std::pair<uint64_t, Function *>> ctors;
      if ( auto *g = M->getNamedGlobal( "llvm.global_ctors" ) )
         if ( auto *ca = dyn_cast<ConstantArray>( g->getInitializer() ) )
            for ( auto &op : ca->operands() )
            {
               auto *cs = cast<ConstantStruct>( op );
               if ( auto *fn = dyn_cast<Function>( cs->getOperand( 1 )->stripPointerCasts() ) )
                  ctors.push_back( { cast<ConstantInt>( cs->getOperand( 0 ) )->getZExtValue(), fn } );
            }
      std::stable_sort( ctors.begin(), ctors.end(), []( auto &a, auto &b ) { return a.first < b.first; } );
      for ( auto &c : ctors )
      {
         pushFrame( *s0, fnInfo( c.second ), {} );
         int r = runState( *s0 );
         if ( r != 0 )
         {
            fatal( "global constructor failed" );
         }
      }
      Function *EF = M->getFunction( entry );
      if ( !EF ) fatal( "no entry " + entry );
      tStart = nowS() - t0;
      for ( auto &kv : fns ) kv.second->calls = 0;
      pushFrame( *s0, fnInfo( EF ), {} );
      work.push_back( s0 );
      uint64_t lastReport = 0;
      while ( !work.empty() )
      {
         if ( nowS() - t0 > timeLimit )
         {
            addIncomplete( "time limit reached" );
            break;
         }
         if ( nPaths + nPathsErr >= maxPaths )
         {
            addIncomplete( "path limit reached" );
            break;
         }
         if ( cands.size() >= stopAfter )
         {
            addIncomplete( "stopped after candidate violations" );
            break;
         }
         State *s = work.back();
         work.pop_back();
         uint64_t st0 = s->steps;
         int r;
         try
         {
            r = runState( *s );
         }
         catch ( Abort &a )
         {
            fprintf( stderr, "UNSUPPORTED %s\n  at %s\n", a.why.c_str(), where( *s ).c_str() );
            addIncomplete( "unsupported: " + a.why );
            r = 3;
         }
         nSteps += s->steps - st0;
         if ( r == 0 )
         {
            nPaths++;
            witness( *s );
         }
         else if ( r == 1 ) nPathsErr++;
         else if ( r == 2 ) nInfeasible++;
         delete s;
         uint64_t q = (uint64_t)( nowS() - t0 ) / 20;
         if ( q != lastReport && getenv( "SYMEX_VERBOSE" ) )
         {
            lastReport = q;
            fprintf( stderr, "[%.0fs] paths %lu err %lu pending %zu queries %lu solver %.1fs exprs %zu\n", nowS() - t0, nPaths, nPathsErr, work.size(), gStats.queries, gStats.seconds, exprCount() );
         }
      }
   }
   catch ( Abort &a )
   {
      fatalMsg = a.why;
      fprintf( stderr, "FATAL %s\n", a.why.c_str() );
      if ( getenv( "SYMEX_VERBOSE" ) && !work.empty() ) {}
   }
   catch ( std::bad_alloc & )
   {
      fatalMsg = "out of memory";
   }
   double tEnd = nowS() - t0;
   // report
   FILE *f = report.empty() ? stdout : fopen( report.c_str(), "w" );
   if ( !f ) return 2;
   fprintf( f, "{\n \"entry\":\"%s\",\n \"fatal\":\"%s\",\n", entry.c_str(), jesc( fatalMsg ).c_str() );
   fprintf( f, " \"wall_s\":%.2f, \"prepare_s\":%.2f, \"paths\":%lu, \"paths_ended_early\":%lu, \"infeasible\":%lu, \"pending\":%zu, \"forks\":%lu, \"instructions\":%lu,\n", tEnd, tStart, nPaths,
            nPathsErr, nInfeasible, work.size(), nForks, nSteps );
   fprintf( f, " \"queries\":%lu, \"sat\":%lu, \"unsat\":%lu, \"unknown\":%lu, \"cache_hits\":%lu, \"model_hits\":%lu, \"fp_queries\":%lu, \"external\":%lu, \"cross_checked\":%lu, \"cross_disagree\":%lu, \"cross_inconclusive\":%lu, \"solver_s\":%.2f, \"solver_max_s\":%.2f, \"concretizations\":%lu, \"symbolic_reads\":%lu, \"terms\":%zu,\n",
            gStats.queries, gStats.sat, gStats.unsat, gStats.unknown, gStats.cacheHits, gStats.modelHits, gStats.fpQueries, gStats.external, gStats.cross, gStats.crossDisagree,
            gStats.crossInconclusive, gStats.seconds, gStats.maxSeconds, nConcretize, nSymRead, exprCount() );
   fprintf( f, " \"covers\":{" );
   bool first = true;
   for ( auto &c : covers )
   {
      fprintf( f, "%s\"%s\":%lu", first ? "" : ",", jesc( c.first ).c_str(), c.second );
      first = false;
   }
   fprintf( f, "},\n \"asserts\":{" );
   first = true;
   for ( auto &c : asserts )
   {
      fprintf( f, "%s\"%s\":{\"folded\":%lu,\"discharged\":%lu,\"failed\":%lu,\"unknown\":%lu}", first ? "" : ",", jesc( c.first ).c_str(), c.second.concrete, c.second.discharged, c.second.failed,
               c.second.unknown );
      first = false;
   }
   fprintf( f, "},\n \"incomplete\":[" );
   first = true;
   for ( auto &x : incomplete )
   {
      fprintf( f, "%s\"%s\"", first ? "" : ",", jesc( x ).c_str() );
      first = false;
   }
   fprintf( f, "],\n \"candidates\":[" );
   first = true;
   for ( auto &c : cands )
   {
      fprintf( f, "%s\n  {\"id\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"at\":\"%s\",\"file\":\"%s\"}", first ? "" : ",", jesc( c.id ).c_str(), jesc( c.kind ).c_str(), jesc( c.msg ).c_str(),
               jesc( c.loc ).c_str(), jesc( c.file ).c_str() );
      first = false;
   }
   fprintf( f, "],\n \"functions\":[" );
   first = true;
   std::set<std::string> fl;
   for ( auto &kv : fns )
      if ( kv.second->calls && kv.second->dem.find( "e57::" ) != std::string::npos && kv.second->dem.rfind( "std::", 0 ) != 0 && kv.second->dem.rfind( "void std::", 0 ) != 0 && kv.second->dem.rfind( "__gnu", 0 ) != 0 )
      {
         std::string d = kv.second->dem;
         if ( d.find( "std::" ) != std::string::npos && d.find( "std::" ) < d.find( "e57::" ) ) continue;
         fl.insert( d );
      }
   for ( auto &d : fl )
   {
      fprintf( f, "%s\"%s\"", first ? "" : ",", jesc( d ).c_str() );
      first = false;
   }
   fprintf( f, "]\n}\n" );
   if ( f != stdout ) fclose( f );
   fflush( stdout );
   _exit( fatalMsg.empty() ? 0 : 2 );
}
