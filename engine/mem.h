#pragma once
#include "expr.h"
#include <cstdlib>
#include <cstring>
#include <vector>

enum ObjKind : uint8_t { OGlobal, OConstGlobal, OStack, OMalloc, ONew, ONewArr, OFunc, OExt };

struct MemObj
{
   uint32_t ref = 1;
   uint32_t size = 0;
   ObjKind kind = OGlobal;
   uint32_t nsym = 0; // upper bound: zero means no symbolic bytes
   std::vector<uint8_t> b;
   std::vector<E> s; // empty or size entries
   const char *name = nullptr;
};
struct Chunk
{
   uint32_t ref = 1;
   MemObj *o[256];
   Chunk() { memset( o, 0, sizeof o ); }
};
inline void unref( MemObj *o )
{
   if ( o && --o->ref == 0 ) delete o;
}
struct Memory
{
   std::vector<Chunk *> ch;
   std::vector<uint32_t> stackFree; // recycled ids of stack slots
   uint32_t nextId = 1;
   Memory() = default;
   Memory( const Memory &m ) : ch( m.ch ), stackFree( m.stackFree ), nextId( m.nextId )
   {
      for ( Chunk *c : ch ) c->ref++;
   }
   Memory &operator=( const Memory & ) = delete;
   ~Memory()
   {
      for ( Chunk *c : ch )
         if ( --c->ref == 0 )
         {
            for ( auto *o : c->o ) unref( o );
            delete c;
         }
   }
   MemObj *get( uint32_t id ) const
   {
      size_t i = id >> 8;
      return i < ch.size() ? ch[i]->o[id & 255] : nullptr;
   }
   Chunk *own( size_t i )
   {
      while ( ch.size() <= i ) ch.push_back( new Chunk );
      Chunk *c = ch[i];
      if ( c->ref > 1 )
      {
         Chunk *n = new Chunk;
         for ( int k = 0; k < 256; k++ )
         {
            n->o[k] = c->o[k];
            if ( n->o[k] ) n->o[k]->ref++;
         }
         c->ref--;
         ch[i] = c = n;
      }
      return c;
   }
   MemObj *getW( uint32_t id )
   {
      size_t i = id >> 8;
      if ( i >= ch.size() || !ch[i]->o[id & 255] ) return nullptr;
      Chunk *c = own( i );
      MemObj *&o = c->o[id & 255];
      if ( o->ref > 1 )
      {
         MemObj *n = new MemObj( *o );
         n->ref = 1;
         o->ref--;
         o = n;
      }
      return o;
   }
   void set( uint32_t id, MemObj *o )
   {
      Chunk *c = own( id >> 8 );
      MemObj *&p = c->o[id & 255];
      unref( p );
      p = o;
   }
   uint32_t alloc( uint32_t size, ObjKind k, int fill )
   {
      uint32_t id;
      if ( k == OStack && !stackFree.empty() )
      {
         id = stackFree.back();
         stackFree.pop_back();
      }
      else
         id = nextId++;
      MemObj *o = new MemObj;
      o->size = size;
      o->kind = k;
      o->b.assign( size, (uint8_t)fill );
      set( id, o );
      return id;
   }
   void freeObj( uint32_t id, bool recycle )
   {
      set( id, nullptr );
      if ( recycle ) stackFree.push_back( id );
   }
};
