// Common to all harnesses: only the public interface of the library is used unless stated.
#pragma once
#include "E57Format.h"
#include "sym.h"
#include "vfs.h"
#include <vector>
#include <string>
#include <cstring>
#include <limits>
#include <cmath>
extern "C" int vf_opaque_numbers;
extern "C" int vf_alloc_refused;
extern "C" void vf_set_locale( int k ); // 1: a global locale with grouped thousands and a decimal comma
extern "C" uint64_t vf_exact_m;
extern "C" int vf_exact_shift;
using namespace e57;

// stores the checksum of a 1024-byte page
static inline void sealPage( uint8_t *d )
{
   uint32_t c = __sym_crc( d, 1020 );
   for ( int i = 0; i < 4; i++ ) d[1020 + i] = (uint8_t)( c >> ( 24 - 8 * i ) );
}
// a whole file with the given binary sections (from logical offset 48 on) and XML section
static inline VfsFile *makeFile( const char *name, const std::vector<uint8_t> &bin, const std::string &xml )
{
   std::vector<uint8_t> l( 48 );
   l.insert( l.end(), bin.begin(), bin.end() );
   const uint64_t at = l.size();
   l.insert( l.end(), xml.begin(), xml.end() );
   const size_t pages = ( l.size() + 1019 ) / 1020;
   l.resize( pages * 1020 );
   const uint64_t h[] = { pages * 1024, at / 1020 * 1024 + at % 1020, xml.size(), 1024 };
   memcpy( l.data(), "ASTM-E57\1\0\0\0\0\0\0\0", 16 );
   memcpy( l.data() + 16, h, 32 );
   VfsFile *f = vfs_create( name );
   f->data.resize( pages * 1024 );
   for ( size_t p = 0; p < pages; p++ )
   {
      memcpy( f->data.data() + p * 1024, l.data() + p * 1020, 1020 );
      sealPage( f->data.data() + p * 1024 );
   }
   return f;
}
