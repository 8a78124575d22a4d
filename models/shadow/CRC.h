// Stand-in for CRCpp in the symbolic build: the page checksum is one uninterpreted function per
// parameter set (CRC-32C has its own), evaluated exactly on concrete bytes.
#pragma once
#include <cstdint>
#include <cstddef>
typedef uint8_t crcpp_uint8;
typedef uint16_t crcpp_uint16;
typedef uint32_t crcpp_uint32;
typedef uint64_t crcpp_uint64;
typedef size_t crcpp_size;
extern "C" uint32_t __sym_crc( const void *p, size_t n );
extern "C" uint32_t vf_crc_other( const void *p, size_t n, uint32_t poly, uint32_t init, uint32_t fin, int ri, int ro );
class CRC
{
public:
   template <typename T, crcpp_uint16 W> struct Table;
   template <typename T, crcpp_uint16 W> struct Parameters
   {
      T polynomial, initialValue, finalXOR;
      bool reflectInput, reflectOutput;
      Table<T, W> MakeTable() const { return Table<T, W>( *this ); }
   };
   template <typename T, crcpp_uint16 W> struct Table
   {
      Table( const Parameters<T, W> &p ) : parameters( p ) {}
      const Parameters<T, W> &GetParameters() const { return parameters; }
      Parameters<T, W> parameters;
   };
   static const Parameters<crcpp_uint32, 32> &CRC_32_C()
   {
      static const Parameters<crcpp_uint32, 32> p = { 0x1EDC6F41, 0xFFFFFFFF, 0xFFFFFFFF, true, true };
      return p;
   }
   static const Parameters<crcpp_uint32, 32> &CRC_32()
   {
      static const Parameters<crcpp_uint32, 32> p = { 0x04C11DB7, 0xFFFFFFFF, 0xFFFFFFFF, true, true };
      return p;
   }
   template <typename T, crcpp_uint16 W> static T Calculate( const void *data, crcpp_size size, const Parameters<T, W> &p )
   {
      static_assert( W == 32, "only 32 bit checksums are modelled" );
      if ( p.polynomial == 0x1EDC6F41 && p.initialValue == 0xFFFFFFFF && p.finalXOR == 0xFFFFFFFF && p.reflectInput && p.reflectOutput ) return __sym_crc( data, size );
      return vf_crc_other( data, size, p.polynomial, p.initialValue, p.finalXOR, p.reflectInput, p.reflectOutput );
   }
   template <typename T, crcpp_uint16 W> static T Calculate( const void *data, crcpp_size size, const Table<T, W> &t ) { return Calculate<T, W>( data, size, t.parameters ); }
};
