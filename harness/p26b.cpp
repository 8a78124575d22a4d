// P26: the same bytes read from a memory buffer and from disk (headers as in P11)
#include "p11.cpp"
static void compareOutcomes()
{
   const int a = openIt( false ), b = openIt( true );
   sym_assert( ( a == Success ) == ( b == Success ), "outcome" );
   sym_cover( a == Success ? "both open" : "neither opens" );
}
HARNESS( p26_fields )
{
   vf_opaque_numbers = 1;
   VfsFile *f = sound();
   Header good, h;
   memcpy( &good, f->data.data(), sizeof good );
   __sym_make( &h, sizeof h, "header" );
   h.xmlOffset = good.xmlOffset;
   h.xmlLength = good.xmlLength;
   store( f, h );
   compareOutcomes();
}
HARNESS( p26_xml )
{
   vf_opaque_numbers = 1;
   VfsFile *f = sound();
   Header h;
   memcpy( &h, f->data.data(), sizeof h );
   const uint64_t o = h.xmlOffset, n = h.xmlLength, size = f->data.size();
   const uint64_t logical = size / PAGE * PAYLOAD;
   const uint64_t OFF[] = { o, 0, 1, 47, 48, 1019, 1020, 1023, 1024, o - 1, o + 1, o + 4, size - 5, size - 4, size - 1 };
   const uint64_t LEN[] = { n, 0, 1, 4, n - 1, n + 1, n + 4, n + 100, logical };
   uint64_t off = sym<uint64_t>( "offset" ), len = sym<uint64_t>( "length" );
   if ( sym_param() & 2 )
   {
      uint64_t in = sym_param() & 8 ? 1020 + ( sym<uint8_t>( "in checksum" ) & 3 ) : sym<uint16_t>( "in page" ) % 1020;
      off = ( off >> 10 << 10 ) | in;
      sym_assume( off >= size );
   }
   else off = OFF[sym_choice( 15, "which offset" )];
   if ( sym_param() & 4 ) sym_assume( len > logical );
   else len = LEN[sym_choice( 9, "which length" )];
   h.xmlOffset = off;
   h.xmlLength = len;
   store( f, h );
   compareOutcomes();
}
HARNESS( p26_length )
{
   vf_opaque_numbers = 1;
   VfsFile *f = sound();
   const size_t size = f->data.size();
   const size_t L[] = { 0, 1, 7, 8, 47, 48, 1019, 1020, 1023, 1024, 1025, 1500, size - 1024, size - 1, size, size + 1, size + 1023, size + 1024 };
   f->data.resize( L[sym_choice( 18, "length" )] );
   compareOutcomes();
}
