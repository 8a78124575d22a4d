// P14: disk faults, P15: interrupted writes
#include "cv.h"
struct Data
{
   uint8_t blob[1500];
   int32_t pts[3];
};
static unsigned variant; // 0: string, blob and points; 1: only a string, one page
static void writeAll( const char *name, const Data &d )
{
   ImageFile imf( name, "w" );
   imf.root().set( "s", StringNode( imf, "text" ) );
   if ( variant == 1 )
   {
      imf.close();
      return;
   }
   BlobNode b( imf, sizeof d.blob );
   imf.root().set( "b", b );
   b.write( const_cast<uint8_t *>( d.blob ), 0, sizeof d.blob );
   StructureNode proto( imf );
   proto.set( "x", IntegerNode( imf, 0, INT32_MIN, INT32_MAX ) );
   CompressedVectorNode cv( imf, proto, VectorNode( imf, true ) );
   imf.root().set( "points", cv );
   put( cv, "x", const_cast<int32_t *>( d.pts ), 3 );
   imf.close();
}
static void readAll( const char *name, Data &d, ustring &s )
{
   ImageFile imf( name, "r" );
   s = StringNode( imf.root().get( "s" ) ).value();
   if ( variant == 1 )
   {
      imf.close();
      return;
   }
   BlobNode( imf.root().get( "b" ) ).read( d.blob, 0, sizeof d.blob );
   take( CompressedVectorNode( imf.root().get( "points" ) ), "x", d.pts, 3 );
   imf.close();
}
// the file called name is the finished file
static bool same( const char *name )
{
   VfsFile *a = vfs_find( name ), *r = vfs_find( "ref" );
   if ( !a || a->data.size() != r->data.size() ) return false;
   return memcmp( a->data.data(), r->data.data(), r->data.size() ) == 0;
}
static void arm( int last )
{
   vfs.ops = 0;
   vfs.fail_kind = sym_param() & 1;
   vfs.any_len = vfs.fail_kind == 1;
   vfs.sticky = ( sym_param() & 2 ) != 0;
   vfs.fail_at = sym_range<int>( 0, last, "fault" );
   if ( vfs.any_len ) vfs.short_len = sym<uint16_t>( "transferred" ) & 1023;
}
static void disarm()
{
   vfs.fail_at = -1;
   vfs.sticky = false;
   vfs.any_len = false;
}
static void symbolic( Data &d )
{
   variant = sym_param() >> 2;
   // the first page stays concrete
   memset( &d, 5, sizeof d );
   __sym_make( d.blob + 1000, 500, "blob" );
   __sym_make( d.pts, sizeof d.pts, "points" );
}
HARNESS( p14_write )
{
   vf_opaque_numbers = 1;
   Data d;
   symbolic( d );
   vfs.ops = 0;
   writeAll( "ref", d );
   const int n = vfs.ops;
   arm( n - 1 );
   int e = errorOf( [&] { writeAll( "a.e57", d ); } );
   disarm();
   if ( e == Success )
   {
      sym_assert( same( "a.e57" ), "completed write has the intended bytes" );
      if ( vfs.fired ) sym_assert( vfs.fail_kind == 1, "error reported" );
      if ( vfs.fired ) sym_cover( "write: short transfer made good" );
      else sym_cover( "write: no fault" );
      return;
   }
   sym_assert( vfs.fired, "error without a fault" );
   sym_cover( "write: reported" );
   if ( !vfs_find( "a.e57" ) || same( "a.e57" ) ) return;
   Data o;
   ustring s;
   sym_assert( errorOf( [&] { readAll( "a.e57", o, s ); } ) != Success, "unfinished file refused" );
}
HARNESS( p14_read )
{
   vf_opaque_numbers = 1;
   Data d, o;
   symbolic( d );
   writeAll( "a.e57", d );
   ustring s;
   vfs.ops = 0;
   readAll( "a.e57", o, s );
   const int n = vfs.ops;
   memset( &o, 0, sizeof o );
   s.clear();
   arm( n - 2 ); // all but the final close
   int e = errorOf( [&] { readAll( "a.e57", o, s ); } );
   if ( e == Success )
   {
      sym_assert( s == "text", "string" );
      if ( variant == 0 )
      {
         sym_assert( memcmp( o.blob, d.blob, sizeof d.blob ) == 0, "blob" );
         sym_assert( memcmp( o.pts, d.pts, sizeof d.pts ) == 0, "points" );
      }
      if ( vfs.fired ) sym_assert( vfs.fail_kind == 1, "error reported" );
      sym_cover( vfs.fired ? "read: made good" : "read: no fault" );
   }
   else
   {
      sym_assert( vfs.fired, "error without a fault" );
      sym_cover( "read: reported" );
   }
}
// a failed transfer can be repeated on the same open file
HARNESS( p14_retry )
{
   vf_opaque_numbers = 1;
   Data d, o;
   symbolic( d );
   writeAll( "a.e57", d );
   memset( &o, 0, sizeof o );
   ImageFile imf( "a.e57", "r" );
   BlobNode b( imf.root().get( "b" ) );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   auto transfer = [&] {
      b.read( o.blob, 0, sizeof d.blob );
      take( cv, "x", o.pts, 3 );
   };
   vfs.ops = 0;
   transfer();
   const int n = vfs.ops;
   memset( &o, 0, sizeof o );
   arm( n - 1 );
   int e = errorOf( transfer );
   sym_assert( ( e != Success ) || !vfs.fired || vfs.fail_kind == 1, "error reported" );
   disarm();
   if ( e != Success )
   {
      sym_assert( errorOf( transfer ) == Success, "repeated transfer works" );
      sym_cover( "retry" );
   }
   sym_assert( memcmp( o.blob, d.blob, sizeof d.blob ) == 0, "blob after a fault" );
   sym_assert( memcmp( o.pts, d.pts, sizeof d.pts ) == 0, "points after a fault" );
}
static void interrupted( bool any )
{
   vf_opaque_numbers = 1;
   Data d;
   symbolic( d );
   vfs.ops = 0;
   writeAll( "ref", d );
   const int n = vfs.ops;
   vfs.ops = 0;
   vfs.crash_at = sym_range<int>( 0, n - 1, "crash" );
   vfs.any_len = any;
   vfs.torn = any ? sym<uint16_t>( "torn" ) & 1023 : 0;
   try
   {
      writeAll( "a.e57", d );
   }
   catch ( E57Exception & )
   {
   }
   vfs.crash_at = -1;
   vfs.crashed = false;
   vfs.any_len = false;
   if ( !vfs_find( "a.e57" ) )
   {
      sym_cover( "nothing left" );
      return;
   }
   if ( same( "a.e57" ) )
   {
      sym_cover( "complete" );
      return;
   }
   static const int POLICY[] = { ChecksumAll, ChecksumNone, ChecksumHalf };
   int e = errorOf( [&] { ImageFile imf( "a.e57", "r", POLICY[sym_param() & 3] ); } );
   if ( e == Success )
   {
      // only the stored checksum of the header page may still be the old one
      VfsFile *a = vfs_find( "a.e57" ), *r = vfs_find( "ref" );
      sym_assert( a->data.size() == r->data.size() && memcmp( a->data.data(), r->data.data(), 1020 ) == 0 &&
                     memcmp( a->data.data() + 1024, r->data.data() + 1024, r->data.size() - 1024 ) == 0,
                  "an unfinished file was accepted" );
      sym_assert( ( sym_param() & 3 ) != 0, "a torn page was accepted" );
      sym_cover( "contents complete" );
   }
   else sym_cover( "refused" );
}
HARNESS( p15_whole )
{
   interrupted( false );
}
HARNESS( p15_torn )
{
   interrupted( true );
}
// a writer that is cancelled or dropped leaves nothing behind, whatever it had done before
HARNESS( p15_cancel )
{
   vf_opaque_numbers = 1;
   Data d;
   symbolic( d );
   unsigned stop = sym_choice( 7, "stop" );
   bool drop = sym_choice( 2, "drop" );
   {
      ImageFile imf( "a.e57", "w" );
      StructureNode proto( imf );
      proto.set( "x", IntegerNode( imf, 0, INT32_MIN, INT32_MAX ) );
      CompressedVectorNode cv( imf, proto, VectorNode( imf, true ) );
      std::vector<SourceDestBuffer> sb;
      sb.push_back( SourceDestBuffer( imf, "x", d.pts, 3, true ) );
      BlobNode b( imf, sizeof d.blob );
      if ( stop > 0 ) imf.root().set( "s", StringNode( imf, "text" ) );
      if ( stop > 1 ) imf.root().set( "b", b );
      if ( stop > 2 ) b.write( d.blob, 0, sizeof d.blob );
      if ( stop > 3 )
      {
         imf.root().set( "points", cv );
         CompressedVectorWriter w = cv.writer( sb );
         if ( stop > 4 ) w.write( 3 );
         if ( stop > 5 ) w.close();
         if ( !drop ) imf.cancel();
      }
      else if ( !drop ) imf.cancel();
      if ( !drop )
      {
         sym_assert( !imf.isOpen(), "cancelled file is closed" );
         sym_assert( !vfs_find( "a.e57" ), "cancelled file removed" );
         imf.cancel();
         imf.close();
      }
   }
   sym_assert( !vfs_find( "a.e57" ), "unfinished file removed" );
   sym_assert( vfs_open_count() == 0, "descriptor closed" );
   // cancelling a reader keeps the file
   writeAll( "a.e57", d );
   {
      ImageFile imf( "a.e57", "r" );
      if ( sym_choice( 2, "cancel" ) ) imf.cancel();
   }
   sym_assert( vfs_find( "a.e57" ) != nullptr, "file being read is kept" );
   sym_cover( "cancel" );
}
