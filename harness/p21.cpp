// P21: open transfers exclude each other, closed handles refuse work
#include "cv.h"
#include <memory>
struct Session
{
   ImageFile imf;
   CompressedVectorNode a, b;
   int32_t wbuf[2], rbuf[2], wbuf2[2], rbuf2[2];
   std::unique_ptr<CompressedVectorWriter> w;
   std::unique_ptr<CompressedVectorReader> r;
   // reference state
   bool fileOpen = true, wOpen = false, rOpen = false;
   bool written[2] = { false, false };
   int wOn = 0, rOn = 0;
   int records[2] = { 0, 0 }; // of the open writer
   int count[2] = { 0, 0 };   // finished
   static CompressedVectorNode make( ImageFile &imf, const char *name )
   {
      StructureNode p( imf );
      p.set( "x", IntegerNode( imf, 0, INT32_MIN, INT32_MAX ) );
      CompressedVectorNode cv( imf, p, VectorNode( imf, true ) );
      imf.root().set( name, cv );
      return cv;
   }
   Session() : imf( "a.e57", "w" ), a( make( imf, "a" ) ), b( make( imf, "b" ) )
   {
      for ( int i = 0; i < 2; i++ ) wbuf[i] = wbuf2[i] = 7;
   }
   std::vector<SourceDestBuffer> bufs( int32_t *p, const char *path = "x" )
   {
      std::vector<SourceDestBuffer> v;
      v.push_back( SourceDestBuffer( imf, path, p, 2, true ) );
      return v;
   }
   CompressedVectorNode &on( int k ) { return k ? b : a; }
   void openWriter( int k )
   {
      std::unique_ptr<CompressedVectorWriter> n;
      int e = errorOf( [&] {
         auto v = bufs( wbuf );
         n.reset( new CompressedVectorWriter( on( k ).writer( v ) ) );
      } );
      sym_assert( e == ( !fileOpen ? ErrorImageFileNotOpen : wOpen ? ErrorTooManyWriters : rOpen ? ErrorTooManyReaders : count[k] ? ErrorSetTwice : Success ), "open writer" );
      if ( e == Success )
      {
         w = std::move( n );
         wOpen = true;
         wOn = k;
         records[k] = 0;
      }
   }
   void badWriter()
   {
      int e = errorOf( [&] {
         auto v = bufs( wbuf, "nosuch" );
         a.writer( v );
      } );
      sym_assert( e == ( !fileOpen ? ErrorImageFileNotOpen : wOpen ? ErrorTooManyWriters : rOpen ? ErrorTooManyReaders : count[0] ? ErrorSetTwice : ErrorPathUndefined ), "bad writer" );
   }
   void openReader( int k )
   {
      std::unique_ptr<CompressedVectorReader> n;
      int e = errorOf( [&] {
         auto v = bufs( rbuf );
         n.reset( new CompressedVectorReader( on( k ).reader( v ) ) );
      } );
      if ( !fileOpen || wOpen || rOpen || written[k] )
         sym_assert( e == ( !fileOpen ? ErrorImageFileNotOpen : wOpen ? ErrorTooManyWriters : rOpen ? ErrorTooManyReaders : Success ), "open reader" );
      else sym_assert( e != Success, "open reader of nothing" );
      if ( fileOpen ) sym_assert( on( k ).childCount() == count[k], "record count" );
      if ( e == Success )
      {
         r = std::move( n );
         rOpen = true;
         rOn = k;
      }
   }
   void write( bool fresh )
   {
      if ( !w ) return;
      int e = errorOf( [&] {
         if ( fresh )
         {
            auto v = bufs( wbuf2 );
            w->write( v, 1 );
         }
         else w->write( 1 );
      } );
      sym_assert( e == ( !fileOpen ? ErrorImageFileNotOpen : !wOpen ? ErrorWriterNotOpen : Success ), "write" );
      if ( e == Success ) records[wOn]++;
   }
   void read( bool fresh )
   {
      if ( !r ) return;
      unsigned n = 0;
      int e = errorOf( [&] {
         if ( fresh )
         {
            auto v = bufs( rbuf2 );
            n = r->read( v );
         }
         else n = r->read();
      } );
      sym_assert( e == ( !fileOpen ? ErrorImageFileNotOpen : !rOpen ? ErrorReaderNotOpen : Success ), "read" );
      sym_assert( n <= 2, "records read" );
   }
   void finish()
   {
      written[wOn] = true;
      count[wOn] = records[wOn];
   }
   void closeWriter()
   {
      if ( !w ) return;
      int e = errorOf( [&] { w->close(); } );
      sym_assert( e == ( wOpen && !fileOpen ? ErrorImageFileNotOpen : Success ), "close writer" );
      if ( e == Success && wOpen ) finish();
      wOpen = false;
      sym_assert( !w->isOpen(), "writer closed" );
   }
   void closeReader()
   {
      if ( !r ) return;
      r->close();
      rOpen = false;
      sym_assert( !r->isOpen(), "reader closed" );
   }
   void dropWriter()
   {
      if ( wOpen && fileOpen && w ) finish();
      if ( w ) wOpen = false;
      w.reset();
   }
   void dropReader()
   {
      if ( r ) rOpen = false;
      r.reset();
   }
   void step( unsigned op )
   {
      switch ( op )
      {
      case 0: openWriter( 0 ); break;
      case 1: openReader( 0 ); break;
      case 2: write( false ); break;
      case 3: read( false ); break;
      case 4: closeWriter(); break;
      case 5: closeReader(); break;
      case 6: dropWriter(); break;
      case 7: dropReader(); break;
      case 8: imf.close(); fileOpen = false; break;
      case 9: badWriter(); break;
      case 10: write( true ); break;
      case 11: read( true ); break;
      case 12: openWriter( 1 ); break;
      case 13: openReader( 1 ); break;
      case 14: imf.cancel(); fileOpen = false; break;
      }
      sym_assert( imf.isOpen() == fileOpen, "file state" );
      sym_assert( imf.writerCount() == ( wOpen ? 1 : 0 ), "writer count" );
      sym_assert( imf.readerCount() == ( rOpen ? 1 : 0 ), "reader count" );
      if ( w ) sym_assert( w->isOpen() == wOpen, "writer state" );
      if ( r ) sym_assert( r->isOpen() == rOpen, "reader state" );
   }
};
HARNESS( p21_seq )
{
   vf_opaque_numbers = 1;
   static const unsigned PRE[][4] = { { 99 }, { 0, 99 }, { 0, 2, 4, 99 }, { 0, 4, 1, 99 } };
   Session s;
   for ( unsigned i = 0; PRE[sym_param() / 10][i] != 99; i++ ) s.step( PRE[sym_param() / 10][i] );
   for ( unsigned n = sym_param() % 10; n > 0; n-- ) s.step( sym_choice( 15, "op" ) );
   sym_cover( "sequence" );
}

// after the file is closed every operation on it or its elements is refused
HARNESS( p21_closed )
{
   vf_opaque_numbers = 1;
   ImageFile imf( "a.e57", "w" );
   StructureNode st( imf );
   VectorNode v( imf, true );
   IntegerNode in( imf, 3, 0, 5 );
   ScaledIntegerNode si( imf, 3, 0, 5, 1.0, 0.0 );
   FloatNode fl( imf, 1.0 );
   StringNode str( imf, "s" );
   BlobNode bl( imf, 4 );
   imf.root().set( "st", st );
   imf.root().set( "v", v );
   st.set( "in", in );
   st.set( "si", si );
   v.append( fl );
   v.append( str );
   imf.root().set( "bl", bl );
   CompressedVectorNode cv = Session::make( imf, "cv" );
   StructureNode root = imf.root();
   int32_t x[1] = { 0 };
   std::vector<SourceDestBuffer> sb;
   sb.push_back( SourceDestBuffer( imf, "x", x, 1, true ) );
   uint8_t buf[4] = { 0 };
   bool readBack = sym_choice( 2, "reopen" );
   if ( readBack )
   {
      put( cv, "x", x, 1 );
      imf.close();
      imf = ImageFile( "a.e57", "r" );
      root = imf.root();
      st = StructureNode( root.get( "st" ) );
      v = VectorNode( root.get( "v" ) );
      in = IntegerNode( st.get( "in" ) );
      si = ScaledIntegerNode( st.get( "si" ) );
      fl = FloatNode( v.get( 0 ) );
      str = StringNode( v.get( 1 ) );
      bl = BlobNode( root.get( "bl" ) );
      cv = CompressedVectorNode( root.get( "cv" ) );
      sb.clear();
      sb.push_back( SourceDestBuffer( imf, "x", x, 1, true ) );
      // writing to a file open for reading is refused
      int e = errorOf( [&] {
         switch ( sym_choice( 2, "write op" ) )
         {
         case 0: bl.write( buf, 0, 1 ); break;
         case 1: cv.writer( sb ); break;
         }
      } );
      sym_assert( e == ErrorFileReadOnly, "read only" );
   }
   if ( sym_choice( 2, "cancel" ) ) imf.cancel();
   else imf.close();
   int e = errorOf( [&] {
      switch ( sym_choice( 36, "op" ) )
      {
      case 0: imf.root(); break;
      case 1: imf.extensionsAdd( "demo", "http://demo" ); break;
      case 2: imf.extensionsCount(); break;
      case 3: imf.extensionsPrefix( 0 ); break;
      case 4: (void)IntegerNode( imf, 1 ); break;
      case 5: (void)VectorNode( imf, true ); break;
      case 6: BlobNode( imf, 4 ); break;
      case 7: root.childCount(); break;
      case 8: root.get( "st" ); break;
      case 9: root.get( 0 ); break;
      case 10: root.isDefined( "st" ); break;
      case 11: root.set( "n", in ); break;
      case 12: st.pathName(); break;
      case 13: st.elementName(); break;
      case 14: st.parent(); break;
      case 15: st.isRoot(); break;
      case 16: st.isAttached(); break;
      case 17: v.childCount(); break;
      case 18: v.get( 0 ); break;
      case 19: v.append( in ); break;
      case 20: v.allowHeteroChildren(); break;
      case 21: in.value(); break;
      case 22: in.minimum(); break;
      case 23: in.maximum(); break;
      case 24: si.rawValue(); break;
      case 25: si.scaledValue(); break;
      case 26: si.scale(); break;
      case 27: fl.value(); break;
      case 28: fl.precision(); break;
      case 29: str.value(); break;
      case 30: bl.byteCount(); break;
      case 31: bl.read( buf, 0, 1 ); break;
      case 32: bl.write( buf, 0, 1 ); break;
      case 33: cv.childCount(); break;
      case 34: cv.writer( sb ); break;
      case 35: cv.reader( sb ); break;
      }
   } );
   sym_assert( e == ErrorImageFileNotOpen, "closed" );
   sym_assert( !imf.isOpen() && imf.writerCount() == 0 && imf.readerCount() == 0, "counts" );
   sym_assert( imf.fileName() == "a.e57", "name" );
   sym_cover( "closed" );
}
