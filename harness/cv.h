// A file with one compressed vector, and block transfers to and from it.
#pragma once
#include "h.h"
struct Cv
{
   ImageFile imf;
   StructureNode proto;
   VectorNode codecs;
   Cv() : imf( "a.e57", "w" ), proto( imf ), codecs( imf, true ) {}
   CompressedVectorNode attach( const char *name = "points" )
   {
      CompressedVectorNode cv( imf, proto, codecs );
      imf.root().set( name, cv );
      return cv;
   }
};
// error code of a call, ErrorSuccess if it returned
template <class F> static int errorOf( F f )
{
   try
   {
      f();
   }
   catch ( E57Exception &e )
   {
      return (int)e.errorCode();
   }
   return (int)Success;
}
template <class T> static void put( CompressedVectorNode cv, const char *path, T *buf, size_t n, bool conv = true, bool scal = false, size_t stride = sizeof( T ) )
{
   std::vector<SourceDestBuffer> sb;
   sb.push_back( SourceDestBuffer( cv.destImageFile(), path, buf, n, conv, scal, stride ) );
   CompressedVectorWriter w = cv.writer( sb );
   w.write( n );
   w.close();
}
template <class T> static unsigned take( CompressedVectorNode cv, const char *path, T *buf, size_t n, bool conv = true, bool scal = false, size_t stride = sizeof( T ) )
{
   std::vector<SourceDestBuffer> db;
   db.push_back( SourceDestBuffer( cv.destImageFile(), path, buf, n, conv, scal, stride ) );
   CompressedVectorReader r = cv.reader( db );
   unsigned k = r.read();
   r.close();
   return k;
}
