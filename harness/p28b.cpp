// P28: the simple interface keeps and finds everything of an image where the standard says
#include "p25.cpp"
#include "p28.h"
enum { I_NAME, I_DESCRIPTION, I_VENDOR, I_MODEL, I_SERIAL, I_SCAN, I_TIME, I_CLOCK, I_ROTATION, I_TRANSLATION, I_VISUAL, I_PINHOLE, I_SPHERICAL, I_CYLINDRICAL, I_LENS, IGROUPS, I_GUID };
static std::vector<Place> places( Image2D &h )
{
   VisualReferenceRepresentation &v = h.visualReferenceRepresentation;
   PinholeRepresentation &p = h.pinholeRepresentation;
   SphericalRepresentation &s = h.sphericalRepresentation;
   CylindricalRepresentation &c = h.cylindricalRepresentation;
   std::vector<Place> l = {
      { "guid", TEXT, &h.guid, I_GUID },
      { "name", TEXT, &h.name, I_NAME },
      { "description", TEXT, &h.description, I_DESCRIPTION },
      { "sensorVendor", TEXT, &h.sensorVendor, I_VENDOR },
      { "sensorModel", TEXT, &h.sensorModel, I_MODEL },
      { "sensorSerialNumber", TEXT, &h.sensorSerialNumber, I_SERIAL },
      { "associatedData3DGuid", TEXT, &h.associatedData3DGuid, I_SCAN },
      { "acquisitionDateTime/dateTimeValue", NUMBER, &h.acquisitionDateTime.dateTimeValue, I_TIME },
      { "acquisitionDateTime/isAtomicClockReferenced", WHOLE32, &h.acquisitionDateTime.isAtomicClockReferenced, I_CLOCK },
      { "pose/rotation/w", NUMBER, &h.pose.rotation.w, I_ROTATION },
      { "pose/rotation/x", NUMBER, &h.pose.rotation.x, I_ROTATION },
      { "pose/rotation/y", NUMBER, &h.pose.rotation.y, I_ROTATION },
      { "pose/rotation/z", NUMBER, &h.pose.rotation.z, I_ROTATION },
      { "pose/translation/x", NUMBER, &h.pose.translation.x, I_TRANSLATION },
      { "pose/translation/y", NUMBER, &h.pose.translation.y, I_TRANSLATION },
      { "pose/translation/z", NUMBER, &h.pose.translation.z, I_TRANSLATION },
      { "visualReferenceRepresentation/imageWidth", WHOLE32, &v.imageWidth, I_VISUAL },
      { "visualReferenceRepresentation/imageHeight", WHOLE32, &v.imageHeight, I_VISUAL },
      { "pinholeRepresentation/imageWidth", WHOLE32, &p.imageWidth, I_PINHOLE },
      { "pinholeRepresentation/imageHeight", WHOLE32, &p.imageHeight, I_PINHOLE },
      { "pinholeRepresentation/focalLength", NUMBER, &p.focalLength, I_PINHOLE },
      { "pinholeRepresentation/pixelWidth", NUMBER, &p.pixelWidth, I_PINHOLE },
      { "pinholeRepresentation/pixelHeight", NUMBER, &p.pixelHeight, I_PINHOLE },
      { "pinholeRepresentation/principalPointX", NUMBER, &p.principalPointX, I_PINHOLE },
      { "pinholeRepresentation/principalPointY", NUMBER, &p.principalPointY, I_PINHOLE },
      { "sphericalRepresentation/imageWidth", WHOLE32, &s.imageWidth, I_SPHERICAL },
      { "sphericalRepresentation/imageHeight", WHOLE32, &s.imageHeight, I_SPHERICAL },
      { "sphericalRepresentation/pixelWidth", NUMBER, &s.pixelWidth, I_SPHERICAL },
      { "sphericalRepresentation/pixelHeight", NUMBER, &s.pixelHeight, I_SPHERICAL },
      { "cylindricalRepresentation/imageWidth", WHOLE32, &c.imageWidth, I_CYLINDRICAL },
      { "cylindricalRepresentation/imageHeight", WHOLE32, &c.imageHeight, I_CYLINDRICAL },
      { "cylindricalRepresentation/pixelWidth", NUMBER, &c.pixelWidth, I_CYLINDRICAL },
      { "cylindricalRepresentation/pixelHeight", NUMBER, &c.pixelHeight, I_CYLINDRICAL },
      { "cylindricalRepresentation/radius", NUMBER, &c.radius, I_CYLINDRICAL },
      { "cylindricalRepresentation/principalPointY", NUMBER, &c.principalPointY, I_CYLINDRICAL },
   };
   if ( h.pinholeCameraDistortionExt )
   {
      Extension::PinholeCameraDistortion &e = *h.pinholeCameraDistortionExt;
      const std::vector<Place> lens = {
         { "dist:distortion/dist:CameraNumber", WHOLE, &e.cameraNumber, I_LENS }, { "dist:distortion/dist:Type", TEXT, &e.type, I_LENS },
         { "dist:distortion/dist:CV_K1", NUMBER, &e.CV_K1, I_LENS },              { "dist:distortion/dist:CV_K2", NUMBER, &e.CV_K2, I_LENS },
         { "dist:distortion/dist:CV_K3", NUMBER, &e.CV_K3, I_LENS },              { "dist:distortion/dist:CV_K4", NUMBER, &e.CV_K4, I_LENS },
         { "dist:distortion/dist:CV_K5", NUMBER, &e.CV_K5, I_LENS },              { "dist:distortion/dist:CV_K6", NUMBER, &e.CV_K6, I_LENS },
         { "dist:distortion/dist:CV_P1", NUMBER, &e.CV_P1, I_LENS },              { "dist:distortion/dist:CV_P2", NUMBER, &e.CV_P2, I_LENS },
         { "dist:distortion/dist:CV_CX", NUMBER, &e.CV_CX, I_LENS },              { "dist:distortion/dist:CV_CY", NUMBER, &e.CV_CY, I_LENS },
         { "dist:distortion/dist:CV_FX", NUMBER, &e.CV_FX, I_LENS },              { "dist:distortion/dist:CV_FY", NUMBER, &e.CV_FY, I_LENS },
         { "dist:distortion/dist:CV_HEIGHT", WHOLE32, &e.CV_HEIGHT, I_LENS },     { "dist:distortion/dist:CV_WIDTH", WHOLE32, &e.CV_WIDTH, I_LENS },
      };
      for ( const Place &k : lens ) l.push_back( k );
   }
   return l;
}
static const char *const REP[] = { "visualReferenceRepresentation", "pinholeRepresentation", "sphericalRepresentation", "cylindricalRepresentation" };
static const Image2DProjection PROJECTION[] = { ProjectionVisual, ProjectionPinhole, ProjectionSpherical, ProjectionCylindrical };
static const char *const LENS_URI = "http://www.libe57.org/E57_LEICA_Camera_Distortion.txt";
static bool belongs( const Place &p, int rep, bool lens )
{
   if ( p.group >= I_VISUAL && p.group <= I_CYLINDRICAL ) return p.group == I_VISUAL + rep;
   return p.group != I_LENS || lens;
}
static void fillImage( Image2D &h, int hot, int rep, bool lens, bool others, int turn )
{
   if ( lens ) h.pinholeCameraDistortionExt.reset( new Extension::PinholeCameraDistortion );
   const std::vector<Place> p = places( h );
   for ( size_t k = 0; k < p.size(); k++ )
   {
      if ( !belongs( p[k], rep, lens ) ) continue;
      if ( p[k].group == hot )
      {
         anyAt( p[k] );
         if ( p[k].kind == WHOLE ) *(int64_t *)p[k].at = sym_range<uint32_t>( 0, 0xFFFFFFFF, "camera" );
         if ( p[k].kind == NUMBER && lens && (int)( k % 3 ) != turn ) sym_assume( bitsOf( *(double *)p[k].at ) << 1 ); // zeros in turn
         if ( p[k].kind == WHOLE32 && lens ) sym_assume( *(int32_t *)p[k].at > 0 );
      }
      else if ( others || p[k].group == I_GUID || p[k].group >= I_VISUAL ) someAt( p[k], (int)k );
   }
}
static int repOf( int hot )
{
   return hot >= I_VISUAL && hot <= I_CYLINDRICAL ? hot - I_VISUAL : hot == I_LENS ? 1 : hot % 4;
}
enum { NB = 3 };
// written by the simple interface, read by the other one; param = group, for the distortion also which coefficients may be zero
HARNESS( p28_image_store )
{
   vf_opaque_numbers = 4;
   const int turn = (int)sym_param() - I_LENS; // for the distortion
   const int hot = turn >= 0 ? (int)I_LENS : (int)sym_param();
   const int rep = repOf( hot );
   const bool others = sym_choice( 2, "others" );
   const bool png = sym_choice( 2, "png" );
   const bool mask = sym_choice( 2, "mask" );
   Image2D h;
   fillImage( h, hot, rep, hot == I_LENS, others, turn );
   represent( h, 1U << rep, png, NB, mask ? NB - 1 : 0 );
   uint8_t data[NB], hole[NB - 1];
   for ( uint8_t &k : data ) k = sym<uint8_t>( "data" );
   for ( uint8_t &k : hole ) k = sym<uint8_t>( "mask" );
   QUIETLY( "image accepted", {
      Writer w( "a.e57", WriterOptions{ "file", "" } );
      const int64_t at = w.NewImage2D( h );
      sym_assert( at == 0, "first image" );
      sym_assert( w.WriteImage2DData( at, png ? ImagePNG : ImageJPEG, PROJECTION[rep], data, 0, NB ) == NB, "data accepted" );
      if ( mask ) sym_assert( w.WriteImage2DData( at, ImageMaskPNG, PROJECTION[rep], hole, 0, NB - 1 ) == NB - 1, "mask accepted" );
      w.Close();
   } );
   QUIETLY( "file read", {
      ImageFile f( "a.e57", "r" );
      StructureNode image( f.root().get( "images2D/0" ) );
      Image2D none;
      if ( hot == I_LENS ) none.pinholeCameraDistortionExt.reset( new Extension::PinholeCameraDistortion );
      const std::vector<Place> p = places( h );
      const std::vector<Place> d = places( none );
      bool same = true;
      for ( size_t k = 0; k < p.size(); k++ ) same &= storedAs( image, p[k], d[k] );
      sym_assert( same, "every value at its place" );
      bool alone = true;
      for ( int k = 0; k < 4; k++ ) alone &= image.isDefined( REP[k] ) == ( k == rep );
      sym_assert( alone, "the representation" );
      if ( alone )
      {
         StructureNode r( image.get( REP[rep] ) );
         sym_assert( r.isDefined( "jpegImage" ) == !png && r.isDefined( "pngImage" ) == png && r.isDefined( "imageMask" ) == mask, "kinds of data" );
         uint8_t got[NB] = { 0 };
         BlobNode b( r.get( png ? "pngImage" : "jpegImage" ) );
         sym_assert( b.byteCount() == NB, "amount of data" );
         b.read( got, 0, NB );
         sym_assert( ( got[0] == data[0] ) & ( got[1] == data[1] ) & ( got[2] == data[2] ), "data" );
         if ( mask )
         {
            BlobNode m( r.get( "imageMask" ) );
            sym_assert( m.byteCount() == NB - 1, "amount of mask" );
            m.read( got, 0, NB - 1 );
            sym_assert( ( got[0] == hole[0] ) & ( got[1] == hole[1] ), "mask" );
         }
      }
      if ( hot == I_LENS )
      {
         std::string uri;
         sym_assert( f.extensionsLookupPrefix( "dist", uri ) && uri == LENS_URI, "extension of the distortion" );
      }
      f.close();
   } );
   sym_observe( "kind", png );
   sym_cover( mask ? "with a mask" : "without" );
}
// written by the low-level interface, read by the simple one; param = group, for the distortion also which coefficients may be zero
HARNESS( p28_image_fetch )
{
   vf_opaque_numbers = 4;
   const int turn = (int)sym_param() - I_LENS; // for the distortion
   const int hot = turn >= 0 ? (int)I_LENS : (int)sym_param();
   const int rep = repOf( hot );
   const bool others = sym_choice( 2, "others" );
   const bool png = sym_choice( 2, "png" );
   const bool mask = sym_choice( 2, "mask" );
   const bool lens = hot == I_LENS;
   Image2D h;
   fillImage( h, hot, rep, lens, others, -1 );
   represent( h, 1U << rep, png, NB, mask ? NB - 1 : 0 );
   if ( hot == I_CLOCK && !others ) h.acquisitionDateTime.dateTimeValue = 5;
   uint8_t data[NB], hole[NB - 1];
   for ( uint8_t &k : data ) k = sym<uint8_t>( "data" );
   for ( uint8_t &k : hole ) k = sym<uint8_t>( "mask" );
   QUIETLY( "file written", {
      ImageFile f( "a.e57", "w" );
      f.extensionsAdd( "", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
      if ( lens ) f.extensionsAdd( "dist", LENS_URI );
      f.root().set( "formatName", StringNode( f, "ASTM E57 3D Imaging Data File" ) );
      f.root().set( "guid", StringNode( f, "file" ) );
      f.root().set( "versionMajor", IntegerNode( f, 1 ) );
      f.root().set( "versionMinor", IntegerNode( f, 0 ) );
      VectorNode images( f, true );
      f.root().set( "images2D", images );
      StructureNode image( f );
      images.append( image );
      const std::vector<Place> p = places( h );
      for ( size_t k = 0; k < p.size(); k++ )
      {
         if ( !belongs( p[k], rep, lens ) ) continue;
         if ( p[k].kind == NUMBER && p[k].group == I_LENS && (int)( k % 3 ) == turn ) // need not be there
         {
            *(double *)p[k].at = 0;
            continue;
         }
         const bool clock = hot == I_CLOCK && p[k].group == I_TIME;
         if ( others || clock || p[k].group == hot || p[k].group == I_GUID || p[k].group >= I_VISUAL ) place( image, p[k], 0 );
      }
      StructureNode r( image.get( REP[rep] ) );
      BlobNode b( f, NB );
      r.set( png ? "pngImage" : "jpegImage", b );
      b.write( data, 0, NB );
      if ( mask )
      {
         BlobNode m( f, NB - 1 );
         r.set( "imageMask", m );
         m.write( hole, 0, NB - 1 );
      }
      f.close();
   } );
   QUIETLY( "header read", {
      Reader r( "a.e57", {} );
      Image2D b;
      b.name = "stale";
      sym_assert( r.GetImage2DCount() == 1 && r.ReadImage2D( 0, b ), "image found" );
      sameHeader( h, b );
      Image2DProjection projection;
      Image2DType type, maskType, visualType;
      int64_t width, height, bytes;
      sym_assert( r.GetImage2DSizes( 0, projection, type, width, height, bytes, maskType, visualType ), "sizes found" );
      sym_assert( projection == PROJECTION[rep] && type == ( png ? ImagePNG : ImageJPEG ) && bytes == NB && maskType == ( mask ? ImageMaskPNG : ImageNone ), "sizes" );
      uint8_t got[NB] = { 0 };
      sym_assert( r.ReadImage2DData( 0, PROJECTION[rep], png ? ImagePNG : ImageJPEG, got, 0, NB ) == NB, "data found" );
      sym_assert( ( got[0] == data[0] ) & ( got[1] == data[1] ) & ( got[2] == data[2] ), "data" );
      if ( mask )
      {
         sym_assert( r.ReadImage2DData( 0, PROJECTION[rep], ImageMaskPNG, got, 0, NB - 1 ) == NB - 1, "mask found" );
         sym_assert( ( got[0] == hole[0] ) & ( got[1] == hole[1] ), "mask" );
      }
      sym_observe( "width", width );
      r.Close();
   } );
   sym_cover( mask ? "with a mask" : "without" );
}
