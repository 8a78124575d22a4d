// P25: images through the simple interface
#include "p24.h"
template <class R> static bool sameSizes( const R &a, const R &b )
{
   return ( a.jpegImageSize == b.jpegImageSize ) & ( a.pngImageSize == b.pngImageSize ) & ( a.imageMaskSize == b.imageMaskSize ) & ( a.imageWidth == b.imageWidth ) & ( a.imageHeight == b.imageHeight );
}
static void sameHeader( const Image2D &a, const Image2D &b )
{
   sym_assert( eq( a.name, b.name ) & eq( a.guid, b.guid ) & eq( a.description, b.description ) & eq( a.associatedData3DGuid, b.associatedData3DGuid ) & eq( a.sensorVendor, b.sensorVendor ) & eq( a.sensorModel, b.sensorModel ) &
                  eq( a.sensorSerialNumber, b.sensorSerialNumber ),
               "text of an image header comes back" );
   sym_assert( eq( a.acquisitionDateTime, b.acquisitionDateTime ), "acquisition time comes back" );
   sym_assert( eq( a.pose, b.pose ), "pose comes back" );
   sym_assert( sameSizes( a.visualReferenceRepresentation, b.visualReferenceRepresentation ), "visual reference comes back" );
   const PinholeRepresentation &p = a.pinholeRepresentation, &q = b.pinholeRepresentation;
   sym_assert( sameSizes( p, q ) & eq( p.focalLength, q.focalLength ) & eq( p.pixelWidth, q.pixelWidth ) & eq( p.pixelHeight, q.pixelHeight ) & eq( p.principalPointX, q.principalPointX ) & eq( p.principalPointY, q.principalPointY ),
               "pinhole parameters come back" );
   const SphericalRepresentation &s = a.sphericalRepresentation, &t = b.sphericalRepresentation;
   sym_assert( sameSizes( s, t ) & eq( s.pixelWidth, t.pixelWidth ) & eq( s.pixelHeight, t.pixelHeight ), "spherical parameters come back" );
   const CylindricalRepresentation &c = a.cylindricalRepresentation, &d = b.cylindricalRepresentation;
   sym_assert( sameSizes( c, d ) & eq( c.pixelWidth, d.pixelWidth ) & eq( c.pixelHeight, d.pixelHeight ) & eq( c.radius, d.radius ) & eq( c.principalPointY, d.principalPointY ), "cylindrical parameters come back" );
   const bool da = (bool)a.pinholeCameraDistortionExt, db = (bool)b.pinholeCameraDistortionExt;
   sym_assert( da == db, "distortion present as written" );
   if ( da && db )
   {
      const Extension::PinholeCameraDistortion &e = *a.pinholeCameraDistortionExt, &f = *b.pinholeCameraDistortionExt;
      sym_assert( ( e.cameraNumber == f.cameraNumber ) & eq( e.type, f.type ) & eq( e.CV_K1, f.CV_K1 ) & eq( e.CV_K2, f.CV_K2 ) & eq( e.CV_K3, f.CV_K3 ) & eq( e.CV_K4, f.CV_K4 ) & eq( e.CV_K5, f.CV_K5 ) & eq( e.CV_K6, f.CV_K6 ) &
                     eq( e.CV_P1, f.CV_P1 ) & eq( e.CV_P2, f.CV_P2 ) & eq( e.CV_CX, f.CV_CX ) & eq( e.CV_CY, f.CV_CY ) & eq( e.CV_FX, f.CV_FX ) & eq( e.CV_FY, f.CV_FY ) & ( e.CV_HEIGHT == f.CV_HEIGHT ) &
                     ( e.CV_WIDTH == f.CV_WIDTH ),
                  "distortion comes back" );
   }
}
template <class R> static void sizes( R &r, bool png, int64_t size, int64_t mask )
{
   ( png ? r.pngImageSize : r.jpegImageSize ) = size;
   r.imageMaskSize = mask;
}
enum { VISUAL = 1, PINHOLE = 2, SPHERICAL = 4, CYLINDRICAL = 8 };
static void represent( Image2D &h, unsigned which, bool png, int64_t size, int64_t mask )
{
   if ( which & VISUAL ) sizes( h.visualReferenceRepresentation, png, size, mask );
   if ( which & PINHOLE ) sizes( h.pinholeRepresentation, png, size, mask );
   if ( which & SPHERICAL ) sizes( h.sphericalRepresentation, png, size, mask );
   if ( which & CYLINDRICAL ) sizes( h.cylindricalRepresentation, png, size, mask );
}
static const unsigned SETS[] = { VISUAL, PINHOLE, SPHERICAL, CYLINDRICAL, VISUAL | PINHOLE, VISUAL | SPHERICAL, VISUAL | CYLINDRICAL, 0 };
template <class R> static void pixels( R &r )
{
   r.imageWidth = (int32_t)sym_range<uint32_t>( 1, 0x7FFFFFFF, "width" );
   r.imageHeight = (int32_t)sym_range<uint32_t>( 1, 0x7FFFFFFF, "height" );
}
// param: 0..6 numbers of a representation or of two, 8 none, 10..17 texts (all, one alone), 20 time, 21 pose, 22..24 distortion
HARNESS( p25_header )
{
   vf_opaque_numbers = 4;
   const int g = (int)sym_param();
   Image2D h;
   h.guid = anyText( "guid" );
   const unsigned which = g < 8 ? SETS[g] : (unsigned)PINHOLE;
   const bool png = g == 1 || g == 3 || g == 5;
   represent( h, which, png, 3, g == 2 || g == 3 ? 2 : 0 );
   if ( g < 8 )
   {
      if ( which & VISUAL ) pixels( h.visualReferenceRepresentation );
      if ( which & PINHOLE )
      {
         PinholeRepresentation &p = h.pinholeRepresentation;
         pixels( p );
         p.focalLength = anyDouble( "focal length" );
         p.pixelWidth = anyDouble( "pixel width" );
         p.pixelHeight = anyDouble( "pixel height" );
         p.principalPointX = anyDouble( "px" );
         p.principalPointY = anyDouble( "py" );
      }
      if ( which & SPHERICAL )
      {
         SphericalRepresentation &s = h.sphericalRepresentation;
         pixels( s );
         s.pixelWidth = anyDouble( "pixel width" );
         s.pixelHeight = anyDouble( "pixel height" );
      }
      if ( which & CYLINDRICAL )
      {
         CylindricalRepresentation &c = h.cylindricalRepresentation;
         pixels( c );
         c.pixelWidth = anyDouble( "pixel width" );
         c.pixelHeight = anyDouble( "pixel height" );
         c.radius = anyDouble( "radius" );
         c.principalPointY = anyDouble( "py" );
      }
   }
   else if ( g < 20 )
   {
      std::string *f[] = { &h.name, &h.description, &h.associatedData3DGuid, &h.sensorVendor, &h.sensorModel, &h.sensorSerialNumber };
      for ( int k = 0; k < 6; k++ )
         if ( g == 10 || g == 11 + k ) *f[k] = anyText( "text" );
   }
   else if ( g == 20 )
   {
      h.acquisitionDateTime.dateTimeValue = anyDouble( "time" );
      h.acquisitionDateTime.isAtomicClockReferenced = (int)sym_range<uint8_t>( 0, 1, "atomic" );
   }
   else if ( g == 21 )
      anyPose( h.pose );
   else
   {
      h.pinholeCameraDistortionExt.reset( new Extension::PinholeCameraDistortion );
      Extension::PinholeCameraDistortion &e = *h.pinholeCameraDistortionExt;
      e.cameraNumber = g == 23 ? 0 : (int64_t)sym_range<uint32_t>( 1, 0xFFFFFFFF, "camera" );
      e.type = anyText( "type" );
      double *d[] = { &e.CV_K1, &e.CV_K2, &e.CV_K3, &e.CV_K4, &e.CV_K5, &e.CV_K6, &e.CV_P1, &e.CV_P2, &e.CV_CX, &e.CV_CY, &e.CV_FX, &e.CV_FY };
      int n = 0;
      for ( double *k : d )
      {
         *k = anyDouble( "coefficient" );
         if ( n++ % 3 != g - 22 ) sym_assume( bitsOf( *k ) << 1 ); // zeros in turn
      }
      e.CV_HEIGHT = sym_range<int32_t>( 1, 0x7FFFFFFF, "height" );
      e.CV_WIDTH = sym_range<int32_t>( 1, 0x7FFFFFFF, "width" );
   }
   QUIETLY( "header accepted", {
      Writer w( "a.e57", WriterOptions{ "file", "" } );
      // the second image, to see that one does not get what belongs to the other
      Image2D other;
      other.guid = "other";
      w.NewImage2D( other );
      sym_assert( w.NewImage2D( h ) == 1, "images counted" );
      w.Close();
   } );
   QUIETLY( "header read back", {
      Reader r( "a.e57", {} );
      sym_assert( r.GetImage2DCount() == 2 && r.GetData3DCount() == 0, "two images" );
      Image2D b;
      b.name = "stale";
      b.pinholeCameraDistortionExt.reset( new Extension::PinholeCameraDistortion );
      sym_assert( r.ReadImage2D( 1, b ), "image found" );
      sameHeader( h, b );
      sym_assert( r.ReadImage2D( 0, b ), "image found" );
      Image2D other;
      other.guid = "other";
      sameHeader( other, b );
      sym_observe( "name", b.name.size() );
      r.Close();
   } );
   sym_cover( "header" );
}
// image and mask bytes, sizes and requests for what does not exist; param: SETS + 10 * (long images)
HARNESS( p25_data )
{
   vf_opaque_numbers = 2;
   const unsigned which = SETS[sym_param() % 10 % 8];
   const bool big = sym_param() / 10;
   const bool png = sym_choice( 2, "png" );
   const bool masked = sym_choice( 2, "mask" );
   const size_t size = big ? 2100 : 5, mask = masked ? ( big ? 1030 : 3 ) : 0;
   std::vector<uint8_t> image[4], shade[4];
   for ( int k = 0; k < 4; k++ )
      if ( which >> k & 1 )
      {
         image[k].resize( size );
         shade[k].resize( mask );
         __sym_make( image[k].data(), 5, "image" );
         if ( big ) __sym_make( image[k].data() + size - 5, 5, "image" );
         if ( mask ) __sym_make( shade[k].data() + mask - 3, 3, "mask" );
      }
   Image2D h;
   h.guid = "g";
   represent( h, which, png, (int64_t)size, (int64_t)mask );
   h.visualReferenceRepresentation.imageWidth = 11;
   h.visualReferenceRepresentation.imageHeight = 12;
   h.pinholeRepresentation.imageWidth = 13;
   h.pinholeRepresentation.imageHeight = 14;
   h.sphericalRepresentation.imageWidth = 15;
   h.sphericalRepresentation.imageHeight = 16;
   h.cylindricalRepresentation.imageWidth = 17;
   h.cylindricalRepresentation.imageHeight = 18;
   const Image2DType good = png ? ImagePNG : ImageJPEG;
   const size_t split = sym_choice( 3, "split" );
   const unsigned first = sym_choice( 2, "first" );
   QUIETLY( "image accepted", {
      Writer w( "a.e57", WriterOptions{ "file", "" } );
      Image2D none;
      none.guid = "none";
      if ( first ) w.NewImage2D( none );
      const int64_t at = w.NewImage2D( h );
      sym_assert( at == (int64_t)first, "images counted" );
      for ( int k = 0; k < 4; k++ )
      {
         const Image2DProjection p = (Image2DProjection)( ProjectionVisual + k );
         uint8_t nothing[4] = { 0, 0, 0, 0 };
         if ( which >> k & 1 )
         {
            sym_assert( w.WriteImage2DData( at, good, p, image[k].data(), 0, (int64_t)split ) == (int64_t)split, "bytes written" );
            sym_assert( w.WriteImage2DData( at, good, p, image[k].data() + split, (int64_t)split, (int64_t)( size - split ) ) == (int64_t)( size - split ), "bytes written" );
            if ( mask )
               sym_assert( w.WriteImage2DData( at, ImageMaskPNG, p, shade[k].data(), 0, (int64_t)mask ) == (int64_t)mask, "mask written" );
            else
               sym_assert( w.WriteImage2DData( at, ImageMaskPNG, p, nothing, 0, 1 ) == 0, "no mask to write" );
            sym_assert( w.WriteImage2DData( at, png ? ImageJPEG : ImagePNG, p, nothing, 0, 1 ) == 0, "no image of that type to write" );
         }
         else
            sym_assert( w.WriteImage2DData( at, good, p, nothing, 0, 1 ) == 0, "no projection to write" );
      }
      uint8_t b = 0;
      sym_assert( w.WriteImage2DData( at + 1, good, ProjectionVisual, &b, 0, 1 ) == 0 && w.WriteImage2DData( -1, good, ProjectionVisual, &b, 0, 1 ) == 0, "no image to write" );
      if ( !first ) w.NewImage2D( none );
      w.Close();
   } );
   QUIETLY( "image read back", {
      Reader r( "a.e57", {} );
      Image2D b;
      sym_assert( r.ReadImage2D( first, b ), "image found" );
      sym_assert( sameSizes( b.visualReferenceRepresentation, which & VISUAL ? h.visualReferenceRepresentation : VisualReferenceRepresentation{} ) && sameSizes( b.pinholeRepresentation, which & PINHOLE ? h.pinholeRepresentation : PinholeRepresentation{} ) &&
                     sameSizes( b.sphericalRepresentation, which & SPHERICAL ? h.sphericalRepresentation : SphericalRepresentation{} ) &&
                     sameSizes( b.cylindricalRepresentation, which & CYLINDRICAL ? h.cylindricalRepresentation : CylindricalRepresentation{} ),
                  "sizes come back" );
      Image2DProjection projection = ProjectionCylindrical;
      Image2DType type = ImageMaskPNG;
      Image2DType maskType = ImageJPEG;
      Image2DType visualType = ImageMaskPNG;
      int64_t width = 1;
      int64_t height = 2;
      int64_t bytes = 3;
      const bool found = r.GetImage2DSizes( first, projection, type, width, height, bytes, maskType, visualType );
      sym_assert( found == ( which != 0 ), "sizes known" );
      if ( found )
      {
         int k = 0;
         while ( !( which >> k & 1 ) ) k++;
         sym_assert( projection == ProjectionVisual + k && type == good && width == 11 + 2 * k && height == 12 + 2 * k && bytes == (int64_t)size && maskType == ( mask ? ImageMaskPNG : ImageNone ) &&
                        visualType == ( which & VISUAL ? good : ImageNone ),
                     "sizes are those written" );
      }
      else
         sym_assert( projection == ProjectionNone && type == ImageNone && maskType == ImageNone && visualType == ImageNone, "nothing known" );
      // any request
      std::vector<uint8_t> buffer( big ? 2100 : 8, 0xEE );
      const unsigned aim = sym_choice( 3, "aim" );
      int64_t index = aim;
      if ( aim == 2 )
      {
         index = sym<int64_t>( "index" );
         sym_assume( ( index < 0 ) | ( index > 1 ) );
      }
      const int p = (int)sym_choice( 5, "projection" );
      const int t = (int)sym_choice( 4, "type" );
      const bool there = p > 0 && ( which >> ( p - 1 ) & 1 );
      const size_t have = !there ? 0 : t == good ? size : t == ImageMaskPNG ? mask : 0;
      const size_t from = have ? ( big ? 1015 : sym_choice( (unsigned)have, "from" ) ) : 0;
      const size_t count = have ? ( big ? have - from : sym_choice( (unsigned)( have - from + 1 ), "count" ) ) : 2;
      const int64_t got = r.ReadImage2DData( index, (Image2DProjection)p, (Image2DType)t, buffer.data(), (int64_t)from, (int64_t)count );
      const bool right = aim == first;
      sym_assert( got == ( right & ( have != 0 ) ? (int64_t)count : 0 ), "bytes found" );
      const std::vector<uint8_t> *source = have ? ( t == ImageMaskPNG ? &shade[p - 1] : &image[p - 1] ) : nullptr;
      bool same = true;
      for ( size_t k = 0; k < buffer.size(); k++ ) same &= buffer[k] == ( right && k < count && have ? ( *source )[from + k] : 0xEE );
      sym_assert( same, "bytes come back and nothing else is touched" );
      if ( aim == 2 )
      {
         projection = ProjectionPinhole;
         width = 5;
         b.name = "kept";
         sym_assert( !r.ReadImage2D( index, b ) && b.name == "kept", "no such image" );
         sym_assert( !r.GetImage2DSizes( index, projection, type, width, height, bytes, maskType, visualType ) && projection == ProjectionPinhole && width == 5, "no such image" );
         sym_cover( "outside" );
      }
      else
         sym_cover( right ? "data" : "other image" );
      sym_observe( "got", got );
      r.Close();
      sym_assert( !r.ReadImage2D( 0, b ), "nothing from a closed file" );
   } );
}
