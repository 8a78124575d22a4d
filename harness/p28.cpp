// P28: the simple interface keeps and finds everything of a scan where the standard says
#include "p24.cpp"
#include "p28.h"
enum { G_GUID, G_NAME, G_DESCRIPTION, G_VENDOR, G_MODEL, G_SERIAL, G_HARDWARE, G_SOFTWARE, G_FIRMWARE, G_TEMPERATURE, G_HUMIDITY, G_PRESSURE, G_ROWS, G_COLUMNS, G_RETURNS,
       G_CARTESIAN, G_SPHERICAL, G_ROTATION, G_TRANSLATION, G_START, G_START_CLOCK, G_END, G_END_CLOCK, G_INTENSITY, G_COLOUR, GROUPS };
static std::vector<Place> places( Data3D &h )
{
   return {
      { "guid", TEXT, &h.guid, G_GUID },
      { "name", TEXT, &h.name, G_NAME },
      { "description", TEXT, &h.description, G_DESCRIPTION },
      { "sensorVendor", TEXT, &h.sensorVendor, G_VENDOR },
      { "sensorModel", TEXT, &h.sensorModel, G_MODEL },
      { "sensorSerialNumber", TEXT, &h.sensorSerialNumber, G_SERIAL },
      { "sensorHardwareVersion", TEXT, &h.sensorHardwareVersion, G_HARDWARE },
      { "sensorSoftwareVersion", TEXT, &h.sensorSoftwareVersion, G_SOFTWARE },
      { "sensorFirmwareVersion", TEXT, &h.sensorFirmwareVersion, G_FIRMWARE },
      { "temperature", NARROW, &h.temperature, G_TEMPERATURE },
      { "relativeHumidity", NARROW, &h.relativeHumidity, G_HUMIDITY },
      { "atmosphericPressure", NARROW, &h.atmosphericPressure, G_PRESSURE },
      { "indexBounds/rowMinimum", WHOLE, &h.indexBounds.rowMinimum, G_ROWS },
      { "indexBounds/rowMaximum", WHOLE, &h.indexBounds.rowMaximum, G_ROWS },
      { "indexBounds/columnMinimum", WHOLE, &h.indexBounds.columnMinimum, G_COLUMNS },
      { "indexBounds/columnMaximum", WHOLE, &h.indexBounds.columnMaximum, G_COLUMNS },
      { "indexBounds/returnMinimum", WHOLE, &h.indexBounds.returnMinimum, G_RETURNS },
      { "indexBounds/returnMaximum", WHOLE, &h.indexBounds.returnMaximum, G_RETURNS },
      { "cartesianBounds/xMinimum", NUMBER, &h.cartesianBounds.xMinimum, G_CARTESIAN },
      { "cartesianBounds/xMaximum", NUMBER, &h.cartesianBounds.xMaximum, G_CARTESIAN },
      { "cartesianBounds/yMinimum", NUMBER, &h.cartesianBounds.yMinimum, G_CARTESIAN },
      { "cartesianBounds/yMaximum", NUMBER, &h.cartesianBounds.yMaximum, G_CARTESIAN },
      { "cartesianBounds/zMinimum", NUMBER, &h.cartesianBounds.zMinimum, G_CARTESIAN },
      { "cartesianBounds/zMaximum", NUMBER, &h.cartesianBounds.zMaximum, G_CARTESIAN },
      { "sphericalBounds/rangeMinimum", NUMBER, &h.sphericalBounds.rangeMinimum, G_SPHERICAL },
      { "sphericalBounds/rangeMaximum", NUMBER, &h.sphericalBounds.rangeMaximum, G_SPHERICAL },
      { "sphericalBounds/elevationMinimum", NUMBER, &h.sphericalBounds.elevationMinimum, G_SPHERICAL },
      { "sphericalBounds/elevationMaximum", NUMBER, &h.sphericalBounds.elevationMaximum, G_SPHERICAL },
      { "sphericalBounds/azimuthStart", NUMBER, &h.sphericalBounds.azimuthStart, G_SPHERICAL },
      { "sphericalBounds/azimuthEnd", NUMBER, &h.sphericalBounds.azimuthEnd, G_SPHERICAL },
      { "pose/rotation/w", NUMBER, &h.pose.rotation.w, G_ROTATION },
      { "pose/rotation/x", NUMBER, &h.pose.rotation.x, G_ROTATION },
      { "pose/rotation/y", NUMBER, &h.pose.rotation.y, G_ROTATION },
      { "pose/rotation/z", NUMBER, &h.pose.rotation.z, G_ROTATION },
      { "pose/translation/x", NUMBER, &h.pose.translation.x, G_TRANSLATION },
      { "pose/translation/y", NUMBER, &h.pose.translation.y, G_TRANSLATION },
      { "pose/translation/z", NUMBER, &h.pose.translation.z, G_TRANSLATION },
      { "acquisitionStart/dateTimeValue", NUMBER, &h.acquisitionStart.dateTimeValue, G_START },
      { "acquisitionStart/isAtomicClockReferenced", WHOLE32, &h.acquisitionStart.isAtomicClockReferenced, G_START_CLOCK },
      { "acquisitionEnd/dateTimeValue", NUMBER, &h.acquisitionEnd.dateTimeValue, G_END },
      { "acquisitionEnd/isAtomicClockReferenced", WHOLE32, &h.acquisitionEnd.isAtomicClockReferenced, G_END_CLOCK },
      { "intensityLimits/intensityMinimum", NUMBER, &h.intensityLimits.intensityMinimum, G_INTENSITY },
      { "intensityLimits/intensityMaximum", NUMBER, &h.intensityLimits.intensityMaximum, G_INTENSITY },
      { "colorLimits/colorRedMinimum", NUMBER, &h.colorLimits.colorRedMinimum, G_COLOUR },
      { "colorLimits/colorRedMaximum", NUMBER, &h.colorLimits.colorRedMaximum, G_COLOUR },
      { "colorLimits/colorGreenMinimum", NUMBER, &h.colorLimits.colorGreenMinimum, G_COLOUR },
      { "colorLimits/colorGreenMaximum", NUMBER, &h.colorLimits.colorGreenMaximum, G_COLOUR },
      { "colorLimits/colorBlueMinimum", NUMBER, &h.colorLimits.colorBlueMinimum, G_COLOUR },
      { "colorLimits/colorBlueMaximum", NUMBER, &h.colorLimits.colorBlueMaximum, G_COLOUR },
   };
}
// group 'hot' gets any values, the others fixed ones or none
static void fillHeader( Data3D &h, int hot, bool others )
{
   const std::vector<Place> p = places( h );
   for ( size_t k = 0; k < p.size(); k++ )
      if ( p[k].group == hot )
      {
         if ( hot == G_COLOUR ) *(double *)p[k].at = (double)sym<uint16_t>( p[k].path ); // kept as whole numbers
         else anyAt( p[k] );
      }
      else if ( others || p[k].group == G_GUID ) someAt( p[k], (int)( p[k].group == G_COLOUR ? 2 * k : k ) );
}
// written by the simple interface, read by the other one; param = group
HARNESS( p28_store )
{
   vf_opaque_numbers = 4;
   const int hot = (int)sym_param();
   const bool others = sym_choice( 2, "others" );
   Data3D h;
   fillHeader( h, hot, others );
   h.pointFields.intensityNodeType = NumericalNodeType::Double;
   h.pointFields.cartesianZField = true;
   h.pointCount = 1;
   const unsigned guids = others ? sym_choice( 3, "guids" ) : 0;
   for ( unsigned k = 0; k < guids; k++ ) h.originalGuids.push_back( anyText( "original" ) );
   QUIETLY( "header accepted", {
      Writer w( "a.e57", WriterOptions{ "file", "" } );
      sym_assert( w.NewData3D( h ) == 0, "first scan" );
      w.Close();
   } );
   QUIETLY( "file read", {
      ImageFile f( "a.e57", "r" );
      StructureNode scan( VectorNode( f.root().get( "data3D" ) ).get( 0 ) );
      Data3D none;
      const std::vector<Place> p = places( h );
      const std::vector<Place> d = places( none );
      bool same = true;
      for ( size_t k = 0; k < p.size(); k++ ) same &= storedAs( scan, p[k], d[k] );
      sym_assert( same, "every value at its place" );
      sym_assert( scan.isDefined( "originalGuids" ) == ( guids > 0 ), "original guids" );
      if ( guids )
      {
         VectorNode v( scan.get( "originalGuids" ) );
         bool g = v.childCount() == guids;
         for ( unsigned k = 0; g && k < guids; k++ ) g &= eq( StringNode( v.get( k ) ).value(), h.originalGuids[k] );
         sym_assert( g, "original guids" );
      }
      sym_assert( scan.get( "points" ).type() == TypeCompressedVector, "points" );
      f.close();
   } );
   sym_cover( "stored" );
}
static const char *const FIELD[] = { "cartesianX", "cartesianY", "cartesianZ", "cartesianInvalidState", "sphericalRange", "sphericalAzimuth", "sphericalElevation", "sphericalInvalidState", "rowIndex", "columnIndex", "returnIndex", "returnCount",
                                     "timeStamp", "isTimeStampInvalid", "intensity", "isIntensityInvalid", "colorRed", "colorGreen", "colorBlue", "isColorInvalid", "nor:normalX", "nor:normalY", "nor:normalZ" };
static void beginFile( ImageFile &f )
{
   f.extensionsAdd( "", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
   f.root().set( "formatName", StringNode( f, "ASTM E57 3D Imaging Data File" ) );
   f.root().set( "guid", StringNode( f, "file" ) );
   f.root().set( "versionMajor", IntegerNode( f, 1 ) );
   f.root().set( "versionMinor", IntegerNode( f, 0 ) );
}
// written by the low-level interface, read by the simple one; param = group + 100 * (form of numbers)
HARNESS( p28_fetch )
{
   vf_opaque_numbers = 4;
   const int hot = (int)( sym_param() % 100 ), form = (int)( sym_param() / 100 );
   const bool others = sym_choice( 2, "others" );
   const unsigned guids = others ? sym_choice( 3, "guids" ) : 0;
   Data3D h;
   fillHeader( h, hot, others );
   for ( unsigned k = 0; k < guids; k++ ) h.originalGuids.push_back( anyText( "original" ) );
   // the time goes with its clock, not the other way round
   if ( hot == G_START_CLOCK && !others ) h.acquisitionStart.dateTimeValue = 5;
   if ( hot == G_END_CLOCK && !others ) h.acquisitionEnd.dateTimeValue = 5;
   QUIETLY( "file written", {
      ImageFile f( "a.e57", "w" );
      beginFile( f );
      VectorNode scans( f, true );
      f.root().set( "data3D", scans );
      StructureNode scan( f );
      scans.append( scan );
      const std::vector<Place> p = places( h );
      for ( size_t k = 0; k < p.size(); k++ )
      {
         const bool clock = ( hot == G_START_CLOCK && p[k].group == G_START ) || ( hot == G_END_CLOCK && p[k].group == G_END );
         if ( others || p[k].group == hot || p[k].group == G_GUID || clock ) place( scan, p[k], p[k].group == hot ? form : 0 );
      }
      if ( guids )
      {
         VectorNode v( f, true );
         scan.set( "originalGuids", v );
         for ( unsigned k = 0; k < guids; k++ ) v.append( StringNode( f, h.originalGuids[k] ) );
      }
      StructureNode proto( f );
      proto.set( "cartesianX", FloatNode( f, 0., PrecisionSingle ) );
      scan.set( "points", CompressedVectorNode( f, proto, VectorNode( f, true ) ) );
      f.close();
   } );
   QUIETLY( "header read", {
      Reader r( "a.e57", {} );
      Data3D b;
      b.name = "stale";
      b.temperature = 5;
      sym_assert( r.GetData3DCount() == 1 && r.ReadData3D( 0, b ), "scan found" );
      const std::vector<Place> p = places( h );
      const std::vector<Place> q = places( b );
      bool same = true;
      for ( size_t k = 0; k < p.size(); k++ ) same &= samePlace( p[k], q[k] );
      sym_assert( same, "every value found at its place" );
      if ( !others && hot != G_SPHERICAL && hot != G_CARTESIAN )
      {
         const SphericalBounds &a = b.sphericalBounds;
         const CartesianBounds &c = b.cartesianBounds;
         const double pi = 3.14159265358979323846;
         sym_assert( a.rangeMinimum == 0 && a.rangeMaximum == DOUBLE_MAX && a.azimuthStart == -pi && a.azimuthEnd == pi && a.elevationMinimum == -pi / 2 && a.elevationMaximum == pi / 2, "without bounds everything is inside" );
         sym_assert( c.xMinimum == -DOUBLE_MAX && c.yMinimum == -DOUBLE_MAX && c.zMinimum == -DOUBLE_MAX && c.xMaximum == DOUBLE_MAX && c.yMaximum == DOUBLE_MAX && c.zMaximum == DOUBLE_MAX, "without bounds everything is inside" );
         sym_assert( b.pose.rotation.w == 1 && b.pose.rotation.x == 0 || hot == G_ROTATION, "without a pose nothing is turned" );
         sym_cover( "defaults" );
      }
      bool g = b.originalGuids.size() == guids;
      for ( unsigned k = 0; g && k < guids; k++ ) g &= eq( b.originalGuids[k], h.originalGuids[k] );
      sym_assert( g, "original guids" );
      sym_assert( b.pointFields.cartesianXField && !b.pointFields.cartesianYField && !b.pointFields.normalXField, "fields" );
      sym_observe( "guids", b.originalGuids.size() );
      r.Close();
   } );
   sym_cover( "fetched" );
}
// limits that the header does not give come from the layout of the records
// param: type of the intensity + 10 * (form of the limits: none, numbers, scaled, whole)
HARNESS( p28_limits )
{
   vf_opaque_numbers = 4;
   const int type = (int)( sym_param() % 10 ), form = (int)( sym_param() / 10 );
   const unsigned colourType = sym_choice( 2, "colour type" );
   Data3D h;
   const std::vector<Place> p = places( h );
   const int64_t lo = sym_range<int8_t>( 0, 20, "minimum" );
   const int64_t hi = sym_range<int8_t>( 21, 100, "maximum" );
   const double step = type == 1 ? 0.25 : 1;
   QUIETLY( "file written", {
      ImageFile f( "a.e57", "w" );
      beginFile( f );
      VectorNode scans( f, true );
      f.root().set( "data3D", scans );
      StructureNode scan( f );
      scans.append( scan );
      scan.set( "guid", StringNode( f, "g" ) );
      for ( size_t k = 0; k < p.size(); k++ )
         if ( form && ( p[k].group == G_INTENSITY || p[k].group == G_COLOUR ) )
         {
            if ( form == 1 )
            {
               anyAt( p[k] );
               sym_assume( bitsOf( *(double *)p[k].at ) << 1 ); // a limit of zero counts as not given
            }
            place( scan, p[k], form - 1 );
         }
      StructureNode proto( f );
      proto.set( "cartesianX", FloatNode( f, 0., PrecisionSingle ) );
      if ( type == 0 ) proto.set( "intensity", IntegerNode( f, lo, lo, hi ) );
      else if ( type == 1 ) proto.set( "intensity", ScaledIntegerNode( f, lo, lo, hi, 0.25, 0. ) );
      else proto.set( "intensity", FloatNode( f, (double)lo, type == 2 ? PrecisionSingle : PrecisionDouble, (double)lo, (double)hi ) );
      for ( int k = 0; k < 3; k++ )
         if ( colourType == 0 ) proto.set( FIELD[RED + k], IntegerNode( f, lo + k, lo + k, hi + k ) );
         else proto.set( FIELD[RED + k], FloatNode( f, (double)( lo + k ), PrecisionSingle, (double)( lo + k ), (double)( hi + k ) ) );
      scan.set( "points", CompressedVectorNode( f, proto, VectorNode( f, true ) ) );
      f.close();
   } );
   if ( !form )
   {
      h.intensityLimits.intensityMinimum = (double)lo * step;
      h.intensityLimits.intensityMaximum = (double)hi * step;
      double *c[] = { &h.colorLimits.colorRedMinimum, &h.colorLimits.colorRedMaximum, &h.colorLimits.colorGreenMinimum, &h.colorLimits.colorGreenMaximum, &h.colorLimits.colorBlueMinimum, &h.colorLimits.colorBlueMaximum };
      for ( int k = 0; k < 6; k++ ) *c[k] = (double)( ( k % 2 ? hi : lo ) + k / 2 );
   }
   QUIETLY( "header read", {
      Reader r( "a.e57", {} );
      Data3D b;
      sym_assert( r.ReadData3D( 0, b ), "scan found" );
      const std::vector<Place> q = places( b );
      bool intensity = true;
      bool colour = true;
      for ( size_t k = 0; k < p.size(); k++ )
         if ( p[k].group == G_INTENSITY ) intensity &= samePlace( p[k], q[k] );
         else if ( p[k].group == G_COLOUR ) colour &= samePlace( p[k], q[k] );
      sym_assert( intensity, "limits of the intensity" );
      sym_assert( colour, "limits of the colours" );
      sym_assert( b.pointFields.intensityField && (int)b.pointFields.intensityNodeType == type, "type of the intensity" );
      r.Close();
   } );
   sym_cover( form ? "limits given" : "limits from the layout" );
}
// a buffer of the low-level interface for every field
template <class C> static void buffersFor( ImageFile f, Own<C> &o, const bool *on, std::vector<SourceDestBuffer> &v, bool turned )
{
   for ( int j = 0; j < NFIELD; j++ )
   {
      const int k = turned ? NFIELD - 1 - j : j;
      if ( !on[k] ) continue;
      switch ( k )
      {
      case X: case Y: case Z: v.emplace_back( f, FIELD[k], o.c[k], (size_t)NP, true, true ); break;
      case RANGE: case AZ: case EL: v.emplace_back( f, FIELD[k], o.c[3 + k - RANGE], (size_t)NP, true, true ); break;
      case CINV: v.emplace_back( f, FIELD[k], o.i8[0], (size_t)NP, true ); break;
      case SINV: v.emplace_back( f, FIELD[k], o.i8[1], (size_t)NP, true ); break;
      case RIDX: v.emplace_back( f, FIELD[k], o.i8[2], (size_t)NP, true ); break;
      case RCNT: v.emplace_back( f, FIELD[k], o.i8[3], (size_t)NP, true ); break;
      case TINV: v.emplace_back( f, FIELD[k], o.i8[4], (size_t)NP, true ); break;
      case IINV: v.emplace_back( f, FIELD[k], o.i8[5], (size_t)NP, true ); break;
      case COLINV: v.emplace_back( f, FIELD[k], o.i8[6], (size_t)NP, true ); break;
      case ROW: case COL: v.emplace_back( f, FIELD[k], o.i32[k - ROW], (size_t)NP, true ); break;
      case TIME: v.emplace_back( f, FIELD[k], o.d[0], (size_t)NP, true, true ); break;
      case INTEN: v.emplace_back( f, FIELD[k], o.d[1], (size_t)NP, true, true ); break;
      case RED: case GREEN: case BLUE: v.emplace_back( f, FIELD[k], o.u16[k - RED], (size_t)NP, true ); break;
      default: v.emplace_back( f, FIELD[k], o.f[k - NX], (size_t)NP, true );
      }
   }
}
static Spec specFor( int group, NumericalNodeType type )
{
   Spec s;
   s.type = type;
   s.one = false;
   s.hot = 0;
   s.base = 0;
   const bool others = sym_choice( 2, "others" );
   for ( int k = 0; k < NFIELD; k++ )
   {
      s.on[k] = others;
      s.any[k] = false;
   }
   for ( int n = 0; GROUP[group][n] >= 0; n++ ) s.on[GROUP[group][n]] = s.any[GROUP[group][n]] = true;
   return s;
}
// points written by the simple interface and read by the other one; param = group of fields + 10 * type
HARNESS( p28_points_store )
{
   vf_opaque_numbers = 2;
   const NumericalNodeType type = (NumericalNodeType)( sym_param() / 10 );
   const Spec s = specFor( (int)( sym_param() % 10 ), type );
   Data3D h;
   h.guid = "g";
   h.pointCount = NP;
   PointStandardizedFieldsAvailable &p = h.pointFields;
   for ( int k = 0; k < NFIELD; k++ ) *flagOf( p, k ) = s.on[k];
   p.pointRangeNodeType = p.angleNodeType = p.timeNodeType = p.intensityNodeType = type;
   p.pointRangeScale = p.angleScale = p.timeScale = p.intensityScale = 0.25;
   if ( type == NumericalNodeType::ScaledInteger )
   {
      p.pointRangeMinimum = p.angleMinimum = p.timeMinimum = h.intensityLimits.intensityMinimum = -32;
      p.pointRangeMaximum = p.angleMaximum = p.timeMaximum = h.intensityLimits.intensityMaximum = 31.75;
   }
   else
   {
      h.intensityLimits.intensityMinimum = type == NumericalNodeType::Float ? FLOAT_MIN : DOUBLE_MIN;
      h.intensityLimits.intensityMaximum = type == NumericalNodeType::Float ? FLOAT_MAX : DOUBLE_MAX;
      if ( type == NumericalNodeType::Float )
      {
         p.pointRangeMinimum = p.angleMinimum = FLOAT_MIN;
         p.pointRangeMaximum = p.angleMaximum = FLOAT_MAX;
      }
   }
   h.colorLimits.colorRedMaximum = h.colorLimits.colorGreenMaximum = h.colorLimits.colorBlueMaximum = 255;
   p.returnMaximum = 127;
   p.rowIndexMaximum = p.columnIndexMaximum = 0x7FFFFFFF;
   Own<double> in, out;
   fill( in, s, 255 );
   memset( &out, 0, sizeof out );
   QUIETLY( "points accepted", {
      Writer w( "a.e57", WriterOptions{ "file", "" } );
      Data3DPointsDouble d;
      pointAt( d, in, s.on );
      const int64_t at = w.NewData3D( h );
      CompressedVectorWriter cw = w.SetUpData3DPointsData( at, NP, d );
      cw.write( NP );
      cw.close();
      w.Close();
   } );
   QUIETLY( "points read", {
      ImageFile f( "a.e57", "r" );
      CompressedVectorNode c( f.root().get( "data3D/0/points" ) );
      StructureNode proto( c.prototype() );
      bool same = c.childCount() == NP;
      for ( int k = 0; k < NFIELD; k++ )
      {
         bool there = false;
         const bool ext = k >= NX && !f.extensionsLookupPrefix( "nor" );
         if ( !ext ) there = proto.isDefined( FIELD[k] );
         same &= there == s.on[k];
      }
      sym_assert( same, "exactly the enabled fields are stored" );
      if ( same )
      {
         std::vector<SourceDestBuffer> v;
         buffersFor( f, out, s.on, v, false );
         CompressedVectorReader r = c.reader( v );
         sym_assert( r.read() == NP, "all points read" );
         r.close();
         samePoints( in, out );
      }
      if ( s.on[NX] )
      {
         std::string uri;
         sym_assert( f.extensionsLookupPrefix( "nor", uri ) && uri == "http://www.libe57.org/E57_EXT_surface_normals.txt", "extension of the normals" );
      }
      f.close();
   } );
   sym_observe( "x", out.c[0][1] != 0 );
   sym_cover( "points stored" );
}
static Node fieldNode( ImageFile &f, int k, NumericalNodeType t )
{
   switch ( k )
   {
   case CINV: case SINV: return IntegerNode( f, 0, 0, 2 );
   case TINV: case IINV: case COLINV: return IntegerNode( f, 0, 0, 1 );
   case RIDX: case RCNT: return IntegerNode( f, 0, 0, 127 );
   case ROW: case COL: return IntegerNode( f, 0, 0, k == ROW ? 0x7FFFFFFF : 0xFFFFFFFF );
   case RED: case GREEN: case BLUE: return IntegerNode( f, 0, 0, 255 );
   case NX: case NY: case NZ: return FloatNode( f, 0., PrecisionSingle, -1., 1. );
   }
   if ( t == NumericalNodeType::Integer && k <= SINV ) return FloatNode( f ); // not for coordinates
   switch ( t )
   {
   case NumericalNodeType::Integer: return IntegerNode( f, 0, -128, 127 );
   case NumericalNodeType::ScaledInteger: return ScaledIntegerNode( f, 0, -128, 127, 0.25, 0. );
   case NumericalNodeType::Float: return FloatNode( f, 0., PrecisionSingle );
   default: return FloatNode( f );
   }
}
// points written by the low-level interface and read by the simple one; param = group of fields + 10 * type
HARNESS( p28_points_fetch )
{
   vf_opaque_numbers = 2;
   const NumericalNodeType type = (NumericalNodeType)( sym_param() / 10 );
   const Spec s = specFor( (int)( sym_param() % 10 ), type );
   const bool turned = sym_choice( 2, "order" );
   Own<double> in, out;
   fill( in, s, 255 );
   memset( &out, 0, sizeof out );
   QUIETLY( "points written", {
      ImageFile f( "a.e57", "w" );
      beginFile( f );
      if ( s.on[NX] ) f.extensionsAdd( "nor", "http://www.libe57.org/E57_EXT_surface_normals.txt" );
      f.extensionsAdd( "my", "http://my.org" );
      VectorNode scans( f, true );
      f.root().set( "data3D", scans );
      StructureNode scan( f );
      scans.append( scan );
      scan.set( "guid", StringNode( f, "g" ) );
      StructureNode proto( f );
      // something of somebody else's between them
      for ( int j = 0; j < NFIELD; j++ )
      {
         const int k = turned ? NFIELD - 1 - j : j;
         if ( j == RED ) proto.set( "my:own", IntegerNode( f, 0, 0, 100 ) );
         if ( s.on[k] ) proto.set( FIELD[k], fieldNode( f, k, type ) );
      }
      CompressedVectorNode c( f, proto, VectorNode( f, true ) );
      scan.set( "points", c );
      std::vector<SourceDestBuffer> v;
      buffersFor( f, in, s.on, v, false );
      uint8_t own[NP] = { 99, 1 };
      v.emplace_back( f, "my:own", own, (size_t)NP );
      CompressedVectorWriter w = c.writer( v );
      w.write( NP );
      w.close();
      f.close();
   } );
   QUIETLY( "points read", {
      Reader r( "a.e57", {} );
      Data3D b;
      sym_assert( r.ReadData3D( 0, b ), "scan found" );
      bool same = b.pointCount == NP;
      for ( int k = 0; k < NFIELD; k++ ) same &= *flagOf( b.pointFields, k ) == s.on[k];
      sym_assert( same, "exactly the stored fields are reported" );
      const PointStandardizedFieldsAvailable &q = b.pointFields;
      const double lo = type == NumericalNodeType::Integer ? -128 : type == NumericalNodeType::ScaledInteger ? -32 : type == NumericalNodeType::Float ? (double)FLOAT_MIN : DOUBLE_MIN;
      const double hi = type == NumericalNodeType::Integer ? 127 : type == NumericalNodeType::ScaledInteger ? 31.75 : type == NumericalNodeType::Float ? (double)FLOAT_MAX : DOUBLE_MAX;
      if ( type != NumericalNodeType::Integer )
      {
         if ( s.on[X] ) sym_assert( q.pointRangeNodeType == type && q.pointRangeMinimum == lo && q.pointRangeMaximum == hi, "coordinates described" );
         if ( s.on[AZ] ) sym_assert( q.angleNodeType == type && q.angleMinimum == lo && q.angleMaximum == hi, "angles described" );
      }
      if ( s.on[TIME] ) sym_assert( q.timeNodeType == type && q.timeMinimum == lo && q.timeMaximum == hi, "time described" );
      if ( s.on[INTEN] ) sym_assert( q.intensityNodeType == type && b.intensityLimits.intensityMinimum == lo && b.intensityLimits.intensityMaximum == hi, "intensity described" );
      if ( s.on[RED] ) sym_assert( b.colorLimits.colorRedMaximum == 255 && b.colorLimits.colorGreenMaximum == 255 && b.colorLimits.colorBlueMaximum == 255 && b.colorLimits.colorRedMinimum == 0, "colours described" );
      if ( s.on[ROW] ) sym_assert( q.rowIndexMaximum == 0x7FFFFFFF && q.columnIndexMaximum == 0xFFFFFFFF && q.returnMaximum == 127, "indices described" );
      bool all[NFIELD];
      for ( int k = 0; k < NFIELD; k++ ) all[k] = true;
      Data3DPointsDouble d;
      pointAt( d, out, all );
      CompressedVectorReader cr = r.SetUpData3DPointsData( 0, NP, d );
      sym_assert( cr.read() == NP, "all points read" );
      cr.close();
      samePoints( in, out );
      r.Close();
   } );
   sym_observe( "x", out.c[0][1] != 0 );
   sym_cover( "points fetched" );
}
// what belongs to the file as a whole
HARNESS( p28_file )
{
   vf_opaque_numbers = 4;
   const unsigned what = sym_choice( 64, "elements" );
   const std::string meta = anyText( "metadata" );
   const std::string lib = anyText( "library" );
   const double time = anyDouble( "time" );
   const int64_t clock = sym_range<uint8_t>( 0, 1, "clock" );
   QUIETLY( "file written", {
      ImageFile f( "a.e57", "w" );
      beginFile( f );
      if ( what & 1 ) f.root().set( "coordinateMetadata", StringNode( f, meta ) );
      if ( what & 2 ) f.root().set( "e57LibraryVersion", StringNode( f, lib ) );
      if ( what & 4 )
      {
         StructureNode t( f );
         f.root().set( "creationDateTime", t );
         t.set( "dateTimeValue", FloatNode( f, time ) );
         if ( what & 8 ) t.set( "isAtomicClockReferenced", IntegerNode( f, clock ) );
      }
      if ( what & 16 ) f.root().set( "data3D", VectorNode( f, true ) );
      if ( what & 32 ) f.root().set( "images2D", VectorNode( f, true ) );
      f.close();
   } );
   QUIETLY( "file read", {
      Reader r( "a.e57", {} );
      E57Root e;
      e.coordinateMetadata = "stale";
      sym_assert( r.GetE57Root( e ), "root" );
      sym_assert( e.guid == "file" && e.formatName == "ASTM E57 3D Imaging Data File" && e.versionMajor == 1 && e.versionMinor == 0, "format" );
      sym_assert( eq( e.coordinateMetadata, what & 1 ? meta : std::string() ) & eq( e.e57LibraryVersion, what & 2 ? lib : std::string() ), "text" );
      sym_assert( eq( e.creationDateTime.dateTimeValue, what & 4 ? time : 0. ) & ( e.creationDateTime.isAtomicClockReferenced == ( ( what & 12 ) == 12 ? clock : 0 ) ), "creation time" );
      sym_assert( e.data3DSize == 0 && e.images2DSize == 0 && r.GetData3DCount() == 0 && r.GetImage2DCount() == 0, "nothing in it" );
      sym_assert( r.GetRawData3D().childCount() == 0 && r.GetRawImages2D().childCount() == 0, "nothing in it" );
      sym_assert( StringNode( r.GetRawE57Root().get( "guid" ) ).value() == "file" && r.GetRawIMF().root().childCount() == r.GetRawE57Root().childCount(), "raw access" );
      r.Close();
   } );
   sym_cover( "file" );
}
// line groups; param 0: written by the simple interface, 1: by the low-level one
HARNESS( p28_groups )
{
   vf_opaque_numbers = 2;
   const bool byRow = sym_choice( 2, "by row" );
   const unsigned bounds = sym_choice( 4, "bounds" );
   const bool turned = sym_choice( 2, "order" );
   enum { N = 2 };
   int64_t id[N], start[N], count[N];
   for ( int k = 0; k < N; k++ )
   {
      id[k] = (int64_t)sym_range<uint64_t>( 0, N - 1, "id" );
      start[k] = (int64_t)sym_range<uint64_t>( 0, 999, "start" );
      count[k] = (int64_t)sym_range<uint64_t>( 0, 500, "count" );
   }
   int64_t i[N], b[N], c[N];
   const std::string scheme = "data3D/0/pointGroupingSchemes/groupingByLine/";
   if ( sym_param() == 0 )
   {
      Data3D h;
      h.guid = "g";
      h.pointFields.cartesianXField = true;
      h.pointCount = 1000;
      GroupingByLine &g = h.pointGroupingSchemes.groupingByLine;
      g.idElementName = byRow ? "rowIndex" : "columnIndex";
      g.groupsSize = N;
      g.pointCountSize = 500;
      memcpy( i, id, sizeof id );
      memcpy( b, start, sizeof start );
      memcpy( c, count, sizeof count );
      QUIETLY( "groups accepted", {
         Writer w( "a.e57", WriterOptions{ "file", "" } );
         sym_assert( w.NewData3D( h ) == 0 && w.WriteData3DGroupsData( 0, N, i, b, c ), "groups written" );
         w.Close();
      } );
      memset( i, 0x55, sizeof i );
      memset( b, 0x55, sizeof b );
      memset( c, 0x55, sizeof c );
      QUIETLY( "groups read", {
         ImageFile f( "a.e57", "r" );
         sym_assert( StringNode( f.root().get( scheme + "idElementName" ) ).value() == ( byRow ? "rowIndex" : "columnIndex" ), "what the lines are" );
         CompressedVectorNode groups( f.root().get( scheme + "groups" ) );
         sym_assert( groups.childCount() == N && StructureNode( groups.prototype() ).childCount() == 3, "number of groups" );
         std::vector<SourceDestBuffer> v;
         v.emplace_back( f, "idElementValue", i, (size_t)N );
         v.emplace_back( f, "startPointIndex", b, (size_t)N );
         v.emplace_back( f, "pointCount", c, (size_t)N );
         CompressedVectorReader r = groups.reader( v );
         sym_assert( r.read() == N, "all groups read" );
         r.close();
         f.close();
      } );
   }
   else
   {
      QUIETLY( "groups accepted", {
         ImageFile f( "a.e57", "w" );
         beginFile( f );
         VectorNode scans( f, true );
         f.root().set( "data3D", scans );
         StructureNode scan( f );
         scans.append( scan );
         scan.set( "guid", StringNode( f, "g" ) );
         if ( bounds )
         {
            StructureNode box( f );
            scan.set( "indexBounds", box );
            if ( bounds & 1 )
            {
               box.set( "rowMinimum", IntegerNode( f, 5 ) );
               box.set( "rowMaximum", IntegerNode( f, 14 ) );
            }
            if ( bounds & 2 )
            {
               box.set( "columnMinimum", IntegerNode( f, -1 ) );
               box.set( "columnMaximum", IntegerNode( f, 1 ) );
            }
         }
         StructureNode proto( f );
         proto.set( "cartesianX", FloatNode( f, 0., PrecisionSingle ) );
         scan.set( "points", CompressedVectorNode( f, proto, VectorNode( f, true ) ) );
         StructureNode schemes( f );
         StructureNode lines( f );
         StructureNode record( f );
         scan.set( "pointGroupingSchemes", schemes );
         schemes.set( "groupingByLine", lines );
         lines.set( "idElementName", StringNode( f, byRow ? "rowIndex" : "columnIndex" ) );
         if ( !turned ) record.set( "idElementValue", IntegerNode( f, 0, 0, 19 ) );
         record.set( "startPointIndex", IntegerNode( f, 0, 0, 999 ) );
         record.set( "pointCount", IntegerNode( f, 0, 0, 500 ) );
         if ( turned ) record.set( "idElementValue", IntegerNode( f, 0, 0, 19 ) );
         CompressedVectorNode groups( f, record, VectorNode( f, true ) );
         lines.set( "groups", groups );
         memcpy( i, id, sizeof id );
         memcpy( b, start, sizeof start );
         memcpy( c, count, sizeof count );
         std::vector<SourceDestBuffer> v;
         v.emplace_back( f, "idElementValue", i, (size_t)N );
         v.emplace_back( f, "startPointIndex", b, (size_t)N );
         v.emplace_back( f, "pointCount", c, (size_t)N );
         CompressedVectorWriter w = groups.writer( v );
         w.write( N );
         w.close();
         f.close();
      } );
      memset( i, 0x55, sizeof i );
      memset( b, 0x55, sizeof b );
      memset( c, 0x55, sizeof c );
      QUIETLY( "groups read", {
         Reader r( "a.e57", {} );
         Data3D h;
         sym_assert( r.ReadData3D( 0, h ), "scan found" );
         const GroupingByLine &g = h.pointGroupingSchemes.groupingByLine;
         sym_assert( g.idElementName == ( byRow ? "rowIndex" : "columnIndex" ) && g.groupsSize == N && g.pointCountSize == 500, "scheme" );
         int64_t row;
         int64_t column;
         int64_t size;
         int64_t n;
         int64_t largest;
         bool byColumn;
         sym_assert( r.GetData3DSizes( 0, row, column, size, n, largest, byColumn ), "sizes" );
         sym_assert( size == 0 && n == N && largest == 500 && byColumn == !byRow, "sizes" );
         sym_assert( row == ( bounds & 1 ? 10 : byRow ? 20 : 500 ) && column == ( bounds & 2 ? 3 : byRow ? 500 : 20 ), "rows and columns" );
         sym_assert( r.ReadData3DGroupsData( 0, N, i, b, c ), "groups found" );
         r.Close();
      } );
   }
   bool same = true;
   for ( int k = 0; k < N; k++ ) same &= ( i[k] == id[k] ) & ( b[k] == start[k] ) & ( c[k] == count[k] );
   sym_assert( same, "groups" );
   sym_observe( "id", id[1] );
   sym_cover( "groups" );
}
