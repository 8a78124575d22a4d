// P24: scans through the simple interface
#include "p24.h"
static const char *const TXT[] = { "name", "description", "sensorVendor", "sensorModel", "sensorSerialNumber", "sensorHardwareVersion", "sensorSoftwareVersion", "sensorFirmwareVersion" };
static std::string *textField( Data3D &h, int k )
{
   std::string *f[] = { &h.name, &h.description, &h.sensorVendor, &h.sensorModel, &h.sensorSerialNumber, &h.sensorHardwareVersion, &h.sensorSoftwareVersion, &h.sensorFirmwareVersion };
   return f[k];
}
static void sameHeader( Data3D &a, Data3D &b )
{
   bool t = eq( a.guid, b.guid );
   for ( int k = 0; k < 8; k++ ) t &= eq( *textField( a, k ), *textField( b, k ) );
   sym_assert( t, "text of a scan header comes back" );
   bool g = a.originalGuids.size() == b.originalGuids.size();
   for ( size_t k = 0; g && k < a.originalGuids.size(); k++ ) g &= eq( a.originalGuids[k], b.originalGuids[k] );
   sym_assert( g, "original guids come back" );
   sym_assert( eq( a.temperature, b.temperature ) & eq( a.relativeHumidity, b.relativeHumidity ) & eq( a.atmosphericPressure, b.atmosphericPressure ), "conditions come back" );
   sym_assert( eq( a.acquisitionStart, b.acquisitionStart ) & eq( a.acquisitionEnd, b.acquisitionEnd ), "acquisition times come back" );
   sym_assert( eq( a.pose, b.pose ), "pose comes back" );
   const IndexBounds &i = a.indexBounds, &j = b.indexBounds;
   sym_assert( ( i.rowMinimum == j.rowMinimum ) & ( i.rowMaximum == j.rowMaximum ) & ( i.columnMinimum == j.columnMinimum ) & ( i.columnMaximum == j.columnMaximum ) &
                  ( i.returnMinimum == j.returnMinimum ) & ( i.returnMaximum == j.returnMaximum ),
               "index bounds come back" );
   const CartesianBounds &c = a.cartesianBounds, &d = b.cartesianBounds;
   sym_assert( eq( c.xMinimum, d.xMinimum ) & eq( c.xMaximum, d.xMaximum ) & eq( c.yMinimum, d.yMinimum ) & eq( c.yMaximum, d.yMaximum ) & eq( c.zMinimum, d.zMinimum ) & eq( c.zMaximum, d.zMaximum ),
               "cartesian bounds come back" );
   const SphericalBounds &s = a.sphericalBounds, &u = b.sphericalBounds;
   sym_assert( eq( s.rangeMinimum, u.rangeMinimum ) & eq( s.rangeMaximum, u.rangeMaximum ) & eq( s.elevationMinimum, u.elevationMinimum ) & eq( s.elevationMaximum, u.elevationMaximum ) &
                  eq( s.azimuthStart, u.azimuthStart ) & eq( s.azimuthEnd, u.azimuthEnd ),
               "spherical bounds come back" );
   const IntensityLimits &p = a.intensityLimits, &q = b.intensityLimits;
   sym_assert( eq( p.intensityMinimum, q.intensityMinimum ) & eq( p.intensityMaximum, q.intensityMaximum ), "intensity limits come back" );
   const ColorLimits &v = a.colorLimits, &w = b.colorLimits;
   sym_assert( eq( v.colorRedMinimum, w.colorRedMinimum ) & eq( v.colorRedMaximum, w.colorRedMaximum ) & eq( v.colorGreenMinimum, w.colorGreenMinimum ) & eq( v.colorGreenMaximum, w.colorGreenMaximum ) &
                  eq( v.colorBlueMinimum, w.colorBlueMinimum ) & eq( v.colorBlueMaximum, w.colorBlueMaximum ),
               "colour limits come back" );
   const GroupingByLine &x = a.pointGroupingSchemes.groupingByLine, &y = b.pointGroupingSchemes.groupingByLine;
   sym_assert( eq( x.idElementName, y.idElementName ) & ( x.groupsSize == y.groupsSize ) & ( x.pointCountSize == y.pointCountSize ), "grouping comes back" );
   sym_assert( a.pointCount == b.pointCount, "point count comes back" );
}
static double fromU16( const char *name )
{
   return (double)sym<uint16_t>( name );
}
// param: group of header fields; 0..9 texts (none, all, one alone), 10 original guids, 11 conditions and times,
// 12 pose, 13 index bounds, 14 cartesian bounds, 15 spherical bounds, 16 colour limits, 17..20 intensity limits by type
HARNESS( p24_header )
{
   vf_opaque_numbers = 4;
   const int g = (int)sym_param();
   Data3D h;
   h.guid = anyText( "guid" );
   h.pointFields.cartesianXField = true;
   h.pointCount = 1;
   if ( g == 1 )
      for ( int k = 0; k < 8; k++ ) *textField( h, k ) = anyText( TXT[k] );
   else if ( g >= 2 && g < 10 )
      *textField( h, g - 2 ) = anyText( TXT[g - 2] );
   else if ( g == 10 )
   {
      const unsigned n = sym_choice( 4, "guids" );
      for ( unsigned k = 0; k < n; k++ ) h.originalGuids.push_back( anyText( "original" ) );
   }
   else if ( g == 11 )
   {
      h.temperature = anyFloat( "temperature" );
      h.relativeHumidity = anyFloat( "humidity" );
      h.atmosphericPressure = anyFloat( "pressure" );
   }
   else if ( g == 12 )
      anyPose( h.pose );
   else if ( g == 13 )
   {
      int64_t *f[] = { &h.indexBounds.rowMinimum, &h.indexBounds.rowMaximum, &h.indexBounds.columnMinimum, &h.indexBounds.columnMaximum, &h.indexBounds.returnMinimum, &h.indexBounds.returnMaximum };
      const unsigned pair = sym_choice( 3, "pair" );
      const unsigned others = sym_choice( 2, "others" );
      for ( int k = 0; k < 6; k++ )
         if ( k / 2 == (int)pair )
            *f[k] = sym<int64_t>( "bound" );
         else if ( others )
            *f[k] = (int64_t)sym_range<uint32_t>( 1, 0xFFFFFFFF, "bound" );
   }
   else if ( g == 14 )
   {
      CartesianBounds &c = h.cartesianBounds;
      c.xMinimum = anyDouble( "xmin" );
      c.xMaximum = anyDouble( "xmax" );
      c.yMinimum = anyDouble( "ymin" );
      c.yMaximum = anyDouble( "ymax" );
      c.zMinimum = anyDouble( "zmin" );
      c.zMaximum = anyDouble( "zmax" );
   }
   else if ( g == 15 )
   {
      SphericalBounds &s = h.sphericalBounds;
      s.rangeMinimum = anyDouble( "rmin" );
      s.rangeMaximum = anyDouble( "rmax" );
      s.elevationMinimum = anyDouble( "emin" );
      s.elevationMaximum = anyDouble( "emax" );
      s.azimuthStart = anyDouble( "amin" );
      s.azimuthEnd = anyDouble( "amax" );
   }
   else if ( g == 16 )
   {
      ColorLimits &c = h.colorLimits;
      c.colorRedMinimum = (double)sym<uint8_t>( "rmin" );
      c.colorRedMaximum = fromU16( "rmax" );
      c.colorGreenMinimum = (double)sym<uint8_t>( "gmin" );
      c.colorGreenMaximum = fromU16( "gmax" );
      c.colorBlueMinimum = (double)sym<uint8_t>( "bmin" );
      c.colorBlueMaximum = fromU16( "bmax" );
   }
   else if ( g >= 17 && g < 21 )
   {
      IntensityLimits &i = h.intensityLimits;
      h.pointFields.intensityNodeType = (NumericalNodeType)( g - 17 );
      h.pointFields.intensityScale = 0.25;
      if ( h.pointFields.intensityNodeType == NumericalNodeType::Double )
      {
         i.intensityMinimum = anyDouble( "imin" );
         i.intensityMaximum = anyDouble( "imax" );
      }
      else if ( h.pointFields.intensityNodeType == NumericalNodeType::Float )
      {
         i.intensityMinimum = (double)anyFloat( "imin" );
         i.intensityMaximum = (double)anyFloat( "imax" );
      }
      else
      {
         const int16_t a = sym<int8_t>( "imin" );
         const int16_t b = sym<int8_t>( "imax" );
         sym_assume( a <= b );
         const double s = h.pointFields.intensityNodeType == NumericalNodeType::Integer ? 1 : 0.25;
         i.intensityMinimum = (double)a * s;
         i.intensityMaximum = (double)b * s;
      }
   }
   else if ( g == 21 )
   {
      h.acquisitionStart.dateTimeValue = anyDouble( "start" );
      h.acquisitionStart.isAtomicClockReferenced = (int)sym_range<uint8_t>( 0, 1, "atomic start" );
      h.acquisitionEnd.dateTimeValue = anyDouble( "end" );
      h.acquisitionEnd.isAtomicClockReferenced = (int)sym_range<uint8_t>( 0, 1, "atomic end" );
   }
   QUIETLY( "header accepted", {
      Writer w( "a.e57", WriterOptions{ "file", "" } );
      const int64_t at = w.NewData3D( h );
      sym_assert( at == 0, "first scan" );
      float x = 1.5f;
      Data3DPointsFloat p;
      p.cartesianX = &x;
      CompressedVectorWriter cw = w.SetUpData3DPointsData( at, 1, p );
      cw.write( 1 );
      cw.close();
      w.Close();
   } );
   QUIETLY( "header read back", {
      Reader r( "a.e57", {} );
      sym_assert( r.GetData3DCount() == 1, "one scan" );
      Data3D b;
      b.name = "stale";
      b.temperature = 5;
      sym_assert( r.ReadData3D( 0, b ), "scan found" );
      sameHeader( h, b );
      sym_observe( "name", b.name.size() );
      r.Close();
   } );
   sym_cover( "header" );
}

// ---- points -------------------------------------------------------------------------------------
enum { X, Y, Z, CINV, RANGE, AZ, EL, SINV, ROW, COL, RIDX, RCNT, TIME, TINV, INTEN, IINV, RED, GREEN, BLUE, COLINV, NX, NY, NZ, NFIELD };
static const int GROUP[][6] = { { X, Y, Z, CINV, RANGE, -1 }, { AZ, EL, SINV, -1 }, { ROW, COL, RIDX, RCNT, -1 }, { TIME, TINV, -1 }, { INTEN, IINV, -1 }, { RED, GREEN, BLUE, COLINV, -1 }, { NX, NY, NZ, -1 } };
static bool *flagOf( PointStandardizedFieldsAvailable &p, int k )
{
   bool *f[] = { &p.cartesianXField,    &p.cartesianYField,   &p.cartesianZField,       &p.cartesianInvalidStateField, &p.sphericalRangeField,     &p.sphericalAzimuthField, &p.sphericalElevationField, &p.sphericalInvalidStateField,
                 &p.rowIndexField,      &p.columnIndexField,  &p.returnIndexField,      &p.returnCountField,           &p.timeStampField,          &p.isTimeStampInvalidField, &p.intensityField,         &p.isIntensityInvalidField,
                 &p.colorRedField,      &p.colorGreenField,   &p.colorBlueField,        &p.isColorInvalidField,        &p.normalXField,            &p.normalYField,          &p.normalZField };
   return f[k];
}
enum { NP = 2 };
// buffers of one's own for every field
template <class C> struct Own
{
   C c[6][NP];
   int8_t i8[7][NP];
   int32_t i32[2][NP];
   double d[2][NP];
   uint16_t u16[3][NP];
   float f[3][NP];
};
template <class C> static void pointAt( Data3DPointsData_t<C> &p, Own<C> &o, const bool *on )
{
   C **c[] = { &p.cartesianX, &p.cartesianY, &p.cartesianZ, &p.sphericalRange, &p.sphericalAzimuth, &p.sphericalElevation };
   const int ck[] = { X, Y, Z, RANGE, AZ, EL };
   for ( int k = 0; k < 6; k++ )
      if ( on[ck[k]] ) *c[k] = o.c[k];
   int8_t **i[] = { &p.cartesianInvalidState, &p.sphericalInvalidState, &p.returnIndex, &p.returnCount, &p.isTimeStampInvalid, &p.isIntensityInvalid, &p.isColorInvalid };
   const int ik[] = { CINV, SINV, RIDX, RCNT, TINV, IINV, COLINV };
   for ( int k = 0; k < 7; k++ )
      if ( on[ik[k]] ) *i[k] = o.i8[k];
   if ( on[ROW] ) p.rowIndex = o.i32[0];
   if ( on[COL] ) p.columnIndex = o.i32[1];
   if ( on[TIME] ) p.timeStamp = o.d[0];
   if ( on[INTEN] ) p.intensity = o.d[1];
   if ( on[RED] ) p.colorRed = o.u16[0];
   if ( on[GREEN] ) p.colorGreen = o.u16[1];
   if ( on[BLUE] ) p.colorBlue = o.u16[2];
   if ( on[NX] ) p.normalX = o.f[0];
   if ( on[NY] ) p.normalY = o.f[1];
   if ( on[NZ] ) p.normalZ = o.f[2];
}
// what is asked of the points of the group under scrutiny: symbolic values, of the others: fixed ones
struct Spec
{
   bool on[NFIELD], any[NFIELD];
   NumericalNodeType type;
   // when the library is to compute limits: one value of any size, the others fixed
   bool one;
   int hot, base;
};
// a number a field of type t can hold exactly, with a scale of 0.25
template <class C> static C numberFor( NumericalNodeType t, bool any, int seed, const char *name, bool one = false )
{
   if ( one && any )
   {
      static const int V[] = { 1, -100, 100 };
      return (C)( V[sym_choice( 3, name )] * 0.25 );
   }
   if ( !any ) return (C)( t == NumericalNodeType::Integer ? seed : seed * 0.25 );
   switch ( t )
   {
      case NumericalNodeType::Integer:
         return (C)sym<int8_t>( name );
      case NumericalNodeType::ScaledInteger:
         return (C)sym<int8_t>( name ) * (C)0.25;
      case NumericalNodeType::Float:
         return (C)anyFloat( name );
      default:
         return sizeof( C ) == 8 ? (C)anyDouble( name ) : (C)anyFloat( name );
   }
}
template <class C> static void fill( Own<C> &o, const Spec &s, unsigned colourMax )
{
   memset( &o, 0, sizeof o );
   const int ck[] = { X, Y, Z, RANGE, AZ, EL };
   const int ik[] = { CINV, SINV, RIDX, RCNT, TINV, IINV, COLINV };
   const int imax[] = { 2, 2, 127, 127, 1, 1, 1 };
   for ( int i = 0; i < NP; i++ )
   {
      for ( int k = 0; k < 6; k++ )
         if ( s.on[ck[k]] ) o.c[k][i] = numberFor<C>( s.type, s.any[ck[k]] && ( !s.one || s.hot == i * NFIELD + ck[k] ), s.base + 3 * k + i, "coordinate", s.one );
      for ( int k = 0; k < 7; k++ )
         if ( s.on[ik[k]] ) o.i8[k][i] = s.any[ik[k]] ? sym_range<int8_t>( 0, (int8_t)imax[k], "small" ) : (int8_t)( ( k + i ) % ( imax[k] + 1 ) );
      for ( int k = 0; k < 2; k++ )
         if ( s.on[ROW + k] ) o.i32[k][i] = s.any[ROW + k] ? sym_range<int32_t>( 0, 0x7FFFFFFF, "index" ) : 100 * k + i;
      for ( int k = 0; k < 2; k++ )
         if ( s.on[k ? INTEN : TIME] ) o.d[k][i] = numberFor<double>( s.type, s.any[k ? INTEN : TIME] && ( !s.one || s.hot == i * NFIELD + TIME ), s.base + 7 * k + i, "number", s.one );
      for ( int k = 0; k < 3; k++ )
         if ( s.on[RED + k] ) o.u16[k][i] = s.any[RED + k] ? sym_range<uint16_t>( 0, (uint16_t)colourMax, "colour" ) : (uint16_t)( 10 * k + i );
      for ( int k = 0; k < 3; k++ )
         if ( s.on[NX + k] )
         {
            float f = 0.125f * k + 0.25f * i;
            if ( s.any[NX + k] )
            {
               f = anyFloat( "normal" );
               sym_assume( ( bitsOf( f ) & 0x7FFFFFFF ) <= 0x3F800000 ); // -1 to 1
            }
            o.f[k][i] = f;
         }
   }
}
template <class C> static void samePoints( const Own<C> &a, const Own<C> &b )
{
   bool c = true, i = true, n = true, d = true, u = true, f = true;
   for ( int k = 0; k < NP; k++ )
   {
      for ( int j = 0; j < 6; j++ ) c &= eq( a.c[j][k], b.c[j][k] );
      for ( int j = 0; j < 7; j++ ) i &= a.i8[j][k] == b.i8[j][k];
      for ( int j = 0; j < 2; j++ ) n &= a.i32[j][k] == b.i32[j][k];
      for ( int j = 0; j < 2; j++ ) d &= eq( a.d[j][k], b.d[j][k] );
      for ( int j = 0; j < 3; j++ ) u &= a.u16[j][k] == b.u16[j][k];
      for ( int j = 0; j < 3; j++ ) f &= eq( a.f[j][k], b.f[j][k] );
   }
   sym_assert( c, "coordinates come back" );
   sym_assert( i, "flags and returns come back" );
   sym_assert( n, "row and column come back" );
   sym_assert( d, "time and intensity come back" );
   sym_assert( u, "colours come back" );
   sym_assert( f, "normals come back" );
}
// what was allocated by the library's own buffer holder, in the form above
template <class C> static void collect( const Data3DPointsData_t<C> &p, Own<C> &o )
{
   memset( &o, 0, sizeof o );
   Data3DPointsData_t<C> q;
   const C *c[] = { p.cartesianX, p.cartesianY, p.cartesianZ, p.sphericalRange, p.sphericalAzimuth, p.sphericalElevation };
   const int8_t *b[] = { p.cartesianInvalidState, p.sphericalInvalidState, p.returnIndex, p.returnCount, p.isTimeStampInvalid, p.isIntensityInvalid, p.isColorInvalid };
   const int32_t *n[] = { p.rowIndex, p.columnIndex };
   const double *d[] = { p.timeStamp, p.intensity };
   const uint16_t *u[] = { p.colorRed, p.colorGreen, p.colorBlue };
   const float *f[] = { p.normalX, p.normalY, p.normalZ };
   for ( int k = 0; k < 6; k++ )
      if ( c[k] ) memcpy( o.c[k], c[k], sizeof o.c[k] );
   for ( int k = 0; k < 7; k++ )
      if ( b[k] ) memcpy( o.i8[k], b[k], sizeof o.i8[k] );
   for ( int k = 0; k < 2; k++ )
      if ( n[k] ) memcpy( o.i32[k], n[k], sizeof o.i32[k] );
   for ( int k = 0; k < 2; k++ )
      if ( d[k] ) memcpy( o.d[k], d[k], sizeof o.d[k] );
   for ( int k = 0; k < 3; k++ )
      if ( u[k] ) memcpy( o.u16[k], u[k], sizeof o.u16[k] );
   for ( int k = 0; k < 3; k++ )
      if ( f[k] ) memcpy( o.f[k], f[k], sizeof o.f[k] );
}
template <class C> static void supply( Data3DPointsData_t<C> &p, const Own<C> &o )
{
   C *c[] = { p.cartesianX, p.cartesianY, p.cartesianZ, p.sphericalRange, p.sphericalAzimuth, p.sphericalElevation };
   int8_t *b[] = { p.cartesianInvalidState, p.sphericalInvalidState, p.returnIndex, p.returnCount, p.isTimeStampInvalid, p.isIntensityInvalid, p.isColorInvalid };
   int32_t *n[] = { p.rowIndex, p.columnIndex };
   double *d[] = { p.timeStamp, p.intensity };
   uint16_t *u[] = { p.colorRed, p.colorGreen, p.colorBlue };
   float *f[] = { p.normalX, p.normalY, p.normalZ };
   for ( int k = 0; k < 6; k++ )
      if ( c[k] ) memcpy( c[k], o.c[k], sizeof o.c[k] );
   for ( int k = 0; k < 7; k++ )
      if ( b[k] ) memcpy( b[k], o.i8[k], sizeof o.i8[k] );
   for ( int k = 0; k < 2; k++ )
      if ( n[k] ) memcpy( n[k], o.i32[k], sizeof o.i32[k] );
   for ( int k = 0; k < 2; k++ )
      if ( d[k] ) memcpy( d[k], o.d[k], sizeof o.d[k] );
   for ( int k = 0; k < 3; k++ )
      if ( u[k] ) memcpy( u[k], o.u16[k], sizeof o.u16[k] );
   for ( int k = 0; k < 3; k++ )
      if ( f[k] ) memcpy( f[k], o.f[k], sizeof o.f[k] );
}
// limits given by the caller (true) or left to the library
template <class C> static void points( int group, NumericalNodeType type, bool others, bool holder, bool limits )
{
   vf_opaque_numbers = 2;
   Spec s;
   s.type = type;
   for ( int k = 0; k < NFIELD; k++ )
   {
      s.on[k] = others;
      s.any[k] = false;
   }
   int n = 0;
   while ( GROUP[group][n] >= 0 ) n++;
   const unsigned subset = sym_choice( 1u << n, "fields" );
   for ( int k = 0; k < n; k++ )
   {
      s.on[GROUP[group][k]] = subset >> k & 1;
      s.any[GROUP[group][k]] = true;
   }
   sym_assume( others || subset );
   s.one = !limits && type == NumericalNodeType::ScaledInteger;
   s.hot = s.base = 0;
   if ( s.one )
   {
      const unsigned field = sym_choice( n, "field" );
      sym_assume( s.on[GROUP[group][field]] );
      static const int B[] = { 0, 20, -40 };
      s.hot = NFIELD + GROUP[group][field];
      s.base = B[sym_choice( 3, "base" )];
   }
   Data3D h;
   h.guid = "g";
   h.pointCount = NP;
   PointStandardizedFieldsAvailable &p = h.pointFields;
   for ( int k = 0; k < NFIELD; k++ ) *flagOf( p, k ) = s.on[k];
   const bool whole = type == NumericalNodeType::Integer;
   p.pointRangeNodeType = p.angleNodeType = whole ? NumericalNodeType::Double : type;
   p.timeNodeType = p.intensityNodeType = type;
   p.pointRangeScale = p.angleScale = p.timeScale = p.intensityScale = 0.25;
   h.intensityLimits.intensityMinimum = whole ? -128 : -32;
   h.intensityLimits.intensityMaximum = whole ? 127 : 31.75;
   if ( type == NumericalNodeType::Float )
   {
      h.intensityLimits.intensityMinimum = FLOAT_MIN;
      h.intensityLimits.intensityMaximum = FLOAT_MAX;
   }
   if ( type == NumericalNodeType::Double )
   {
      h.intensityLimits.intensityMinimum = DOUBLE_MIN;
      h.intensityLimits.intensityMaximum = DOUBLE_MAX;
   }
   const unsigned top = group == 5 && sym_choice( 2, "deep colours" ) ? 65535 : 255;
   h.colorLimits.colorRedMaximum = h.colorLimits.colorGreenMaximum = h.colorLimits.colorBlueMaximum = top;
   if ( limits )
   {
      p.pointRangeMinimum = p.angleMinimum = p.timeMinimum = whole ? -128 : -32;
      p.pointRangeMaximum = p.angleMaximum = p.timeMaximum = whole ? 127 : 31.75;
   }
   p.returnMaximum = 127;
   if ( group == 2 )
   {
      static const uint32_t M[] = { 0xFFFFFFFF, 0x7FFFFFFF };
      p.rowIndexMaximum = M[sym_choice( 2, "rows" )];
      p.columnIndexMaximum = 0x7FFFFFFF;
   }
   Own<C> in, out;
   fill( in, s, top );
   Data3D b;
   PointStandardizedFieldsAvailable stored;
   QUIETLY( "points accepted", {
      Writer w( "a.e57", WriterOptions{ "file", "" } );
      std::unique_ptr<Data3DPointsData_t<C>> d( holder ? new Data3DPointsData_t<C>( h ) : new Data3DPointsData_t<C>() );
      if ( holder )
         supply( *d, in );
      else
         pointAt( *d, in, s.on );
      if ( limits )
      {
         const int64_t at = w.NewData3D( h );
         CompressedVectorWriter cw = w.SetUpData3DPointsData( at, NP, *d );
         cw.write( NP );
         cw.close();
      }
      else
         w.WriteData3DData( h, *d );
      w.Close();
   } );
   QUIETLY( "points read back", {
      Reader r( "a.e57", {} );
      sym_assert( r.GetData3DCount() == 1, "one scan" );
      sym_assert( r.ReadData3D( 0, b ), "scan found" );
      bool same = b.pointCount == NP;
      for ( int k = 0; k < NFIELD; k++ ) same &= *flagOf( b.pointFields, k ) == s.on[k];
      sym_assert( same, "exactly the enabled fields come back" );
      const PointStandardizedFieldsAvailable &q = b.pointFields;
      if ( s.on[X] | s.on[Y] | s.on[Z] | s.on[RANGE] )
      {
         sym_assert( q.pointRangeNodeType == p.pointRangeNodeType, "type of the coordinates" );
         sym_assert( eq( q.pointRangeMinimum, p.pointRangeMinimum ) & eq( q.pointRangeMaximum, p.pointRangeMaximum ), "limits of the coordinates" );
         if ( type == NumericalNodeType::ScaledInteger ) sym_assert( eq( q.pointRangeScale, 0.25 ), "scale of the coordinates" );
      }
      if ( s.on[AZ] | s.on[EL] )
      {
         sym_assert( q.angleNodeType == p.angleNodeType, "type of the angles" );
         sym_assert( eq( q.angleMinimum, p.angleMinimum ) & eq( q.angleMaximum, p.angleMaximum ), "limits of the angles" );
         if ( type == NumericalNodeType::ScaledInteger ) sym_assert( eq( q.angleScale, 0.25 ), "scale of the angles" );
      }
      if ( s.on[TIME] )
      {
         sym_assert( q.timeNodeType == p.timeNodeType, "type of the time" );
         const bool f = type == NumericalNodeType::Float, g = type == NumericalNodeType::Double;
         const double lo = f ? (double)FLOAT_MIN : g ? DOUBLE_MIN : p.timeMinimum, hi = f ? (double)FLOAT_MAX : g ? DOUBLE_MAX : p.timeMaximum;
         sym_assert( eq( q.timeMinimum, lo ) & eq( q.timeMaximum, hi ), "limits of the time" );
         if ( type == NumericalNodeType::ScaledInteger ) sym_assert( eq( q.timeScale, 0.25 ), "scale of the time" );
      }
      if ( s.on[INTEN] )
      {
         sym_assert( q.intensityNodeType == type, "type of the intensity" );
         sym_assert( eq( b.intensityLimits.intensityMinimum, h.intensityLimits.intensityMinimum ) & eq( b.intensityLimits.intensityMaximum, h.intensityLimits.intensityMaximum ), "limits of the intensity" );
         if ( type == NumericalNodeType::ScaledInteger ) sym_assert( eq( q.intensityScale, 0.25 ), "scale of the intensity" );
      }
      sym_assert( eq( b.colorLimits.colorRedMaximum, (double)top ) & eq( b.colorLimits.colorGreenMaximum, (double)top ) & eq( b.colorLimits.colorBlueMaximum, (double)top ), "limits of the colours" );
      if ( s.on[ROW] ) sym_assert( q.rowIndexMaximum == p.rowIndexMaximum, "largest row" );
      if ( s.on[COL] ) sym_assert( q.columnIndexMaximum == p.columnIndexMaximum, "largest column" );
      if ( s.on[RIDX] | s.on[RCNT] ) sym_assert( q.returnMaximum == p.returnMaximum, "largest return" );
      if ( holder )
      {
         Data3DPointsData_t<C> d( b );
         CompressedVectorReader cr = r.SetUpData3DPointsData( 0, NP, d );
         sym_assert( cr.read() == NP, "all points read" );
         cr.close();
         collect( d, out );
      }
      else
      {
         // buffers offered for every field: those of absent fields stay as they are
         bool all[NFIELD];
         for ( int k = 0; k < NFIELD; k++ ) all[k] = true;
         memset( &out, 0, sizeof out );
         Data3DPointsData_t<C> d;
         pointAt( d, out, all );
         CompressedVectorReader cr = r.SetUpData3DPointsData( 0, NP, d );
         sym_assert( cr.read() == NP, "all points read" );
         cr.close();
      }
      samePoints( in, out );
      r.Close();
   } );
   sym_observe( "range", out.c[3][1] != 0 );
   sym_cover( "points" );
}
// param: group + 10 * type + 100 * (others on) + 1000 * (library's own buffers) + 10000 * (limits left to the library) + 100000 * (double)
HARNESS( p24_points )
{
   const int p = (int)sym_param();
   const NumericalNodeType t = (NumericalNodeType)( p / 10 % 10 );
   if ( p / 100000 )
      points<double>( p % 10, t, p / 100 % 10, p / 1000 % 10, p / 10000 % 10 == 0 );
   else
      points<float>( p % 10, t, p / 100 % 10, p / 1000 % 10, p / 10000 % 10 == 0 );
}

// line groups; two scans of which either may have groups
HARNESS( p24_groups )
{
   vf_opaque_numbers = 2;
   static const unsigned long long POINTS[] = { 1, 2, 1000, 1ull << 40 };
   const unsigned long long total = POINTS[sym_param() % 4];
   const unsigned with = sym_choice( 2, "which" );
   const unsigned n = 1 + sym_choice( 3, "groups" );
   const unsigned byRow = sym_choice( 2, "by row" );
   const unsigned bounds = sym_choice( 2, "bounds" );
   int64_t id[3], start[3], count[3];
   for ( unsigned k = 0; k < n; k++ )
   {
      id[k] = (int64_t)sym_range<uint64_t>( 0, n - 1, "id" );
      start[k] = (int64_t)sym_range<uint64_t>( 0, total - 1, "start" );
      count[k] = (int64_t)sym_range<uint64_t>( 0, total, "count" );
   }
   Data3D h[2];
   QUIETLY( "groups accepted", {
      Writer w( "a.e57", WriterOptions{ "file", "" } );
      for ( unsigned s = 0; s < 2; s++ )
      {
         h[s].guid = s ? "b" : "a";
         h[s].pointFields.cartesianXField = true;
         h[s].pointCount = (size_t)total;
         if ( s == with )
         {
            GroupingByLine &g = h[s].pointGroupingSchemes.groupingByLine;
            g.idElementName = byRow ? "rowIndex" : "columnIndex";
            g.groupsSize = n;
            g.pointCountSize = (int64_t)total;
            if ( bounds )
            {
               h[s].indexBounds.rowMinimum = 5;
               h[s].indexBounds.rowMaximum = 14;
               h[s].indexBounds.columnMinimum = 1;
               h[s].indexBounds.columnMaximum = 1 + s;
            }
         }
         const int64_t at = w.NewData3D( h[s] );
         sym_assert( at == (int64_t)s, "scans counted" );
         float x = 1.5f + s;
         Data3DPointsFloat p;
         p.cartesianX = &x;
         CompressedVectorWriter cw = w.SetUpData3DPointsData( at, 1, p );
         cw.write( 1 );
         cw.close();
      }
      int64_t i[3];
      int64_t b[3];
      int64_t c[3];
      memcpy( i, id, sizeof id );
      memcpy( b, start, sizeof start );
      memcpy( c, count, sizeof count );
      sym_assert( w.WriteData3DGroupsData( with, n, i, b, c ), "groups written" );
      sym_assert( !w.WriteData3DGroupsData( 1 - with, n, i, b, c ), "no groups there" );
      sym_assert( !w.WriteData3DGroupsData( 2, n, i, b, c ), "no scan there" );
      sym_assert( !w.WriteData3DGroupsData( -1, n, i, b, c ), "no scan there" );
      w.Close();
   } );
   QUIETLY( "groups read back", {
      Reader r( "a.e57", {} );
      int64_t row = 7;
      int64_t column = 7;
      int64_t size = 7;
      int64_t groups = 7;
      int64_t largest = 7;
      bool byColumn = true;
      sym_assert( r.GetData3DSizes( with, row, column, size, groups, largest, byColumn ), "sizes" );
      sym_assert( size == 1 && groups == n && largest == (int64_t)total && byColumn == !byRow, "sizes are those written" );
      if ( bounds )
         sym_assert( row == 10 && column == 1 + (int64_t)with, "row and column counts from the bounds" );
      else
         sym_assert( row == ( byRow ? n : (int64_t)total ) && column == ( byRow ? (int64_t)total : n ), "row and column counts from the groups" );
      sym_assert( r.GetData3DSizes( 1 - with, row, column, size, groups, largest, byColumn ), "sizes" );
      sym_assert( size == 1 && groups == 0 && largest == 0 && row == 0 && column == 0 && !byColumn, "no groups" );
      Data3D b;
      sym_assert( r.ReadData3D( with, b ), "scan found" );
      const GroupingByLine &g = b.pointGroupingSchemes.groupingByLine;
      sym_assert( eq( g.idElementName, byRow ? "rowIndex" : "columnIndex" ) && g.groupsSize == n && g.pointCountSize == (int64_t)total, "scheme comes back" );
      sym_assert( b.guid == ( with ? "b" : "a" ), "right scan" );
      int64_t i[3];
      int64_t s[3];
      int64_t c[3];
      memset( i, 0xEE, sizeof i );
      memset( s, 0xEE, sizeof s );
      memset( c, 0xEE, sizeof c );
      sym_assert( !r.ReadData3DGroupsData( 1 - with, n, i, s, c ), "no groups there" );
      const int64_t far = sym<int64_t>( "index" );
      sym_assume( ( far < 0 ) | ( far > 1 ) );
      sym_assert( !r.ReadData3DGroupsData( far, n, i, s, c ), "no scan there" );
      sym_assert( !r.ReadData3D( far, b ), "no scan there" );
      sym_assert( !r.GetData3DSizes( far, row, column, size, groups, largest, byColumn ), "no scan there" );
      bool still = true;
      for ( unsigned k = 0; k < 3; k++ ) still &= ( i[k] == s[k] ) & ( s[k] == c[k] ) & ( (uint64_t)c[k] == 0xEEEEEEEEEEEEEEEEull );
      sym_assert( still, "buffers untouched" );
      // any of the three may be left out
      const unsigned want = 1 + sym_choice( 7, "wanted" );
      sym_assert( r.ReadData3DGroupsData( with, n, want & 1 ? i : nullptr, want & 2 ? s : nullptr, want & 4 ? c : nullptr ), "groups read" );
      bool same = true;
      for ( unsigned k = 0; k < n; k++ )
      {
         if ( want & 1 ) same &= i[k] == id[k];
         if ( want & 2 ) same &= s[k] == start[k];
         if ( want & 4 ) same &= c[k] == count[k];
      }
      sym_assert( same, "groups come back" );
      sym_observe( "count", c[0] );
      r.Close();
   } );
   sym_cover( "groups" );
}
// what belongs to the file as a whole, several scans, and the order of points over several blocks
HARNESS( p24_file )
{
   vf_opaque_numbers = 2;
   const std::string guid = anyText( "guid" );
   std::string meta;
   if ( sym_choice( 2, "metadata" ) ) meta = anyText( "coordinate metadata" );
   const unsigned n = sym_choice( 4, "scans" );
   float x[3][2];
   for ( unsigned s = 0; s < n; s++ )
   {
      x[s][0] = anyFloat( "x" );
      x[s][1] = anyFloat( "x" );
   }
   QUIETLY( "file written", {
      Writer w( "a.e57", WriterOptions{ guid, meta } );
      sym_assert( w.IsOpen(), "open" );
      for ( unsigned s = 0; s < n; s++ )
      {
         Data3D h;
         h.guid = std::string( 1, (char)( 'a' + s ) );
         h.pointFields.cartesianYField = true;
         h.pointCount = 2;
         Data3DPointsFloat d( h );
         memcpy( d.cartesianY, x[s], sizeof x[s] );
         sym_assert( w.WriteData3DData( h, d ) == (int64_t)s, "scans counted" );
      }
      sym_assert( w.Close(), "closed" );
      sym_assert( !w.IsOpen(), "no longer open" );
      sym_assert( !w.Close(), "only once" );
   } );
   QUIETLY( "file read", {
      Reader r( "a.e57", {} );
      E57Root e;
      sym_assert( r.IsOpen() && r.GetE57Root( e ), "root" );
      sym_assert( eq( e.guid, guid ) & eq( e.coordinateMetadata, meta ), "file guid and metadata come back" );
      sym_assert( e.versionMajor == 1 && e.versionMinor == 0 && e.formatName == "ASTM E57 3D Imaging Data File" && !e.e57LibraryVersion.empty(), "format and version" );
      sym_assert( e.data3DSize == n && e.images2DSize == 0 && r.GetData3DCount() == n && r.GetImage2DCount() == 0, "counts" );
      for ( unsigned s = 0; s < n; s++ )
      {
         Data3D h;
         sym_assert( r.ReadData3D( s, h ), "scan found" );
         sym_assert( h.guid == std::string( 1, (char)( 'a' + s ) ), "scans in order" );
         float a = 0;
         Data3DPointsFloat d;
         d.cartesianY = &a;
         CompressedVectorReader cr = r.SetUpData3DPointsData( s, 1, d );
         for ( int k = 0; k < 2; k++ )
         {
            sym_assert( cr.read() == 1, "point by point" );
            sym_assert( eq( a, x[s][k] ), "points in order" );
         }
         sym_assert( cr.read() == 0, "no more points" );
         cr.close();
      }
      sym_assert( r.Close(), "closed" );
      sym_assert( !r.IsOpen(), "no longer open" );
      Data3D h;
      sym_assert( !r.GetE57Root( e ) && !r.ReadData3D( 0, h ) && !r.Close(), "nothing from a closed file" );
   } );
   sym_observe( "scans", n );
   sym_cover( "file" );
}
