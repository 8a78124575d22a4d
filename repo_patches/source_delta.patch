From 79bd0d0f4fa085b5553a338adb8783297b6e1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:42 +0000
Subject: [PATCH 01/33] fix: write a readable data packet when a compressed
 vector has no stream data

A zero-record write() mixed with real writes, or a vector whose fields are all
constant, produced a data packet with no bytestreams. Such a vector could not be
read back. The empty packet is now written once at close, and only if needed.
---
 src/CompressedVectorWriterImpl.cpp | 23 +++++++++++++++--------
 src/CompressedVectorWriterImpl.h   |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 7099adf..8151062 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -25,6 +25,7 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <numeric>
 
@@ -183,6 +184,12 @@ namespace e57
          flush();
       }
 
+      // The section needs a data packet even if there were no records or all fields are constant.
+      if ( dataPacketsCount_ == 0 )
+      {
+         packetWriteNoData();
+      }
+
       // Write one index packet (required by standard).
       packetWriteIndex();
 
@@ -292,7 +299,6 @@ namespace e57
 
       if ( requestedRecordCount == 0 )
       {
-         packetWriteZeroRecords();
          return;
       }
 
@@ -616,9 +622,9 @@ namespace e57
       return ( packetPhysicalOffset ); //??? needed
    }
 
-   // If we don't have any records, write a packet which is only the header + zero padding.
+   // If the bytestreams produced no data, write a packet whose bytestream buffers are all empty.
    // Code is a simplified version of packetWrite().
-   void CompressedVectorWriterImpl::packetWriteZeroRecords()
+   void CompressedVectorWriterImpl::packetWriteNoData()
    {
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
 
@@ -627,19 +633,20 @@ namespace e57
       // Use temp buf in object (is 64KBytes long) instead of allocating each time here
       char *packet = reinterpret_cast<char *>( &dataPacket_ );
 
-      auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) );
+      // Set the length of each bytestream buffer to zero
+      auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) +
+                                                     bytestreams_.size() * sizeof( uint16_t ) );
+      std::fill( &packet[sizeof( DataPacketHeader )], &packet[packetLength], 0 );
 
       // packetLength must be multiple of 4, add zero padding
-      auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );
       while ( packetLength % 4 )
       {
-         *data++ = 0;
-
-         packetLength++;
+         packet[packetLength++] = 0;
       }
 
       // Prepare header in dataPacket_, now that we are sure of packetLength
       dataPacket_.header.packetLogicalLengthMinus1 = static_cast<uint16_t>( packetLength - 1 );
+      dataPacket_.header.bytestreamCount = static_cast<uint16_t>( bytestreams_.size() );
 
       // Double check that data packet is well formed
       dataPacket_.verify( packetLength );
diff --git a/src/CompressedVectorWriterImpl.h b/src/CompressedVectorWriterImpl.h
index 5596267..6e20ace 100644
--- a/src/CompressedVectorWriterImpl.h
+++ b/src/CompressedVectorWriterImpl.h
@@ -57,7 +57,7 @@ namespace e57
       size_t totalOutputAvailable() const;
       size_t currentPacketSize() const;
       uint64_t packetWrite();
-      void packetWriteZeroRecords();
+      void packetWriteNoData();
       void packetWriteIndex();
 
       void flush();
-- 
2.43.0


From d18e47c16ae8146f09683bcca520a1e98847daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:06 +0000
Subject: [PATCH 02/33] fix: refuse or convert buffer values correctly between
 number types

Reading into a bool buffer delivered the inverted value. Not-a-number and values
just above the integer range passed the range checks and were cast anyway. Values
too large for single precision became infinite instead of being refused.
---
 src/SourceDestBufferImpl.cpp | 65 +++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 9da1777..c7adff8 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -152,9 +152,8 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...  (all other ints below
-         // too)
-         if ( inValue < INT8_MIN || INT8_MAX < inValue )
+         // Special values (NaN, infinities) are not representable (all other ints below too)
+         if ( !( inValue >= INT8_MIN && inValue <= INT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -166,7 +165,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT8_MIN || UINT8_MAX < inValue )
+         if ( !( inValue >= UINT8_MIN && inValue <= UINT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -178,7 +177,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT16_MIN || INT16_MAX < inValue )
+         if ( !( inValue >= INT16_MIN && inValue <= INT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -190,7 +189,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT16_MIN || UINT16_MAX < inValue )
+         if ( !( inValue >= UINT16_MIN && inValue <= UINT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -202,7 +201,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT32_MIN || ( inValue > static_cast<T>( INT32_MAX ) ) )
+         if ( !( inValue >= INT32_MIN && inValue < 2147483648.0F ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -214,7 +213,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT32_MIN || ( inValue > ( static_cast<T>( UINT32_MAX ) ) ) )
+         if ( !( inValue >= UINT32_MIN && inValue < 4294967296.0F ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -226,7 +225,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )
+         if ( !( inValue >= INT64_MIN && inValue < 9223372036854775808.0F ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -238,7 +237,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         *reinterpret_cast<bool *>( p ) = ( inValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( inValue ? true : false );
          break;
       case Real32:
          if ( std::is_same<T, double>::value )
@@ -246,7 +245,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
             /// Does this count as conversion?  It loses information.
             /// Check for really large exponents that can't fit in a single
             /// precision
-            if ( inValue < DOUBLE_MIN || DOUBLE_MAX < inValue )
+            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )
             {
                throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                      "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -364,7 +363,13 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !( *reinterpret_cast<float *>( p ) >= INT64_MIN &&
+                 *reinterpret_cast<float *>( p ) < 9223372036854775808.0F ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ + " value=" +
+                                     toString( *reinterpret_cast<float *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<float *>( p ) );
          break;
       case Real64:
@@ -372,7 +377,13 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !( *reinterpret_cast<double *>( p ) >= INT64_MIN &&
+                 *reinterpret_cast<double *>( p ) < 9223372036854775808.0 ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ + " value=" +
+                                     toString( *reinterpret_cast<double *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<double *>( p ) );
          break;
       case UString:
@@ -492,7 +503,7 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
    }
 
    /// Make sure that value is representable in an int64_t
-   if ( doubleRawValue < INT64_MIN || ( doubleRawValue > ( static_cast<double>( INT64_MAX ) ) ) )
+   if ( !( doubleRawValue >= INT64_MIN && doubleRawValue < 9223372036854775808.0 ) )
    {
       throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                             "pathName=" + pathName_ + " value=" + toString( doubleRawValue ) );
@@ -588,7 +599,7 @@ float SourceDestBufferImpl::getNextFloat()
          double d = *reinterpret_cast<double *>( p );
 
          ///??? silently limit here?
-         if ( d < DOUBLE_MIN || DOUBLE_MAX < d )
+         if ( d < FLOAT_MIN || FLOAT_MAX < d )
          {
             throw E57_EXCEPTION2( ErrorReal64TooLarge,
                                   "pathName=" + pathName_ + " value=" + toString( d ) );
@@ -781,7 +792,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value )
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( value );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( value ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( value ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -851,7 +862,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
    switch ( memoryRepresentation_ )
    {
       case Int8:
-         if ( scaledValue < INT8_MIN || INT8_MAX < scaledValue )
+         if ( !( scaledValue >= INT8_MIN && scaledValue <= INT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -860,7 +871,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int8_t *>( p ) = static_cast<int8_t>( scaledValue );
          break;
       case UInt8:
-         if ( scaledValue < UINT8_MIN || UINT8_MAX < scaledValue )
+         if ( !( scaledValue >= UINT8_MIN && scaledValue <= UINT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -869,7 +880,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint8_t *>( p ) = static_cast<uint8_t>( scaledValue );
          break;
       case Int16:
-         if ( scaledValue < INT16_MIN || INT16_MAX < scaledValue )
+         if ( !( scaledValue >= INT16_MIN && scaledValue <= INT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -878,7 +889,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int16_t *>( p ) = static_cast<int16_t>( scaledValue );
          break;
       case UInt16:
-         if ( scaledValue < UINT16_MIN || UINT16_MAX < scaledValue )
+         if ( !( scaledValue >= UINT16_MIN && scaledValue <= UINT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -887,7 +898,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint16_t *>( p ) = static_cast<uint16_t>( scaledValue );
          break;
       case Int32:
-         if ( scaledValue < INT32_MIN || INT32_MAX < scaledValue )
+         if ( !( scaledValue >= INT32_MIN && scaledValue <= INT32_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -896,7 +907,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int32_t *>( p ) = static_cast<int32_t>( scaledValue );
          break;
       case UInt32:
-         if ( scaledValue < UINT32_MIN || UINT32_MAX < scaledValue )
+         if ( !( scaledValue >= UINT32_MIN && scaledValue <= UINT32_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -905,10 +916,16 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( scaledValue );
          break;
       case Int64:
+         if ( !( scaledValue >= INT64_MIN && scaledValue < 9223372036854775808.0 ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( scaledValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( scaledValue ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -917,7 +934,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          }
          /// Check that exponent of result is not too big for single precision
          /// float
-         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         if ( scaledValue < FLOAT_MIN || FLOAT_MAX < scaledValue )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
-- 
2.43.0


From b3c32a42d2cffdbc1757baefa9d6bad8db182077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:06 +0000
Subject: [PATCH 03/33] fix: honour scaling when writing a scaled integer field
 whose bounds pin one value

---
 src/Encoder.cpp | 15 +++++++++------
 src/Encoder.h   |  7 ++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index e0c403f..f5d07e8 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -83,7 +83,7 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum() ) );
+               new ConstantIntegerEncoder( false, bytestreamNumber, sbuf, ini->minimum(), 1.0, 0.0 ) );
 
             return encoder;
          }
@@ -138,7 +138,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, sini->minimum() ) );
+               new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->minimum(),
+                                           sini->scale(), sini->offset() ) );
 
             return encoder;
          }
@@ -893,10 +894,11 @@ void BitpackIntegerEncoder<RegisterT>::dump( int indent, std::ostream &os ) cons
 
 //================================================================
 
-ConstantIntegerEncoder::ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf,
-                                                int64_t minimum ) :
+ConstantIntegerEncoder::ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                                                SourceDestBuffer &sbuf, int64_t minimum,
+                                                double scale, double offset ) :
    Encoder( bytestreamNumber ), sourceBuffer_( sbuf.impl() ), currentRecordIndex_( 0 ),
-   minimum_( minimum )
+   isScaledInteger_( isScaledInteger ), minimum_( minimum ), scale_( scale ), offset_( offset )
 {
 }
 
@@ -911,7 +913,8 @@ uint64_t ConstantIntegerEncoder::processRecords( size_t recordCount )
    // Check that all source values are == minimum_
    for ( unsigned i = 0; i < recordCount; i++ )
    {
-      int64_t nextInt64 = sourceBuffer_->getNextInt64();
+      int64_t nextInt64 = isScaledInteger_ ? sourceBuffer_->getNextInt64( scale_, offset_ )
+                                           : sourceBuffer_->getNextInt64();
       if ( nextInt64 != minimum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "nextInt64=" + toString( nextInt64 ) +
diff --git a/src/Encoder.h b/src/Encoder.h
index 5806f6a..9f2ece6 100644
--- a/src/Encoder.h
+++ b/src/Encoder.h
@@ -176,7 +176,9 @@ namespace e57
    class ConstantIntegerEncoder : public Encoder
    {
    public:
-      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum );
+      ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                              SourceDestBuffer &sbuf, int64_t minimum, double scale,
+                              double offset );
       uint64_t processRecords( size_t recordCount ) override;
       unsigned sourceBufferNextIndex() override;
       uint64_t currentRecordIndex() override;
@@ -198,6 +200,9 @@ namespace e57
    protected:
       std::shared_ptr<SourceDestBufferImpl> sourceBuffer_;
       uint64_t currentRecordIndex_;
+      bool isScaledInteger_;
       int64_t minimum_;
+      double scale_;
+      double offset_;
    };
 }
-- 
2.43.0


From 804a2657186e3b80fdc33e1e633d0a7e51b47ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:03 +0000
Subject: [PATCH 04/33] fix: stop decoding strings when the destination buffer
 is full

---
 src/Decoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 2024cfe..855c1a9 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -512,9 +512,10 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
    size_t nBytesAvailable = ( endBit - firstBit ) >> 3;
    size_t nBytesRead = 0;
 
-   // Loop until we've finished all the records, or ran out of input currently
+   // Loop until we've finished all the records, filled destBuffer, or ran out of input currently
    // available
-   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable )
+   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable &&
+           destBuffer_->nextIndex() < destBuffer_->capacity() )
    {
 #ifdef E57_VERBOSE
       std::cout << "read string loop1: readingPrefix=" << readingPrefix_
-- 
2.43.0


From b7dfa13a3fb3657b6e1314678d08886d0056b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:21 +0000
Subject: [PATCH 05/33] fix: allow padding up to the end of a full data packet

---
 src/CompressedVectorWriterImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 8151062..2222df4 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -571,7 +571,7 @@ namespace e57
       {
          // Double check we aren't accidentally going to write off end of
          // vector<char>
-         if ( p >= &packet[DATA_PACKET_MAX - 1] )
+         if ( p >= &packet[DATA_PACKET_MAX] )
          {
             throw E57_EXCEPTION1( ErrorInternal );
          }
-- 
2.43.0


From c37b3bb2008694abe4376e25a2095bed080eb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:34 +0000
Subject: [PATCH 06/33] fix: use new buffers passed to a reader or writer
 between calls

---
 src/CompressedVectorReaderImpl.cpp | 10 ++++++++++
 src/CompressedVectorWriterImpl.cpp | 16 ++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 21eed23..a69446f 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -220,6 +220,16 @@ namespace e57
       }
 
       dbufs_ = dbufs;
+
+      // If already have channels (i.e. these are new buffers), make them use the new buffers
+      for ( size_t i = 0; i < channels_.size(); i++ )
+      {
+         std::vector<SourceDestBuffer> theDbuf;
+         theDbuf.push_back( dbufs_.at( i ) );
+
+         channels_[i].dbuf = dbufs_.at( i );
+         channels_[i].decoder->destBufferSetNew( theDbuf );
+      }
    }
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 2222df4..a8cee94 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -277,6 +277,22 @@ namespace e57
       proto_->checkBuffers( sbufs, false );
 
       sbufs_ = sbufs;
+
+      // If already have encoders (i.e. these are new buffers), make them use the new buffers.
+      // Encoders are ordered by bytestream number, not by order of sbufs.
+      for ( size_t i = 0; i < bytestreams_.size(); ++i )
+      {
+         std::vector<SourceDestBuffer> vTemp;
+         vTemp.push_back( sbufs_.at( i ) );
+
+         uint64_t bytestreamNumber = 0;
+         if ( !proto_->findTerminalPosition( proto_->get( sbufs_.at( i ).pathName() ),
+                                             bytestreamNumber ) )
+         {
+            throw E57_EXCEPTION2( ErrorInternal, "sbufIndex=" + toString( i ) );
+         }
+         bytestreams_.at( bytestreamNumber )->sourceBufferSetNew( vTemp );
+      }
    }
 
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
-- 
2.43.0


From e2c94e2fed99cfe16645b3d087b2c6e350d59d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:29 +0000
Subject: [PATCH 07/33] fix: refuse blob ranges whose start or end does not fit
 the blob

---
 src/BlobNodeImpl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 12ba879..301370f 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -123,10 +123,9 @@ namespace e57
 
    void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
-
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
@@ -142,7 +141,6 @@ namespace e57
 
    void BlobNodeImpl::write( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       ImageFileImplSharedPtr destImageFile( destImageFile_ );
@@ -156,7 +154,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 6eda9c098d05834a795d8d97b5a690895820d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:06 +0000
Subject: [PATCH 08/33] fix: report short writes of a page

---
 src/CheckedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 84222fc..198a7ac 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -821,7 +821,7 @@ void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )
 #error "no supported compiler defined"
 #endif
 
-   if ( result < 0 )
+   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )
    {
       throw E57_EXCEPTION2( ErrorWriteFailed,
                             "fileName=" + fileName_ + " result=" + toString( result ) );
-- 
2.43.0


From dbf30fb255f5526301f4262e082fa9b19eea2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:08 +0000
Subject: [PATCH 09/33] fix: count a reader or writer as closed only once

---
 src/CompressedVectorReaderImpl.cpp | 10 ++++------
 src/CompressedVectorWriterImpl.cpp |  9 +++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index a69446f..e45076f 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -575,18 +575,16 @@ namespace e57
 
    void CompressedVectorReaderImpl::close()
    {
-      // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-
       // No error if reader not open
       if ( !isOpen_ )
       {
          return;
       }
 
+      // Before anything that can throw, decrement reader count
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      imf->decrReaderCount();
+
       // Destroy decoders
       channels_.clear();
 
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index a8cee94..f3df644 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -158,10 +158,6 @@ namespace e57
 #endif
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
 
-      // Before anything that can throw, decrement writer count
-      imf->decrWriterCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
 
       if ( !isOpen_ )
@@ -173,6 +169,11 @@ namespace e57
       // try to close again.
       isOpen_ = false;
 
+      // Before anything that can throw, decrement writer count
+      imf->decrWriterCount();
+
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
       // If have any data, write packet
       // Write all remaining ioBuffers and internal encoder register cache into
       // file. Know we are done when totalOutputAvailable() returns 0 after a
-- 
2.43.0


From 21ec8c0278f0b0512290daa7d1856d0de04699b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:11 +0000
Subject: [PATCH 10/33] fix: refuse to use a reader or writer after its file
 was closed

---
 src/CompressedVectorReaderImpl.cpp | 5 +----
 src/CompressedVectorWriterImpl.cpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index e45076f..0e727b2 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -597,10 +597,7 @@ namespace e57
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorReaderImpl::checkReaderOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index f3df644..f073d43 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -721,10 +721,7 @@ namespace e57
    void CompressedVectorWriterImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorWriterImpl::checkWriterOpen( const char *srcFileName, int srcLineNumber,
-- 
2.43.0


From 676ff82cb57e880f1c4960e59f4a250ec75f0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:18 +0000
Subject: [PATCH 11/33] fix: refuse to write the records of a compressed vector
 twice

---
 src/CompressedVectorNodeImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 63ae31c..a957b24 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -304,6 +304,13 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
+      // Records can only be written once
+      if ( recordCount_ > 0 )
+      {
+         throw E57_EXCEPTION2( ErrorSetTwice, "this->pathName=" + this->pathName() +
+                                                 " recordCount=" + toString( recordCount_ ) );
+      }
+
       // Get pointer to me (really shared_ptr<CompressedVectorNodeImpl>)
       NodeImplSharedPtr ni( shared_from_this() );
 
-- 
2.43.0


From c46246f52b01cd085b23699303c8ab61c7a0b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:54 +0000
Subject: [PATCH 12/33] fix: refuse negative blob lengths and record counts
 when opening a file

---
 src/E57XmlParser.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 101f470..fe452cf 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -537,6 +537,15 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 
       pi.length = convertStrToLL( length_str );
 
+      if ( pi.length < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadXMLFormat, "fileName=" + imf_->fileName() + " uri=" +
+                                                     toUString( uri ) + " localName=" +
+                                                     toUString( localName ) + " qName=" +
+                                                     toUString( qName ) + " length=" +
+                                                     length_str );
+      }
+
       stack_.push( pi );
    }
    else if ( node_type == "Structure" )
@@ -660,6 +669,15 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 
       pi.recordCount = convertStrToLL( recordCount_str );
 
+      if ( pi.recordCount < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadXMLFormat, "fileName=" + imf_->fileName() + " uri=" +
+                                                     toUString( uri ) + " localName=" +
+                                                     toUString( localName ) + " qName=" +
+                                                     toUString( qName ) + " recordCount=" +
+                                                     recordCount_str );
+      }
+
       // Create container now, so can hold children
       std::shared_ptr<CompressedVectorNodeImpl> cv_ni( new CompressedVectorNodeImpl( imf_ ) );
       cv_ni->setRecordCount( pi.recordCount );
-- 
2.43.0


From bc023d4e54058b22e49ecfd7776f0b992d58214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:09 +0000
Subject: [PATCH 13/33] fix: refuse to add a node below itself

---
 src/NodeImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 12c69c4..7f978c7 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -175,6 +175,14 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
                                " newParent->pathName=" + parent->pathName() );
    }
 
+   // A node can't become a child of itself or of one of its descendants
+   if ( parent->getRoot() == shared_from_this() )
+   {
+      throw E57_EXCEPTION2( ErrorAlreadyHasParent,
+                            "this->pathName=" + this->pathName() +
+                               " newParent->pathName=" + parent->pathName() );
+   }
+
    parent_ = parent;
    elementName_ = elementName;
 
-- 
2.43.0


From 7c14196ab67a4f8131a520e02cacacdc3b4d624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:16 +0000
Subject: [PATCH 14/33] fix: refuse to add a node of another file by path name

---
 src/StructureNodeImpl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e64f7e9..95c7430 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -331,6 +331,16 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
+      // Verify that child is destined for same ImageFile as this is
+      ImageFileImplSharedPtr thisDest( destImageFile() );
+      ImageFileImplSharedPtr niDest( ni->destImageFile() );
+      if ( thisDest != niDest )
+      {
+         throw E57_EXCEPTION2( ErrorDifferentDestImageFile,
+                               "this->destImageFile" + thisDest->fileName() +
+                                  " ni->destImageFile" + niDest->fileName() );
+      }
+
       // At bottom, so append node at end of children
       ni->setParent( shared_from_this(), fields.at( level ) );
       children_.push_back( ni );
-- 
2.43.0


From 3a68e4426419d1b24a20044e696a4c6713d509b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:22 +0000
Subject: [PATCH 15/33] fix: apply the rules of vectors to children added by
 path name

---
 src/StructureNodeImpl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 95c7430..8c86a6b 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -328,6 +328,18 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
       throw E57_EXCEPTION2( ErrorHomogeneousViolation, "this->pathName=" + this->pathName() );
    }
 
+   // A new child of a vector must be named by the next index, and obeys the vector's own rules
+   if ( type() == TypeVector )
+   {
+      if ( level != fields.size() - 1 || fields.at( level ) != toString( children_.size() ) )
+      {
+         throw E57_EXCEPTION2( ErrorPathUndefined, "this->pathName=" + this->pathName() +
+                                                      " field=" + fields.at( level ) );
+      }
+      set( static_cast<int64_t>( children_.size() ), ni );
+      return;
+   }
+
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
-- 
2.43.0


From c47ebafdc094f82c136a9050ac87d7e84f3ca89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:28 +0000
Subject: [PATCH 16/33] fix: refuse path names ending in a slash

---
 src/ImageFileImpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 0187868..6677eda 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -606,11 +606,10 @@ namespace e57
             break;
          }
 
-         // Handle case when pathname ends in /, e.g. "/foo/", add empty field at end of list
+         // Element name after a trailing / would be empty, e.g. "/foo/"
          if ( slash == pathName.size() - 1 )
          {
-            fields.emplace_back( "" );
-            break;
+            throw E57_EXCEPTION2( ErrorPathNameEmpty, "pathName=" + pathName );
          }
 
          // Skip over the slash and keep going
-- 
2.43.0


From 461dca801bda54fdafebb143d761191c0c20ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:35 +0000
Subject: [PATCH 17/33] fix: refuse element names whose part after the prefix
 is no name

---
 src/ImageFileImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 6677eda..9f5626c 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -748,6 +748,13 @@ namespace e57
                                                              " prefix=" + prefix +
                                                              " localPart=" + localPart );
          }
+
+         // Local part must also begin like a name
+         c = localPart[0];
+         if ( ( '0' <= c && c <= '9' ) || c == '-' || c == '.' )
+         {
+            throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName );
+         }
       }
       else
       {
-- 
2.43.0


From a5abca54e2514c368d433f71695efc500376d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:22 +0000
Subject: [PATCH 18/33] fix: keep carriage returns of string values

---
 src/StringNodeImpl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 8a2fd29..6ddb66a 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -112,6 +112,17 @@ namespace e57
          while ( currentPosition < len )
          {
             size_t found = value_.find( "]]>", currentPosition );
+            const size_t carriageReturn = value_.find( '\r', currentPosition );
+
+            if ( carriageReturn < found )
+            {
+               // XML parsers turn a literal carriage return into a newline, so it must be written as
+               // a character reference, which isn't recognized inside a CDATA.
+               cf << value_.substr( currentPosition, carriageReturn - currentPosition );
+               cf << "]]>&#13;<![CDATA[";
+               currentPosition = carriageReturn + 1;
+               continue;
+            }
 
             if ( found == std::string::npos )
             {
-- 
2.43.0


From 22ee2015f90a75834a80369fdd9674528ed06da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:29 +0000
Subject: [PATCH 19/33] fix: write and read single precision numbers exactly

---
 src/CheckedFile.cpp  |  4 ++--
 src/E57XmlParser.cpp | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 198a7ac..56fb1eb 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -478,8 +478,8 @@ CheckedFile &CheckedFile::operator<<( uint64_t i )
 
 CheckedFile &CheckedFile::operator<<( float f )
 {
-   //??? is 7 digits right number?
-   return writeFloatingPoint( f, 7 );
+   // 9 significant digits identify every float
+   return writeFloatingPoint( f, 8 );
 }
 
 CheckedFile &CheckedFile::operator<<( double d )
diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index fe452cf..326b7c1 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -475,6 +475,10 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       {
          ustring minimum_str = lookupAttribute( attributes, att_minimum );
          pi.floatMinimum = strToDouble( minimum_str ); //??? use exact rounding library
+         if ( pi.precision == PrecisionSingle )
+         {
+            pi.floatMinimum = static_cast<float>( pi.floatMinimum );
+         }
       }
       else
       {
@@ -493,6 +497,10 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       {
          ustring maximum_str = lookupAttribute( attributes, att_maximum );
          pi.floatMaximum = strToDouble( maximum_str ); //??? use exact rounding library
+         if ( pi.precision == PrecisionSingle )
+         {
+            pi.floatMaximum = static_cast<float>( pi.floatMaximum );
+         }
       }
       else
       {
@@ -784,6 +792,10 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          if ( pi.childText.length() > 0 )
          {
             floatValue = strToDouble( pi.childText );
+            if ( pi.precision == PrecisionSingle )
+            {
+               floatValue = static_cast<float>( floatValue );
+            }
             foundValue = true;
          }
 
-- 
2.43.0


From 6efc23dbf5d44549d61afa6c3aad453a90b61d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:36 +0000
Subject: [PATCH 20/33] fix: write and read NaN and infinite numbers

---
 src/StringFunctions.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/StringFunctions.cpp b/src/StringFunctions.cpp
index 056a4aa..9ad6800 100644
--- a/src/StringFunctions.cpp
+++ b/src/StringFunctions.cpp
@@ -1,6 +1,8 @@
 #include "StringFunctions.h"
 
 #include <cassert>
+#include <cmath>
+#include <limits>
 #include <locale>
 
 namespace e57
@@ -9,6 +11,16 @@ namespace e57
    {
       static_assert( std::is_floating_point<FTYPE>::value, "Floating point type required." );
 
+      // Written as defined by XML Schema for xsd:double
+      if ( std::isnan( value ) )
+      {
+         return "NaN";
+      }
+      if ( std::isinf( value ) )
+      {
+         return value < 0 ? "-INF" : "INF";
+      }
+
       std::stringstream ss;
       ss.imbue( std::locale::classic() );
 
@@ -63,6 +75,19 @@ namespace e57
 
    double strToDouble( const std::string &inStr )
    {
+      if ( inStr == "NaN" )
+      {
+         return std::numeric_limits<double>::quiet_NaN();
+      }
+      if ( inStr == "INF" )
+      {
+         return std::numeric_limits<double>::infinity();
+      }
+      if ( inStr == "-INF" )
+      {
+         return -std::numeric_limits<double>::infinity();
+      }
+
       std::istringstream iss{ inStr };
       iss.imbue( std::locale::classic() );
       double res = 0.;
-- 
2.43.0


From 03f5b0d048f51d729a9e3bc5475ad02deacbf3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:55 +0000
Subject: [PATCH 21/33] fix: write integers independently of the global locale

---
 src/CheckedFile.cpp       | 2 ++
 src/StringFunctions.h     | 2 ++
 src/StructureNodeImpl.cpp | 5 ++---
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 56fb1eb..ffabc5c 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -465,6 +465,7 @@ CheckedFile &CheckedFile::operator<<( const ustring &s )
 CheckedFile &CheckedFile::operator<<( int64_t i )
 {
    std::stringstream ss;
+   ss.imbue( std::locale::classic() );
    ss << i;
    return ( *this << ss.str() );
 }
@@ -472,6 +473,7 @@ CheckedFile &CheckedFile::operator<<( int64_t i )
 CheckedFile &CheckedFile::operator<<( uint64_t i )
 {
    std::stringstream ss;
+   ss.imbue( std::locale::classic() );
    ss << i;
    return ( *this << ss.str() );
 }
diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index b40b119..a932978 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -30,6 +30,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <string>
 
@@ -49,6 +50,7 @@ namespace e57
                      "Numeric type required." );
 
       std::ostringstream ss;
+      ss.imbue( std::locale::classic() );
       ss << x;
       return ss.str();
    }
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 8c86a6b..4eba312 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -236,8 +236,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
    }
 
    // Field name is string version of index value, e.g. "14"
-   std::stringstream elementName;
-   elementName << index;
+   const ustring elementName = toString( index );
 
    // If this struct is type constrained, can't add new child
    if ( isTypeConstrained() )
@@ -245,7 +244,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
       throw E57_EXCEPTION2( ErrorHomogeneousViolation, "this->pathName=" + this->pathName() );
    }
 
-   ni->setParent( shared_from_this(), elementName.str() );
+   ni->setParent( shared_from_this(), elementName );
    children_.push_back( ni );
 }
 
-- 
2.43.0


From 4bd0b886465479037b542c9434f94e7ff4d8f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:02 +0000
Subject: [PATCH 22/33] fix: treat only the outermost element as the root of
 the file

---
 src/E57XmlParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 326b7c1..b7f5fe3 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -564,7 +564,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       pi.nodeType = TypeStructure;
 
       // Read name space decls, if e57Root element
-      if ( toUString( localName ) == "e57Root" )
+      if ( stack_.empty() && toUString( localName ) == "e57Root" )
       {
          // Search attributes for namespace declarations (only allowed in E57Root structure)
          bool gotDefault = false;
-- 
2.43.0


From 6f7ee6b8e632a3709dbe079a59000ee0a58cfc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:09 +0000
Subject: [PATCH 23/33] fix: escape extension URIs in the XML section

---
 src/StructureNodeImpl.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 4eba312..ac503e6 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -398,6 +398,31 @@ void StructureNodeImpl::checkLeavesInSet( const StringSet &pathNames, NodeImplSh
    }
 }
 
+// Replace the characters which can't appear literally in a double-quoted XML attribute value
+static ustring escapeAttribute( const ustring &value )
+{
+   ustring escaped;
+   for ( const char c : value )
+   {
+      switch ( c )
+      {
+         case '&':
+            escaped += "&amp;";
+            break;
+         case '<':
+            escaped += "&lt;";
+            break;
+         case '"':
+            escaped += "&quot;";
+            break;
+         default:
+            escaped += c;
+            break;
+      }
+   }
+   return escaped;
+}
+
 //??? use visitor?
 void StructureNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, int indent,
                                   const char *forcedFieldName )
@@ -441,7 +466,7 @@ void StructureNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, i
 
          cf << "\n"
             << space( numSpaces ) << xmlnsExtension << imf->extensionsPrefix( index ) << "=\""
-            << imf->extensionsUri( index ) << "\"";
+            << escapeAttribute( imf->extensionsUri( index ) ) << "\"";
       }
 
       // If user didn't explicitly declare a default namespace, use the current E57 standard one.
-- 
2.43.0


From 767bad90d2908240207b0dcc5eb00afe4e56676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:25 +0000
Subject: [PATCH 24/33] fix: mark only the root of the file as attached while
 parsing

---
 src/E57XmlParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index b7f5fe3..03c776e 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -610,7 +610,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 
       // After have Structure, check again if E57Root, if so mark attached so all children will be
       // attached when added
-      if ( toUString( localName ) == "e57Root" )
+      if ( stack_.empty() && toUString( localName ) == "e57Root" )
       {
          s_ni->setAttachedRecursive();
       }
-- 
2.43.0


From e462d5f97649433e134eefb8337b9ac96826725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:22 +0000
Subject: [PATCH 25/33] fix: store scan bounds and colour limits when any of
 them is set

---
 src/WriterImpl.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index e6f4914..f4b160b 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -699,8 +699,7 @@ namespace e57
          scan.set( "intensityLimits", intbox );
       }
 
-      if ( ( data3DHeader.colorLimits.colorRedMaximum != 0.0 ) ||
-           ( data3DHeader.colorLimits.colorRedMinimum != 0.0 ) )
+      if ( data3DHeader.colorLimits != ColorLimits{} )
       {
          StructureNode colorbox( imf_ );
 
@@ -728,8 +727,7 @@ namespace e57
 
       // Add Cartesian bounding box to scan.
       // Path names: "/data3D/0/cartesianBounds/xMinimum", etc...
-      if ( ( data3DHeader.cartesianBounds.xMinimum != -DOUBLE_MAX ) ||
-           ( data3DHeader.cartesianBounds.xMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.cartesianBounds != CartesianBounds{} )
       {
          StructureNode bbox( imf_ );
 
@@ -743,8 +741,7 @@ namespace e57
          scan.set( "cartesianBounds", bbox );
       }
 
-      if ( ( data3DHeader.sphericalBounds.rangeMinimum != 0.0 ) ||
-           ( data3DHeader.sphericalBounds.rangeMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.sphericalBounds != SphericalBounds{} )
       {
          StructureNode sbox( imf_ );
 
-- 
2.43.0


From 798d90498145ff5e337dac28496114402abd0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:40 +0000
Subject: [PATCH 26/33] fix: store acquisition times before the epoch and
 atomic clock flags

---
 src/WriterImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index f4b160b..0e1716f 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -241,7 +241,7 @@ namespace e57
                     StringNode( imf_, image2DHeader.associatedData3DGuid ) );
       }
 
-      if ( image2DHeader.acquisitionDateTime.dateTimeValue > 0.0 )
+      if ( image2DHeader.acquisitionDateTime != DateTime{} )
       {
          StructureNode acquisitionDateTime( imf_ );
 
@@ -783,7 +783,7 @@ namespace e57
       // Add start/stop acquisition times to scan.
       // Path names: "/data3D/0/acquisitionStart/dateTimeValue",
       //             "/data3D/0/acquisitionEnd/dateTimeValue"
-      if ( data3DHeader.acquisitionStart.dateTimeValue > 0.0 )
+      if ( data3DHeader.acquisitionStart != DateTime{} )
       {
          StructureNode acquisitionStart( imf_ );
 
@@ -795,7 +795,7 @@ namespace e57
 
          scan.set( "acquisitionStart", acquisitionStart );
       }
-      if ( data3DHeader.acquisitionEnd.dateTimeValue > 0.0 )
+      if ( data3DHeader.acquisitionEnd != DateTime{} )
       {
          StructureNode acquisitionEnd( imf_ );
 
-- 
2.43.0


From c71c9d6ca6542797fb7f03497d395b88099c5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:18 +0000
Subject: [PATCH 27/33] fix: report point limits when only some of the fields
 are present

---
 src/ReaderImpl.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 37bfbe8..a1d2629 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -998,9 +998,14 @@ namespace e57
       data3DHeader.pointFields.pointRangeMinimum = 0.0;
       data3DHeader.pointFields.pointRangeMaximum = 0.0;
 
-      if ( proto.isDefined( "cartesianX" ) )
+      // Any of the Cartesian fields may be missing, but they all share one type and one range.
+      const ustring cartesianName = proto.isDefined( "cartesianX" )   ? "cartesianX"
+                                    : proto.isDefined( "cartesianY" ) ? "cartesianY"
+                                                                      : "cartesianZ";
+
+      if ( proto.isDefined( cartesianName ) )
       {
-         const auto cartesianXProto = proto.get( "cartesianX" );
+         const auto cartesianXProto = proto.get( cartesianName );
 
          switch ( cartesianXProto.type() )
          {
@@ -1124,9 +1129,13 @@ namespace e57
       data3DHeader.pointFields.angleMinimum = 0.0;
       data3DHeader.pointFields.angleMaximum = 0.0;
 
-      if ( proto.isDefined( "sphericalAzimuth" ) )
+      // Either of the angles may be missing, but they share one type and one range.
+      const ustring angleName =
+         proto.isDefined( "sphericalAzimuth" ) ? "sphericalAzimuth" : "sphericalElevation";
+
+      if ( proto.isDefined( angleName ) )
       {
-         const auto sphericalAzimuthProto = proto.get( "sphericalAzimuth" );
+         const auto sphericalAzimuthProto = proto.get( angleName );
 
          switch ( sphericalAzimuthProto.type() )
          {
@@ -1202,6 +1211,11 @@ namespace e57
          data3DHeader.pointFields.returnMaximum =
             static_cast<uint8_t>( IntegerNode( proto.get( "returnIndex" ) ).maximum() );
       }
+      else if ( proto.isDefined( "returnCount" ) )
+      {
+         data3DHeader.pointFields.returnMaximum =
+            static_cast<uint8_t>( IntegerNode( proto.get( "returnCount" ) ).maximum() );
+      }
 
       data3DHeader.pointFields.timeStampField = proto.isDefined( "timeStamp" );
       data3DHeader.pointFields.isTimeStampInvalidField = proto.isDefined( "isTimeStampInvalid" );
-- 
2.43.0


From 77d26c5d6344719d90a9b8b542cdf3a7d3e46597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:27 +0000
Subject: [PATCH 28/33] fix: only look at enabled fields when computing scaled
 limits

---
 src/E57SimpleWriter.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index d11d81e..309240b 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -86,11 +86,18 @@ namespace
          if ( writePointRange && pointFields.cartesianXField )
          {
             pointRangeMinimum = std::min( inBuffers.cartesianX[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
-
             pointRangeMaximum = std::max( inBuffers.cartesianX[i], pointRangeMaximum );
+         }
+
+         if ( writePointRange && pointFields.cartesianYField )
+         {
+            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
             pointRangeMaximum = std::max( inBuffers.cartesianY[i], pointRangeMaximum );
+         }
+
+         if ( writePointRange && pointFields.cartesianZField )
+         {
+            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
             pointRangeMaximum = std::max( inBuffers.cartesianZ[i], pointRangeMaximum );
          }
 
@@ -103,12 +110,15 @@ namespace
             pointRangeMaximum = std::max( inBuffers.sphericalRange[i], pointRangeMaximum );
          }
 
-         if ( writeAngle )
+         if ( writeAngle && pointFields.sphericalAzimuthField )
          {
             angleMinimum = std::min( inBuffers.sphericalAzimuth[i], angleMinimum );
-            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
-
             angleMaximum = std::max( inBuffers.sphericalAzimuth[i], angleMaximum );
+         }
+
+         if ( writeAngle && pointFields.sphericalElevationField )
+         {
+            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
             angleMaximum = std::max( inBuffers.sphericalElevation[i], angleMaximum );
          }
 
-- 
2.43.0


From c316a7a2940e453ef3e06ef5296bc8eeeaa36f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:15 +0000
Subject: [PATCH 29/33] fix: give prototype fields a value within their limits

---
 src/WriterImpl.cpp | 97 ++++++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 34 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 0e1716f..1c62f47 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -71,6 +71,17 @@ namespace
                .append( std::to_string( static_cast<int>( inNodeType ) ) );
       }
    }
+
+   // The value of a prototype node must lie within its limits. Use zero if we can.
+   template <typename T> T _prototypeValue( T inMinimum, T inMaximum )
+   {
+      if ( inMinimum > T( 0 ) )
+      {
+         return inMinimum;
+      }
+
+      return ( inMaximum < T( 0 ) ) ? inMaximum : T( 0 );
+   }
 }
 
 namespace e57
@@ -899,18 +910,21 @@ namespace e57
                const auto pointRangeMaximum = static_cast<int64_t>(
                   std::floor( ( pointRangeMax - pointRangeOffset ) / pointRangeScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, pointRangeMinimum, pointRangeMaximum,
-                                         pointRangeScale, pointRangeOffset );
+               return ScaledIntegerNode(
+                  imf_, _prototypeValue( pointRangeMinimum, pointRangeMaximum ), pointRangeMinimum,
+                  pointRangeMaximum, pointRangeScale, pointRangeOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _prototypeValue( pointRangeMin, pointRangeMax ),
+                                 PrecisionSingle, pointRangeMin, pointRangeMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _prototypeValue( pointRangeMin, pointRangeMax ),
+                                 PrecisionDouble, pointRangeMin, pointRangeMax );
             }
          }
 
@@ -966,18 +980,20 @@ namespace e57
                const auto angleMaximum = static_cast<int64_t>(
                   std::floor( ( angleMax - angleOffset ) / angleScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, angleMinimum, angleMaximum, angleScale,
-                                         angleOffset );
+               return ScaledIntegerNode( imf_, _prototypeValue( angleMinimum, angleMaximum ),
+                                         angleMinimum, angleMaximum, angleScale, angleOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, angleMin, angleMax );
+               return FloatNode( imf_, _prototypeValue( angleMin, angleMax ), PrecisionSingle,
+                                 angleMin, angleMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, angleMin, angleMax );
+               return FloatNode( imf_, _prototypeValue( angleMin, angleMax ), PrecisionDouble,
+                                 angleMin, angleMax );
             }
          }
 
@@ -1006,8 +1022,12 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "intensity", IntegerNode( imf_, 0, static_cast<int64_t>( intensityMin ),
-                                                    static_cast<int64_t>( intensityMax ) ) );
+               const auto integerMinimum = static_cast<int64_t>( intensityMin );
+               const auto integerMaximum = static_cast<int64_t>( intensityMax );
+
+               proto.set( "intensity",
+                          IntegerNode( imf_, _prototypeValue( integerMinimum, integerMaximum ),
+                                       integerMinimum, integerMaximum ) );
 
                break;
             }
@@ -1022,26 +1042,27 @@ namespace e57
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
 
-               proto.set( "intensity", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "intensity", ScaledIntegerNode(
+                                       imf_, _prototypeValue( rawIntegerMinimum, rawIntegerMaximum ),
+                                       rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
 
                break;
             }
 
             case NumericalNodeType::Float:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionSingle,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity",
+                          FloatNode( imf_, _prototypeValue( intensityMin, intensityMax ),
+                                     PrecisionSingle, intensityMin, intensityMax ) );
 
                break;
             }
 
             case NumericalNodeType::Double:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionDouble,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity",
+                          FloatNode( imf_, _prototypeValue( intensityMin, intensityMax ),
+                                     PrecisionDouble, intensityMin, intensityMax ) );
 
                break;
             }
@@ -1050,24 +1071,27 @@ namespace e57
 
       if ( data3DHeader.pointFields.colorRedField )
       {
-         proto.set(
-            "colorRed",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorRedMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorRedMaximum ) ) );
+         const auto minimum = static_cast<int64_t>( data3DHeader.colorLimits.colorRedMinimum );
+         const auto maximum = static_cast<int64_t>( data3DHeader.colorLimits.colorRedMaximum );
+
+         proto.set( "colorRed", IntegerNode( imf_, _prototypeValue( minimum, maximum ), minimum,
+                                             maximum ) );
       }
       if ( data3DHeader.pointFields.colorGreenField )
       {
-         proto.set( "colorGreen",
-                    IntegerNode(
-                       imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMinimum ),
-                       static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMaximum ) ) );
+         const auto minimum = static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMinimum );
+         const auto maximum = static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMaximum );
+
+         proto.set( "colorGreen", IntegerNode( imf_, _prototypeValue( minimum, maximum ), minimum,
+                                             maximum ) );
       }
       if ( data3DHeader.pointFields.colorBlueField )
       {
-         proto.set(
-            "colorBlue",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMaximum ) ) );
+         const auto minimum = static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMinimum );
+         const auto maximum = static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMaximum );
+
+         proto.set( "colorBlue", IntegerNode( imf_, _prototypeValue( minimum, maximum ), minimum,
+                                             maximum ) );
       }
 
       if ( data3DHeader.pointFields.returnIndexField )
@@ -1101,8 +1125,12 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "timeStamp", IntegerNode( imf_, 0, static_cast<int64_t>( timeMinimum ),
-                                                    static_cast<int64_t>( timeMaximum ) ) );
+               const auto integerMinimum = static_cast<int64_t>( timeMinimum );
+               const auto integerMaximum = static_cast<int64_t>( timeMaximum );
+
+               proto.set( "timeStamp",
+                          IntegerNode( imf_, _prototypeValue( integerMinimum, integerMaximum ),
+                                       integerMinimum, integerMaximum ) );
                break;
             }
 
@@ -1116,8 +1144,9 @@ namespace e57
                const auto rawIntegerMaximum =
                   static_cast<int64_t>( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
 
-               proto.set( "timeStamp", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "timeStamp", ScaledIntegerNode(
+                                       imf_, _prototypeValue( rawIntegerMinimum, rawIntegerMaximum ),
+                                       rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
                break;
             }
 
-- 
2.43.0


From de2d3cb7bb66d38128d75eb6a819e00a8ea862d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:31 +0000
Subject: [PATCH 30/33] fix: keep given limits of integer fields when creating
 float buffers

---
 src/E57SimpleData.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/E57SimpleData.cpp b/src/E57SimpleData.cpp
index 29368e1..b8dc3cd 100644
--- a/src/E57SimpleData.cpp
+++ b/src/E57SimpleData.cpp
@@ -30,6 +30,24 @@ namespace e57
       }
    }
 
+   /// @private
+   /// Sets limits to the float limits, but keeps narrower limits of (scaled) integer fields.
+   static void _adjustLimitsForFloat( NumericalNodeType nodeType, double &minimum, double &maximum )
+   {
+      const bool keepNarrower = ( nodeType == NumericalNodeType::Integer ) ||
+                                ( nodeType == NumericalNodeType::ScaledInteger );
+
+      if ( !keepNarrower || ( minimum < FLOAT_MIN ) )
+      {
+         minimum = FLOAT_MIN;
+      }
+
+      if ( !keepNarrower || ( maximum > FLOAT_MAX ) )
+      {
+         maximum = FLOAT_MAX;
+      }
+   }
+
    /// To avoid exposing M_PI, we define the constructor here.
    SphericalBounds::SphericalBounds()
    {
@@ -56,12 +74,13 @@ namespace e57
       // We need to adjust min/max for floats.
       if ( cIsFloat )
       {
-         data3D.pointFields.pointRangeMinimum = FLOAT_MIN;
-         data3D.pointFields.pointRangeMaximum = FLOAT_MAX;
-         data3D.pointFields.angleMinimum = FLOAT_MIN;
-         data3D.pointFields.angleMaximum = FLOAT_MAX;
-         data3D.pointFields.timeMinimum = FLOAT_MIN;
-         data3D.pointFields.timeMaximum = FLOAT_MAX;
+         _adjustLimitsForFloat( data3D.pointFields.pointRangeNodeType,
+                                data3D.pointFields.pointRangeMinimum,
+                                data3D.pointFields.pointRangeMaximum );
+         _adjustLimitsForFloat( data3D.pointFields.angleNodeType, data3D.pointFields.angleMinimum,
+                                data3D.pointFields.angleMaximum );
+         _adjustLimitsForFloat( data3D.pointFields.timeNodeType, data3D.pointFields.timeMinimum,
+                                data3D.pointFields.timeMaximum );
       }
 
       // IF point range node type is not ScaledInteger
-- 
2.43.0


From cab0ebfbdd20c3659796809c76eafc326e47e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:17 +0000
Subject: [PATCH 31/33] fix: write the projection of an image which also has a
 visual reference

---
 src/WriterImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 1c62f47..c6d4878 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -316,8 +316,10 @@ namespace e57
             "imageWidth",
             IntegerNode( imf_, image2DHeader.visualReferenceRepresentation.imageWidth ) );
       }
-      else if ( image2DHeader.pinholeRepresentation.jpegImageSize > 0 ||
-                image2DHeader.pinholeRepresentation.pngImageSize > 0 )
+
+      // An image may have a projection in addition to the visual reference.
+      if ( image2DHeader.pinholeRepresentation.jpegImageSize > 0 ||
+           image2DHeader.pinholeRepresentation.pngImageSize > 0 )
       {
          StructureNode pinholeRepresentation( imf_ );
          image.set( "pinholeRepresentation", pinholeRepresentation );
-- 
2.43.0


From f647df4b6cb9232b3170ff634dbdfc3aa9fa0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:05 +0000
Subject: [PATCH 32/33] fix: report the element size as stride of string
 buffers

---
 src/SourceDestBufferImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index c7adff8..0f3e2fa 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -120,6 +120,7 @@ SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
    }
 
    capacity_ = b->size();
+   stride_ = sizeof( ustring );
 
    checkState_();
 
-- 
2.43.0


From 6c43957c5ceedf71ae25b29ba07a7c6f39c2c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:58 +0000
Subject: [PATCH 33/33] fix: report the stored intensity limits of scans with
 float intensities

---
 src/ReaderImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index a1d2629..38681a0 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -1373,8 +1373,11 @@ namespace e57
             {
                const FloatNode floatIntensity( intensityProto );
 
-               data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
-               data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               if ( data3DHeader.intensityLimits.intensityMaximum == 0.0 )
+               {
+                  data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
+                  data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               }
 
                if ( floatIntensity.precision() == PrecisionSingle )
                {
-- 
2.43.0

