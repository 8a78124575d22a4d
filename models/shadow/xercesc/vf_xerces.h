// Stand-in for Xerces-C in the symbolic build: a small namespace-aware, non-validating XML reader
// with the SAX2 interface the library uses.
#pragma once
#include <string>
#include <vector>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#define XERCES_CPP_NAMESPACE xercesc
#define XERCES_CPP_NAMESPACE_BEGIN namespace xercesc {
#define XERCES_CPP_NAMESPACE_END }
#define XERCES_CPP_NAMESPACE_USE using namespace xercesc;
#define XERCES_CPP_NAMESPACE_QUALIFIER xercesc::
typedef char16_t XMLCh;
typedef unsigned char XMLByte;
typedef size_t XMLSize_t;
typedef uint64_t XMLFilePos;
typedef uint64_t XMLFileLoc;
typedef uint32_t XMLUInt32;
extern "C" void vf_unmodelled( const char *what );
namespace xercesc
{
   typedef std::basic_string<XMLCh> XS;
   enum : XMLCh
   {
      chNull = 0, chSpace = ' ', chColon = ':', chPeriod = '.', chDash = '-', chUnderscore = '_',
      chDigit_0 = '0', chDigit_1, chDigit_2, chDigit_3, chDigit_4, chDigit_5, chDigit_6, chDigit_7, chDigit_8, chDigit_9,
      chLatin_A = 'A', chLatin_B, chLatin_C, chLatin_D, chLatin_E, chLatin_F, chLatin_G, chLatin_H, chLatin_I, chLatin_J, chLatin_K, chLatin_L, chLatin_M,
      chLatin_N, chLatin_O, chLatin_P, chLatin_Q, chLatin_R, chLatin_S, chLatin_T, chLatin_U, chLatin_V, chLatin_W, chLatin_X, chLatin_Y, chLatin_Z,
      chLatin_a = 'a', chLatin_b, chLatin_c, chLatin_d, chLatin_e, chLatin_f, chLatin_g, chLatin_h, chLatin_i, chLatin_j, chLatin_k, chLatin_l, chLatin_m,
      chLatin_n, chLatin_o, chLatin_p, chLatin_q, chLatin_r, chLatin_s, chLatin_t, chLatin_u, chLatin_v, chLatin_w, chLatin_x, chLatin_y, chLatin_z
   };
   class MemoryManager {};
   class XMLException
   {
   public:
      virtual ~XMLException() {}
      const XMLCh *getMessage() const { return u"xml"; }
   };
   class SAXException
   {
   public:
      XS msg;
      virtual ~SAXException() {}
      const XMLCh *getMessage() const { return msg.c_str(); }
   };
   class SAXParseException : public SAXException
   {
   public:
      const XMLCh *getSystemId() const { return u"E57File"; }
      const XMLCh *getPublicId() const { return u""; }
      XMLFileLoc getLineNumber() const { return 1; }
      XMLFileLoc getColumnNumber() const { return 1; }
   };
   class XMLPlatformUtils
   {
   public:
      static MemoryManager *fgMemoryManager;
      static void Initialize() {}
      static void Terminate() {}
   };
   class XMLUni
   {
   public:
      static const XMLCh fgSAX2CoreValidation[], fgXercesDynamic[], fgSAX2CoreNameSpaces[], fgXercesSchema[], fgXercesSchemaFullChecking[],
         fgSAX2CoreNameSpacePrefixes[], fgXercesLoadSchema[], fgXercesDisableDefaultEntityResolution[];
   };
   void vf_utf8( const XMLCh *s, std::string &out );
   class XMLString
   {
   public:
      static char *transcode( const XMLCh *s )
      {
         std::string t;
         vf_utf8( s, t );
         char *p = new char[t.size() + 1];
         for ( size_t i = 0; i <= t.size(); i++ ) p[i] = t.c_str()[i];
         return p;
      }
      static XMLSize_t stringLen( const XMLCh *s ) { XMLSize_t n = 0; while ( s && s[n] ) n++; return n; }
      static void release( char **p ) { delete[] *p; *p = nullptr; }
      static bool equals( const XMLCh *a, const XMLCh *b )
      {
         for ( ;; a++, b++ ) { if ( *a != *b ) return false; if ( !*a ) return true; }
      }
   };
   class TranscodeToStr
   {
      std::string s_;
   public:
      TranscodeToStr( const XMLCh *in, const char *, MemoryManager * = nullptr ) { vf_utf8( in, s_ ); }
      TranscodeToStr( const XMLCh *in, XMLSize_t n, const char *, MemoryManager * = nullptr ) { XS t( in, n ); vf_utf8( t.c_str(), s_ ); }
      const XMLByte *str() const { return (const XMLByte *)s_.c_str(); }
      XMLSize_t length() const { return s_.size(); }
   };
   class BinInputStream
   {
   public:
      virtual ~BinInputStream() {}
      virtual XMLFilePos curPos() const = 0;
      virtual XMLSize_t readBytes( XMLByte *toFill, XMLSize_t maxToRead ) = 0;
      virtual const XMLCh *getContentType() const = 0;
   };
   class InputSource
   {
   public:
      InputSource( const char *, MemoryManager * = nullptr ) {}
      InputSource() {}
      virtual ~InputSource() {}
      virtual BinInputStream *makeStream() const = 0;
   };
   class Attributes
   {
   public:
      virtual ~Attributes() {}
      virtual XMLSize_t getLength() const = 0;
      virtual const XMLCh *getURI( XMLSize_t ) const = 0;
      virtual const XMLCh *getLocalName( XMLSize_t ) const = 0;
      virtual const XMLCh *getQName( XMLSize_t ) const = 0;
      virtual const XMLCh *getValue( XMLSize_t ) const = 0;
      virtual bool getIndex( const XMLCh *qName, XMLSize_t &index ) const = 0;
      virtual const XMLCh *getValue( const XMLCh *qName ) const = 0;
   };
   class DefaultHandler
   {
   public:
      virtual ~DefaultHandler() {}
      virtual void startDocument() {}
      virtual void endDocument() {}
      virtual void startElement( const XMLCh *, const XMLCh *, const XMLCh *, const Attributes & ) {}
      virtual void endElement( const XMLCh *, const XMLCh *, const XMLCh * ) {}
      virtual void characters( const XMLCh *, XMLSize_t ) {}
      virtual void ignorableWhitespace( const XMLCh *, XMLSize_t ) {}
      virtual void warning( const SAXParseException & ) {}
      virtual void error( const SAXParseException & ) {}
      virtual void fatalError( const SAXParseException &e ) { throw e; }
   };
   typedef DefaultHandler ContentHandler;
   typedef DefaultHandler ErrorHandler;
   class SAX2XMLReader
   {
      DefaultHandler *h_ = nullptr, *eh_ = nullptr;
   public:
      virtual ~SAX2XMLReader() {}
      void setFeature( const XMLCh *, bool ) {}
      void setContentHandler( DefaultHandler *h ) { h_ = h; }
      void setErrorHandler( DefaultHandler *h ) { eh_ = h; }
      void parse( const InputSource &src );
   };
   class XMLReaderFactory
   {
   public:
      static SAX2XMLReader *createXMLReader( MemoryManager * = nullptr ) { return new SAX2XMLReader; }
   };
}
