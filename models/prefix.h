// Forced first include of the symbolic build: make libstdc++ emit its templates in every unit,
// so that the string and container code is part of the encoding.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#ifdef __cplusplus
// std::to_string by way of the stream model, which knows symbolic numbers
#include <bitset>
#include <string>
#include <system_error>
namespace std
{
   string vf_to_string( long v );
   string vf_to_string( unsigned long v );
   string vf_to_string( double v );
   inline string vf_to_string( int v ) { return vf_to_string( (long)v ); }
   inline string vf_to_string( unsigned v ) { return vf_to_string( (unsigned long)v ); }
   inline string vf_to_string( long long v ) { return vf_to_string( (long)v ); }
   inline string vf_to_string( unsigned long long v ) { return vf_to_string( (unsigned long)v ); }
   inline string vf_to_string( float v ) { return vf_to_string( (double)v ); }
}
#define to_string vf_to_string
#endif
