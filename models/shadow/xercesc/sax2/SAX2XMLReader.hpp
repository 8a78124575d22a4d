#pragma once
#include <xercesc/vf_xerces.h>
