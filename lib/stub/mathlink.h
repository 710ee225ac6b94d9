// Stand-in for mathlink.h: a scripted input expression, a recorded output token
// stream and an injectable fault at any operation.  Implemented in checks/P12.cpp.
#pragma once
#include <cstddef>
struct StubLink;
typedef StubLink* MLINK;
typedef double mlextended_double;
typedef long long mlint64;
extern "C" {
// writing
int MLPutFunction(MLINK, const char*, int);
int MLPutUTF8Function(MLINK, const unsigned char*, int, int);
int MLPutSymbol(MLINK, const char*);
int MLPutUTF8Symbol(MLINK, const unsigned char*, int);
int MLPutString(MLINK, const char*);
int MLPutUTF8String(MLINK, const unsigned char*, int);
int MLPutByteString(MLINK, const unsigned char*, int);
int MLPutInteger(MLINK, int);
int MLPutInteger32(MLINK, int);
int MLPutInteger64(MLINK, mlint64);
int MLPutLongInteger(MLINK, long);
int MLPutReal(MLINK, double);
int MLPutDouble(MLINK, double);
int MLPutReal64(MLINK, double);
int MLPutRealList(MLINK, const double*, int);
int MLPutReal64List(MLINK, const double*, int);
int MLPutDoubleArray(MLINK, const double*, const long*, const char**, long);
int MLPutRealArray(MLINK, const double*, const long*, const char**, long);
int MLPutReal64Array(MLINK, const double*, const int*, const char**, int);
int MLPutIntegerList(MLINK, const int*, int);
int MLPutInteger32List(MLINK, const int*, int);
int MLEndPacket(MLINK);
int MLFlush(MLINK);
// reading
int MLCheckFunction(MLINK, const char*, long*);
int MLTestHead(MLINK, const char*, int*);
int MLTestHeadWithArgCount(MLINK, const char*, int*);
int MLGetReal(MLINK, double*);
int MLGetDouble(MLINK, double*);
int MLGetReal64(MLINK, double*);
int MLGetInteger(MLINK, int*);
int MLGetInteger32(MLINK, int*);
int MLGetReal64List(MLINK, double**, int*);
int MLGetRealList(MLINK, double**, long*);
void MLReleaseReal64List(MLINK, double*, int);
void MLDisownRealList(MLINK, double*, long);
int MLNewPacket(MLINK);
int MLError(MLINK);
const char* MLErrorMessage(MLINK);
int MLClearError(MLINK);
int MLReady(MLINK);
}
