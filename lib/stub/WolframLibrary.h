// Stand-in for the Wolfram LibraryLink header (only what an interface function needs).
#pragma once
#define DLLEXPORT __attribute__((visibility("default")))
typedef long mint;
typedef double mreal;
typedef int mbool;
struct st_WolframLibraryData;
typedef struct st_WolframLibraryData* WolframLibraryData;
#define WolframLibraryVersion 7
enum { LIBRARY_NO_ERROR = 0, LIBRARY_TYPE_ERROR, LIBRARY_RANK_ERROR, LIBRARY_DIMENSION_ERROR,
       LIBRARY_NUMERICAL_ERROR, LIBRARY_MEMORY_ERROR, LIBRARY_FUNCTION_ERROR };
