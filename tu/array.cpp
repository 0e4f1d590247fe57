#include <algorithm>
#include <iostream>
#include <cstdarg>
#include "basic.h"
#include "utils_array.h"
#include "utils_math.h"
using namespace ccgl; using namespace ccgl::utils_array; using namespace ccgl::utils_math;
namespace ccgl { namespace utils_array {
#define I1(T,U) template bool Initialize1DArray<T,U>(int, T*&, U); template bool Initialize1DArray<T,U>(int, T*&, U*); \
  template bool Initialize2DArray<T,U>(int, int, T**&, U); template bool Initialize2DArray<T,U>(int, int, T**&, U**);
I1(int,int) I1(float,float) I1(double,float) I1(int,float) I1(float,int)
#define R(T) template void Release1DArray<T>(T*&); template void Release2DArray<T>(T**&); template bool ValueInVector<T>(T, const vector<T>&); template void RemoveValueInVector<T>(T, vector<T>&);
R(int) R(float) R(double)
template bool Initialize2DArray<float,float>(float*, int&, int&, float**&);
template bool Initialize2DArray<int,int>(int*, int&, int&, int**&);
template bool Initialize2DArray<int,float>(int*, int&, int&, float**&);
}
namespace utils_math {
#define M(T) template T MaxInArray<T>(const T*, int); template T MinInArray<T>(const T*, int); template T Sum<T>(int, const T*); template T Sum<T>(int, int*&, const T*); \
 template void BasicStatistics<T>(const T*, int, double**, T); template void BasicStatistics<T>(const T*const*, int, int, double***, T);
M(int) M(float) M(double)
}}
