import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make
make('s01-tail','C01',[('src/utils_array.h','''    // Initialize the data pool
    T init = static_cast<T>(init_value);
#pragma omp parallel for
    for (int i = 0; i < row * col; i++) {
        pool[i] = init;
    }
''','''    // Initialize the data pool, in blocks of four once it is worth it
    T init = static_cast<T>(init_value);
    int done = 0;
    if (row * col >= 256) {
        done = (row * col) / 4 * 4;
#pragma omp parallel for
        for (int i = 0; i < done; i += 4) {
            pool[i] = init; pool[i + 1] = init; pool[i + 2] = init; pool[i + 3] = init;
        }
        if (done + 3 == row * col) done++;
    }
    for (int i = done; i < row * col; i++) {
        pool[i] = init;
    }
''')],'a two-dimensional array of at least 256 elements whose element count is 3 modulo 4','one element of the block is never initialised','''
#include <cstdio>
#include <cstring>
#include <new>
#include <cstdlib>
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n); memset(p, 0x55, n); return p; }
void operator delete[](void* p) noexcept { free(p); }
#include "utils_array.h"
int main() {
  for (int r = 1; r < 40; r++) for (int c = 1; c < 40; c++) { int** d = nullptr; if (!ccgl::utils_array::Initialize2DArray(r, c, d, 7)) return 2;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (d[i][j] != 7) { printf("%d x %d: [%d][%d]=%d\\n", r, c, i, j, d[i][j]); return 1; }
    ccgl::utils_array::Release2DArray(d); }
  return 0; }
''', asan=False)
make('s02-packed','C02',[('src/utils_array.h','''        data[i] = pool + pos;
        pos += cols[i] + 1;''','''        data[i] = pool + pos;
        pos += max_cols + 1;''')],'a packed buffer whose rows differ in length','rows after a shorter row point at the wrong place','''
#include <cstdio>
#include "utils_array.h"
int main() { float b[] = {3, 1, 5, 3, 6, 7, 8, 2, 9, 10}; int r = 0, c = 0; float** d = nullptr; ccgl::utils_array::Initialize2DArray(b, r, c, d);
 if (d[1][0] != 3 || d[1][3] != 8 || d[2][0] != 2 || d[2][2] != 10) { printf("rows wrong\\n"); return 1; } ccgl::utils_array::Release2DArray(d); return 0; }
''')
make('s03-pairs','C03',[('src/utils_math.h','''    T m = a[0];
    for (int i = 1; i < n; i++) {
        if (a[i] > m) {
            m = a[i];
        }
    }
    return m;''','''    T m = a[0];
    // compare the elements pairwise first, that saves comparisons with m
    for (int i = 1; i < n - 1; i += 2) {
        const T larger = a[i] > a[i + 1] ? a[i] : a[i + 1];
        if (larger > m) {
            m = larger;
        }
    }
    return m;''')],'an even number of elements (three or more) with the maximum in the last place','the last element is not looked at','''
#include <cstdio>
#include "utils_math.h"
int main() { for (int n = 1; n < 20; n++) for (int p = 0; p < n; p++) { float a[20]; for (int i = 0; i < n; i++) a[i] = -i; a[p] = 5; if (ccgl::utils_math::MaxInArray(a, n) != 5) { printf("n=%d p=%d\\n", n, p); return 1; } } return 0; }
''')
make('s04-negmax','C04',[('src/utils_math.h','''    double maxv = MISSINGFLOAT;
    double minv = MAXIMUMFLOAT;
    int validnum = 0;''','''    double maxv = exclude;
    double minv = MAXIMUMFLOAT;
    int validnum = 0;''')],'all valid cells are below the excluded value','the maximum (and range) is the excluded value','''
#include <cstdio>
#include "utils_math.h"
int main() { float a[] = {-3, -9, 0, -4}; double* o = nullptr; ccgl::utils_math::BasicStatistics(a, 4, &o, 0.f); printf("max %g range %g\\n", o[2], o[5]); return o[2] == -3 && o[5] == 6 ? 0 : 1; }
''')
make('s07-century','C07',[('src/utils_time.cpp','''+ y / 4 - y / 100 + y / 400 - 32045''','''+ y / 4 - 51 - 32045''')],'a year outside 1900 to 2099','Julian day numbers outside the twentieth and twenty-first century','''
#include <cstdio>
#include "utils_time.h"
int main() { using namespace ccgl::utils_time; int a = JulianDay(2100, 2, 28), b = JulianDay(2100, 3, 1), c = JulianDay(1582, 10, 15); printf("%d %d %d\\n", a, b, c); return b == a + 1 && c == 2299161 ? 0 : 1; }
''', srcs=['basic.cpp','utils_string.cpp','utils_time.cpp'])
