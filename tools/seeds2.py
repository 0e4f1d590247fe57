import sys; sys.path.insert(0, '/verif/tools')
from mkseed import make
RS = ['data_raster.cpp', 'basic.cpp', 'utils_math.cpp', 'utils_string.cpp', 'utils_filesystem.cpp', 'utils_time.cpp']
R = dict(srcs=RS, libs='-lgdal')
HEAD = '#include <cstdio>\n#include "data_raster.hpp"\nusing namespace ccgl; using namespace ccgl::data_raster;\n'
only = sys.argv[1:]
_make = make
def make(name, *a, **k):
    if not only or name in only: _make(name, *a, **k)
H = 'src/data_raster.hpp'
make('s08-year2038', 'C08', [('src/utils_time.cpp', '''    time_t timer = static_cast<time_t>(ifiletime / 1000);''', '''    time_t timer = static_cast<int>(ifiletime / 1000);''')],
 'an instant after 2038-01-19', 'instants past 2^31 seconds wrap to 1901', '''
#include <cstdio>
#include "utils_time.h"
int main() { using namespace ccgl::utils_time; for (int y = 1975; y < 2100; y++) { DateTime a = DateTime::FromDateTime(y, 3, 4, 5, 6, 7, 8); DateTime b = DateTime::FromFileTime(a.filetime); if (b.year != y || b.month != 3 || b.day != 4 || b.hour != 5 || b.milliseconds != 8) { printf("%d -> %d-%d-%d\\n", y, b.year, b.month, b.day); return 1; } } return 0; }
''', srcs=['basic.cpp','utils_string.cpp','utils_time.cpp'])
make('s09-beforefirst', 'C09', [(H, '''    while (left <= right) { // when left==right，[left, right] still works，so use <=
''', '''    while (left < right) {
'''), (H, '''    return -1; // means the location of the raster data or mask data is NODATA
''', '''    if (pos_idx_[right] == pos_idx) { return right; }
    return -1; // means the location of the raster data or mask data is NODATA
''')], 'a cell before the first stored cell', 'the value before the first stored position is read', HEAD + '''
int main() { // every grid of 1 x n with a given set of valid cells
    for (int n = 1; n <= 9; n++) for (int m = 1; m < (1 << n); m++) {
        float* d = new float[n]; for (int i = 0; i < n; i++) d[i] = (m >> i) & 1 ? i + 1.f : -9999.f;
        clsRasterData<float, int> r(d, n, 1, -9999.f, 1., 0., 0.); r.SetCalcPositions();
        int k = 0; for (int i = 0; i < n; i++) { int p = r.GetPosition(0, i); if (p != (((m >> i) & 1) ? k++ : -1)) { printf("n=%d m=%d i=%d p=%d\\n", n, m, i, p); return 1; } } }
    return 0; }
''', **R)
make('s11-upperedge', 'C11', [(H, '''    int n_row = CVT_INT((y_max - y) / dy); //calculate from ymax
''', '''    int n_row = n_rows - 1 - CVT_INT((y - y_min) / dy); //calculate from ymin
''')], 'a point exactly on the edge between two rows', 'a point on the edge of two rows is attributed to the upper row, one on the top edge to none', HEAD + '''
int main() { int nr = 4, nc = 3; float* d = new float[nr * nc]; for (int i = 0; i < nr * nc; i++) d[i] = i; clsRasterData<float, int> r(d, nc, nr, -9999.f, 2., 1., 1.);
    for (int i = 0; i < nr; i++) { int p = r.GetPosition(1.0, 8.0 - 2.0 * i); if (p != i * nc) { printf("row %d: %d\\n", i, p); return 1; } } return 0; }
''', **R)
