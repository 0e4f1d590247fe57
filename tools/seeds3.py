import sys; sys.path.insert(0, '/verif/tools')
from mkseed import make
RS = ['data_raster.cpp', 'basic.cpp', 'utils_math.cpp', 'utils_string.cpp', 'utils_filesystem.cpp', 'utils_time.cpp']
R = dict(srcs=RS, libs='-lgdal')
HEAD = '#include <cstdio>\n#include "data_raster.hpp"\nusing namespace ccgl; using namespace ccgl::data_raster;\n'
only = sys.argv[1:]
_make = make
def make(name, *a, **k):
    if not only or name in only: _make(name, *a, **k)
H = 'src/data_raster.hpp'
D = 'src/data_raster.cpp'
make('s10-layerzero', 'C10', [(H, '''        if (lyr <= 0 || lyr > n_lyrs_) {
            StatusMessage("The layer must be 1 ");''', '''        if (lyr < 0 || lyr > n_lyrs_) {
            StatusMessage("The layer must be 1 ");''')], 'layer number 0 of a raster', 'the cell before the requested one is read instead of no-data', HEAD + '''
int main() { float** d = nullptr; Initialize2DArray(4, 2, d, 5.f); clsRasterData<float, int> r(d, 2, 2, 2, -9999.f, 1., 0., 0.);
    for (int i = -3; i <= 0; i++) { float v = r.GetValue(1, 0, i); printf("layer %d: %g\\n", i, v); if (v != -9999.f) return 1; } return 0; }
''', **R)
make('s20-clearoption', 'C20', [(D, '''    else { strheader.at(key) = val; }
}

RasterDataType RasterDataTypeInOptionals''', '''    else if (!val.empty()) { strheader.at(key) = val; }
}

RasterDataType RasterDataTypeInOptionals''')], 'an existing text option is set to the empty text', 'the option keeps its former text', HEAD + '''
int main() { STRING_MAP m; UpdateStrHeader(m, "SRS", "EPSG:4326"); UpdateStrHeader(m, "SRS", ""); printf("[%s]\\n", m["SRS"].c_str()); return m["SRS"] == "" ? 0 : 1; }
''', **R)
make('s24-uint32default', 'C24', [(D, '''return UINT32_MAX;    // 32-bit unsigned integer''', '''return CVT_INT(UINT32_MAX);    // 32-bit unsigned integer''')],
 'a raster of 32-bit unsigned integers without its own no-data value', 'its default no-data value is -1, which is no value of the type', HEAD + '''
int main() { double d[] = {-9999., 255., -128., 65535., -32768., 4294967295.}; RasterDataType t[] = {RDT_Unknown, RDT_UInt8, RDT_Int8, RDT_UInt16, RDT_Int16, RDT_UInt32};
    for (int i = 0; i < 6; i++) if (DefaultNoDataByType(t[i]) != d[i]) { printf("%d: %f\\n", i, DefaultNoDataByType(t[i])); return 1; } return 0; }
''', **R)
