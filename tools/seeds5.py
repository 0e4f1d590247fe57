import sys; sys.path.insert(0, '/verif/tools')
from mkseed import make
RS = ['data_raster.cpp', 'basic.cpp', 'utils_math.cpp', 'utils_string.cpp', 'utils_filesystem.cpp', 'utils_time.cpp']
R = dict(srcs=RS, libs='-lgdal')
HEAD = '#include <cstdio>\n#include <fstream>\n#include <string>\n#include "data_raster.hpp"\nusing namespace ccgl; using namespace ccgl::data_raster;\n'
only = sys.argv[1:]
_make = make
def make(name, *a, **k):
    if not only or name in only: _make(name, *a, **k)
H = 'src/data_raster.hpp'
D = 'src/data_raster.cpp'
WORDS = '''static std::string text(const std::string& f) { std::ifstream in(f); std::string s, w; while (in >> w) s += w + " "; return s; }
'''
make('s16-layerindex', 'C16', [(H, '''        if (StringMatch(pre_path, "")) { return false; }
        for (int lyr = 0; lyr < n_lyrs_; lyr++) {
            string tmpfilename = AppendCoreFileName(abs_filename, itoa(CVT_VINT(lyr)));''', '''        if (StringMatch(pre_path, "")) { return false; }
        int index = 0;
        for (int lyr = 0; lyr < n_lyrs_; lyr++) {
            string tmpfilename = AppendCoreFileName(abs_filename, itoa(CVT_VINT(lyr)));'''), (H, '''            int index = 0;
            for (int i = 0; i < rows; ++i) {
                for (int j = 0; j < cols; ++j) {
                    if (outputdirectly) {
                        index = i * cols + j;
                        raster_file << setprecision(6) << raster_2d_''', '''            for (int i = 0; i < rows; ++i) {
                for (int j = 0; j < cols; ++j) {
                    if (outputdirectly) {
                        index = i * cols + j;
                        raster_file << setprecision(6) << raster_2d_''')],
 'a raster of at least two layers that stores valid positions only, written as ASC', 'every layer after the first is written as no-data', HEAD + WORDS + '''
int main(int, char** v) { float** d = nullptr; Initialize2DArray(4, 2, d, 5.f); d[1][0] = d[1][1] = -9999.f; d[3][1] = 8.f; clsRasterData<float, int> r(d, 2, 2, 2, -9999.f, 1., 0., 0.); r.SetCalcPositions();
    std::string f = std::string(v[1]) + "/a.asc"; if (!r.OutputToFile(f)) return 2; std::string h = "NCOLS 2 NROWS 2 XLLCENTER 0 YLLCENTER 0 CELLSIZE 1 NODATA_VALUE -9999 ";
    std::string a = text(std::string(v[1]) + "/a_0.asc"), b = text(std::string(v[1]) + "/a_1.asc"); printf("%s\\n%s\\n", a.c_str(), b.c_str()); return a == h + "5 -9999 5 5 " && b == h + "5 -9999 5 8 " ? 0 : 1; }
''', **R)
make('s16-capitals', 'C16', [(H, '''    string filetype = GetUpper(GetSuffix(abs_filename));
    if (StringMatch(filetype, ASCIIExtension)) {
        return WriteSingleAsc(abs_filename, header, values);''', '''    string filetype = GetSuffix(abs_filename);
    if (filetype == ASCIIExtension) {
        return WriteSingleAsc(abs_filename, header, values);''')],
 'an array written to a file whose suffix is .ASC in capitals', 'a GeoTIFF of another name is written instead of the ASC file', HEAD + WORDS + '''
int main(int, char** v) { GDALAllRegister(); float x[2] = {1, 2}; STRDBL_MAP h; h[HEADER_RS_NROWS] = 1; h[HEADER_RS_NCOLS] = 2; h[HEADER_RS_XLL] = 0; h[HEADER_RS_YLL] = 0; h[HEADER_RS_CELLSIZE] = 1; h[HEADER_RS_NODATA] = -9999;
    std::string f = std::string(v[1]) + "/A.ASC"; bool ok = WriteRasterToFile(f, h, STRING_MAP(), x); std::string s = text(f); printf("%d %s\\n", ok, s.c_str()); return ok && s == "NCOLS 2 NROWS 1 XLLCENTER 0 YLLCENTER 0 CELLSIZE 1 NODATA_VALUE -9999 1 2 " ? 0 : 1; }
''', **R)
make('s16-lastcell', 'C16', [(H, '''                if (index < n_cells_) {
                    if (position[index][0] == i && position[index][1] == j) {
                        raster_file << setprecision(6) << raster_[index] << " ";''', '''                if (index < n_cells_) {
                    if (position_idx[index] == i * rows + j) {
                        raster_file << setprecision(6) << raster_[index] << " ";''')],
 'a raster that is not square and stores valid positions only, written as ASC', 'values land in other cells or are lost', HEAD + WORDS + '''
int main(int, char** v) { float* d = nullptr; Initialize1DArray(6, d, 5.f); d[1] = -9999.f; d[5] = 8.f; clsRasterData<float, int> r(d, 3, 2, -9999.f, 1., 0., 0.); r.SetCalcPositions();
    std::string f = std::string(v[1]) + "/a.asc"; if (!r.OutputToFile(f)) return 2; std::string a = text(f); printf("%s\\n", a.c_str());
    return a == "NCOLS 3 NROWS 2 XLLCENTER 0 YLLCENTER 0 CELLSIZE 1 NODATA_VALUE -9999 5 -9999 5 5 5 8 " ? 0 : 1; }
''', **R)
