import sys; sys.path.insert(0, '/verif/tools')
from mkseed import make
RS = ['data_raster.cpp', 'basic.cpp', 'utils_math.cpp', 'utils_string.cpp', 'utils_filesystem.cpp', 'utils_time.cpp']
R = dict(srcs=RS, libs='-lgdal')
HEAD = '#include <cstdio>\n#include "data_raster.hpp"\nusing namespace ccgl; using namespace ccgl::data_raster;\n'
only = sys.argv[1:]
_make = make
def make(name, *a, **k):
    if not only or name in only: _make(name, *a, **k)
H = 'src/data_raster.hpp'
D = 'src/data_raster.cpp'
make('s25-layerflag', 'C25', [(H, '''                            ? FloatEqual(raster_2d_[i][lyr], no_data_value_)
                            : FloatEqual(raster_[i], no_data_value_);
            if (!flag) { continue; }''', '''                            ? FloatEqual(raster_2d_[i][0], no_data_value_)
                            : FloatEqual(raster_[i], no_data_value_);
            if (!flag) { continue; }''')], 'a cell that has no data in a later layer only (or in the first only)', 'no-data of later layers is not replaced, and valid values of later layers are overwritten', HEAD + '''
int main() { float** d = nullptr; Initialize2DArray(4, 2, d, 5.f); d[1][1] = -9999.f; d[2][0] = -9999.f; clsRasterData<float, int> r(d, 2, 2, 2, -9999.f, 1., 0., 0.);
    r.ReplaceNoData(7.f); float w[4][2] = {{5, 5}, {5, 7}, {7, 5}, {5, 5}};
    for (int i = 0; i < 4; i++) for (int l = 0; l < 2; l++) { float v = r.GetValue(i / 2, i % 2, l + 1); if (v != w[i][l]) { printf("%d %d %g\\n", i, l, v); return 1; } } return 0; }
''', **R)
make('s26-defaultexcluded', 'C26', [(H, 'BasicStatistics(raster_2d_, n_cells_, n_lyrs_, &derivedvs, no_data_value_);', 'BasicStatistics(raster_2d_, n_cells_, n_lyrs_, &derivedvs, static_cast<T>(default_value_));')],
 'a multi-layer raster whose default value was set apart from the no-data value', 'cells with the default value are left out of the statistics and no-data cells are counted', HEAD + '''
int main() { float** d = nullptr; Initialize2DArray(4, 2, d, 5.f); d[1][1] = -9999.f; d[2][0] = 0.f; clsRasterData<float, int> r(d, 2, 2, 2, -9999.f, 1., 0., 0.);
    r.SetDefaultValue(0.f); double a = r.GetStatistics("min", 1), b = r.GetStatistics("min", 2), c = r.GetStatistics("valid_cellnumber", 2); printf("%g %g %g\\n", a, b, c); return a == 0. && b == 5. && c == 3. ? 0 : 1; }
''', **R)
make('s27-longer', 'C27', [(H, '''    mask->GetRasterPositionData(&n_cells_, &pos_idx_);
    if (n_cells_ != len) {
        StatusMessage("Input data length MUST EQUALS TO valid cell's number of mask!");
        initialized_ = false;
        return;
    }
    Initialize2DArray(''', '''    mask->GetRasterPositionData(&n_cells_, &pos_idx_);
    if (n_cells_ > len) {
        StatusMessage("Input data length MUST EQUALS TO valid cell's number of mask!");
        initialized_ = false;
        return;
    }
    Initialize2DArray(''')], 'more multi-layer values than the mask has valid cells', 'values that belong to other cells are silently taken', HEAD + '''
int main() { int* m = nullptr; Initialize1DArray(6, m, 1); m[2] = -9999; clsRasterData<int> mask(m, 3, 2, -9999, 1., 0., 0.); mask.SetCalcPositions();
    float** d = nullptr; Initialize2DArray(6, 2, d, 4.f); int bad = 0;
    { clsRasterData<float, int> r(&mask, d, 6, 2); if (r.ValidateRasterData()) { printf("6 values accepted for 5 cells\\n"); bad = 1; } }
    { clsRasterData<float, int> r(&mask, d, 5, 2); if (!r.ValidateRasterData() || r.GetValue(1, 0, 2) != 4.f) { printf("5 values refused\\n"); bad = 1; } }
    Release2DArray(d); return bad; }
''', **R)
make('s19-sharedsubset', 'C19', [(H, '''        for (auto it = orgraster->GetSubset().begin(); it != orgraster->GetSubset().end(); ++it) {
            SubsetPositions* tmp = new SubsetPositions(it->second, true);''', '''        for (auto it = orgraster->GetSubset().begin(); it != orgraster->GetSubset().end(); ++it) {
            SubsetPositions* tmp = new SubsetPositions(it->second, it->second->usable && nullptr != it->second->data_);''')], 'a raster with subsets that hold no data is copied and the original is destroyed (or its subsets rebuilt) before the subsets of the copy are used', 'the copy reads the released positions of the original', HEAD + '''
int main() { int* d = nullptr; Initialize1DArray(6, d, 1); d[1] = d[4] = 2; d[2] = -9999; clsRasterData<int>* a = new clsRasterData<int>(d, 3, 2, -9999, 1., 0., 0.); a->BuildSubSet();
    clsRasterData<int>* b = new clsRasterData<int>(a); delete a; int s = 0;
    for (auto& p : b->GetSubset()) for (int i = 0; i < p.second->n_cells; i++) s += p.first * (1 + p.second->global_[i]);
    printf("%d\\n", s); delete b; return s == 1 * (1 + 3 + 5) + 2 * (2 + 4) ? 0 : 1; }
''', asan=True, **R)
make('s28-adjacent', 'C28', [('src/utils_array.h', '''            iter = vec.erase(iter);
        } else {
            ++iter;
        }''', '''            iter = vec.erase(iter);
            if (iter == vec.begin()) { continue; }
        }
        if (iter != vec.end()) {
            ++iter;
        }''')], 'two equal values next to each other that are not at the front', 'the second of two adjacent values stays', '#include <cstdio>\n#include <algorithm>\n#include "utils_array.h"\nusing namespace ccgl;\n' + '''
int main() { std::vector<int> v; int a[] = {3, 1, 2, 2, 5}; v.assign(a, a + 5); utils_array::RemoveValueInVector(2, v); printf("%d\\n", (int)v.size()); return v.size() == 3 ? 0 : 1; }
''', srcs=['basic.cpp'], libs='')
make('s15-unusable', 'C15', [(H, 'if (!FloatEqual(no_data_value_, default_value)) {', 'if (!FloatEqual(no_data_value_, default_value_)) {')],
 'combined output with a default value given in the call for sub-regions that are not usable', 'cells of unusable sub-regions are output as no-data instead of the default value', '#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <unistd.h>\n#include "data_raster.hpp"\nusing namespace ccgl; using namespace ccgl::data_raster;\n' + '''
int main() { GDALAllRegister(); char tmpl[] = "/tmp/s15XXXXXX"; std::string dir = mkdtemp(tmpl); float* d = nullptr; Initialize1DArray(4, d, 1.f); d[1] = 2.f; d[3] = -9999.f; clsRasterData<float, int> r(d, 2, 2, -9999.f, 1., 0., 0.);
    r.BuildSubSet(); float one[2] = {5.f, 6.f}; bool ok = r.GetSubset().at(1)->SetData(2, one); r.GetSubset().at(2)->usable = false;
    std::map<vint, std::vector<double> > none; ok = r.OutputSubsetToFile(false, true, dir + "/out.tif", none, 7.) && ok;
    std::string f = dir + "/0_out.tif"; clsRasterData<float, int>* b = clsRasterData<float, int>::Init(f); int bad = 0;
    if (!ok || !b) { printf("no output\\n"); bad = 1; }
    else { float w[4] = {5, 7, 6, -9999}; for (int i = 0; i < 4; i++) if (b->GetValue(i / 2, i % 2, 1) != w[i]) { printf("cell %d is %g\\n", i, b->GetValue(i / 2, i % 2, 1)); bad = 1; } }
    delete b; unlink(f.c_str()); rmdir(dir.c_str()); return bad; }
''', **R)
make('s17-bigend', 'C17', [(H, '''                    values_int16[i] = INT16_MIN;
                    continue;''', '''                    values_int16[i] = INT16_MIN;
                    if (old_nodata < 0) { continue; }''')], 'a no-data value above the greatest 16-bit value (e.g. 99999) in a raster written as INT16', 'a raster whose valid cells all fit is refused because of its no-data cells', HEAD + '''
int main() { GDALAllRegister(); char t[] = "/tmp/s17XXXXXX"; std::string dir = mkdtemp(t), f = dir + "/o.tif"; float v[4] = {1, 99999, -3, 7};
    STRDBL_MAP h; h[HEADER_RS_NROWS] = 2; h[HEADER_RS_NCOLS] = 2; h[HEADER_RS_XLL] = 0; h[HEADER_RS_YLL] = 0; h[HEADER_RS_CELLSIZE] = 1; h[HEADER_RS_NODATA] = 99999; STRING_MAP o; o[HEADER_RSOUT_DATATYPE] = "INT16";
    bool ok = WriteSingleGeotiff(f, h, o, v); int bad = !ok; if (!ok) printf("refused\\n");
    else { clsRasterData<float, int>* r = clsRasterData<float, int>::Init(f); if (!r || r->GetNoDataValue() != -32768 || r->GetValue(0, 1, 1) != -32768 || r->GetValue(1, 0, 1) != -3) { printf("other cells\\n"); bad = 1; } delete r; }
    unlink(f.c_str()); rmdir(dir.c_str()); return bad; }
''', **R)
make('s17-layernodata', 'C17', [(H, '''                //data_1d[pos_data_[vi][0] * n_cols + pos_data_[vi][1]] = raster_[vi];
                data_1d[pos_idx_[vi]] = raster_[vi];
            }
            outflag = WriteSingleGeotiff''', '''                //data_1d[pos_data_[vi][0] * n_cols + pos_data_[vi][1]] = raster_[vi];
                if (FloatEqual(raster_[vi], default_value_)) { continue; }
                data_1d[pos_idx_[vi]] = raster_[vi];
            }
            outflag = WriteSingleGeotiff''')], 'a raster that stores valid positions only, has a default value other than no-data, and valid cells of that value', 'valid cells equal to the default value are written as no-data', HEAD + '''
int main() { GDALAllRegister(); char t[] = "/tmp/s17XXXXXX"; std::string dir = mkdtemp(t), f = dir + "/o.tif"; float* d = nullptr; Initialize1DArray(6, d, 2.f); d[1] = -9999.f; d[4] = 5.f; clsRasterData<float, int> r(d, 3, 2, -9999.f, 1., 0., 0.);
    r.SetDefaultValue(5.f); r.SetCalcPositions(); bool ok = r.OutputToFile(f); int bad = !ok; clsRasterData<float, int>* b = clsRasterData<float, int>::Init(f);
    if (!b) bad = 1; else { float w[6] = {2, -9999, 2, 2, 5, 2}; for (int i = 0; i < 6; i++) if (b->GetValue(i / 3, i % 3, 1) != w[i]) { printf("cell %d is %g\\n", i, b->GetValue(i / 3, i % 3, 1)); bad = 1; } }
    delete b; unlink(f.c_str()); rmdir(dir.c_str()); return bad; }
''', **R)
make('s18-uint32', 'C18', [(H, 'n_cols, n_rows, GDT_UInt32, 0, 0);', 'n_cols, n_rows, GDT_Int32, 0, 0);')], 'a 32-bit unsigned file with a value above 2147483647', 'values in the upper half are read as 2147483647', HEAD + '''
int main() { GDALAllRegister(); std::string f = "/vsimem/u.tif"; double v[4] = {1, 4000000000., 7, 2147483647.};
    GDALDataset* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(f.c_str(), 2, 2, 1, GDT_UInt32, nullptr); CPLErr e = d->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, 2, 2, v, 2, 2, GDT_Float64, 0, 0); GDALClose(d); if (e != CE_None) return 0;
    STRDBL_MAP h; double* p = nullptr; RasterDataType t; std::string s; bool ok = ReadRasterFileByGdal(f, h, p, t, s); int bad = !ok; if (ok) for (int i = 0; i < 4; i++) if (p[i] != v[i]) { printf("cell %d is %.0f\\n", i, p[i]); bad = 1; } return bad; }
''', **R)
