// C24: data type tables
#include "rasters.h"
#include "gdal.h"
int main(int argc, char** argv) {
    uint64_t seed; long cases; init(argc, argv, seed, cases); Rng r(seed);
    const RasterDataType ts[] = {RDT_Unknown, RDT_UInt8, RDT_Int8, RDT_UInt16, RDT_Int16, RDT_UInt32, RDT_Int32, RDT_UInt64, RDT_Int64, RDT_Float, RDT_Double};
    const char* nm[] = {"Unknown", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"};
    const std::vector<std::vector<const char*> > al = {{}, {"UCHAR", "UINT8", "GDT_Byte"}, {"CHAR", "INT8", "GDT_Int8"}, {"UINT16", "GDT_UInt16"}, {"INT16", "GDT_Int16"}, {"UINT32", "GDT_UInt32"}, {"INT32", "GDT_Int32"},
        {"UINT64", "GDT_UInt64"}, {"INT64", "GDT_Int64"}, {"FLOAT", "GDT_Float32"}, {"DOUBLE", "GDT_Float64"}};
    const double df[] = {-9999., 255., -128., 65535., -32768., 4294967295., -2147483648., 18446744073709551615., -9223372036854775808., -FLT_MAX, -FLT_MAX};
    while (g_cases < cases) {
        g_cases++;
        for (int i = 0; i <= 10; i++) {
            at(nm[i]);
            check(RasterDataTypeToString(ts[i]) == nm[i], std::string("name of type ") + str(i) + " is " + RasterDataTypeToString(ts[i]));
            check(StringToRasterDataType(nm[i]) == ts[i], std::string("type of ") + nm[i]);
            for (auto s : al[i]) { std::string x = s; for (auto& c : x) if (r.coin()) c = (char)tolower(c); else if (r.coin()) c = (char)toupper(c); check(StringToRasterDataType(x) == ts[i], "type of " + x + " is " + str((int)StringToRasterDataType(x)));
                STRING_MAP o; o["DATATYPE_OUT"] = x; if (r.coin()) o["DATATYPE"] = "DOUBLE"; check(RasterDataTypeInOptionals(o) == ts[i], "type in options " + x);
                if (g_cases < 30) { Grid<float> g = Grid<float>::make(r, false); auto* rs = g.raster(); rs->SetOutDataType(x); check(rs->GetOutDataType() == ts[i] && rs->GetOption("DATATYPE_OUT") == nm[i], "output type " + x); delete rs; } }
            check(DefaultNoDataByType(ts[i]) == df[i], std::string("default no-data of ") + nm[i] + " is " + str(DefaultNoDataByType(ts[i])));
        }
        for (auto s : {"", "FLOAT ", "FLOATS", "GDT_Float", "INT", "UINT", "LONG", "Unknown"}) check(StringToRasterDataType(s) == RDT_Unknown, std::string("unknown name ") + s);
        STRING_MAP o; o["DATATYPE"] = "FLOAT"; check(RasterDataTypeInOptionals(o) == RDT_Unknown, "no type in options");
        const int gd[] = {GDT_Unknown, GDT_Byte, -1, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, 12, 13, GDT_Float32, GDT_Float64};
        for (int i = 0; i <= 10; i++) if (gd[i] >= 0) check((int)CvtToGDALDataType(ts[i]) == gd[i], std::string("GDAL type of ") + nm[i] + " is " + str((int)CvtToGDALDataType(ts[i])));
        if (g_cases >= 50) g_cases = cases;
    }
    return done();
}
