"""per property: contract modules, replay driver, bounded parts"""
U = ['utils_array.cpp', 'basic.cpp', 'utils_math.cpp', 'utils_string.cpp', 'utils_filesystem.cpp', 'utils_time.cpp']
RS = ['data_raster.cpp', 'basic.cpp', 'utils_math.cpp', 'utils_string.cpp', 'utils_filesystem.cpp', 'utils_time.cpp']
PROPS = {
 'C02': dict(modules=['array'], driver='c02.cpp', sources=['basic.cpp'], cases=2000),
 'C04': dict(modules=['stats'], driver='c04.cpp', sources=['basic.cpp'], cases=3000),
 'C07': dict(modules=['timec'], driver='c07.cpp', sources=['basic.cpp','utils_string.cpp','utils_time.cpp'], cases=4000),
 'C08': dict(modules=['timec'], driver='c08.cpp', sources=['basic.cpp','utils_string.cpp','utils_time.cpp'], cases=3000),
 'C01': dict(modules=['array'], driver='c01.cpp', sources=['basic.cpp'], cases=3000),
 'C03': dict(modules=['array','stats'], driver='c03.cpp', sources=['basic.cpp'], cases=3000),
 'C09': dict(modules=['raster'], driver='c09.cpp', sources=RS, cases=600),
 'C10': dict(modules=['raster', 'array'], uses=['C09 GetPosition', r'C01 Initialize1DArray<(int,int|float,float)>'], driver='c10.cpp', sources=RS, cases=300),
 'C11': dict(modules=['raster'], driver='c11.cpp', sources=RS, cases=600),
 'C20': dict(modules=['maps'], driver='c20.cpp', sources=RS, cases=1500),
 'C24': dict(modules=['maps'], driver='c24.cpp', sources=RS, cases=50),
 'C25': dict(modules=['edit'], driver='c25.cpp', sources=RS, cases=1500),
 'C26': dict(modules=['rstats', 'stats'], uses=['C04 BasicStatistics<(int|float)>'], driver='c26.cpp', sources=RS, cases=800),
 'C27': dict(modules=['ctor', 'array'], driver='c27.cpp', sources=RS, cases=1500, uses=['C20 (Copy|Update|Initial)', 'C24 (RasterDataTypeInOptionals|StringToRasterDataType)', r'C01 .*<(int,int|float,float)>\(array\)']),
 'C19': dict(modules=['own', 'array'], driver='c19.cpp', sources=RS, cases=1500, uses=['C20 (Copy|Update|Initial)', r'C01 .*<(int,int|float,float|double,double)>\(array\)']),
 'C15': dict(modules=['subset', 'array'], driver='c15.cpp', sources=RS, cases=1500, bounded=['BuildSubSet (cells of a group, rectangles, stored and local indices): random rasters up to 6x6 cells'], uses=['C20 (Copy|Update)', r'C01 .*<(int,int|float,float|double,double|int,float|int,double|float,double)>\(array\)']),
 'C28': dict(modules=['vecs'], driver='c28.cpp', sources=['basic.cpp'], cases=6000),
 'C16': dict(modules=['ascio'], driver='c16.cpp', sources=RS, cases=1200),
 'C17': dict(modules=['gdalio', 'array'], driver='c17.cpp', sources=RS, cases=600, uses=['C24 (RasterDataTypeInOptionals|StringToRasterDataType|CvtToGDALDataType)', r'C01 Initialize1DArray<(int,int|float,float)>', 'C09 GetPosition']),
 'C18': dict(modules=['gdalio'], driver='c18.cpp', sources=RS, cases=1200, uses=['C24 DefaultNoDataByType', 'C20 Update']),
}
