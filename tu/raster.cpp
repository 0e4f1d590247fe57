// instantiations of the raster class template of /repo (no code of its own)
#include "data_raster.hpp"
#include "basic.cpp"
#include "data_raster.cpp"
#include "utils_string.cpp"
template class ccgl::data_raster::clsRasterData<float, int>;
template class ccgl::data_raster::clsRasterData<int, int>;
#define SUBSET_OF(T) \
    template bool ccgl::data_raster::SubsetPositions::SetData<T>(const int, T*); \
    template bool ccgl::data_raster::SubsetPositions::Set2DData<T>(const int, const int, T**); \
    template void ccgl::data_raster::SubsetPositions::Output<T>(T, std::vector<T*>&);
SUBSET_OF(float)
SUBSET_OF(int)
SUBSET_OF(double)
