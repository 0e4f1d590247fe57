#include "utils_time.h"
using ccgl::utils_time::DateTime;
int use(const DateTime& a, const DateTime& b) { return (a == b) + (a != b) + (a < b) + (a <= b) + (a > b) + (a >= b); }
