ref('a01-while', 'C01 C02', (A, '''    T init = static_cast<T>(init_value);
#pragma omp parallel for
    for (int i = 0; i < row; i++) {
        data[i] = init;
    }''', '''    int i = 0;
    while (i < row) {
        data[i++] = static_cast<T>(init_value);
    }'''))
ref('a02-helper', 'C01 C02 C03', (A, '''template <typename T, typename INI_T>
bool Initialize2DArray(const int row, const int col, T**& data,
                       const INI_T init_value) {''', '''template <typename T>
void PointRows(T** rows, T* pool, const int row, const int col) {
    for (int i = 0; i < row; ++i) {
        rows[i] = pool + i * col;
    }
}

template <typename T, typename INI_T>
bool Initialize2DArray(const int row, const int col, T**& data,
                       const INI_T init_value) {'''), (A, '''    for (int i = 0; i < row; ++i, pool += col) {
        data[i] = pool;
    }
    return true;''', '''    PointRows(data, pool, row, col);
    return true;'''))
ref('a03-copyn', 'C01', (A, '''    for (int i = 0; i < row; i++) {
        data[i] = static_cast<T>(init_data[i]);
    }''', '''    for (int i = row - 1; i >= 0; --i) {
        const INI_T v = init_data[i];
        data[i] = static_cast<T>(v);
    }'''))
ref('a04-release', 'C01 C02 C19', (A, '''    if (nullptr != data) {
        delete[] data;
        data = nullptr;
    }
}''', '''    T* old = data;
    data = nullptr;
    delete[] old;
}'''), (A, '''    delete[] data[0]; // delete the memory pool
    delete[] data; // delete row pointers
    data = nullptr;''', '''    T* pool = data[0];
    Release1DArray(data);
    Release1DArray(pool);'''))
ref('a05-jagged', 'C03', (A, '''    int pos = 0;
    for (int i = 0; i < rows; ++i) {
        data[i] = pool + pos;
        pos += cols[i] + 1;
    }''', '''    T2* next = pool;
    for (int i = 0; i < rows; ++i) {
        data[i] = next;
        next += cols[i] + 1;
    }'''))
ref('a06-jagged2', 'C03', (A, '''        cols[i] = CVT_INT(init_data[idx]);
        idx += cols[i] + 1;
        if (cols[i] > max_cols) { max_cols = cols[i]; }''', '''        const int n = CVT_INT(init_data[idx]);
        cols[i] = n;
        max_cols = max_cols < n ? n : max_cols;
        idx = idx + 1 + n;'''))
ref('v01-find', 'C28', (A, '''    if (vec.empty()) {
        return false;
    }
    if (find(vec.begin(), vec.end(), val) == vec.end()) {
        return false;
    }
    return true;''', '''    for (size_t i = 0; i < vec.size(); i++) {
        if (vec[i] == val) { return true; }
    }
    return false;'''))
ref('v02-removeif', 'C28', (A, '''    for (auto iter = vec.begin(); iter != vec.end();) {
        if (*iter == val) {
            iter = vec.erase(iter);
        } else {
            ++iter;
        }
    }''', '''    vec.erase(std::remove(vec.begin(), vec.end(), val), vec.end());'''))
ref('v03-compact', 'C28', (A, '''    for (auto iter = vec.begin(); iter != vec.end();) {
        if (*iter == val) {
            iter = vec.erase(iter);
        } else {
            ++iter;
        }
    }''', '''    size_t kept = 0;
    for (size_t i = 0; i < vec.size(); i++) {
        if (vec[i] == val) { continue; }
        vec[kept++] = vec[i];
    }
    vec.resize(kept);'''))
ref('v04-range', 'C28', (A, '''    if (find(vec.begin(), vec.end(), val) == vec.end()) {
        return false;
    }
    return true;''', '''    for (auto it = vec.begin(); it != vec.end(); ++it) {
        if (*it == val) { return true; }
    }
    return false;'''))
ref('m01-max', 'C04', (M, '''    T m = a[0];
    for (int i = 1; i < n; i++) {
        if (a[i] > m) {
            m = a[i];
        }
    }''', '''    T m = a[0];
    for (int i = 0; i < n; i++) {
        m = a[i] > m ? a[i] : m;
    }'''))
ref('m02-stats', 'C04 C26', (M, '''        if (FloatEqual(values[i], exclude)) continue;
        if (maxv < values[i]) maxv = values[i];
        if (minv > values[i]) minv = values[i];
        validnum += 1;
        sumv += values[i];
    }
    tmpstats[0]''', '''        const T v = values[i];
        if (!FloatEqual(v, exclude)) {
            validnum++;
            sumv = sumv + v;
            if (v < minv) { minv = v; }
            if (v > maxv) { maxv = v; }
        }
    }
    tmpstats[0]'''))
ref('m03-helper', 'C04', (M, '''template <typename T>
T Sum(const int row, int*& idx, const T* data) {
    T tmp = 0;
#pragma omp parallel for reduction(+:tmp)
    for (int i = 0; i < row; i++) {
        int j = idx[i];
        tmp += data[j];
    }
    return tmp;
}''', '''template <typename T>
void AddTo(T& total, const T v) { total += v; }

template <typename T>
T Sum(const int row, int*& idx, const T* data) {
    T tmp = 0;
    for (const int* p = idx; p != idx + row; ++p) {
        AddTo(tmp, data[*p]);
    }
    return tmp;
}'''))
ref('t01-julian', 'C07 C08', (T, '''    int a = (14 - month) / 12;
    int y = year + 4800 - a;
    int m = month + 12 * a - 3;
    int d = day + (153 * m + 2) / 5 + 365 * y + y / 4 - y / 100 + y / 400 - 32045;
    return d;''', '''    const bool early = month <= 2;
    const int y = year + (early ? 4799 : 4800);
    const int m = early ? month + 9 : month - 3;
    const int leap_days = y / 4 - y / 100 + y / 400;
    return day - 32045 + (153 * m + 2) / 5 + 365 * y + leap_days;'''))
ref('t02-stack', 'C08', (T, '''    struct tm* date_info = new tm();
    GetDateTime(date, date_info, utc_time);
    int yr = date_info->tm_year + 1900;
    delete date_info;
    return yr;''', '''    struct tm date_info;
    GetDateTime(date, &date_info, utc_time);
    return 1900 + date_info.tm_year;'''), (T, '''    int doy = date_info->tm_yday + 1;
    delete date_info;
    return doy;''', '''    const int doy = date_info->tm_yday;
    delete date_info;
    return doy + 1;'''))
ref('p01-search', 'C09 C10', (H, '''        int middle = left + ((right - left) / 2); // equals to (left + right)/2
        if (pos_idx_[middle] > pos_idx) {
            right = middle - 1; // pos_idx belongs to [left, middle - 1]
        } else if (pos_idx_[middle] < pos_idx) {
            left = middle + 1; // pos_idx belongs to [middle + 1, right]
        } else { // pos_idx_[middle] == pos_idx
            return middle;
        }''', '''        const int middle = (left + right) / 2;
        const int cur = pos_idx_[middle];
        if (cur == pos_idx) { return middle; }
        if (cur < pos_idx) {
            left = middle + 1;
        } else {
            right = middle - 1;
        }'''))
ref('p02-linear', 'C09', (H, '''    int left = 0;
    int right = n_cells_ - 1; // assumes pos_idx belongs to pos_idx_[left, right]
    while (left <= right) { // when left==right，[left, right] still works，so use <=
        int middle = left + ((right - left) / 2); // equals to (left + right)/2
        if (pos_idx_[middle] > pos_idx) {
            right = middle - 1; // pos_idx belongs to [left, middle - 1]
        } else if (pos_idx_[middle] < pos_idx) {
            left = middle + 1; // pos_idx belongs to [middle + 1, right]
        } else { // pos_idx_[middle] == pos_idx
            return middle;
        }
    }
    return -1;''', '''    int left = 0;
    int right = n_cells_; // searched in [left, right)
    while (left < right) {
        int middle = left + ((right - left) / 2);
        if (pos_idx_[middle] < pos_idx) {
            left = middle + 1;
        } else {
            right = middle;
        }
    }
    if (left < n_cells_ && pos_idx_[left] == pos_idx) { return left; }
    return -1;'''))
ref('p03-value', 'C10', (H, '''    if (is_2draster) { return raster_2d_[row * GetCols() + col][lyr - 1]; }
    return raster_[row * GetCols() + col];''', '''    const int idx = col + GetCols() * row;
    return is_2draster ? raster_2d_[idx][lyr - 1] : raster_[idx];'''), (H, '''        if (is_2draster) {
            raster_2d_[idx][lyr - 1] = value;
        } else {
            raster_[idx] = value;
        }''', '''        T* cell = is_2draster ? raster_2d_[idx] + (lyr - 1) : raster_ + idx;
        *cell = value;'''))
ref('p04-coord', 'C11', (H, '''    double x_min = xll_center - dx / 2.;
    double x_max = x_min + dx * n_cols;

    double y_min = yll_center - dy / 2.;
    double y_max = y_min + dy * n_rows;
    if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
        return ROW_COL(-1, -1);
    }''', '''    const double y_min = yll_center - dy / 2.;
    const double y_max = y_min + dy * n_rows;
    const double x_min = xll_center - dx / 2.;
    const double x_max = x_min + dx * n_cols;
    if (x < x_min || y < y_min || y_max < y || x_max < x) {
        return ROW_COL(-1, -1);
    }'''))
ref('e01-nodata', 'C25', (H, '''            bool flag = is_2draster && nullptr != raster_2d_
                            ? FloatEqual(raster_2d_[i][lyr], no_data_value_)
                            : FloatEqual(raster_[i], no_data_value_);
            if (!flag) { continue; }
            if (is_2draster && nullptr != raster_2d_) {
                raster_2d_[i][lyr] = replacedv;
            } else if (nullptr != raster_) {
                raster_[i] = replacedv;
            }''', '''            T& cell = is_2draster && nullptr != raster_2d_ ? raster_2d_[i][lyr] : raster_[i];
            if (FloatEqual(cell, no_data_value_)) { cell = replacedv; }'''))
ref('e02-reclass', 'C25', (H, '''            if (recls.count(curv) == 0) {
#ifdef HAS_VARIADIC_TEMPLATES
                recls.emplace(curv, no_data_value_);
#else
                recls.insert(make_pair(curv, no_data_value_));
#endif
            }
            if (is_2draster && nullptr != raster_2d_) {
                raster_2d_[i][lyr] = recls.at(curv);
            } else if (nullptr != raster_) {
                raster_[i] = recls.at(curv);
            }''', '''            auto found = recls.find(static_cast<int>(curv));
            const T newv = found == recls.end() ? no_data_value_ : found->second;
            if (is_2draster && nullptr != raster_2d_) {
                raster_2d_[i][lyr] = newv;
            } else if (nullptr != raster_) {
                raster_[i] = newv;
            }'''))
ref('e03-loops', 'C25', (H, '''#pragma omp parallel for
    for (int i = 0; i < n_cells_; i++) {
        for (int lyr = 0; lyr < n_lyrs_; lyr++) {
            bool flag = is_2draster''', '''    for (int lyr = 0; lyr < n_lyrs_; lyr++) {
        for (int i = 0; i < n_cells_; i++) {
            bool flag = is_2draster'''))
ref('s01-helper', 'C26', (H, '''        stats_.at(STATS_RS_VALIDNUM) = derivedv[0];
        stats_.at(STATS_RS_MEAN) = derivedv[1];
        stats_.at(STATS_RS_MAX) = derivedv[2];
        stats_.at(STATS_RS_MIN) = derivedv[3];
        stats_.at(STATS_RS_STD) = derivedv[4];
        stats_.at(STATS_RS_RANGE) = derivedv[5];''', '''        stats_[STATS_RS_RANGE] = derivedv[5];
        stats_[STATS_RS_STD] = derivedv[4];
        stats_[STATS_RS_MIN] = derivedv[3];
        stats_[STATS_RS_MAX] = derivedv[2];
        stats_[STATS_RS_MEAN] = derivedv[1];
        stats_[STATS_RS_VALIDNUM] = derivedv[0];'''))
ref('s02-get', 'C26', (H, '''    auto it = stats_.find(sindex);
    if (it != stats_.end()) {
        if (FloatEqual(it->second, CVT_DBL(NODATA_VALUE)) || !stats_calculated_) {
            CalculateStatistics();
        }
        return stats_.at(sindex);
    }''', '''    if (stats_.count(sindex) > 0) {
        if (!stats_calculated_ || FloatEqual(stats_.at(sindex), CVT_DBL(NODATA_VALUE))) { CalculateStatistics(); }
        return stats_[sindex];
    }'''))
ref('h01-copyheader', 'C20 C27', (D, '''        if (dst.find(it->first) != dst.end()) {
            dst.at(it->first) = it->second;
        }
        else {
#ifdef HAS_VARIADIC_TEMPLATES
            dst.emplace(it->first, it->second);
#else
            dst.insert(make_pair(it->first, it->second));
#endif
        }''', '''        dst[it->first] = it->second;'''))
ref('h02-update', 'C20', (D, '''    if (strheader.find(key) == strheader.end()) {
#ifdef HAS_VARIADIC_TEMPLATES
        strheader.emplace(key, val);
#else
        strheader.insert(make_pair(key, val));
#endif
    }
    else { strheader.at(key) = val; }''', '''    auto it = strheader.find(key);
    if (it != strheader.end()) {
        it->second = val;
        return;
    }
    strheader.insert(make_pair(key, val));'''))
ref('h03-initial', 'C20', (D, '''    for (int i = 0; i < 8; i++) {
#ifdef HAS_VARIADIC_TEMPLATES
        headinfo.emplace(raster_headers[i], NODATA_VALUE);''', '''    for (int i = 7; i >= 0; i--) {
#ifdef HAS_VARIADIC_TEMPLATES
        headinfo.insert(make_pair(string(raster_headers[i]), CVT_DBL(NODATA_VALUE)));'''))
ref('h04-types', 'C24', (D, '''    if (opts.find(HEADER_RSOUT_DATATYPE) != opts.end()) {
        return StringToRasterDataType(opts.at(HEADER_RSOUT_DATATYPE));
    }
    return RDT_Unknown;''', '''    auto it = opts.find(HEADER_RSOUT_DATATYPE);
    return it == opts.end() ? RDT_Unknown : StringToRasterDataType(it->second);'''), (D, '''        case RDT_Unknown:   return NODATA_VALUE;  // Unknown type
        case RDT_UInt8:	    return UINT8_MAX;     // 8-bit unsigned integer
        case RDT_Int8:	    return INT8_MIN;      // 8-bit signed integer
''', '''        case RDT_Int8:	    return INT8_MIN;      // 8-bit signed integer
        case RDT_UInt8:	    return UINT8_MAX;     // 8-bit unsigned integer
'''))
ref('h05-order', 'C24', (D, '''    if (StringMatch(stype, "DOUBLE") || StringMatch(stype, "GDT_Float64")) { return RDT_Double; }
    return RDT_Unknown;''', '''    const bool dbl = StringMatch(stype, "GDT_Float64") || StringMatch(stype, "DOUBLE");
    return dbl ? RDT_Double : RDT_Unknown;'''))
ref('c01-copy', 'C19', (H, '''            map<string, double *> stats2D = orgraster->GetStatistics2D();
            for (auto iter = stats2D.begin(); iter != stats2D.end(); ++iter) {
                double* tmpstatvalues = nullptr;
                Initialize1DArray(n_lyrs_, tmpstatvalues, iter->second);
                stats_2d_.at(iter->first) = tmpstatvalues;
            }''', '''            map<string, double *> stats2D = orgraster->GetStatistics2D();
            for (auto iter = stats2D.begin(); iter != stats2D.end(); ++iter) {
                double*& target = stats_2d_[iter->first];
                target = nullptr;
                Initialize1DArray(n_lyrs_, target, iter->second);
            }'''), (H, '''    CopyHeader(orgraster->GetRasterHeader(), headers_);
    // deep copy subset''', '''    // deep copy subset'''), (H, '''    n_cells_ = orgraster->GetCellNumber();
    n_lyrs_ = orgraster->GetLayers();
    rs_type_ = orgraster->GetDataType();
    rs_type_out_ = orgraster->GetOutDataType();''', '''    CopyHeader(orgraster->GetRasterHeader(), headers_);
    rs_type_out_ = orgraster->GetOutDataType();
    rs_type_ = orgraster->GetDataType();
    n_lyrs_ = orgraster->GetLayers();
    n_cells_ = orgraster->GetCellNumber();'''))
ref('c02-dtor', 'C19', (D, '''    if (nullptr != local_pos_) {
        if (alloc_) { Release2DArray(local_pos_); }
        else { local_pos_ = nullptr; }
    }
    if (nullptr != local_posidx_) {
        if (alloc_) { Release1DArray(local_posidx_); }
        else { local_posidx_ = nullptr; }
    }
    if (nullptr != global_) {
        if (alloc_) { Release1DArray(global_); }
        else { global_ = nullptr; }
    }
    if (nullptr != data_) { Release1DArray(data_); }
    if (nullptr != data2d_) { Release2DArray(data2d_); }''', '''    Release1DArray(data_);
    Release2DArray(data2d_);
    if (alloc_) {
        Release1DArray(global_);
        Release1DArray(local_posidx_);
        Release2DArray(local_pos_);
    }'''))
ref('b01-prepare', 'C15', (H, '''    for (int vi = 0; vi < sub->n_cells; vi++) {
        for (int ilyr = 0; ilyr < lyrs; ilyr++) {
            //int j = sub->local_pos_[vi][0] * ncols + sub->local_pos_[vi][1];
            int j = sub->local_posidx_[vi];
            int gidx = sub->global_[vi];
            if (!include_nodata) { j = vi; }''', '''    for (int vi = 0; vi < sub->n_cells; vi++) {
        const int gidx = sub->global_[vi];
        const int j = include_nodata ? sub->local_posidx_[vi] : vi;
        for (int ilyr = 0; ilyr < lyrs; ilyr++) {'''))
ref('b02-helper', 'C15', (H, '''                if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
                    uniqe_value = recls.at(recls_key).at(ilyr);
                }
                data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);''', '''                auto found = recls.find(recls_key);
                if (found != recls.end() && found->second.size() > ilyr) {
                    uniqe_value = found->second[ilyr];
                }
                data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);'''))
ref('g01-out', 'C17', (H, '''                for (int gi = 0; gi < n_rows * n_cols; gi++) {
                    data_1d[gi] = raster_2d_[gi][lyr];
                }''', '''                for (int r = 0; r < n_rows; r++) {
                    for (int c = 0; c < n_cols; c++) { data_1d[r * n_cols + c] = raster_2d_[r * n_cols + c][lyr]; }
                }'''))
ref('g02-out', 'C17', (H, '''            if (outputdirectly) {
                if (nullptr == data_1d) {
                    Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_);
                }
                for (int gi''', '''            if (nullptr == data_1d) {
                Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_);
            }
            if (outputdirectly) {
                for (int gi'''), (H, '''            } else {
                if (nullptr == data_1d) {
                    Initialize1DArray(n_rows * n_cols, data_1d, no_data_value_);
                }
                for (int vi = 0; vi < n_cells_; vi++) {''', '''            } else {
                for (int vi = 0; vi < n_cells_; vi++) {'''))
ref('g03-uint8', 'C17', (H, '''                if (FloatEqual(values[i], old_nodata) && change_nodata) {
                    values_uchar[i] = UINT8_MAX;
                    continue;
                }
                if (!IsInTypeRange<unsigned char>(values[i])) {
                    illegal_count += 1;
                    continue;
                }
                values_uchar[i] = static_cast<unsigned char>(values[i]);''', '''                const T v = values[i];
                if (change_nodata && FloatEqual(v, old_nodata)) {
                    values_uchar[i] = UINT8_MAX;
                } else if (!(v >= 0 && v < UINT8_MAX + 1)) {
                    illegal_count++;
                } else {
                    values_uchar[i] = static_cast<unsigned char>(v);
                }'''))
ref('g04-geo', 'C17', (H, '''    double geo_trans[6]; // Write header information
    geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
    geo_trans[1] = header.at(HEADER_RS_CELLSIZE);
    geo_trans[2] = 0.;
    geo_trans[3] = header.at(HEADER_RS_YLL) + (n_rows - 0.5) * header.at(HEADER_RS_CELLSIZE);
    geo_trans[4] = 0.;
    geo_trans[5] = -header.at(HEADER_RS_CELLSIZE);''', '''    const double size = header.at(HEADER_RS_CELLSIZE);
    const double left = header.at(HEADER_RS_XLL) - size * 0.5;
    const double top = (n_rows - 0.5) * size + header.at(HEADER_RS_YLL);
    double geo_trans[6] = {left, size, 0., top, 0., -size};'''))
ref('g05-read', 'C18', (H, '''        Initialize1DArray(n_rows * n_cols, tmprasterdata, double_data);
        CPLFree(double_data);
        in_type = RDT_Double;''', '''        in_type = RDT_Double;
        Initialize1DArray(n_cols * n_rows, tmprasterdata, double_data);
        CPLFree(double_data);'''), (H, '''    double geo_trans[6];
    po_dataset->GetGeoTransform(geo_trans);
    UpdateHeader(header, HEADER_RS_NCOLS, n_cols);
    UpdateHeader(header, HEADER_RS_NROWS, n_rows);
    UpdateHeader(header, HEADER_RS_NODATA, nodata);''', '''    srs = string(po_dataset->GetProjectionRef());
    double geo_trans[6];
    po_dataset->GetGeoTransform(geo_trans);
    UpdateHeader(header, HEADER_RS_NODATA, nodata);
    UpdateHeader(header, HEADER_RS_NROWS, n_rows);
    UpdateHeader(header, HEADER_RS_NCOLS, n_cols);'''), (H, '''    UpdateHeader(header, HEADER_RS_CELLSNUM, n_cols * n_rows);
    srs = string(po_dataset->GetProjectionRef());
''', '''    UpdateHeader(header, HEADER_RS_CELLSNUM, n_cols * n_rows);
'''))
