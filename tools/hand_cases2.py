from hand import R

GR = "dataset/grid.py"
R("d_pixelsin", GR, ("""    if getattr(self, "_grid", None) is not grid:
        self._slice = grid.bbox_indice(self.vertices)
        self._pixels_in = grid.get_pixels_in(self)
        self._grid = grid
    return self._pixels_in
""", """    if getattr(self, "_grid", None) is grid:
        return self._pixels_in
    self._grid = grid
    self._slice = grid.bbox_indice(self.vertices)
    pixels = grid.get_pixels_in(self)
    self._pixels_in = pixels
    return pixels
"""))
R("d_helper_pixels", GR, ("""def pixels_in(self, grid):
""", """def _check_pixels(path, name):
    if not hasattr(path, name):
        raise Exception("No pixels_in call before!")


def pixels_in(self, grid):
"""), ("""@property
def bbox_slice(self):
    if not hasattr(self, "_slice"):
        raise Exception("No pixels_in call before!")
""", """@property
def bbox_slice(self):
    _check_pixels(self, "_slice")
"""), ("""@property
def nb_pixel(self):
    if not hasattr(self, "_pixels_in"):
        raise Exception("No pixels_in call before!")
""", """@property
def nb_pixel(self):
    _check_pixels(self, "_pixels_in")
"""))
R("d_fitcircle", GR, ("""    d_lon = lons.max() - lons.min()
    d_lat = lats.max() - lats.min()
    if d_lon < 1e-7 and d_lat < 1e-7:
        # logger.warning('An edge is only define in one position')
        # logger.debug('%d coordinates %s,%s', len(lons),lons,
        # lats)
        return 0, -90, nan, nan
    centlon, centlat, eddy_radius, err""", """    if _is_dot(lons, lats):
        return 0, -90, nan, nan
    centlon, centlat, eddy_radius, err"""), ("""@njit(cache=True, fastmath=True)
def _circle_from_equal_area(""", """@njit(cache=True, fastmath=True)
def _is_dot(lons, lats):
    d_lon = lons.max() - lons.min()
    d_lat = lats.max() - lats.min()
    return d_lon < 1e-7 and d_lat < 1e-7


@njit(cache=True, fastmath=True)
def _circle_from_equal_area("""))
R("d_fitpath", GR, ("""    if method not in self._circle_params.keys():
        if method == "fit":
            self._circle_params["fit"] = _fit_circle_path(self.vertices)
        if method == "equal_area":
            self._circle_params["equal_area"] = _circle_from_equal_area(self.vertices)
    return self._circle_params[method]
""", """    params = self._circle_params
    if method in params:
        return params[method]
    if method == "fit":
        params[method] = _fit_circle_path(self.vertices)
    elif method == "equal_area":
        params[method] = _circle_from_equal_area(self.vertices)
    return params[method]
"""))
R("d_unreg", GR, ("""    wn = empty((nb_x, nb_y), dtype=numba_types.bool_)
    for i in range(nb_x):
        for j in range(nb_y):
            x_pt = x_c[i + x_start, j + y_start]
            y_pt = y_c[i + x_start, j + y_start]
            wn[i, j] = winding_number_poly(x_pt, y_pt, vertices)
    i_x, i_y = where(wn)
    i_x += x_start
    i_y += y_start
    return i_x, i_y
""", """    wn = empty((nb_x, nb_y), dtype=numba_types.bool_)
    for i in range(nb_x):
        i_grid = i + x_start
        for j in range(nb_y):
            j_grid = j + y_start
            wn[i, j] = winding_number_poly(
                x_c[i_grid, j_grid], y_c[i_grid, j_grid], vertices
            )
    i_x, i_y = where(wn)
    return i_x + x_start, i_y + y_start
"""))
R("d_resample", GR, ("""@njit(cache=True)
def uniform_resample_stack(""", """@njit(cache=True)
def _stack_xy(x, y, dtype):
    data = empty((x.shape[0], 2), dtype=dtype)
    data[:, 0] = x
    data[:, 1] = y
    return data


@njit(cache=True)
def uniform_resample_stack("""), ("""    data = empty((x_new.shape[0], 2), dtype=vertices.dtype)
    data[:, 0] = x_new
    data[:, 1] = y_new
    return data
""", """    return _stack_xy(x_new, y_new, vertices.dtype)
"""))
R("d_meancontour", GR, ("""    values = interp2d_geo(x_g, y_g, z_g, m_g, x_new[1:], y_new[1:])
    if nan_remove:
        return nanmean(values)
    else:
        return values.mean()
""", """    values = interp2d_geo(x_g, y_g, z_g, m_g, x_new[1:], y_new[1:])
    if not nan_remove:
        return values.mean()
    return nanmean(values)
"""))
R("d_highfilter", GR, ("""        result = self._low_filter(grid_name, w_cut, **kwargs)
        self.vars[grid_name] -= result
""", """        self.vars[grid_name] -= self._low_filter(grid_name, w_cut, **kwargs)
"""))
R("d_clean", GR, ("""            self.load_general_features()
            self.load()

    def clean(self):
        self.dimensions = None
        self.variables_description = None
        self.global_attrs = None
        self.x_c = None
        self.y_c = None
        self.x_bounds = None
        self.y_bounds = None
        self.x_dim = None
        self.y_dim = None
        self.contours = None
        self.vars = dict()
""", """            self.load_general_features()
            self.load()

    def clean(self):
        self.vars = dict()
        for name in (
            "dimensions",
            "variables_description",
            "global_attrs",
            "x_c",
            "y_c",
            "x_bounds",
            "y_bounds",
            "x_dim",
            "y_dim",
            "contours",
        ):
            setattr(self, name, None)
"""))
R("d_ident_shape", GR, ("""                    if aerr < 0 or aerr > shape_error or isnan(aerr):
                        contour.reject = 1
                        continue
""", """                    valid_shape = 0 <= aerr <= shape_error
                    if not valid_shape:
                        contour.reject = 1
                        continue
"""))
R("d_ident_pix", GR, ("""                    if (
                        contour.nb_pixel < pixel_limit[0]
                        or contour.nb_pixel > pixel_limit[1]
                    ):
                        contour.reject = 3
                        continue
""", """                    pixel_min, pixel_max = pixel_limit
                    if not pixel_min <= contour.nb_pixel <= pixel_max:
                        contour.reject = 3
                        continue
"""))
R("d_ident_units", GR, ("""                a_and_c[0].obs[name] *= factor
                a_and_c[1].obs[name] *= factor
        u_units""", """                for eddies in a_and_c:
                    eddies.obs[name] *= factor
        u_units"""))
R("d_ident_wrap", GR, ("""    @staticmethod
    def _gaussian_filter(data, sigma, mode="reflect"):
        \"\"\"Standard gaussian filter\"\"\"
""", """    @staticmethod
    def _wrap_contour(values, ref):
        return ((values.T - ref) % 360 + ref).T

    @staticmethod
    def _gaussian_filter(data, sigma, mode="reflect"):
        \"\"\"Standard gaussian filter\"\"\"
"""), ("""            eddies.contour_lon_e[:] = ((eddies.contour_lon_e.T - ref) % 360 + ref).T
            eddies.contour_lon_s[:] = ((eddies.contour_lon_s.T - ref) % 360 + ref).T
""", """            eddies.contour_lon_e[:] = self._wrap_contour(eddies.contour_lon_e, ref)
            eddies.contour_lon_s[:] = self._wrap_contour(eddies.contour_lon_s, ref)
"""))
R("d_ident_empty", GR, ("""            if len(eddies) == 0:
                eddies = EddiesObservations(
                    track_extra_variables=track_extra_variables,
                    track_array_variables=sampling,
                    array_variables=array_variables,
                )
            else:
                eddies = EddiesObservations.concatenate(eddies)
""", """            if eddies:
                eddies = EddiesObservations.concatenate(eddies)
            else:
                eddies = EddiesObservations(
                    track_extra_variables=track_extra_variables,
                    track_array_variables=sampling,
                    array_variables=array_variables,
                )
"""))
R("d_ident_centre", GR, ("""                        if self.is_circular():
                            centi = self.normalize_x_indice(reset_centroid[0])
                        else:
                            centi = reset_centroid[0]
                        centj = reset_centroid[1]
""", """                        centi, centj = reset_centroid
                        if self.is_circular():
                            centi = self.normalize_x_indice(centi)
"""))
R("d_ident_resample", GR, ("""                    xy_i = uniform_resample(
                        inner_contour.lon,
                        inner_contour.lat,
                        num_fac=presampling_multiplier,
                    )
                    xy_e = uniform_resample(
                        contour.lon,
                        contour.lat,
                        num_fac=presampling_multiplier,
                    )
                    xy_s = uniform_resample(
                        speed_contour.lon,
                        speed_contour.lat,
                        num_fac=presampling_multiplier,
                    )
""", """                    xy_i, xy_e, xy_s = (
                        uniform_resample(
                            path.lon, path.lat, num_fac=presampling_multiplier
                        )
                        for path in (inner_contour, contour, speed_contour)
                    )
"""))
R("d_ident_resample2", GR, ("""                    xy_i = uniform_resample(
                        inner_contour.lon,
                        inner_contour.lat,
                        num_fac=presampling_multiplier,
                    )
                    xy_e = uniform_resample(
                        contour.lon,
                        contour.lat,
                        num_fac=presampling_multiplier,
                    )
                    xy_s = uniform_resample(
                        speed_contour.lon,
                        speed_contour.lat,
                        num_fac=presampling_multiplier,
                    )
""", """                    def oversample(path):
                        return uniform_resample(
                            path.lon, path.lat, num_fac=presampling_multiplier
                        )

                    xy_i = oversample(inner_contour)
                    xy_e = oversample(contour)
                    xy_s = oversample(speed_contour)
"""))
R("d_ident_size", GR, ("""                    array_size = speed_array.shape[0]
                    obs.nb_contour_selected[:] = array_size
                    if speed_array.shape[0] == 1:
                        obs.uavg_profile[:] = speed_array[0]
                    else:
                        obs.uavg_profile[:] = raw_resample(speed_array, sampling)
""", """                    array_size = speed_array.shape[0]
                    obs.nb_contour_selected[:] = array_size
                    obs.uavg_profile[:] = (
                        speed_array[0]
                        if array_size == 1
                        else raw_resample(speed_array, sampling)
                    )
"""))
R("d_ident_level", GR, ("""            for coll_ind, coll in enumerate(self.contours.iter(step=iterator)):
                corrected_coll_index = coll_ind
                if iterator == -1:
                    corrected_coll_index = -coll_ind - 1
""", """            for coll_ind, coll in enumerate(self.contours.iter(step=iterator)):
                corrected_coll_index = (
                    coll_ind if anticyclonic_search else -coll_ind - 1
                )
"""))
R("d_ident_order", GR, ("""                    obs.amplitude[:] = amp.amplitude
                    obs.speed_average[:] = max_average_speed
                    obs.num_point_e[:] = contour.lon.shape[0]
                    obs.num_point_s[:] = speed_contour.lon.shape[0]
""", """                    obs.num_point_s[:] = speed_contour.lon.shape[0]
                    obs.num_point_e[:] = contour.lon.shape[0]
                    obs.speed_average[:] = max_average_speed
                    obs.amplitude[:] = amp.amplitude
"""))
R("d_ident_method", GR, ("""        # Get unit of h grid
        h_units = (
            self.units(grid_height) if force_height_unit is None else force_height_unit
        )
""", """        # Get unit of h grid
        h_units = self._unit_of(grid_height, force_height_unit)
"""), ("""        u_units = self.units(uname) if force_speed_unit is None else force_speed_unit
""", """        u_units = self._unit_of(uname, force_speed_unit)
"""), ("""    def get_uavg(
        self,
        all_contours,""", """    def _unit_of(self, name, forced):
        if forced is not None:
            return forced
        return self.units(name)

    def get_uavg(
        self,
        all_contours,"""))
R("d_ident_minmax", GR, ("""        z_min_p, z_max_p = (
            percentile(data_tmp, epsilon),
            percentile(data_tmp, 100 - epsilon),
        )
        d_zp""", """        z_min_p = percentile(data_tmp, epsilon)
        z_max_p = percentile(data_tmp, 100 - epsilon)
        d_zp"""))
R("d_ident_ampl", GR, ("""                    if (not amp.within_amplitude_limits()) or (amp.amplitude == 0):
                        contour.reject = 4
                        continue
""", """                    if not (amp.within_amplitude_limits() and amp.amplitude != 0):
                        contour.reject = 4
                        continue
"""))
R("d_uavg", GR, ("""            level_contour.pixels_in(self)
            # Interpolate uspd to seglon, seglat, then get mean
            level_average_speed = self.speed_coef_mean(level_contour)
            speed_array.append(level_average_speed)
            if (
                pixel_min < level_contour.nb_pixel
                and level_average_speed >= max_average_speed
            ):
                max_average_speed = level_average_speed
                i_max_speed = i
                selected_contour = level_contour
            inner_contour = level_contour
            eddy_contours.append(level_contour)
            i_inner = i
""", """            level_contour.pixels_in(self)
            # Interpolate uspd to seglon, seglat, then get mean
            level_average_speed = self.speed_coef_mean(level_contour)
            speed_array.append(level_average_speed)
            eddy_contours.append(level_contour)
            i_inner = i
            inner_contour = level_contour
            if level_contour.nb_pixel <= pixel_min:
                continue
            if level_average_speed >= max_average_speed:
                max_average_speed, i_max_speed = level_average_speed, i
                selected_contour = level_contour
"""))
R("d_uavg2", GR, ("""        i_max_speed = level_start + step + step * i_max_speed
        i_inner = level_start + step + step * i_inner
""", """        first_level = level_start + step
        i_max_speed = first_level + step * i_max_speed
        i_inner = first_level + step * i_inner
"""), ("""        for i, coll in enumerate(
            all_contours.iter(start=level_start + step, step=step)
        ):
            level_contour = coll.get_nearest_path_bbox_contain_pt(centlon_e, centlat_e)
            # Leave loop if no contours at level
            if level_contour is None:
                break
            # Ensure polygon_i is within polygon_e
            if not poly_contain_poly(original_contour.vertices, level_contour.vertices):
                break
""", """        for i, coll in enumerate(
            all_contours.iter(start=level_start + step, step=step)
        ):
            level_contour = coll.get_nearest_path_bbox_contain_pt(centlon_e, centlat_e)
            # Leave loop if no contours at level or if polygon_i isn't within polygon_e
            if level_contour is None or not poly_contain_poly(
                original_contour.vertices, level_contour.vertices
            ):
                break
"""))
R("d_gauss", GR, ("""        local_data = data.copy()
        local_data[data.mask] = 0

        v = gaussian_filter(local_data, sigma=sigma, mode=mode)
        w = gaussian_filter(float_(~data.mask), sigma=sigma, mode=mode)
""", """        valid_weight = gaussian_filter(float_(~data.mask), sigma=sigma, mode=mode)
        local_data = data.copy()
        local_data[data.mask] = 0
        v, w = gaussian_filter(local_data, sigma=sigma, mode=mode), valid_weight
"""))
R("d_getamp", GR, ("""        if anticyclonic_search:
            reset_centroid = amp.all_pixels_above_h0(level)
        else:
            reset_centroid = amp.all_pixels_below_h0(level)
        return reset_centroid, amp
""", """        check_pixels = (
            amp.all_pixels_above_h0 if anticyclonic_search else amp.all_pixels_below_h0
        )
        return check_pixels(level), amp
"""))
R("d_unreg_idx", GR, ("""        i_y = idx % self.x_c.shape[1]
        i_x = int_((idx - i_y) / self.x_c.shape[1])
        return (
            (max(""", """        i_x, i_y = self._flat_to_index(idx)
        return (
            (max("""), ("""        dist, idx = self.index_interp.query((x, y), k=1)
        i_y = idx % self.x_c.shape[1]
        i_x = int_((idx - i_y) / self.x_c.shape[1])
        return i_x, i_y
""", """        _, idx = self.index_interp.query((x, y), k=1)
        return self._flat_to_index(idx)

    def _flat_to_index(self, idx):
        nb_y = self.x_c.shape[1]
        i_y = idx % nb_y
        return int_((idx - i_y) / nb_y), i_y
"""))
R("d_lowfilter_u", GR, ("""        x_flat, y_flat, z_flat = x.reshape((-1,)), y.reshape((-1,)), data.reshape((-1,))
        m = ~self.get_mask(z_flat)
        x_flat, y_flat, z_flat = x_flat[m], y_flat[m], z_flat[m]
""", """        z_flat = data.reshape((-1,))
        m = ~self.get_mask(z_flat)
        z_flat = z_flat[m]
        x_flat, y_flat = (c.reshape((-1,))[m] for c in (x, y))
"""))
