from hand import R

R("g_count", "generic.py", ("""        if not mask[i]:
            count = 0
            continue
        count += 1
        output[i] = count
""", """        if mask[i]:
            count += 1
            output[i] = count
        else:
            count = 0
"""))
R("g_count2", "generic.py", ("""    for i in range(mask.shape[0]):
        if not mask[i]:
            count = 0
            continue
        count += 1
        output[i] = count
""", """    for i, m in enumerate(mask):
        count = count + 1 if m else 0
        output[i] = count
"""))
R("g_reverse", "generic.py", ("""    for i in index:
        m[i] = False
    return where(m)[0]
""", """    m[index] = False
    return where(m)[0]
"""))
R("g_bidx", "generic.py", ("""    for i, group in enumerate(groups[:-1]):
        # Get next value to compare
        next_group = groups[i + 1]
        # if different we need to set index for all groups between the 2 values
        if group != next_group:
            first_index[group - i0 + 1 : next_group - i0 + 1] = i + 1
""", """    for i in range(1, len(groups)):
        previous, current = groups[i - 1], groups[i]
        if previous == current:
            continue
        first_index[previous - i0 + 1 : current - i0 + 1] = i
"""))
R("g_dist", "generic.py", ("""@njit(cache=True, fastmath=True)
def distance(lon0""", """@njit(cache=True, fastmath=True)
def haversine_a(lon0, lat0, lon1, lat1):
    D2R = pi / 180.0
    sin_dlat = sin((lat1 - lat0) * 0.5 * D2R)
    sin_dlon = sin((lon1 - lon0) * 0.5 * D2R)
    return sin_dlon**2 * cos(lat0 * D2R) * cos(lat1 * D2R) + sin_dlat**2


@njit(cache=True, fastmath=True)
def distance(lon0"""), ("""    D2R = pi / 180.0
    sin_dlat = sin((lat1 - lat0) * 0.5 * D2R)
    sin_dlon = sin((lon1 - lon0) * 0.5 * D2R)
    cos_lat1 = cos(lat0 * D2R)
    cos_lat2 = cos(lat1 * D2R)
    a_val = sin_dlon**2 * cos_lat1 * cos_lat2 + sin_dlat**2
    return 6370997.0 * 2""", """    a_val = haversine_a(lon0, lat0, lon1, lat1)
    return 2 * 6370997.0"""))
R("g_dgrid", "generic.py", ("""            dlat = absolute(lat1[j] - lat0[i])
            if dlat > 15:
                dist[i, j] = nan
                continue
            dlon = absolute(lon1[j] - lon0[i])
            if dlon > 180:
                dlon = absolute((dlon + 180) % 360 - 180)
            if dlon > 20:
                dist[i, j] = nan
                continue
""", """            dist[i, j] = nan
            dlat = absolute(lat1[j] - lat0[i])
            if dlat > 15:
                continue
            dlon = absolute(lon1[j] - lon0[i])
            if dlon > 180:
                dlon = absolute((dlon + 180) % 360 - 180)
            if dlon > 20:
                continue
"""))
R("g_dgrid2", "generic.py", ("""    D2R = pi / 180.0
    for i in prange(nb_0):
        for j in prange(nb_1):
            dlat = absolute(lat1[j] - lat0[i])
            if dlat > 15:
                dist[i, j] = nan
                continue
            dlon = absolute(lon1[j] - lon0[i])
            if dlon > 180:
                dlon = absolute((dlon + 180) % 360 - 180)
            if dlon > 20:
                dist[i, j] = nan
                continue
            sin_dlat = sin((dlat) * 0.5 * D2R)
            sin_dlon = sin((dlon) * 0.5 * D2R)
            cos_lat1 = cos(lat0[i] * D2R)
""", """    to_rad = pi / 180.0
    half = 0.5 * to_rad
    for i in prange(nb_0):
        lat_i, lon_i = lat0[i], lon0[i]
        cos_lat1 = cos(lat_i * to_rad)
        for j in prange(nb_1):
            dlat = absolute(lat1[j] - lat_i)
            dlon = absolute(lon1[j] - lon_i)
            if dlon > 180:
                dlon = absolute((dlon + 180) % 360 - 180)
            if dlat > 15 or dlon > 20:
                dist[i, j] = nan
                continue
            sin_dlat = sin(dlat * half)
            sin_dlon = sin(dlon * half)
"""), ("""            cos_lat2 = cos(lat1[j] * D2R)
            a_val""", """            cos_lat2 = cos(lat1[j] * to_rad)
            a_val"""))
R("g_cumsum", "generic.py", ("""        tr = track[i]
        if tr != tr_previous:
            d_cum = 0
        d_cum += field[i]
        cumsum_array[i] = d_cum
        tr_previous = tr
""", """        if track[i] == tr_previous:
            d_cum = d_cum + field[i]
        else:
            d_cum = field[i]
            tr_previous = track[i]
        cumsum_array[i] = d_cum
"""))
R("g_nearest", "generic.py", ("""        if is_circular:
            i0 %= nb_x
        if i0 >= nb_x or i0 < 0 or j0 < 0 or j0 >= nb_y or m_g[i0, j0]:
            z[i] = nan
            continue
        z[i] = z_g[i0, j0]
""", """        if is_circular:
            i0 = i0 % nb_x
        inside = 0 <= i0 < nb_x and 0 <= j0 < nb_y
        z[i] = z_g[i0, j0] if inside and not m_g[i0, j0] else nan
"""))
R("g_bilin", "generic.py", ("""            if i1 >= nb_x or i0 < 0 or j0 < 0 or j1 >= nb_y:
                masked = True
            else:
                masked = False
            if not masked:
                if m_g[i0, j0] or m_g[i0, j1] or m_g[i1, j0] or m_g[i1, j1]:
                    masked = True
                else:
                    z00, z01, z10, z11 = (
                        z_g[i0, j0],
                        z_g[i0, j1],
                        z_g[i1, j0],
                        z_g[i1, j1],
                    )
                    masked = False
""", """            masked = i1 >= nb_x or i0 < 0 or j0 < 0 or j1 >= nb_y
            if not masked:
                masked = m_g[i0, j0] or m_g[i0, j1] or m_g[i1, j0] or m_g[i1, j1]
            if not masked:
                z00, z01 = z_g[i0, j0], z_g[i0, j1]
                z10, z11 = z_g[i1, j0], z_g[i1, j1]
"""))
R("g_simplify", "generic.py", ("""        d_x = x_ - x_previous
        if d_x > precision:
            x_previous, y_previous = x_, y_
            continue
        d_y = y_ - y_previous
        if d_y > precision:
            x_previous, y_previous = x_, y_
            continue
        d2 = d_x**2 + d_y**2
        if d2 > precision2:
            x_previous, y_previous = x_, y_
            continue
        mask[i] = False
""", """        d_x = x_ - x_previous
        d_y = y_ - y_previous
        if d_x > precision or d_y > precision or d_x**2 + d_y**2 > precision2:
            x_previous, y_previous = x_, y_
        else:
            mask[i] = False
"""))
R("g_simplify2", "generic.py", ("""    new_nb = mask.sum()
    new_x, new_y = empty(new_nb, dtype=x.dtype), empty(new_nb, dtype=y.dtype)
    j = 0
    for i in range(nb):
        if mask[i]:
            new_x[j], new_y[j] = x[i], y[i]
            j += 1
    return new_x, new_y
""", """    return x[mask], y[mask]
"""))
R("g_wrap", "generic.py", ("""        nb = x.shape[0]
        out = empty(nb, dtype=x.dtype)
        for i in range(nb):
            out[i] = (x[i] - ref) % 360 + ref
        return out, y
""", """        return (x - ref) % 360 + ref, y
"""))
R("g_wrap2", "generic.py", ("""                cor = 360 if x[i - 1] > x[i] else -360
                out_x[i + i_] = (x[i] - ref) % 360 + ref - cor
                out_y[i + i_] = y[i]
                out_x[i + i_ + 1] = nan
                out_y[i + i_ + 1] = nan
                out_x[i + i_ + 2] = (x[i - 1] - ref) % 360 + ref + cor
                out_y[i + i_ + 2] = y[i - 1]
                i_ += 3
""", """                if x[i - 1] > x[i]:
                    cor = 360
                else:
                    cor = -360
                k = i + i_
                out_y[k] = y[i]
                out_x[k] = (x[i] - ref) % 360 + ref - cor
                out_x[k + 1], out_y[k + 1] = nan, nan
                out_x[k + 2] = (x[i - 1] - ref) % 360 + ref + cor
                out_y[k + 2] = y[i - 1]
                i_ = i_ + 3
"""))
R("g_local", "generic.py", ("""    sin_dlon = sin(dlon * 0.5)
    cos_lat0 = cos(lat0 * D2R)
    cos_lat = cos(lat * D2R)
    a_val = sin_dlon**2 * cos_lat0 * cos_lat + sin_dlat**2
    module = R * 2 * arctan2(a_val**0.5, (1 - a_val) ** 0.5)

    azimuth = pi / 2 - arctan2(
        cos_lat * sin(dlon),
        cos_lat0 * sin(lat * D2R) - sin(lat0 * D2R) * cos_lat * cos(dlon),
    )
    return module * cos(azimuth), module * sin(azimuth)
""", """    sin_dlon = sin(dlon / 2.0)
    cos_lat0, cos_lat = cos(lat0 * D2R), cos(lat * D2R)
    a_val = sin_dlat**2 + sin_dlon**2 * cos_lat0 * cos_lat
    module = 2 * R * arctan2(a_val**0.5, (1 - a_val) ** 0.5)
    y_az = cos_lat * sin(dlon)
    x_az = cos_lat0 * sin(lat * D2R) - sin(lat0 * D2R) * cos_lat * cos(dlon)
    azimuth = pi / 2 - arctan2(y_az, x_az)
    x = module * cos(azimuth)
    y = module * sin(azimuth)
    return x, y
"""))
R("g_bbox", "generic.py", ("""    if circular:
        slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
    else:
        slice_x = max(i_x0 - N, 0), i_x1 + N + 1
        if i_x0 > i_x1 and slice_x[0] >= x_size:
            # Contour over the western bound: we start from first column
            slice_x = 2 * x_size, min(slice_x[1], x_size)
    slice_y = max(i_y0 - N, 0), max(i_y1 + N + 1, 0)
    return slice_x, slice_y
""", """    x_start, x_stop = i_x0 - N, i_x1 + N + 1
    if circular:
        x_start %= x_size
        x_stop %= x_size
    else:
        x_start = max(x_start, 0)
        if i_x0 > i_x1 and x_start >= x_size:
            # Contour over the western bound: we start from first column
            x_start, x_stop = 2 * x_size, min(x_stop, x_size)
    return (x_start, x_stop), (max(i_y0 - N, 0), max(i_y1 + N + 1, 0))
"""))
R("g_flatten", "generic.py", ("""    inc = 0
    for i in range(nb_line):
        for j in range(sampling):
            out[inc] = l_matrix[i, j]
            inc += 1
        if i < nb_line - 1:
            out[inc] = nan
            inc += 1
    return out
""", """    for i in range(nb_line):
        start = i * (sampling + 1)
        for j in range(sampling):
            out[start + j] = l_matrix[i, j]
        if i + 1 < nb_line:
            out[start + sampling] = nan
    return out
"""))
R("t_index", "tracking.py", ("""    for i, item in enumerate(items):
        for idx, val in enumerate(ar):
            if val == item:
                indexs[i] = idx
                break
    return indexs
""", """    nb = ar.shape[0]
    for i in range(items.shape[0]):
        for j in range(nb):
            if ar[j] == items[i]:
                indexs[i] = j
                break
    return indexs
"""))
R("t_init", "tracking.py", ("""        if class_method is None:
            self.class_method = EddiesObservations
        else:
            self.class_method = class_method
        self.class_kw = dict() if class_kw is None else class_kw
""", """        self.class_method = EddiesObservations if class_method is None else class_method
        self.class_kw = class_kw if class_kw is not None else {}
"""))
R("t_merge", "tracking.py", ("""        i = where(other.datasets == array(self.datasets[-1]))[0]
        if len(i) != 1:
            raise Exception("More than one intersection")
""", """        i = self._junction(other)
"""), ("""    def merge_correspondance(self, other):
""", """    def _junction(self, other):
        last = array(self.datasets[-1])
        i = where(other.datasets == last)[0]
        if len(i) == 1:
            return i
        raise Exception("More than one intersection")

    def merge_correspondance(self, other):
"""))
R("t_merge2", "tracking.py", ("""        for items in other[i[0] :]:
            items["id"] = translate[items["id"]]
        # Extend with other obs
        self.extend(other[i[0] :])
        self.nb_link_max = max(self.nb_link_max, other.nb_link_max)
        # Extend datasets list, which are bounds so we add one
        self.datasets.extend(other.datasets[i[0] + 1 :])
        # We set new id available
        self.current_id += mask.sum()
""", """        i0 = i[0]
        self.current_id += mask.sum()
        new_links = other[i0:]
        for link in new_links:
            link["id"] = translate[link["id"]]
        self.datasets.extend(other.datasets[i0 + 1 :])
        self.extend(new_links)
        if other.nb_link_max > self.nb_link_max:
            self.nb_link_max = other.nb_link_max
"""))
R("t_store", "tracking.py", ("""        if self.previous2_obs is None:
            # First time we set ID (Program starting)
            nb_match = i_previous.shape[0]
            # Set an id for each match
            correspondance["id"] = self.id_generator(nb_match)
            self.append(correspondance)
            return True
""", """        if self.previous2_obs is None:
            correspondance["id"] = self.id_generator(len(i_previous))
            self.append(correspondance)
            return True
"""))
R("t_store2", "tracking.py", ("""        mask_new_id = correspondance["id"] == self.UINT32_MAX
        nb_new_tracks = mask_new_id.sum()
        logger.debug("%d birth in this step", nb_new_tracks)
        # Set new id
        correspondance["id"][mask_new_id] = self.id_generator(nb_new_tracks)

        self.append(correspondance)

        return False
""", """        self._set_new_id(correspondance)
        self.append(correspondance)
        return False

    def _set_new_id(self, correspondance):
        ids = correspondance["id"]
        is_new = ids == self.UINT32_MAX
        nb_new = is_new.sum()
        logger.debug("%d birth in this step", nb_new)
        ids[is_new] = self.id_generator(nb_new)
"""))
R("t_swap", "tracking.py", ("""        kwargs = kwargs.copy()
        kwargs.update(self.class_kw)
        if self.memory:
            with open(dataset, "rb") as h:
                self.current_obs = self.class_method.load_file(h, *args, **kwargs)
        else:
            self.current_obs = self.class_method.load_file(dataset, *args, **kwargs)
""", """        kwargs = {**kwargs, **self.class_kw}
        load = self.class_method.load_file
        if not self.memory:
            self.current_obs = load(dataset, *args, **kwargs)
        else:
            with open(dataset, "rb") as handler:
                self.current_obs = load(handler, *args, **kwargs)
"""))
R("t_idgen", "tracking.py", ("""        values = arange(self.current_id, self.current_id + nb_id)
        self.current_id += nb_id
        return values
""", """        first_id = self.current_id
        self.current_id = first_id + nb_id
        return arange(first_id, self.current_id)
"""))
R("t_recense", "tracking.py", ("""        self.virtual_obs = self.previous_obs.propagate(
            obs_a,
            obs_b,
            self.previous_virtual_obs.obs[i_virtual_dead_id][alive_virtual_obs]
            if nb_virtual_extend > 0
            else None,
            dead_track=dead_id,
""", """        if nb_virtual_extend > 0:
            to_extend = self.previous_virtual_obs.obs[i_virtual_dead_id]
            to_extend = to_extend[alive_virtual_obs]
        else:
            to_extend = None
        self.virtual_obs = self.previous_obs.propagate(
            obs_a,
            obs_b,
            to_extend,
            dead_track=dead_id,
"""))
R("t_track", "tracking.py", ("""            if self.store_correspondance(
                i_previous, i_current, nb_real_obs, association_cost
            ):
                continue

            self.recense_dead_id_to_extend()

            if self.virtual:
                flg_virtual = True
""", """            first = self.store_correspondance(
                i_previous, i_current, nb_real_obs, association_cost
            )
            if not first:
                self.recense_dead_id_to_extend()
                flg_virtual = flg_virtual or self.virtual
"""))
R("o_fields", "observations/observation.py", ("""        new.sign_type = self.sign_type
        for name in self.fields:
            logger.debug("Copy of field %s ...", name)
            new.obs[name] = self.obs[name]
        return new

    def add_rotation_type(self):
""", """        self._copy_fields(new, self.fields)
        return new

    def _copy_fields(self, new, fields):
        new.sign_type = self.sign_type
        for name in fields:
            logger.debug("Copy of field %s ...", name)
            new.obs[name] = self.obs[name]

    def add_rotation_type(self):
"""))
R("o_circle", "observations/observation.py", ("""        for i, obs in enumerate(self):
            if only_virtual and not obs["virtual"]:
                continue
            x, y = obs["lon"], obs["lat"]
            if radius_s:
                r_s = obs["radius_s"] * factor
                obs["contour_lon_s"], obs["contour_lat_s"] = local_to_coordinates(
                    x_norm * r_s, y_norm * r_s, x, y
                )
            if radius_e:
                r_e = obs["radius_e"] * factor
                obs["contour_lon_e"], obs["contour_lat_e"] = local_to_coordinates(
                    x_norm * r_e, y_norm * r_e, x, y
                )
""", """        kinds = list()
        if radius_s:
            kinds.append("s")
        if radius_e:
            kinds.append("e")
        for obs in self:
            if only_virtual and not obs["virtual"]:
                continue
            for kind in kinds:
                r = obs[f"radius_{kind}"] * factor
                lon, lat = local_to_coordinates(x_norm * r, y_norm * r, obs["lon"], obs["lat"])
                obs[f"contour_lon_{kind}"] = lon
                obs[f"contour_lat_{kind}"] = lat
"""))
R("o_dtype", "observations/observation.py", ("""        dtype = list()
        for elt in self.elements:
            data_type = (
                VAR_DESCR[elt].get("compute_type", VAR_DESCR[elt].get("nc_type"))
                if not self.raw_data
                else VAR_DESCR[elt]["output_type"]
            )
            if elt in self.array_variables:
                dtype.append((elt, data_type, (self.track_array_variables,)))
            else:
                dtype.append((elt, data_type))
        return dtype
""", """        dtype = []
        for elt in self.elements:
            descr = VAR_DESCR[elt]
            if self.raw_data:
                data_type = descr["output_type"]
            else:
                data_type = descr.get("compute_type", descr.get("nc_type"))
            item = (elt, data_type)
            if elt in self.array_variables:
                item = (elt, data_type, (self.track_array_variables,))
            dtype.append(item)
        return dtype
"""))
R("o_coh", "observations/observation.py", ("""        test = self.track_extra_variables == other.track_extra_variables
        test *= self.track_array_variables == other.track_array_variables
        test *= self.array_variables == other.array_variables
        test *= self.obs.dtype.names == other.obs.dtype.names
        return test
""", """        return (
            self.track_extra_variables == other.track_extra_variables
            and self.track_array_variables == other.track_array_variables
            and self.array_variables == other.array_variables
            and self.obs.dtype.names == other.obs.dtype.names
        )
"""))
R("o_concat", "observations/observation.py", ("""        nb_obs = 0
        ref_obs = observations[0]
        for obs in observations:
            if not ref_obs.coherence(obs):
                raise Exception("Merge of different type of observations")
            nb_obs += len(obs)
        eddies = cls.new_like(ref_obs, nb_obs)
""", """        ref_obs = observations[0]
        if any(not ref_obs.coherence(obs) for obs in observations):
            raise Exception("Merge of different type of observations")
        eddies = cls.new_like(ref_obs, sum(len(obs) for obs in observations))
"""))
R("o_merge", "observations/observation.py", ("""        nb_obs_self = len(self)
        nb_obs = nb_obs_self + len(other)
        eddies = self.new_like(self, nb_obs)
        other_keys = other.fields
        self_keys = self.fields
        for key in eddies.fields:
            eddies.obs[key][:nb_obs_self] = self.obs[key][:]
            if key in other_keys:
                eddies.obs[key][nb_obs_self:] = other.obs[key][:]
""", """        n = len(self)
        eddies = self.new_like(self, n + len(other))
        other_keys, self_keys = other.fields, self.fields
        for key in eddies.fields:
            column = eddies.obs[key]
            column[:n] = self.obs[key]
            if key not in other_keys:
                continue
            column[n:] = other.obs[key]
"""), ("""            last_track = eddies.track[nb_obs_self - 1] + 1
            eddies.track[nb_obs_self:] += last_track
""", """            eddies.track[n:] += eddies.track[n - 1] + 1
"""))
R("o_insert", "observations/observation.py", ("""        insert_size = len(other)
        self_size = len(self)
        new_size = self_size + insert_size
        if self_size == 0:
            self.observations = other.obs.copy()
            self.reset_index()
            if self.sign_type is None:
                self.sign_type = other.sign_type
            return self
        elif insert_size == 0:
            return self
        if index < 0:
            index = self_size + index + 1
        eddies = self.new_like(self, new_size)
        eddies.obs[:index] = self.obs[:index]
        eddies.obs[index : index + insert_size] = other.obs
        eddies.obs[index + insert_size :] = self.obs[index:]
        self.observations = eddies.obs
        self.reset_index()
        return self
""", """        nb_other, nb_self = len(other), len(self)
        if nb_self == 0:
            self.observations = other.obs.copy()
            self.reset_index()
            if self.sign_type is None:
                self.sign_type = other.sign_type
        elif nb_other != 0:
            if index < 0:
                index += nb_self + 1
            end = index + nb_other
            eddies = self.new_like(self, nb_self + nb_other)
            eddies.obs[index:end] = other.obs
            eddies.obs[:index] = self.obs[:index]
            eddies.obs[end:] = self.obs[index:]
            self.observations = eddies.obs
            self.reset_index()
        return self
"""))
R("o_index", "observations/observation.py", ("""        size = 1
        if hasattr(index, "__iter__"):
            size = len(index)
        elif isinstance(index, slice):
            size = len(range(*index.indices(len(self))))
        eddies = self.new_like(self, size)
""", """        if hasattr(index, "__iter__"):
            size = len(index)
        elif isinstance(index, slice):
            size = len(range(*index.indices(len(self))))
        else:
            size = 1
        eddies = self.new_like(self, size)
"""))
R("o_iter", "observations/observation.py", ("""                for i0_, i1_ in zip(i0, i1):
                    i_bins = i[i_sort[i0_]]
                    if i_bins == -1 or i_bins == nb_bins:
                        continue
                    yield i_sort_[i0_:i1_], bins[i_bins], bins[i_bins + 1]
""", """                for start, stop in zip(i0, i1):
                    i_bins = i[i_sort[start]]
                    if i_bins not in (-1, nb_bins):
                        yield i_sort_[start:stop], bins[i_bins], bins[i_bins + 1]
"""))
R("o_iter2", "observations/observation.py", ("""        x = self.parse_varname(xname)
        if window is not None:
            x0 = arange(x.min(), x.max()) if bins is None else array(bins)
            i_ordered, first_index, last_index = window_index(x, x0, window)
            for x_, i0, i1 in zip(x0, first_index, last_index):
                yield i_ordered[i0:i1], x_ - window, x_ + window
        else:
""", """        x = self.parse_varname(xname)
        if window is not None:
            if bins is None:
                centers = arange(x.min(), x.max())
            else:
                centers = array(bins)
            i_ordered, first_index, last_index = window_index(x, centers, window)
            for k, center in enumerate(centers):
                yield i_ordered[first_index[k] : last_index[k]], center - window, center + window
        else:
"""))
