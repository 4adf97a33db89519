from hand import R

EF = "eddy_feature.py"
GP = "observations/groups.py"
TK = "tracking.py"
OT = "observations/tracking.py"
R("g_amp", EF, ("""        on_bounds = x_start > x_stop
        if on_bounds:
            self.grid_extract = ma.concatenate(
                (data[x_start:, y_start:y_stop], data[:x_stop, y_start:y_stop])
            )
            if self.grid_extract.mask.size == 1:
                self.grid_extract = ma.array(
                    self.grid_extract,
                    mask=ones(self.grid_extract.shape, dtype="bool")
                    * self.grid_extract.mask,
                )
        else:
            self.grid_extract = data[x_start:x_stop, y_start:y_stop]
""", """        on_bounds = x_stop < x_start
        if not on_bounds:
            self.grid_extract = data[x_start:x_stop, y_start:y_stop]
        else:
            extract = ma.concatenate(
                (data[x_start:, y_start:y_stop], data[:x_stop, y_start:y_stop])
            )
            if extract.mask.size == 1:
                mask = ones(extract.shape, dtype="bool") * extract.mask
                extract = ma.array(extract, mask=mask)
            self.grid_extract = extract
"""), ("""        i_x = contour.pixels_index[0] - x_start
        if on_bounds:
            i_x %= data.shape[0]

        self.pixel_mask[i_x, contour.pixels_index[1] - y_start] = True
""", """        i_x, i_y = contour.pixels_index[0] - x_start, contour.pixels_index[1] - y_start
        if on_bounds:
            i_x %= data.shape[0]

        self.pixel_mask[i_x, i_y] = True
"""))
R("g_below", EF, ("""        if self.sla.mask.any() or ((self.sla.data - self.h_0) > self.EPSILON).any():
            return False
        else:
            # All local extrema index on th box
            lmi_i, lmi_j = detect_local_minima_(
                self.grid_extract.data,
                self.grid_extract.mask,
                self.pixel_mask,
                self.mle,
                1,
            )
            # After we use grid.data because index are in contour and we check before than no pixel are hide
            nb = len(lmi_i)
            if nb == 0:
                logger.warning(
                    "No extrema found in contour of %d pixels in level %f",
                    self.nb_pixel,
                    level,
                )
                return False
            elif nb == 1:
                i, j = lmi_i[0], lmi_j[0]
            else:
                # Verify if several extrema are seriously below contour
                nb_real_extrema = (
                    (level - self.grid_extract.data[lmi_i, lmi_j])
                    >= self.interval_min_secondary
                ).sum()
                if nb_real_extrema > self.mle:
                    return False
                index = self.grid_extract.data[lmi_i, lmi_j].argmin()
                i, j = lmi_i[index], lmi_j[index]
            self.amplitude = abs(self.grid_extract.data[i, j] - self.h_0)
            (x_start, _), (y_start, _) = self.contour.bbox_slice
            i += x_start
            j += y_start
            return i, j
""", """        if self.sla.mask.any():
            return False
        if ((self.sla.data - self.h_0) > self.EPSILON).any():
            return False
        data = self.grid_extract.data
        # All local extrema index on th box
        lmi_i, lmi_j = detect_local_minima_(
            data, self.grid_extract.mask, self.pixel_mask, self.mle, 1
        )
        # After we use grid.data because index are in contour and we check before than no pixel are hide
        nb = len(lmi_i)
        if nb == 0:
            logger.warning(
                "No extrema found in contour of %d pixels in level %f",
                self.nb_pixel,
                level,
            )
            return False
        if nb == 1:
            i, j = lmi_i[0], lmi_j[0]
        else:
            extrema = data[lmi_i, lmi_j]
            # Verify if several extrema are seriously below contour
            if (level - extrema >= self.interval_min_secondary).sum() > self.mle:
                return False
            index = extrema.argmin()
            i, j = lmi_i[index], lmi_j[index]
        self.amplitude = abs(data[i, j] - self.h_0)
        (x_start, _), (y_start, _) = self.contour.bbox_slice
        return i + x_start, j + y_start
"""))
R("g_minima", EF, ("""                    if general_mask[i_ + i, j_ + j]:
                        g[i_ + 1, j_ + 1] = 2e10
                    else:
                        g[i_ + 1, j_ + 1] = grid[i_ + i, j_ + j] * sign
""", """                    value = grid[i_ + i, j_ + j] * sign
                    if general_mask[i_ + i, j_ + j]:
                        value = 2e10
                    g[i_ + 1, j_ + 1] = value
"""), ("""            if g.min() == (grid[i, j] * sign) and pixel_mask[i, j]:
                xs.append(i)
                ys.append(j)
""", """            if not pixel_mask[i, j]:
                continue
            if g.min() == sign * grid[i, j]:
                xs.append(i)
                ys.append(j)
"""))
R("g_minima2", EF, ("""                    if gr[i0] == 0 and gr[i1] == 0:
                        # Nobody was link with a known group
                        gr[i0] = nb_group
                        gr[i1] = nb_group
                        nb_group += 1
                    elif gr[i0] == 0 and gr[i1] != 0:
                        # i1 is link not i0
                        gr[i0] = gr[i1]
                    elif gr[i1] == 0 and gr[i0] != 0:
                        # i0 is link not i1
                        gr[i1] = gr[i0]
""", """                    if gr[i0] == 0 and gr[i1] == 0:
                        # Nobody was link with a known group
                        gr[i0], gr[i1] = nb_group, nb_group
                        nb_group += 1
                    elif gr[i0] == 0:
                        # i1 is link not i0
                        gr[i0] = gr[i1]
                    elif gr[i1] == 0:
                        # i0 is link not i1
                        gr[i1] = gr[i0]
"""))
R("g_minima3", EF, ("""            nb = 0
            x_mean = 0
            y_mean = 0
            # Choose barycentre of group
            for i in range(nb_extrema):
                if gr_ == gr[i]:
                    x_mean += xs[i]
                    y_mean += ys[i]
                    nb += 1
            x_mean /= nb
            y_mean /= nb

            xs_new.append(numba_types.int32(round(x_mean)))
            ys_new.append(numba_types.int32(round(y_mean)))
""", """            nb, x_sum, y_sum = 0, 0, 0
            # Choose barycentre of group
            for i in range(nb_extrema):
                if gr[i] != gr_:
                    continue
                nb += 1
                x_sum += xs[i]
                y_sum += ys[i]
            xs_new.append(numba_types.int32(round(x_sum / nb)))
            ys_new.append(numba_types.int32(round(y_sum / nb)))
"""))
R("g_next", EF, ("""            if abs(origin.vertices[-1, 1] - path.vertices[0, 1]) < self.DELTA_PREC:
                if (path.vertices[0, 0] - origin.vertices[-1, 0]) > 1:
                    path.vertices[:, 0] -= 360
                origin.vertices = concatenate((origin.vertices, path.vertices))
                paths_right.pop(i)
                if self.check_closing(origin):
                    origin.vertices[-1] = origin.vertices[0]
                    return True
                return self.get_next(origin, paths_right, paths_left)
        return False
""", """            gap = abs(origin.vertices[-1, 1] - path.vertices[0, 1])
            if gap >= self.DELTA_PREC:
                continue
            if (path.vertices[0, 0] - origin.vertices[-1, 0]) > 1:
                path.vertices[:, 0] -= 360
            origin.vertices = concatenate((origin.vertices, path.vertices))
            paths_right.pop(i)
            if not self.check_closing(origin):
                return self.get_next(origin, paths_right, paths_left)
            origin.vertices[-1] = origin.vertices[0]
            return True
        return False
"""))
R("g_cinit", EF, ("""                x_min, y_min = contour.vertices.min(axis=0)
                x_max, y_max = contour.vertices.max(axis=0)
                ptp_min = self.DELTA_PREC * 100
                if abs(x_min - x_max) < ptp_min or abs(y_min - y_max) < ptp_min:
                    continue
                # Store to use latter
                contour.xmin = x_min
                contour.xmax = x_max
                contour.ymin = y_min
                contour.ymax = y_max
                keep_path.append(contour)
""", """                x_min, y_min = contour.vertices.min(axis=0)
                x_max, y_max = contour.vertices.max(axis=0)
                ptp_min = 100 * self.DELTA_PREC
                if abs(x_max - x_min) < ptp_min:
                    continue
                if abs(y_max - y_min) < ptp_min:
                    continue
                # Store to use latter
                contour.xmin, contour.xmax = x_min, x_max
                contour.ymin, contour.ymax = y_min, y_max
                keep_path.append(contour)
"""))
R("g_cinit2", EF, ("""                d_closed = (
                    (contour.vertices[0, 0] - contour.vertices[-1, 0]) ** 2
                    + (contour.vertices[0, 1] - contour.vertices[-1, 1]) ** 2
                ) ** 0.5
                if d_closed > self.DELTA_SUP and not keep_unclose:
                    continue
                elif d_closed != 0 and d_closed <= self.DELTA_SUP:
                    # Repair almost closed contour
                    if d_closed > self.DELTA_PREC:
                        almost_closed_contours += 1
                    else:
                        closed_contours += 1
                    contour.vertices[-1] = contour.vertices[0]
""", """                first, last = contour.vertices[0], contour.vertices[-1]
                d_closed = (
                    (first[0] - last[0]) ** 2 + (first[1] - last[1]) ** 2
                ) ** 0.5
                if d_closed > self.DELTA_SUP:
                    if not keep_unclose:
                        continue
                elif d_closed != 0:
                    # Repair almost closed contour
                    if d_closed > self.DELTA_PREC:
                        almost_closed_contours += 1
                    else:
                        closed_contours += 1
                    contour.vertices[-1] = contour.vertices[0]
"""))
R("g_label", EF, ("""        if eddies.sign_type == 1:
            # anticyclonic
            sl = slice(None, -1)
            cor = 1
        else:
            # cyclonic
            sl = slice(1, None)
            cor = 0
""", """        # anticyclonic or cyclonic
        anticyclonic = eddies.sign_type == 1
        sl = slice(None, -1) if anticyclonic else slice(1, None)
        cor = 1 if anticyclonic else 0
"""), ("""                for eddy in eddies:
                    d_h = abs(eddy["height_external_contour"] - contour_height)
                    # Heights of eddies are stored in simple precision
                    if d_h > 1e-6 * max(1.0, abs(contour_height)):
                        continue
                    # If eddy center in contour
                    wn = winding_number_poly(
                        eddy["lon_max"], eddy["lat_max"], i.vertices
                    )
                    if wn != 0:
                        # Count
                        nb += 1
""", """                epsilon = 1e-6 * max(1.0, abs(contour_height))
                for eddy in eddies:
                    d_height = abs(eddy["height_external_contour"] - contour_height)
                    # If eddy center in contour
                    if d_height <= epsilon and winding_number_poly(
                        eddy["lon_max"], eddy["lat_max"], i.vertices
                    ) != 0:
                        # Count
                        nb += 1
"""))
R("g_nearest", EF, ("""    if nb_c_per_l[level_index] == 0:
        return -1
    # First contour in level
    i_start_c = l_i[level_index]
    # First contour of the next level
    i_end_c = i_start_c + nb_c_per_l[level_index]

    # Flag to check if we iterate
    find_contour = 0
    # Upper than all the distances (in degrees)
    i_ref = i_start_c
    dist_ref = 1e10
""", """    nb_c = nb_c_per_l[level_index]
    if nb_c == 0:
        return -1
    # First contour in level
    i_start_c = l_i[level_index]
    # First contour of the next level
    i_end_c = i_start_c + nb_c

    # Flag to check if we iterate
    find_contour = False
    # Upper than all the distances (in degrees)
    i_ref, dist_ref = i_start_c, 1e10
"""), ("""        find_contour = 1
""", """        find_contour = True
"""), ("""    if find_contour == 0:
        return int_(-1)
""", """    if not find_contour:
        return int_(-1)
"""))
R("g_nearest2", EF, ("""        if y_min_per_c[i_elt_c] > ypt:
            continue
        if y_max_per_c[i_elt_c] < ypt:
            continue
        x_min = x_min_per_c[i_elt_c]
        xpt_ = (xpt - x_min) % 360 + x_min
        if x_min > xpt_:
            continue
        if x_max_per_c[i_elt_c] < xpt_:
            continue
""", """        if y_min_per_c[i_elt_c] > ypt or y_max_per_c[i_elt_c] < ypt:
            continue
        x_min, x_max = x_min_per_c[i_elt_c], x_max_per_c[i_elt_c]
        xpt_ = (xpt - x_min) % 360 + x_min
        if not (x_min <= xpt_ <= x_max):
            continue
"""))
R("g_missing", GP, ("""        if flag_untrack & (tr1 == indice_untrack):
            continue

        if tr1 != tr0:
            continue

        diff = t1 - t0
        if diff > dt:
            nbr_step[i] = int(diff / dt) - 1
""", """        untrack = flag_untrack & (tr1 == indice_untrack)
        if not untrack and tr1 == tr0:
            diff = t1 - t0
            if diff > dt:
                nbr_step[i] = int(diff / dt) - 1
"""), ("""    for i in range(array_time.size - 1):
        nbr_missing = nbr_step[i]

        if nbr_missing != 0:
            for k in range(nbr_missing):
                indices[j] = i + 1
                j += 1
    return indices
""", """    for i in range(array_time.size - 1):
        for k in range(nbr_step[i]):
            indices[j] = i + 1
            j += 1
    return indices
"""))
R("g_missing2", GP, ("""    t0 = array_time[0]
    t1 = t0

    tr0 = array_track[0]
    tr1 = tr0

    nbr_step""", """    nbr_step"""), ("""        t0 = t1
        tr0 = tr1

        t1 = array_time[i + 1]
        tr1 = array_track[i + 1]
""", """        t0, t1 = array_time[i], array_time[i + 1]
        tr0, tr1 = array_track[i], array_track[i + 1]
"""))
R("g_advect", GP, ("""    kw = dict(nb_step=6, time_step=86400 / 6)
    if n_days < 0:
        kw["backward"] = True
        n_days = -n_days
    p = c.advect(x, y, u_name=u_name, v_name=v_name, t_init=t0, **kw)
    for _ in range(n_days):
        t, x, y = p.__next__()
    return t, x, y
""", """    kw = dict(u_name=u_name, v_name=v_name, t_init=t0, nb_step=6, time_step=86400 / 6)
    if n_days < 0:
        kw["backward"] = True
    particles = c.advect(x, y, **kw)
    for _ in range(abs(n_days)):
        t, x, y = next(particles)
    return t, x, y
"""))
R("g_step", GP, ("""    m = ~(isnan(x) + isnan(y))
    i_end = full(x.shape, -1, dtype="i4")
    if m.any():
        # Id eddies for each alive particle in start contour
        i_end[m] = poly_indexs(x[m], y[m], *contours_end)
    shape = (contours_start[0].shape[0], 2)
    # Get target for each contour
    i_target, pct_target = full(shape, -1, dtype="i4"), zeros(shape, dtype="f8")
    nb_end = contours_end[0].shape[0]
    get_targets(i_start, i_end, i_target, pct_target, nb_end)
    return i_target, pct_target.astype("i1")
""", """    alive = ~(isnan(x) | isnan(y))
    i_end = full(x.shape, -1, dtype="i4")
    if alive.any():
        # Id eddies for each alive particle in start contour
        i_end[alive] = poly_indexs(x[alive], y[alive], *contours_end)
    nb_start, nb_end = contours_start[0].shape[0], contours_end[0].shape[0]
    # Get target for each contour
    i_target = full((nb_start, 2), -1, dtype="i4")
    pct_target = zeros((nb_start, 2), dtype="f8")
    get_targets(i_start, i_end, i_target, pct_target, nb_end)
    return i_target, pct_target.astype("i1")
"""))
R("g_cand", GP, ("""    # Id eddies for each alive particle in specified contour
    intern = False if contour_end == "effective" else True
    i_end = e_end.contains(x, y, intern=intern)
""", """    # Id eddies for each alive particle in specified contour
    i_end = e_end.contains(x, y, intern=contour_end != "effective")
"""), ("""    # Create particles in specified contour
    intern = False if contour_start == "effective" else True
    x, y, i_start = e.create_particles(step_mesh, intern=intern)
""", """    # Create particles in specified contour
    intern = not contour_start == "effective"
    x, y, i_start = e.create_particles(step_mesh, intern=intern)
"""))
R("g_targets", GP, ("""    for i in range(i_start.size):
        i_end_ = i_end[i]
        i_start_ = i_start[i]
        ref[i_start_] += 1
        if i_end_ != -1:
            counts[i_start_, i_end_] += 1
    # From i to j
    for i in range(nb_start):
        for j in range(nb_end):
            count = counts[i, j]
            if count == 0:
                continue
            pct_ = count / ref[i] * 100
            pct_0 = pct[i, 0]
            # If percent is higher than previous stored in rank 0
            if pct_ > pct_0:
                pct[i, 1] = pct_0
                pct[i, 0] = pct_
                i_target[i, 1] = i_target[i, 0]
                i_target[i, 0] = j
            # If percent is higher than previous stored in rank 1
            elif pct_ > pct[i, 1]:
                pct[i, 1] = pct_
                i_target[i, 1] = j
""", """    for i_start_, i_end_ in zip(i_start, i_end):
        ref[i_start_] += 1
        if i_end_ == -1:
            continue
        counts[i_start_, i_end_] += 1
    # From i to j
    for i in range(nb_start):
        for j in range(nb_end):
            if counts[i, j] == 0:
                continue
            pct_ = 100 * (counts[i, j] / ref[i])
            # If percent is higher than previous stored in rank 0
            if pct_ > pct[i, 0]:
                pct[i, 1], i_target[i, 1] = pct[i, 0], i_target[i, 0]
                pct[i, 0], i_target[i, 0] = pct_, j
            # If percent is higher than previous stored in rank 1
            elif pct_ > pct[i, 1]:
                pct[i, 1], i_target[i, 1] = pct_, j
"""))
R("g_interp", GP, ("""        for field in self.fields:
            if (
                field in ["n", "virtual", "track", "cost_association"]
                or field in self.array_variables
            ):
                continue
            self.obs[field][mask] = interp(
                index[mask], index[~mask], self.obs[field][~mask]
            )
""", """        known = ~mask
        untouched = ("n", "virtual", "track", "cost_association")
        for field in self.fields:
            if field in untouched:
                continue
            if field in self.array_variables:
                continue
            data = self.obs[field]
            data[mask] = interp(index[mask], index[known], data[known])
"""))
R("g_virt", GP, ("""        # new observations size
        size_obs_corrected = self.time.size + indices.size

        # correction of indexes for new size
        indices_corrected = indices + arange(indices.size)

        # creating mask with indexes
        mask = zeros(size_obs_corrected, dtype=bool)
        mask[indices_corrected] = 1

        new_TEO = self.new_like(self, size_obs_corrected)
        new_TEO.sign_type = self.sign_type
        new_TEO.obs[~mask] = self.obs
        new_TEO.filled_by_interpolation(mask)
        new_TEO.virtual[mask] = 1
        # A virtual observation belongs to the track of the observation before it
        new_TEO.track[mask] = self.track[indices - 1]
        # Indexes of other observations follow the insertion, -1 stays -1
        translate = append(where(~mask)[0], -1)
        for field in ("next_obs", "previous_obs"):
            if field in self.fields:
                new_TEO[field][~mask] = translate[self[field]]
        new_TEO.fix_next_previous_obs()
        return new_TEO
""", """        nb_new = indices.size
        # new observations size
        nb_obs = self.time.size + nb_new

        # creating mask with indexes corrected for new size
        mask = zeros(nb_obs, dtype=bool)
        mask[indices + arange(nb_new)] = True

        new = self.new_like(self, nb_obs)
        new.sign_type = self.sign_type
        new.obs[~mask] = self.obs
        new.filled_by_interpolation(mask)
        new.virtual[mask] = True
        # A virtual observation belongs to the track of the observation before it
        new.track[mask] = self.track[indices - 1]
        # Indexes of other observations follow the insertion, -1 stays -1
        real = ~mask
        translate = append(where(real)[0], -1)
        for field in ("next_obs", "previous_obs"):
            if field in self.fields:
                new[field][real] = translate[self[field]]
        new.fix_next_previous_obs()
        return new
"""))
R("g_bydate", GP, ("""        time = self.time

        mask = zeros(time.shape, dtype=bool)

        for i, b0, b1 in self.iter_on(self.tracks):
            _time = time[i]

            if date in _time and (date + nb_days) in _time:
                mask[i] = True
""", """        mask = zeros(self.time.shape, dtype=bool)

        for i, _, _ in self.iter_on(self.tracks):
            times = self.time[i]
            mask[i] = date in times and (date + nb_days) in times
"""))
R("g_atlas", GP, ("""            # Get index for origin
            i = t - t_start
            indexs0 = i_sort[i_start[i] : i_end[i]]
            # Get index for end
            i = t + dt - t_start
            indexs1 = i_sort[i_start[i] : i_end[i]]
            if indexs0.size == 0 or indexs1.size == 0:
                continue

            results.append(
                callback_coherence(
                    self,
                    i_target,
                    pct,
                    indexs0,
                    indexs1,
                    start_intern,
                    end_intern,
                    t_start=t,
                    **kw_coherence
                )
            )
            indexs[results[-1]] = indexs0, indexs1
""", """            # Get index for origin
            i_origin = t - t_start
            indexs0 = i_sort[i_start[i_origin] : i_end[i_origin]]
            # Get index for end
            i_target_time = i_origin + dt
            indexs1 = i_sort[i_start[i_target_time] : i_end[i_target_time]]
            if not (indexs0.size and indexs1.size):
                continue

            result = callback_coherence(
                self,
                i_target,
                pct,
                indexs0,
                indexs1,
                start_intern,
                end_intern,
                t_start=t,
                **kw_coherence
            )
            results.append(result)
            indexs[result] = indexs0, indexs1
"""))
R("g_fillc", GP, ("""        contours_start = [
            network[label][i_origin] for label in cls.intern(start_intern)
        ]
        contours_end = [network[label][i_end] for label in cls.intern(end_intern)]
""", """        xname, yname = cls.intern(start_intern)
        contours_start = [network[xname][i_origin], network[yname][i_origin]]
        xname, yname = cls.intern(end_intern)
        contours_end = [network[xname][i_end], network[yname][i_end]]
"""))
R("g_index", TK, ("""    for i, item in enumerate(items):
        for idx, val in enumerate(ar):
            if val == item:
                indexs[i] = idx
                break
    return indexs
""", """    for i in range(items.shape[0]):
        for idx in range(ar.shape[0]):
            if ar[idx] == items[i]:
                indexs[i] = idx
                break
    return indexs
"""))
R("g_swap", TK, ("""        self.previous2_obs = self.previous_obs
        self.previous_obs = self.current_obs
        kwargs = kwargs.copy()
        kwargs.update(self.class_kw)
        if self.memory:
            with open(dataset, "rb") as h:
                self.current_obs = self.class_method.load_file(h, *args, **kwargs)
        else:
            self.current_obs = self.class_method.load_file(dataset, *args, **kwargs)
""", """        self.previous2_obs, self.previous_obs = self.previous_obs, self.current_obs
        load_file = self.class_method.load_file
        kwargs = {**kwargs, **self.class_kw}
        if not self.memory:
            self.current_obs = load_file(dataset, *args, **kwargs)
            return
        with open(dataset, "rb") as h:
            self.current_obs = load_file(h, *args, **kwargs)
"""))
R("g_store", TK, ("""        # We set correspondance data for virtual obs : ID/LENGTH
        if self.previous2_obs is not None and self.virtual:
            nb_rebirth = correspondance["virtual"].sum()
            if nb_rebirth != 0:
""", """        # We set correspondance data for virtual obs : ID/LENGTH
        if self.virtual:
            nb_rebirth = correspondance["virtual"].sum()
            if nb_rebirth != 0:
"""), ("""        id_previous = (
            ones(len(self.previous_obs), dtype=self.ID_DTYPE) * self.UINT32_MAX
        )
        # We get old id for previously eddies tracked
        id_previous[self[-1]["out"]] = self[-1]["id"]
""", """        last = self[-1]
        nb_previous = len(self.previous_obs)
        id_previous = self.UINT32_MAX * ones(nb_previous, dtype=self.ID_DTYPE)
        # We get old id for previously eddies tracked
        id_previous[last["out"]] = last["id"]
"""))
R("g_store2", TK, ("""                i_virtual = correspondance["in"][m_virtual] - nb_real_obs
                correspondance["id"][m_virtual] = self.virtual_obs["track"][i_virtual]
                correspondance["virtual_length"][m_virtual] = self.virtual_obs[
                    "segment_size"
                ][i_virtual]
""", """                i_virtual = correspondance["in"][m_virtual] - nb_real_obs
                virtual = self.virtual_obs
                segment_size = virtual["segment_size"][i_virtual]
                correspondance["virtual_length"][m_virtual] = segment_size
                correspondance["id"][m_virtual] = virtual["track"][i_virtual]
"""), ("""        mask_new_id = correspondance["id"] == self.UINT32_MAX
        nb_new_tracks = mask_new_id.sum()
        logger.debug("%d birth in this step", nb_new_tracks)
        # Set new id
        correspondance["id"][mask_new_id] = self.id_generator(nb_new_tracks)
""", """        ids = correspondance["id"]
        mask_new_id = ids == self.UINT32_MAX
        nb_new_tracks = mask_new_id.sum()
        logger.debug("%d birth in this step", nb_new_tracks)
        # Set new id
        ids[mask_new_id] = self.id_generator(nb_new_tracks)
"""))
R("g_recense", TK, ("""        dead_id = setdiff1d(self[-2]["id"], self[-1]["id"])
        nb_dead = dead_id.shape[0]
""", """        previous, current = self[-2], self[-1]
        dead_id = setdiff1d(previous["id"], current["id"])
        nb_dead = dead_id.shape[0]
"""), ("""        i_dead_id = index(self[-2]["id"], dead_id)

        # Selection of observations on N-2 and N-1
        obs_a = self.previous2_obs.obs[self[-2][i_dead_id]["in"]]
        obs_b = self.previous_obs.obs[self[-2][i_dead_id]["out"]]

        self.virtual_obs = self.previous_obs.propagate(
            obs_a,
            obs_b,
            self.previous_virtual_obs.obs[i_virtual_dead_id][alive_virtual_obs]
            if nb_virtual_extend > 0
            else None,
            dead_track""", """        dead = previous[index(previous["id"], dead_id)]

        # Selection of observations on N-2 and N-1
        obs_a = self.previous2_obs.obs[dead["in"]]
        obs_b = self.previous_obs.obs[dead["out"]]
        obs_to_extend = None
        if nb_virtual_extend > 0:
            obs_to_extend = self.previous_virtual_obs.obs[i_virtual_dead_id][
                alive_virtual_obs
            ]

        self.virtual_obs = self.previous_obs.propagate(
            obs_a,
            obs_b,
            obs_to_extend,
            dead_track"""))
R("g_load", TK, ("""        # If we have a previous file of correspondance, we will replay only recent part
        if self.previous_correspondance is not None:
            first_dataset = len(self.previous_correspondance.datasets)
            for correspondance in self.previous_correspondance[:first_dataset]:
                self.append(correspondance)
""", """        # If we have a previous file of correspondance, we will replay only recent part
        previous = self.previous_correspondance
        if previous is not None:
            first_dataset = len(previous.datasets)
            for i in previous[:first_dataset]:
                self.append(i)
"""))
R("g_track", TK, ("""            nb_real_obs = len(self.previous_obs)
            if flg_virtual:
                logger.debug(
                    "%d virtual obs will be add to previous", len(self.virtual_obs)
                )
                self.previous_obs = self.previous_obs.merge(self.virtual_obs)
            i_previous, i_current, association_cost = self.previous_obs.tracking(
                self.current_obs
            )

            # return true if the first time (previous2obs is none)
            if self.store_correspondance(
                i_previous, i_current, nb_real_obs, association_cost
            ):
                continue

            self.recense_dead_id_to_extend()

            if self.virtual:
                flg_virtual = True
""", """            nb_real_obs = len(self.previous_obs)
            if flg_virtual:
                self._add_virtual_to_previous()
            match = self.previous_obs.tracking(self.current_obs)
            i_previous, i_current, association_cost = match

            # return true if the first time (previous2obs is none)
            first_time = self.store_correspondance(
                i_previous, i_current, nb_real_obs, association_cost
            )
            if not first_time:
                self.recense_dead_id_to_extend()
                flg_virtual = flg_virtual or self.virtual

    def _add_virtual_to_previous(self):
        logger.debug("%d virtual obs will be add to previous", len(self.virtual_obs))
        self.previous_obs = self.previous_obs.merge(self.virtual_obs)
"""))
R("g_mergec", TK, ("""        translate = empty(other.current_id, dtype="u4")
        translate[:] = self.UINT32_MAX

        translate[other[i[0] - 1]["id"]] = self[-1]["id"]

        mask = translate == self.UINT32_MAX
""", """        i0 = i[0]
        ids = other[i0 - 1]["id"]
        translate = empty(other.current_id, dtype="u4")
        translate[:] = self.UINT32_MAX
        translate[ids] = self[-1]["id"]

        mask = translate == self.UINT32_MAX
"""))
R("g_init", TK, ("""        if class_method is None:
            self.class_method = EddiesObservations
        else:
            self.class_method = class_method
""", """        self.class_method = EddiesObservations if class_method is None else class_method
"""))
R("h_longer", OT, ("""        mask = nb_obs >= nb_min
        nb_obs_select = mask.sum()
        logger.info("Selection of %d observations", nb_obs_select)
        eddies = self.__class__.new_like(self, nb_obs_select)
        eddies.sign_type = self.sign_type
        for field in self.fields:
            logger.debug("Copy of field %s ...", field)
            eddies.obs[field] = self.obs[field][mask]
""", """        mask = nb_min <= nb_obs
        nb_selected = mask.sum()
        logger.info("Selection of %d observations", nb_selected)
        eddies = self.new_like(self, nb_selected)
        eddies.sign_type = self.sign_type
        source, destination = self.obs, eddies.obs
        for field in self.fields:
            logger.debug("Copy of field %s ...", field)
            destination[field] = source[field][mask]
"""))
R("h_period", OT, ("""        if p_min > 0:
            mask = self.time >= p_min
        elif p_min < 0:
            mask = self.time >= (dataset_period[0] - p_min)
        else:
            mask = ones(self.time.shape, dtype=bool_)
        if p_max > 0:
            mask *= self.time <= p_max
        elif p_max < 0:
            mask *= self.time <= (dataset_period[1] + p_max)
        return self.extract_with_mask(mask, **kwargs)
""", """        time = self.time
        mask = ones(time.shape, dtype=bool_)
        if p_min != 0:
            t_min = p_min if p_min > 0 else dataset_period[0] - p_min
            mask &= time >= t_min
        if p_max != 0:
            t_max = p_max if p_max > 0 else dataset_period[1] + p_max
            mask &= time <= t_max
        return self.extract_with_mask(mask, **kwargs)
"""))
R("h_azim", OT, ("""        i0, nb = self.index_from_track, self.nb_obs_by_track
        i0 = i0[nb != 0]
        i1 = i0 - 1 + nb[nb != 0]
        lat0, lon0 = self.latitude[i0], self.longitude[i0]
        lat1, lon1 = self.latitude[i1], self.longitude[i1]
        lat0, lon0 = radians(lat0), radians(lon0)
        lat1, lon1 = radians(lat1), radians(lon1)
        dlon = lon1 - lon0
""", """        first, nb = self.index_from_track, self.nb_obs_by_track
        used = nb != 0
        i0 = first[used]
        i1 = i0 + nb[used] - 1
        lat0, lat1 = radians(self.latitude[i0]), radians(self.latitude[i1])
        dlon = radians(self.longitude[i1]) - radians(self.longitude[i0])
"""))
R("h_compidx", OT, ("""        if self.__first_index_of_track is None:
            s = self.tracks.max() + 1 if len(self) else 0
""", """        if self.__first_index_of_track is not None:
            return
        if True:
            s = 0
            if len(self) != 0:
                s = 1 + self.tracks.max()
"""))
R("h_concat", OT, ("""        for obs in observations:
            nb_obs = len(obs)
            sl = slice(i_start, i_start + nb_obs)
            new_track = obs.track + last_track
            eddies.track[sl] = new_track
            if nb_obs:
                last_track = new_track.max() + 1
            i_start += nb_obs
        return eddies
""", """        for obs in observations:
            nb_obs = len(obs)
            i_stop = i_start + nb_obs
            new_track = last_track + obs.track
            eddies.track[i_start:i_stop] = new_track
            i_start = i_stop
            if nb_obs:
                last_track = new_track.max() + 1
        return eddies
"""))
R("h_toward", OT, ("""        lon = self.longitude
        i0, nb = self.index_from_track, self.nb_obs_by_track
        # Numbers which are not used have no observation, index stays valid
        i1 = i0 - 1 + nb.clip(1)
        d_lon = (lon[i1] - lon[i0] + 180) % 360 - 180
        m = d_lon < 0 if west else d_lon > 0
        if delta_lon is not None:
            m *= delta_lon < abs(d_lon)
        m = m.repeat(nb)
        return self.extract_with_mask(m)
""", """        i_first, nb = self.index_from_track, self.nb_obs_by_track
        i_last = i_first + nb.clip(1) - 1
        d_lon = (self.longitude[i_last] - self.longitude[i_first] + 180) % 360 - 180
        if west:
            m = d_lon < 0
        else:
            m = d_lon > 0
        if delta_lon is not None:
            m = m * (abs(d_lon) > delta_lon)
        return self.extract_with_mask(m.repeat(nb))
"""))
R("h_firstbox", OT, ("""        data["lon"] = self.longitude - self.longitude % res
        data["lat"] = self.latitude - self.latitude % res
        data["track"] = self.track
        _, indexs = unique(data, return_index=True)
        mask = zeros(len(self), dtype="bool")
        mask[indexs] = True
""", """        lon, lat = self.longitude, self.latitude
        data["track"] = self.track
        data["lat"] = lat - lat % res
        data["lon"] = lon - lon % res
        indexs = unique(data, return_index=True)[1]
        mask = zeros(len(self), dtype="bool")
        mask[indexs] = True
"""))
R("h_dir", OT, ("""        if direction in ("S", "N"):
            d_lat = self.latitude[i_stop] - self.latitude[i_start]
            mask = d_lat < 0 if "S" == direction else d_lat > 0
            mask &= abs(d_lat) > value
        else:
            lon_start, lon_end = self.longitude[i_start], self.longitude[i_stop]
            lon_end = (lon_end - (lon_start - 180)) % 360 + lon_start - 180
            d_lon = lon_end - lon_start
            mask = d_lon < 0 if "W" == direction else d_lon > 0
            mask &= abs(d_lon) > value
        mask = mask.repeat(nb_obs)
        return self.extract_with_mask(mask)
""", """        if direction in ("S", "N"):
            delta = self.latitude[i_stop] - self.latitude[i_start]
        else:
            lon_start, lon_end = self.longitude[i_start], self.longitude[i_stop]
            ref = lon_start - 180
            delta = (lon_end - ref) % 360 + ref - lon_start
        if direction in ("S", "W"):
            mask = delta < 0
        else:
            mask = delta > 0
        mask = mask & (abs(delta) > value)
        return self.extract_with_mask(mask.repeat(nb_obs))
"""))
R("h_len", OT, ("""        b0, b1 = bounds
        if b0 >= 0 and b1 != -1:
            track_mask = (self.nb_obs_by_track >= b0) * (self.nb_obs_by_track <= b1)
        elif b0 == -1 and b1 >= 0:
            track_mask = self.nb_obs_by_track <= b1
        elif b0 >= 0 and b1 == -1:
            track_mask = self.nb_obs_by_track >= b0
        else:
            logger.warning("No valid value for bounds")
            raise Exception("One bound must be positive")
        return self.extract_with_mask(track_mask.repeat(self.nb_obs_by_track))
""", """        b0, b1 = bounds
        nb_obs = self.nb_obs_by_track
        if b0 >= 0 and b1 == -1:
            track_mask = nb_obs >= b0
        elif b0 >= 0:
            track_mask = (nb_obs >= b0) & (nb_obs <= b1)
        elif b0 == -1 and b1 >= 0:
            track_mask = nb_obs <= b1
        else:
            logger.warning("No valid value for bounds")
            raise Exception("One bound must be positive")
        return self.extract_with_mask(track_mask.repeat(nb_obs))
"""))
R("h_loess", OT, ("""        track = self.track
        x = self.obs[xfield]
        y = self.obs[yfield]
        result = track_loess_filter(half_window, x, y, track)
        if inplace:
            self.obs[yfield] = result
            return self
        return result
""", """        result = track_loess_filter(
            half_window, self.obs[xfield], self.obs[yfield], self.track
        )
        if not inplace:
            return result
        self.obs[yfield] = result
        return self
"""))
R("h_posfilt", OT, ("""        self.median_filter(median_half_window, "time", "lon").loess_filter(
            loess_half_window, "time", "lon"
        )
        self.median_filter(median_half_window, "time", "lat").loess_filter(
            loess_half_window, "time", "lat"
        )
""", """        for field in ("lon", "lat"):
            self.median_filter(median_half_window, "time", field)
            self.loess_filter(loess_half_window, "time", field)
"""))
R("h_mask", OT, ("""        if full_path:
            if reject_virtual:
                mask = mask * ~self.virtual.astype("bool")
            tracks = unique(self.tracks[mask])
            mask = self.get_mask_from_id(tracks)
        elif remove_incomplete:
            tracks = unique(self.tracks[~mask])
            mask = ~self.get_mask_from_id(tracks)
""", """        if full_path:
            if reject_virtual:
                mask = mask * ~self.virtual.astype("bool")
            mask = self.get_mask_from_id(unique(self.tracks[mask]))
        elif remove_incomplete:
            incomplete = unique(self.tracks[~mask])
            mask = ~self.get_mask_from_id(incomplete)
"""), ("""        if nb_obs == 0:
            logger.info("Empty dataset will be created")
        else:
            for field in self.fields:
                logger.debug("Copy of field %s ...", field)
                new.obs[field] = self.obs[field][mask]
            if compress_id:
                list_id = unique(new.track)
                list_id.sort()
                id_translate = arange(list_id.max() + 1)
                id_translate[list_id] = arange(len(list_id)) + 1
                new.track[:] = id_translate[new.track]
        return new
""", """        if nb_obs == 0:
            logger.info("Empty dataset will be created")
            return new
        for field in self.fields:
            logger.debug("Copy of field %s ...", field)
            new.obs[field] = self.obs[field][mask]
        if compress_id:
            new.track[:] = self._compress_id(new.track)
        return new

    @staticmethod
    def _compress_id(track):
        list_id = unique(track)
        list_id.sort()
        id_translate = arange(list_id.max() + 1)
        id_translate[list_id] = 1 + arange(len(list_id))
        return id_translate[track]
"""))
R("h_close", OT, ("""        indexs = list()
        for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
            i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
            indexs.append(other.re_reference_index(j, i_other))
        indexs = concatenate(indexs)
        tr, nb = unique(other.track[indexs], return_counts=True)
        return other.extract_ids(tr[nb >= nb_obs_min])
""", """        indexs = list()
        bins = arange(p0, p1 + 2)
        for i_self, i_other, _, _ in self.align_on(other, bins=bins):
            _, j, _ = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
            indexs.append(other.re_reference_index(j, i_other))
        tracks = other.track[concatenate(indexs)]
        tr, nb = unique(tracks, return_counts=True)
        return other.extract_ids(tr[nb_obs_min <= nb])
"""))
R("h_split", OT, ("""        ids["group"], ids["time"] = self.tracks, int_(self.time / timestep)
        # Initialisation
        # To store the id of the segments, the backward and forward cost associations
        ids["track"], ids["previous_cost"], ids["next_cost"] = 0, 0, 0
        # To store the indices of the backward and forward observations associated
        ids["previous_obs"], ids["next_obs"] = -1, -1
""", """        ids["time"] = int_(self.time / timestep)
        ids["group"] = self.tracks
        # Initialisation
        # To store the indices of the backward and forward observations associated
        for name in ("previous_obs", "next_obs"):
            ids[name] = -1
        # To store the id of the segments, the backward and forward cost associations
        for name in ("track", "previous_cost", "next_cost"):
            ids[name] = 0
"""))
R("h_split2", OT, ("""            m = local_ids["previous_obs"] != -1
            local_ids["previous_obs"][m] += i_s
            m = local_ids["next_obs"] != -1
            local_ids["next_obs"][m] += i_s
""", """            for name in ("previous_obs", "next_obs"):
                m = local_ids[name] != -1
                local_ids[name][m] += i_s
"""), ("""            if i_s == i_e or self.tracks[i_s] == self.NOGROUP:
                continue
""", """            if i_s == i_e:
                continue
            if self.tracks[i_s] == self.NOGROUP:
                continue
"""))
