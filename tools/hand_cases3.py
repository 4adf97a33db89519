from hand import R

GR = "dataset/grid.py"
R("e_witharray", GR, ("""        vd = dict() if variables_description is None else variables_description
        x_name, y_name = coordinates[0], coordinates[1]
""", """        if variables_description is None:
            variables_description = dict()
        x_name, y_name = coordinates[0], coordinates[1]
"""), ("""                attrs=vd.get(k, dict()),
""", """                attrs=variables_description.get(k, dict()),
"""), ("""                    dimensions=coordinates if k not in coordinates else (k,),
                    complevel=1,
                    zlib=True,
                ),
                infos=dict(),
            )
        obj.global_attrs = dict(history="Grid setup with an array")
""", """                    dimensions=(k,) if k in coordinates else coordinates,
                    complevel=1,
                    zlib=True,
                ),
                infos=dict(),
            )
        obj.global_attrs = {"history": "Grid setup with an array"}
"""))
R("e_getpix", GR, ("""            (x_start, x_stop), (y_start, y_stop) = contour.bbox_slice
            return get_pixel_in_regular(
                contour.vertices, self.x_c, self.y_c, x_start, x_stop, y_start, y_stop
            )
        else:
            (x_start, x_stop), (y_start, y_stop) = self.bbox_indice(contour)
            return get_pixel_in_regular(
                contour, self.x_c, self.y_c, x_start, x_stop, y_start, y_stop
            )
""", """            vertices, bbox = contour.vertices, contour.bbox_slice
        else:
            vertices, bbox = contour, self.bbox_indice(contour)
        (x_start, x_stop), (y_start, y_stop) = bbox
        return get_pixel_in_regular(
            vertices, self.x_c, self.y_c, x_start, x_stop, y_start, y_stop
        )
"""))
R("e_circ", GR, ("""        if self._is_circular is None:
            self._is_circular = (
                abs((self.x_bounds[0] % 360) - (self.x_bounds[-1] % 360)) < 0.0001
            )
        return self._is_circular
""", """        if self._is_circular is not None:
            return self._is_circular
        west, east = self.x_bounds[0], self.x_bounds[-1]
        self._is_circular = abs(west % 360 - east % 360) < 0.0001
        return self._is_circular
"""))
R("e_step", GR, ("""        step_y_km = self.ystep * distance(0, 0, 0, 1) / 1000
        step_x_km = self.xstep * distance(0, lat, 1, lat) / 1000
        min_wave_length = max(step_x_km, step_y_km) * 2
        if wave_length < min_wave_length:
            logger.error(
                "Wave_length too short for resolution, must be > %d km",
                ceil(min_wave_length),
            )
            raise Exception()
        return step_x_km, step_y_km
""", """        step_x_km, step_y_km = self._steps_in_km(lat)
        min_wave_length = 2 * max(step_x_km, step_y_km)
        if wave_length >= min_wave_length:
            return step_x_km, step_y_km
        logger.error(
            "Wave_length too short for resolution, must be > %d km",
            ceil(min_wave_length),
        )
        raise Exception()

    def _steps_in_km(self, lat):
        step_x_km = self.xstep * distance(0, lat, 1, lat) / 1000
        step_y_km = self.ystep * distance(0, 0, 0, 1) / 1000
        return step_x_km, step_y_km
"""))
R("e_finalize", GR, ("""        kernel_[half_x_pt * order :] = kernel
        kernel_[: half_x_pt * order] = kernel[:0:-1]
        # remove unused row/column
        k_valid = kernel_ != 0
        x_valid = where(k_valid.sum(axis=1))[0]
        x_slice = slice(x_valid[0], x_valid[-1] + 1)
        y_valid = where(k_valid.sum(axis=0))[0]
        y_slice = slice(y_valid[0], y_valid[-1] + 1)
        return kernel_[x_slice, y_slice]
""", """        i_center = half_x_pt * order
        kernel_[:i_center] = kernel[:0:-1]
        kernel_[i_center:] = kernel
        # remove unused row/column
        k_valid = kernel_ != 0

        def used(axis):
            valid = where(k_valid.sum(axis=axis))[0]
            return slice(valid[0], valid[-1] + 1)

        return kernel_[used(1), used(0)]
"""))
R("e_kernelb", GR, ("""        with errstate(invalid="ignore"):
            kernel = sinc(dist_norm / order) * j1(2 * pi * dist_norm) / dist_norm
        kernel[0, half_y_pt * order] = pi
        kernel[dist_norm > order] = 0
        return self.finalize_kernel(kernel, order, half_x_pt, half_y_pt)
""", """        with errstate(invalid="ignore"):
            window = sinc(dist_norm / order)
            kernel = window * j1(2 * pi * dist_norm) / dist_norm
        kernel[0, half_y_pt * order] = pi
        outside = dist_norm > order
        kernel[outside] = 0
        return self.finalize_kernel(kernel, order, half_x_pt, half_y_pt)
"""))
R("e_conv", GR, ("""        if isinstance(grid, str):
            data = self.grid(grid).copy()
        else:
            data = grid.copy()
        # Matrix for result
""", """        data = (self.grid(grid) if isinstance(grid, str) else grid).copy()
        # Matrix for result
"""))
R("e_conv2", GR, ("""            sl_lat_data = slice(max(0, i - d_lat), min(i + d_lat + 1, data.shape[1]))
            # slice to apply on temporary matrix to store input data
            sl_lat_in = slice(
                d_lat - (i - sl_lat_data.start), d_lat + (sl_lat_data.stop - i)
            )
""", """            j_start, j_stop = max(0, i - d_lat), min(i + d_lat + 1, data.shape[1])
            sl_lat_data = slice(j_start, j_stop)
            # slice to apply on temporary matrix to store input data
            sl_lat_in = slice(j_start + d_lat - i, j_stop + d_lat - i)
"""))
R("e_fd", GR, ("""        d = self.EARTH_RADIUS * 2 * pi / 360
        # Mulitply by 2 step
        if vertical:
            d *= self.ystep * 2 * schema
        else:
            d *= self.xstep * cos(deg2rad(self.y_c)) * 2 * schema
        return (data1 - data2) / d
""", """        d = self.EARTH_RADIUS * 2 * pi / 360
        # Mulitply by 2 step
        step = self.ystep if vertical else self.xstep * cos(deg2rad(self.y_c))
        return (data1 - data2) / (d * step * 2 * schema)
"""))
R("e_adduv", GR, ("""        for variable in (uname, vname):
            self.variables_description[variable] = dict(
                infos=h_dict["infos"].copy(),
                attrs=h_dict["attrs"].copy(),
                args=tuple((variable, *h_dict["args"][1:])),
                kwargs=h_dict["kwargs"].copy(),
                h_name=grid_height,
            )
            if "units" in self.variables_description[variable]["attrs"]:
                self.variables_description[variable]["attrs"]["units"] += "/s"
            if "long_name" in self.variables_description[variable]["attrs"]:
                self.variables_description[variable]["attrs"][
                    "long_name"
                ] += " gradient"
""", """        for variable in (uname, vname):
            attrs = h_dict["attrs"].copy()
            if "units" in attrs:
                attrs["units"] += "/s"
            if "long_name" in attrs:
                attrs["long_name"] += " gradient"
            self.variables_description[variable] = dict(
                infos=h_dict["infos"].copy(),
                attrs=attrs,
                args=(variable, *h_dict["args"][1:]),
                kwargs=h_dict["kwargs"].copy(),
                h_name=grid_height,
            )
"""))
R("e_adduv2", GR, ("""        # Compute v
        mode = "wrap" if self.is_circular() else "reflect"
        self.vars[vname] = (
            self.compute_stencil(data, mode=mode, stencil_halfwidth=stencil_halfwidth)
            * gof
        )
        # Compute u
        self.vars[uname] = (
            -self.compute_stencil(
                data, vertical=True, stencil_halfwidth=stencil_halfwidth
            )
            * gof
        )
""", """        mode = "wrap" if self.is_circular() else "reflect"
        dh_dx = self.compute_stencil(
            data, mode=mode, stencil_halfwidth=stencil_halfwidth
        )
        dh_dy = self.compute_stencil(
            data, vertical=True, stencil_halfwidth=stencil_halfwidth
        )
        self.vars[vname] = dh_dx * gof
        self.vars[uname] = -dh_dy * gof
"""))
R("e_regrid", GR, ("""        if new_name is None:
            new_name = grid_name
        x, y = meshgrid(self.x_c, self.y_c)
        # interp and reshape
        v_interp = (
            other.interp(grid_name, x.reshape(-1), y.reshape(-1)).reshape(x.shape).T
        )
        v_interp = ma.array(v_interp, mask=isnan(v_interp))
        # and add it to self
        self.add_grid(new_name, v_interp)
""", """        name = grid_name if new_name is None else new_name
        new_name = name
        x, y = meshgrid(self.x_c, self.y_c)
        # interp and reshape
        values = other.interp(grid_name, x.reshape(-1), y.reshape(-1))
        values = values.reshape(x.shape).T
        # and add it to self
        self.add_grid(name, ma.array(values, mask=isnan(values)))
"""))
R("e_uvadv", GR, ("""        u = (self.grid(u_name) if isinstance(u_name, str) else u_name).copy()
        v = (self.grid(v_name) if isinstance(v_name, str) else v_name).copy()
        # N seconds / 1 degrees in m
        coef = time_step * 180 / pi / self.EARTH_RADIUS * factor
        u *= coef / cos(radians(self.y_c))
        v *= coef
        if backward:
            u = -u
            v = -v
        m = u.mask + v.mask
        return u.data, v.data, m
""", """        u, v = (
            (self.grid(field) if isinstance(field, str) else field).copy()
            for field in (u_name, v_name)
        )
        # N seconds / 1 degrees in m
        coef = time_step * 180 / pi / self.EARTH_RADIUS * factor
        if backward:
            coef = -coef
        u *= coef / cos(radians(self.y_c))
        v *= coef
        m = u.mask + v.mask
        return u.data, v.data, m
"""))
R("e_uvadv2", GR, ("""        u = (self.grid(u_name) if isinstance(u_name, str) else u_name).copy()
        v = (self.grid(v_name) if isinstance(v_name, str) else v_name).copy()
        # N sec""", """        u, v = self._field(u_name).copy(), self._field(v_name).copy()
        # N sec"""), ("""    def uv_for_advection(
        self,
        u_name=None,""", """    def _field(self, name):
        if isinstance(name, str):
            return self.grid(name)
        return name

    def uv_for_advection(
        self,
        u_name=None,"""))
R("e_filament", GR, ("""        f_x = empty(nb * filament_size_, dtype="f4")
        f_y = empty(nb * filament_size_, dtype="f4")
        f_x[:] = nan
        f_y[:] = nan
        f_x[::filament_size_] = x
        f_y[::filament_size_] = y
        mp = isnan(x) + isnan(y)
""", """        f_x = full(nb * filament_size_, nan, dtype="f4")
        f_y = full(nb * filament_size_, nan, dtype="f4")
        f_x[::filament_size_], f_y[::filament_size_] = x, y
        mp = isnan(x) + isnan(y)
"""), ("    float_,\n", "    float_,\n    full,\n"))
R("e_advect_helper", GR, ("""@njit(cache=True)
def advect(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
""", """@njit(cache=True)
def load_quad(i0, j0, u_g, v_g, m_g, is_circular, nb_x_, nb_x):
    if not is_circular and (i0 < 0 or i0 > nb_x_):
        return True, nan, nan, nan, nan, nan, nan, nan, nan
    return get_uv_quad(i0, j0, u_g, v_g, m_g, nb_x)


@njit(cache=True)
def advect(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
"""), ("""                i0_old, j0_old = i0, j0
                if not is_circular and (i0 < 0 or i0 > nb_x_):
                    masked = True
                else:
                    masked, u00, u01, u10, u11, v00, v01, v10, v11 = get_uv_quad(
                        i0, j0, u_g, v_g, m_g, nb_x
                    )
            if masked:
                x[i], y[i] = nan, nan
                m[i] = True
                break
            u, v = interp_uv(xd, yd, u00, u01, u10, u11, v00, v01, v10, v11)
""", """                i0_old, j0_old = i0, j0
                masked, u00, u01, u10, u11, v00, v01, v10, v11 = load_quad(
                    i0, j0, u_g, v_g, m_g, is_circular, nb_x_, nb_x
                )
            if masked:
                x[i], y[i] = nan, nan
                m[i] = True
                break
            u, v = interp_uv(xd, yd, u00, u01, u10, u11, v00, v01, v10, v11)
"""))
R("e_advect_axy", GR, ("""            u, v = interp_uv(xd, yd, u00, u01, u10, u11, v00, v01, v10, v11)
            # Compute new x,y
            x[i] += u
            y[i] += v
""", """            dx, dy = interp_uv(xd, yd, u00, u01, u10, u11, v00, v01, v10, v11)
            # Compute new x,y
            x[i] = x[i] + dx
            y[i] = y[i] + dy
"""))
R("e_rk4", GR, ("""            # RK4 compute
            dx = (u1 + 2 * u2 + 2 * u3 + u4) / 6
            dy = (v1 + 2 * v2 + 2 * v3 + v4) / 6
            # Compute new x,y
            x_ += dx
            y_ += dy
        x[i] = x_
        y[i] = y_
""", """            # RK4 compute, new x,y
            x_ += (u1 + 2 * (u2 + u3) + u4) / 6
            y_ += (v1 + 2 * (v2 + v3) + v4) / 6
        x[i], y[i] = x_, y_
"""))
R("e_rk4t", GR, ("""            w_ = w - half_w
            u2, v2 = u0_ * w_ + u1_ * (1 - w_), v0_ * w_ + v1_ * (1 - w_)
""", """            w_half = w - half_w
            u2, v2 = u0_ * w_half + u1_ * (1 - w_half), v0_ * w_half + v1_ * (1 - w_half)
"""), ("""            u3, v3 = u0_ * w_ + u1_ * (1 - w_), v0_ * w_ + v1_ * (1 - w_)
""", """            u3, v3 = u0_ * w_half + u1_ * (1 - w_half), v0_ * w_half + v1_ * (1 - w_half)
"""), ("""            w_ -= half_w
            u4, v4 = u0_ * w_ + u1_ * (1 - w_), v0_ * w_ + v1_ * (1 - w_)
""", """            w_end = w_half - half_w
            u4, v4 = u0_ * w_end + u1_ * (1 - w_end), v0_ * w_end + v1_ * (1 - w_end)
"""))
R("e_path", GR, ("""        # If the path doesn't cross multiple pixels
        if delta == 0:
            i_g[ii : ii + delta + 1] = i_x0[i]
            j_g[ii : ii + delta + 1] = i_y0[i]
        # Vertical move
        elif d_x[i] == 0:
            sup = -1 if d_y[i] < 0 else 1
            i_g[ii : ii + delta + 1] = i_x0[i]
            j_g[ii : ii + delta + 1] = arange(i_y0[i], i_y1[i] + sup, sup)
""", """        end = ii + delta + 1
        # If the path doesn't cross multiple pixels
        if delta == 0:
            i_g[ii:end] = i_x0[i]
            j_g[ii:end] = i_y0[i]
        # Vertical move
        elif d_x[i] == 0:
            sup = -1 if d_y[i] < 0 else 1
            i_g[ii:end] = i_x0[i]
            j_g[ii:end] = arange(i_y0[i], i_y1[i] + sup, sup)
"""))
R("e_path2", GR, ("""    d_max = empty(nx, dtype=numba_types.int32)
    nb_value = 0
    for i in range(nx):
        d_max[i] = max(abs(d_x[i]), abs(d_y[i]))
        # Compute number of pixel we go trought
        nb_value += d_max[i] + 1
""", """    d_max = empty(nx, dtype=numba_types.int32)
    for i in range(nx):
        d_max[i] = max(abs(d_x[i]), abs(d_y[i]))
    # Compute number of pixel we go trought
    nb_value = 0
    for i in range(nx):
        nb_value += d_max[i] + 1
"""))
R("e_hasm", GR, ("""    for i, j in zip(i_x, i_y):
        if grid[i, j]:
            return True
    return False
""", """    for k in range(len(i_x)):
        if grid[i_x[k], i_y[k]]:
            return True
    return False
"""))
R("e_hasv", GR, ("""    for i, j in zip(i_x, i_y):
        if below:
            if grid[i, j] < value:
                return True
        else:
            if grid[i, j] > value:
                return True
    return False
""", """    for i, j in zip(i_x, i_y):
        pixel = grid[i, j]
        if (below and pixel < value) or (not below and pixel > value):
            return True
    return False
"""))
R("e_hasv2", GR, ("""    for i, j in zip(i_x, i_y):
        if below:
            if grid[i, j] < value:
                return True
        else:
            if grid[i, j] > value:
                return True
    return False
""", """    if below:
        for i, j in zip(i_x, i_y):
            if grid[i, j] < value:
                return True
        return False
    for i, j in zip(i_x, i_y):
        if grid[i, j] > value:
            return True
    return False
"""))
R("e_cube", GR, ("""            for i, t in enumerate(h.variables[t_name][:]):
                d = RegularGridDataset(
                    filename, x_name, y_name, indexs={t_name: i}, **kwargs
                )
                if heigth is not None:
                    d.add_uv(heigth)
                new.datasets.append((t, d))
        return new
""", """            times = h.variables[t_name][:]
            for i, t in enumerate(times):
                grid = RegularGridDataset(
                    filename, x_name, y_name, indexs={t_name: i}, **kwargs
                )
                if heigth is not None:
                    grid.add_uv(heigth)
                new.datasets.append((t, grid))
        return new
"""))
R("e_list", GR, ("""        for i, _t in enumerate(t):
            filename = filenames[i]
            logger.debug(f"load file {i:02d}/{len(t)} t={_t} : {filename}")
""", """        for i, (_t, filename) in enumerate(zip(t, filenames)):
            logger.debug(f"load file {i:02d}/{len(t)} t={_t} : {filename}")
"""))
R("e_interp", GR, ("""        v0 = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
        v1 = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
        w = (t - t0) / (t1 - t0)
        return v1 * w + v0 * (1 - w)
""", """        w = (t - t0) / (t1 - t0)
        before = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
        after = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
        return before * (1 - w) + after * w
"""))
R("e_quad", GR, ("""    if i0 < 0 or j0 < 0 or i1 >= i_max or j1 >= j_max:
        return True, nan, nan, nan, nan, nan, nan, nan, nan

    if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
        return True, nan, nan, nan, nan, nan, nan, nan, nan
""", """    outside = i0 < 0 or j0 < 0 or i1 >= i_max or j1 >= j_max
    if outside or m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
        return True, nan, nan, nan, nan, nan, nan, nan, nan
"""))
R("e_stencil", GR, ("""            i_ = i + 4
            if i_ >= nb_x:
                if is_circular:
                    i_ = i_ % nb_x
                    m4 = m[i_, j]
                    h4 = h[i_, j]
                else:
                    # When we are out
                    m4 = True
            else:
                m4 = m[i_, j]
                h4 = h[i_, j]
""", """            i_ = i + 4
            if is_circular:
                i_ = i_ % nb_x
            if i_ < nb_x:
                m4 = m[i_, j]
                h4 = h[i_, j]
            else:
                # When we are out
                m4 = True
"""))
R("e_stencil2", GR, ("""            if m1 ^ m_1:
                # unbalanced kernel
                if m_1:
                    grad[i, j] = (h1 - h0) * d_
                    m_out[i, j] = False
                    continue
                if m1:
                    grad[i, j] = (h0 - h_1) * d_
                    m_out[i, j] = False
                    continue
                continue
            if m2 or m_2 or stencil_halfwidth == 1:
                grad[i, j] = (h1 - h_1) / 2 * d_
                m_out[i, j] = False
                continue
            if m3 or m_3 or stencil_halfwidth == 2:
                grad[i, j] = (h_2 - h2 + 8 * (h1 - h_1)) / 12 * d_
                m_out[i, j] = False
                continue
            if m4 or m_4 or stencil_halfwidth == 3:
                grad[i, j] = (h3 - h_3 + 9 * (h_2 - h2) + 45 * (h1 - h_1)) / 60 * d_
                m_out[i, j] = False
                continue
            # If all values of buffer are available
            grad[i, j] = (
                (3 * (h_4 - h4) + 32 * (h3 - h_3) + 168 * (h_2 - h2) + 672 * (h1 - h_1))
                / 840
                * d_
            )
            m_out[i, j] = False
""", """            m_out[i, j] = False
            if m_1:
                # unbalanced kernel
                grad[i, j] = (h1 - h0) * d_
            elif m1:
                grad[i, j] = (h0 - h_1) * d_
            elif m2 or m_2 or stencil_halfwidth == 1:
                grad[i, j] = (h1 - h_1) / 2 * d_
            elif m3 or m_3 or stencil_halfwidth == 2:
                grad[i, j] = (h_2 - h2 + 8 * (h1 - h_1)) / 12 * d_
            elif m4 or m_4 or stencil_halfwidth == 3:
                grad[i, j] = (h3 - h_3 + 9 * (h_2 - h2) + 45 * (h1 - h_1)) / 60 * d_
            else:
                # If all values of buffer are available
                grad[i, j] = (
                    (
                        3 * (h_4 - h4)
                        + 32 * (h3 - h_3)
                        + 168 * (h_2 - h2)
                        + 672 * (h1 - h_1)
                    )
                    / 840
                    * d_
                )
"""))
R("e_uvcoef", GR, ("""        u, v = self.grid(uname), self.grid(vname)
        self._speed_ev = sqrt(u * u + v * v)
""", """        self._speed_ev = sqrt(self.grid(uname) ** 2 + self.grid(vname) ** 2)
"""))
