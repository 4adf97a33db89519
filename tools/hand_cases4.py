from hand import R

PO = "poly.py"
R("f_isleft", PO, ("""    product = (x_line_1 - x_line_0) * (y_test - y_line_0) - (x_test - x_line_0) * (
        y_line_1 - y_line_0
    )
    return product > 0
""", """    dx, dy = x_line_1 - x_line_0, y_line_1 - y_line_0
    return dx * (y_test - y_line_0) - dy * (x_test - x_line_0) > 0
"""))
R("f_contain", PO, ("""    nb_elt = xy_poly_in.shape[0]
    x = xy_poly_in[:, 0]
    x_ref = xy_poly_out[0, 0]
    d_x = abs(x[0] - x_ref)
    if d_x > 180:
        x = (x - x_ref + 180) % 360 + x_ref - 180
    for i_elt in prange(nb_elt):
        wn = winding_number_poly(x[i_elt], xy_poly_in[i_elt, 1], xy_poly_out)
        if wn == 0:
            return False
    return True
""", """    x, y = xy_poly_in[:, 0], xy_poly_in[:, 1]
    x_ref = xy_poly_out[0, 0]
    if abs(x[0] - x_ref) > 180:
        x = (x - x_ref + 180) % 360 + x_ref - 180
    for i_elt in prange(xy_poly_in.shape[0]):
        if winding_number_poly(x[i_elt], y[i_elt], xy_poly_out) == 0:
            return False
    return True
"""))
R("f_area", PO, ("""    p_area = x[0] * (y[1] - y[-2])
    nb = x.shape[0]
    for i in range(1, nb - 1):
        p_area += x[i] * (y[1 + i] - y[i - 1])
    return abs(p_area) * 0.5
""", """    nb = x.shape[0]
    total = x[0] * (y[1] - y[-2])
    i = 1
    while i < nb - 1:
        total += x[i] * (y[i + 1] - y[i - 1])
        i += 1
    return 0.5 * abs(total)
"""))
R("f_convex", PO, ("""    nb = x.shape[0]
    x0, y0, x1, y1, x2, y2 = x[-2], y[-2], x[-1], y[-1], x[1], y[1]
    # if first is left it must be always left if it's right it must be always right
    ref = is_left(x0, y0, x1, y1, x2, y2)
""", """    x0, y0 = x[-2], y[-2]
    x1, y1 = x[-1], y[-1]
    x2, y2 = x[1], y[1]
    # if first is left it must be always left if it's right it must be always right
    ref = is_left(x0, y0, x1, y1, x2, y2)
"""), ("""    for i in range(2, nb):
        # shift position
        x0, y0, x1, y1 = x1, y1, x2, y2
        x2, y2 = x[i], y[i]
        # test
        if ref != is_left(x0, y0, x1, y1, x2, y2):
            return False
    return True
""", """    for i in range(2, x.shape[0]):
        # shift position
        x0, y0 = x1, y1
        x1, y1 = x2, y2
        x2, y2 = x[i], y[i]
        # test
        same_side = is_left(x0, y0, x1, y1, x2, y2) == ref
        if not same_side:
            return False
    return True
"""))
R("f_wn", PO, ("""        if i_elt + 1 == nb_elt:
            # We close polygon with first value (no need to duplicate first value)
            x_next = xy_poly[0, 0]
            y_next = xy_poly[0, 1]
        else:
            x_next = xy_poly[i_elt + 1, 0]
            y_next = xy_poly[i_elt + 1, 1]
        if xy_poly[i_elt, 1] <= y:
            if y_next > y:
                if is_left(xy_poly[i_elt, 0], xy_poly[i_elt, 1], x_next, y_next, x, y):
                    wn += 1
        else:
            if y_next <= y:
                if not is_left(
                    xy_poly[i_elt, 0], xy_poly[i_elt, 1], x_next, y_next, x, y
                ):
                    wn -= 1
    return wn
""", """        # We close polygon with first value (no need to duplicate first value)
        i_next = 0 if i_elt + 1 == nb_elt else i_elt + 1
        x_start, y_start = xy_poly[i_elt, 0], xy_poly[i_elt, 1]
        x_next, y_next = xy_poly[i_next, 0], xy_poly[i_next, 1]
        if y_start <= y and y_next > y:
            if is_left(x_start, y_start, x_next, y_next, x, y):
                wn += 1
        elif y_start > y and y_next <= y:
            if not is_left(x_start, y_start, x_next, y_next, x, y):
                wn -= 1
    return wn
"""))
R("f_wngrid", PO, ("""    for i in prange(nb_x):
        x_pt = x_1d[i]
        for j in range(nb_y):
            y_pt = y_1d[j]
            wn[i, j] = winding_number_poly(x_pt, y_pt, xy_poly)
    i_x, i_y = where(wn)
    i_x += i_x0
    i_y += i_y0
    if i_x1 < i_x0:
        i_x %= x_size
    return i_x, i_y
""", """    for i in prange(nb_x):
        for j in range(nb_y):
            wn[i, j] = winding_number_poly(x_1d[i], y_1d[j], xy_poly)
    i_x, i_y = where(wn)
    i_y = i_y + i_y0
    i_x = i_x + i_x0
    if i_x0 > i_x1:
        i_x = i_x % x_size
    return i_x, i_y
"""))
R("f_close", PO, ("""            d_x = x1[i1] - xi0
            if abs(d_x) > 180:
                d_x = (d_x + 180) % 360 - 180
            if abs(d_x) > delta:
                continue
            if abs(y1[i1] - yi0) > delta:
                continue
            i.append(i0), j.append(i1), c.append(1)
    return array(i), array(j), array(c)
""", """            d_x = x1[i1] - xi0
            if abs(d_x) > 180:
                d_x = (d_x + 180) % 360 - 180
            d_y = y1[i1] - yi0
            if abs(d_x) <= delta and abs(d_y) <= delta:
                i.append(i0)
                j.append(i1)
                c.append(1)
    return array(i), array(j), array(c)
"""))
R("f_mesh", PO, ("""        vertice = create_vertice(*reduce_size(lon, lat))
        lon_min, lon_max = lon.min(), lon.max()
        lat_min, lat_max = lat.min(), lat.max()
        y0 = lat_min - lat_min % step
        x = lon_min - lon_min % step
        while x <= lon_max:
            y = y0
            while y <= lat_max:
                if winding_number_poly(x, y, vertice):
                    x_out.append(x), y_out.append(y), i_out.append(i)
                y += step
            x += step
""", """        lon_reduced, lat_reduced = reduce_size(lon, lat)
        vertice = create_vertice(lon_reduced, lat_reduced)
        lon_min, lat_min = lon.min(), lat.min()
        lon_max, lat_max = lon.max(), lat.max()
        x = lon_min - lon_min % step
        while x <= lon_max:
            y = lat_min - lat_min % step
            while y <= lat_max:
                if winding_number_poly(x, y, vertice) != 0:
                    x_out.append(x)
                    y_out.append(y)
                    i_out.append(i)
                y = y + step
            x = x + step
"""))
R("f_bbox", PO, ("""            if y_in_max < y1_min[i1] or y_in_min > y1_max[i1]:
                continue
            x1_min_ = x1_min[i1]
            x1_max_ = x1_max[i1]
            if abs(x_in_min - x1_min_) > 180:
                ref = x_in_min - 180
                x1_min_ = (x1_min_ - ref) % 360 + ref
                x1_max_ = (x1_max_ - ref) % 360 + ref
            if x_in_max < x1_min_ or x_in_min > x1_max_:
                continue
            i.append(i0)
            j.append(i1)
""", """            if y_in_max < y1_min[i1]:
                continue
            if y_in_min > y1_max[i1]:
                continue
            x1_min_, x1_max_ = x1_min[i1], x1_max[i1]
            if abs(x_in_min - x1_min_) > 180:
                ref = x_in_min - 180
                x1_min_ = (x1_min_ - ref) % 360 + ref
                x1_max_ = (x1_max_ - ref) % 360 + ref
            if x_in_max >= x1_min_ and x_in_min <= x1_max_:
                i.append(i0)
                j.append(i1)
"""))
R("f_wrap", PO, ("""    x0_, x1_ = x0[i], x1[i]
    if abs(x0_[0] - x1_[0]) > 180:
        ref = x0_[0] - x0.dtype.type(180)
        x1_ = (x1_ - ref) % 360 + ref
    return create_vertice(x0_, y0[i]), create_vertice(x1_, y1[i])
""", """    x_first, x_second = x0[i], x1[i]
    far = abs(x_first[0] - x_second[0]) > 180
    if far:
        ref = x_first[0] - x0.dtype.type(180)
        x_second = (x_second - ref) % 360 + ref
    v0 = create_vertice(x_first, y0[i])
    v1 = create_vertice(x_second, y1[i])
    return v0, v1
"""))
R("f_merge", PO, ("""    p = None
    for i in range(nb):
        p_ = Polygon(create_vertice(x[i], y[i]))
        if p is None:
            p = p_
        else:
            p += p_
    x, y = list(), list()
    for p_ in p:
        p_ = array(p_).T
        x.append((nan,))
        y.append((nan,))
        x.append(p_[0])
        y.append(p_[1])
    return concatenate(x), concatenate(y)
""", """    merged = None
    for i in range(nb):
        polygon = Polygon(create_vertice(x[i], y[i]))
        merged = polygon if merged is None else merged + polygon
    x_out, y_out = list(), list()
    for contour in merged:
        x_, y_ = array(contour).T
        x_out.extend(((nan,), x_))
        y_out.extend(((nan,), y_))
    return concatenate(x_out), concatenate(y_out)
"""))
R("f_overlap", PO, ("""        if intersection == 0:
            cost[i] = 0
            continue
        p0_area_, p1_area_ = p0.area(), p1.area()
        if minimal_area:
            cost_ = intersection / min(p0_area_, p1_area_)
        # we divide intersection with p1
        elif p1_area:
            cost_ = intersection / p1_area_
        # we divide intersection with polygon merging result from 0 to 1
        else:
            cost_ = intersection / (p0_area_ + p1_area_ - intersection)
        if cost_ >= min_overlap:
            cost[i] = cost_
        else:
            if (
                hybrid_area
                and cost_ != 0
                and (intersection / min(p0_area_, p1_area_)) > 0.99
            ):
                cost[i] = cost_
            else:
                cost[i] = 0
    return cost
""", """        if intersection == 0:
            cost[i] = 0
            continue
        p0_area_, p1_area_ = p0.area(), p1.area()
        if minimal_area:
            denominator = min(p0_area_, p1_area_)
        # we divide intersection with p1
        elif p1_area:
            denominator = p1_area_
        # we divide intersection with polygon merging result from 0 to 1
        else:
            denominator = p0_area_ + p1_area_ - intersection
        cost_ = intersection / denominator
        keep = cost_ >= min_overlap
        if not keep and hybrid_area and cost_ != 0:
            keep = intersection / min(p0_area_, p1_area_) > 0.99
        cost[i] = cost_ if keep else 0
    return cost
"""))
R("f_poverlap", PO, ("""        if minimal_area:
            cost[i] = intersection / min(p0.area(), p_.area())
        # we divide the intersection by the merged polygons area, result from 0 to 1
        else:
            cost[i] = intersection / (p0 + p_).area()
    return cost
""", """        if minimal_area:
            reference = min(p0.area(), p_.area())
        # we divide the intersection by the merged polygons area, result from 0 to 1
        else:
            reference = (p0 + p_).area()
        cost[i] = intersection / reference
    return cost
"""))
R("f_circle", PO, ("""    # last coordinates == first
    x_mean = x[1:].mean()
    y_mean = y[1:].mean()

    norme = (x[1:] - x_mean) ** 2 + (y[1:] - y_mean) ** 2
    norme_max = norme.max()
    scale = norme_max**0.5

    # Form matrix equation and solve it
    # Maybe put f4
    datas = ones((nb_elt - 1, 3))
    datas[:, 0] = 2.0 * (x[1:] - x_mean) / scale
    datas[:, 1] = 2.0 * (y[1:] - y_mean) / scale
""", """    # last coordinates == first
    x_, y_ = x[1:], y[1:]
    x_mean, y_mean = x_.mean(), y_.mean()
    dx, dy = x_ - x_mean, y_ - y_mean

    norme = dx**2 + dy**2
    norme_max = norme.max()
    scale = norme_max**0.5

    # Form matrix equation and solve it
    # Maybe put f4
    datas = ones((nb_elt - 1, 3))
    datas[:, 0] = 2.0 * dx / scale
    datas[:, 1] = 2.0 * dy / scale
"""))
R("f_circle2", PO, ("""    radius += x0**2 + y0**2
    radius **= 0.5
    x0 *= scale
    y0 *= scale
    # radius of fit circle
    radius *= scale
    # center X-position of fit circle
    x0 += x_mean
    # center Y-position of fit circle
    y0 += y_mean

    err = shape_error(x, y, x0, y0, radius)
    return x0, y0, radius, err
""", """    # radius of fit circle
    radius = (radius + x0**2 + y0**2) ** 0.5 * scale
    # center of fit circle
    x0 = x0 * scale + x_mean
    y0 = y0 * scale + y_mean

    return x0, y0, radius, shape_error(x, y, x0, y0, radius)
"""))
R("f_shape", PO, ("""    c_area = (r**2) * pi
    p_area = poly_area(x, y)
    nb = x.shape[0]
    x, y = x.copy(), y.copy()
    # Find distance between circle center and polygon
    for i in range(nb):
        dx, dy = x[i] - x0, y[i] - y0
        rd = r / (dx**2 + dy**2) ** 0.5
        if rd < 1:
            x[i] = x0 + dx * rd
            y[i] = y0 + dy * rd
    return 100 + (p_area - 2 * poly_area(x, y)) / c_area * 100
""", """    p_area = poly_area(x, y)
    c_area = pi * r**2
    x_in, y_in = x.copy(), y.copy()
    # Find distance between circle center and polygon
    for i in range(x.shape[0]):
        dx = x[i] - x0
        dy = y[i] - y0
        rd = r / (dx**2 + dy**2) ** 0.5
        if rd >= 1:
            continue
        x_in[i], y_in[i] = x0 + dx * rd, y0 + dy * rd
    common = poly_area(x_in, y_in)
    return 100 + (p_area - 2 * common) / c_area * 100
"""))
R("f_pix", PO, ("""    if x_stop < x_start:
        x_ref = vertices[0, 0]
        x_array = (
            (concatenate((x_c[x_start:], x_c[:x_stop])) - x_ref + 180) % 360
            + x_ref
            - 180
        )
        return winding_number_grid_in_poly(
            x_array,
            y_c[y_start:y_stop],
            x_start,
            x_stop,
            x_c.shape[0],
            y_start,
            vertices,
        )
    else:
        return winding_number_grid_in_poly(
            x_c[x_start:x_stop],
            y_c[y_start:y_stop],
            x_start,
            x_stop,
            x_c.shape[0],
            y_start,
            vertices,
        )
""", """    if x_stop < x_start:
        x_ref = vertices[0, 0]
        x_array = concatenate((x_c[x_start:], x_c[:x_stop]))
        x_array = (x_array - x_ref + 180) % 360 + x_ref - 180
    else:
        x_array = x_c[x_start:x_stop]
    y_array = y_c[y_start:y_stop]
    return winding_number_grid_in_poly(
        x_array, y_array, x_start, x_stop, x_c.shape[0], y_start, vertices
    )
"""))
R("f_tri", PO, ("""    x0, y0 = x[i0], y[i0]
    x1, y1 = x[i1], y[i1]
    x2, y2 = x[i2], y[i2]
    p_area2 = (x0 - x2) * (y1 - y0) - (x0 - x1) * (y2 - y0)
    return abs(p_area2)
""", """    x0, y0 = x[i0], y[i0]
    return abs((x0 - x[i2]) * (y[i1] - y0) - (x0 - x[i1]) * (y[i2] - y0))
"""))
R("f_visv", PO, ("""    i_previous[0] = -1
    i_next[0] = -1
    for i in range(1, nb):
        i_previous[i] = -1
        i_next[i] = -1
        # We add""", """    i_previous[:] = -1
    i_next[:] = -1
    for i in range(1, nb):
        # We add"""))
R("f_visv2", PO, ("""        # We check if triangle is valid(i0 or i2 not removed)
        if removed[i0] or removed[i2]:
            # In this cas nothing to do
            continue
        # Flag obs like removed
        removed[i1] = True
        # We count point still valid
        nb -= 1
        # Modify index for the next and previous, we jump over i1
        i_previous[i2] = i0
        i_next[i0] = i2
        # We insert 2 triangles which are modified by the deleted point
        # Previous triangle
        i_1 = i_previous[i0]
        if i_1 == -1:
            i_1 = (i0 - 1) % nb_ori
        heapq.heappush(h, (tri_area2(x, y, i_1, i0, i2), (i_1, i0, i2)))
        # Previous triangle
        i3 = i_next[i2]
        if i3 == -1:
            i3 = (i2 + 1) % nb_ori
        heapq.heappush(h, (tri_area2(x, y, i0, i2, i3), (i0, i2, i3)))
""", """        # We check if triangle is valid(i0 or i2 not removed)
        still_valid = not (removed[i0] or removed[i2])
        if still_valid:
            # We count point still valid
            nb -= 1
            # Flag obs like removed
            removed[i1] = True
            # Modify index for the next and previous, we jump over i1
            i_next[i0], i_previous[i2] = i2, i0
            # We insert 2 triangles which are modified by the deleted point
            i_1, i3 = i_previous[i0], i_next[i2]
            if i_1 == -1:
                i_1 = (i0 - 1) % nb_ori
            if i3 == -1:
                i3 = (i2 + 1) % nb_ori
            heapq.heappush(h, (tri_area2(x, y, i_1, i0, i2), (i_1, i0, i2)))
            heapq.heappush(h, (tri_area2(x, y, i0, i2, i3), (i0, i2, i3)))
"""))
R("f_visv3", PO, ("""    j = 0
    for i, flag in enumerate(removed):
        if not flag:
            x_new[j] = x[i]
            y_new[j] = y[i]
            j += 1
""", """    j = 0
    for i in range(nb_ori):
        if removed[i]:
            continue
        x_new[j], y_new[j] = x[i], y[i]
        j += 1
"""))
R("f_reduce", PO, ("""    i = x.shape[0]
    x0, y0 = x[0], y[0]
    while i > 0 and x[i - 1] == x0 and y[i - 1] == y0:
        i -= 1
    # In case of virtual obs all value could be fill with same value, to avoid empty array
    i = max(3, i)
    return x[:i], y[:i]
""", """    x0, y0 = x[0], y[0]
    i = x.shape[0]
    while i > 0:
        if x[i - 1] != x0 or y[i - 1] != y0:
            break
        i -= 1
    # In case of virtual obs all value could be fill with same value, to avoid empty array
    if i < 3:
        i = 3
    return x[:i], y[:i]
"""))
R("f_group", PO, ("""    nb = x.size
    i = empty(nb, dtype=numba_types.uint32)
    for k in range(nb):
        i[k] = box_index(x[k], y[k], step, nb_x)
    return i, i.argsort(kind="mergesort")
""", """    boxes = empty(x.size, dtype=numba_types.uint32)
    for k in range(x.size):
        boxes[k] = box_index(x[k], y[k], step, nb_x)
    order = boxes.argsort(kind="mergesort")
    return boxes, order
"""))
R("f_pidx", PO, ("""                    if indexs[i_p] != -1:
                        continue
                    y = y_p[i_p]
                    if y > y_c_max:
                        continue
                    if y < y_c_min:
                        continue
                    # Normalize longitude at +-180° around x_c_min
                    x = (x_p[i_p] - x_c_min + 180) % 360 + x_c_min - 180
                    if x > x_c_max:
                        continue
                    if x < x_c_min:
                        continue
                    if winding_number_poly(x, y, v) != 0:
                        indexs[i_p] = i_contour
""", """                    if indexs[i_p] != -1:
                        continue
                    y = y_p[i_p]
                    # Normalize longitude at +-180° around x_c_min
                    x = (x_p[i_p] - x_c_min + 180) % 360 + x_c_min - 180
                    if x < x_c_min or x > x_c_max or y < y_c_min or y > y_c_max:
                        continue
                    if winding_number_poly(x, y, v) != 0:
                        indexs[i_p] = i_contour
"""))
R("f_pidx2", PO, ("""    nb_x = 360
    step = 1.0
    i, i_order = group_obs(x_p, y_p, step, nb_x)
    nb_p = x_p.shape[0]
    nb_c = x_c.shape[0]
    indexs = -ones(nb_p, dtype=numba_types.int32)
    # Adress table to get test bloc
    start_index, end_index, i_first = build_index(i[i_order])
    nb_bloc = end_index.size
    for i_contour in range(nb_c):
        # Build vertice and box included contour
        x_, y_ = reduce_size(x_c[i_contour], y_c[i_contour])
        x_c_min, y_c_min = x_.min(), y_.min()
        x_c_max, y_c_max = x_.max(), y_.max()
        v = create_vertice(x_, y_)
""", """    step, nb_x = 1.0, 360
    indexs = -ones(x_p.shape[0], dtype=numba_types.int32)
    i, i_order = group_obs(x_p, y_p, step, nb_x)
    # Adress table to get test bloc
    start_index, end_index, i_first = build_index(i[i_order])
    nb_bloc = end_index.size
    for i_contour in range(x_c.shape[0]):
        # Build vertice and box included contour
        x_, y_ = reduce_size(x_c[i_contour], y_c[i_contour])
        v = create_vertice(x_, y_)
        x_c_min, x_c_max = x_.min(), x_.max()
        y_c_min, y_c_max = y_.min(), y_.max()
"""))
