"""Refactorings of windows and displays"""
from hand import R

GUI, ANIM, OB = "gui.py", "appli/gui.py", "observations/observation.py"
R("u_indexs", GUI, ("""        (x0, x1), (y0, y1) = self.bbox
        x, y = dataset.longitude, dataset.latitude
        m = (x0 < x) & (x < x1) & (y0 < y) & (y < y1) & (self.now == dataset.time)
        return np.where(m)[0]
""", """        (west, east), (south, north) = self.bbox
        lon, lat = dataset.longitude, dataset.latitude
        in_x = (lon > west) & (lon < east)
        in_y = (lat > south) & (lat < north)
        return np.where(in_x & in_y & (dataset.time == self.now))[0]
"""))
R("u_path", GUI, ("""            m = t <= self.now
            if m.sum():
                x_, y_ = split_line(x[m], y[m], tr[m])
                self.m[name]["path_previous"].set_data(x_, y_)
            else:
                self.m[name]["path_previous"].set_data([], [])
            m = t >= self.now
            if m.sum():
                x_, y_ = split_line(x[m], y[m], tr[m])
                self.m[name]["path_future"].set_data(x_, y_)
            else:
                self.m[name]["path_future"].set_data([], [])
            m = t == self.now
""", """            self.set_path(self.m[name]["path_previous"], x, y, tr, t <= self.now)
            self.set_path(self.m[name]["path_future"], x, y, tr, t >= self.now)
            m = t == self.now
"""), ("""    def update(self):
        time_text""", """    def set_path(self, line, x, y, tr, m):
        if m.sum():
            x_, y_ = split_line(x[m], y[m], tr[m])
            line.set_data(x_, y_)
        else:
            line.set_data([], [])

    def update(self):
        time_text"""))
R("u_keyboard", GUI, ("""        if event.key in self.KEYTIME:
            self.settings["now"] += self.KEYTIME[event.key]
            self.update()
        elif event.key == "home":
            self.settings["now"] = self.period[0]
            self.update()
        elif event.key == "end":
            self.settings["now"] = self.period[1]
            self.update()
""", """        key = event.key
        t0, t1 = self.period
        if key in self.KEYTIME:
            now = self.now + self.KEYTIME[key]
        elif key == "home":
            now = t0
        elif key == "end":
            now = t1
        else:
            return
        self.now = now
        self.update()
"""))
R("u_scroll", GUI, ("""        if event.inaxes != self.map:
            return
        if event.button == "up":
            self.settings["now"] += 1
        if event.button == "down":
            self.settings["now"] -= 1
        self.update()
""", """        if event.inaxes == self.map:
            if event.button == "up":
                self.settings["now"] += 1
            elif event.button == "down":
                self.settings["now"] -= 1
            self.update()
"""))
R("u_infos", GUI, ("""            v = track[n] * f
            min_, max_, mean_, std_ = v.min(), v.max(), v.mean(), v.std()
            txt += f"    {label} : {now[n] * f:.1f} {u} ({min_:.1f} <-{mean_:.1f}+-{std_:.1f}-> {max_:.1f})\\n"
        return track, txt.strip()
""", """            values = track[n] * f
            txt += (
                f"    {label} : {now[n] * f:.1f} {u} "
                f"({values.min():.1f} <-{values.mean():.1f}+-{values.std():.1f}-> {values.max():.1f})\\n"
            )
        return track, txt.strip()
"""))
R("u_animup", ANIM, ("""            segs = list()
            t = list()
            c = list()
            for i in where(m)[0]:
                segs.append(create_vertice(self.x[i], self.y[i]))
                if color:
                    c.append(self.field_color[i])
                t.append(self.now)
            self.segs.append(segs)
            if color:
                self.c_segs.append(c)
            self.t_segs.append(t)
""", """            indexs = where(m)[0]
            self.segs.append([create_vertice(self.x[i], self.y[i]) for i in indexs])
            if color:
                self.c_segs.append([self.field_color[i] for i in indexs])
            self.t_segs.append([self.now for _ in indexs])
"""))
R("u_period", GUI, ("""        t0, t1 = 1e6, 0
        for dataset in self.datasets.values():
            t0_, t1_ = dataset.period
            t0, t1 = min(t0, t0_), max(t1, t1_)
""", """        t0, t1 = 1e6, 0
        for dataset in self.datasets.values():
            start, end = dataset.period
            if start < t0:
                t0 = start
            if end > t1:
                t1 = end
"""))
R("u_scatter", OB, ("""        x = self.longitude
        if ref is not None:
            x = (x - ref) % 360 + ref
        kwargs = kwargs.copy()
        if name is not None and "c" not in kwargs:
            v = self.parse_varname(name)
            kwargs["c"] = v * factor
        return ax.scatter(x, self.latitude, **kwargs)
""", """        kwargs = dict(kwargs)
        if "c" not in kwargs and name is not None:
            kwargs["c"] = self.parse_varname(name) * factor
        lon = self.longitude
        if ref is not None:
            lon = (lon - ref) % 360 + ref
        return ax.scatter(lon, self.latitude, **kwargs)
"""))
R("u_move", GUI, ("""                x0_, x1_, y1_ = list(), list(), list()
                for name in self.datasets.keys():
                    if name in touch:""", """                x0_, x1_, y1_ = [], [], []
                for name in self.datasets:
                    if name in touch:"""), ("""            touch = dict()
            for name, dataset in""", """            touch = {}
            for name, dataset in"""))
