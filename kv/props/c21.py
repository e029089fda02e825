"""C21 visibility of points and plots of the trajectory"""
from .base import *
from .orbits import *
from .. import geo

EL, AZ = var("el"), var("az")
RH = 1 + sqrt(1 - A**2)
PTS = [[var(f"{c}{i}") for c in "xyz"] for i in range(6)]


class Points(np.ndarray):
    """array of terms whose comparisons are terms as well: only the verdict that is read splits cases"""

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        args = [np.asarray(x) if isinstance(x, Points) else x for x in args]
        if kw.get("out"):
            kw["out"] = tuple(np.asarray(x) if isinstance(x, Points) else x for x in kw["out"])
        if method == "__call__" and ufunc in COMPARISONS and "dtype" not in kw:
            kw["dtype"] = object
        r = getattr(ufunc, method)(*args, **kw)
        return r.view(Points) if isinstance(r, np.ndarray) and r.dtype == object else r

    def __array_function__(self, func, types, args, kw):
        r = super().__array_function__(func, types, args, kw)
        return r.view(Points) if isinstance(r, np.ndarray) and r.dtype == object else r


COMPARISONS = {np.greater, np.greater_equal, np.less, np.less_equal, np.equal, np.not_equal}


def spec_visible(p, el, az, rh, sqrt_=sqrt, cos_=lambda t: fn("cos", t), sin_=lambda t: fn("sin", t), pi=PI):
    """truth value, with case split on the three comparisons"""
    e, z = el * pi / 180, az * pi / 180
    n = (cos_(e) * cos_(z), cos_(e) * sin_(z), sin_(e))
    c = sum(u * v for u, v in zip(p, n))
    q = [u - c * v for u, v in zip(p, n)]
    if not sqrt_(sum(u * u for u in p)) > rh:
        return False
    return bool(c >= 0) or bool(sqrt_(sum(u * u for u in q)) > rh)


def body(npts):
    def b(K):
        o = object.__new__(K.orbit.Orbit)
        o.__dict__.update(a=A)
        want = [spec_visible(p, EL, AZ, RH) for p in PTS[:npts]]
        for nm, f in (("", lambda x: o.is_visible(x, EL, AZ)), (" by keyword", lambda x: o.is_visible(points=x, elevation=EL, azimuth=AZ))):
            arr = np.empty((npts, 3), dtype=object)
            for i in range(npts):
                arr[i] = PTS[i]
            v = f(arr)
            K.true("one verdict per point" + nm, T.TRUE if len(v) == npts else T.FALSE)
            for i in range(npts):
                got = v[i]
                K.true(f"point {i}{nm}", T.TRUE if bool(got) == want[i] else T.FALSE)
    return b


def each(npts, i):
    """the verdict of point i among npts"""
    def b(K):
        o = object.__new__(K.orbit.Orbit)
        o.__dict__.update(a=A)
        want = spec_visible(PTS[i], EL, AZ, RH)
        arr = np.empty((npts, 3), dtype=object)
        for j in range(npts):
            arr[j] = PTS[j]
        v = o.is_visible(arr.view(Points), EL, AZ)
        K.true("one verdict per point", T.TRUE if np.shape(v) == (npts,) else T.FALSE)
        K.true(f"point {i}", T.TRUE if bool(v[i]) == want else T.FALSE)
    return b


# ------------------------------------------------------------------ plot and animate on a symbolic orbit
L0 = var("l0")
OWN = tuple(var(f"q{i}") for i in range(4))
GIVEN = tuple(var(f"g{i}") for i in range(4))
LIMIT = 50.0


class Samples(Points):
    """values at the sampled times; the extremes (used for axis limits only, outside the contract) are constants"""

    def min(self, *a, **k):
        return -LIMIT

    def max(self, *a, **k):
        return LIMIT

    def __array_function__(self, func, types, args, kw):
        if func in (np.min, np.amin, np.nanmin):
            return -LIMIT
        if func in (np.max, np.amax, np.nanmax):
            return LIMIT
        if func in (np.ptp,):
            return 2 * LIMIT
        r = super().__array_function__(func, types, args, kw)
        return r.view(Samples) if isinstance(r, np.ndarray) and r.dtype == object else r

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        if ufunc is np.divide and method == "__call__" and isinstance(args[1], float) and math.isinf(args[1]):
            # decay without a time constant
            return (np.asarray(args[0]) * 0).view(Samples)
        r = super().__array_ufunc__(ufunc, method, *args, **kw)
        return r.view(Samples) if isinstance(r, np.ndarray) and r.dtype == object else r


def linspace(x, y, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    """contract of numpy.linspace"""
    if not (T._contains(x) or T._contains(y)):
        return np.linspace(x, y, num, endpoint, retstep, dtype, axis)
    if retstep or dtype is not None or axis:
        raise T.Unsupported("linspace options")
    num = int(num)
    d = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = S(x) + (S(y) - S(x)) * i / d if d > 0 else S(x)
    return out.view(Samples)


class Recorder:
    """stands for a figure, axis, artist, progress bar, ...: accepts every call and remembers it"""

    def __init__(self, name="", log=None):
        self.__dict__.update(_name=name, _log=[] if log is None else log, _made={}, _set={})

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in self._set:
            return self._set[k]
        return self._made.setdefault(k, Recorder(f"{self._name}.{k}", self._log))

    def __setattr__(self, k, v):
        self._set[k] = v

    def __call__(self, *a, **k):
        self._log.append((self._name, a, k))
        if self._name.endswith(".plot"):
            return [Recorder(self._name, self._log)]
        return Recorder(self._name + "()", self._log)

    def __getitem__(self, k):
        return self._made.setdefault(("item", k), Recorder(f"{self._name}[{k}]", self._log))

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False

    def __iter__(self):
        raise T.Unsupported("iteration over " + self._name)


class Scene:
    """matplotlib and tqdm replaced by recorders, the orbit by functions of Mino time that take arbitrary values at the sampled times"""

    def __init__(self, K, n, hidden):
        self.log = []
        self.lines, self.animations, self.asked = [], [], []
        self.n, self.hidden = n, hidden
        self.views = []
        o = self.o = object.__new__(K.orbit.Orbit)
        coef = [[var(f"{c}{i}") for i in range(n)] for c in ("t", "r", "h", "f")]

        def function(c):
            def f(lam):
                v = 0
                for k in reversed(c):
                    v = v * lam + k
                return v
            return f
        self.functions = [function(c) for c in coef]

        def trajectory(initial_phases=None, distance_units="natural", time_units="natural"):
            if (distance_units, time_units) != ("natural", "natural"):
                raise T.Unsupported("units in a plot")
            self.asked.append(initial_phases)
            return tuple(self.functions)

        def is_visible(points, elevation, azimuth):
            self.views.append((points, elevation, azimuth))
            if len(points) > len(hidden):
                raise T.Unsupported("visibility of other points")
            return np.array([not h for h in hidden[:len(points)]], dtype=bool)
        o.__dict__.update(a=A, initial_phases=OWN, trajectory=trajectory, is_visible=is_visible, stable=True, p=10.0, e=.1, x=1.0, E=.9, L=2.0, Q=1.0, M=None, mu=None)
        self.saved = []
        for name, f in (("plt", Recorder("plt", self.log)), ("Line3DCollection", self.collection), ("FuncAnimation", self.animation),
                        ("FFMpegWriter", Recorder("writer", self.log)), ("tqdm", Recorder("tqdm", self.log))):
            if not hasattr(K.orbit, name):
                raise T.Unsupported("no " + name)
            self.saved.append((K.orbit, name, getattr(K.orbit, name)))
            setattr(K.orbit, name, f)

    def __enter__(self):
        # symbolic numbers may be written into labels
        T.Sym.__format__ = lambda self, spec: "<number>"
        return self

    def __exit__(self, *e):
        if "__format__" in T.Sym.__dict__:
            del T.Sym.__format__
        for m, name, v in self.saved:
            setattr(m, name, v)
        return False

    def collection(self, segments, *a, **k):
        c = Recorder("tail", self.log)
        c.__dict__["segments"] = segments
        self.lines.append(c)
        return c

    def animation(self, fig, func, frames=None, init_func=None, fargs=None, **k):
        self.animations.append((func, frames, tuple(fargs or ())))
        return Recorder("animation", self.log)

    def expected(self, l0, l1):
        out = []
        for i in range(self.n):
            lam = S(l0) + (S(l1) - S(l0)) * i / (self.n - 1)
            _, r, th, ph = (f(lam) for f in self.functions)
            out.append((r * fn("sin", th) * fn("cos", ph), r * fn("sin", th) * fn("sin", ph), r * fn("cos", th)))
        return out

    def phases(self, K, given):
        want = OWN if given is None else given
        K.true("the trajectory with the requested phases is asked for", T.TRUE if self.asked else T.FALSE)
        for k, q in enumerate(self.asked):
            if q is None and given is None:
                K.ok("own phases")
                continue
            K.true("four phases", T.TRUE if q is not None and len(q) == 4 else T.FALSE)
            for i in range(4):
                K.eq(f"phase {i} of request {k}", q[i], want[i])

    def curve(self, K, name, segments, pts, hidden):
        K.true(f"{name}: one segment between consecutive samples", T.TRUE if len(segments) == max(0, len(pts) - 1) else T.FALSE)
        for i, s in enumerate(segments):
            K.true(f"{name}: segment {i} has two end points", T.TRUE if np.shape(s)[:1] == (2,) else T.FALSE)
            for j in (0, 1):
                gone = [isinstance(v, float) and v != v for v in s[j]]
                K.true(f"{name}: sample {i + j} is drawn exactly when visible (segment {i})", T.TRUE if any(gone) == hidden[i + j] else T.FALSE)
                if not any(gone):
                    for c in range(3):
                        K.eq(f"{name}: {'xyz'[c]} of sample {i + j} (segment {i})", s[j][c], pts[i + j][c])

    def camera(self, K, name, pts, el, az, views):
        K.true(f"{name}: visibility is decided", T.TRUE if views else T.FALSE)
        for p, e, z in views:
            if not len(p):
                continue
            K.eq(f"{name}: elevation of the visibility test", e, el)
            K.eq(f"{name}: azimuth of the visibility test", z, az)
            for i, v in enumerate(p):
                for c in range(3):
                    K.eq(f"{name}: point {i} tested, {'xyz'[c]}", v[c], pts[i][c])


def camera_calls(log):
    out = []
    for name, a, k in log:
        if name.endswith(".view_init"):
            d = dict(zip(("elev", "azim", "roll"), a))
            d.update(k)
            out.append(d)
    return out


def limits(log):
    """axis -> last limits set"""
    out = {}
    for name, a, k in log:
        for c in "xyz":
            if name.endswith((f".set_{c}lim", f".set_{c}lim3d")):
                v = a[0] if len(a) == 1 else a
                if k or len(v) != 2:
                    raise T.Unsupported("axis limits by keyword")
                out[c] = tuple(v)
    return out


def panels(log):
    """artist name of the panel's line -> coordinate shown (by its label)"""
    out = {}
    for name, a, k in log:
        if name.endswith(".set_ylabel"):
            c = {"t": 0, "r": 1, r"\theta": 2, r"\phi": 3}.get(str(a[0]).strip("$ "))
            if c is None:
                raise T.Unsupported("panel " + str(a[0]))
            out[name[:-len("set_ylabel")] + "plot"] = c
    return out


def plot_body(n, density, given, defaults=False):
    def b(K):
        l1 = L0 + S(n) / density + S(1) / (2 * density)
        for pattern in range(2**n):
            hidden = [bool(pattern >> i & 1) for i in range(n)]
            with Scene(K, n, hidden) as sc:
                kw = {} if density == 200 else dict(point_density=density)
                if given is not None:
                    kw["initial_phases"] = given
                el, az = (EL, AZ) if not defaults else (30, -60)
                if not defaults:
                    kw.update(elevation=EL, azimuth=AZ)
                sc.o.plot(L0, l1, **kw)
                nm = "hidden " + "".join("01"[h] for h in hidden)
                pts = sc.expected(L0, l1)
                sc.phases(K, given)
                K.true(f"{nm}: one curve", T.TRUE if len(sc.lines) == 1 else T.FALSE)
                sc.curve(K, nm, sc.lines[0].__dict__["segments"], pts, hidden)
                sc.camera(K, nm, pts, el, az, sc.views)
                cams = camera_calls(sc.log)
                K.true(f"{nm}: camera is set", T.TRUE if cams else T.FALSE)
                K.eq(f"{nm}: camera elevation", cams[-1].get("elev"), el)
                K.eq(f"{nm}: camera azimuth", cams[-1].get("azim"), az)
                marks = [a for name, a, k in sc.log if name.endswith(".scatter")]
                if len(marks) == 1 and len(marks[0]) == 3:
                    for c in range(3):
                        K.eq(f"{nm}: {'xyz'[c]} of the body", marks[0][c] if isinstance(marks[0][c], T.Sym) else marks[0][c][0], pts[-1][c])
    return b


def animate_body(n, given, pan):
    def b(K):
        l1 = L0 + S(n) / 240 + S(1) / 480
        for pattern in ((1 << n) - 1, 0, 5 & ((1 << n) - 1), 2):
            hidden = [bool(pattern >> i & 1) for i in range(n)]
            with Scene(K, n, hidden) as sc:
                kw = dict(elevation=EL, azimuth=AZ, speed=0.125)
                cam = [(EL, AZ)] * n
                times = [S(L0) + (l1 - L0) * i / (n - 1) for i in range(n)]
                rolls, lims = [S(0)] * n, None
                if pan:
                    kw.update(elevation_pan=lambda t: EL + t, azimuthal_pan=lambda t: AZ - 2 * t, roll=lambda t: 3 * t - EL, axis_limit=lambda t: 5 + t * t, plot_components=True)
                    rolls, lims = [3 * t - EL for t in times], [5 + t * t for t in times]
                    times = [S(L0) + (l1 - L0) * i / (n - 1) for i in range(n)]
                    cam = [(EL + t, AZ - 2 * t) for t in times]
                if given is not None:
                    kw["initial_phases"] = given
                sc.o.animate("none.mp4", L0, l1, **kw)
                pts = sc.expected(L0, l1)
                nm = "hidden " + "".join("01"[h] for h in hidden)
                sc.phases(K, given)
                K.true(f"{nm}: one animation with one frame per sample", T.TRUE if len(sc.animations) == 1 and sc.animations[0][1] == n else T.FALSE)
                func, _, fargs = sc.animations[0]
                shown = panels(sc.log)
                K.true(f"{nm}: component panels", T.TRUE if sorted(shown.values()) == ([0, 1, 2, 3] if pan else []) else T.FALSE)
                lim = limits(sc.log)
                for c in "xyz":
                    K.true(f"{nm}: {c} axis has limits", T.TRUE if c in lim else T.FALSE)
                    K.eq(f"{nm}: black hole at the centre of the {c} axis", lim[c][0] + lim[c][1], 0)
                for j in range(n):
                    del sc.log[:], sc.views[:]
                    func(j, *fargs)
                    fr = f"{nm}, frame {j}"
                    seg = [a[0] for name, a, k in sc.log if name.endswith(".set_segments")]
                    K.true(f"{fr}: the tail is redrawn", T.TRUE if len(seg) == 1 else T.FALSE)
                    sc.curve(K, fr, seg[0], pts[:j], hidden)
                    sc.camera(K, fr, pts, *cam[j], sc.views)
                    c = camera_calls(sc.log)
                    K.eq(f"{fr}: camera elevation", c[-1].get("elev"), cam[j][0])
                    K.eq(f"{fr}: camera azimuth", c[-1].get("azim"), cam[j][1])
                    K.eq(f"{fr}: camera roll", S(0) if c[-1].get("roll") is None else c[-1]["roll"], rolls[j])
                    lim = limits(sc.log)
                    for c in "xyz" if lims else lim:
                        K.eq(f"{fr}: black hole at the centre of the {c} axis", lim[c][0] + lim[c][1], 0)
                        if lims:
                            K.eq(f"{fr}: limit of the {c} axis", lim[c][1], lims[j])
                    if pan:
                        data = {shown[name[:-len(".set_data")]]: a for name, a, k in sc.log if name.endswith(".set_data") and name[:-len(".set_data")] in shown}
                        K.true(f"{fr}: every panel is updated", T.TRUE if sorted(data) == [0, 1, 2, 3] and all(len(v) == 2 and len(v[0]) == len(v[1]) == j for v in data.values()) else T.FALSE)
                        for q, (xs, ys) in data.items():
                            for i in range(j):
                                K.eq(f"{fr}: time {i} of panel {q}", xs[i], times[i])
                                K.eq(f"{fr}: value {i} of panel {q}", ys[i], sc.functions[q](times[i]))
                    body = [x for x in fargs if isinstance(x, Recorder) and "_offsets3d" in x._set]
                    for x in body[:1]:
                        for c in range(3):
                            K.eq(f"{fr}: {'xyz'[c]} of the body", x._set["_offsets3d"][c][0], pts[j][c])
    return b


def point(rng, a):
    """points of every class: inside, in front, behind and hidden, behind and beside"""
    rh = 1 + math.sqrt(1 - a * a)
    r = rh * rng.choice([rng.uniform(0.02, 0.999), rng.uniform(1.001, 1.5), rng.uniform(1.001, 6), rng.uniform(3, 40)])
    z, ph = rng.uniform(-1, 1), rng.uniform(-math.pi, math.pi)
    s = math.sqrt(1 - z * z)
    return [r * s * math.cos(ph), r * s * math.sin(ph), r * z]


def edge_point(rng, a, el, az):
    """a point close to one of the edges: plane through the hole, rim of the shadow, horizon"""
    rh = 1 + math.sqrt(1 - a * a)
    e, z, t = math.radians(el), math.radians(az), rng.uniform(0, 2 * math.pi)
    n = np.array([math.cos(e) * math.cos(z), math.cos(e) * math.sin(z), math.sin(e)])
    u = np.array([-math.sin(e) * math.cos(z), -math.sin(e) * math.sin(z), math.cos(e)])
    w = np.cross(n, u)
    s, d = math.cos(t) * u + math.sin(t) * w, rng.choice([-1, 1]) * 10 ** rng.uniform(-7, -0.5)
    k = rng.random()
    if k < 0.4:
        p = rh * d * n + rh * rng.choice([1 + abs(d), 1.02, rng.uniform(1, 3), rng.uniform(0, 1)]) * s
    elif k < 0.8:
        p = rng.choice([-1, -1, 1]) * rh * rng.uniform(0, 30) * n + rh * (1 + d) * s
    else:
        c = rng.uniform(-1, 1)
        p = rh * (1 + d) * (c * n + math.sqrt(1 - c * c) * s)
    return [float(x) for x in p]


def view(rng):
    return rng.choice([30.0, -60.0, 0.0, 90.0, -90.0, rng.uniform(-180, 180)]), rng.choice([-60.0, 0.0, 90.0, 180.0, 360.0, rng.uniform(-400, 400)])


class C21(Prop):
    id = "C21"
    explanation = ("is_visible is executed on symbolic points, angles and spin (point sets of one to six points): on every path the verdict of each point is "
                   "the one of the specification for that point alone. plot and animate are executed for two to four samples of an orbit whose coordinates take "
                   "arbitrary values at the sampled times, symbolic start, camera angles and phases (own and given) and every pattern of visible points: phases "
                   "asked for, points tested, segments drawn, camera (elevation, azimuth, roll), axis limits, position of the body and component panels are proved. Both are also run on concrete orbits with up to 14000 samples and the artists "
                   "compared with the orbit's own trajectory, the requested sampling and the visibility (bounded).")
    assumptions = ["is_visible treats point sets of more than six points like smaller ones, plot and animate more than four samples (bounded checks with up to 400 "
                   "points and 14000 samples)", "matplotlib draws the artists it is given; colours, amount of line width and opacity and the axis limits of plot are outside the contract"]
    monitor_seconds = 60

    def vcs(self, tier):
        out = []
        for n in (1, 2):
            def smp(rng, n=n):
                d = dict(a=rng.uniform(0.05, 0.95), el=rng.uniform(-80, 80), az=rng.uniform(-170, 170))
                for i in range(n):
                    d.update(zip((f"x{i}", f"y{i}", f"z{i}"), point(rng, d["a"])))
                return d

            def conc(d, n=n):
                return dict(kind="visible", a=d["a"], el=d["el"], az=d["az"], points=[[d[f"{c}{i}"] for c in "xyz"] for i in range(n)])
            out.append(VC(f"is_visible, {n} point{'s' * (n > 1)}", ["Orbit.is_visible"], body(n), [lt(0, A), lt(A, 1)], smp, concretize=conc,
                          nsamples=40, max_paths=80, min_obligations=4))
        for n in range(1, 7):
            for i in range(n):
                def smp(rng, n=n):
                    d = dict(a=rng.uniform(0.05, 0.95), el=rng.uniform(-80, 80), az=rng.uniform(-170, 170))
                    for j in range(n):
                        d.update(zip((f"x{j}", f"y{j}", f"z{j}"), point(rng, d["a"])))
                    return d

                def conc(d, n=n):
                    return dict(kind="visible", a=d["a"], el=d["el"], az=d["az"], points=[[d[f"{c}{j}"] for c in "xyz"] for j in range(n)])
                out.append(VC(f"is_visible, point {i + 1} of {n}", ["Orbit.is_visible"], each(n, i), [lt(0, A), lt(A, 1)], smp, concretize=conc,
                              nsamples=40, max_paths=80, min_obligations=2))
        for n in (2, 3, 4):
            for given in (None, GIVEN):
                def smp(rng, n=n):
                    d = dict(a=rng.uniform(0.05, 0.95), el=rng.uniform(-80, 80), az=rng.uniform(-170, 170), l0=rng.uniform(-2, 2))
                    for i in range(n):
                        d.update({f"{c}{i}": rng.uniform(-3, 3) for c in "trhf"})
                    for i in range(4):
                        d[f"q{i}"], d[f"g{i}"] = rng.uniform(-6, 6), rng.uniform(-6, 6)
                    return d

                def conc(d, n=n, given=given):
                    return dict({k: float(v) for k, v in d.items()}, kind="scene", n=n, given=given is not None)
                ph = "own phases" if given is None else "given phases"
                for density, defaults in ((200, True), (37, False)):
                    out.append(VC(f"plot, {n} samples, {ph}, density {density}", ["Orbit.plot"], plot_body(n, density, given, defaults), [lt(0, A), lt(A, 1)], smp,
                                  replace={np.linspace: linspace}, nsamples=3, min_obligations=10))
                if n < 4:
                    for pan in (False, True):
                        out.append(VC(f"animate, {n} samples, {ph}, {'moving' if pan else 'fixed'} camera", ["Orbit.animate"], animate_body(n, given, pan), [lt(0, A), lt(A, 1)], smp,
                                      replace={np.linspace: linspace}, nsamples=3, min_obligations=10))
        return out

    def cases(self, rng, tier):
        for i in range(400 if tier == "quick" else 4000):
            a = rng.choice([0.0, rng.uniform(0.0, 0.999), 0.9])
            el, az = view(rng)
            edges = rng.random() < .6
            yield dict(kind="visible", a=a, el=el, az=az, points=[edge_point(rng, a, el, az) if edges and rng.random() < .5 else point(rng, a)
                                                                   for _ in range(rng.choice([1, 2, 3, 4, 7, 50, 400]) if i % 8 else 3)])
            if i % 8 == 0:
                for c in concrete_cases(rng, 1, rng.choice(["s", "s", "s", "c", "r"])):
                    l0 = rng.choice([0.0, 0.0, rng.uniform(-1, 2)])
                    yield dict(c, kind2=c["kind"], kind="plot", el=el, az=az, l0=l0, l1=l0 + rng.uniform(0.3, 1.6), density=rng.choice([4000, 9000] if i % 80 == 0 else [None, 37, 101, 200, 1200]),
                               own=rng.choice([0, 1, 2]), grid=rng.choice([None, True, False]), axes=rng.choice([None, True, False]), tau=rng.choice([None, 0.7]), lw=rng.choice([None, 2]))
            if i % 40 == 1:
                d = {f"{c}{k}": rng.uniform(-3, 3) for k in range(4) for c in "trhfqg"}
                yield dict(d, kind="scene", n=rng.choice([2, 3, 4]), a=a, el=el, az=az, l0=rng.uniform(-2, 2), given=rng.random() < .5)
                for c in concrete_cases(rng, 1, "s"):
                    yield dict(c, kind2=c["kind"], kind="animate", el=el, az=az, l0=rng.choice([0.0, 0.5]), own=rng.choice([0, 1, 2]), speed=rng.choice([1, 1, .125, .5, 2]),
                               length=rng.choice([.5, .5, 1.7, 6.5]), tail=rng.choice([None, None, 1, 2]), pan=rng.choice([0, 1, 2, 3]), more=rng.random() < .5, grid=rng.choice([None, True, False]), axes=rng.choice([None, True, False]))

    def check(self, inp):
        if inp["kind"] == "visible":
            return visible_check(inp)
        if inp["kind"] == "scene":
            return scene_check(inp)
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        try:
            return plot_check(inp) if inp["kind"] == "plot" else animate_check(inp)
        finally:
            plt.close("all")


def verdicts(pts, a, el, az, eps=1e-9):
    """1, 0, or None within eps of an edge"""
    rh = 1 + math.sqrt(1 - a * a)
    e, z = math.radians(el), math.radians(az)
    n = np.array([math.cos(e) * math.cos(z), math.cos(e) * math.sin(z), math.sin(e)])
    out = []
    for p in np.asarray(pts, float):
        c = float(p @ n)
        d, q = float(np.linalg.norm(p)), float(np.linalg.norm(p - c * n))
        if abs(d - rh) < eps or d > rh and (abs(c) < eps and q < rh + eps or c < 0 and abs(q - rh) < eps):
            out.append(None)
        else:
            out.append(d > rh and (c >= 0 or q > rh))
    return out


def bare(a):
    o = object.__new__(kg()["orbit"].Orbit)
    o.a = a
    return o


def visible_check(inp):
    a, el, az = float(inp["a"]), inp["el"], inp["az"]
    pts = np.array(inp["points"], float)
    o = bare(a)
    want = verdicts(pts, a, el, az)
    out = []
    for nm, v in (("", o.is_visible(pts.copy(), el, az)), (" by keyword", o.is_visible(points=pts.copy(), elevation=el, azimuth=az)),
                  (" reversed", o.is_visible(pts[::-1].copy(), el, az)[::-1])):
        if np.shape(v) != (len(pts),):
            return [f"is_visible{nm}: shape {np.shape(v)} for {len(pts)} points"]
        for i, (g, w) in enumerate(zip(v, want)):
            if w is not None and bool(g) != w:
                out.append(f"is_visible{nm}: point {pts[i].tolist()} is {'visible' if w else 'hidden'} (a={a}, elevation {el}, azimuth {az}), got {bool(g)}")
    return out[:5]


def drawn(inp):
    """(orbit, phases argument, trajectory functions the plot must show)"""
    o = Concrete(dict(inp, kind=inp["kind2"]))
    if not o.ok:
        return None
    own = inp["own"]
    orb = o.orbit(o.q if own != 2 else (0.1, 0.2, 0.3, 0.4))
    given = None if own == 0 else (0.0, 0.0, 0.0, 0.0) if own == 1 else tuple(o.q)
    return o, orb, given, o.orbit(given if given is not None else o.q).trajectory()


def cartesian(f, time):
    r, th, ph = f[1](time), f[2](time), f[3](time)
    return np.column_stack((r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)))


def line(ax):
    """the one Line3DCollection: its segments as an array (n, 2, 3)"""
    from mpl_toolkits.mplot3d.art3d import Line3DCollection
    c = [x for x in ax.collections if isinstance(x, Line3DCollection)]
    if len(c) != 1:
        return None
    return np.asarray(np.ma.filled(np.ma.asarray(c[0]._segments3d), np.nan), float) if len(c[0]._segments3d) else np.zeros((0, 2, 3))


def body_at(ax):
    """the position of the one marker, and the largest deviation of the drawn hole from the sphere of the horizon"""
    from mpl_toolkits.mplot3d.art3d import Path3DCollection
    c = [x for x in ax.collections if isinstance(x, Path3DCollection)]
    if len(c) != 1:
        return None
    at = np.array([np.asarray(v, float).ravel() for v in c[0]._offsets3d])
    return at[:, 0] if at.shape == (3, 1) else None


def fade(nm, ax, attr):
    """opacity or line width never decreases towards the body"""
    from mpl_toolkits.mplot3d.art3d import Line3DCollection
    for c in ax.collections:
        if isinstance(c, Line3DCollection):
            v = getattr(c, "get_" + attr)()
            v = np.asarray(v, float).ravel() if v is not None else np.array([])
            n = len(c._segments3d)
            if n > 1 and len(v) >= n and np.any(np.diff(v[:n]) < -1e-12):
                return [f"{nm}: {attr} falls from {v[:n].max()} to {v[n - 1]} towards the body"]
    return []


def decorations(nm, ax, grid, axes):
    out = []
    if hasattr(ax, "_axis3don") and bool(ax._axis3don) != bool(axes):
        out.append(f"{nm}: axes {'shown' if ax._axis3don else 'hidden'}, asked for {axes}")
    if hasattr(ax, "_draw_grid") and bool(ax._draw_grid) != bool(grid):
        out.append(f"{nm}: grid {'shown' if ax._draw_grid else 'hidden'}, asked for {grid}")
    return out


def hole(nm, ax, a):
    """the drawn sphere has the radius of the event horizon"""
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection
    rh = 1 + math.sqrt(1 - a * a)
    for c in ax.collections:
        if isinstance(c, Poly3DCollection) and hasattr(c, "_vec"):
            d = np.linalg.norm(np.asarray(c._vec, float)[:3], axis=0)
            if len(d) and not np.all(abs(d - rh) < 1e-6):
                return [f"{nm}: black hole drawn with radius {d.min()} to {d.max()}, horizon is at {rh}"]
    return []


def compare_curve(nm, seg, pts, vis):
    out = []
    if seg is None or len(seg) != len(pts) - 1:
        return [f"{nm}: {None if seg is None else len(seg)} segments for {len(pts)} sampled points"]
    got = np.vstack((seg[:, 0], seg[-1:, 1]))
    if len(seg) > 1 and not np.array_equal(seg[1:, 0], seg[:-1, 1], equal_nan=True):
        out.append(f"{nm}: segments are not joined")
    for i, (g, w, v) in enumerate(zip(got, pts, vis)):
        hidden = bool(np.isnan(g).any())
        if v is not None and hidden == v:
            out.append(f"{nm}: sample {i} at {w.tolist()} is {'hidden' if hidden else 'drawn'}")
        if not hidden and not np.allclose(g, w, rtol=1e-7, atol=1e-7):
            out.append(f"{nm}: sample {i} drawn at {g.tolist()}, trajectory is at {w.tolist()}")
        if len(out) > 3:
            break
    return out


def plot_check(inp):
    d = drawn(inp)
    if d is None:
        return []
    o, orb, given, f = d
    l0, l1, el, az = (float(inp[k]) for k in ("l0", "l1", "el", "az"))
    if not o.stable and len(o.safe(np.linspace(l0, l1, 41))) < 41:
        return []
    kw = dict(elevation=el, azimuth=az)
    for k in ("grid", "axes"):
        if inp[k] is not None:
            kw[k] = inp[k]
    dens = 200
    if inp["density"]:
        dens = kw["point_density"] = inp["density"]
    if given is not None:
        kw["initial_phases"] = given
    for k in ("tau", "lw"):
        if inp[k] is not None:
            kw[k] = inp[k]
    # the two views at which every angle is a default as well
    if el == 30.0 and az == -60.0:
        del kw["elevation"], kw["azimuth"]
    fig, ax = orb.plot(l0, l1, **kw) if l0 else orb.plot(lambda1=l1, **kw)
    n = int((l1 - l0) * dens)
    time = np.linspace(l0, l1, n)
    pts = cartesian(f, time)
    out = compare_curve("plot", line(ax), pts, verdicts(pts, o.a, el, az, 1e-6))
    if (ax.elev, ax.azim) != (el, az):
        out.append(f"plot: camera at elevation {ax.elev}, azimuth {ax.azim}, asked for {el}, {az}")
    at = body_at(ax)
    if at is not None and not np.allclose(at, pts[-1], rtol=1e-7, atol=1e-7):
        out.append(f"plot: body at {at.tolist()}, the last sample is {pts[-1].tolist()}")
    return out + hole("plot", ax, o.a) + fade("plot", ax, "linewidth") + decorations("plot", ax, kw.get("grid", True), kw.get("axes", True))


def scene_check(inp):
    """plot and animate on an orbit whose coordinates are polynomials in Mino time"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    n, a, el, az, l0 = inp["n"], inp["a"], inp["el"], inp["az"], inp["l0"]
    given = tuple(inp[f"g{i}"] for i in range(4)) if inp["given"] else None
    own = tuple(inp[f"q{i}"] for i in range(4))
    f = [lambda lam, c=c: sum(inp[f"{c}{i}"] * np.asarray(lam)**i for i in range(n)) for c in "trhf"]
    o = bare(a)
    asked = []

    def trajectory(initial_phases=None, distance_units="natural", time_units="natural"):
        asked.append(initial_phases)
        return tuple(f)
    o.__dict__.update(initial_phases=own, trajectory=trajectory, stable=True, p=10.0, e=.1, x=1.0, E=.9, L=2.0, Q=1.0, M=None, mu=None)
    out = []
    kw = {} if given is None else dict(initial_phases=given)
    want = own if given is None else given
    try:
        for density in (None, 37):
            l1 = l0 + (n + .5) / (density or 200)
            fig, ax = o.plot(l0, l1, elevation=el, azimuth=az, **kw, **(dict(point_density=density) if density else {}))
            pts = cartesian(f, np.linspace(l0, l1, n))
            out += compare_curve("plot", line(ax), pts, verdicts(pts, a, el, az, 1e-6))
            if abs(ax.elev - el) + abs(ax.azim - az) > 1e-9:
                out.append(f"plot: camera at elevation {ax.elev}, azimuth {ax.azim}, asked for {el}, {az}")
        for pan in (False, True):
            l1 = l0 + (n + .5) / 240
            time = np.linspace(l0, l1, n)
            pts = cartesian(f, time)
            k2 = dict(elevation_pan=lambda t: el + t, azimuthal_pan=lambda t: az - 2 * t, roll=lambda t: 3 * t - el, axis_limit=lambda t: 5 + t * t, plot_components=True) if pan else {}
            cams = [(el + t, az - 2 * t) if pan else (el, az) for t in time]
            for i, seg, cam, more in run_animation(o, range(n), lambda0=l0, lambda1=l1, elevation=el, azimuth=az, speed=0.125, **k2, **kw) or []:
                if i > 1:
                    out += compare_curve(f"animation frame {i}", seg, pts[:i], verdicts(pts[:i], a, *cams[i], 1e-6))
                if abs(cam[0] - cams[i][0]) + abs(cam[1] - cams[i][1]) > 1e-9:
                    out.append(f"animation: camera {cam}, asked for {cams[i]}")
                out += compare_frame(f"animation frame {i}", more, pts[i], 3 * time[i] - el if pan else 0.0, 5 + time[i] ** 2 if pan else None, (f, time[:i]) if pan else None)
    finally:
        plt.close("all")
    for q in asked:
        if not (q is None and given is None) and (q is None or not np.allclose(q, want, rtol=1e-12, atol=0)):
            out.append(f"plot: trajectory with phases {q} for {want}")
    return out[:6]


def run_animation(orb, indices, **kw):
    """frames of the animation: (index, drawn segments, camera); None when it cannot be made here"""
    import matplotlib.animation as man
    import contextlib
    import io
    import os
    import tempfile
    frames = []

    def save(self, *a, **k):
        # stands for the encoder: draws single frames
        for i in indices:
            self._func(i, *self._args)
            ax = self._fig.axes[0]
            frames.append((i, line(ax), (ax.elev, ax.azim), (body_at(ax), getattr(ax, "roll", None), [tuple(getattr(ax, f"get_{c}lim3d")()) for c in "xyz"],
                                                             {q.get_ylabel(): [np.asarray(v, float) for v in q.lines[0].get_data()] for q in self._fig.axes[1:] if len(q.lines) == 1},
                                                             hole(f"animation frame {i}", ax, orb.a) + fade(f"animation frame {i}", ax, "alpha") +
                                                             decorations("animation", ax, kw.get("grid", True), kw.get("axes", True)))))
    old = man.Animation.save
    man.Animation.save = save
    try:
        with contextlib.redirect_stderr(io.StringIO()), tempfile.TemporaryDirectory() as tmp:
            orb.animate(os.path.join(tmp, "x.mp4"), **kw)
    except (RuntimeError, FileNotFoundError):
        return None
    finally:
        man.Animation.save = old
    return frames


def compare_frame(nm, more, at, roll, limit, comps):
    """body, roll, limits and component panels of one frame"""
    body, r, lims, shown, out = more
    out = list(out)
    if body is not None and not np.allclose(body, at, rtol=1e-7, atol=1e-7):
        out.append(f"{nm}: body at {body.tolist()}, trajectory is at {list(at)}")
    if r is not None and abs(r - roll) > 1e-9:
        out.append(f"{nm}: camera rolled by {r}, asked for {roll}")
    for c, l in zip("xyz", lims):
        if abs(l[0] + l[1]) > 1e-6 * (1 + abs(l[1])) or limit is not None and abs(l[1] - limit) > 1e-6 * (1 + limit):
            out.append(f"{nm}: {c} axis shows {l}, required +-{limit if limit is not None else l[1]}")
    if comps is not None:
        for lab, k in (("$t$", 0), ("$r$", 1), (r"$\theta$", 2), (r"$\phi$", 3)):
            if lab not in shown:
                out.append(f"{nm}: no panel {lab}")
                continue
            x, y = shown[lab]
            if len(x) != len(comps[1]) or not np.allclose(x, comps[1], rtol=1e-9, atol=1e-9) or not np.allclose(y, comps[0][k](comps[1]), rtol=1e-7, atol=1e-7, equal_nan=True):
                out.append(f"{nm}: panel {lab} shows {len(x)} points {y[-2:].tolist()}, trajectory has {len(comps[1])}, {comps[0][k](comps[1])[-2:].tolist() if len(comps[1]) else []}")
    return out


def animate_check(inp):
    d = drawn(inp)
    if d is None or not d[0].stable:
        return []
    o, orb, given, f = d
    l0, el, az = (float(inp[k]) for k in ("l0", "el", "az"))
    out = []
    # moving camera, tails shorter than the part already travelled, one frame in eight samples or every sample
    speed, length, tail = inp["speed"], inp["length"], inp["tail"]
    kw = dict(lambda0=l0, lambda1=l0 + length, elevation=el, azimuth=az)
    if given is not None:
        kw["initial_phases"] = given
    if tail is not None:
        kw["tail_length"] = tail
    if speed != 1:
        kw["speed"] = speed
    pan = inp["pan"]
    if pan & 1:
        kw["elevation_pan"] = lambda t: el - 20 * t
    if pan & 2:
        kw["azimuthal_pan"] = lambda t: az + 55 * t
    for k in ("grid", "axes"):
        if inp.get(k) is not None:
            kw[k] = inp[k]
    if inp.get("more"):
        kw.update(roll=lambda t: 9 * t - 4, axis_limit=lambda t: 20 + t * t, plot_components=True)
    step = int(8 * speed)
    n = int((l0 + length - l0) * 240)
    last = n // step - 1
    picked = sorted(i for i in {0, 5, 12, last // 2, last} if i <= last)
    frames = run_animation(orb, picked, **kw)
    if frames is None:
        return []
    time = np.linspace(l0, l0 + length, n)
    pts = cartesian(f, time)
    for i, seg, cam, more in frames:
        j = step * i
        x = bool(inp.get("more"))
        out += compare_frame(f"animation frame {i}", more, pts[j], 9 * time[j] - 4 if x else 0.0, 20 + time[j] ** 2 if x else None, (f, time[:j]) if x else None)
        if j < 2:
            continue
        want = (el - 20 * time[j] if pan & 1 else el, az + 55 * time[j] if pan & 2 else az)
        j0 = max(0, j - (5 if tail is None else tail) * 240)
        out += compare_curve(f"animation frame {i}", seg, pts[j0:j], verdicts(pts[j0:j], o.a, *want, 1e-6))
        if abs(cam[0] - want[0]) + abs(cam[1] - want[1]) > 1e-9:
            out.append(f"animation frame {i}: camera {cam}, asked for {want}")
    return out


PROP = C21()
