"""Planted bugs: exact textual edits of /repo/staircase plus a demonstration."""
SPECS = []


def bug(id, property, edits, demo, needs, breaks):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


C = "core/ops/common.py"
A = "core/ops/arithmetic.py"
L = "core/ops/logical.py"
M = "core/ops/masking.py"
R = "core/ops/relational.py"
LAY = "core/layering.py"
SA = "core/sampling.py"
SL = "core/slicing.py"
ST = "core/stairs.py"
DI = "core/stats/distribution.py"
SS = "core/stats/statistic.py"
EX = "core/arrays/extension.py"
U = "util/__init__.py"

# ---------------------------------------------------------------- C01
bug("C01-divinit", "C01",
    [(C, "    elif series_op == pd.Series.divide and stairs2.initial_value == 0:\n        initial_value = np.nan\n",
      "    elif (\n        series_op == pd.Series.divide\n        and stairs1.initial_value == stairs2.initial_value == 0\n    ):\n        initial_value = np.nan\n")],
    """
f = sc.Stairs(initial_value=3).layer(1, 4)
g = sc.Stairs().layer(0, None, 2)
h = f / g
v = h.limit(-10, "left")
assert np.isnan(v), v
""", "dividing two step functions which both have steps, the divisor zero towards -infinity and the dividend not",
    "the quotient is infinite, instead of undefined, towards -infinity")
bug("C01-subna", "C01",
    [(C, "    deltas_reindexed = deltas.reindex(new_index, fill_value=0)\n    mask_initial_value = np.nan if np.isnan(initial_value) else 0\n",
      "    deltas_reindexed = deltas.reindex(new_index, fill_value=0)\n    mask_initial_value = 0\n"),
     (A, "        elif self._has_na() or other._has_na():\n            return _combine_stairs_via_values(self, other, series_op, float_op)\n",
      "        elif self._data.isna().values.any() or other._data.isna().values.any():\n            return _combine_stairs_via_values(self, other, series_op, float_op)\n")],
    """
f = sc.Stairs.from_values(np.nan, pd.Series([2.0, 5.0, 1.0], index=[0, 4, 8]))
g = sc.Stairs().layer(2, 6, 10)
h = f + g
assert np.isnan(h(-1)) and list(h([1, 3, 5, 7, 9])) == [2, 12, 15, 5, 1], h.to_frame()
""", "adding a function which is undefined only towards -infinity (no undefined pieces after its first step) to another with steps",
    "the sum is wrong after the first step")
# ---------------------------------------------------------------- C02
bug("C02-lost", "C02",
    [(LAY, "    if self._data is None:\n        to_concat = [", "    if self._data is None or not self._valid_deltas:\n        to_concat = [")],
    """
f = sc.Stairs().layer(0, 10, 2) * 3
f.layer([2, 4], [6, 8])
assert list(f([1, 3, 5, 7, 9, 11])) == [6, 7, 8, 7, 6, 0], f.to_frame()
""", "a vector layer onto the result of an operation which left only values (not deltas) behind",
    "the existing steps of the receiver vanish")
bug("C02-rangeindex", "C02",
    [(LAY, "        vec = vec.reset_index(drop=True)\n", "        if not isinstance(vec.index, pd.RangeIndex):\n            vec = vec.reset_index(drop=True)\n")],
    """
df = pd.DataFrame({"s": [0, 1, 2, 3], "e": [5, 6, 7, 8]}).iloc[2:]
f = sc.Stairs().layer(df["s"], [7, 8])
assert f.identical(sc.Stairs().layer([2, 3], [7, 8])), f.to_frame()
""", "a Series whose index is a RangeIndex not starting at zero, together with another vector which is not that Series' sibling",
    "starts and ends are paired by label instead of by position")
bug("C02-stalevalues", "C02",
    [(LAY, "    self._data = deltas.sort_index().to_frame() if len(deltas) > 0 else None\n    self._valid_deltas = self._data is not None\n    self._valid_values = False\n",
      "    self._data = deltas.sort_index().to_frame() if len(deltas) > 0 else None\n    self._valid_deltas = len(deltas) > 1\n    self._valid_values = False\n")],
    """
f = sc.Stairs().layer(1)
f.layer(3, None, 2)
assert list(f([0, 2, 4])) == [0, 1, 3]
""", "a function with exactly one step", "layering onto it fails")
# ---------------------------------------------------------------- C03
bug("C03-cast", "C03",
    [(SA, "    if is_list_like(x) and _is_datetime_like(next(iter(x))):\n        x = pd.Series(x).values  # faster, but also bug free in numpy\n",
      "    if is_list_like(x) and (\n        _is_datetime_like(next(iter(x))) or self._data.index.dtype == \"int64\"\n    ):\n        # faster, but also bug free in numpy\n        x = pd.Series(x).values.astype(self._data.index.values.dtype)\n")],
    """
f = sc.Stairs().layer([-2, 3], [4, 9])
assert list(f([-2.5, -1.5, 3.5])) == [f(-2.5), f(-1.5), f(3.5)] == [0, 1, 2]
""", "evaluating at a vector of negative non-integers a function whose step points are integers",
    "points are truncated towards zero and so evaluated on the wrong side of a step")
bug("C03-frame", "C03",
    [(ST, "            if not self._valid_values:\n                self._create_values()\n            step_points = self._data.index\n            starts = [-inf] + step_points.to_list()\n            ends = step_points.to_list() + [inf]\n            values = np.append(self.initial_value, self._data[\"value\"].values)\n",
      "            if not self._valid_values:\n                self._create_values()\n            step_points = self._data.index\n            starts = [-inf] + step_points.to_list()\n            ends = step_points.to_list() + [inf]\n            values = np.append(self.initial_value, self._data.iloc[:, -1].values)\n")],
    """
f = sc.Stairs().layer([0, 1], [3, 4]) * 2
f.step_changes
assert list(f.to_frame()["value"]) == [0, 2, 4, 2, 0]
""", "step_changes read, before to_frame, on a function which was built from values", "to_frame reports changes instead of values")
# ---------------------------------------------------------------- C04
bug("C04-maskand", "C04",
    [(C, "    if requires_manual_masking and (stairs1._has_na() or stairs2._has_na()):\n", "    if requires_manual_masking and (\n        stairs1._data.isna().any().any() or stairs2._data.isna().any().any()\n    ):\n")],
    """
f = sc.Stairs.from_values(np.nan, pd.Series([2.0, 5.0], index=[3, 6]))
g = sc.Stairs().layer(0, 4, 1)
h = f > g
assert np.isnan(h(-1)) and np.isnan(h(1)) and h(5) == 1, h.to_frame()
""", "an operand undefined only before its first step, the other having a step before that",
    "the comparison has a value where one operand is undefined")
bug("C04-tol", "C04",
    [(R, "eq = _make_relational_func(\n    docstrings.eq_docstring,\n    np.equal,\n    pd.Series.eq,\n    operator.eq,\n)",
      "def _series_eq(s1, s2):\n    return (s1 - s2).abs() < 1e-9\n\n\neq = _make_relational_func(\n    docstrings.eq_docstring,\n    np.equal,\n    _series_eq,\n    operator.eq,\n)")],
    """
tiny = 2.0 ** -33
f = sc.Stairs().layer(0, 4, 1 + tiny)
g = sc.Stairs().layer(2, 6, 1)
assert (f == g)(3) == 0 and (f == g)(-1) == 1
assert (f == g)(5) == 0
""", "values which differ by less than 1e-9", "unequal values are reported as equal")
# ---------------------------------------------------------------- C05
bug("C05-xor", "C05",
    [(L, "    if x != 0 and y == 0:\n        return 1\n    elif x == 0 and y != 0:\n        return 1\n    else:\n        return 0\n",
      "    return int(x != y)\n")],
    """
f = sc.Stairs(initial_value=2).layer(0, 4, 1)
g = sc.Stairs(initial_value=1).layer(2, 6, 1)
assert (f ^ g)(-1) == 0
""", "both operands non-zero but different towards -infinity, both with steps", "xor is 1 there")
bug("C05-neg", "C05",
    [(L, "        values = series_comp(self._get_values(), 0) * 1\n", "        values = series_comp(self._get_values().clip(lower=-1), 0) * 1\n        values[self._get_values() == -np.inf] = 1\n        values.loc[self._get_values().between(-1e-6, 0, inclusive=\"neither\")] = series_comp(\n            0, 0\n        ) * 1\n")] if 0 else
    [(L, "        elif other == 0:\n            return self.make_boolean()\n        else:\n            return self.invert()\n",
      "        elif other == 0:\n            return self.make_boolean()\n        else:\n            return 1 - self\n")],
    """
f = sc.Stairs().layer(0, 4, 2)
h = f ^ 3
assert list(h([-1, 1, 5])) == [1, 0, 1], h.to_frame()
""", "xor of a function taking values other than 0 and 1 with a non-zero scalar", "the result is not 0/1")
# ---------------------------------------------------------------- C06
bug("C06-negmask", "C06",
    [(M, "    op = operator.ne if not inverse else operator.eq\n", "    op = operator.gt if not inverse else operator.le\n")],
    """
f = sc.Stairs().layer(0, 10, 5)
g = sc.Stairs(initial_value=-1).layer(2, None, 1)
assert np.isnan(f.mask(g)(1)) and f.mask(g)(3) == 5
assert f.where(g)(1) == 5 and np.isnan(f.where(g)(3))
""", "a mask which is negative towards -infinity", "mask keeps, and where removes, the part before the first step of the mask")
bug("C06-isnainit", "C06",
    [(M, "    if right_index == -1:\n        sliced_values = pd.Series(dtype=\"float64\")\n    else:\n        sliced_values = self._get_values().iloc[max(0, left_index) : right_index]\n",
      "    if right_index == -1:\n        sliced_values = pd.Series(dtype=\"float64\")\n    else:\n        sliced_values = self._get_values().iloc[max(0, left_index) : right_index]\n        sliced_values = sliced_values[~sliced_values.isna() | (sliced_values.index > lower)]\n")],
    """
f = sc.Stairs.from_values(1, pd.Series([np.nan, 2.0, 3.0], index=[0, 5, 8]))
g = f.clip(2, 9)
assert list(np.isnan(g([1, 3, 6, 8.5, 10]))) == [True, True, False, False, True], g.to_frame()
g = f.clip(2, 4)
assert np.isnan(g(3))
""", "a clip whose lower bound lies within an undefined piece", "the clip fails or gives values to an undefined stretch")
# ---------------------------------------------------------------- C07
bug("C07-ffill0", "C07",
    [(M, "        if value in (\"pad\", \"ffill\") and np.isnan(values.iloc[0]):\n", "        if value in (\"pad\", \"ffill\") and self.initial_value and np.isnan(values.iloc[0]):\n")],
    """
f = sc.Stairs.from_values(0, pd.Series([np.nan, 2.0], index=[0, 5]))
g = f.fillna("ffill")
assert g(1) == 0 and g(6) == 2
""", "forward fill of an undefined piece which follows the initial value, that being 0", "the piece stays undefined")
bug("C07-alias", "C07",
    [(M, "        if value in (\"pad\", \"ffill\") and np.isnan(values.iloc[0]):\n            values.iloc[0] = self.initial_value\n", "        if value == \"ffill\" and np.isnan(values.iloc[0]):\n            values.iloc[0] = self.initial_value\n")],
    """
f = sc.Stairs.from_values(3, pd.Series([np.nan, 2.0], index=[0, 5]))
assert f.fillna("pad")(1) == 3 == f.fillna("ffill")(1)
""", "the 'pad' spelling, and an undefined first piece", "the piece stays undefined")
# ---------------------------------------------------------------- C08
bug("C08-round", "C08",
    [(SS, "        result = value_sums.groupby(value_sums.index.values).sum()\n", "        # merge values which differ by rounding errors only\n        result = value_sums.groupby(np.round(value_sums.index.values, 9)).sum()\n")],
    """
f = sc.Stairs().layer(0, 4, 2.0 ** -33).layer(4, 8, 2.0 ** -32)
v = f.value_sums()
assert list(v.index) == [2.0 ** -33, 2.0 ** -32] and list(v) == [4, 4], v
""", "values below 1e-9", "value_sums and everything computed from the ecdf merge distinct values")
bug("C08-overflow", "C08",
    [(SS, "            mean = ((value_sums / value_sums.sum()) * value_sums.index).sum()\n            self._integral_and_mean = (integral, mean)\n",
      "            mean = (value_sums * value_sums.index).sum() / value_sums.sum()\n            self._integral_and_mean = (integral, mean)\n")],
    """
t = pd.Timestamp("2020-1-1")
D = pd.Timedelta("100D")
f = sc.Stairs().layer([t, t + D], [t + D, t + 2 * D], [3000.0, 5000.0])
assert abs(f.mean() - 4000) < 1e-6, f.mean()
""", "a datetime domain, with an integral too large for a Timedelta", "the mean is the result of a silent integer overflow")
# ---------------------------------------------------------------- C09
bug("C09-histclosed", "C09",
    [(DI, "        values = self.limit(bins.right, side=bins.closed) - self.limit(\n            bins.left, side=bins.closed\n        )\n",
      "        values = self.limit(bins.right, side=closed) - self.limit(\n            bins.left, side=closed\n        )\n")],
    """
f = sc.Stairs().layer(0, 4, 1).layer(4, 10, 2)
h = f.hist(pd.IntervalIndex.from_breaks([0, 1, 2], closed="right"))
assert list(h) == [4, 6], h
""", "bins given as a right-closed IntervalIndex, with the closed parameter left as it is", "values on bin edges are counted in the wrong bin")
bug("C09-density", "C09",
    [(DI, "                values = values / np.dot(values, widths)\n", "                values = values / (np.sum(values) * widths)\n")],
    """
f = sc.Stairs().layer(0, 4, 1).layer(4, 10, 3)
h = f.hist([0, 2, 3, 7], stat="density")
w = (h.index.right - h.index.left).values
assert abs((h.values * w).sum() - 1) < 1e-12
g = f.hist([0, 4, 8], stat="density")
assert abs(g.values[0] - 1 / 4) < 1e-12, g
""" , "", "")
SPECS.pop()
bug("C09-density", "C09",
    [(DI, "                values = values / np.dot(values, widths)\n", "                values = values / (np.sum(values) * widths[0])\n")],
    """
f = sc.Stairs().layer(0, 4, 1).layer(4, 10, 3)
h = f.hist([0, 2, 3, 7], stat="density")
w = (h.index.right - h.index.left).values
assert abs((h.values * w).sum() - 1) < 1e-12
""", "stat='density' with bins of different widths", "the area of the histogram is not 1")
bug("C09-describe", "C09",
    [(ST, "                    \"unique\": stairs.percentile.clip(0, 100).number_of_steps - 1,\n", "                    \"unique\": stairs.percentile.number_of_steps + 1,\n")],
    """
f = sc.Stairs().layer(0, 4, 1).layer(4, 10, 3).layer(10, 12, 7)
assert f.describe()["unique"] == 3, f.describe()
assert sc.Stairs().layer(0, 4, 1).describe()["unique"] == 1
""", "", "")
SPECS.pop()
bug("C09-quantiles", "C09",
    [(DI, "        return self.fractile(np.linspace(0, 1, n + 1)[1:-1])\n", "        return self.fractile(np.arange(1 / n, 1, 1 / n))\n")],
    """
f = sc.Stairs().layer(0, 4, 1).layer(4, 10, 3)
for n in range(1, 60):
    assert len(f.quantiles(n)) == n - 1, n
""", "a number of quantiles for which repeated addition of 1/n falls short of 1 (such as 49)", "one quantile too many is returned")
# ---------------------------------------------------------------- C10
bug("C10-rightboth", "C10",
    [(U, "            \"both\": (\"left\", \"left\"),\n            \"left\": (\"left\", \"left\"),\n", "            \"both\": (\"left\", \"right\"),\n            \"left\": (\"left\", \"left\"),\n")],
    """
f = sc.Stairs(closed="right").layer(0, 4, 1).layer(4, 8, 2)
assert list(f.values_in_range((2, 4), closed="both")) == [1], f.values_in_range((2, 4), closed="both")
assert f.max() == 2
""", "a right-closed function, closed='both' and a window ending at a step point", "the value taken after the window is included")
bug("C10-init", "C10",
    [(SS, "    if left_index < 0 and not np.isnan(self.initial_value):\n", "    if left_index < 0 and self.initial_value == self.initial_value and len(values):\n")],
    """
f = sc.Stairs(initial_value=3).layer(10, 20, 1)
assert list(f.values_in_range((0, 5))) == [3], f.values_in_range((0, 5))
""", "a window entirely before the first step", "no value is found there")
# ---------------------------------------------------------------- C11
bug("C11-minboth", "C11",
    [(SL, "            result = np.fmin(result, self._stairs(self._interval_index.right))\n        elif self._stairs._closed == \"right\" and self._interval_index.closed in (\n            \"left\",\n            \"both\",\n        ):\n            result = np.fmin",
      "            result = np.fmin(result, self._stairs(self._interval_index.right))\n        elif (\n            self._stairs._closed == \"right\"\n            and self._interval_index.closed == \"left\"\n        ):\n            result = np.fmin")],
    """
f = sc.Stairs(closed="right", initial_value=5).layer(2, None, -3).layer(2, 4, 9)
s = f.slice(pd.IntervalIndex.from_tuples([(2, 4)], closed="both"))
assert list(s.min()) == [5], s.min()
""", "a right-closed function, slices closed on both sides, and a step up at the left end of a slice", "the minimum misses the value at the left end")
bug("C11-resample", "C11",
    [(SL, "        left_bound = self._slices.index.left.min()\n        right_bound = self._slices.index.right.max()\n        stairs_na = self._stairs.isna().mask((left_bound, right_bound)).fillna(0)\n",
      "        left_bound = self._slices.index.left.min()\n        right_bound = self._slices.index.right.max()\n        stairs_na = self._stairs.isna().clip(None, left_bound).fillna(0)\n")],
    """
f = sc.Stairs().layer(0, 10, 2).layer(3, 5).mask((12, 14))
g = f.slice(range(0, 11, 5)).resample("mean")
assert np.isnan(g(13)) and g(11) == 0 and g(1) == 2.4, g.to_frame()
""", "resampling a function which is undefined somewhere after the last slice", "the function becomes 0 there")
# ---------------------------------------------------------------- C12
bug("C12-firstna", "C12",
    [(ST, "            if (self._data[\"value\"].iloc[0] == self.initial_value) or (\n                pd.isnull(self._data.loc[:, \"value\"].iloc[0])\n                and pd.isnull(self.initial_value)\n            ):\n",
      "            if self._data[\"value\"].iloc[0] == self.initial_value:\n")],
    """
f = sc.Stairs.from_values(np.nan, pd.Series([1.0, 2.0], index=[2, 5]))
g = sc.Stairs().layer(0, 4) 
h = f * g
assert list(h.step_points) == [2, 4] or list(h.step_points) == [2, 4][:len(h.step_points)], h.to_frame()
assert h.number_of_steps == 2
""", "an operand undefined towards -infinity, the other operand having an earlier step", "the result has a step point at which nothing changes")
bug("C12-bool", "C12",
    [(ST, "        if self.initial_value == 1 and self.number_of_steps == 0:\n            return True\n        return False\n", "        return bool(self.initial_value == 1 and self.min() == 1)\n")],
    """
f = sc.Stairs(initial_value=1).layer(2, 4, 3)
assert not bool(f)
assert not bool(sc.Stairs(initial_value=1).mask((2, 4)))
assert bool(sc.Stairs(initial_value=1))
""", "a function with minimum 1, or 1 wherever defined", "its bool is True")
# ---------------------------------------------------------------- C13
bug("C13-negshare", "C13",
    [(ST, "            data=self._data.copy() if self._data is not None else None,\n            closed=self.closed,\n        )\n        return new_instance\n",
      "            data=self._data.copy(deep=not self._valid_values)\n            if self._data is not None\n            else None,\n            closed=self.closed,\n        )\n        return new_instance\n")],
    """
f = sc.Stairs().layer(0, 4).layer(2, 6)
f(1)
g = f.copy()
g.layer(0, 6, 5)
f.layer(2, 3, 1)
assert list(f([1, 2.5, 3, 5])) == [1, 3, 2, 1] and list(g([1, 3, 5])) == [6, 7, 6], (f.to_frame(), g.to_frame())
""", "a copy taken once values have been materialised, and a scalar layer at existing step points of one of the two", "the layer changes the other one too")
bug("C13-fillview", "C13",
    [(M, "        values = self._get_values().copy()\n        fillmethod = {", "        values = self._get_values()\n        fillmethod = {")],
    """
f = sc.Stairs.from_values(3, pd.Series([np.nan, 2.0], index=[0, 5]))
f.fillna("ffill")
assert np.isnan(f(1))
""", "forward fill of a function whose first piece is undefined", "the operand is filled too")
# ---------------------------------------------------------------- C14
bug("C14-percentiles", "C14",
    [(DI, "    def _reset(self):\n        self._ecdf = None\n        self._fractiles = None\n        self._percentiles = None\n", "    def _reset(self):\n        self._ecdf = None\n        self._fractiles = None\n        if not hasattr(self, \"_percentiles\"):\n            self._percentiles = None\n")],
    """
f = sc.Stairs().layer(0, 4, 1).layer(4, 8, 3)
f.percentile(50)
f.layer(0, 8, 10)
assert f.percentile(100) == 13
""", "a percentile (median, var) query before a layer and another after", "the second is answered from the old function")
bug("C14-meancache", "C14",
    [(ST, "    def _clear_cache(self):\n        self.dist._reset()\n        self._integral_and_mean = None\n", "    def _clear_cache(self):\n        if self.dist._ecdf is not None or not hasattr(self, \"_integral_and_mean\"):\n            self._integral_and_mean = None\n        self.dist._reset()\n")],
    """
f = sc.Stairs().layer(0, 4, 1).layer(4, 8, 3)
assert f.mean() == 2
f.layer(0, 8, 10)
assert f.mean() == 12
""", "mean or integral queried, no distribution query since, then a layer and the query again", "the old mean is returned")
# ---------------------------------------------------------------- C15
bug("C15-negate", "C15",
    [(L, "        if self._data is None:\n            return sc.Stairs(initial_value=initial_value, closed=self.closed)\n        values = series_comp",
      "        if self._data is None or (self._get_values() == self.initial_value).all():\n            return sc.Stairs(initial_value=initial_value, closed=self.closed)\n        values = series_comp")] if 0 else
    [(M, "            data = pd.DataFrame(\n                comp_func(self._get_values()) * 1, index=self._data.index\n            )\n\n        new_instance = sc.Stairs._new(\n            initial_value=initial_value, data=data, closed=self.closed\n        )\n",
      "            data = pd.DataFrame(\n                comp_func(self._get_values()) * 1, index=self._data.index\n            )\n\n        new_instance = sc.Stairs._new(initial_value=initial_value, data=data)\n        if not self._data is None and self._has_na():\n            new_instance._closed = self.closed\n")],
    """
f = sc.Stairs(closed="right").layer(0, 4, 1)
assert f.isna().closed == "right" and f.notna().closed == "right"
""", "isna / notna of an everywhere-defined right-closed function", "the result is left-closed")
bug("C15-onlyfirst", "C15",
    [(C, "        and stairs1.number_of_steps != 0\n        and stairs2.number_of_steps != 0\n        and stairs1._closed != stairs2._closed\n",
      "        and stairs1.number_of_steps > 1\n        and stairs2.number_of_steps > 1\n        and stairs1._closed != stairs2._closed\n")],
    """
f = sc.Stairs(closed="right").layer(0)
g = sc.Stairs().layer(0, 4)
try:
    f + g
except sc.core.exceptions.ClosedMismatchError:
    pass
else:
    raise AssertionError("sides silently merged")
""", "one of the operands having exactly one step", "sides are merged silently")
# ---------------------------------------------------------------- C16
bug("C16-bothforms", "C16",
    [(A, "                if \"delta\" in data:\n                    data[\"delta\"] = series_rop(data[\"delta\"], 0)\n", "                elif \"delta\" in data:\n                    data[\"delta\"] = series_rop(data[\"delta\"], 0)\n")],
    """
f = sc.Stairs().layer(0, 4, 2)
f(1)
f.step_changes
h = 5 - f
assert list(h([1, 5])) == [3, 5]
h = h.layer(6, 7)
assert list(h([1, 5, 6.5])) == [3, 5, 6], h.to_frame()
""", "scalar - f once both values and deltas of f have been materialised, then something which uses the deltas of the result", "the result's deltas have the wrong sign")
bug("C16-xor", "C16",
    [(A, "        data=pd.DataFrame({\"delta\": deltas}),\n        closed=self.closed,\n", "        data=pd.DataFrame({\"delta\": deltas.values}, index=deltas.index.values),\n        closed=self.closed,\n")],
    """
i = pd.date_range("2021-1-1", periods=4, tz="Australia/Sydney")
f = sc.Stairs().layer(i[0], i[2])
g = sc.Stairs().layer(i[1], i[3])
h = f + g
assert h(i[1]) == 2
assert h.layer(i[0], i[3])(i[1]) == 3
""", "", "")
SPECS.pop()
# ---------------------------------------------------------------- C17
bug("C17-tzdrop", "C17",
    [(SA, "    elif _is_datetime_like(x):\n        x = pd.Series([x]).values[0]\n", "    elif _is_datetime_like(x):\n        x = np.datetime64(x, \"s\") if getattr(x, \"tzinfo\", None) is None and hasattr(x, \"year\") else pd.Series([x]).values[0]\n")] ,
    """
t = pd.Timestamp("2020-1-1")
f = sc.Stairs().layer(t + pd.Timedelta("400ms"), t + pd.Timedelta("800ms"))
assert f(t + pd.Timedelta("600ms")) == 1
assert f(t + pd.Timedelta("900ms")) == 0
""", "naive timestamps with sub-second parts, evaluated one at a time", "the point is truncated to whole seconds")
bug("C17-shift", "C17",
    [(ST, "            data=self._data.set_index(self._data.index + delta),\n            closed=self.closed,\n",
      "            data=self._data.set_index(\n                self._data.index + delta\n                if getattr(self._data.index, \"tz\", None) is None\n                else (self._data.index.tz_localize(None) + delta).tz_localize(\n                    self._data.index.tz, ambiguous=\"NaT\", nonexistent=\"shift_forward\"\n                )\n            ),\n            closed=self.closed,\n")],
    """
i = pd.DatetimeIndex(["2021-04-02", "2021-04-03"], tz="Australia/Sydney")
f = sc.Stairs().layer(i[0], i[1])
g = f.shift(pd.Timedelta("2D"))
assert g.step_changes.index[1] == i[1] + pd.Timedelta("2D"), g.step_changes
""", "a timezone-aware domain, shifted over a daylight-saving transition", "the translation is by wall-clock time")
# ---------------------------------------------------------------- C18
bug("C18-unique", "C18",
    [(EX, "        new_values = func([s.limit(index, \"right\") for s in self.data], axis=0)\n", "        new_values = func(\n            [s.limit(index, \"right\") for s in dict.fromkeys(self.data)], axis=0\n        )\n")],
    """
f = sc.Stairs().layer(0, 4, 2)
g = sc.Stairs().layer(2, 6, 1)
assert list(sc.sum([f, g, f])([1, 3, 5])) == [4, 5, 1]
""", "the same object more than once in a collection", "it is counted once")
bug("C18-logical", "C18",
    [(EX, "            np.logical_or.reduce(np.isnan(x), axis=axis),\n            np.nan,\n", "            np.logical_and.reduce(np.isnan(x), axis=axis),\n            np.nan,\n")],
    """
f = sc.Stairs().layer(0, 4, 2).mask((1, 2))
g = sc.Stairs().layer(2, 6, 1)
assert np.isnan(sc.logical_or([f, g])(1.5)) and np.isnan(sc.logical_and([f, g])(1.5))
""", "a collection with a point where some but not all members are undefined", "logical_or / logical_and have a value there")
# ---------------------------------------------------------------- C19
bug("C19-neglag", "C19",
    [(SS, "    where = list(_replace_none_with_infs(where))\n    if lag != 0:\n        assert clip in [\"pre\", \"post\"]\n        if clip == \"pre\" and where[1] != inf:\n            where[1] = where[1] - lag\n        other = other.shift(-lag)\n    mask = self.isna() | other.isna()\n    self = self.mask(mask)\n    other = other.mask(mask)\n    return (self * other)",
      "    where = list(_replace_none_with_infs(where))\n    if lag != 0:\n        assert clip in [\"pre\", \"post\"]\n        if clip == \"pre\" and where[1] != inf and lag > type(lag)(0):\n            where[1] = where[1] - lag\n        other = other.shift(-lag)\n    mask = self.isna() | other.isna()\n    self = self.mask(mask)\n    other = other.mask(mask)\n    return (self * other)")],
    """
f = sc.Stairs().layer(0, 4, 2).layer(6, 9, 5)
g = sc.Stairs().layer(2, 6, 1).layer(7, 13, 4)
a = f.cov(g, (0, 10), lag=-2)
b = f.cov(g.shift(2), (0, 12))
assert abs(a - b) < 1e-9, (a, b)
""", "a negative lag with clip='pre' and a window with a finite upper end", "the window is not adjusted")
bug("C19-std", "C19",
    [(SS, "    mask = self.isna() | other.isna()\n    self = self.mask(mask)\n    other = other.mask(mask)\n    covariance = self.cov(other, where)\n", "    covariance = self.cov(other, where)\n")],
    """
f = sc.Stairs().layer(0, 4, 2).layer(4, 9, 5)
g = (3 - f).mask((6, 20))
c = f.corr(g, (0, 10))
assert abs(c + 1) < 1e-9, c
""", "corr of functions with different domains of definition", "standard deviations are taken over different regions")
# ---------------------------------------------------------------- C20
bug("C20-trim", "C20",
    [(ST, "        if lower != -inf:\n            s = s.loc[s.index >= lower - left_delta]\n", "        if lower != -inf:\n            s = s.loc[s.index > lower - left_delta]\n")],
    """
f = sc.Stairs().layer(0, 4, 2).layer(6, 9, 5)
s = f.rolling_mean((-1, 1), (0, 9))
assert s.index[0] == 1, s
""", "a window with a finite lower end", "the first point is missing")
bug("C20-shiftneg", "C20",
    [(ST, "            step_points - left_delta,\n            step_points - right_delta,\n", "            step_points - left_delta,\n            step_points[1:] - right_delta,\n")],
    """
f = sc.Stairs().layer(0, 4, 2).layer(6, 9, 5)
s = f.rolling_mean((-1, 1), (None, 9))
assert -1 in s.index, s
""", "a rolling mean without a lower limit", "the point at which the window's right edge meets the first step is missing")

# ================================================================ second batch
bug("C01-divneginf", "C01",
    [(C, "        values = values.replace(np.inf, np.nan).replace(-np.inf, np.nan)\n", "        values = values.replace(np.inf, np.nan)\n")],
    """
f = sc.Stairs().layer(0, 10, -2)
g = sc.Stairs().layer(0, 3, 4).layer(5, None, 2)
h = f / g
assert np.isnan(h(4)) and list(h([1, 6])) == [-0.5, -1], h.to_frame()
""", "dividing a function which is negative on a finite piece by one which is zero there", "the quotient is -inf instead of undefined there")
bug("C04-leftna", "C04",
    [(R, "                new_values = numpy_relational(self.initial_value, values).astype(float)\n                new_values[values.isna()] = np.nan\n",
      "                new_values = numpy_relational(self.initial_value, values).astype(float)\n")],
    """
f = sc.Stairs.from_values(0, pd.Series([2.0, np.nan, 1.0], index=[0, 4, 8]))
h = sc.Stairs(initial_value=1) < f
assert np.isnan(h(5)) and h(1) == 1 and h(9) == 0, h.to_frame()
""", "comparing a step-free function (on the left) with one which is undefined on a piece", "the comparison is 0 where it should be undefined")
bug("C11-period", "C11",
    [(SL, "        ii = pd.IntervalIndex.from_arrays(cuts.start_time, end_times, closed=closed)\n", "        ii = pd.IntervalIndex.from_arrays(cuts.start_time, end_times)\n")],
    """
f = sc.Stairs().layer(pd.Timestamp("2020-01-02"), pd.Timestamp("2020-01-03"), 5)
p = pd.period_range("2020-01-01", periods=3, freq="D")
assert list(f.slice(p).max()) == [0, 5, 0], f.slice(p).max()
""", "a PeriodIndex as cuts, the function stepping up at a boundary, and max (or min)", "max of a slice includes the value at its excluded end")
bug("C13-shift0", "C13",
    [(ST, "        if self._data is None:\n            return Stairs(initial_value=self.initial_value, closed=self.closed)\n        return Stairs._new(\n            initial_value=self.initial_value,\n            data=self._data.set_index(self._data.index + delta),\n",
      "        if self._data is None or not delta:\n            return self\n        return Stairs._new(\n            initial_value=self.initial_value,\n            data=self._data.set_index(self._data.index + delta),\n")],
    """
f = sc.Stairs().layer(0, 4, 2)
g = f.shift(0)
g.layer(1, 2)
assert f(1) == 2, f.to_frame()
""", "shifting by zero and then layering onto the result", "the receiver of shift is changed")
bug("C14-stepfree", "C14",
    [("core/layering.py", "    self._clear_cache()\n", "    if self._data is not None:\n        self._clear_cache()  # nothing to cache otherwise\n")],
    """
f = sc.Stairs()
assert np.isnan(f.mean())
f.layer(0, 4, 2)
assert f.mean() == 2, f.mean()
""", "a statistic asked of a function without steps, which then is layered, and the statistic asked again", "the NaN of the step-free function is returned")
bug("C15-isna", "C15",
    [(M, "        new_instance = sc.Stairs._new(\n            initial_value=initial_value, data=data, closed=self.closed\n        )\n        new_instance._remove_redundant_step_points()\n        return new_instance\n\n    return func\n",
      "        new_instance = sc.Stairs._new(initial_value=initial_value, data=data)\n        new_instance._remove_redundant_step_points()\n        return new_instance\n\n    return func\n")],
    """
f = sc.Stairs(closed="right").layer(0, 4, 2).clip(1, 3)
assert f.isna().closed == "right" and f.notna().closed == "right"
""", "isna or notna of a right-closed function", "the indicator is left-closed")
bug("C16-negate", "C16",
    [(A, "    data = -self._data if self._data is not None else None\n",
      "    data = None\n    if self._data is not None:\n        data = self._data.copy()\n        form = \"value\" if self._valid_values else \"delta\"\n        data[form] = -data[form]\n")],
    """
f = sc.Stairs().layer(0, 4, 2)
f(1)
h = -f + sc.Stairs().layer(0, 1, 5)
assert list(h([0.5, 2, 6])) == [3, -2, 0], h.to_frame()
""", "negating a function of which both internal forms have been materialised (layered, then evaluated), and adding to the result",
    "the sum of the negation and another function is wrong")
bug("C16-create", "C16",
    [(ST, "        self._data[\"delta\"] = _make_deltas_from_vals(\n            self.initial_value, self._data[\"value\"]\n        )\n",
      "        self._data[\"delta\"] = self._data[\"value\"].diff().fillna(\n            self._data[\"value\"]\n        )\n")],
    """
f = sc.Stairs(initial_value=1).layer(0, 4, 2) * 2
h = f + sc.Stairs().layer(1, 2)
assert list(h([-1, 0.5, 1.5, 5])) == [2, 6, 7, 2], h.to_frame()
""", "a function with a non-zero initial value which is held by its values, used in an addition with a layered one", "the sum is wrong after the first step")
bug("C17-wallclock", "C17",
    [(ST, "            data=self._data.set_index(self._data.index + delta),\n",
      "            data=self._data.set_index(\n                (self._data.index.tz_localize(None) + delta).tz_localize(\n                    self._data.index.tz, nonexistent=\"shift_forward\", ambiguous=True\n                )\n                if getattr(self._data.index, \"tz\", None) is not None\n                else self._data.index + delta\n            ),\n")],
    """
tz = "Australia/Sydney"
f = sc.Stairs().layer(pd.Timestamp("2021-04-03 22:00", tz=tz), pd.Timestamp("2021-04-04 12:00", tz=tz))
g = f.shift(pd.Timedelta("10h"))
assert g.integral() == f.integral(), (g.integral(), f.integral())
""", "shifting a function on a timezone-aware domain across a daylight saving transition", "the shift is of wall clock time, so lengths change")
bug("C19-maskone", "C19",
    [(SS, "    self = self.mask(mask)\n    other = other.mask(mask)\n    covariance", "    self = self.mask(mask)\n    covariance")],
    """
f = sc.Stairs().layer(0, 10).layer(2, 6, 2).clip(0, 7)
g = sc.Stairs().layer(0, 10).layer(4, 8, 3)
c = f.corr(g, (0, 10))
e = f.cov(g, (0, 7)) / (f.clip(0, 7).std() * g.clip(0, 7).std())
assert abs(c - e) < 1e-9, (c, e)
""", "corr with only the receiver undefined somewhere in the window", "the standard deviation of the argument is taken over the whole window")
bug("C20-lastpoint", "C20",
    [(ST, "            s = s.loc[s.index <= upper - right_delta]\n", "            s = s.loc[s.index < upper - right_delta]\n")],
    """
f = sc.Stairs().layer([0, 3], [10, 6])
r = f.rolling_mean((-1, 1), (0, 10))
assert r.index[-1] == 9, r
""", "rolling_mean with an upper bound", "the last point is missing")
bug("C20-firstpoint", "C20",
    [(ST, "            s = s.loc[s.index >= lower - left_delta]\n", "            s = s.loc[s.index > lower - min(left_delta, left_delta * 0)]\n")],
    """
f = sc.Stairs().layer([0, 3], [10, 6])
r = f.rolling_mean((1, 2), (0, 10))
assert r.index[0] == -1, r
""", "rolling_mean with a window which lies to the right of its focal point, and a lower bound", "points at the start are missing")
bug("C06-onstep", "C06",
    [(M, "        self, lower, upper, lower_how=\"right\", upper_how=\"left\"\n    )\n\n    if right_index == -1:", "        self, lower, upper, lower_how=\"right\", upper_how=\"right\"\n    )\n\n    if right_index == -1:"),
     (M, "    if upper != inf:\n        sliced_values.loc[upper] = np.nan\n", "    if upper != inf and upper not in sliced_values.index:\n        sliced_values.loc[upper] = np.nan\n")],
    """
f = sc.Stairs().layer([0, 3], [10, 6])
g = f.clip(1, 6)
assert np.isnan(g.limit(6, "right")) and g.limit(6, "left") == 2, g.to_frame()
""", "clip with an upper bound on a step point", "the function stays defined beyond the bound")
bug("C09-unitright", "C09",
    [(DI, "                round_func(min(step_points)) - (closed == \"right\"),\n", "                math.floor(min(step_points)),\n")],
    """
f = sc.Stairs().layer(0, 4, 2).layer(4, 6, 1)
h = f.clip(0, 6).hist(closed="right")
assert h.sum() == 6, h
""", "hist with unit bins, closed on the right, the least value being an integer", "the least value is in no bin")
bug("C03-nonasc", "C03",
    [(ST, "            starts = [-inf] + step_points.to_list()\n            ends = step_points.to_list() + [inf]\n            values = np.append(self.initial_value, self._data[\"value\"].values)\n",
      "            starts = [-inf] + step_points.to_list()\n            ends = step_points.to_list() + [inf]\n            values = self.initial_value + np.append(\n                0, self._get_deltas().cumsum().values\n            )\n")],
    """
f = sc.Stairs.from_values(0, pd.Series([2.0, np.nan, 1.0], index=[0, 4, 8]))
v = f.to_frame()["value"]
assert list(v.iloc[:2]) == [0, 2] and np.isnan(v.iloc[2]) and v.iloc[3] == 1, f.to_frame()
""", "to_frame of a function which is undefined towards -infinity or on a piece", "values in the frame differ from those of the function")
bug("C07-bfill2", "C07",
    [(M, "        if value in (\"pad\", \"ffill\") and np.isnan(values.iloc[0]):\n            values.iloc[0] = self.initial_value\n", "        if value in (\"pad\", \"ffill\"):\n            values.iloc[0] = np.nan_to_num(values.iloc[0], nan=self.initial_value)\n        elif np.isnan(values.iloc[-1]):\n            values.iloc[-1] = values.iloc[-2] if len(values) > 1 else np.nan\n")],
    """
f = sc.Stairs.from_values(0, pd.Series([2.0, 3.0, np.nan], index=[0, 4, 8]))
h = f.fillna("bfill")
assert np.isnan(h(9)) and h(5) == 3, h.to_frame()
""", "bfill of a function which is undefined towards +infinity", "the last piece, with nothing to its right, is filled")
bug("C12-mulzero", "C12",
    [(C, "        data=pd.DataFrame({\"value\": values}),\n        closed=stairs1.closed,\n    )\n    new_instance._remove_redundant_step_points()\n",
      "        data=pd.DataFrame({\"value\": values}),\n        closed=stairs1.closed,\n    )\n    if len(values) > 1:\n        new_instance._remove_redundant_step_points()\n")],
    """
f = sc.Stairs().layer(0)
g = sc.Stairs(initial_value=2).layer(0, None, -1)
assert (sc.Stairs(initial_value=3).layer(0) <= sc.Stairs(initial_value=4).layer(0)).identical(1)
""", "combining two functions whose only step is at the same point into a constant", "the constant has a step")
bug("C10-both", "C10",
    [(U, "            \"both\": (\"left\", \"left\"),\n", "            \"both\": (\"right\", \"left\"),\n")],
    """
f = sc.Stairs(closed="right").layer(0, 4, 2)
assert list(f.values_in_range((4, 6), "both")) == [0, 2], f.values_in_range((4, 6), "both")
""", "values_in_range with both ends included, of a right-closed function, from a step point", "the value at the left end is missing")
bug("C05-rxor", "C05",
    [(L, "        elif other == 0:\n            return self.make_boolean()\n        else:\n            return self.invert()\n", "        elif other == 1:\n            return self.invert()\n        else:\n            return self.make_boolean()\n")],
    """
f = sc.Stairs().layer(0, 4, 2)
assert list((f ^ 2)([-1, 1])) == [1, 0]
assert list((f ^ 0)([-1, 1])) == [0, 1]
""", "xor with a scalar other than 0 and 1", "the scalar counts as false")
bug("C18-mixedbool", "C18",
    [(EX, "            np.logical_or.reduce(np.isnan(x), axis=axis),\n", "            np.logical_and.reduce(np.isnan(x), axis=axis),\n")],
    """
f = sc.Stairs().layer(0, 4, 2).clip(1, 3)
g = sc.Stairs().layer(0, 4)
h = sc.logical_or([f, g])
assert np.isnan(h(0.5)) and h(2) == 1, h.to_frame()
""", "logical_or of members of which one is undefined somewhere", "the aggregate is defined where a member is undefined")
bug("C08-dropna", "C08",
    [(SS, "        value_sums = value_sums[value_sums.index.notnull()]\n", "        value_sums = value_sums[value_sums.index.notnull()]\n        if len(value_sums) == 1:\n            self._integral_and_mean = value_sums.index[0] * value_sums.iloc[0], float(\n                round(value_sums.index[0], 6)\n            )\n            return\n")],
    """
f = sc.Stairs().layer(0, 4, 2 ** -24)
assert f.mean() == 2 ** -24, f.mean()
""", "mean of a function with one finite defined piece and a value of more than six decimals", "the mean is rounded")
bug("C02-inf", "C02",
    [("core/layering.py", "        frame = frame.copy()\n", "        frame = frame.dropna(how=\"all\")\n")],
    """
f = sc.Stairs(frame=pd.DataFrame({"s": [0, np.nan], "e": [4, np.nan]}), start="s", end="e")
assert list(f([-1, 1, 5])) == [1, 2, 1], f.to_frame()
""", "layering a frame which has a row with neither start nor end", "the row, an interval from -infinity to infinity, is ignored")

# ---------------------------------------------------------------- third batch
bug("C11-leftkey", "C11",
    [(SL, "        slices = self._interval_index.map(lambda i: clip(self._stairs, i.left, i.right))\n        self._slices = pd.Series(slices, index=self._interval_index)\n",
      "        made = {}\n        for i in self._interval_index:\n            if i.left not in made:\n                made[i.left] = clip(self._stairs, i.left, i.right)\n        slices = [made[left] for left in self._interval_index.left]\n        self._slices = pd.Series(slices, index=self._interval_index)\n")],
    """
f = sc.Stairs().layer([0, 3], [10, 6])
ii = pd.IntervalIndex.from_tuples([(0, 2), (0, 6), (4, 8)])
assert list(f.slice(ii).integral()) == [2, 9, 6], f.slice(ii).integral()
""", "an interval index in which two intervals have the same left end point", "the second is given the slice of the first")
bug("C08-roundvalues", "C08",
    [(SS, "        result = value_sums.groupby(value_sums.index.values).sum()\n", "        result = value_sums.groupby(np.round(value_sums.index.values, 10)).sum()\n")],
    """
f = sc.Stairs().layer(0, 4, 1).layer(2, 4, 2 ** -36).layer(4, 6, 3)
vs = f.value_sums()
assert len(vs) == 3 and list(vs) == [2, 2, 2], vs
""", "values which differ from each other, or from a round number, by less than 1e-10", "value_sums merges them")
bug("C12-allclose", "C12",
    [(R, "    return pd.Series.equals(s1, s2)\n", "    return s1.index.equals(s2.index) and np.allclose(s1, s2, equal_nan=True)\n")],
    """
f = sc.Stairs().layer(0, 4, 1)
g = sc.Stairs().layer(0, 4, 1 + 2 ** -30)
assert not f.identical(g)
""", "two functions with the same step points whose values differ relatively little", "identical calls them equal")
bug("C03-longsorted", "C03",
    [(ST, "            values = np.append(self.initial_value, self._data[\"value\"].values)\n",
      "            values = self._data[\"value\"].values\n            if len(step_points) > 100:\n                values = np.round(values, 12)\n            values = np.append(self.initial_value, values)\n")],
    """
n = 150
f = sc.Stairs().layer(np.arange(n), None, np.full(n, 2.0 ** -40))
assert list(f.to_frame()["value"]) == [k * 2.0 ** -40 for k in range(n + 1)]
""", "to_frame of a function with more than 100 steps and values of more than twelve decimals", "the values of the frame are rounded")
bug("C14-nalayer", "C14",
    [(LAY, "    self._clear_cache()\n    if self._data is not None and self._has_na():\n", "    if self._data is None or not self._data.isna().values.any():\n        self._clear_cache()\n    if self._data is not None and self._has_na():\n")],
    """
f = sc.Stairs().layer(0, 4, 1).mask((1, 2))
assert f.mean() == 1
f.layer(0, 4, 2)
assert f.mean() == 3, f.mean()
""", "a statistic, then a layer, of a function which is undefined on a piece", "the statistic of before the layer is returned")
bug("C19-lagwindow", "C19",
    [(SS, "    mask = self.isna() | other.isna()\n    self = self.mask(mask)\n    other = other.mask(mask)\n    return (self * other).clip(*where).mean() - self.clip(*where).mean() * other.clip(\n        *where\n    ).mean()\n",
      "    mask = self.isna() | other.isna()\n    self = self.mask(mask)\n    mean = self.clip(*where).mean()\n    return (self * other).clip(*where).mean() - mean * other.mask(\n        self.clip(*where).isna()\n    ).mean()\n")],
    """
f = sc.Stairs().layer(0, 4, 2).layer(2, 3)
g = sc.Stairs().layer(1, 3, 2).clip(0, 2)
h = sc.Stairs().layer(1, 3, 2)
assert abs(f.cov(g, (0, 4)) - f.cov(h, (0, 2))) < 1e-12
assert abs(h.cov(f, (0, 6)) - h.cov(f, (0, 6), lag=0)) < 1e-12
a = f.cov(h, (0, None)); b = h.cov(f, (0, None))
assert abs(a - b) < 1e-12, (a, b)
""", "covariance over a window which is unbounded on one side", "not symmetric")
bug("C20-round", "C20",
    [(ST, "        sample_points = pd.Index.union(\n            step_points - left_delta,\n            step_points - right_delta,\n        )\n",
      "        sample_points = (step_points - left_delta).append(step_points - right_delta)\n        if is_numeric_dtype(sample_points):\n            sample_points = pd.Index(np.round(sample_points, 8))\n        sample_points = sample_points.unique().sort_values()\n")],
    """
t = 2.0 ** -30
f = sc.Stairs().layer(0, t).layer(3 * t, 4 * t)
r = f.rolling_mean((0, t))
assert len(r) == 6, r
""", "rolling_mean of a function whose steps are less than 1e-8 apart", "the points are rounded and merged")
bug("C05-lead", "C05",
    [(C, "            np.isnan(stairs1.initial_value),\n            np.isnan(stairs2.initial_value),\n            np.logical_or,\n",
      "            False,\n            False,\n            np.logical_or,\n")],
    """
f = sc.Stairs(initial_value=np.nan)
f = sc.Stairs().layer(0, 4).clip(2, None)
g = sc.Stairs().layer(1, 3)
h = f & g
assert np.isnan(h(1.5)) and h(2.5) == 1, h.to_frame()
""", "one operand undefined towards -infinity, the other with a step before the first of that operand", "defined between these steps")
bug("C09-descstd", "C09",
    [(ST, "                    \"unique\": stairs.percentile.clip(0, 100).number_of_steps - 1,\n",
      "                    \"unique\": stairs.number_of_steps - 1,\n")],
    """
f = sc.Stairs().layer(0, 4).layer(1, 2, 2).layer(3, 4, 2)
assert f.describe()["unique"] == 2, f.describe()
""", "describe of a function which takes a value on more than one piece", "the number of unique values counts pieces")
bug("C08-secs", "C08",
    [(SS, "                integral = np.array(\n                    [x * y for x, y in zip(value_sums.index, value_sums)]\n                ).sum()\n                mean = integral / value_sums.sum()\n",
      "                integral = np.array(\n                    [x * y for x, y in zip(value_sums.index, value_sums)]\n                ).sum()\n                total = value_sums.sum()\n                mean = integral / total\n                if isinstance(total, pd.Timedelta):\n                    integral = total.floor(\"us\") * mean + total % pd.Timedelta(\"1us\")\n")],
    """
t = pd.Timestamp("2020-1-1")
f = sc.Stairs().layer(t, t + pd.Timedelta(2500, "ns"), 3)
assert f.integral() == pd.Timedelta(7500, "ns"), f.integral()
""", "an integral over a datetime domain which is not a whole number of microseconds", "rounded to microseconds")
bug("C13-sharedmul", "C13",
    [(A, "            if self._data is None or np.isnan(other):\n                data = None\n",
      "            if other == 1 and self._data is not None and series_op in (\n                pd.Series.multiply,\n                pd.Series.rmul,\n            ):\n                return self\n            elif self._data is None or np.isnan(other):\n                data = None\n")],
    """
f = sc.Stairs().layer(0, 4, 2)
g = 1 * f
g.layer(0, 4)
assert list(f([-1, 1])) == [0, 2], f.to_frame()
""", "a function multiplied from the left by the scalar 1, then layering the product", "the operand changes as well")
bug("C16-valueorder", "C16",
    [(C, "    new_values = values.reindex(new_index, method=\"ffill\")\n    new_values.loc[new_values.index < first_step] = initial_value\n    return new_values\n",
      "    new_values = values.reindex(new_index).ffill()\n    new_values.loc[new_values.index < first_step] = initial_value\n    return new_values\n")],
    """
f = sc.Stairs().layer(0, 10).mask((2, 4))
g = sc.Stairs().layer(3, 5, 2)
h = f * g
assert np.isnan(h(2.5)) and np.isnan(h(3.5)) and h(4.5) == 2, h.to_frame()
""", "combining a function with an undefined piece with one which steps inside or at the start of that piece", "the undefined piece takes the value to its left")
bug("C17-dayfloor", "C17",
    [(SL, "        end_times = cuts.end_time + pd.Timedelta(\n            \"1ns\"\n        )  # PeriodIndex leaves a 1ns gap between intervals\n",
      "        end_times = cuts.end_time.ceil(\n            \"s\"\n        )  # PeriodIndex leaves a 1ns gap between intervals\n")],
    """
t = pd.Timestamp("2020-1-1")
f = sc.Stairs().layer(t, t + pd.Timedelta(1, "D"), 3)
p = pd.period_range(t, periods=3, freq="ms")
assert list(f.slice(p).integral()) == [pd.Timedelta(3, "ms")] * 3, f.slice(p).integral()
""", "slicing by periods shorter than a second", "the slices end at a whole second")
bug("C02-nparith", "C02",
    [(LAY, "        if start in deltas.index:\n            deltas.loc[start] += value\n        else:\n            deltas.loc[start] = value\n        if deltas.loc[start] == 0:\n            deltas.drop(start, inplace=True)\n",
      "        if start in deltas.index:\n            deltas.loc[start] += value\n        else:\n            deltas.loc[start] = value\n        if abs(deltas.loc[start]) < 1e-9:\n            deltas.drop(start, inplace=True)\n")],
    """
f = sc.Stairs().layer(0, 4, 2.0 ** -36)
assert f(1) == 2.0 ** -36, f.to_frame()
""", "layering a value of less than 1e-9 at a point", "the step at the start is lost")
# ---- batch 4
bug("C07-fillconstna", "C07",
    [(M, "    result = result.mask(self.isna() & value.isna())\n",
      "    if value.number_of_steps:\n        result = result.mask(self.isna() & value.isna())\n")],
    """
f = sc.Stairs().layer(0, 4).clip(1, 3)
g = f.fillna(sc.Stairs(initial_value=np.nan))
assert np.isnan(g(0)) and g(2) == 1, g.to_frame()
""", "filling with a step function which is undefined everywhere", "the undefined points are filled with zero")
bug("C12-isclose", "C12",
    [(ST, "            ) | (self._data[\"delta\"] == 0)\n", "            ) | np.isclose(self._data[\"delta\"], 0)\n")],
    """
f = sc.Stairs().layer([0, 2], [4, 6], [1, 2.0 ** -30])
assert f.number_of_steps == 4 and f(3) == 1 + 2.0 ** -30, f.to_frame()
""", "a genuine change of value of less than 1e-8, in a function represented by changes", "the step is removed, with every later value")
bug("C13-shallowcopy", "C13",
    [(ST, "            data=self._data.copy() if self._data is not None else None,\n",
      "            data=self._data.copy(deep=False) if self._data is not None else None,\n")],
    """
f = sc.Stairs().layer(0, 4)
g = f.copy()
g.layer(4, 6, 2)
assert list(f.step_changes) == [1, -1], f.step_changes
""", "layering a scalar interval onto a copy, starting or ending at an existing step point", "the original changes too")
bug("C15-fullmask", "C15",
    [(M, "            return sc.Stairs(initial_value=np.nan, closed=self.closed)\n",
      "            return sc.Stairs(initial_value=np.nan)\n")],
    """
f = sc.Stairs(closed="right").layer(0, 4)
g = f.mask(sc.Stairs(initial_value=1))
assert g.closed == "right", g.closed
""", "masking a right-closed function by a constant which undefines it everywhere", "the result is left-closed")
bug("C14-scalarcache", "C14",
    [(ST, "        self.dist._reset()\n        self._integral_and_mean = None\n",
      "        self._integral_and_mean = None\n        if self.dist._ecdf is not None:\n            self.dist._reset()\n"),
     (DI, "            self._percentiles = Percentiles.from_ecdf(self.ecdf)\n",
      "            ecdf = self._ecdf or ECDF.from_stairs(self._stairs)\n            self._percentiles = Percentiles.from_ecdf(ecdf)\n")],
    """
f = sc.Stairs().layer(0, 4, 2)
f.median()
f.layer(0, 4, 3)
assert f.median() == 5, f.median()
""", "a percentile query before any ecdf query, then layer, then a percentile query", "stale percentiles")
bug("C10-emptywindow", "C10",
    [(SS, "        values = np.append([self.initial_value], values)\n",
      "        values = np.append([self.initial_value], values[values != self.initial_value])\n        return np.unique(values)\n")],
    """
f = sc.Stairs().layer(0, 9).mask((2, 4))
v = f.values_in_range((-1, 3))
assert list(v) == [0, 1], v
""", "values in a window which begins before the first step and contains an undefined piece", "the values include NaN")
bug("C02-unsortedscalar", "C02",
    [(LAY, "    self._data = deltas.sort_index().to_frame() if len(deltas) > 0 else None\n",
      "    if end is None or start is None or start < end:\n        deltas = deltas.sort_index()\n    self._data = deltas.to_frame() if len(deltas) > 0 else None\n")],
    """
f = sc.Stairs().layer(4, 1)
assert list(f([0, 2, 5])) == [0, -1, 0], f.to_frame()
""", "a scalar interval whose start is after its end", "the steps are not sorted")
bug("C18-axis", "C18",
    [(EX, "        new_values = func([s.limit(index, \"right\") for s in self.data], axis=0)\n",
      "        new_values = func([s.limit(index, s.closed == \"left\" and \"right\" or \"left\") for s in self.data], axis=0)\n")],
    """
f = sc.Stairs(closed="right").layer(0, 4)
g = sc.Stairs(closed="right").layer(2, 6)
h = sc.sum([f, g])
assert h.identical(f + g), h.to_frame()
""", "aggregating right-closed functions", "the values are taken on the wrong side of the steps")
bug("C04-nanscalar", "C04",
    [(R, "            or (np.isnan(other.initial_value) and other._data is None)\n            or (np.isnan(self.initial_value) and self._data is None)\n",
      "            or (np.isnan(other.initial_value) and other._data is None)\n")],
    """
f = sc.Stairs().layer(0, 4)
for op in ("ne", "lt", "eq"):
    h = getattr(sc.Stairs(initial_value=np.nan), op)(f)
    assert np.isnan(h(1)) and np.isnan(h(-1)) and np.isnan(h(9)), h.to_frame()
""", "a relational operator whose left operand is undefined everywhere", "the result is defined where the right operand steps")
bug("C06-hugeclip", "C06",
    [(M, "    elif sliced_values.index[0] < lower:\n        index = pd.Series(sliced_values.index)\n        index.iloc[0] = lower\n        sliced_values.index = index\n",
      "    elif sliced_values.index[0] < lower:\n        sliced_values = sliced_values.rename({sliced_values.index[0]: lower})\n")],
    """
f = sc.Stairs().layer(pd.Timestamp("2020-1-1", tz="Australia/Sydney"), pd.Timestamp("2020-1-9", tz="Australia/Sydney"))
g = f.clip(pd.Timestamp("2020-1-2 00:00:00.000000001", tz="Australia/Sydney"), pd.Timestamp("2020-1-4", tz="Australia/Sydney"))
assert np.isnan(g(pd.Timestamp("2020-1-1 12:00", tz="Australia/Sydney"))) and g(pd.Timestamp("2020-1-3", tz="Australia/Sydney")) == 1
i = sc.Stairs().layer(0, 9)
assert np.isnan(i.clip(0.5, 3)(0.25)) and i.clip(0.5, 3)(0.75) == 1, i.clip(0.5, 3).to_frame()
""", "clipping in the middle of a piece", "")
bug("C20-diffconst", "C20",
    [(ST, "            data=self._data.set_index(self._data.index + delta),\n            closed=self.closed,\n",
      "            data=self._get_deltas().to_frame().set_index(self._data.index + delta),\n            closed=self.closed,\n")],
    """
f = sc.Stairs(initial_value=np.nan).fillna(3).layer(0, 4).mask((None, 1))
g = f.shift(2)
assert g(4) == 4 and np.isnan(g(0)) and g(9) == 3, g.to_frame()
""", "shifting a function undefined towards -infinity", "the first value is lost")
