#!/usr/bin/env python3
"""Edits of /repo/staircase which keep its behaviour: every check has to stay quiet on them.

  refactors.py run [NAME ...]     apply each to a scratch copy, run its checks against it
"""
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def ref(name, checks, *edits):
    R.append((name, checks.split(), edits))


ST, SS, DI, SL, AR, CO, LA, SA, MA, LO, RE, EX = ("core/stairs.py", "core/stats/statistic.py", "core/stats/distribution.py", "core/slicing.py",
    "core/ops/arithmetic.py", "core/ops/common.py", "core/layering.py", "core/sampling.py", "core/ops/masking.py",
    "core/ops/logical.py", "core/ops/relational.py", "core/arrays/extension.py")

ref("var-direct", "C08 C19 C14 C13 C17",
    (SS, '''    percentile_minus_mean = self.dist.percentile - mean(self)
    values = percentile_minus_mean._get_values()
    squared_values = values * values
    return (
        sc.Stairs._new(
            initial_value=0,
            data=pd.DataFrame({"value": squared_values}),
        ).agg("integral", (0, 100))
        / 100
    )
''', '''    weights = self.value_sums()
    share = (weights / weights.sum()).values
    values = weights.index.values
    return float(np.dot(share, (values - np.dot(share, values)) ** 2))
'''))
ref("mean-dot", "C08 C10 C11 C19 C20 C14",
    (SS, '''                integral = np.array(
                    [x * y for x, y in zip(value_sums.index, value_sums)]
                ).sum()
                mean = integral / value_sums.sum()
''', '''                integral, total = None, None
                for v, w in zip(value_sums.index[::-1], value_sums[::-1]):
                    integral = v * w if integral is None else integral + v * w
                    total = w if total is None else total + w
                mean = integral / total
'''))
ref("agg-all-slices", "C11 C13 C14 C17 C20",
    (SL, '''        slices = self._interval_index.map(lambda i: clip(self._stairs, i.left, i.right))
        self._slices = pd.Series(slices, index=self._interval_index)
''', '''        pieces = []
        for left, right in zip(self._interval_index.left, self._interval_index.right):
            pieces.append(clip(self._stairs, left, right))
        self._slices = pd.Series(pieces, index=self._interval_index, dtype=object)
'''))
ref("layer-always-vector", "C02 C01 C13 C14 C15 C16 C17 C12",
    (LA, '''    if not any(list(map(is_list_like, (start, end, value)))):
        return _layer_scalar(self, start, end, value)
''', '''    if not any(list(map(is_list_like, (start, end, value)))):
        _check_args_types(start, end)
        if start is not None and end is not None and start == end:
            return self
        start, end, value = [start], [end], [value]
'''))
ref("addsub-via-values", "C01 C12 C13 C15 C16 C17 C18",
    (AR, '''        elif self._valid_deltas or other._valid_deltas:
            return _add_or_sub_deltas_no_mask(self, other, series_op, float_op)
        elif self._valid_values and other._valid_values:
            return _combine_stairs_via_values(self, other, series_op, float_op)
        else:
            raise RuntimeError("This code should not execute")
''', '''        return _combine_stairs_via_values(self, other, series_op, float_op)
'''))
ref("hist-loop", "C09 C13 C14 C17 C11",
    (DI, '''        values = self.limit(bins.right, side=bins.closed) - self.limit(
            bins.left, side=bins.closed
        )
''', '''        upper = [self.limit(b.right, side=bins.closed) for b in bins]
        lower = [self.limit(b.left, side=bins.closed) for b in bins]
        values = np.array(upper, dtype=float) - np.array(lower, dtype=float)
'''))
ref("limit-bisect", "C03 C17 C18 C09 C12 C16",
    (SA, '''    return amended_values[np.searchsorted(self._data.index.values, x, side=side) - 1]
''', '''    knots = self._data.index.values
    if not is_list_like(x):
        seen = knots <= x if side == "right" else knots < x
        return amended_values[np.count_nonzero(seen) - 1]
    return amended_values[np.searchsorted(knots, x, side=side) - 1]
'''))
ref("reindex-search", "C01 C04 C05 C06 C12 C15 C16 C17 C18",
    (CO, '''    first_step = values.index[0]
    new_values = values.reindex(new_index, method="ffill")
    new_values.loc[new_values.index < first_step] = initial_value
    return new_values
''', '''    where = values.index.get_indexer(new_index, method="ffill")
    padded = np.append(values.values, [initial_value])
    return pd.Series(padded[where], index=new_index)
'''))
ref("cov-centred", "C19 C18",
    (SS, '''    return (self * other).clip(*where).mean() - self.clip(*where).mean() * other.clip(
        *where
    ).mean()
''', '''    self, other = self.clip(*where), other.clip(*where)
    return ((self - self.mean()) * (other - other.mean())).mean()
'''))
ref("resample-pieces", "C11 C13",
    (SL, '''        for interval in new_values.index[new_values.isna()]:
            result = result.mask((interval.left, interval.right))
        return result
''', '''        gone = [i for i, missing in zip(new_values.index, new_values.isna()) if missing]
        if gone:
            undefined = sc.Stairs(
                start=[i.left for i in gone],
                end=[i.right for i in gone],
                closed=result.closed,
            )
            result = result.mask(undefined)
        return result
'''))
ref("redundant-loop", "C01 C02 C12 C15 C16 C06 C07",
    (ST, '''        return pd.DataFrame({"start": starts, "end": ends, "value": values})
''', '''        frame = pd.DataFrame({"start": starts})
        frame["end"] = ends
        frame["value"] = values
        return frame
'''))


def main():
    names = sys.argv[2:]
    bad = 0
    for name, checks, edits in R:
        if names and name not in names:
            continue
        w = "/tmp/refac_%s" % name
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(w, "staircase", f)
            s = open(p).read()
            assert s.count(old) == 1, (name, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        t = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1", shell=True, cwd=w, stdout=subprocess.PIPE)
        print("%-22s tests: %s" % (name, t.stdout.decode().strip()), flush=True)
        for c in checks:
            env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + "_ev")
            r = subprocess.run([os.path.join(ROOT, "check.py"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            bad += r.returncode != 0
            print("   %s rc=%d %s" % (c, r.returncode, r.stdout.decode()[-700:] if r.returncode else ""), flush=True)
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + "_ev", ignore_errors=True)
    print("false alarms:", bad)


if __name__ == "__main__":
    main()
