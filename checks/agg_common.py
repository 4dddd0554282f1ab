"""Aggregation harness shared by C01, C02, C03 and C05."""
import numpy as np
from engine.lib import arr, cells
from pyg2p import Step
from pyg2p.main.manipulation.aggregator import Aggregator
from pyg2p.exceptions import ApplicationException

FUNCTIONS = ['pyg2p.main.manipulation.aggregator.Aggregator.__init__', 'Aggregator.do_manipulation', 'pyg2p.util.numeric.get_masks', 'pyg2p.Step']
RES, LEV = 181, 5


def make_steps(t, last, always=()):
    """An arbitrary set of message end steps within 0..last."""
    return [s for s in range(0, last + 1) if s in always or t.flag(f'msg{s}')]


def messages(t, steps, ncell=2, masks=None, accum=True, instep=1):
    vals, data = {}, {}
    order = list(steps)
    for s in order:
        v = [t.real(f'v{s}_{c}', -1000, 1000) for c in range(ncell)]
        m = masks(s) if masks else None
        data[s] = (v, m or [False] * ncell)
        # values under a mask are whatever the decoder left there
        vals[Step(0 if accum else s, s, RES, instep, LEV)] = arr(t, v, m)
    return vals, data


def aggregator(kind, A, start, end, unit=1, step_type='accum', half=False, zero=False, instep=1, second=None):
    kw = dict(aggr_step=A, aggr_type=kind, input_step=instep, step_type=step_type, start_step=start, mv_grib=-9999.0, end_step=end,
              unit_time=unit, force_zero_array=zero, aggr_halfweights=half)
    if second is not None:
        kw['sec_temp_res'] = second
    return Aggregator(**kw)


def by_end(out):
    d = {}
    for k, v in out.items():
        d.setdefault(int(k.end_step), []).append((k, v))
    return d
