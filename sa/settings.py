"""Typed valuations of a sampler's settings (a valid configuration and overrides)."""
from __future__ import annotations
from . import terms as t
from .terms import mk, const, sym, T, NONE
from .boxes import Boxes, Val, num, ints, reals, seq, lst, txt, none, array, obj

KW, SP, SCH = sym("kw"), sym("spec"), sym("scheduler")
at = lambda o, n: mk("attr", o, n)


def ndev(x):
    return x.op == "call" and x.args[0] == "len" and "jax.devices" in t.show(x, 4)


def spec_defaults():
    rng = lambda a, b: seq(num(a), num(b))
    d = dict(batch_size=num(8), image_shape=seq(num(16), num(16)), img_offset=seq(num(32.0), num(32.0)), dt=num(1.0),
             seeding_density_range=rng(0.25, 0.25), diameter_ranges=lst(rng(0.5, 1.0)), diameter_var=num(0.0),
             intensity_ranges=lst(rng(50.0, 200.0)), intensity_var=num(0.0), p_hide_img1=num(0.0), p_hide_img2=num(0.0),
             rho_ranges=lst(rng(-0.2, 0.2)), rho_var=num(0.0), noise_uniform=num(0.0), noise_gaussian_mean=num(0.0),
             noise_gaussian_std=num(0.0))
    return d


def kw_defaults():
    return dict(batches_per_flow_batch=num(2), flow_fields_per_batch=num(4), size_y=num(128.0), size_x=num(128.0), resolution=num(1.0),
                velocities_per_pixel=num(1.0), seed=num(3), max_speed_x=num(1.0), max_speed_y=num(1.0), min_speed_x=num(-1.0),
                min_speed_y=num(-1.0), output_units=txt("pixels"), device_ids=none(), mask=none(), histogram=none())


def shape_ret(x):
    return x.op == "ret" and t.show(x.args[0], 3).endswith("get_flow_fields_shape")


def boxes(over=None, shape=(64, 64, 2), devices=1, isinst=None, extra=None):
    """Boxes over a complete configuration; `over`: {"kw.x"/"spec.x": Val}."""
    val = {}
    for k, v in kw_defaults().items():
        val[at(KW, k)] = v
    for k, v in spec_defaults().items():
        val[at(SP, k)] = v
    for k, v in (over or {}).items():
        o, n = k.split(".")
        val[at(KW if o == "kw" else SP, n)] = v

    def ex(x):
        if shape_ret(x):
            return shape if isinstance(shape, Val) else seq(*shape)
        if ndev(x):
            return num(devices)
        return extra(x) if extra else None
    return Settings(val, ex)


class Settings(Boxes):
    """The scheduler is a plain one; classes of other objects are not looked at."""

    def truth(self, c):
        if c.op == "isinstance" and c.args[0] is SCH:
            return "SchedulerProtocol" in [str(getattr(n, "args", [n])[0] if isinstance(n, T) else n).rsplit(".", 1)[-1] for n in _flat(c.args[1])]
        return super().truth(c)


def _flat(a):
    from .boxes import flat
    return flat(a)
