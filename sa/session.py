"""Abstract sessions: clients of the library that are analysed step by step.

A session keeps the abstract state between steps, so that histories of calls
are analysed through the public API only."""
from __future__ import annotations
from . import terms as t
from .terms import mk, const, sym, NONE
from .check import Undecided

GENF = "synthpix.data_generate.generate_images_from_flow"
ADAPT = "synthpix.utils.flow_field_adapter"


class Step:
    """One state of a session: value of the last step, its interpreter and its new events."""

    def __init__(self, c, I, e, obj, n0=0):
        self.c, self.I, self.e, self.obj, self.n0 = c, I, e, obj, n0

    @property
    def st(self):
        return self.e.st

    @property
    def val(self):
        return self.e.val

    @property
    def kind(self):
        return self.e.kind

    def new(self):
        """Events of the last step."""
        return self.e.st.trace[self.n0:]

    def calls(self, name, kind="call"):
        from .query import callee_name
        out = []
        for e in self.new():
            if e.kind == kind:
                n = callee_name(e.callee)
                if n == name or n.endswith("." + name):
                    out.append(e)
        return out

    def step(self, body, oracle=None, **args):
        """Analyse `body` (statements over `obj` and the given names) from this state. -> [Step]"""
        names = ["obj"] + list(args)
        src = f"def drive({', '.join(names)}):\n" + "".join(f"    {l}\n" for l in body.splitlines())
        n0 = len(self.e.st.trace)
        I, ex = self.c.client(src, cont=self.I, st=self.e.st.copy(), kwargs=dict(obj=self.obj, **args), oracle=oracle)
        return [Step(self.c, I, e, self.obj, n0) for e in ex]

    def only(self, body, kind="return", oracle=None, **args):
        r = [s for s in self.step(body, oracle, **args) if s.kind == kind]
        if len(r) != 1:
            raise Undecided(f"`{body}`: expected one {kind} path, found {len(r)}")
        return r[0]


def start(c, src, opaque=(), oracle=None, types=None, setup=None, args=None):
    I, ex = c.client(src, opaque=list(opaque), oracle=oracle, types=types, setup=setup, kwargs=args)
    return [Step(c, I, e, e.val, 0) for e in ex]


SYN = '''
from synthpix.sampler.synthetic import SyntheticImageSampler
def drive(scheduler, spec, kw):
    return SyntheticImageSampler(scheduler=scheduler, batches_per_flow_batch=kw.batches_per_flow_batch,
        flow_fields_per_batch=kw.flow_fields_per_batch, flow_field_size=(kw.size_y, kw.size_x),
        resolution=kw.resolution, velocities_per_pixel=kw.velocities_per_pixel, seed=kw.seed,
        max_speed_x=kw.max_speed_x, max_speed_y=kw.max_speed_y, min_speed_x=kw.min_speed_x, min_speed_y=kw.min_speed_y,
        output_units=kw.output_units, generation_specification=spec%s)
'''


def is_inst(x, name):
    """isinstance(_, C) for the class with this last name component (None otherwise)"""
    if x.op == "isinstance" and any(str(n).rsplit(".", 1)[-1] == name for n in flat(x.args[1])):
        return True
    return False


def flat(a):
    if isinstance(a, tuple):
        return [y for z in a for y in flat(z)]
    return [a.args[0] if isinstance(a, t.T) and a.op in ("class", "ext", "const") else a]


def synthetic(c, episodic=False, extra="", oracle=None, first=True):
    """Sessions right after building a synthetic sampler with symbolic settings."""
    key = ("synthetic", episodic, extra)
    if oracle is None and key in c.cache:
        return c.cache[key]
    spec = c.prog.get("synthpix.types:ImageGenerationSpecification")
    S = sym("scheduler")

    def orc(x, st):
        if oracle:
            r = oracle(x, st)
            if r is not None:
                return r
        if x.op == "isinstance" and x.args[0] is S:
            ns = [str(n).rsplit(".", 1)[-1] for n in flat(x.args[1])]
            if ns == ["SchedulerProtocol"]:
                return True
            if ns == ["EpisodicSchedulerProtocol"]:
                return episodic
            if ns in (["EpisodicFlowFieldScheduler"], ["PrefetchingFlowFieldScheduler"]):
                return False if not episodic else None
        if x.op == "isnone":
            y = x.args[0]
            if y.op == "attr" and y.args[1] in ("mask", "files"):
                return False
            while y.op == "index":
                y = y.args[0]
            if y.op == "ret" and y.args[0].op == "func":
                return False
        return None
    ss = [s for s in start(c, SYN % extra, opaque=(GENF, ADAPT), oracle=orc, types={sym("spec"): spec}) if s.kind == "return"]
    if not ss:
        raise Undecided("the synthetic sampler cannot be built by the analysis")
    if oracle is None:
        c.cache[key] = ss
    return ss
