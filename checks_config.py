"""What each check builds and runs.  check.py and gen_manifest.py read this."""
import glob
import importlib.util
import os

CHECKS = {}


def unit(name, src, cfg, **kw):
    d = {"name": name, "src": src, "cfg": cfg}
    d.update(kw)
    return d


def check(pid, units, rule, technique, note, require=None, assumptions=None):
    CHECKS[pid] = {"units": units, "rule": rule, "technique": technique, "note": note,
                   "require": require or {}, "assumptions": assumptions or []}


_here = os.path.dirname(os.path.abspath(__file__))
for _f in sorted(glob.glob(os.path.join(_here, "checks.d", "*.py"))):
    _spec = importlib.util.spec_from_file_location("checks_d_" + os.path.basename(_f)[:-3], _f)
    _m = importlib.util.module_from_spec(_spec)
    _m.unit, _m.check, _m.CHECKS = unit, check, CHECKS
    _spec.loader.exec_module(_m)
