SEEDS = [
 dict(id="c03-unknown-falsy", property="C03",
  needs="a misspelled keyword whose value happens to be false (0, False, None)",
  breaks="unknown keywords are ignored silently when their value is false",
  edits=[("utilities.py", "    if emptycheck and (len(opts) != 0):", "    if emptycheck and any(opts.values()):")],
  demo="""
from pydsm.ft import idtft_hermitian
try:
    idtft_hermitian(lambda f: 1., 0, quad_opt=None)
except TypeError:
    pass
else:
    raise AssertionError('unknown keyword accepted')
"""),
 dict(id="c04-clans-disp", property="C04",
  needs="clans called with show_progress=True after another call",
  breaks="the progress option of clans is taken from the defaults, not from the call",
  edits=[("delsig/_clans.py", "    slsqp_opts['disp'] = opts.get('show_progress', False)", "    slsqp_opts['disp'] = clans.default_options.get('show_progress', False)")],
  demo="""
import pydsm.delsig._clans as m
seen = []
real = m.minimize
def spy(*a, **k):
    seen.append(k['options'].get('disp'))
    k['options'] = dict(k['options'], disp=False)
    return real(*a, **k)
m.minimize = spy
m.clans(3, 32, 5, .95, 1, show_progress=True)
assert seen == [True], seen
"""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
