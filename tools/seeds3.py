PRE = open('/verif/tools/seeds1.py').read().split("PRE = '''")[1].split(
    "'''")[0]
B = 'ocbpy/_boundary.py'
SEEDS = [
    dict(id='c21-columns-from-the-first-row', property='C21',
         edits=[(B, '''                dt_list.append(dtime)
                itime.append(i)
''', '''                itime.append(len(dt_list))
                dt_list.append(dtime)
''')],
         needs='a time window that starts after the first record of the file',
         breaks='the times are those of the window but centre, radius and '
                'figure of merit are those of the first rows of the file',
         demo=PRE + '''
import tempfile, os
f = os.path.join(tempfile.mkdtemp(), 'a.ocb')
with open(f, 'w') as fp:
    for i in range(4):
        fp.write('%d %d 8 10.0 %.1f 14.0 1.0 0.0 %.1f\\n' % (2005, 1000 * i, i, i))
b = ocbpy.OCBoundary(filename=f, hemisphere=1, instrument='image',
                     stime=dt.datetime(2005, 1, 1, 0, 20))
if list(b.r_cent) != [2.0, 3.0] or list(b.fom) != [2.0, 3.0]:
    print(b.dtime, b.r_cent)
    sys.exit(1)
'''),
    dict(id='c28-index-of-the-last-block', property='C28',
         edits=[('ocbpy/instruments/supermag.py', '''                        if n == snum:
                            n = -1
                            ind = {"SMU": fill_val, "SML": fill_val}
''', '''                        if n == snum:
                            n = -1
                            ind["SMU"] = fill_val
''')],
         needs='a block without SML index after one that has it',
         breaks='the SML index of the previous block is given to a block that '
                'has none',
         demo=PRE + '''
import tempfile, os
from ocbpy.instruments import supermag
f = os.path.join(tempfile.mkdtemp(), 'a.txt')
with open(f, 'w') as fp:
    fp.write('head\\n' + '=' * 90 + '\\n')
    for m in (0, 1):
        fp.write('2005\\t1\\t1\\t0\\t%d\\t0\\t1\\n' % m)
        fp.write('SMU\\t%d\\n' % (100 + m))
        if m == 0:
            fp.write('SML\\t-55\\n')
        fp.write('ABC\\t1.0\\t2.0\\t3.0\\t10.0\\t70.0\\t5.0\\t90.0\\n')
h, d = supermag.load_supermag_ascii_data(f)
if d['SML'][0] != -55 or d['SML'][1] == -55:
    print(d['SML'])
    sys.exit(1)
'''),
    dict(id='c23-altitude-ignored', property='C23',
         edits=[('ocbpy/boundaries/dmsp_ssj_files.py', '''                            ref_alt, mid_time, method=method)
''', '''                            830.0, mid_time, method=method)
''')],
         needs='a reference altitude other than the default',
         breaks='crossings are converted at 830 km whatever reference altitude '
                'is asked for',
         demo=PRE + '''
import tempfile, os
from ocbpy.boundaries import dmsp_ssj_files as m
d = tempfile.mkdtemp()
names = ['hemisphere', 'FOM'] + ['%s %s%d' % (k, b, i) for b in ('EQ', 'PO')
    for i in (1, 2) for k in ('UTSec', 'SC_GEOCENTRIC_LAT', 'SC_GEOCENTRIC_LON')]
f = os.path.join(d, 'dmsp-f16_ssj_precipitating-electrons-ions_20101231_v1.1.2_boundaries.csv')
row = [1, 2.0, 3600.0, 60.0, 10.0, 3700.0, 62.0, 80.0, 3620.0, 70.0, 15.0, 3680.0, 71.0, 75.0]
with open(f, 'w') as fp:
    fp.write('# c\\n' + ','.join(names) + '\\n')
    for i in range(2):
        fp.write(','.join(str(x) for x in row) + '\\n')
calls = []
class A(object):
    def get_aacgm_coord_arr(self, lat, lon, alt, t, method=''):
        calls.append(alt)
        return np.array(lat), np.array(lon), np.array([5.0, 6.0])
m.aacgmv2 = A()
m.format_ssj_boundary_files([f], ref_alt=300.0)
if not calls or any(float(np.ravel(x)[0]) != 300.0 for x in calls):
    print(calls)
    sys.exit(1)
'''),
]
SEEDS.append(dict(
    id='c27-index-of-the-pair', property='C27',
    edits=[('ocbpy/instruments/pysat_instruments.py', '''                unscaled_r = ocb.ocb.r[ocb.ocb.rec_ind] + ocb_output[
''', '''                unscaled_r = ocb.ocb.r[ocb.rec_ind] + ocb_output[
''')],
    needs='a dual boundary whose pairs do not start at the first OCB record, '
          'with radii that differ',
    breaks='scaled variables use the radius of the OCB record whose number is '
           'the index of the pair',
    demo=PRE + '''
import pandas as pd
from ocbpy.instruments import pysat_instruments as m
o = ocb(3)
o.r = np.array([10.0, 14.0, 18.0])
e = ocb(2, 1, ocbpy.EABoundary, phi=60.0, rc=2.0, r=26.0)
e.dtime = np.array(o.dtime[1:])
d = ocbpy.DualBoundary(eab=e, ocb=o, hemisphere=1)
class Inst(object):
    pandas_format = True
    def __init__(self, data):
        self.data = data
    variables = property(lambda s: list(s.data.columns))
    index = property(lambda s: s.data.index)
    def __getitem__(self, k):
        return self.data.loc[:, k[1]] if isinstance(k, tuple) else self.data[k]
class P(object):
    Instrument = Inst
m.pysat = P
m.add_ocb_to_metadata = lambda *a, **k: None
i = Inst(pd.DataFrame({'mlat': [80.0, 81.0], 'mlt': [3.0, 4.0],
                       'h': [350.0, 350.0], 'v': [10.0, 20.0]},
                      index=pd.DatetimeIndex(list(o.dtime[1:]), name='time')))
m.add_ocb_to_data(i, 'mlat', 'mlt', height_name='h', evar_names=['v'], ocb=d)
want = np.array([10.0, 20.0]) * (np.array([14.0, 18.0])
                                 + i.data['r_corr_dualb'].values) / (
    90.0 - abs(o.boundary_lat))
got = i.data['v_dualb'].values
if not np.allclose(got, want):
    print(got, want)
    sys.exit(1)
'''))
