PRE = open('/verif/tools/seeds1.py').read().split("PRE = '''")[1].split(
    "'''")[0] + '''
def dual(no=3, ne=4, skip=1, hemi=1, off=0, **kw):
    o = ocb(no, hemi)
    e = ocb(ne, hemi, ocbpy.EABoundary, phi=60.0, rc=2.0, r=23.0)
    # the first EAB records have no partner
    e.dtime = np.array([o.dtime[0] - dt.timedelta(seconds=5000 - 100 * i)
                        for i in range(skip)]
                       + [t + dt.timedelta(seconds=off)
                          for t in o.dtime[:ne - skip]])
    return ocbpy.DualBoundary(eab=e, ocb=o, hemisphere=hemi, **kw)

'''
B = 'ocbpy/_boundary.py'
C = 'ocbpy/cycle_boundary.py'
T = 'ocbpy/ocb_time.py'
V = 'ocbpy/vectors.py'
S = 'ocbpy/ocb_scaling.py'
SEEDS = [
    dict(id='c09-neighbour-not-rejected', property='C09',
         edits=[(C, '''                    last_sdiff = sdiff
                    last_iocb = ocb.rec_ind
''', '''                    last_sdiff = sdiff
                    last_iocb += 1
''')],
         needs='a closer good record separated from the current one by a '
               'record that fails the quality criteria',
         breaks='the matched record is the neighbour of the previous good '
                'record, which may fail the criteria and is not the closest',
         demo=PRE + '''
o = ocb(3)
o.dtime = np.array([dt.datetime(2005, 6, 20, 3, 0, s) for s in (0, 20, 40)])
o.fom = np.array([2.0, 50.0, 2.0])
o.max_fom = 10.0
o.rec_ind = -1
data = np.array([dt.datetime(2005, 6, 20, 3, 0, 35)])
i = ocbpy.match_data_ocb(o, data, max_tol=60)
if i != 0 or o.rec_ind != 2:
    print('matched', i, o.rec_ind)
    sys.exit(1)
'''),
    dict(id='c10-next-pair-ignores-criteria', property='C10',
         edits=[(B, '''                self.eab.get_next_good_ocb_ind(**eab_kwargs)
''', '''                self.eab.get_next_good_ocb_ind()
''')],
         needs='selection criteria for the EAB that reject a record following '
               'a paired one, at the time of a good OCB',
         breaks='EAB records that fail the requested criteria are paired',
         demo=PRE + '''
d = dual()
d.eab.fom = np.array([2.0, 2.0, 4.0, 2.0])
d.eab.max_fom = 10.0
d.ocb.max_fom = 10.0
d.set_good_ind(eab_max_merit=3.0)
if list(d.eab_ind) != [1, 3]:
    print(d.eab_ind)
    sys.exit(1)
'''),
    dict(id='c11-cycle-of-the-range', property='C11',
         edits=[(T, 'lon = fix_range(lon, min_deg, max_deg, 360)',
                 'lon = fix_range(lon, min_deg, max_deg)')],
         needs='a local time outside the allowed range and a range wider than '
               '360 degrees',
         breaks='hr2deg changes the angle by the width of the range instead '
                'of full turns',
         demo=PRE + '''
x = float(ocbpy.ocb_time.hr2deg(25.0))
y = float(ocbpy.ocb_time.hr2deg(-14.0, -180.0, 360.0))
if abs((x - 375.0) % 360.0) > 1e-9 or abs((y + 210.0) % 360.0) > 1e-9:
    print(x, y)
    sys.exit(1)
'''),
    dict(id='c12-microseconds-scaled-alone', property='C12',
         edits=[(T, '''(dtime.second + dtime.microsecond * 1.0e-6) / 3600.0''',
                 '''dtime.second / 3600.0 + dtime.microsecond * 1.0e-6''')],
         needs='a time with a fraction of a second',
         breaks='the fraction of a second counts as a fraction of an hour, so '
                'hours of day and solar local times are wrong',
         demo=PRE + '''
t = dt.datetime(2005, 6, 20, 3, 0, 0, 500000)
s = float(ocbpy.ocb_time.glon2slt(30.0, t))
if abs(s - (5.0 + 0.5 / 3600.0)) > 1e-9:
    print(s)
    sys.exit(1)
'''),
    dict(id='c16-due-south', property='C16',
         edits=[(V, '''    quad3_mask = np.less(vect_n, 0.0, where=nan_mask) & np.less(
        vect_e, 0.0, where=nan_mask) & nan_mask
''', '''    quad3_mask = np.less(vect_n, 0.0, where=nan_mask) & np.less_equal(
        vect_e, 0.0, where=nan_mask) & nan_mask
''')],
         needs='a single vector that points exactly south',
         breaks='a single southward vector is in the third quadrant, unlike '
                'the same vector within an array',
         demo=PRE + '''
a = int(ocbpy.vectors.define_vect_quadrants(-5.0, 0.0))
b = int(ocbpy.vectors.define_vect_quadrants(np.array([-5.0]),
                                            np.array([0.0]))[0])
if a != 4 or b != 4:
    print(a, b)
    sys.exit(1)
'''),
    dict(id='c17-dual-pole-of-other-record', property='C17',
         edits=[(S, '''            iocb = ocb.ocb_ind[self.ocb_ind]
''', '''            iocb = ocb.eab_ind[self.ocb_ind]
''')],
         needs='a dual boundary whose OCB and EAB indices of a pair differ',
         breaks='the boundary pole and radius used to turn and scale a vector '
                'come from the OCB record with the index of the EAB',
         demo=PRE + '''
d = dual(no=5)
v = ocbpy.ocb_scaling.VectorData(0, 0, 80.0, 5.0, vect_n=50.0, vect_e=20.0,
                                 vect_z=0.0)
v.set_ocb(d)
lt, lat = ocbpy.vectors.get_pole_loc(d.ocb.phi_cent[d.ocb_ind[0]],
                                     d.ocb.r_cent[d.ocb_ind[0]])
if abs(v.ocb_aacgm_lat - lat) > 1e-9 or abs(v.ocb_aacgm_mlt - lt) > 1e-9:
    print(v.ocb_aacgm_lat, lat, v.ocb_aacgm_mlt, lt)
    sys.exit(1)
'''),
    dict(id='c19-mlt-not-restored', property='C19',
         edits=[(B, '''                self.ocb.aacgm_boundary_mlt[self.ocb.rec_ind] = orig_bound[3]
            if orig_bound[0] is not None:
                self.eab.aacgm_boundary_lat[self.eab.rec_ind] = orig_bound[0]
                self.eab.aacgm_boundary_mlt[self.eab.rec_ind] = orig_bound[1]

        if out_shape == ():
            return bound_lat[0]''', '''                self.ocb.aacgm_boundary_mlt[self.ocb.rec_ind] = np.asarray(
                    aacgm_mlt)
            if orig_bound[0] is not None:
                self.eab.aacgm_boundary_lat[self.eab.rec_ind] = orig_bound[0]
                self.eab.aacgm_boundary_mlt[self.eab.rec_ind] = orig_bound[1]

        if out_shape == ():
            return bound_lat[0]''')],
         needs='a dual boundary whose OCB location was set before, then '
               'normalising without overwriting',
         breaks='the local times of the stored OCB location are replaced by '
                'those of the data while its latitudes are kept',
         demo=PRE + '''
d = dual()
d.get_aacgm_boundary_lats(np.array([1.0, 7.0, 12.0]), rec_ind=0,
                          overwrite=True, set_lon=False)
d.rec_ind = 0
was = np.array(d.ocb.aacgm_boundary_mlt[d.ocb.rec_ind])
d.normal_coord(np.array([70.0, 60.0, 80.0]), np.array([2.0, 4.0, 20.0]))
now = np.array(d.ocb.aacgm_boundary_mlt[d.ocb.rec_ind])
if was.shape != now.shape or not np.array_equal(was, now):
    print(was, now)
    sys.exit(1)
'''),
    dict(id='c31-time-of-the-other-boundary', property='C31',
         edits=[(B, '''            # Convert from lt to longitude
            lon = ocb_time.slt2glon(lt, self.dtime[self.rec_ind])

            # If geocentric coordinates are specified, add this info to the
            # method flag
            if coords.lower() == 'geocentric':
                method = "|".join([method, coords.upper()])
            aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
                lat, lon, height, self.dtime[self.rec_ind], method)
        else:
            aacgm_lat = np.array(lat)
''', '''            # Convert from lt to longitude
            lon = ocb_time.slt2glon(lt, self.eab.dtime[self.eab.rec_ind])

            # If geocentric coordinates are specified, add this info to the
            # method flag
            if coords.lower() == 'geocentric':
                method = "|".join([method, coords.upper()])
            aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
                lat, lon, height, self.dtime[self.rec_ind], method)
        else:
            aacgm_lat = np.array(lat)
''')],
         needs='geographic input to a dual boundary whose EAB time differs '
               'from the time of the pair',
         breaks='solar local time is converted to longitude at the EAB time '
                'but the magnetic conversion uses the time of the pair',
         demo=PRE + '''
import aacgmv2
d = dual(off=45, max_delta=60)
d.rec_ind = 0
t = d.dtime[0]
slt = 6.0
lon = ocbpy.ocb_time.slt2glon(slt, t)
mlat, _, mlt = aacgmv2.get_aacgm_coord(75.0, float(lon), 350.0, t)
a = d.normal_coord(75.0, slt, coords='geodetic')
b = d.normal_coord(mlat, mlt)
if not np.allclose(np.array(a, dtype=float), np.array(b, dtype=float),
                   atol=1e-6):
    print(a, b)
    sys.exit(1)
'''),
    dict(id='c32-eab-left-behind', property='C32',
         edits=[(B, '''        if rec_ind < 0:
            self.ocb.rec_ind = rec_ind
            self.eab.rec_ind = rec_ind
''', '''        if rec_ind < 0:
            self.ocb.rec_ind = rec_ind
''')],
         needs='resetting the record index of a dual boundary below zero',
         breaks='the EAB stays at its last record while the OCB has none',
         demo=PRE + '''
d = dual()
d.rec_ind = 1
d.rec_ind = -1
if d.eab.rec_ind != -1 or d.ocb.rec_ind != -1:
    print(d.ocb.rec_ind, d.eab.rec_ind)
    sys.exit(1)
'''),
    dict(id='c34-small-angles', property='C34',
         edits=[(S, '''    norm_mask = (np.greater_equal(hav, 1.0e-16, where=~np.isnan(hav))
''', '''    norm_mask = (np.greater_equal(hav, 1.0e-12, where=~np.isnan(hav))
'''), (S, '''    small_mask = (np.less(abs(hav), 1.0e-16, where=~np.isnan(hav))
''', '''    small_mask = (np.less(abs(hav), 1.0e-12, where=~np.isnan(hav))
''')],
         needs='an angle of about a microradian',
         breaks='the inverse haversine of small angles is zero',
         demo=PRE + '''
a = 1.5e-6
x = float(ocbpy.ocb_scaling.archav(ocbpy.ocb_scaling.hav(a)))
if abs(x - a) > 1e-9:
    print(a, x)
    sys.exit(1)
'''),
    dict(id='c25-vertical-fill', property='C25',
         edits=[('ocbpy/instruments/supermag.py', '''
                     & (np.isfinite(mdata['BZ']))
''', '''
''')],
         needs='a station whose vertical component alone is missing',
         breaks='stations without a vertical component are written with NaN '
                'components and counted in the number of stations',
         demo=PRE + '''
import os
import tempfile
from unittest import mock
from ocbpy.instruments import supermag
o = ocb()
t = np.array([o.dtime[0]] * 2)
data = {'DATETIME': t, 'NST': np.array([2, 2]), 'SML': np.array([-1, -1]),
        'SMU': np.array([1, 1]), 'STID': np.array(['AAA', 'BBB']),
        'SZA': np.array([50.0, 60.0]), 'BN': np.array([3.0, 4.0]),
        'BE': np.array([5.0, 6.0]), 'BZ': np.array([np.nan, 7.0]),
        'MLT': np.array([20.0, 21.0]), 'MLAT': np.array([70.0, 75.0])}
d = tempfile.mkdtemp()
name = os.path.join(d, 'in')
open(name, 'w').write('x')
with mock.patch.object(supermag, 'load_supermag_ascii_data',
                       return_value=([], data)):
    supermag.supermag2ascii_ocb(name, os.path.join(d, 'out'), ocb=o)
text = open(os.path.join(d, 'out')).read().split('\\n')
if len(text) != 3 or 'nan' in text[1]:
    print(text)
    sys.exit(1)
'''),
    dict(id='c26-other-columns-unselected', property='C26',
         edits=[('ocbpy/instruments/vort.py', '''        for k in vdata.keys():
            vdata[k] = vdata[k][igood]
''', '''        for k in need_keys:
            vdata[k] = vdata[k][igood]
''')],
         needs='a file with both hemispheres and output of all columns',
         breaks='the additional columns of a line belong to another '
                'observation',
         demo=PRE + '''
import os
import tempfile
from unittest import mock
from ocbpy.instruments import vort
o = ocb()
t = np.array([o.dtime[0]] * 2)
data = {'DATETIME': t, 'VORTICITY': np.array([0.001, 0.002]),
        'CENTRE_MLAT': np.array([-70.0, 75.0]), 'MLT': np.array([3.0, 5.0]),
        'AREA': np.array([111.0, 222.0])}
d = tempfile.mkdtemp()
name = os.path.join(d, 'in')
open(name, 'w').write('x')
with mock.patch.object(vort, 'load_vorticity_ascii_data', return_value=data):
    vort.vort2ascii_ocb(name, os.path.join(d, 'out'), ocb=o, save_all=True)
text = open(os.path.join(d, 'out')).read()
if '222' not in text or '111' in text:
    print(text)
    sys.exit(1)
'''),
]
