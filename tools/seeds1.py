PRE = '''
import datetime as dt
import sys
import numpy as np
import ocbpy
ocbpy.logger.handlers = []


def ocb(n=3, hemi=1, cls=ocbpy.OCBoundary, phi=30.0, rc=4.0, r=14.0, **kw):
    o = cls(filename=None, instrument='image', hemisphere=hemi, **kw)
    o.filename = 'demo'
    o.records = n
    o.dtime = np.array([dt.datetime(2005, 6, 20, 3, 0, 0)
                        + dt.timedelta(seconds=600 * i) for i in range(n)])
    o.phi_cent = np.array([phi + 10.0 * i for i in range(n)])
    o.r_cent = np.array([rc + i for i in range(n)])
    o.r = np.array([r + i for i in range(n)])
    o.fom = np.full(n, 2.0)
    o.num_sectors = np.full(n, 12)
    o.rfunc = np.full(n, ocbpy.ocb_correction.circular, dtype=object)
    o.rfunc_kwargs = np.full(n, {}, dtype=object)
    o.rec_ind = 0
    return o

'''
B = 'ocbpy/_boundary.py'
SEEDS = [
    dict(id='c01-kwargs-of-first-record', property='C01',
         edits=[(B, '''                                          **self.rfunc_kwargs[self.rec_ind])
        scalen''', '''                                          **self.rfunc_kwargs[0])
        scalen''')],
         needs='records whose correction keywords differ, and a record other '
               'than the first',
         breaks='normal_coord evaluates the correction function with the '
                'keywords of the first record, so radius correction and '
                'normalised position are those of another record',
         demo=PRE + '''
o = ocb()
o.rfunc_kwargs = np.array([{'r_add': 0.0}, {'r_add': 3.0}, {'r_add': -2.0}],
                          dtype=object)
for i, want in enumerate([0.0, 3.0, -2.0]):
    o.rec_ind = i
    lat, mlt, rc = o.normal_coord(77.0, 5.0)
    if abs(rc - want) > 1e-9:
        print('record', i, 'correction', rc, 'wanted', want)
        sys.exit(1)
'''),
    dict(id='c02-single-correction', property='C02',
         edits=[(B, '''        scale_ocb = (self.r[self.rec_ind]
                     + r_corr) / (90.0''', '''        scale_ocb = (self.r[self.rec_ind]
                     + r_corr.mean()) / (90.0''')],
         needs='array input with a correction that differs between positions',
         breaks='reverting an array uses the mean radius correction for every '
                'position',
         demo=PRE + '''
o = ocb()
o.rfunc = np.full(3, ocbpy.ocb_correction.elliptical, dtype=object)
o.rfunc_kwargs = np.full(3, {'instrument': 'ampere', 'method': 'median'},
                         dtype=object)
lat = np.array([70.0, 76.0, 82.0])
mlt = np.array([1.0, 9.5, 18.0])
nlat, nmlt, rc = o.normal_coord(lat, mlt)
blat, bmlt = o.revert_coord(nlat, nmlt, rc)
if not np.allclose(blat, lat) or not np.allclose(bmlt, mlt):
    print(blat, bmlt)
    sys.exit(1)
'''),
    dict(id='c03-one-past-the-end', property='C03',
         edits=[(B, '''        if self.rec_ind < 0 or self.rec_ind >= self.records:
            return ocb_lat, ocb_mlt, r_corr
''', '''        if self.rec_ind < 0 or self.rec_ind > self.records:
            return ocb_lat, ocb_mlt, r_corr
''')],
         needs='cycling off the end of the records, then normalising',
         breaks='normalising with the index just past the last record raises '
                'IndexError',
         demo=PRE + '''
o = ocb()
o.rec_ind = -1
for i in range(4):
    o.get_next_good_ocb_ind()
lat, mlt, rc = o.normal_coord(np.array([77.0, 80.0]), 5.0)
if not (np.isnan(lat).all() and lat.shape == (2,)):
    sys.exit(1)
'''),
    dict(id='c04-mlt-not-replaced', property='C04',
         edits=[(B, '''                # Save the MLT at this time
                self.aacgm_boundary_mlt[i] = aacgm_mlt
''', '''                # Save the MLT at this time
                if self.aacgm_boundary_mlt[i] is None:
                    self.aacgm_boundary_mlt[i] = aacgm_mlt
''')],
         needs='a second calculation with overwrite and other MLT',
         breaks='after overwriting, the stored MLT is that of the first '
                'calculation while the latitudes are new',
         demo=PRE + '''
o = ocb()
o.get_aacgm_boundary_lat(np.array([1.0, 5.0]), rec_ind=1, set_lon=False)
o.get_aacgm_boundary_lat(np.array([13.0, 19.0]), rec_ind=1, overwrite=True,
                         set_lon=False)
if not np.allclose(o.aacgm_boundary_mlt[1], [13.0, 19.0]):
    print(o.aacgm_boundary_mlt[1])
    sys.exit(1)
'''),
    dict(id='c05-south-subauroral', property='C05',
         edits=[(B, '''                eab_aacgm_boundary[iout] - aacgm_lat[iout]) * (
                    self.eab.boundary_lat / eab_aacgm_boundary[iout])''',
                 '''                eab_aacgm_boundary[iout] - aacgm_lat[iout]) * (
                    abs(self.eab.boundary_lat) / eab_aacgm_boundary[iout])''')],
         needs='a southern-hemisphere position equatorward of the EAB',
         breaks='the sub-auroral latitude is mirrored about the EAB in the '
                'southern hemisphere',
         demo=PRE + '''
o = ocb(hemi=-1, rc=0.0)
e = ocb(hemi=-1, cls=ocbpy.EABoundary, rc=0.0, r=24.0)
d = ocbpy.DualBoundary(ocb=o, eab=e, hemisphere=-1)
d.rec_ind = 0
lat, mlt, olat, rc = d.normal_coord(np.array([-40.0]), np.array([6.0]))
want = -64.0 * 40.0 / 66.0
if abs(lat[0] - want) > 1e-6:
    print(lat, want)
    sys.exit(1)
'''),
    dict(id='c06-edge-of-oval', property='C06',
         edits=[(B, '''            if len(imid) > 0:
                lat[imid] = ocb_aacgm_boundary[imid] - (
                    self.ocb.boundary_lat - ocb_lat[imid]) * (
                        ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid]) / (
                            self.ocb.boundary_lat - self.eab.boundary_lat)
                lt[imid] = aacgm_mlt[imid]
''', '''            if len(imid) > 0:
                lat[imid] = ocb_aacgm_boundary[imid] - (
                    self.ocb.boundary_lat - ocb_lat[imid]) * (
                        ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid]) / (
                            self.ocb.boundary_lat - self.eab.boundary_lat)
                if len(iout) == 0:
                    lt[imid] = aacgm_mlt[imid]
''')],
         needs='an array with positions both in the auroral oval and '
               'equatorward of it',
         breaks='the reverted MLT of auroral positions is the OCB one when '
                'the array also holds sub-auroral positions',
         demo=PRE + '''
o = ocb()
e = ocb(cls=ocbpy.EABoundary, rc=3.0, r=25.0)
d = ocbpy.DualBoundary(ocb=o, eab=e)
d.rec_ind = 0
lat = np.array([85.0, 71.0, 50.0])
mlt = np.array([4.0, 8.0, 15.0])
nlat, nmlt, olat, rc = d.normal_coord(lat, mlt)
blat, bmlt = d.revert_coord(nlat, nmlt, rc, is_ocb=False, aacgm_mlt=mlt)
if not np.allclose(blat, lat) or not np.allclose(bmlt, mlt):
    print(blat, bmlt)
    sys.exit(1)
'''),
    dict(id='c08-threshold-equality', property='C08',
         edits=[(B, '''                if test_val >= min_merit and test_val <= max_merit:''',
                 '''                if min_merit <= test_val < max_merit:''')],
         needs='a record whose figure of merit equals the maximum',
         breaks='the maximum figure of merit is exclusive',
         demo=PRE + '''
o = ocb()
o.fom = np.array([3.0, 2.0, 5.0])
got = ocbpy.cycle_boundary.retrieve_all_good_indices(o, max_merit=3.0)
if list(got) != [0, 1]:
    print(got)
    sys.exit(1)
'''),
]
