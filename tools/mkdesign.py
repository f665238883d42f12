"""Assemble DESIGN.md: docs/engine.md, one section per property (method here,
bounds from the check modules), docs/findings.md."""
import importlib
import json
import sys
sys.path[:0] = ['/verif']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
HOW = {
'C01': ('normal_coord of an OCBoundary/EABoundary runs on a free position, centre, radius and correction. Oracle: the planar law - vector from the record\'s centre to the point, length scaled by (90 - boundary_lat)/(r + correction at the AACGM MLT of the point), equal direction. The angle is compared through its sine and cosine and range; the fold at the pole and both hemispheres are separate tasks.', 17),
'C02': ('normal_coord then revert_coord in one symbolic run; the recovered latitude and local time equal the first ones (modulo 24 h), also with an arbitrary correction function, which must be used at one MLT only.', 35),
'C03': ('Every index (as a free integer over -n..2n) and hemisphere flag; the result is NaN (or the hemisphere fill for r_corr) exactly if record or hemisphere is unusable, for normal/revert/pole location of the three classes.', 60),
'C04': ('get_aacgm_boundary_lat: the planar distance between the point at the returned latitude and the circle centre equals radius + correction; histories of calls with/without overwrite and index subsets compare what is stored afterwards.', 120),
'C05': ('Dual normal_coord with the point placed poleward, between or equatorward of both circles (solver-side assumption per region); oracle is the piecewise linear map of the latitude between the two boundary latitudes at its MLT and the OCB-centred local time.', 9),
'C06': ('Dual normal_coord then revert_coord returns the position, per region; pairs whose indices differ from the record numbers.', 50),
'C07': ('calc_r compared with the radius of the region the normalised point is in, derived from the geometry of the two circles; outside the hemisphere NaN.', 13),
'C08': ('get_next_good_ocb_ind/retrieve_all_good_indices over free figures of merit and attributes including NaN; oracle is the first later record (resp. all records) satisfying the documented criteria; thresholds are free, so equality is one of the solver\'s cases.', 9),
'C09': ('match_data_ocb runs on ladders of free times; after each call the returned index must be the closest good record within the tolerance to some data time, nothing skipped; repeated until exhaustion.', 31),
'C10': ('set_good_ind: the pairs equal the set computed from free quality values and free times by the documented rule; strictly increasing, maximal separation respected, closest partner chosen, caller\'s criteria unchanged.', 23),
'C11': ('fix_range on exact reals (result - input is a multiple of the range, in [min, max)) and, in FP tasks, on IEEE doubles in z3 (the result stays below the maximum after rounding).', 31),
'C12': ('deg2hr, hr2deg, glon2slt, slt2glon, datetime2hr on free instants; inverse modulo the day, UT hour equals hours+minutes+seconds+microseconds; FP tasks with double arithmetic.', 53),
'C13': ('year_soy_to_datetime, yyddd_to_date, convert_time, get_datetime_fmt_len: text tokens carry free digits; the datetime shim gives calendar arithmetic, the oracle is integer arithmetic on the same digits.', 37),
'C14': ('adjust_vector with the pole angle kept as a free angle (C15 decides its value): components equal the rotation by the signed bearing; norm kept; zero, NaN, poles on the meridian, all shapes.', 53),
'C15': ('calc_vec_pole_angle: cosine and sine of the returned angle equal those of the spherical triangle; meridian cases separately, NaN elements.', 41),
'C16': ('define_pole_quadrants / define_vect_quadrants: the quadrant agrees with the signs of east/north parts of the direction (closed on documented sides).', 17),
'C17': ('VectorData.set_ocb with normal_coord free and pole angle uninterpreted: components, radii and pole come from the matched record and pass through the scaling function; OCB, EAB, dual, every index shape. southern true-pole tasks carry the known finding.', 63),
'C18': ('Construction and index reassignment over all shape combinations: every derived attribute is re-shaped or discarded together; inconsistent lengths are rejected.', 58),
'C19': ('Every public conversion is run and its array arguments, their dtypes, dictionaries and all attributes of the boundary are compared before/after.', 39),
'C20': ('f(array)[i] == f(array[i]) with both calls on the same symbols, for all conversions, classes and shape mixtures.', 122),
'C21': ('The real loader reads a real file written by the check whose numbers are tokens for free values (symx/text.py splits lines by numpy itself). Each kept record is compared with the row it must come from; row membership in the window is a solver question.', 27),
'C22': ('get_default_file with os listing stand-ins; start/end free instants.', 11),
'C23': ('format_ssj_boundary_files reads token files and writes files; the check parses what was written and compares with circle geometry over a free magnetic position per crossing.', 119),
'C24': ('eval_dmsp file names with a symbolic calendar day and satellite number.', 2),
'C25': ('supermag2ascii_ocb is run from loaded values to the written text; the output file is parsed (tokens) and compared record by record with an independent selection of (data, boundary) matches.', 32),
'C26': ('As C25 for vort2ascii_ocb, including dual boundaries and other column names.', 8),
'C27': ('add_ocb_to_data runs on an Instrument stand-in whose columns are symbolic (a real pandas DataFrame in replays); every added column of every row is compared with an independent selection of matches, the scaling laws and VectorData on the row\'s own values; caller arguments and original columns are compared before and after.', 43),
'C28': ('The three loaders read real files of token numbers; every entry is compared to the row, block and column it was written in.', 5),
'C29': ('satellite_track: selected exactly when the position lies within the allowance of the line through both crossings and between/near them.', 117),
'C30': ('circular/elliptical/harmonic: 24 h periodic, equal to the published series evaluated by the check, element by element with NaN.', 6),
'C31': ('Every conversion with coords geographic/geodetic equals the magnetic call on what the (uninterpreted) aacgmv2 returns for the same place, height, record time and method; back conversion likewise.', 60),
'C32': ('Histories of assignments/cycling/selection on dual boundaries; after every step both sub-boundaries are on the records of the current pair.', 27),
'C33': ('update_loc_coords/update_vect_coords_to_mag/set_ocb with geographic vectors: rotation by the bearing of the geographic->magnetic pole, at the matched record\'s time.', 59),
'C34': ('hav/archav/inverse identities on free reals.', 9),
}
out = open('/verif/docs/engine.md').read()
out += '''
## Per property

"Cost" is the quick tier on 8 cores.  The thorough tier runs the same harnesses
with more records, elements, operations and configurations.  What makes these
reach further than tests: every number in the inputs is a solver variable, so
each statement is decided for all values on all feasible paths within the
bounds.

'''
for line in open('/verif/properties.jsonl'):
    p = json.loads(line)
    c = p['id']
    out += '### %s %s\n\n' % (c, p['title'])
    if c not in HOW:
        sys.path.insert(0, '/verif/tools')
        man = json.load(open('/verif/MANIFEST.json'))
        r = [x['reason'] for x in man['not_applicable']
             if x['property'] == c]
        out += 'Not applicable: %s\n\n' % (r or ['?'])[0]
        continue
    m = importlib.import_module('checks.' + c.lower())
    out += HOW[c][0] + '\n\n*Bounds.* ' + m.BOUNDS
    if getattr(m, 'OUTSIDE', ''):
        out += '  *Outside.* ' + m.OUTSIDE
    a = getattr(m, 'ASSUMPTIONS', ())
    if a:
        out += '  *Assumed.* ' + ' '.join(
            a if not isinstance(a, str) else (a,))
    out += '  *Cost.* about %d s.\n\n' % HOW[c][1]
import glob
import os
rows = []
for d in sorted(glob.glob('/verif/seeded/*/meta.json')
                + glob.glob('/verif/planted/*/meta.json'),
                key=lambda d: d.split('/')[3]):
    x = json.load(open(d))
    rows.append('* `%s` - %s (needs %s). Caught by %s.' % (
        os.path.basename(os.path.dirname(d)), x['what_it_breaks'],
        x['needs'], x['property']))
out += open('/verif/docs/findings.md').read().replace('SEEDTABLE',
                                                      '\n'.join(rows))
open('/verif/DESIGN.md', 'w').write(out)
