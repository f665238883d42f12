"""Refresh the 'fixed' entries of known_findings.jsonl from /repo's log."""
import json
import subprocess
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'],
                              text=True).splitlines()
FIXED = [
    ('C11', 'fix_range keeps', 'fix_range altered its array argument, truncated integers and could return the maximum'),
    ('C19', 'fix_range keeps', 'fix_range altered its array argument'),
    ('C03', 'normal_coord does not', 'normal_coord wrote fill values into the caller\'s latitude array'),
    ('C19', 'normal_coord does not', 'normal_coord altered the caller\'s latitude array'),
    ('C04', 'get_aacgm_boundary_lat does', 'get_aacgm_boundary_lat rejected integer MLT'),
    ('C19', 'get_aacgm_boundary_lat does', 'get_aacgm_boundary_lat altered the caller\'s MLT array'),
    ('C32', 'an out-of-range dual', 'an out-of-range DualBoundary.rec_ind kept the previous or a wrong boundary record'),
    ('C03', 'dual-boundary reversion', 'DualBoundary.revert_coord located positions for an unusable index or the wrong hemisphere'),
    ('C31', 'select the heights', 'DualBoundary.revert_coord paired heights with the wrong positions when converting to geographic'),
    ('C10', 'a dual boundary without data', 'a DualBoundary without data had no record index, so every use raised AttributeError'),
    ('C10', 'selecting dual-boundary pairs', 'set_good_ind added entries to the caller\'s criteria dictionaries'),
    ('C08', 'a NaN attribute', 'a NaN attribute passed the min/mineq/max/maxeq selection criteria'),
    ('C13', 'fractional seconds', 'year_soy_to_datetime raised for fractional seconds that round up to a whole minute'),
    ('C15', 'pole angle for NaN', 'calc_vec_pole_angle failed or was wrong for NaN latitudes, mixed input shapes, southern data on a meridian and rounding at a meridian'),
    ('C14', 'vector adjustment on', 'adjust_vector dropped the vertical part of vectors without a horizontal part, did not reverse vectors between the poles, reversed southern vectors on a meridian, raised for NaN and mixed up mixed shapes'),
    ('C16', 'pole quadrants have', 'define_pole_quadrants returned one quadrant for an array of pole angles with scalar local times'),
    ('C17', 'scale the rotated', 'set_ocb scaled the unrotated components of a single vector'),
    ('C17', 'vector data uses the time', 'set_ocb ignored the requested tracing and used a wrong time'),
    ('C33', 'vector data uses the time', 'set_ocb passed the times of records 0.. instead of the matched ones'),
    ('C18', 'vector data keeps one', 'vector data accepted heights and boundary locations of inconsistent length and left the magnitude or location scalar for array data'),
    ('C18', 'new data or record', 'boundary locations calculated for the old data or record indices were kept for the new ones'),
    ('C29', 'satellite tracks in any', 'satellite_track failed for vertical tracks and single positions, selected nothing along steep rising tracks and accepted the other hemisphere'),
    ('C24', 'a missing start or end', 'evaluate_dmsp_boundary_file rejected files by their time when no limits were given'),
    ('C22', 'the default boundary file', 'get_default_file failed for several files of another instrument or unknown time range, and depended on the directory order'),
    ('C20', 'locate every element of multi', 'DualBoundary.normal_coord, revert_coord and calc_r mixed up or missed elements of two-dimensional input'),
    ('C20', 'calc_r treats single values', 'DualBoundary.calc_r failed for an array of positions with a single AACGM MLT, and for a single position with arrays'),
    ('C20', 'dual reversion repeats', 'DualBoundary.revert_coord failed or had a wrong shape for a single position with several corrections or AACGM MLT'),
    ('C20', 'the pole location has the shape', 'get_pole_loc returned a single local time or latitude beside an array'),
    ('C33', 'converts between geodetic and geocentric', 'update_loc_coords treated geodetic locations as magnetic ones when asked for geocentric ones, and kept the case of the name'),
    ('C33', 'single vector location keeps its shape', 'the converted location of one vector was an array, so that the vector could not be printed and shapes were mixed'),
    ('C33', 'find the magnetic pole at each', 'update_vect_coords_to_mag failed for arrays of data at one time'),
    ('C33', 'southern geographic vectors', 'southern geographic vectors were rotated in the opposite direction: north components were taken as pointing to the southern pole'),
    ('C33', 'use their geographic location throughout', 'geographic vectors without any pole angle failed, and those on the meridian of the magnetic pole were flipped by their magnetic location'),
    ('C33', 'is used record by record', 'set_ocb failed for one geographic vector location matched to several records'),
    ('C33', 'converts geographic locations of magnetic vectors', 'set_ocb failed for magnetic vectors with geographic locations'),
    ('C16', 'accepts integer local times', 'define_pole_quadrants failed for arrays of integer local times with the pole behind the data'),
    ('C25', 'files without any match', 'supermag2ascii_ocb failed when no data were close enough to a boundary'),
    ('C26', 'files without any match', 'vort2ascii_ocb failed when no data were close enough to a boundary'),
    ('C25', 'leaves the boundary a record index', 'set_ocb left the boundary a record index that cycling altered in place, so that supermag2ascii_ocb used wrong records or lost data'),
    ('C28', 'missing SuperMAG magnetic latitudes', 'load_supermag_ascii_data kept the fill value of magnetic latitudes'),
    ('C28', 'load_ascii_data reads single rows', 'load_ascii_data mixed up single rows, used wrong columns for YEAR SOY times and altered the caller lists'),
    ('C21', 'a boundary file with a single record', 'boundary files with one record could not be loaded'),
    ('C23', 'DMSP files with a single pass', 'format_ssj_boundary_files dropped files with one pass'),
    ('C27', 'a single height is used', 'add_ocb_to_data failed for a single height (the default) with pandas data'),
    ('C27', 'every pysat vector starts', 'add_ocb_to_data gave vectors the components of the vector before them'),
    ('C27', 'leaves the lists of variables', 'add_ocb_to_data altered the lists and dictionaries of the caller'),
    ('C27', 'default boundary types are', 'add_ocb_to_data failed for the default ocbfile'),
    ('C27', 'pysat data without any match', 'add_ocb_to_data failed when no data were close enough to a boundary'),
    ('C27', 'pysat vectors without a boundary', 'add_ocb_to_data failed for vectors at a NaN local time'),
]
p = '/verif/known_findings.jsonl'
old = [json.loads(x) for x in open(p)]
out = [x for x in old if x['status'] != 'fixed']
for prop, sub, what in FIXED:
    h = [x for x in log if sub in x]
    assert len(h) == 1, (sub, h)
    c = h[0].split()[0]
    out.append(dict(id='fixed-%s-%s' % (prop, c), property=prop, task='',
                    label='', what='fixed: property=%s %s %s' % (prop, c, what),
                    status='fixed'))
open(p, 'w').write(''.join(json.dumps(x) + '\n' for x in out))
