"""C10: lookup tables are found predictably, never overwritten or created unasked."""
import gzip
import json
import eccodes
import pyg2p.main.config as cfg
from pyg2p.exceptions import ApplicationException, NO_INTERTABLE_CREATED, NO_VAR_DEFINED, NOT_EXISTING_PATH, NO_WRITE_PERMISSIONS
from engine.runner import Harness
from .interp_common import *

ASSUMPTIONS = ['file system: real files in a scratch folder, permissions answered by a stub of os.access (checks run as root)',
               'an alternate table folder (-N) exists when given']
N, MARK = 6, ('user', 'user gz', 'global', 'global gz')


def table_for(mode, shift):
    """A table mapping the two target cells to sources shift, shift+1"""
    if mode == 'grib_nearest':
        return np.asarray([[0, 0], [0, 1], [shift, shift + 1]])
    if mode == 'grib_invdist':
        z = np.zeros(2)
        return np.rec.fromarrays((np.asarray([[0, 0], [0, 1]] + [[shift, shift + 1]] * 4), np.asarray([np.ones(2), z, z, z, z, z])), names=('indexes', 'coeffs'))
    if mode == 'nearest':
        return np.rec.fromarrays((np.array([shift, shift + 1]), np.ones(2)), names=('indexes', 'coeffs'))
    k = interp.Interpolator.scipy_modes_nnear[mode]
    return np.rec.fromarrays((np.array([[shift] * k, [shift + 1] * k]), np.array([[1.0] + [0.0] * (k - 1)] * 2)), names=('indexes', 'coeffs'))


def write_table(path, mode, shift):
    with (gzip.open if path.endswith('.gz') else open)(path, 'wb') as f:
        np.save(f, table_for(mode, shift))


def lookup(t, mode, entry, alt):
    """entry: none | global | user | both (the user entry names another file)"""
    gz_name = t.flag('registered name ends in .gz') if entry != 'none' else False
    create = t.flag('-B')
    folder = t.choice('user folder', ['ok', 'not configured', 'missing', 'read only'])
    iid = 'Igrid_tgt' + interp.Interpolator.suffixes[mode]
    name = 'shared.npy' + ('.gz' if gz_name else '')
    used_name = name if entry != 'both' else 'mine.npy' + ('.gz' if gz_name else '')
    with Scratch() as d:
        home = d + '/home/'
        os.mkdir(home)
        os.mkdir(d + '/alt')
        with open(home + 'x.conf', 'w') as f:
            f.write('OTHER=1\n' + ('' if folder == 'not configured' else f'INTERTABLES={d}/user\n'))
        if folder == 'missing':
            os.rmdir(d + '/user')
        lookdir = d + '/alt' if alt else None if folder == 'not configured' else d + '/user'
        gvars = {iid: {'filename': name, 'method': mode}} if entry in ('global', 'both') else {}
        gvars['Iother'] = {'filename': 'other.npy', 'method': mode}
        uvars = {'description': 'x'}
        if entry in ('user', 'both'):
            uvars[iid] = {'filename': used_name, 'method': mode}
        with open(home + 'intertables.json', 'w') as f:
            json.dump(uvars, f)
        # files lying about
        base = used_name[:-3] if gz_name else used_name
        present = {}
        spots = []
        if lookdir and os.path.isdir(lookdir):
            spots += [('user', lookdir)]
        spots += [('global', d + '/global')]
        for i, (where, dd) in enumerate(spots):
            for ext in ('', '.gz'):
                if entry != 'none' and t.flag(f'{where} file{ext}'):
                    present[where, ext] = len(present)
                    write_table(dd + '/' + base + ext, mode, len(present) - 1)
        taken = 0
        if entry == 'none' and lookdir and os.path.isdir(lookdir):
            taken = t.choice('names taken', [0, 1, 2])
            for k in range(taken):
                with open(f"{lookdir}/tbl{'_%d' % k if k else ''}_source_2_{interp.Interpolator.suffixes[mode]}.npy.gz", 'w') as f:
                    f.write('x')
        clash = entry == 'none' and t.choice('same name', ['', 'file in the global folder', 'registered, without file'])
        nm = f"tbl{'_%d' % taken if taken else ''}_source_2_{interp.Interpolator.suffixes[mode]}.npy.gz"
        if clash == 'file in the global folder':
            gvars['Ishared'] = {'filename': nm, 'method': mode}
            with open(d + '/global/' + nm, 'w') as f:
                f.write('x')
        elif clash:
            gvars['Ishared'] = {'filename': nm, 'method': mode}

        class G:
            vars = {'intertables': d + '/global', 'geopotentials': d + '/globalgeo'}
        acc = os.access
        stubs = [(cfg.UserConfiguration, 'config_dir', home), (cfg.GlobalConf, 'instance', G), (cfg.BaseConfiguration, 'load_global', lambda s: json.loads(json.dumps(gvars)))]
        find = lambda gid, lat, lon, is_lsm=False, npoints=1: [dict(distance=float(j), index=4 + (lon > 10.1) - (0 if j == 0 else j), lat=0, lon=0, value=0) for j in range(npoints)]
        w = World(t, N, interp.Interpolator.scipy_modes_nnear.get(mode, 1), free=(), orders=[[4, 0, 1, 2], [5, 0, 1, 2]])
        w.row = lambda pt, rows={}: rows.setdefault(tuple(round(float(x)) for x in pt), ([0.0, 1.0, 2.0, 3.0], [4 + len(rows), 0, 1, 2]))
        stubs += [(os, 'access', lambda p, m, **k: False if folder == 'read only' and m & os.W_OK and str(p).rstrip('/') == d + '/user' else acc(p, m, **k)),
                  (eccodes, 'codes_grib_find_nearest', find), (sil, 'KDTree', w.tree())]
        vals = [t.real(f'v{i}', -1000, 1000) for i in range(N)]
        v = arr(t, vals)
        before = files_under(d)
        code = None
        with Patched(*stubs):
            conf = cfg.IntertablesConfiguration(cfg.UserConfiguration())
            it = interpolator(d, mode, Target(*grid(1, 2)), conf, **{'interpolation.create': create, 'interpolation.dirs': {'user': lookdir, 'global': d + '/global'}})
            it.aux_for_intertable_generation(7, v, None, None)
            src = np.array([[51.0 - 0.4 * i, 8.0 + 0.7 * i] for i in range(N)])
            try:
                out = it.interpolate(src[:, 0], src[:, 1], v, 'grid', GEO, gid=7)
            except ApplicationException as e:
                code = e.code
            later = cfg.IntertablesConfiguration(cfg.UserConfiguration()).vars
        after = files_under(d)
        new = sorted(set(after) - set(before))
        t.check('no file removed or overwritten', all(after.get(k) == x for k, x in before.items() if k != 'home/intertables.json'))
        # what must happen
        order = [('user', '.gz'), ('global', '.gz')] if gz_name else [('user', ''), ('user', '.gz'), ('global', ''), ('global', '.gz')]
        hit = next((k for k in order if k in present), None)
        if hit:
            t.cover('found')
            t.check('an existing table is used', code is None)
            t.check('nothing is written when the table exists', not new and before == after)
            if code is None:
                for c, (m, x) in enumerate(cells(out)):
                    t.eq('value through the table that takes precedence', x, vals[present[hit] + c])
        elif not create:
            t.cover('not created')
            t.check('missing table without -B is an application error', code == NO_INTERTABLE_CREATED)
            t.check('nothing is written without -B', not new and before == after)
        elif folder != 'ok':
            t.cover('refused')
            want = {'not configured': NO_VAR_DEFINED, 'missing': NOT_EXISTING_PATH, 'read only': NO_WRITE_PERMISSIONS}[folder]
            t.check('creation refused when the user folder is unusable', code == want)
            t.check('nothing is written when creation is refused', not new and before == after)
        else:
            t.cover('created')
            t.check('table is created', code is None)
            t.check('one new file, in the user folder', len(new) == 1 and os.path.dirname(new[0]) == ('alt' if alt else 'user'))
            if code is None and len(new) == 1:
                t.check('registered for later runs', later.get(iid, {}).get('filename') in (os.path.basename(new[0]), os.path.basename(new[0])[:-3]))
                names = {os.path.basename(k) for k in before if not k.startswith('home/')} | {x['filename'] for k, x in gvars.items() if isinstance(x, dict) and k != iid}
                t.check('the name of another table is not taken', os.path.basename(new[0]) not in names or entry != 'none')
                t.check('other entries of the registry stay', all(later.get(k) == x for k, x in gvars.items() if k != iid))
                for c, (m, x) in enumerate(cells(out)):
                    t.eq('value of the nearest source', x, vals[4 + c])


MODES = ['nearest', 'grib_nearest', 'grib_invdist']
HARNESSES = [
    Harness('lookup', lookup, [dict(mode=m, entry=e, alt=a) for m in MODES for e in ('none', 'global', 'user', 'both') for a in (False, True) if not a or m == 'nearest'],
            ['Interpolator._intertable_filename', 'Interpolator._read_intertable', 'Interpolator.update_intertable_conf', 'BaseConfiguration.check_write', 'BaseConfiguration.merge_with_user_conf/dump',
             'Interpolator.interpolate_scipy', 'Interpolator.grib_nearest', 'Interpolator.grib_inverse_distance'],
            bounds='every combination of registry entry (none, global, user, both), plain/compressed name, files present in either folder plain or compressed, -B, user folder usable or not, -N or not, '
                   'up to two taken names, a global or registered table of the same name; any values', stubs=['KDTree', 'eccodes.codes_grib_find_nearest', 'os.access'],
            covers=['found', 'not created', 'refused', 'created'],
            thorough_params=[dict(mode=m, entry=e, alt=a) for m in MODES + ['invdist', 'adw', 'bilinear', 'triangulation'] for e in ('none', 'global', 'user', 'both') for a in (False, True)
                             if not (m in ('adw', 'bilinear', 'triangulation') and e != 'none') or True]),
]
