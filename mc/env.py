"""Builds, from /repo's working tree, a scratch package tree the checks import.

Every Python file is a symbolic link to /repo's own file, so the code that runs
is /repo's; data folders are copied because loaders write in them.
"""
import os
import shutil
import tempfile

REPO = os.environ.get('MC_REPO') or '/repo'  # MC_REPO: development only (planted bugs in scratch copies)


def build_tree(dest, repo=REPO):
    src_root = os.path.join(repo, 'demod')
    dst_root = os.path.join(dest, 'demod')
    for root, dirs, files in os.walk(src_root):
        rel = os.path.relpath(root, src_root)
        out = os.path.normpath(os.path.join(dst_root, rel))
        dirs[:] = [d for d in dirs if d != '__pycache__']
        os.makedirs(out, exist_ok=True)
        data = any(p in ('parsed_data', 'raw_data') for p in rel.split(os.sep))
        for f in files:
            s = os.path.join(root, f)
            d = os.path.join(out, f)
            if f.endswith('.py') and not data:
                os.symlink(s, d)
            else:
                shutil.copyfile(s, d)
    gt = os.path.join(dst_root, 'datasets', 'GermanTOU')
    parsed = os.path.join(gt, 'parsed_data')
    if os.path.isdir(parsed):
        raw = os.path.join(gt, 'raw_data')
        os.makedirs(raw, exist_ok=True)
        for f in os.listdir(parsed):
            if f.endswith('.zip') and not os.path.exists(os.path.join(raw, f)):
                shutil.copyfile(os.path.join(parsed, f), os.path.join(raw, f))
    ninja_csv(os.path.join(dst_root, 'datasets', 'RenewablesNinja', 'raw_data', 'DE_population.csv'))
    # the loader only parses this workbook for data that is not among the parsed data
    crest = os.path.join(dst_root, 'datasets', 'CREST', 'raw_data')
    os.makedirs(crest, exist_ok=True)
    for v in ('v2.2', 'v2.3.3'):
        with open(os.path.join(crest, 'CREST_Demand_Model_%s.xlsm' % v), 'w'):
            pass
    return dest


def ninja_csv(path, days=60):
    """A synthetic stand-in for the file the climate loader would download."""
    import datetime
    os.makedirs(os.path.dirname(path), exist_ok=True)
    cols = ['precipitation', 'temperature', 'irradiance_surface', 'irradiance_toa', 'snowfall', 'snow_mass',
            'cloud_cover', 'air_density']
    with open(path, 'w') as f:
        f.write('# synthetic\n# synthetic\ntime,%s\n' % ','.join(cols))
        t = datetime.datetime(2014, 1, 1)
        for i in range(days * 24):
            sun = max(0, 6 - abs(t.hour - 12))
            f.write(t.strftime('%Y-%m-%d %H:%M:%S') + ',%g,%g,%g,%g,0,0,%g,%g\n' % (
                (i % 7) / 8, -5 + (i * 5 % 41) / 2, 10 * sun + i % 3 * sun, 40 * sun, (i * 3 % 8) / 8, 1.2 + (i % 4) / 64))
            t += datetime.timedelta(hours=1)




def scratch():
    return tempfile.mkdtemp(prefix='demodmc.')
