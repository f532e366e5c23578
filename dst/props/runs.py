"""Whole runs (Simulator.run / main) under the simulated clock, disk and plotter."""
from props.common import *
import os, glob, re
from fractions import Fraction


class PlotRecorder:
    """Stands in for matplotlib: records what is plotted and leaves a tiny real PNG whose grey level tells the frame."""
    def __init__(self, root):
        self.calls = []
        self.prev = M.plotter.Plotter.save_plots
        rec = self

        def save_plots(self, pressure, saturation, filename, time_info=None, gas_saturation=None):
            rec.calls.append(dict(file=os.path.relpath(os.path.realpath(filename), os.path.realpath(root)), p=np.array(pressure), sw=np.array(saturation), time=time_info,
                                  sg=None if gas_saturation is None else np.array(gas_saturation)))
            k = len(rec.calls)
            with open(filename, 'wb') as f: f.write(png(k))
        self.fn = save_plots

    def __enter__(self): M.plotter.Plotter.save_plots = self.fn; return self
    def __exit__(self, *a): M.plotter.Plotter.save_plots = self.prev


def png(k, size=(8, 6)):
    import zlib, struct
    w, h = size
    row = b'\x00' + bytes([k % 256, (k * 37) % 256, 255 - k % 256]) * w
    def ch(t, d): return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    return b'\x89PNG\r\n\x1a\n' + ch(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 2, 0, 0, 0)) + ch(b'IDAT', zlib.compress(row * h)) + ch(b'IEND', b'')


def frame_level(k): return [k % 256, (k * 37) % 256, 255 - k % 256]


DT_PAIRS = [('0.3', '0.1'), ('0.7', '0.1'), ('1', '0.1'), ('0.6', '0.2'), ('2.1', '0.7'), ('5', '1'), ('3', '1'), ('7', '2'), ('1', '0.3'), ('10', '3'), ('2.5', '0.5'), ('1.2', '0.4'),
            ('0.9', '0.3'), ('4.2', '0.6'), ('1.4', '0.7'), ('0.35', '0.05'), ('0.5', '1'), ('1', '1'), ('12', '0.8'), ('1.1', '0.1'), ('2.4', '0.3'), ('0.29', '0.01')]


def gen_time(r, limit=24):
    while True:
        x = r.random()
        if x < 0.15:                       # the last step does not quite fit
            b = f'{r.randint(1, 40) / 10 ** r.randint(0, 2):.2f}'; n = r.randint(1, limit)
            a = repr(float(Fraction(b) * n * (1 - Fraction(r.choice(['0.01', '0.001', '1e-4', '1e-5', '1e-6'])))))
        elif x < 0.7: a, b = r.choice(DT_PAIRS)
        else:
            d = r.randint(0, 3); b = f'{r.randint(1, 40) / 10 ** d:.{d}f}'
            n = r.randint(1, limit)
            a = str(Fraction(b) * n) if r.random() < 0.0 else repr(float(Fraction(b) * n))
        if Fraction(b) > 0 and Fraction(a) / Fraction(b) <= limit: return float(a), float(b), int(Fraction(a) // Fraction(b))


def strip_world(w):
    """What a configuration file can express (no maps)."""
    w.pop('het', None); w.pop('init', None)
    return w


def config_of(w, sim, name, pvt_path=None, vtk=False):
    f = json.loads(json.dumps(w['fluid']))
    if pvt_path: f['pvt_path'] = pvt_path
    return dict(description='Шкаповское месторождение, вариант И', reservoir=dict(dimensions=w['dims'], grid_size=w['grid'], porosity=w['phi'], permeability=w['kh'], k_vertical_fraction=w['kvf']),
                wells=w['wells'], fluid=f, simulation=sim, output_filename=name, save_vtk=vtk)


def run_main(cfg, tag='config.json'):
    import sys
    with seams.REAL_OPEN(tag, 'w', encoding='utf-8') as f: json.dump(cfg, f, ensure_ascii=False)
    old = sys.argv
    sys.argv = ['main.py', '--config', tag]
    try: M.main.main()
    finally: sys.argv = old


def clock(case):
    c = seams.CLOCK
    c.active = True; c.t = case.get('t0', 1.7e9); c.script = case.get('clock', [])
    c.reads = 0


def gen_clock(r):
    return r.choice([[], [], [0.0], [0.001], [1.0], [-1.0, 0.5], [3600.0, -3600.0], [-86400.0]])


def result_dirs(root='results'):
    try: return sorted(d for d in seams.REAL['listdir'](root) if os.path.isdir(os.path.join(root, d)))
    except FileNotFoundError: return []


def read(path, mode='r'):
    with seams.REAL_OPEN(path, mode) as f: return f.read()


def tree(root):
    """Every file below root with its bytes."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            q = os.path.join(d, f)
            out[os.path.relpath(q, root)] = read(q, 'rb')
    return out
