"""Animations: every frame once, in order, whatever the directory looks like."""
from props.runs import *
import io as _io


def gif_frames(path):
    from PIL import Image
    out = []
    with seams.REAL_OPEN(path, 'rb') as f: data = f.read()
    im = Image.open(_io.BytesIO(data))
    for k in range(getattr(im, 'n_frames', 1)):
        im.seek(k)
        out.append([int(v) for v in im.convert('RGB').getpixel((1, 1))])
    return out


def near(a, b): return max(abs(x - y) for x, y in zip(a, b)) <= 3


def as_ids(frames, known):
    """Frame colours back to frame numbers (None = a picture nobody saved)."""
    ids = []
    for c in frames:
        hit = [k for k in known if near(c, frame_level(k))]
        ids.append(hit[0] if len(hit) == 1 else None)
    return ids


class S13(Check):
    prop = 'S13'
    counts = dict(quick=1200, thorough=24000)
    rule = ('a run either fills a directory with frames (random step numbers and digits, decoys of other kinds, leading zeros, odd names, a final picture or none) and calls one of the two animation functions, '
            'or performs a whole simulation with animation, under a seeded directory listing order and seeded read/write faults; the GIF is decoded and compared frame by frame; non-trivial = at least 3 frames, '
            'of which some sort differently as text than as numbers, or a fault fired; distinct = (function, step numbers, listing order, faults)')
    real = ['utils.create_animation', 'Simulator._create_animation', 'Simulator.run', 'imageio/PIL encoder', 'Simulator core in whole runs']
    stub = ['matplotlib drawing (recorded, writes a tiny PNG)', 'directory listing order', 'disk faults on frame reads and GIF writes', 'wall clock']

    def gen(self, r, i, tier):
        case = dict(order=r.randrange(1 << 30), fps=r.choice([1, 5, 10]))
        x = r.random()
        name = r.choice(['out', 'sim_output', 'a b', 'run_step_3', 'final', 'x_final', 'p[1]', 'пласт', 'model[a-z]', 'q*', 'intermediate'])
        case['name'] = name
        if x < 0.25:
            w = strip_world(W.gen_world(r, max_cells=2, pvt=False, caps=False, limits=False))
            n = r.choice([3, 5, 11, 12, 13, 21])
            w['sim'].update(save_interval=r.choice([1, 1, 2, 3]), animation_fps=case['fps'], time_step_days=w['dt'], total_time_days=w['dt'] * n, max_time_step_attempts=2)
            for q in w['wells']:
                if W.control(q)[0] == 'rate':
                    if 'control_value' in q: q['control_value'] = W.sig(q['control_value'] / 20)
                    else: q['control']['value'] = W.sig(q['control']['value'] / 20)
            case.update(kind='run', world=w, n=n, t0=1.7e9)
            if r.random() < 0.3: case['attempts'] = [None] * r.randint(1, n) + [0] * 4000
        else:
            case['kind'] = 'sim' if x < 0.65 else 'utils'
            k = r.choice([0, 1, 2, 3, 5, 9, 14, 25]) if r.random() > 0.03 else r.choice([60, 150, 240])
            hi = r.choice([12, 30, 120, 1500, 10 ** 7])
            case['steps'] = sorted(r.sample(range(0 if r.random() < 0.3 else 1, max(hi, k) + 30), k))
            case['pad'] = r.choice([0, 0, 0, 3, 8])
            case['final'] = r.random() < 0.7
            case['decoys'] = r.sample(['notes.txt', 'thumb.png', '{n}_step_x.png', '{n}_step_4.png.bak', '{n}_step_7.jpg', 'step_2.png', '{n}_step_.png', '{n}_step_5.PNG.txt', '{n}_step_3.png~', 'final.png'], r.randint(0, 4))
            case['dir'] = r.choice(['intermediate', 'intermediate', 'frames', 'im[0]', 'кадры'])
            if case['kind'] == 'sim' and r.random() < 0.8: case['dir'] = 'intermediate'
        if r.random() < 0.3:
            op = r.choice(['openr', 'read', 'write', 'open', 'read'])
            f = dict(op=op, n=r.randint(1, 6 if op != 'open' else 1), err=r.choice(['EIO', 'EIO', 'ENOSPC'] if op in ('write', 'open') else ['EIO', 'EACCES'] if op == 'openr' else ['EIO', 'short', 'short', 'eof']))
            if op in ('read', 'write'): f['partial'] = r.choice([1, 3, 20])
            case['fault'] = f
        return case

    @staticmethod
    def variants(case):
        import copy
        for k in range(len(case.get('steps', []))):
            c = copy.deepcopy(case); c['steps'].pop(k); yield c
        for k in range(len(case.get('decoys', []))):
            c = copy.deepcopy(case); c['decoys'].pop(k); yield c
        if case.get('fault'): c = copy.deepcopy(case); c.pop('fault'); yield c

    def run(self, case, p):
        import random
        order = random.Random(case['order'])
        def shuffle(l): l = list(l); order.shuffle(l); return l
        name = case['name']
        root = os.path.realpath(os.getcwd())
        disk = seams.Disk(root, [case['fault']] if case.get('fault') else [], p)
        ex = None
        if case['kind'] == 'run':
            clock(case)
            w = case['world']
            S = W.build(w)
            with PlotRecorder(root) as rec, Solver((), p, attempts=case.get('attempts')):
                real = S._create_animation if hasattr(S, '_create_animation') else None
                # faults and listing order start when the frames exist
                def later(*a, **k):
                    seams.LIST_ORDER = shuffle; seams.DISK = disk
                    try: return real(*a, **k)
                    finally: seams.LIST_ORDER = None; seams.DISK = None
                if real is not None: S._create_animation = later
                try: call(S.run, name)
                except OSError as e:
                    if not getattr(e, 'injected', False): raise
                    ex = e
                except Violation as v:
                    if not disk.fired: raise
                    ex = v
            seams.CLOCK.active = False
            dirs = result_dirs()
            need(len(dirs) == 1, 'results', f'one run left {dirs}')
            gif = os.path.join('results', dirs[0], name + '.gif')
            want = list(range(1, len(rec.calls) + 1))
            label = {k: os.path.basename(rec.calls[k - 1]['file']) for k in want}
            nsteps = sum(1 for c in rec.calls if '_final' not in os.path.basename(c['file']))
            p.steps += case['n']
            if case['world']['sim']['save_interval'] >= case['n']: return
        else:
            base = 'res'
            d = os.path.join(base, case['dir']); os.makedirs(d)
            label = {}
            want = []
            ids = list(range(1, len(case['steps']) + 1)); order.shuffle(ids)       # creation order is arbitrary too
            by = dict(zip(case['steps'], ids))
            for s in shuffle(case['steps']):
                fn = f'{name}_step_{s:0{case["pad"]}d}.png' if case['pad'] else f'{name}_step_{s}.png'
                with seams.REAL_OPEN(os.path.join(d, fn), 'wb') as f: f.write(png(by[s]))
                label[by[s]] = fn
            want = [by[s] for s in case['steps']]
            for fn in case['decoys']:
                with seams.REAL_OPEN(os.path.join(d, fn.format(n=name)), 'wb') as f: f.write(png(252) if fn.endswith('.png') else b'junk')
            gif = os.path.join(base, name + '.gif')
            # the final picture belongs to the simulator's own layout (next to the directory `intermediate`)
            if case['final'] and case['kind'] == 'sim' and case['dir'] == 'intermediate':
                with seams.REAL_OPEN(os.path.join(base, name + '_final.png'), 'wb') as f: f.write(png(248))
                want = want + [248]; label[248] = name + '_final.png'
            if case['kind'] == 'sim':
                S = M.simulation.Simulator.__new__(M.simulation.Simulator)
                if not want or not hasattr(S, '_create_animation'): p.hit('no_frames'); return
                fn = lambda: S._create_animation(d, gif, fps=case['fps'])
            else: fn = lambda: M.utils.create_animation(d, gif, fps=case['fps'])
            seams.LIST_ORDER = shuffle; seams.DISK = disk
            try: call(fn)
            except OSError as e:
                if not getattr(e, 'injected', False): raise
                ex = e
            except Violation as v:
                if not disk.fired: raise
                ex = v
            finally: seams.LIST_ORDER = None; seams.DISK = None
            nsteps = len(case['steps'])
        p.log(case['kind'], str(disk.fired), str(type(ex)))
        hard = [f for f in disk.fired if f[2] not in ('short',)]
        if ex is not None:
            need(bool(hard), 'raised', f'reading in small pieces made the animation fail: {ex}')
            p.hit('fault_reported'); p.sign(case['kind'], str(disk.fired), nsteps)
            return
        if not want:
            need(not os.path.exists(gif), 'frames', 'no frames but a GIF was written')
            p.hit('no_frames'); return
        need(os.path.exists(gif), 'frames', lambda: f'{len(want)} frames are there but no animation was written')
        got = as_ids(gif_frames(gif), want)
        show = lambda l: [label.get(x, '?') for x in l]
        need(got == want, 'frames', lambda: f'{case["kind"]}: the animation shows {show(got)}, saved frames in order are {show(want)}' + (f' (after {disk.fired})' if disk.fired else ''))
        p.hit('animations'); p.hit('frames', len(want))
        if hard: p.hit('fault_absorbed')
        txt = sorted(label[k] for k in want if 'final' not in label[k][-10:])
        if nsteps >= 3 and (txt != [label[k] for k in want][:len(txt)] or disk.fired): p.sign(case['kind'], str([label[k] for k in want]), case['order'] % 97, str(disk.fired))


CHECK = S13()
