"""P01..P03: the processing chain, with every algorithm and file replaced by a stand-in that records its calls"""
import json
import math
import os
import shutil
import tempfile
from symx.harness import unit, HarnessGap

STAGES = [
    # class, outputs copied to the surface (name on the algorithm, name on the surface)
    ('GeometryCorrectionsAlgorithm', ['slant_range_corrections', 'range_sat_surf', 'doppler_corrections',
                                      'win_delay_corrections', 'beams_geo_corr']),
    ('RangeCompressionAlgorithm', [('beam_range_compr', 'beams_range_compr'),
                                   ('beam_range_compr_iq', 'beams_range_compr_iq')]),
    ('StackMaskingAlgorithm', ['beams_masked', 'stack_mask_vector', 'stack_mask']),
    ('MultilookingAlgorithm', ['stack_max', 'stack_std', 'stack_skewness', 'stack_kurtosis', 'n_beams_start_stop',
                               'start_look_angle', 'stop_look_angle', 'start_doppler_angle', 'stop_doppler_angle',
                               'start_pointing_angle', 'stop_pointing_angle', 'start_beam_angle', 'stop_beam_angle',
                               'start_burst_index', 'stop_burst_index', 'stack_mask_vector_start_stop',
                               'beam_angles_start_stop', 'look_angles_start_stop', 'waveform_multilooked']),
    ('Sigma0ScalingFactorAlgorithm', ['sigma0_scaling_factor_beam']),
]
GATHER = ['stack_bursts', 'beams_surf', 'beam_angles_surf', 't0_surf', 'doppler_angles_surf', 'look_angles_surf',
          'pointing_angles_surf', 'look_index_surf', 'look_counter_surf', 'closest_burst_index']


def _pairs(outs):
    return [o if isinstance(o, tuple) else (o, o) for o in outs]


GLOBALS = ['mission_name', 'altimeter_sensor_name', 'gnss_sensor_name', 'doris_sensor_name', 'references',
           'acq_station_name', 'xref_altimeter_level0', 'xref_navatt_level0', 'xref_altimeter_orbit',
           'xref_doris_uso', 'xref_altimeter_ltm_lrm_cal1', 'xref_altimeter_ltm_sar_cal1',
           'xref_altimeter_ltm_ku_cal2', 'xref_altimeter_ltm_c_cal2', 'xref_altimeter_characterisation',
           'xref_time_correlation', 'history']


class Product:
    """the input: a list of packets or None"""

    def __init__(self, path, packets, first=86400.0 * 400 + 100.0, last=86400.0 * 400 + 200.5):
        self.file_path, self.packets, self.i = path, packets, 0
        self.first, self.last = first, last

    def __len__(self):
        return len(self.packets)

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.packets):
            raise StopIteration
        self.i += 1
        return self.packets[self.i - 1]

    def __getitem__(self, i):
        return self.packets[i]

    def first_time(self):
        return self.first

    def last_time(self):
        return self.last

    def close(self):
        pass

    def read_globals(self):
        class G:
            xref_platform = 'platform of the input'

            def get_l1b_product_name(self):
                return 'l1b of ' + self.path

            def get_l1bs_product_name(self):
                return 'l1bs of ' + self.path
        g = G()
        g.path = self.file_path
        for k in GLOBALS:
            setattr(g, k, k + ' of the input')
        return g


class World:
    def __init__(self, H, looks=6, skip=False, fmt=None, name='cfg', out=None, focus=None, real_placing=False,
                 brf=None, chd=None, cnf=None, real=(), fresh=False):
        self.H = H
        self.log = []            # (stage, subject)
        self.writers = []
        self.products = {}
        self.fail_at = None
        self.footprints = {}
        self.tmp = tempfile.mkdtemp(prefix='vp-')
        self.real_placing = real_placing
        self.real, self.fresh = set(real), fresh
        L1B = H.imp('dedop.proc.sar', 'L1BProcessor')
        src = os.path.join(os.path.dirname(H.imp('dedop.ui').__file__), 'data', 'config')
        self.wave = d_value(src, 'CST', 'c_cst') / d_value(src, 'CHD', 'freq_ku_chd')
        self.slope = d_value(src, 'CHD', 'bw_ku_chd') / d_value(src, 'CHD', 'pulse_length_chd')
        self.width = math.asin(self.wave / (2 * 7000.0 * d_value(src, 'CHD', 'N_ku_pulses_burst_chd')
                                            / d_value(src, 'CHD', 'prf_sar_chd')))
        self._patch()
        try:
            files = {}
            for k in ('CHD', 'CNF', 'CST'):
                d = json.load(open(os.path.join(src, k + '.json')))
                if k == 'CNF':
                    d['N_looks_stack_cnf']['value'] = looks
                    if fmt is not None:
                        d.setdefault('output_format_flag_cnf', {})['value'] = fmt
                    if focus is not None:
                        d['flag_surface_focusing_cnf']['value'] = True
                        for ax, v in zip(('lat', 'lon', 'alt'), focus):
                            d['surface_focusing_%s_cnf' % ax]['value'] = v
                if k == 'CHD' and brf is not None:
                    d['brf_sar_chd']['value'] = brf
                for name_, v in ((chd if k == 'CHD' else cnf if k == 'CNF' else None) or {}).items():
                    d.setdefault(name_, {})['value'] = v
                files[k] = os.path.join(self.tmp, k + '.json')
                json.dump(d, open(files[k], 'w'))
            self.proc = L1B(name, files['CNF'], files['CST'], files['CHD'],
                            out if out is not None else os.path.join(self.tmp, 'out'), skip_l1bs=skip)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.bri = 1.0 / (brf or d_value(src, 'CHD', 'brf_sar_chd'))

    # -- stand-ins ---------------------------------------------------------------------------------------------
    def _patch(self):
        H, w = self.H, self
        alg = H.imp('dedop.proc.sar.algorithms')
        cal = H.imp('dedop.proc.sar.cal')

        def renewed(call):
            first = {}

            def f(self, *a, **k):
                # the algorithm as it was when it was made
                new = first.setdefault(id(self), dict(self.__dict__))
                self.__dict__.clear()
                self.__dict__.update({k_: v.copy() if isinstance(v, (list, dict)) else v for k_, v in new.items()})
                return call(self, *a, **k)
            return f

        def stand_in(mod, cls, f):
            c = getattr(mod, cls, None)
            if c is None:
                raise HarnessGap('no %s' % cls)
            import inspect
            if cls in self.real:
                if self.fresh:
                    H.patch(c, '__call__', renewed(c.__call__))
                return
            names = list(inspect.signature(c.__call__).parameters)

            def call(self, x, *a, **k):
                # further arguments, in whatever form they are given: wave length and chirp slope
                if cls not in ('SurfaceLocationAlgorithm', 'BeamAnglesAlgorithm'):
                    k = dict(zip(names[2:], a), **k)
                    for n, v in k.items():
                        want = w.wave if any(t in n for t in ('wv', 'wave')) else w.slope if 'chirp' in n else v
                        if not abs(v - want) <= 1e-9 * abs(want):
                            w.log.append(('wrong %s of %s' % (n, cls), getattr(x, 'counter', None)))
                    return f(self, x)
                return f(self, x, *a, **k)
            H.patch(c, '__call__', call)

        def cal1(self, packet):
            w.log.append(('cal1', packet.counter))

        def cal2(self, packet):
            w.log.append(('cal2', packet.counter))
        stand_in(cal, 'CAL1Algorithm', cal1)
        stand_in(cal, 'CAL2Algorithm', cal2)

        def place(self, surfaces, bursts, force_new=False):
            b = bursts[-1]
            w.log.append(('place', b.counter))
            new = bool(force_new) or not surfaces or b.plan_new
            self._loc = b
            if new:
                w.log.append(('surface', b.counter))
            return new

        def get_surface(self):
            b = self._loc
            d = dict(time_surf=0.0, x_surf=b.plan_pos, y_surf=0.0, z_surf=0.0, lat_surf=0.0, lon_surf=0.0,
                     alt_surf=0.0, x_sat=b.plan_pos, y_sat=0.0, z_sat=100.0, lat_sat=0.0, lon_sat=0.0, alt_sat=100.0,
                     x_vel_sat=7000.0, y_vel_sat=0.0, z_vel_sat=0.0, alt_rate_sat=0.0, roll_sat=0.0, pitch_sat=0.0,
                     yaw_sat=0.0, win_delay_surf=0.0, prev_tai=0.0, prev_utc_days=0, prev_utc_secs=0.0,
                     curr_day_length=86400.0)
            return d
        if not self.real_placing:
            stand_in(alg, 'SurfaceLocationAlgorithm', place)
            H.patch(alg.SurfaceLocationAlgorithm, 'get_surface', get_surface)

        def beams(self, surfaces, packet, working):
            w.log.append(('beams', packet.counter))
            seen = [s for s in surfaces if packet.plan_sees(s.x_surf - packet.plan_pos)]
            self.surfaces_seen = [s.surface_counter for s in seen]
            self.beam_angles = [0.01 * i + (1.5 if w.real else 0) for i in range(len(seen))]
            self.work_location_seen = any(s is working for s in seen)
        stand_in(alg, 'BeamAnglesAlgorithm', beams)

        def azimuth(self, packet):
            w.log.append(('azimuth', packet.counter))
            self.beams_focused = ('focused', packet.counter)
        stand_in(alg, 'AzimuthProcessingAlgorithm', azimuth)

        def gather(self, s):
            w.log.append(('gather', s.surface_counter))
            looks = [(b.counter, b.beams_focused) for b in s.stack_all_bursts]
            s.plan_looks = looks
            self.data_stack_size = min(len(looks), self.cnf.n_looks_stack)
            for k in GATHER:
                setattr(self, k, (k, s.surface_counter, len(looks)))
        stand_in(alg, 'StackGatheringAlgorithm', gather)

        have = {k: k for k in GATHER}

        def stage(cls, outs, before):
            def f(self, s):
                w.log.append((cls, s.surface_counter))
                for k in before if not w.real else ():
                    if getattr(s, k, None) is None or getattr(s, k)[1] != s.surface_counter:
                        w.log.append(('missing %s for' % k, s.surface_counter))
                for o, _ in outs:
                    setattr(self, o, (o, s.surface_counter))
                if cls.startswith('Sigma'):
                    return ('sigma0', s.surface_counter)
            return f
        before = list(have)
        for cls, outs in STAGES:
            outs = _pairs(outs)
            stand_in(alg, cls, stage(cls, outs, list(before)))
            before += [b for _, b in outs]

        class Writer:
            kind = None

            def __init__(self, filename, chd, cnf, cst, **kw):
                self.file_path, self.recs, self.attrs, self.opened, self.closed = filename, [], {}, 0, 0
                w.writers.append(self)

            def open(self):
                self.opened += 1

            def write_record(self, s):
                w.log.append((self.kind, s.surface_counter))
                if not w.real_placing and not abs(s.angular_azimuth_beam_resolution - w.width) <= 1e-9 * w.width:
                    w.log.append(('wrong beam width', s.surface_counter))
                if w.fail_at is not None and len(self.recs) == w.fail_at:
                    raise RuntimeError('disk full')
                rec = {b: _now(getattr(s, b, None)) for b in before}
                rec.update(n=s.surface_counter, looks=getattr(s, 'plan_looks', None), size=s.data_stack_size,
                           sigma0=s.sigma0_scaling_factor, x=s.x_surf, focused=s.target_focused, obj=s,
                           ready=self.opened == 1 and not self.closed)
                self.recs.append(rec)

            def write_globals(self, **kw):
                self.attrs.update(kw)

            def close(self):
                self.closed += 1

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
        out = H.imp('dedop.data.output')
        for cls in ('L1BWriter', 'L1BWriterExtended', 'L1BSWriter'):
            H.rebind(getattr(out, cls), type(cls, (Writer,), {'kind': cls}))
        L1A = H.imp('dedop.data.input.l1a', 'L1ADataset')
        H.rebind(L1A, lambda path, *a, **kw: w.products[path])
        import builtins
        H.patch(builtins, 'print', lambda *a, **k: None)

    # -- running -----------------------------------------------------------------------------------------------
    def packet(self, num, time, new, pos, back, ahead, **kw):
        L1 = self.H.imp('dedop.model', 'L1AProcessingData')
        p = L1(self.proc.cst, self.proc.chd, num, time_sar_ku=time, **kw)
        p.plan_new, p.plan_pos = new, pos
        p.plan_sees = self.sees(back, ahead)
        return p

    def sees(self, back, ahead):
        """does a burst see a surface at this distance? decided (by the solver, if the footprint is symbolic) once"""
        key = (id(back), id(ahead))
        if key not in self.footprints:
            def within(limit):
                """x <= limit, monotone in x: ask only between the largest known yes and the smallest known no"""
                known = [-1, 10 ** 9]

                def g(x):
                    if x <= known[0]:
                        return True
                    if x >= known[1]:
                        return False
                    if bool(x <= limit):
                        known[0] = x
                        return True
                    known[1] = x
                    return False
                return g
            b, a = within(back), within(ahead)

            def f(d):
                return b(-d) and a(d)
            self.footprints[key] = (f, back, ahead)
        return self.footprints[key][0]

    def run(self, packets, path='in/L1A_x.nc', monitor=None):
        self.log, self.writers = [], []
        self.products[path] = Product(path, packets)
        if monitor is None:
            return self.H.try_(self.proc.process, path)
        return self.H.try_(self.proc.process, path, monitor)


def _now(v):
    """arrays as they are now"""
    return v.copy() if hasattr(v, 'copy') else v


def d_value(src, f, k):
    return json.load(open(os.path.join(src, f + '.json')))[k]['value']


def track(w, plan, bri):
    """plan: list of segments (bursts, rate, back, ahead, voids, gap before) -> packets, expected surfaces per segment
    positions count bursts; footprints are given in surfaces"""
    packets, segs, num, t, pos = [], [], 0, 50.0, 0
    for k, seg in enumerate(plan):
        bursts = []
        back, ahead = seg['back'] * seg['rate'], seg['ahead'] * seg['rate']
        if k:
            t = t + seg['gap']
            pos += seg['rate']
        for i in range(seg['n']):
            if i:
                t = t + bri
            for _ in range(seg['voids'].get(i, 0)):
                packets.append(None)
            if i:
                pos += 1
            p = w.packet(num, t, i % seg['rate'] == 0, pos, back, ahead)
            num += 1
            packets.append(p)
            bursts.append(p)
        for _ in range(seg['voids'].get(seg['n'], 0)):
            packets.append(None)
        segs.append(bursts)
    return packets, segs


def expected(segs, looks):
    """surfaces in order with the bursts that see them, per segment; written ones only"""
    out, n = [], 0
    for bursts in segs:
        for s in bursts:
            if s is bursts[0] or s.plan_new:
                seen = [b.counter for b in bursts
                        if b.plan_sees(s.plan_pos - b.plan_pos)]
                if min(len(seen), looks) >= looks // 2:
                    out.append((n, seen))
                n += 1
    return out


def check_run(H, w, segs, looks, skip, fmt=None, tail=''):
    want = expected(segs, looks)
    kinds = ['L1BWriter' if fmt == 'sentinel-3' else 'L1BWriterExtended'] + ([] if skip else ['L1BSWriter'])
    H.check('one file per product' + tail, sorted(x.kind for x in w.writers) == sorted(kinds))
    for wr in w.writers:
        H.check('surfaces written in order, each once, unless too few looks (%s)%s' % (wr.kind, tail),
                [r['n'] for r in wr.recs] == [n for n, _ in want])
        H.check('every look of every surface is in its stack (%s)%s' % (wr.kind, tail),
                [[c for c, _ in r['looks']] for r in wr.recs] == [s for _, s in want])
        H.check('looks are focused before they are gathered' + tail,
                all(f == ('focused', c) for r in wr.recs for c, f in r['looks']))
        H.check('stack size' + tail, [r['size'] for r in wr.recs] == [min(len(s), looks) for _, s in want])
        H.check('file open while writing, closed once at the end' + tail,
                wr.closed == 1 and wr.opened == 1 and all(r['ready'] for r in wr.recs))
        for r in wr.recs:
            bad = [k for k, v in r.items() if k not in ('n', 'looks', 'size', 'x', 'focused', 'obj', 'ready')
                   and not (isinstance(v, tuple) and v[1] == r['n'] and v[0] in (k, 'sigma0') + SRC.get(k, ()))]
            H.check('results of all stages are those of this surface%s %s' % (tail, bad), not bad)
    check_log(H, w, segs, want, kinds, tail)
    check_numbers(H, w, segs, tail)


def check_numbers(H, w, segs, tail=''):
    """the number of each look: at which side the list of a burst is cut follows from the bursts before it in its stretch"""
    full = w.proc.chd.n_ku_pulses_burst
    burst = {b.counter: b for s in segs for b in s}
    stretch = {b.counter: k for k, s in enumerate(segs) for b in s}
    side, last, at = {}, None, None
    for c in [c for a, c in w.log if a == 'beams' and c in burst]:
        size = len(burst[c].beam_angles_list)
        if stretch[c] != at:
            at, last, prev = stretch[c], None, 1
        prev = 0 if size == full else 1 if last is None or size > last else -1 if size < last else prev
        side[c], last = prev, size
    H.check('side at which the beams of a burst are cut%s' % tail,
            all(burst[c].beam_angles_trend == v for c, v in side.items()))
    for wr in w.writers:
        for r in wr.recs:
            s = r['obj']
            where = [b.surfaces_seen_list.index(r['n']) for b in s.stack_all_bursts]
            H.check('beam of each look%s' % tail, list(s.stack_all_beams_indices) == where)
            H.check('number of each look%s' % tail, list(s.stack_all_beams_indices_abs) == [
                k - full // 2 + (full - len(b.beam_angles_list) if side.get(b.counter) == 1 else 0)
                for k, b in zip(where, s.stack_all_bursts)])


SRC = {b: (a,) for _, outs in STAGES for a, b in _pairs(outs)}


def check_log(H, w, segs, want, kinds, tail=''):
    every = [b.counter for s in segs for b in s]
    for k in ('cal1', 'cal2', 'place'):
        H.check('%s once per burst, in order%s' % (k, tail), [c for a, c in w.log if a == k] == every)
    for k in ('beams', 'azimuth'):
        got = [c for a, c in w.log if a == k]
        H.check('%s at most once per burst%s' % (k, tail), len(set(got)) == len(got))
        H.check('%s for every burst that sees a surface%s' % (k, tail),
                set(c for _, s in want for c in s) <= set(got))
    seq = {}
    for a, c in w.log:
        if a in ('cal1', 'cal2', 'place', 'beams', 'azimuth'):
            seq.setdefault(c, []).append(a)
    H.check('each burst: calibrated, placed, steered, focused, in this order%s' % tail,
            all(v == ['cal1', 'cal2', 'place', 'beams', 'azimuth'][:len(v)] for v in seq.values()))
    names = ['gather'] + [c for c, _ in STAGES]
    chain = {}
    H.check('stages work with the wave length, chirp slope and beam width of the instrument' + tail,
            not any(a.startswith('wrong') for a, _ in w.log))
    for a, c in w.log:
        if a in names or a in kinds or a.startswith('missing'):
            chain.setdefault(c, []).append(a)
    written = {n for n, _ in want}
    for n in written:
        full = names + kinds
        got = chain.get(n, [])
        H.check('each surface: all stages once, in order, then written%s' % tail,
                got[:len(names)] == names and sorted(got[len(names):]) == sorted(kinds))
    H.check('surfaces with too few looks go no further%s' % tail,
            all(v == ['gather'] for n, v in chain.items() if n not in written))


NARROW = dict(back=(0, 3), ahead=(0, 4))
WIDE = dict(back=(29, 31), ahead=(31, 32))
PASS = [dict(n=170, rate=(1, 2), looks=(5,), **NARROW), dict(n=90, rate=(1,), looks=(5,), **NARROW),
        dict(n=170, rate=(1,), looks=(5, 40), **WIDE), dict(n=250, rate=(3,), looks=(40,), back=(0, 1), ahead=(58, 60)),
        dict(n=100, rate=(1,), looks=(5,), back=(40, 42), ahead=(0, 1))]


@unit('P01', quick=PASS, thorough=PASS + [dict(n=81, rate=(1,), looks=(4,), back=(0, 8), ahead=(0, 8)),
                                          dict(n=400, rate=(1, 2, 3, 4), looks=(5, 80), back=(8, 12), ahead=(8, 12)),
                                          dict(n=200, rate=(1,), looks=(5, 80), back=(0, 2), ahead=(50, 63)),
                                          dict(n=200, rate=(1,), looks=(5, 80), back=(50, 63), ahead=(0, 2))],
      scope='passes of n bursts with a surface every "rate" bursts; any footprint within "back" and "ahead" surfaces of '
            'the burst; up to two bursts anywhere in a stretch make no surface; L1BS on and off, both formats',
      max_paths=6000, witness=('dropped at the edges', 'written'))
def one_pass(H, n, rate, looks, back, ahead):
    r = H.pick('rate', list(rate))
    looks = H.pick('looks', list(looks))
    skip = H.flag('skip')
    fmt = H.pick('format', ['sentinel-3', 'extended']) if skip else 'extended'
    a, b = H.real('back', *back), H.real('ahead', *ahead)
    w = World(H, looks=looks, skip=skip, fmt=fmt)
    packets, segs = track(w, [dict(n=n, rate=r, back=a, ahead=b, voids={})], w.bri)
    for at in (3, n - 5):
        if H.flag('no surface at burst %d' % at):
            packets[at].plan_new = False
    res, err = w.run(packets)
    H.check('the run completes', err is None)
    if err is not None:
        return
    want = expected(segs, looks)
    H.note('written')
    if len(want) < len([x for x in segs[0] if x.plan_new]):
        H.note('dropped at the edges')
    check_run(H, w, segs, looks, skip, fmt)
    H.check('status of a complete run', res is None)


@unit('P01', quick=[dict(n=120)], thorough=[dict(n=120), dict(n=200)],
      scope='void records anywhere in the pass: up to 90 in a row before the first burst, early, in the middle, at the '
            'end', witness=('first', 'many', 'end', 'early'))
def void_records(H, n):
    w = World(H, looks=6, skip=False)
    at = H.pick('at', [0, 1, 40, 79, 80, 81, 100, n - 1, n])
    k = H.pick('count', [1, 2, 30, 90])
    H.note('first' if at == 0 else 'end' if at == n else 'early' if at < 80 else 'late')
    if k > 16:
        H.note('many')
    back, ahead = H.pick('footprint', [(2, 3), (30, 33)])
    packets, segs = track(w, [dict(n=n, rate=1, back=back, ahead=ahead, voids={at: k})], w.bri)
    res, err = w.run(packets)
    H.check('the run completes', err is None)
    if err is None:
        check_run(H, w, segs, 6, False)


CHAIN = ['AzimuthProcessingAlgorithm', 'StackGatheringAlgorithm', 'GeometryCorrectionsAlgorithm', 'RangeCompressionAlgorithm']


@unit('P01', quick=[dict(n=14)], thorough=[dict(n=14), dict(n=24)],
      scope='the real azimuth focusing and stack gathering over a whole pass of n bursts on a straight track, '
            'waiting for 8 surfaces instead of 80; bursts of 4 pulses of 2 samples, pulses of two bursts arbitrary',
      witness=('written',), max_paths=400,
      assumes='the reference is the same stages made anew for every burst and surface')
def nothing_carried_over(H, n):
    P, N, looks, step = 4, 2, 4, 7000.0
    method = H.pick('method', ['approx', 'exact'])
    X = {(i, p, j): H.cplx('x%d_%d_%d' % (i, p, j)) for i in (6, 8) for p in range(P) for j in range(N)}

    def run(fresh):
        w = World(H, looks=looks, skip=False, real=CHAIN, fresh=fresh, chd={'N_ku_pulses_burst_chd': P, 'N_samples_sar_chd': N},
                  cnf={'flag_azimuth_processing_method_cnf': method, 'flag_azimuth_windowing_method_cnf': 'none',
                       'zp_fact_range_cnf': 1})
        if hasattr(w.proc, 'min_surfs'):
            w.proc.min_surfs = 8
        packets, segs = track(w, [dict(n=n, rate=1, back=2, ahead=1, voids={})], w.bri)
        for i, b in enumerate(packets):
            b.x_vel_sat_sar = 7000.0 + i % 3
            for k, v in dict(x_sar_sat=b.plan_pos * step, y_sar_sat=0.0, z_sar_sat=1e6 + i, source_seq_count=i,
                             doppler_angle_sar_sat=0.0, pri_sar_pre_dat=1 / 17825.0, t0_sar=3.125e-9, pitch_sar=0.001 * (i % 5),
                             roll_sar=0.0, yaw_sar=0.0, win_delay_sar_ku=6.67e-3 + 1e-9 * (i % 7),
                             agc_ku=30.0 + i % 4, lat_sar_sat=0.0, lon_sar_sat=0.0, alt_sar_sat=1e6).items():
                b[k] = v
            b.waveform_cor_sar = H.arr([[X.get((i, p, j), H.mkc((i * 7 + p * 3 + j) % 5 - 2.0, (i * 3 + p + 2 * j) % 7 - 3.0))
                                         for j in range(N)] for p in range(P)])
        res, err = w.run(packets)
        H.check('the run completes', err is None)
        return w, err
    a, err = run(False)
    b, err2 = run(True)
    if err is not None or err2 is not None:
        return
    H.note('written')
    for wa, wb in zip(a.writers, b.writers):
        H.check('same surfaces', [r['n'] for r in wa.recs] == [r['n'] for r in wb.recs] and len(wa.recs) > n - 5)
        for ra, rb in zip(wa.recs, wb.recs):
            for k in ra:
                if k in ('looks', 'obj', 'stack_bursts', 'ready', 'focused'):
                    continue
                x, y = H.flat(H.np.array(ra[k])), H.flat(H.np.array(rb[k]))
                H.check('same shape of %s' % k, len(x) == len(y))
                H.eqs('%s depends on earlier surfaces' % k, x, y)


@unit('P02', quick=[dict(a=100, b=110), dict(a=30, b=100), dict(a=1, b=90), dict(a=100, b=20), dict(a=90, b=1)],
      thorough=[dict(a=a, b=b) for a in (1, 2, 79, 80, 81, 150) for b in (1, 79, 80, 81, 150)],
      scope='a data gap of arbitrary length after a bursts, then b bursts', max_paths=4000,
      witness=('gap', 'no gap'))
def one_gap(H, a, b):
    w = World(H, looks=6, skip=True, brf=64.0)      # times are exact, so the limit itself can be tried
    back, ahead = H.pick('footprint', [(2, 3), (30, 33), (0, 20)])
    dt = H.real('gap', 0.0, 1.0)
    rate = H.pick('rate', [1, 2]) if a >= 100 and b >= 100 else 1
    rows = [dict(n=a * rate, rate=rate, back=back, ahead=ahead, voids={}),
            dict(n=b * rate, rate=rate, back=back, ahead=ahead, voids={}, gap=dt)]
    packets, segs = track(w, rows, w.bri)
    is_gap = bool(dt >= 1.5 * w.bri)
    H.note('gap' if is_gap else 'no gap')
    if not is_gap:
        segs = [segs[0] + segs[1]]
    res, err = w.run(packets)
    H.check('the run completes', err is None)
    if err is None:
        check_run(H, w, segs, 6, True)
        H.check('status of a complete run', res is None)


@unit('P02', quick=[dict(n=(95, 85, 90)), dict(n=(10, 5, 90)), dict(n=(85, 3, 4))],
      thorough=[dict(n=(95, 85, 90)), dict(n=(10, 5, 90)), dict(n=(85, 3, 4)), dict(n=(1, 1, 81)), dict(n=(2, 90, 2)),
                dict(n=(80, 80, 80))],
      scope='two gaps of arbitrary length, void records at the gaps', max_paths=4000,
      witness=('two gaps', 'one gap', 'voids in gap'))
def two_gaps(H, n):
    w = World(H, looks=4, skip=True)
    dts = [H.real('gap%d' % i, 0.0, 1.0) for i in range(2)]
    for d in dts:
        H.apart(d, 1.5 * w.bri, 1e-9)
    v = H.pick('voids', [0, 1, 20])
    if v:
        H.note('voids in gap')
    back, ahead = 3, 4
    rows = []
    for k in range(3):
        rows.append(dict(n=n[k], rate=1, back=back, ahead=ahead, voids={0: v if k else 0},
                         gap=dts[k - 1] if k else 0))
    packets, segs = track(w, rows, w.bri)
    j = [segs[0]]
    for k in (1, 2):
        if bool(dts[k - 1] >= 1.5 * w.bri):
            j.append(segs[k])
        else:
            j[-1] = j[-1] + segs[k]
    H.note({1: 'none', 2: 'one gap', 3: 'two gaps'}[len(j)])
    res, err = w.run(packets)
    H.check('the run completes', err is None)
    if err is None:
        check_run(H, w, j, 4, True)


def _monitor(H, w, cancel_at):
    """cancels when asked for the cancel_at-th time"""
    Mon = H.imp('dedop.util.monitor', 'Monitor')

    class M(Mon):
        def __init__(self):
            self.asked, self.work, self.total, self.starts, self.dones = 0, 0, None, 0, 0

        def start(self, label, total_work=None):
            self.starts += 1
            self.total = total_work

        def progress(self, work=None, msg=None):
            if work:
                self.work += work

        def done(self):
            self.dones += 1

        def is_cancelled(self):
            self.asked += 1
            return cancel_at is not None and self.asked > cancel_at
    return M()


@unit('P03', quick=[dict(n=95)], thorough=[dict(n=95), dict(n=130)],
      scope='cancelled after any number of steps; then the same processor runs another product, with or without a gap',
      witness=('cancelled', 'completed', 'other file'), max_paths=4000)
def cancel_then_again(H, n):
    w = World(H, looks=4, skip=False)
    at = H.pick('cancel', [0, 1, 5, 79, 80, 81, 90, n + 20, None])
    gap = H.flag('gap')
    packets, segs = track(w, [dict(n=n, rate=1, back=3, ahead=4, voids={})] +
                          ([dict(n=90, rate=1, back=3, ahead=4, voids={}, gap=9.0)] if gap else []), w.bri)
    m = _monitor(H, w, at)
    res, err = w.run(packets, 'in/a.nc', m)
    H.check('a cancelled run ends without an error', err is None)
    H.check('the monitor is finished once', m.starts == 1 and m.dones == 1)
    H.check('total work is the number of records', m.total == len(packets))
    done = [list(wr.recs) for wr in w.writers]
    H.check('all files are closed', all(wr.closed == 1 for wr in w.writers) and len(w.writers) == 2)
    want = [n_ for n_, _ in expected(segs, 4)]
    for recs in done:
        got = [r['n'] for r in recs]
        H.check('a cancelled run wrote the surfaces from the start', got == want[:len(got)])
    full = all(len(r) == len(want) for r in done)
    H.note('completed' if full else 'cancelled')
    if at is None:
        H.check('all written unless cancelled', full)
    H.check('status tells a cancelled run', (res is None) if at is None else (full or res == -1))
    # another product, on the same processor
    H.note('other file')
    packets, segs = track(w, [dict(n=100, rate=1, back=3, ahead=H.pick('ahead', [1, 4]), voids={})], w.bri)
    res, err = w.run(packets, 'in/b.nc')
    H.check('the next run completes', err is None)
    if err is None:
        check_run(H, w, segs, 4, False, tail=' (next product)')


@unit('P03', quick=[{}], scope='runs that fail: too few records, or the output cannot be written',
      witness=('short', 'write error'))
def failure_then_again(H):
    w = World(H, looks=4, skip=False)
    n = H.pick('n', [0, 1, 79, 100])
    if n == 100:
        H.note('write error')
        w.fail_at = H.pick('fail', [0, 3])
    else:
        H.note('short')
    packets, segs = track(w, [dict(n=n, rate=1, back=3, ahead=4, voids={})], w.bri)
    m = _monitor(H, w, None)
    res, err = w.run(packets, 'in/a.nc', m)
    H.check('the failure is reported', err is not None)
    H.check('all files are closed', all(wr.closed == 1 for wr in w.writers if wr.opened))
    H.check('the monitor is finished', m.starts == m.dones)
    w.fail_at = None
    packets, segs = track(w, [dict(n=100, rate=1, back=3, ahead=H.pick('ahead', [1, 4]), voids={})], w.bri)
    res, err = w.run(packets, 'in/b.nc')
    H.check('the next run completes', err is None)
    if err is None:
        check_run(H, w, segs, 4, False, tail=' (next product)')


@unit('P03', quick=[{}], scope='input names, configuration names, output folders', witness=('ran',))
def names_and_globals(H):
    skip = H.flag('skip')
    name = H.pick('name', ['cfg', 'a b', 'c.d'])
    inp = H.pick('input', [('data/L1A_01.nc', '__01'), ('data/S3A.2016.nc', '_S3A.2016'), ('L1A.nc', ''), ('x', '_x'),
                           ('data/sub.L1A/y.nc', '_y'), ('data/xL1A.nc', '_xL1A'), ('data/L1A1L_A.nc', '_1L_A')])
    out = H.pick('out', ['o', 'p/q'])
    w = World(H, looks=4, skip=skip, name=name, out=out)
    packets, segs = track(w, [dict(n=84, rate=1, back=3, ahead=4, voids={})], w.bri)
    res, err = w.run(packets, inp[0])
    H.check('the run completes', err is None)
    if err is not None:
        return
    H.note('ran')
    got = {wr.kind[:4].replace('L1BW', 'L1B'): wr for wr in w.writers}
    want = ['L1B'] if skip else ['L1B', 'L1BS']
    H.check('files', sorted(got) == want)
    for k in want:
        wr = got[k]
        H.check('name of the %s file' % k, os.path.normpath(wr.file_path) == os.path.normpath(
            os.path.join(out, '%s%s_%s.nc' % (k, inp[1], name))))
        a = wr.attrs
        for g in GLOBALS + (['xref_platform'] if k == 'L1BS' else []):
            H.check('global %s of %s' % (g, k), a.get(g) == ('platform of the input' if g == 'xref_platform'
                                                             else g + ' of the input'))
        H.check('product name of %s' % k, a.get('product_name') == k.lower() + ' of ' + inp[0])
        H.check('measurement times of %s' % k, a.get('first_meas_time') == iso(H, 86400.0 * 400 + 100.0) and
                a.get('last_meas_time') == iso(H, 86400.0 * 400 + 200.5))
        H.eq('ellipsoid of %s' % k, a.get('semi_major_ellipsoid_axis'), w.proc.cst.semi_major_axis)
        H.eq('flattening of %s' % k, a.get('ellipsoid_flattening'), w.proc.cst.flat_coeff)


def iso(H, t):
    import datetime
    return (datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=t)).isoformat()


@unit('P03', quick=[dict(n=90)], scope='target focusing in two products one after the other, on a straight track '
      '(coordinate conversions and angles replaced by plain distances); 4 places of the target', witness=('focused',))
def focus_again(H, n):
    k = H.pick('target', [20, 50, 70, 80])
    h = 1000.0
    tx = 10.0 * k + 3.0

    def to_xyz(lla, c, lla_as_degrees=False):
        if float(lla[2]) == 77.0:
            return H.np.array([tx, 0.0, 0.0])
        return H.np.array([w.now, 0.0, 0.0])
    H.replace('dedop.proc.geo', 'lla2ecef', to_xyz)
    H.replace('dedop.proc.geo', 'ecef2lla', lambda v, c, *a: H.np.array([0.0, 0.0, 0.0]))
    H.replace('dedop.proc.functions', 'angle_between',
              lambda a, b: abs(H.flat(a)[0] / H.flat(a)[2] - H.flat(b)[0] / H.flat(b)[2]))
    H.replace('dedop.proc.geo', 'normalize', lambda a, c: a)
    S = H.imp('dedop.model', 'SurfaceData')
    H.patch(S, 'compute_angular_azimuth_beam_resolution',
            lambda self, pri: setattr(self, 'angular_azimuth_beam_resolution', 9.5 / h))
    w = World(H, looks=4, skip=True, focus=(0.0, 0.0, 77.0), real_placing=True)
    first = None
    for turn in range(2):
        packets = []
        for i in range(n):
            x = 10.0 * i
            w.now = 0.0
            p = w.packet(i, 50.0 + i * w.bri, True, x, 40.0, 40.0,
                         lat_sar_sat=0.0, lon_sar_sat=0.0, alt_sar_sat=h, win_delay_sar_ku=0.5,
                         x_sar_sat=x, y_sar_sat=0.0, z_sar_sat=h, x_sar_surf=x, y_sar_surf=0.0, z_sar_surf=0.0,
                         x_vel_sat_sar=1.0, y_vel_sat_sar=0.0, z_vel_sat_sar=0.0,
                         alt_rate_sat_sar=0.0, roll_sar=0.0, pitch_sar=0.0, yaw_sar=0.0, days=1, seconds=1.0)
            packets.append(p)
        res, err = w.run(packets, 'in/%d.nc' % turn)
        H.check('the run completes', err is None)
        if err is not None:
            return
        got = [(r['n'], bool(r['focused']), float(r['x'])) for r in w.writers[0].recs]
        at = [g for g in got if g[1]]
        if at:
            H.note('focused')
        H.check('one surface is focused on the target', len(at) == 1)
        for g in at:
            H.eq('the focused surface sits at the target', g[2], tx)
        if first is None:
            first = got
        H.check('the second product gives the same as the first', [g[:2] for g in got] == [g[:2] for g in first])
        for a, b in zip(got, first):
            H.eq('position in the second product', a[2], b[2])
