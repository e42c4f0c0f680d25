"""builders for the demonstrations: real configuration and record objects of dedop"""
import math
import sys
import warnings
import numpy as np
warnings.simplefilter('ignore')
from dedop.conf import ConstantsFile, CharacterisationFile, ConfigurationFile
from dedop.model import SurfaceData, L1AProcessingData, PacketPid, SurfaceType
import dedop.proc.sar  # noqa

CST = dict(c_cst=299792458.0, pi_cst=math.pi, semi_major_axis_cst=6378137.0, semi_minor_axis_cst=6356752.3142,
           earth_radius_cst=6378137.0, flat_coeff_cst=1 / 298.257223563, sec_in_day_cst=86400.0)
CHD = dict(mean_sat_alt_chd=1347000.0, N_samples_sar_chd=4, N_ku_pulses_burst_chd=4, freq_ku_chd=13.575e9,
           pulse_length_chd=32e-6, bw_ku_chd=320e6, power_tx_ant_ku_chd=7.5, antenna_gain_ku_chd=42.6,
           uso_freq_nom_chd=10e6, alt_freq_multiplier_chd=39.5, prf_sar_chd=17825.0, brf_sar_chd=78.5,
           antenna_weights_chd=[1.0] * 250, antenna_angles_chd=[0.001 * i for i in range(250)],
           antenna_angles_spacing_chd=0.001, ptr_width_chd=2.819e-9, fft_step_freq_ku_chd=1.0, ratio_trc_ku_chd=1.0)
CNF = dict(flag_cal2_correction_cnf=False, flag_uso_correction_cnf=True, flag_cal2_table_index_cnf=0,
           flag_cal1_corrections_cnf=False, flag_cal1_intraburst_corrections_cnf=False,
           flag_surface_focusing_cnf=False, surface_focusing_lat_cnf=0.0, surface_focusing_lon_cnf=0.0,
           surface_focusing_alt_cnf=0.0, flag_azimuth_processing_method_cnf='approx',
           flag_postphase_azimuth_processing_cnf=False, flag_azimuth_windowing_method_cnf='none',
           azimuth_window_width_cnf=20, flag_doppler_range_correction_cnf=True,
           flag_slant_range_correction_cnf=True, flag_window_delay_alignment_method_cnf=0,
           flag_stack_masking_cnf=True, flag_avoid_zeros_in_multilooking_cnf=False,
           flag_surface_weighting_cnf=False, flag_antenna_weighting_cnf=0.0, zp_fact_range_cnf=2,
           N_looks_stack_cnf=3)


def cst(**kw):
    return ConstantsFile(**dict(CST, **kw))


def chd(c, **kw):
    return CharacterisationFile(c, **dict(CHD, **kw))


def cnf(**kw):
    return ConfigurationFile(**dict(CNF, **kw))


def surface(c, d, num=0, **kw):
    s = SurfaceData(c, d, num)
    for k, v in kw.items():
        setattr(s, k, v)
    return s


def burst(c, d, num=0, vel=None, pos=None, ground=None, **kw):
    if vel is not None:
        kw.update(x_vel_sat_sar=vel[0], y_vel_sat_sar=vel[1], z_vel_sat_sar=vel[2])
    if pos is not None:
        kw.update(x_sar_sat=pos[0], y_sar_sat=pos[1], z_sar_sat=pos[2])
    if ground is not None:
        kw.update(x_sar_surf=ground[0], y_sar_surf=ground[1], z_sar_surf=ground[2])
    return L1AProcessingData(c, d, num, **kw)


def expect(what, got, want, tol=1e-6):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol):
        print('WRONG %s: got %s, expected %s' % (what, got, want))
        sys.exit(1)


def fail(msg):
    print('WRONG ' + msg)
    sys.exit(1)


class Run:
    """L1BProcessor with stand-ins for input, output and algorithms: bursts and surfaces on a line, one unit apart"""

    def __init__(self, looks=6, ahead=8, back=8, every=1):
        import os
        import dedop.proc.sar.processor as P
        import dedop.ui as ui
        self.P, self.looks, self.ahead, self.back, self.every = P, looks, ahead, back, every
        self.written, self.stacks, self.calls = [], {}, []
        src = os.path.join(os.path.dirname(ui.__file__), 'data', 'config')
        run = self

        class Writer:
            def __init__(self, filename, **kw):
                self.file_path, self.closed = filename, 0

            def open(self):
                pass

            def write_record(self, s):
                run.written.append(s.surface_counter)
                run.stacks[s.surface_counter] = [b.counter for b in s.stack_all_bursts]

            def write_globals(self, **kw):
                pass

            def close(self):
                self.closed += 1
        P.L1BWriter = P.L1BWriterExtended = P.L1BSWriter = Writer
        P.L1ADataset = lambda path, **kw: self.product
        self.proc = P.L1BProcessor('cfg', os.path.join(src, 'CNF.json'), os.path.join(src, 'CST.json'),
                                   os.path.join(src, 'CHD.json'), '/nowhere')
        self.proc.cnf._data['N_looks_stack_cnf'] = looks
        type(self.proc.cnf).n_looks_stack._cache.clear()

        class Any_:
            def __init__(self, name):
                self.name = name

            def __call__(self, x, *a, **k):
                run.calls.append((self.name, getattr(x, 'surface_counter', getattr(x, 'counter', None))))

            def __getattr__(self, k):
                return 0

        class Place:
            focus_found = False

            def __call__(self, surfaces, bursts, force_new=False):
                self.b = bursts[-1]
                return bool(force_new) or not surfaces or (self.b.pos % run.every == 0)

            def get_surface(self):
                return dict(x_surf=float(self.b.pos), y_surf=0., z_surf=0., x_sat=float(self.b.pos), y_sat=0., z_sat=9.,
                            lat_surf=0., lon_surf=0., alt_surf=0., lat_sat=0., lon_sat=0., alt_sat=9.,
                            x_vel_sat=1., y_vel_sat=0., z_vel_sat=0.)

        class Beams:
            def __call__(self, surfaces, burst, work):
                run.calls.append(('beams', burst.counter))
                seen = [s for s in surfaces if -run.back <= s.x_surf - burst.pos <= run.ahead]
                self.surfaces_seen = [s.surface_counter for s in seen]
                self.beam_angles = [1.5 + .001 * i for i in range(len(seen))]
                self.work_location_seen = any(s is work for s in seen)

        class Gather(Any_):
            def __call__(self, s):
                self.data_stack_size = min(len(s.stack_all_bursts), run.looks)
        p = self.proc
        for k in ('azimuth_processing', 'geometry_corrections', 'range_compression', 'stack_masking', 'multilooking',
                  'sigma_zero', 'cal1', 'cal2'):
            setattr(p, k + '_algorithm', Any_(k))
        p.surface_locations_algorithm, p.beam_angles_algorithm = Place(), Beams()
        p.stack_gathering_algorithm = Gather('gather')

    def go(self, segments, gap=2.0, void=()):
        """segments: number of bursts of each stretch, with a gap of `gap` burst intervals between"""
        out, n, t, pos, self.want = [], 0, 10., 0, {}
        bri, s, dims = self.proc.chd.bri_sar, 0, []
        for k, m in enumerate(segments):
            mine = []
            if k:
                t += (gap - 1) * bri
            for i in range(m):
                b = burst(self.proc.cst, self.proc.chd, n, time_sar_ku=t)
                b.pos = pos
                mine.append(b)
                out += [None] * (n in void) + [b]
                n, t, pos = n + 1, t + bri, pos + 1
            for i, b in enumerate(mine):
                if i == 0 or b.pos % self.every == 0:
                    seen = [x.counter for x in mine if -self.back <= b.pos - x.pos <= self.ahead]
                    if min(len(seen), self.looks) >= self.looks // 2:
                        self.want[s] = seen
                    s += 1

        class Product:
            file_path = 'L1A_x.nc'

            def __len__(self):
                return len(out)

            def __init__(self):
                self.it = iter(out)

            def __next__(self):
                return next(self.it)

            def first_time(self):
                return 1.

            def last_time(self):
                return 2.

            def read_globals(self):
                class G:
                    def __getattr__(self, k):
                        return (lambda: 'x') if k.startswith('get_') else 'x'
                return G()
        self.product = Product()
        self.written, self.stacks, self.calls = [], {}, []
        import builtins
        old = builtins.print
        builtins.print = lambda *a, **k: None
        try:
            self.status = self.proc.process('L1A_x.nc')
        finally:
            builtins.print = old

    def expect(self):
        if self.written != sorted(self.want):
            fail('surfaces written: %s, expected %s' % (self.written, sorted(self.want)))
        for k in self.want:
            if self.stacks[k] != self.want[k]:
                fail('looks of surface %d: bursts %s, expected %s' % (k, self.stacks[k], self.want[k]))


def cate():
    """stand-in for the parts of `cate` (not installed) under the command line; returns dedop.cli.main"""
    import types

    class CommandError(Exception):
        pass

    class Command:
        @classmethod
        def new_monitor(cls):
            from dedop.util.monitor import Monitor
            return Monitor.NULL

    class SubCommandCommand(Command):
        pass
    m = {n: types.ModuleType(n) for n in ('cate', 'cate.util', 'cate.util.cli', 'cate.util.monitor')}
    c = m['cate.util.cli']
    c.run_main, c.Command, c.SubCommandCommand, c.CommandError = None, Command, SubCommandCommand, CommandError
    m['cate.util.monitor'].Monitor = object
    sys.modules.update(m)
    from dedop.cli import main
    return main


def workspaces(names=(), current=None):
    """a manager of workspaces in a scratch directory, with two configurations in each"""
    import contextlib
    import io
    import tempfile
    from dedop.ui.workspace_manager import WorkspaceManager
    w = WorkspaceManager(tempfile.mkdtemp())
    with contextlib.redirect_stdout(io.StringIO()):
        for n in names:
            w.create_workspace(n)
            w.create_config(n, 'one')
            w.create_config(n, 'two')
    if current:
        w.set_current_workspace_name(current)
    return w


class Args:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        return None
