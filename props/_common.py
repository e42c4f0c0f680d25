"""builders shared by the harnesses: real configuration objects holding symbolic values"""
import math

CST = dict(c_cst=299792458.0, pi_cst=math.pi, semi_major_axis_cst=6378137.0, semi_minor_axis_cst=6356752.3142,
           earth_radius_cst=6378137.0, flat_coeff_cst=1 / 298.257223563, sec_in_day_cst=86400.0)

CHD = dict(mean_sat_alt_chd=1347000.0, N_samples_sar_chd=4, N_ku_pulses_burst_chd=4, freq_ku_chd=13.575e9,
           pulse_length_chd=32e-6, bw_ku_chd=320e6, power_tx_ant_ku_chd=7.5, antenna_gain_ku_chd=42.6,
           uso_freq_nom_chd=10e6, alt_freq_multiplier_chd=39.5, prf_sar_chd=17825.0, brf_sar_chd=78.5,
           antenna_weights_chd=[1.0] * 250, antenna_angles_chd=[0.001 * i for i in range(250)],
           antenna_angles_spacing_chd=0.001, ptr_width_chd=2.819e-9, fft_step_freq_ku_chd=1.0, ratio_trc_ku_chd=1.0)

CNF = dict(flag_cal2_correction_cnf=False, flag_uso_correction_cnf=True, flag_cal2_table_index_cnf=0,
           flag_cal1_corrections_cnf=False, flag_cal1_intraburst_corrections_cnf=False,
           flag_surface_focusing_cnf=False, surface_focusing_lat_cnf=0.0, surface_focusing_lon_cnf=0.0,
           surface_focusing_alt_cnf=0.0, flag_azimuth_processing_method_cnf='approx',
           flag_postphase_azimuth_processing_cnf=False, flag_azimuth_windowing_method_cnf='none',
           azimuth_window_width_cnf=20, flag_doppler_range_correction_cnf=True,
           flag_slant_range_correction_cnf=True, flag_window_delay_alignment_method_cnf=0,
           flag_stack_masking_cnf=True, flag_avoid_zeros_in_multilooking_cnf=False,
           flag_surface_weighting_cnf=False, flag_antenna_weighting_cnf=0.0, zp_fact_range_cnf=2,
           N_looks_stack_cnf=3)


def cst(H, **kw):
    C = H.imp('dedop.conf', 'ConstantsFile')
    return C(**dict(CST, **kw))


def chd(H, c, **kw):
    C = H.imp('dedop.conf', 'CharacterisationFile')
    return C(c, **dict(CHD, **kw))


def cnf(H, **kw):
    C = H.imp('dedop.conf', 'ConfigurationFile')
    return C(**dict(CNF, **kw))


# what each stage of the processing of a surface adds to it, in order (the order itself is P01's business)
STAGES = [
    ('gather', 'data_stack_size stack_bursts beams_surf beam_angles_surf t0_surf doppler_angles_surf look_angles_surf '
               'pointing_angles_surf look_index_surf look_counter_surf closest_burst_index'),
    ('geometry', 'slant_range_corrections range_sat_surf doppler_corrections win_delay_corrections beams_geo_corr'),
    ('range', 'beams_range_compr beams_range_compr_iq'),
    ('mask', 'beams_masked stack_mask_vector stack_mask'),
    ('multilook', 'stack_max stack_std stack_skewness stack_kurtosis n_beams_start_stop start_look_angle '
                  'stop_look_angle start_doppler_angle stop_doppler_angle start_pointing_angle stop_pointing_angle '
                  'start_beam_angle stop_beam_angle start_burst_index stop_burst_index stack_mask_vector_start_stop '
                  'beam_angles_start_stop look_angles_start_stop waveform_multilooked'),
    ('sigma', 'sigma0_scaling_factor sigma0_scaling_factor_beam')]


# values a real record holds that a harness need not name: they are read only by code that uses the wrong one, and are
# then arbitrary.  Groups are values that follow from each other: nothing is made up for a group that is partly given.
GROUPS_S = [
    {k: (-8e6, 8e6) for k in ('x_surf', 'y_surf', 'z_surf', 'lat_surf', 'lon_surf', 'alt_surf')},
    {k: (-8e6, 8e6) for k in ('x_sat', 'y_sat', 'z_sat', 'lat_sat', 'lon_sat', 'alt_sat')},
    {k: (-8e3, 8e3) for k in ('x_vel_sat', 'y_vel_sat', 'z_vel_sat')},
    {'alt_rate_sat': (-40, 40)}, {'roll_sat': (-0.02, 0.02)}, {'pitch_sat': (-0.02, 0.02)}, {'yaw_sat': (-0.02, 0.02)},
    {'time_surf': (0, 1e9)}, {'win_delay_surf': (0.001, 0.006)}, {'angular_azimuth_beam_resolution': (1e-5, 1e-3)}]
ANGLES = (-0.03, 0.03)
GROUPS_STACK = [
    {'beam_angles_surf': (1.54, 1.6)}, {'look_angles_surf': ANGLES}, {'pointing_angles_surf': ANGLES},
    {'doppler_angles_surf': ANGLES}, {'slant_range_corrections': (-9, 9)}, {'doppler_corrections': (-9, 9)},
    {'win_delay_corrections': (-9, 9)}, {'range_sat_surf': (7e5, 8e5)}, {'stack_mask_vector': (0, 512)}]
SIGNALS = ('beams_surf', 'beams_geo_corr', 'beams_range_compr_iq', 'beams_range_compr', 'beams_masked')
GROUPS_B = [
    {k: (-8e6, 8e6) for k in ('x_sar_sat', 'y_sar_sat', 'z_sar_sat', 'lat_sar_sat', 'lon_sar_sat', 'alt_sar_sat')},
    {k: (-8e6, 8e6) for k in ('x_sar_surf', 'y_sar_surf', 'z_sar_surf', 'lat_sar_surf', 'lon_sar_surf', 'alt_sar_surf')},
    {'roll_sar': (-0.02, 0.02)},
    {'pitch_sar': (-0.02, 0.02)},
    {'yaw_sar': (-0.02, 0.02)},
    {'h0_applied': (0, 4e9)}, {'cor2_applied': (-3e4, 3e4)},
    {'win_delay_sar_ku': (0.004, 0.006)}, {'range_ku': (6e5, 9e5)}, {'cog_cor': (-3, 3)},
    {'time_sar_ku': (0, 1e9), 'days': (0, 20000), 'seconds': (0, 86400)}, {'agc_ku': (0, 60)}, {'agccode_ku': (0, 60)},
    {'sig0_cal_ku': (-100, 100)}, {'uso_cor': (-500, 500)}, {'int_path_cor_ku': (-500, 500)},
    {'source_seq_count': (0, 16383)}, {'alt_rate_sat_sar': (-40, 40)}, {'doppler_angle_sar_sat': ANGLES},
    {'surf_type': (0, 3)}, {'burst_sar_ku': (0, 1e6)}]


def _made_up(H, rec, k, tag):
    """an arbitrary value for a value of a record that no harness named; None when there is no telling"""
    given = rec._data
    surf = type(rec).__name__.startswith('Surface')
    for g in (GROUPS_S if surf else GROUPS_B):
        if k in g and not any(n in given for n in g):
            return H.real('%s_%s' % (tag, k), *g[k])
    if not surf:
        if k.endswith('_sral_mispointing'):
            return H.deg(rec[k.split('_')[0] + '_sar'])
        if k in ('h0_sar', 'cor2_sar'):
            return rec[k.split('_')[0] + '_applied']
        two = ('waveform_cor_sar', 'beams_focused')
        if k in two:
            for a in two:
                if a in given:
                    rows, cols = given[a].shape
                    return H.arr([[H.mkc(7.25 + i, 0.5 - j) for j in range(cols)] for i in range(rows)])
        return None
    for g in GROUPS_STACK:
        if k in g:
            n = [len(given[a]) for h in GROUPS_STACK for a in h if a in given] + \
                [len(given[a]) for a in ('stack_bursts',) + SIGNALS if a in given]
            return H.arr([H.real('%s_%s_%d' % (tag, k, i), *g[k]) for i in range(max(n))]) if n else None
    if k in SIGNALS:
        for a in SIGNALS:
            if a in given and len(given[a]):
                rows, cols = given[a].shape
                v = [[7.25 + i + 0.5 * j for j in range(cols)] for i in range(rows)]
                return H.arr([[H.mkc(x, -x) for x in r] for r in v] if k in SIGNALS[:3] else v)
    return None


def _guard(cls, stage=None, H=None):
    """the real record class; reading a value the harness did not supply finds an arbitrary one, or else is a gap of the
    harness, unless the value only comes into being at `stage` or later"""
    from symx.harness import HarnessGap
    later, on = set(), False
    for n, f in STAGES:
        on = on or n == stage
        if on:
            later |= set(f.split())
    tag = ''
    if H is not None:
        H.serial += 1
        tag = 'other%d' % H.serial

    class Guarded(cls):
        def __getitem__(self, k):
            try:
                return cls.__getitem__(self, k)
            except KeyError:
                if k in later:
                    raise
                v = None if H is None else _made_up(H, self, k, tag)
                if v is None:
                    raise HarnessGap('record has no %s' % k)
                return v
    Guarded.__name__ = cls.__name__
    return Guarded


def surface(H, c, d, num=0, stage=None, **kw):
    s = _guard(H.imp('dedop.model', 'SurfaceData'), stage, H)(c, d, num)
    for k, v in kw.items():
        setattr(s, k, v) if k not in ('prev_tai', 'prev_utc_days', 'prev_utc_secs', 'curr_day_length') else s.set_values(**{k: v})
    return s


def burst(H, c, d, num=0, vel=None, pos=None, ground=None, **kw):
    if vel is not None:
        kw.update(x_vel_sat_sar=vel[0], y_vel_sat_sar=vel[1], z_vel_sat_sar=vel[2])
    if pos is not None:
        kw.update(x_sar_sat=pos[0], y_sar_sat=pos[1], z_sar_sat=pos[2])
    if ground is not None:
        kw.update(x_sar_surf=ground[0], y_sar_surf=ground[1], z_sar_surf=ground[2])
    return _guard(H.imp('dedop.model', 'L1AProcessingData'), None, H)(c, d, num, **kw)


def norm3(H, v):
    return H.math.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
