"""the properties, in one place; `python3 tools/spec.py` rewrites properties.jsonl and MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe=(), technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, observe=list(observe),
                  technique=technique or 'symbolic execution of the real Python code; Z3 decides each assertion over '
                                         'all inputs within the bounds; counterexamples replayed on the real code'))


REAL = ('Bounded model checking over exact real arithmetic: floating-point rounding is outside (comparisons carry a '
        'relative tolerance of 1e-6 on replay). ')
SAR = 'dedop/proc/sar/algorithms/'

prop('G01', 'Geodetic to Cartesian conversion is exact',
     'For every latitude, longitude and altitude, converting geodetic to Earth-centred coordinates gives the closed '
     'form point of the configured ellipsoid, whether the angles are given in radians or in degrees. Normalising an '
     'angle always gives the same direction within -180 to 180 degrees.',
     ['inputs', 'configurations'], 'all positions from -12 km to 2000 km, all ellipsoids with axes of 6000-6500 km, '
     'both angle units; normalisation of angles up to +-6 turns',
     'A wrong term is invisible at the few sampled positions (equator, one mid-latitude point): the claim is over '
     'continuous ranges.',
     ['dedop/proc/geo/lla2ecef.py', 'dedop/proc/geo/normalize.py'], [('closed form with the prime vertical radius', 'dedop/proc/geo: lla2ecef, normalize')],
     REAL + 'sin, cos and sqrt are axiomatised.')

prop('G02', 'Cartesian to geodetic conversion inverts the ellipsoid',
     'For every point on the ellipsoid, in the equatorial plane or on the polar axis, in either hemisphere, converting '
     'Earth-centred coordinates to geodetic ones gives the exact latitude, longitude and altitude, for single points '
     'and for arrays. The result does not depend on longitude except for the longitude itself, and mirrors between '
     'the hemispheres, for points at any height.',
     ['inputs'], 'surface points at all latitudes and longitudes, equatorial points of 6000-9000 km radius, points '
     'within 1 m of the axis, general points up to 9000 km for the symmetries',
     'Tests compare three points with recorded numbers; hemisphere, pole and array branches are not reached.',
     ['dedop/proc/geo/ecef2lla.py'], [('single Bowring step and the polar special case', 'dedop/proc/geo: ecef2lla')],
     REAL + 'For points off the surface the accuracy of the approximation is not decided (transcendental), only its '
     'symmetries. One ellipsoid with rational eccentricity close to WGS84.')

prop('S01', 'Next surface is placed one beam width along the track',
     'A new surface is created exactly when the ground track has moved, seen from the last surface\'s satellite '
     'position, by at least the azimuth beam resolution set by velocity, wavelength, pulse count and pulse interval. '
     'All its attributes (ground and satellite position, velocity, attitude, height rate, time) are interpolated '
     'between the two bursts around the crossing with the same fraction, and its window delay follows from its own '
     'altitudes.',
     ['inputs'], 'every previous surface, pair of bursts, resolution and attitude within the stated ranges',
     'The tests replay a few recorded bursts; the threshold and the interpolation of each of the 20 attributes must '
     'hold for all of them.',
     [SAR + 'surface_locations.py', 'dedop/model/surface_data.py'],
     [('angle threshold and linear interpolation', SAR + 'surface_locations.py')],
     REAL + 'The two coordinate conversions are replaced by one-to-one linear stand-ins (decided by G01/G02).')

prop('S02', 'First surface and surface after a gap sit at the burst itself',
     'The first surface of a pass, and the one placed where data resume after a gap, takes position, velocity, '
     'attitude, window delay and time from the current burst, whatever was processed before. Its UTC day and second '
     'are those of that burst.',
     ['inputs', 'histories'], 'every burst; fresh start, forced after another surface, forced after an interpolated '
     'surface',
     'Tests check the first surface of one recorded file, and not what state of earlier surfaces leaks into a forced '
     'one.',
     [SAR + 'surface_locations.py'], [('new first location', SAR + 'surface_locations.py')], REAL +
     'Coordinate conversions replaced by stand-ins as in S01.')

prop('S03', 'Target focusing moves exactly one surface to closest approach',
     'With focusing on, the last surface before the track moves away from the target is moved to the point of the '
     'track line closest to the target, with its position, altitude and window delay updated together, and it is '
     'marked; this happens at most once. Otherwise, and always with focusing off, surfaces stay where they were '
     'placed.',
     ['inputs', 'histories', 'configurations'], 'every target and pair of surfaces, every new burst; never focused, '
     'already focused, single surface; focusing on and off',
     'Tests cover one recorded target; the side conditions (already found, single surface, target not passed) are '
     'histories.',
     [SAR + 'surface_locations.py'], [('projection on the line of surfaces', SAR + 'surface_locations.py')], REAL)

prop('B01', 'Beams steer to exactly the visible surfaces',
     'For each burst the beams point at the first unbroken run of surfaces whose angle from the velocity lies within '
     'the Doppler band allowed by wavelength, velocity and pulse interval, corrected for the Doppler angle; at most '
     'as many beams as pulses, the latest ones. The reported angle of each beam is the angle between the velocity '
     'and the line to its surface, and the report whether the working surface was seen is exact.',
     ['inputs', 'histories'], 'every velocity, Doppler angle, band and along-track layout of up to 4 surfaces with up '
     'to 3 beams', 'Tests replay two recorded bursts; band edges, gaps in visibility and overflow need all layouts.',
     [SAR + 'beam_angles.py'], [('band limits and the run of visible surfaces', SAR + 'beam_angles.py')], REAL)

prop('B02', 'Burst geometry and beam numbering are exact',
     'The burst\'s Cartesian position is that of its geodetic position, its ground point lies the measured range '
     'below it, and its Doppler angle is minus the tilt of the velocity out of the horizontal plane. The trend of a '
     'beam list is flat when full, rising when longer than the one before or first, falling when shorter, and else '
     'unchanged; and each look is numbered from the middle of a full burst accordingly.',
     ['inputs', 'histories'], 'every position, velocity and window delay; every pair of successive beam list lengths',
     'Tests check two lists of one size each.',
     ['dedop/model/l1a_processing_data.py', 'dedop/model/surface_data.py'],
     [('per-burst geometry and trend', 'dedop/model/l1a_processing_data.py')], REAL)

prop('Z01', 'Azimuth focusing is the steered, tapered Fourier sum of the pulses',
     'Every focused beam of the exact method is the sum over pulses of the tapered samples times the two-way phase '
     'for that beam\'s angle, divided by the root of the pulse count; the approximate method steers once to nadir '
     'and takes the discrete Fourier transform over pulses, with beams numbered as the list trend says. The taper is '
     'the configured one (none, boxcar, Hanning, Hamming), centred and of the configured width.',
     ['inputs', 'configurations'], 'arbitrary complex pulses, angles, velocity, wavelength and pulse interval; 2 to 16 '
     'pulses; every list length and trend; every window and width up to the number of pulses',
     'The existing azimuth tests do not run reliably; signs, scaling and beam order must hold for every signal.',
     [SAR + 'azimuth_processing.py'], [('phase ramp, FFT over pulses and beam selection', SAR + 'azimuth_processing.py')],
     REAL + 'The FFT is executed as its exact sum; pulse counts are small.')

prop('C01', 'Calibration applies gain, phase and transfer function to each pulse',
     'With the first calibration on, each pulse is scaled by the root of its power correction and rotated by its phase '
     'correction, and the instrument gain is removed; with the second on, the spectrum of each pulse is divided line '
     'by line by the root of the configured transfer function, centred at zero frequency. A correction that is off '
     'leaves the pulses untouched.',
     ['inputs', 'configurations'], 'arbitrary complex pulses, gains, power and phase corrections and transfer functions; '
     'up to 4 pulses and 6 samples, even and odd', 'Tests compare one recorded burst; a swapped half spectrum or '
     'sign shows on other signals only.',
     ['dedop/proc/sar/cal/cal1_algorithm.py', 'dedop/proc/sar/cal/cal2_algorithm.py'], [('CAL1 and CAL2', 'dedop/proc/sar/cal')], REAL)

prop('K01', 'Stack gathering keeps the looks nearest to nadir, aligned',
     'The stack of a surface holds all its looks, or the allowed number of those with the smallest look angles when '
     'there are more, in the order of the pass. Signal, beam angle, Doppler angle, look and pointing angle, clock, '
     'look number and packet counter in one position all belong to the same look, unused positions are empty, and '
     'the nearest burst and surface type are those of the kept looks.',
     ['inputs', 'histories'], 'up to 4 looks with 2 or 3 kept; angles along the pass arbitrary, decreasing; any mix of '
     'packet kinds', 'Tests gather one small synthetic stack.',
     [SAR + 'stack_gathering.py'], [('sorting and trimming', SAR + 'stack_gathering.py')], REAL)

prop('K02', 'Geometry corrections align every look in range',
     'Each look is shifted by the sum of its Doppler, slant-range and window-delay misalignment, in samples of its own '
     'clock, where each term is the closed form of burst and surface geometry and the first two are zero when '
     'switched off. Unused looks stay empty.',
     ['inputs', 'configurations'], 'all positions, speeds, angles, delays, clocks; stacks of 1 or 2 looks in products '
     'of up to 3; all switches', 'No stable test runs this stage.',
     [SAR + 'geometry_corrections.py'], [('shift terms and phase ramp', SAR + 'geometry_corrections.py')], REAL)

prop('K03', 'Range compression gives the zero-padded power spectrum',
     'Each compressed look is the squared magnitude of the centred, normalised, zero-padded discrete Fourier transform '
     'of the corrected look, one row per look of the stack.',
     ['inputs'], 'arbitrary complex looks, up to 8 output samples, paddings 1 to 3, full and short stacks',
     'No stable test runs this stage.', [SAR + 'range_compression.py'],
     [('FFT with zero padding', SAR + 'range_compression.py')], REAL)

prop('K04', 'Stack masking removes exactly the samples outside the window',
     'A sample is masked exactly when the alignment shift, rounded to whole samples, brought it in from outside the '
     'measured window, or when both look angle limits are set and its look lies outside of them; masking off masks '
     'nothing. Masked samples are zero, others unchanged, and the reported mask position is the end of the unmasked '
     'part.',
     ['inputs', 'configurations'], 'shifts beyond either edge, up to 9 padded samples, up to 3 looks, all limit '
     'combinations', 'Tests mask two synthetic stacks; edges, empty windows and both signs need all shifts.',
     [SAR + 'stack_masking.py'], [('mask by shift and by look angle', SAR + 'stack_masking.py')], REAL)

prop('K05', 'Multilooking averages exactly the contributing looks',
     'The averaged waveform is, per sample, the mean over the looks that are not fully masked, leaving out masked '
     'samples when so configured, each look weighted by the antenna pattern interpolated at its pointing angle when '
     'weighting is on. Look counts, first and last angles and mask positions describe exactly those looks, burst '
     'numbers the ends of the whole stack, and the stack statistics are those of the curve fitted to the power, normalised '
     'by the strongest look, of the look nearest to nadir and up to 124 looks on either side of it.',
     ['inputs', 'configurations'], 'up to 4 looks, each unmasked, half or fully masked; pattern of 250 angles, pointing '
     'angle below, in and above the table; fitted range for stacks of 270 and 300 looks', 'No stable test runs this stage.',
     [SAR + 'multilooking.py'], [('average and weighting', SAR + 'multilooking.py')],
     REAL + 'The least squares fit of scipy is a stub returning arbitrary parameters.')

prop('K06', 'Sigma-0 factor is the radar equation averaged over the stack',
     'The scaling factor is the mean over the looks of the stack of the radar equation in decibels with each look\'s '
     'own range, velocity and pulse interval, and the gain of the burst nearest to nadir.',
     ['inputs', 'configurations'], 'all ranges, speeds, intervals, gains and instrument constants; stacks of 1 up to '
     'the limit', 'No stable test runs this stage.', [SAR + 'sigma_zero_scaling.py'],
     [('radar equation', SAR + 'sigma_zero_scaling.py')], REAL + 'log10 is axiomatised.')


prop('I01', 'Every value read from the product is that of its record',
     'Reading any variable at any record gives the value stored there, whatever was read before: the block cache never '
     'returns a value of another record or variable.',
     ['inputs', 'histories'], 'products of up to 83 records, block sizes 1 to 9 and the default, any sequence of up to 3 '
     'reads of two variables', 'Tests read a product once from front to back.',
     ['dedop/data/input/netcdf_reader.py'], [('block cache', 'dedop/data/input/netcdf_reader.py')],
     REAL + 'netCDF4 is replaced by an in-memory stand-in.')

prop('I02', 'Exactly the records in the region of interest are processed, in order',
     'With any combination of latitude and longitude limits, the input yields exactly the records within them, in '
     'order, as many as announced, and its first and last times are those of these records; no limits means all '
     'records. Records at zero latitude and longitude are void and come as nothing.',
     ['inputs', 'configurations'], 'products of 2 or 3 records at arbitrary positions, each limit set or not, read by '
     'iteration or one by one', 'Tests read one recorded product without limits.',
     ['dedop/data/input/l1a/l1a_dataset.py'], [('record selection', 'dedop/data/input/l1a')],
     REAL + 'netCDF4 is replaced by an in-memory stand-in; regions across the date line are outside.')

prop('I03', 'Each packet carries the fields of its record in processing units',
     'Every field of a packet is the variable of the same meaning of that record: angles in radians, range turned into a '
     'window delay with the centre of gravity correction, samples complex with the receiver gain removed, calibration '
     'arrays of the record and of the configured table. Global attributes are passed on, missing ones as missing.',
     ['inputs'], 'up to 5 records with all variables arbitrary, in any order of access; up to 3 pulses and 3 samples',
     'Tests compare a handful of fields of one record.',
     ['dedop/data/input/l1a/l1a_dataset.py'], [('decoding', 'dedop/data/input/l1a')],
     REAL + 'netCDF4 is replaced by an in-memory stand-in.')

PROC = 'dedop/proc/sar/processor.py'
prop('P01', 'Every surface of the pass is written once, with all its looks',
     'A processing run writes the surfaces of the pass in the order they were placed, each exactly once and after all '
     'stages ran on it in order, with all the bursts that see it, and the number of the beam, in its stack; only surfaces with fewer looks than half '
     'the stack limit are left out. Each burst is calibrated, placed, steered and focused once. Void records change '
     'nothing.',
     ['inputs', 'configurations', 'histories'], 'passes of 90 to 250 bursts with a surface every 1 to 3 bursts; any '
     'footprint in the stated ranges; void records before, within and after the pass; both formats, L1BS on and off; a short pass with the real stages from steering to range compression',
     'The processing loop is never run to completion by the stable tests.',
     [PROC], [('processing loop', PROC)],
     'Bounded: the algorithms and files are stand-ins that record their calls (the algorithms are decided by the other '
     'properties); the real loop runs.')

prop('P02', 'A data gap splits the pass cleanly',
     'Where the time between two bursts is one and a half burst intervals or more, the surfaces before are finished '
     'with the bursts before, and processing starts anew with a surface at the burst after: no stack mixes bursts of '
     'both sides, no burst or surface is lost, repeated or calibrated twice, and beams are numbered anew. Shorter steps '
     'are not gaps.',
     ['inputs', 'histories'], 'one or two gaps of arbitrary length up to 1 s, before, within and after the start-up '
     'phase, with void records at the gap', 'No stable test has a gap.',
     [PROC], [('gap handling', PROC)], 'Bounded: as P01.')

prop('P03', 'Runs end cleanly and are independent of each other',
     'Cancelled, failed or complete, a run closes each output file once and finishes its monitor; a cancelled run has '
     'written the surfaces from the start of the pass and says so in its status. A processor gives for the next product '
     'what a new one would give, target focusing included. Outputs are named after input and configuration and carry '
     'the global attributes of the input.',
     ['histories', 'fault points', 'configurations'], 'cancelled at 9 points or failing at 5, then another product; '
     'several input and configuration names', 'Tests construct a processor once per case and never cancel.',
     [PROC], [('state of the run, closing', PROC)], 'Bounded: as P01.')


prop('O01', 'Each output record holds the values of its surface',
     'Every record written to an L1B or L1BS product holds, per variable, the value of the surface or of the burst nearest '
     'to it that the variable stands for, in the unit the variable declares; records follow each other in the order '
     'written, a record that fails leaves the others as they are, and no record shows values of another. Global '
     'attributes are those of the input and configuration.',
     ['inputs', 'histories'], 'one record with all contents arbitrary (stack of 1 to 3 looks, nearest burst any of them), '
     'and sequences of up to 5 records of different sizes, for the three writers',
     'The L1BS writer has no stable test, and the others are compared for one surface.',
     ['dedop/data/output'], [('records and variables', 'dedop/data/output')],
     REAL + 'netCDF4 is replaced by an in-memory stand-in that keeps packing, fill values and dimensions.')

prop('O02', 'UTC day and second of a record are its time',
     'The UTC day and second of the day written for a surface are those of its time of measurement, counted from the '
     'reference of its burst: second zero to the end of the day, with the day moved on at midnight.',
     ['inputs'], 'any time, reference and day, for the three writers', 'Tests sample one time of day.',
     ['dedop/data/output'], [('UTC time', 'dedop/data/output')], REAL + 'as O01.')

prop('O03', 'Packed waveforms and angles can be read back',
     'Samples of waveforms and complex looks written as counts with a scale factor give back the values within half a '
     'count, with the largest filling the range of the type; every scalar over its physical range fits its packed type, '
     'keeps its resolution and is not read back as missing; every value of a flag has its meaning.',
     ['inputs'], 'arbitrary waveforms of 4 samples (not all zero) and looks with two arbitrary samples; every scalar '
     'variable over its physical range', 'Overflow of a packed type shows only for extreme values.',
     ['dedop/data/output'], [('packing', 'dedop/data/output')], REAL + 'as O01; an all-zero waveform is outside.')


VFS = ('Bounded: file contents are symbolic tokens, the existence of every file a symbolic Boolean that forks when it is '
       'asked for; the file system below os, shutil, glob and open is an in-memory stand-in. ')
MAN = 'dedop/ui/workspace_manager.py'

prop('A01', 'Configuration values reach the processor as they were given',
     'Every parameter of the three configuration files is read as the value given for it, in the unit the processor uses, '
     'whether it comes from a file or as an argument; values of one object never show up in another. A missing required '
     'parameter, a file of another version, an unknown method or a table of the wrong length is refused, an optional '
     'parameter left out has its default, and an unknown parameter is only warned about.',
     ['inputs', 'configurations', 'histories'], 'every parameter of the three files with arbitrary values, read in either '
     'order; any one missing; any version number; up to three objects alive or gone',
     'Tests read one file with one value per parameter.',
     ['dedop/conf'], [('parameters as descriptors, readers', 'dedop/conf')], REAL + 'JSON parsing itself is replaced by a '
     'stand-in that hands over symbolic values.')

prop('A02', 'Upgrading a configuration keeps what the user set',
     'Upgrading a configuration file of any older version applies every change between its version and the current one, in '
     'order and once: parameters added get their default, removed ones go, and all others keep the values of the user. Its '
     'version is then the current one; a file of the current or a newer version is left as it is. A new configuration, for '
     'either satellite, is accepted by the readers and needs no upgrade.',
     ['inputs', 'histories', 'configurations'], 'configuration files of any version with all, none or other parameters of '
     'arbitrary values, for the shipped change logs and for arbitrary ones of up to three versions (thorough: four)',
     'Tests upgrade one fixed file; a change log acts over several versions at once.',
     [MAN, 'dedop/ui/data', 'dedop/conf'], [('upgrade along the change log', MAN)], REAL + 'JSON parsing and writing as A01.')

prop('W01', 'Workspace operations do exactly what they are asked',
     'Creating, copying, renaming and deleting workspaces and configurations, and adding and removing inputs and outputs, '
     'changes exactly the files of the workspace or configuration named and nothing else, whatever else is there; a copy has '
     'all files of the original, and two requests one after the other add up.',
     ['inputs', 'histories'], 'every operation on two workspaces with two configurations each, every part of them there or '
     'not; every pair of operations on one workspace', 'Tests run each operation once in one directory tree.',
     [MAN], [('operations on directories', MAN)], VFS)

prop('W02', 'A refused or failed workspace operation leaves everything as it was',
     'A request that names a workspace, configuration or file that is not there or empty, or that would replace an existing '
     'one, is refused with a workspace error and changes nothing. An input/output error in the middle of an operation is '
     'reported as a workspace error and leaves the other workspaces and configurations untouched.',
     ['inputs', 'fault points'], 'every operation with every missing, existing or empty name; an error at any file system '
     'call of every operation', 'Tests inject no errors and try few refusals.',
     [MAN], [('guards and error handling', MAN)], VFS)

prop('W03', 'Lists and selections of workspaces show what is there',
     'The names of workspaces, configurations, inputs, outputs and notebooks listed are exactly those that are there and match, sorted '
     'and each once, stray files aside. The current workspace and configuration are the last ones selected, per workspace '
     'for the latter, and only existing ones can be selected.',
     ['inputs', 'histories'], 'every subset of three workspaces or configurations and of four inputs and outputs, with stray '
     'files; no, one or two patterns; sequences of two selections', 'Tests list one tree.',
     [MAN, 'dedop/ui/workspace.py'], [('lists and the selection files', MAN)], VFS)

prop('L01', 'A run processes each chosen input once with each chosen configuration',
     'The run command processes every chosen input, or all inputs of the workspace, exactly once with every chosen '
     'configuration, using the files of that configuration, its output directory unless another is given, and the L1BS '
     'switch as asked; a failed run or one without inputs is reported by the exit status. The web service runs and saves the '
     'configuration it is asked to.',
     ['inputs', 'configurations', 'fault points'], 'every combination of the options of the command, selections and inputs '
     'there or not, failing at the first or second input', 'The command has no stable test.',
     ['dedop/cli/main.py', 'dedop/webapi/websocket.py'], [('run command', 'dedop/cli/main.py: RunProcessorCommand'),
     ('service', 'dedop/webapi/websocket.py')], VFS + 'The processor is replaced by a recorder; the library of the web '
     'service, which is not installed, by a stub.')

prop('L02', 'Commands act on what is named or selected, and only once confirmed',
     'Commands on workspaces, configurations, inputs and outputs act on the workspace and configuration named, else on the '
     'selected ones; they never replace an existing one, remove nothing without confirmation, report failure by the exit '
     'status, and leave a selection that exists, if any is left. Inspecting and comparing open exactly the products named. The '
     'web service does the same as the commands.',
     ['inputs', 'histories'], 'every command with every combination of names given or not, workspaces, configurations, files '
     'and selections there or not, answers to the question', 'The command line has no stable test.',
     ['dedop/cli/main.py', 'dedop/webapi/websocket.py'], [('commands', 'dedop/cli/main.py'),
     ('service', 'dedop/webapi/websocket.py')], VFS)

prop('L03', 'What the commands show, open and upgrade is what is there',
     'The lists of workspaces, configurations, inputs and outputs name exactly those there, in order, of the workspace and '
     'configuration named or else selected; the status, the current selection and the versions shown are the actual ones, and '
     'showing changes nothing. Editing opens exactly the three files of the configuration, opening outputs its output '
     'directory; an editor that cannot be started is reported. Upgrading brings all three files to the version of the program '
     'if any is older, else changes nothing. A notebook server is started for exactly the folder and notebook asked for, by the '
     'launcher configured or found, and a failure is reported. The web service gives the same versions and contents.',
     ['inputs', 'histories'], 'any subset of up to three workspaces, configurations or files with strays, names given or not, '
     'patterns, versions up to the next, any kind of editor setting', 'The command line has no stable test.',
     ['dedop/cli/main.py', 'dedop/ui/workspace_manager.py'], [('commands', 'dedop/cli/main.py'), ('editor',
     'dedop/ui/workspace_manager.py: WorkspaceManager.open_file'), ('notebook server', MAN), ('service',
     'dedop/webapi/websocket.py')], VFS + 'Commands given to the system are recorded, not run.')


prop('U01', 'Progress reported adds up, and cancelling reaches every level',
     'Work reported to a child monitor reaches the parent as the same fraction of the share of the child, over any number of '
     'levels; a task of unknown total passes on messages only. A task started is finished exactly once, failed or not; a '
     'cancel at any level is seen at all. The console shows the percentage of the work done and gives the interrupt handler '
     'back. A complete run of the processor reports exactly its total work, and no run more.',
     ['inputs', 'histories'], 'any shares, totals and steps (three steps, thorough: five; three levels), messages or none; '
     'runs with up to two gaps and void records', 'Tests report a few round numbers at one level.',
     ['dedop/util/monitor.py', PROC], [('child and console monitor', 'dedop/util/monitor.py')], REAL)

prop('U02', 'Settings of the user are read, never overwritten, and never stop the program',
     'Settings are those of the file of the user, replaced by those of the local file; a file that is missing or broken only '
     'means that its settings are not there. The file of the user is made from the template if there is none, and left as '
     'it is otherwise.',
     ['inputs', 'fault points'], 'both files there or not, broken or not, with arbitrary values; no permission to write',
     'Tests read what is installed.', ['dedop/util/config.py'], [('get_config', 'dedop/util/config.py')], VFS)


prop('N01', 'Inspecting and comparing shows the data of the products named',
     'The inspector gives positions, times and scaled waveforms of the product as they are stored, with their true ranges; '
     'the comparison gives first minus second and refuses products of different size. Every plot draws the variable, record '
     'or pair it is asked for, the map every position, within the limits given or those of the data, and is shown or saved once. A notebook for a '
     'product is a new file that opens exactly that product, whatever its name, and a failure to write it is reported.',
     ['inputs', 'configurations', 'fault points'], 'products of 2 records of 3 samples with arbitrary values, every plot with '
     'any limits; paths and formats of figures; kinds of product names, notebooks there or not, a disk error at each step',
     'The plotting code has no stable test: the libraries installed do not fit it.',
     ['dedop/ui/inspect.py', 'dedop/ui/compare.py', 'dedop/ui/figurewriter.py', MAN],
     [('inspector and plots', 'dedop/ui/inspect.py'), ('comparator and plots', 'dedop/ui/compare.py'),
      ('notebooks', MAN)], REAL + 'Plotting libraries are replaced by recorders, the map projection by the identity; '
     'interactive widgets are checked for what they offer only.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    na = {x['property'] for x in NA}
    m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --selftest',
             checks=[dict(property=p['id'], quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % p['id'],
                          thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=p['technique'],
                          level='model_checking', level_note=p['note']) for p in P if p['id'] not in na],
             not_applicable=NA)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    text = ''
    for p in P:
        text += '### %s %s\n%s\n\n*Bounds:* %s. *Note:* %s\n\n*Why tests cannot:* %s\n\n' % (
            p['id'], p['title'], p['statement'], p['text'], p['note'].strip(), p['why'])
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        s = f.read()
    a, b = s.index('<!-- begin generated -->'), s.index('<!-- end generated -->')
    s = s[:a] + '<!-- begin generated -->\n' + text + s[b:]
    rows = ''
    seeded = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
        with open(os.path.join(seeded, d, 'meta.json')) as f:
            meta = json.load(f)
        rows += '| %s | %s | %s | %s |\n' % (d, meta['property'], meta['what_it_breaks'], meta.get('caught', 'caught'))
    k = s.index('## Planted bugs and what catches them')
    k = s.index('\n\n', k) + 2
    s = s[:k] + '| planted bug | check | what it breaks | result |\n|---|---|---|---|\n' + rows
    with open(path, 'w') as f:
        f.write(s)


if __name__ == '__main__':
    main()
