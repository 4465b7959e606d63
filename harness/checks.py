"""What decides each property.  Every step is one of

  MC(spec, cfg)                     exhaustive TLC run of a specification
  MUT(spec, cfg)                    the same for a deliberately wrong variant of the
                                    specification: TLC must find a violation (thorough only)
  TV(driver, trace spec, shards)    the driver runs the real code, TLC validates every
                                    recorded trace against the specification
  GEN(gen spec, driver, trace spec) TLC writes out histories of the specification, the
                                    driver replays them in the real code, TLC validates
"""
from collections import namedtuple
MC = namedtuple('MC', 'spec cfg cfg_thorough', defaults=[None, None])
MUT = namedtuple('MUT', 'spec cfg')
TV = namedtuple('TV', 'driver spec shards')
GEN = namedtuple('GEN', 'gen cfg sim driver spec')

CHECKS = {}

_field = [MC('MC_ProbField', 'MC_ProbField', 'MC_ProbField_thorough'),
          MUT('MC_ProbField', 'MC_ProbField_legacy'),
          GEN('Gen_ProbField', 'Gen_ProbField', None, 'drv_field', 'Trace_ProbField'),
          TV('drv_field', 'Trace_ProbField', 4)]
CHECKS['C01'] = _field
CHECKS['C02'] = _field
CHECKS['C03'] = _field

_bt = [MC('MC_Backtrace', None, 'MC_Backtrace_thorough'), MUT('MC_Backtrace', 'MC_Backtrace_mut'),
       TV('drv_trace', 'Trace_Backtrace', 4)]
CHECKS['C04'] = _bt
CHECKS['C05'] = _bt
CHECKS['C06'] = _bt
CHECKS['C07'] = _bt

_zone = TV('drv_zone', 'Trace_CaptureZone', 4)
CHECKS['C06'] = _bt + [_zone]
CHECKS['C07'] = _bt + [_zone]
CHECKS['C08'] = [_zone]

_obs = [MC('MC_Obs', 'MC_Obs', 'MC_Obs_thorough'), MUT('MC_Obs', 'MC_Obs_mut'), MUT('MC_Obs', 'MC_Obs_mut2'),
        GEN('Gen_Obs', 'Gen_Obs', None, 'drv_obs', 'Trace_Obs'), TV('drv_obs', 'Trace_Obs', 4)]
CHECKS['C18'] = _obs
CHECKS['C19'] = _obs

_aq = [MC('MC_Aquifer', 'MC_Aquifer', 'MC_Aquifer_thorough'), MUT('MC_Aquifer', 'MC_Aquifer_mut'),
       TV('drv_aquifer', 'Trace_Aquifer', 4)]
CHECKS['C13'] = CHECKS['C14'] = CHECKS['C15'] = _aq

CHECKS['C16'] = [MC('MC_Fit', 'MC_Fit', 'MC_Fit_thorough'), MUT('MC_Fit', 'MC_Fit_mut'), TV('drv_fit', 'Trace_Fit', 4)]

CHECKS['C17'] = [MC('MC_ModelStore', 'MC_ModelStore', 'MC_ModelStore_thorough'), MUT('MC_ModelStore', 'MC_ModelStore_mut'),
                 GEN('Gen_ModelStore', 'Gen_ModelStore', 'Gen_ModelStore_sim', 'drv_store', 'Trace_ModelStore')]

_run = [MC('MC_Run', 'MC_Run', 'MC_Run_thorough'), MC('MC_Run', 'MC_Run_deep', 'MC_Run_deep_thorough'),
        MUT('MC_Run', 'MC_Run_mut_stale'), MUT('MC_Run', 'MC_Run_mut_swallow'), MUT('MC_Run', 'MC_Run_mut_finally'),
        MUT('MC_Run', 'MC_Run_mut_overwrite'), TV('drv_run', 'Trace_Run', 4)]
for _p in ('C09', 'C10', 'C11', 'C23', 'C25'):
    CHECKS[_p] = _run
for _p in ('C06', 'C07', 'C08'):
    CHECKS[_p] = CHECKS[_p] + _run
CHECKS['C25'] = _run + _obs

CHECKS['C12'] = [MC('MC_Variates', 'MC_Variates', 'MC_Variates_thorough'), MUT('MC_Variates', 'MC_Variates_mut'),
                 GEN('Gen_Variates', 'Gen_Variates', None, 'drv_var', 'Trace_Variates'), TV('drv_var', 'Trace_Variates', 4)]
CHECKS['C20'] = [MC('MC_Config', 'MC_Config', 'MC_Config_thorough'), MUT('MC_Config', 'MC_Config_mut'), MUT('MC_Config', 'MC_Config_mut2'),
                 GEN('Gen_Config', 'Gen_Config', None, 'drv_config', 'Trace_Config')]
CHECKS['C21'] = [MC('MC_Archive', 'MC_Archive', 'MC_Archive_thorough'), MUT('MC_Archive', 'MC_Archive_mut'), MUT('MC_Archive', 'MC_Archive_mut2'), MUT('MC_Archive', 'MC_Archive_mut3'),
                 TV('drv_archive', 'Trace_Archive', 4), TV('drv_run', 'Trace_Run', 2)]
CHECKS['C24'] = [MC('MC_Summary', 'MC_Summary', 'MC_Summary_thorough'), MUT('MC_Summary', 'MC_Summary_mut'),
                 GEN('Gen_Summary', 'Gen_Summary', None, 'drv_summary', 'Trace_Summary'), TV('drv_summary', 'Trace_Summary', 4)]
CHECKS['C22'] = [MC('MC_Report', 'MC_Report', 'MC_Report_thorough'), MUT('MC_Report', 'MC_Report_mut'),
                 GEN('Gen_Report', 'Gen_Report', None, 'drv_report', 'Trace_Report'), TV('drv_report', 'Trace_Report', 4)]
CHECKS['C26'] = [MC('MC_Maps', 'MC_Maps', 'MC_Maps_thorough'), MUT('MC_Maps', 'MC_Maps_mut'),
                 GEN('Gen_Maps', 'Gen_Maps', None, 'drv_maps', 'Trace_Maps'), TV('drv_maps', 'Trace_Maps', 4)]

CHECKS['C27'] = [MC('MC_LogFiles', 'MC_LogFiles', 'MC_LogFiles_thorough'), MUT('MC_LogFiles', 'MC_LogFiles_mut'), MUT('MC_LogFiles', 'MC_LogFiles_mut2'),
                 MUT('MC_LogFiles', 'MC_LogFiles_mut3'), TV('drv_logs', 'Trace_LogFiles', 4)]
CHECKS['C28'] = [MC('MC_Frame', 'MC_Frame', 'MC_Frame_thorough'), MUT('MC_Frame', 'MC_Frame_mut'), MUT('MC_Frame', 'MC_Frame_mut2'),
                 MUT('MC_Frame', 'MC_Frame_mut3'), TV('drv_frame', 'Trace_Frame', 4)]

_rel = [MC('MC_Related', 'MC_Related', 'MC_Related_thorough'), MUT('MC_Related', 'MC_Related_mut'), MUT('MC_Related', 'MC_Related_mut2'),
        MUT('MC_Related', 'MC_Related_mut3'), MUT('MC_Related', 'MC_Related_mut4'), TV('drv_related', 'Trace_Related', 8)]
CHECKS['C29'] = _rel
CHECKS['C30'] = _rel
CHECKS['C31'] = [MC('MC_Certain', 'MC_Certain', 'MC_Certain_thorough'), MUT('MC_Certain', 'MC_Certain_mut'), MUT('MC_Certain', 'MC_Certain_mut2'),
                 MUT('MC_Certain', 'MC_Certain_mut3'), TV('drv_related', 'Trace_Related', 8)]

ASSUME = {'*': ['TLC, the TLA+ standard and community modules, and the recording drivers are correct',
                'bounds: the constants of the model configurations and the executions recorded in this run']}

TECH = {'*': 'TLA+ specification checked with TLC; TLC trace validation of the real code, replay of specification histories'}

NOTE = {
    '*': 'Trusted: TLC and its JSON modules, the recording driver. Bounded by the histories recorded (randomly from VERIF_SEED, plus those enumerated by the specification).',
    'C01': 'TLC proves on all histories up to 3 (thorough 4) operations that the specified field never loses or moves a result; every observed history of the real field, including all specification histories of that length (sampled in quick), agrees with the specification after every single call.',
}
NOTE['C02'] = 'TLC proves that the marks of the specified field are exactly the lattice nodes within the umbra whatever the growth history; the real marks are compared node by node in exact integer geometry (ties decided only where floating point is exact).'
NOTE['C03'] = 'TLC proves that the specified accumulation is the sum over registered realizations; the real weights are compared node by node after every call (weights are dyadic, so exact).'
NOTE['C04'] = 'TLC proves on every behaviour of the step control (any duration, any error estimates, faults, interrupts) that completed traces end exactly at the duration and always terminate; in real traces of flows whose exact law the specification knows, the elapsed time is read off every vertex.'
NOTE['C05'] = 'The specification holds the exact trajectory of each flow family as an integer law (polynomial shear, uniform, rotation, hyperbolic, radial); every vertex of every real trace is checked against it, and in the quartic flow the exact local error of each accepted step bounds it against the tolerance.'
NOTE['C06'] = 'Every evaluation index of real traces and capture zones is made to fail (exception, nan, inf), one run per index; the specification says which vertices must and may have been completed by then.'
NOTE['C07'] = 'KeyboardInterrupt and SystemExit are injected at evaluation indices of real traces, capture zones and whole runs, and at every line of the package that runs between the first evaluation and the last registration of a run; the specification requires the interrupt to come out and the field and the archives to be unchanged.'
NOTE['C08'] = 'Capture zones on real fields: equal angles, number, duration, step, tolerance of the particles, and the nodes receiving the weight compared node by node with the specification (vertices rounded to ticks, so nodes within 2 ticks of the umbra boundary may be either way).'
NOTE['C18'] = 'TLC proves on all lists of up to 3 (thorough 4) observations that exactly the near ones are dropped and order is kept; those lists and random ones (around buffer edges, several wells) run through the real filter_obs, decided in exact integer geometry.'
NOTE['C19'] = 'TLC proves that grouping is a partition, conserves information, leaves no two retained closer than 1 m and does not depend on positions in the list; real results are compared in integers (inverse variances are integers by choice of the standard deviations).'
NOTE['C13'] = 'On the lattice the law is integers and logarithms of integers, which TLC evaluates to 10^-6 and relates (discharge = minus central difference, superposition, order); every potential and discharge of the real Model, before and after its attributes were changed in place, is compared with it; arbitrary places are covered by superposition and by the law of one well along a ray.'
NOTE['C14'] = 'TLC proves that the specified potential is strictly increasing in the head with both forms agreeing at the change; real heads are checked to invert exactly the potentials of known heads, to follow 1 + d/2 around the change, to increase over 12 decades, and to be refused when dry.'
NOTE['C15'] = 'Real velocities times porosity and saturated thickness are compared with the integer law of the discharge at places of known head (unconfined, at the change, confined), also through the shortcut and at dry places.'
NOTE['C16'] = 'TLC proves (for a line through all small weighted data sets) that the solution of the normal equations is the unique weighted minimum; real fits on lattice designs, confined and unconfined heads mixed, several wells, are checked to satisfy the normal equations with the specified potentials and weights, the covariance to be the inverse of the normal matrix, exact data to be given back, refusals to change nothing.'
NOTE['C17'] = 'TLC proves on a heap of arrays and references that a model changes only through itself if it owns its coefficients, and refutes the variant that keeps references; all histories of 4 operations on two models (sampled in quick) and simulated ones of 14 operations on three models run on real Models, all coefficients compared after every operation.'
NOTE['C09'] = 'TLC proves on all histories of runs (any outcome of draws, particles, interrupts) that the specified field holds complete self-consistent realizations only; every realization of real runs is compared: one model state per realization, its properties in their supports, its tracks and nodes those of a fresh model in that state; thousands of realizations are counted against the laws of the draws, which TLC evaluates (bounds of 6.5 standard deviations).'
NOTE['C10'] = 'The coefficients of every real realization are whitened with the fit of a fresh model of the same properties; over thousands of realizations mean, variance, histogram and independence are held against the normal law by TLC (6.5 standard deviations), and every fit made in the run is compared with the fresh one.'
NOTE['C11'] = 'Real deterministic runs: properties, discharges and fit are the means by integer arithmetic, coefficients equal a fresh fit, field values zero or one, and the same configuration always gives the same field after reseeding and other runs.'
NOTE['C23'] = 'Generated data modules with every parameter different go through runme.main and oneka(); model states, particles, tracks, nodes, grid, drawn surface, archive and log file are compared with the configuration.'
NOTE['C25'] = 'Every number in the log of real runs is compared with the value used, rounded as it is written; one entry per realization, warnings exactly for the traces that end early; and removed, averaged and active observations in the log are compared with the specified filtering.'
NOTE['C12'] = 'All arguments of up to 4 members and all bounds on a small grid, enumerated by TLC with the specified verdict, go through the real functions in random scales and forms; histograms of thousands of real samples are held against the uniform and triangular laws evaluated by TLC (6.5 standard deviations), whose cells TLC proves to sum to one with the right mean and mode.'
NOTE['C20'] = 'Every kind of value of every parameter, well and observation entry (some 1200 configurations, in thorough also every pair of deviations), enumerated by TLC with the specified verdict, goes through the real entry point in several concrete forms.'
NOTE['C21'] = 'TLC proves for processes writing at once, cut off anywhere, that no archive of a run that ended is altered and that loading gives the complete run or an error; real dumps within a second, in parallel processes, cut off at a byte, and thousands of truncated and altered archives are held against it, as are whole runs.'
NOTE['C24'] = 'TLC proves on all columns of up to 4 records the relations between the statistics (variance = mean squared deviation, ordering, missing values); all tables of up to 3 records of two columns and random ones go through the real function, every written number is decided in exact integers, as is the table in the log of real runs.'
NOTE['C22'] = 'TLC proves on all fields of 4 nodes that the rows are the first entries of the table and areas those of the cells at least as probable; all those fields, built up by marking and registering on the real class, random ones and whole runs are reported by the real functions and compared in integers; ties of a probability with a threshold may fall either way except at 0.25 and 0.75, where floating point is exact.'
NOTE['C26'] = 'TLC proves on small rasters that the specified smoothing keeps bounds and symmetry and loses only at the edge; these rasters, random fields and the fields of whole runs are drawn by the real functions, and the surface, its places, the markers and the filled cells handed to matplotlib are compared in integers; maps of head and potential are compared with the model asked place by place, dry places included.'
NOTE['C27'] = 'TLC proves for runs that follow each other, overlap, fail or are interrupted that each log file is one run\'s, and refutes appending, lasting handlers and shared names; real runs through runme.main, one after another in a process and in parallel processes started at one instant, leave files that are compared record by record with what each run logged.'
NOTE['C28'] = 'TLC proves on a heap of objects that calls working on copies keep the frame, and refutes results sharing cells, sorting in place and keeping references; histories of calls of every kind on a store of real objects are recorded with the contents of all objects, settings and generators after every call, and validated against the frame of each call.'
NOTE['C29'] = 'TLC proves on small capture zones by an integer law that they follow every motion of the lattice, shift and reordering, and refutes four wrong laws; families of real runs of related configurations are compared node by node (nodes within 2 ticks of the umbra boundary of the first run may be either way), with the coefficients and the ends of the particles mapped by the specification.'
NOTE['C31'] = 'TLC proves for fields accumulated from small capture zones by an integer law that what all realizations capture holds the zone of the shortest way and what any captures lies in that of the longest, and refutes three wrong accumulations; real stochastic runs in which nothing, or only the porosity, is uncertain are compared node by node with real deterministic runs (up to 2 ticks at the umbra boundary).'
NOTE['C30'] = 'TLC proves on small capture zones by an integer law that they only grow with umbra, duration and number of particles; families of real runs are compared node by node (up to 2 ticks at the umbra boundary).'
