#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
PF = 'parcels/particlefile.py'; KE = 'parcels/kernel.py'; BP = 'parcels/particlesets/baseparticleset.py'
PS = 'parcels/particlesets/particlesetsoa.py'; CO = 'parcels/particlesets/collectionsoa.py'; CV = 'parcels/scripts/convert_npydir_to_netcdf.py'
FI = 'parcels/field.py'; FS = 'parcels/fieldset.py'; GR = 'parcels/grid.py'; FB = 'parcels/fieldfilebuffer.py'
CG = 'parcels/compilation/codegenerator.py'; CC = 'parcels/compilation/codecompiler.py'; RN = 'parcels/rng.py'; PA = 'parcels/particle.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Trajectory output is complete, exact and free of duplicates',
     'For any history of runs of a particle set with an output file, the exported file holds for every particle exactly one record per output instant at which it was released and alive, with exactly the values it had at that instant, plus exactly one record of its final state if it was deleted by a kernel or recovery during a run (only the latter when output on deletion was requested). No record is lost, repeated, attributed to another particle or out of order in simulated time, and write-once variables hold the value the particle had when it was first written.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of runs (forward or backward, delayed and repeated releases, particles added between runs, deletions by kernel or recovery, any output interval, any mix of write-each/once/never variables, explicit extra writes) in which all intervals are multiples of the time step',
     'Tests write a handful of fixed histories (one or two runs, one deletion pattern); losses and misattributions need combinations such as deletion between two output times of a late-released particle or repeated writes at one time.',
     [PF, CO, BP, KE],
     [('write-time selection and last-written bookkeeping', CO + ' toDictionary'), ('per-output temporary files and id/obs matrix assembly', PF + ' dump_dict_to_npy/read_from_npy/export'), ('output events of the run loop, write of deleted particles', BP + ' execute; ' + KE + ' remove_deleted_soa')],
     ['the exported NetCDF file'])
prop('C02', 'Output already written survives a crash of the process',
     'If the process is killed at any point while running, writing output or closing the output file, then the output can be recovered afterwards - from the temporary output directory with the conversion tool, or from the finished output file - with every record of every output that had completed before the kill, unaltered. The output in progress at the kill is recovered completely or not at all, and nothing that was never written appears.',
     ['crash_points', 'histories'],
     'every point between and inside the file operations of writing, exporting and closing (with any prefix of the buffered data reaching the disk), for any preceding history, on one or several processors',
     'No test kills a process; the crash windows lie inside single file operations and depend on what was buffered.',
     [PF, CV],
     [('temporary files and the index file describing them', PF + ' write/dump_dict_to_npy/dump_psetinfo_to_npy'), ('offline conversion', CV), ('order of export and deletion of temporary files', PF + ' close')],
     ['temporary output directory after the kill', 'NetCDF file produced by the conversion tool'])
prop('C03', 'Failed output is reported and can be retried without loss',
     'If writing trajectory output fails because of an I/O error or a full disk, the error reaches the caller and the output written before stays intact and recoverable. Once the fault is gone, repeating the failed output or continuing the run produces the same output file as a run in which the fault never happened: nothing missing, nothing twice.',
     ['fault_sequences', 'histories'],
     'every file operation of writing output failing once or several times with disk-full, I/O error or partial write, at any output of any history, followed by a retry or a continued run',
     'Tests never inject I/O errors.',
     [PF, CO],
     [('bookkeeping of what has been written', CO + ' toDictionary; ' + PF + ' write'), ('file naming and index file', PF + ' dump_dict_to_npy/dump_psetinfo_to_npy')],
     ['exceptions of the write/execute calls', 'exported NetCDF file'])
prop('C04', 'Exports are consistent, repeatable and never destroy data',
     'Converting or exporting the output at any moment - from another process at any interleaving with a run that is writing, several times, or again after an attempt that failed - gives a file with every record completed before it began and nothing that was never written. It never changes what the run itself finally produces, and temporary data are deleted only after a complete output file exists.',
     ['schedules', 'fault_sequences', 'histories'],
     'all interleavings of the file operations of a writing run and of conversions, and all faults (failed create, read, write, close, delete) during export or close followed by a retry',
     'Tests export once, after the run, without faults or concurrency.',
     [PF, CV],
     [('export from the temporary files', PF + ' export/read_from_npy/open_netcdf_file'), ('deletion after export', PF + ' close/delete_tempwritedir'), ('conversion tool', CV)],
     ['NetCDF files', 'existence of the temporary directory'])
prop('C05', 'Trajectories do not depend on how a run is interrupted',
     'When all intervals are multiples of the time step, the particle states at the end of a run are bitwise identical however the run is cut up: split into any number of consecutive runs, with or without an output file, output interval, callbacks and callback interval, extra output calls, or exports in between. This holds forwards and backwards in time and in both execution modes.',
     ['schedules', 'histories', 'configurations'],
     'every partition of a total run into run/output/callback/input events',
     'Tests compare a few fixed splits on fixed fields.',
     [BP, KE, CG],
     [('event loop of a run', BP + ' execute'), ('per-particle time loop and step clipping', KE + ' execute_python; ' + CG + ' LoopGenerator')],
     ['particle variables after the run'])
prop('C06', 'A failing step is rolled back, recovered once and isolated',
     'When a step of a particle fails, the recovery function registered for that error is called exactly once for that failure, with every variable of the particle as it was before the step, and the particle then continues from that time or is deleted as the recovery decides; an error with no registered recovery raises. Every other particle, and the particle itself after recovery, performs each of its time steps exactly once, and the run ends after finitely many recoveries.',
     ['fault_sequences', 'histories', 'schedules'],
     'every pattern of failures (kind, particle, step, repetition, several particles in one interval, failures right before/after outputs and deletions) and every recovery behaviour (repair, move, delete, fail again)',
     'Tests inject one or two fixed failures and look at final positions only.',
     [KE, CG, 'parcels/tools/statuscodes.py'],
     [('backup/restore of particle variables', KE + ' execute_python; ' + CG + ' set/get_particle_backup'), ('recovery loop', KE + ' execute')],
     ['recovery calls', 'particle variables', 'exceptions'])
prop('C07', 'Compiled and interpreted execution agree',
     'For the same particles, fields, kernel and run history, the compiled (JIT) mode and the interpreted (Scipy) mode perform the same steps, raise the same errors to the same recovery functions, delete the same particles, write the same output records and end with the same particle states (up to floating-point rounding).',
     ['programs', 'histories', 'inputs'],
     'all run histories (splits, delayed/repeated release, deletion, error and recovery, out-of-bounds and time extrapolation, deferred fields) executed in both modes',
     'Tests are parametrised over both modes but compare each with fixed expectations on short, fault-free histories.',
     [KE, CG, 'parcels/include/parcels.h', 'parcels/include/index_search.h'],
     [('interpreted loop', KE + ' execute_python'), ('generated loop and C interpolation', CG + ' LoopGenerator; parcels/include')],
     ['particle variables', 'output files', 'recovery calls'])
prop('C08', 'Repeated releases happen at the right times with the right values',
     'A particle set with a repeat interval releases a full fresh copy of its initial particles - initial positions, depth and variable values, new unique ids - at the first start time plus every positive multiple of the interval reached by the runs (forward or backward), each exactly once. This does not depend on how the simulation is split into runs, on the movement or deletion of earlier particles, or on outputs.',
     ['histories', 'schedules'],
     'every split into runs, movement, deletion, output and callback pattern, both time directions and both execution modes',
     'Tests count particles for a few fixed repeat intervals; values of later releases and splits at release times are not covered.',
     [BP, PS, CO],
     [('release events of the run loop', BP + ' execute'), ('stored initial values', PS + ' __init__ (repeatlon ...)'), ('id allocation', CO + ' __init__; ' + PA + ' setLastID')],
     ['particle set after each run', 'output file'])
prop('C09', 'Particle sets conserve particles and keep identities',
     'Under any sequence of additions, removals, deletions, lookups and runs, a particle set contains exactly the particles added and not removed, each with its own unique id and with all its variables travelling together. A lookup, iteration, removal or deletion by id or by index affects or returns exactly the particles asked for.',
     ['histories'],
     'every sequence of add (in any id order), remove by index/list/mask/id, mark-deleted, lookup, iterate and run operations',
     'Tests perform one or two operations on freshly built, id-sorted sets.',
     [CO, PS, 'parcels/particlesets/iterators.py'],
     [('sorted-flag and binary search', CO + ' _sorted, get/remove/delete_*_by_ID(s)'), ('array surgery on add/remove', CO + ' add_same/remove_*')],
     ['particle set contents through the public accessors'])
prop('C10', 'Deferred field loading gives the same results as full loading',
     'For any sequence of accesses in simulated time - forward, backward, jumps, repeated runs, delayed and repeated releases, several particle sets sharing the fields, fields on different time axes, periodic or extrapolated time - runs on fields loaded lazily in time (and in spatial chunks) give the same particle states and sampled values as runs on the same fields held fully in memory. Data of the wrong time are never used.',
     ['schedules', 'histories', 'configurations'],
     'every sequence of runs and samples over fieldsets with any snapshot times, file layout (one or several files), and chunking',
     'Tests run a few monotone histories on one or two data sets.',
     [FS, GR, FI, FB],
     [('three-level time window', GR + ' computeTimeChunk'), ('loading and shifting of snapshots', FS + ' computeTimeChunk'), ('file buffers and chunking', FB + '; ' + FI + ' chunk_data')],
     ['sampled values', 'particle variables'])
prop('C11', 'A parallel run equals the serial run for any scheduling',
     'For any number of processors, any assignment of particles to them and any relative speed of the processors, a parallel run terminates without deadlock, every particle belongs to exactly one processor with an id unique over all processors (including particles released repeatedly or added later), and the union of particles and the exported output equal those of a serial run of the same particles (up to ids of later releases).',
     ['schedules', 'configurations', 'histories'],
     'all interleavings of the processors at communication and file operations, all rank counts and partitions, with repeated release, deletion, output and export',
     'The test suite has no multi-processor run that is executed here; a real MPI run samples one schedule.',
     [CO, PS, PF, KE, BP],
     [('partition and id allocation', CO + ' __init__ (KMeans, bcast, allreduce)'), ('per-rank temporary directories, barrier and export on rank 0', PF), ('kernel file names', KE)],
     ['particles on every rank', 'exported NetCDF file', 'progress of all ranks'])
prop('C12', 'Restarting from an output file continues the run',
     'Stopping a run at an output time and restarting from the output file - once or repeatedly, forward or backward, from any written time - gives the particles that were alive at that time, with their ids, positions, depths, times and written variables, and continuing gives the same trajectories as the run that was not stopped. Particles created after a restart get ids not used before.',
     ['histories', 'crash_points'],
     'every stop point (clean stop, or recovery of the output after a kill), restart time selection and continuation',
     'Tests restart once from one fixed file.',
     [PS, PF, CO],
     [('reading the file at the restart time', PS + ' from_particlefile'), ('id preservation', CO + ' __init__; ' + PA + ' setLastID')],
     ['particle set after restart and after continuation'])
prop('C13', 'Seeded random runs are exactly reproducible',
     'After seeding the random generator, the sequence of random numbers seen by kernels and by direct calls is a function of the seed and of the order of draws only: two runs of the same program with the same seed give bitwise identical results. Compiling, recompiling or discarding kernels, creating other particle sets or fields, writing output or reading the wall clock in between does not alter it.',
     ['schedules', 'histories'],
     'all interleavings of seeding, drawing, kernel compilation and disposal, runs and output',
     'Tests check one seed followed by one kind of draw.',
     [RN, 'parcels/include/random.h', CG, KE],
     [('generator state in the compiled library', RN + '; parcels/include/random.h'), ('translation of random calls in kernels', CG)],
     ['drawn values', 'particle variables'])
prop('C14', 'Kernels always run the code they were built from',
     'Whatever the wall clock shows (frozen, stepped back, equal in several processes) and however building, merging, running and discarding of kernels are interleaved, a run executes exactly the kernel it was given. If compilation fails or is interrupted, the error is reported, the particles are unchanged, and the same call succeeds once the cause is gone; no compiled files remain once a kernel is discarded.',
     ['schedules', 'fault_sequences', 'histories'],
     'all interleavings of kernel creation/execution/deletion by one or several users of one cache directory, clock behaviours, and faults of the compiler or of the file operations around it',
     'Tests run with a healthy compiler and an advancing clock, one kernel at a time.',
     [KE, BP, CC],
     [('cache file naming', KE + ' _cache_key, __init__, remove_lib'), ('compile/load/cleanup', KE + ' compile/load_lib; ' + CC), ('kernel reuse', BP + ' execute')],
     ['particle variables', 'files in the cache directory', 'exceptions'])
prop('C15', 'The wall clock never influences results',
     'Particle states and output files are a function of the inputs only: slow runs, stalls, clock jumps forwards or backwards and a frozen clock change neither results nor success of a run, with or without the progress display that appears in slow runs.',
     ['schedules', 'fault_sequences'],
     'all behaviours of the wall clock during a run (rates, stalls, jumps, frozen) combined with output, deletion, deferred loading and progress settings',
     'Tests finish within the ten seconds after which the slow-run path is taken and run on a steady clock.',
     [BP, KE],
     [('slow-run progress display', BP + ' execute'), ('clock in cache file names', KE + ' _cache_key')],
     ['particle variables', 'output file'])
prop('C16', 'Failed field reads surface and never yield wrong data',
     'If opening or reading a field data file fails at any point (missing, unreadable, I/O error, failing half way), the call raises instead of continuing with missing, stale or undecoded data. Once the fault is gone, repeating the same call gives exactly the results of an undisturbed run.',
     ['fault_sequences', 'histories'],
     'every open and every data read of every lazily loaded field failing once or several times, at any point of any run history',
     'Tests never inject read errors.',
     [FB, FI, FS, GR],
     [('opening with fallback decoding', FB + ' __enter__'), ('advance of the time window before loading', GR + ' computeTimeChunk; ' + FS + ' computeTimeChunk')],
     ['exceptions', 'sampled values and particle variables after the retry'])
prop('C17', 'Callbacks fire exactly at their times and see a settled state',
     'Callbacks given to a run are called once each, in order, at every multiple of the callback interval after the start up to and including the end, when every released particle is exactly at that time. When no interval is given they follow the output or release interval.',
     ['schedules', 'configurations'],
     'every combination of callback, output, release and input intervals, directions and run splits',
     'Tests check one interval and only a counter.',
     [BP],
     [('callback events of the run loop', BP + ' execute')],
     ['calls of the callbacks, particle times seen by them'])
prop('C18', 'Every particle performs each of its time steps exactly once',
     'During any run each particle executes the kernel exactly once for every time step between its release time and the end of the run (or its deletion), at contiguous times and in order, and never before its release. After the run every released, surviving particle is exactly at the end time, and particles not yet released are untouched.',
     ['schedules', 'histories', 'configurations'],
     'every history of runs, delayed and repeated releases, deletions, output/callback/input interruptions, both directions and both execution modes',
     'Tests check the final time or a final count in a few configurations.',
     [BP, KE, CG, PS],
     [('per-particle time loop', KE + ' execute_python; ' + CG + ' LoopGenerator'), ('start time and event loop', BP + ' execute; ' + PS + ' _impute_release_times')],
     ['kernel step counters and time stamps recorded in particle variables'])
prop('C19', 'Particle sets in one process do not influence each other',
     'Creating, running, writing and discarding several particle sets in any interleaving - same or different particle classes, precisions, execution modes, fieldsets shared or not - gives each of them the same states and output as when it is alone in the process, and ids are never shared between live sets.',
     ['schedules', 'histories', 'configurations'],
     'all interleavings of the operations of two or more particle sets',
     'Tests use one set at a time, or several in a fixed order with the same settings.',
     [CO, PA, PS, PF],
     [('class-level id counter and coordinate precision', PA + ' lastID, set_lonlatdepth_dtype'), ('shared deferred grids', GR)],
     ['particle variables, ids and output files of each set'])
prop('C20', 'Field interpolation reproduces the discretised data',
     'Sampling a field at any point and time inside its grid returns the value defined by its interpolation scheme and neighbouring grid values, on every grid type.',
     ['inputs', 'configurations'], 'all grids, points and schemes',
     'Tests sample few points per scheme.', [FI, 'parcels/include/parcels.h'], [('index search and interpolation', FI)])
prop('C21', 'Unit and calendar conversions are exact and invertible',
     'Converting times between calendars and seconds, and velocities between metres and degrees, is consistent and invertible for every supported calendar and latitude.',
     ['inputs'], 'all dates, calendars, latitudes', 'Tests use a few values.', ['parcels/tools/converters.py'], [('converters', 'parcels/tools/converters.py')])
prop('C22', 'Built-in integration schemes converge at their stated order',
     'Each built-in advection and diffusion scheme approximates the continuous dynamics with its stated order of accuracy on smooth fields.',
     ['inputs', 'programs'], 'all smooth fields and step sizes', 'Tests check tolerance on fixed flows.', ['parcels/kernels/advection.py', 'parcels/kernels/advectiondiffusion.py'], [('kernels', 'parcels/kernels/')])
prop('C23', 'The kernel translator preserves the meaning of every accepted kernel',
     'Every kernel function accepted for compilation computes the same as its Python source for all particle values, and unsupported constructs are rejected.',
     ['programs'], 'all kernel functions in the supported subset', 'Tests compile a fixed list of snippets.', [CG], [('AST translation', CG)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
