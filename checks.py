"""Which harness programs decide which property."""


def part(source, flavour='san', extra=(), nshards=8):
    return dict(source=source, flavour=flavour, extra=list(extra), nshards=nshards)


CHECKS = {
    'C01': dict(parts=[part('c01_maps.cpp')]),
}
RULES = {
    'C01': 'a case is one random history of updates/resets/reads on one map kind; distinct_nontrivial counts '
           'distinct (map kind, size, origin, number of written cells) states reached by a write',
}
TECH = {
    '*': 'runtime monitoring under ASan+UBSan: generated histories/inputs, online reference-model monitor',
}
NOTES = {
    '*': 'Held on every execution generated from VERIF_SEED (counts in the evidence file); trusts the independent '
         'reference model in the harness, g++ and its sanitizers. Says nothing about inputs not generated.',
}
# cheap checks run more cases of each family (quick tier)
DEEPER = {'C02': 5, 'C04': 6, 'C05': 10, 'C06': 6, 'C07': 3, 'C08': 3, 'C09': 6, 'C10': 3, 'C12': 2, 'C17': 5,
          'C21': 10, 'C22': 3, 'C23': 2, 'C24': 4, 'C26': 6, 'C27': 3}
NA = {}
CHECKS['C02'] = dict(parts=[part('c02_copies.cpp')])
RULES['C02'] = ('a case is one random tree of map copies (or one cell and its clone) with interleaved writes; '
                'distinct_nontrivial counts distinct operation-sequence prefixes with the number of live copies')
CHECKS['C03'] = dict(parts=[part('c03_serial.cpp')])
RULES['C03'] = ('a case is one map (or cell, or value stream) with a random history, saved and restored into a dirty '
                'object, or a damaged stream loaded; distinct_nontrivial counts distinct (cell model, size, byte count / value)')
CHECKS['C04'] = dict(parts=[part('c04_cells.cpp')])
RULES['C04'] = ('a case is one observation history of one cell model (tame: compared with the closed formula; hostile: '
                'range/direction/no-op monitors); distinct_nontrivial counts distinct (model, resulting occupancy)')
CHECKS['C05'] = dict(parts=[part('c05_tbm.cpp')])
RULES['C05'] = ('a case is one pair/triple/chain of belief functions or one observation; distinct_nontrivial counts '
                'distinct mass assignments')
CHECKS['C06'] = dict(parts=[part('c06_traversal.cpp')])
RULES['C06'] = ('a case is one segment on one grid (random, aligned, nearly aligned, long, within a cell) or one discrete '
                'line; distinct_nontrivial counts distinct segments')
CHECKS['C07'] = dict(parts=[part('c07_scan_adder.cpp')])
RULES['C07'] = ('a case is one map receiving up to three random scans (or one axis-aligned beam) with every update '
                'recorded and matched against the per-beam prediction; distinct_nontrivial counts distinct beam ends')
CHECKS['C08'] = dict(parts=[part('c08_area.cpp')])
RULES['C08'] = ('a case is one beam and one square cell (random, on the lattice of eighths of the cell, or with its 15 '
                'transformed images); distinct_nontrivial counts distinct (beam, cell, flag)')
CHECKS['C09'] = dict(parts=[part('c09_spe.cpp')])
RULES['C09'] = ('a case is one map, estimator configuration and up to three random scans evaluated at several poses; '
                'distinct_nontrivial counts distinct (probability, pose)')
CHECKS['C10'] = dict(parts=[part('c10_oope.cpp')])
RULES['C10'] = ('a case is a sequence of area queries under all policies interleaved with updates of two maps; '
                'distinct_nontrivial counts distinct (value, area, policy)')
CHECKS['C11'] = dict(parts=[part('c11_search.cpp', extra=['-DVF_PART=11'])])
RULES['C11'] = ('a case is one matcher object matching up to three scans in a generated scene with every evaluation '
                'and notification recorded; distinct_nontrivial counts distinct (result pose, score, matcher)')
CHECKS['C12'] = dict(parts=[part('c11_search.cpp', extra=['-DVF_PART=12'])])
RULES['C12'] = ('a case is one brute-force matcher with a random window used for several matchings; '
                'distinct_nontrivial counts distinct (initial pose, window, score)')
CHECKS['C13'] = dict(parts=[part('c11_search.cpp', extra=['-DVF_PART=13'])])
RULES['C13'] = ('a case is one Monte-Carlo pair with equal seeds or one hill-climbing matcher, every tested pose recorded; '
                'distinct_nontrivial counts distinct (score, correction)')
CHECKS['C15'] = dict(parts=[part('c15_multires.cpp')])
RULES['C15'] = ('a case is one update/reset history of one multi-resolution map (back map kind x cell model x impact kind) '
                'with all levels compared with the recorded finest history; distinct_nontrivial counts distinct (kind, model, '
                'size, cells written)')
CHECKS['C14'] = dict(parts=[part('c14_m3rsm.cpp')])
RULES['C14'] = ('a case is one multi-resolution matcher on one fully known map (compared with exhaustive search over its finest '
                'lattice) or on a partially known one (any area policy); distinct_nontrivial counts distinct (pose, score, correction)')
CHECKS['C16'] = dict(parts=[part('c16_step.cpp')])
RULES['C16'] = ('a case is one SLAM with scripted matcher, recording integration and a changing observer population, or one '
                'fully configured SLAM replayed and re-done part by part; distinct_nontrivial counts distinct resulting poses')
CHECKS['C17'] = dict(parts=[part('c17_pf.cpp')])
RULES['C17'] = ('a case is one weight/normalise/resample history of one population, or 2000 resamplings of one weighted '
                'population whose copies are counted; distinct_nontrivial counts distinct (size, effective size, survivors)')
CHECKS['C18'] = dict(parts=[part('c18_gmapping.cpp')])
RULES['C18'] = ('a case is one GMapping population whose every matching and integration is observed through a scripted matcher and '
                'a recording integrator, or one fully real population/particle fed hostile scans; distinct_nontrivial counts '
                'distinct reported poses/weights')
CHECKS['C19'] = dict(parts=[part('c19_config.cpp')])
RULES['C19'] = ('a case is one tree of property files read back against a model, one random configuration whose components are compared '
                'with directly built ones, one unknown type, or one shipped file; distinct_nontrivial counts distinct key/value pairs and results')
CHECKS['C20'] = dict(parts=[part('c20_dump.cpp')])
RULES['C20'] = ('a case is one map history with several dumps, each image parsed with an independent reader and compared pixel by pixel; '
                'distinct_nontrivial counts distinct (map geometry, set of occupancies)')
CHECKS['C21'] = dict(parts=[part('c21_scans.cpp')])
RULES['C21'] = ('a case is one scan written and read back (and four damaged copies of its text), a few points converted and moved, or one '
                'cached sector looked up bearing by bearing; distinct_nontrivial counts distinct points/sectors')
CHECKS['C22'] = dict(parts=[part('c22_hist.cpp')])
RULES['C22'] = ('a case is one to three scans histogrammed with one object and compared with exact directions, or three scans given repeatedly '
                'and in another order to two drift detectors; distinct_nontrivial counts distinct histograms/verdicts')
CHECKS['C23'] = dict(parts=[part('c23_geometry.cpp')])
RULES['C23'] = ('a case is a few points located on one grid or one multi-resolution map, a pair of rectangles, a beam and a rectangle, or one '
                'rasterised rectangle, each against direct arithmetic; distinct_nontrivial counts distinct cells/rectangles/beams')
import os as _os
STUBS = ['-I' + _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'harness', 'ros_stubs')]
CHECKS['C26'] = dict(parts=[part('c26_messages.cpp', extra=STUBS)])
RULES['C26'] = ('a case is one laser message converted, one history of messages with odometry, one sequence of messages '
                'dispatched to appearing/vanishing observers, or one generated bag read to its end; distinct_nontrivial '
                'counts distinct messages/odometry poses/bags')
CHECKS['C27'] = dict(parts=[part('c27_publish.cpp', extra=STUBS)])
RULES['C27'] = ('a case is one map history with interval-limited grid messages, one trajectory file, one series of robot frames, one run of '
                'the path node or of the bag adapter; distinct_nontrivial counts distinct (time, state) published')
CHECKS['C28'] = dict(parts=[part('c28_correction.cpp', extra=STUBS),
                            part('c28_correction.cpp', flavour='tsan', extra=STUBS + ['-DVF_ASYNC']),
                            part('c28_correction.cpp', extra=STUBS + ['-DVF_ASYNC'])])
RULES['C28'] = ('a case is one series of scans and pose updates (synchronous), or one life of an asynchronous publisher with random delays '
                'and endings; distinct_nontrivial counts distinct corrections and distinct observed interleavings of publications')
TECH['C28'] = 'ThreadSanitizer + ASan/UBSan on the real publisher with stand-in ROS, offline check of the journal of publications'
CHECKS['C25'] = dict(parts=[part('c25_synth.cpp')])
RULES['C25'] = ('a case is one map and scanner with every beam compared with an independent ray caster, up to three pasted rasters, or one '
                'primitive, compared cell by cell; distinct_nontrivial counts distinct readings and rasters')
CHECKS['C24'] = dict(parts=[part('c24_slam.cpp')])
RULES['C24'] = ('a case is one complete SLAM run in a random configuration with ordinary and hostile scans; distinct_nontrivial counts distinct poses reached')
CHECKS['C29'] = dict(parts=[part('c29_tools.cpp', extra=STUBS)])
RULES['C29'] = ('a case is one tool invocation in a child process, its report compared with the components run by hand on the same input, or a refused one; '
                'distinct_nontrivial counts distinct results and bad inputs')
CHECKS['C30'] = dict(parts=[part('c30_repro.cpp'), part('c30_repro.cpp', flavour='fast', extra=['-DVF_PERTURB', '-ftrivial-auto-var-init=uninitialized']),
                            part('c30_repro.cpp', flavour='tsan', extra=['-DVF_THREADS'])])
RULES['C30'] = ('a case is one or more complete SLAM runs whose poses and final maps are compared bit by bit with the same run executed alone; '
                'distinct_nontrivial counts distinct poses reached')
TECH['C30'] = 'differential runtime monitoring: repeated, interleaved, watched and threaded runs under ASan+UBSan, TSan and varied fresh-memory contents'
CHECKS['C31'] = dict(parts=[part('c31_accuracy.cpp', flavour='fast')])
RULES['C31'] = ('a case is one run of a configured SLAM through a generated room, compared with the true path and walls; distinct_nontrivial counts distinct error pairs')
CHECKS['C32'] = dict(parts=[part('c32_nodes.cpp', extra=STUBS)])
RULES['C32'] = ('a case is one whole run of a node program on generated messages, every publication compared with the equally configured SLAM '
                'fed by hand, or one set of parameters read back; distinct_nontrivial counts distinct poses published and values read')
CHECKS['C33'] = dict(parts=[part('c33_random.cpp')])
RULES['C33'] = ('a case is one random pose variable, one Monte-Carlo matcher with scripted verdicts or one GMapping population standing still, thousands of draws of which are '
                'compared with the configured distribution (mean, deviation, shape, serial and mutual correlation); distinct_nontrivial counts distinct draws')
CHECKS['C34'] = dict(parts=[part('c34_memory.cpp', flavour='fast')])
RULES['C34'] = ('a case is one life of a SLAM or map with every allocation counted, one repeated round trip or matching whose memory is read after each round, or one tiled '
                'map compared with its own full size; distinct_nontrivial counts distinct configurations and sizes')
TECH['C34'] = 'runtime monitoring: every allocation of the real code counted by replaced allocation functions; conservation and growth monitors'
