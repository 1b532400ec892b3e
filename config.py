"""Which harness builds each check runs, and how many cases. Bounded by case counts, never by seconds."""

ASSUME = ['the verdict covers the executions that were run, nothing more',
          'the reference models in /verif/harness/ref.hpp are written from the documentation and interface comments',
          'gcc 13, clang 18, their sanitizer run-times and Eigen 3.4 are trusted']


def grid(src, builds, quick, thorough, defs=()):
    """builds: list of (inst, variant); the cases of 'san' builds are divided by 8"""
    def f(tier):
        n = quick if tier == 'quick' else thorough
        b = builds
        return [(src, i, v, list(defs), max(1, n // 8) if v in ('san', 'msan', 'tsan') else n) for i, v in b]
    return f


CHECKS = {}
RULES = {}

STD12 = [('d12', 'rel'), ('f5', 'rel')]
STD = [('d4', 'san'), ('f4', 'san'), ('d6', 'san'), ('d4', 'rel'), ('f6', 'rel'), ('d3', 'rel'), ('d8', 'rel')]


def add(prop, jobs, rule, **kw):
    CHECKS[prop] = dict(jobs=jobs, **kw)
    RULES[prop] = rule


add('C01', grid('c01.cpp', STD + STD12, 48000, 1500000),
    'random valid vehicle (mass 0.02..60 kg, full inertia, tilted/unequal rotors, drag, aero moment, any gravity), random state and '
    'command, 1-12 chained steps up to 10 ms, through 6 construction paths and the simulator; every field of the state is compared '
    'with the Newton-Euler reference. Distinct: hash of vehicle and resulting state; every compared step counts.',
    require=['tilted rotors', 'external force', 'command outside limits', 'vehicle changed in flight'])
add('C02', grid('c02.cpp', STD, 12000, 300000),
    'step lengths around, at and far above 10 ms (multiples in floating point, just above, up to 60 s), chains of 1-4 steps; '
    'observed displacement, velocity change, rotation and rotor speed are compared with the analytic motion, with short steps of the '
    'same code, and non-positive steps must throw and leave no trace. Distinct: hash of span and outcome.',
    require=['very short steps', 'uniform motion', 'constant force', r'free fall \(simulator\)', 'rotor response', 'rejected step', 'dt 10-20ms', 'dt>1s'])
PIDB = [('d3', 'san'), ('f4', 'san'), ('d1', 'san'), ('d3', 'rel'), ('f4', 'rel'), ('d1', 'rel'), ('d6', 'rel')]
add('C11', grid('c11.cpp', PIDB, 60000, 1200000),
    'random gains, filter factors, anti-windup limits, options; error histories of 2-400 calls (constant, waves around zero and offset, '
    'jumps, square waves, zeros), rate given or derived, with resets, single setters and whole parameter sets changed in the middle; '
    'every contribution, output and reported error is compared with the textbook law. Distinct: hash of the output history.',
    require=['accumulator at its limit', 'saturated accumulator restarted', 'reset in the middle', 'parameters changed in the middle', 'rate given', 'rate derived', 'scalar class',
             'anti-windup changed in the middle', 'very short call', 'very long call'])
add('C12', grid('c12.cpp', PIDB, 80000, 1500000),
    'random limits (both sides of zero, one-sided, touching zero, inverted or equal on one axis, all zero), set through setters and '
    'parameter sets in the middle of random histories, per-axis and proportional; outputs judged against an unlimited twin. '
    'Distinct: hash of the output history.',
    require=['inverted limits', 'equal limits', 'zero limits', 'one limit vector zero', 'proportional limiting scaled', 'per-axis limiting clipped', 'inside the limits', 'limiting off', 'scalar class',
             'other parameters changed', 'same limits again'])
add('C13', grid('c13.cpp', [('d3', 'san'), ('f4', 'san'), ('d3', 'rel'), ('f4', 'rel'), ('d2', 'rel'), ('d6', 'rel')], 32000, 600000),
    'the same random error history, gains, options, resets and changes are applied to a vector controller, to a permuted one, to one whose '
    'other axes see other errors, and per axis to a one-dimensional vector controller and to the scalar class. Distinct: hash of outputs.',
    require=['reset', 'parameter change', 'limit change', 'permutation', 'other axes perturbed', 'axis against scalar'])
add('C10', grid('c10.cpp', STD, 20000, 500000),
    'random vehicles, tunings and allocations; 2-40 armed updates with mode, reference, parameter and state changes and resets in between; '
    'after each update the rotor command and every readable intermediate command is compared with the reference cascade, the result with a '
    'twin whose foreign references differ and with a direct call of the cascade. Distinct: hash of the command history.',
    require=['HOVER', 'MOTOR_W', 'ACRO', 'TRAJECTORY', 'VELOCITY', 'POSITION', 'yaw-rate mode', 'thrust on', 'thrust cut', 'parameters updated in flight', 'cascade reset', 'controllers used alone', 'cascade called stage by stage'])
add('C03', grid('c03.cpp', STD + STD12, 48000, 1200000),
    'random rotors with individual limits (bidirectional, equal limits), time constants 0.1 ms - 1 s, commands inside, at, beyond the limits, '
    'huge and infinite; steps 10 us - 0.5 s; direct and through the simulator in every mode; twins whose other rotors differ. '
    'Distinct: hash of the rotor speeds after a step.',
    require=['infinite command', 'command outside limits', 'first-order response', 'first-order response in the simulator', 'long response', 'step longer than the time constant', 'independence twin', 'limits changed in flight', 'start outside the limits', 'response from outside the limits',
             'simulator ACRO', 'simulator POSITION', 'simulator MOTOR_W'])
add('C04', grid('c04.cpp', STD, 24000, 500000),
    'violent noisy closed-loop and open-loop runs up to 4000 steps with mode, floor and reference changes, observing both orientations after '
    'every tick; constant-rate rotations of a torque-free vehicle, of the odometry and of the quaternion helpers against the exact rotation. '
    'Distinct: hash of orientation or rate.',
    require=['vehicle orientation observed', 'odometry orientation observed', 'finite step', 'constant rate, vehicle', 'constant rate, odometry', 'principal axis', 'slow rotation', 'fast rotation'])
add('C05', grid('c05.cpp', STD, 12000, 300000),
    'noisy steps of random vehicles with force and moment intensity separately zero or random, 0.2-10 ms and long steps; random part isolated '
    'by the deterministic reference, 6.5 sigma tests on mean, variance, axis, lag and force-moment correlation; noise-free steps compared '
    'across seeds. Distinct: hash of the random force.',
    require=['noisy step', 'zero intensity', 'noise disabled', 'statistics judged', 'accumulated statistics judged', 'accumulated over a long step', 'intensity changed in flight'])

add('C06', lambda tier: grid('c06.cpp', STD, 4000, 200000)(tier) + grid('c06.cpp', [('d4', 'tsan'), ('f6', 'tsan')], 1600, 60000)(tier),
    'random simulators driven by the same random call script: twins with other simulators created, run and destroyed in between, copies '
    '(constructed, assigned, moved, in containers, part by part) made in mid-run, different seeds, and 2-6 simulators running at once in '
    'threads, against their own sequential run; bit-for-bit comparison of every observable. Distinct: hash of all observables.',
    require=['twin run', 'copy copied', 'copy assigned', 'copy stored in a container', 'copied parts', 'different seeds', 'concurrent run', 'copied PID'])

add('C07', grid('c07.cpp', STD, 24000, 600000),
    'random noisy vehicles just above, at, below or falling onto a floor of any height, in all modes, with floor switched on, off and moved, '
    'modes and references changed; each dynamics update is predicted with a copy of the dynamics that knows no floor (with and without '
    'noise), then judged as contact or free step, including IMU and odometry; take-off runs and a twin with an unreachable floor. '
    'Distinct: hash of height after a step.',
    require=['contact', 'contact again', 'free step after a contact', 'step above the floor', 'step without floor', 'started below the floor', 'take-off', 'floor far below', 'floor switched'])

add('C08', grid('c08.cpp', STD, 24000, 600000),
    'random histories of arming, disarming, mode and reference changes, controller updates and motion; a twin receives the same calls except '
    'the controller updates made while disarmed and must stay identical in every observable; control history compared before and after '
    'arming, disarming and disarmed updates; spin-down runs. Distinct: hash of actuation along the history.',
    require=['armed', 'disarmed', 'disarmed update', 'armed after disarmed updates', 'spun down', 'disarmed in POSITION', 'disarmed in ACRO', 'disarmed in MOTOR_W', 'disarmed in TRAJECTORY'])
add('C09', grid('c09.cpp', STD, 24000, 600000),
    'random histories of all setters, mode changes (all pairs of modes), arming, floor switching, motion and states set from outside; a '
    'shadow copy of every reference and mode is compared after every call, state, sensors, actuation and control history must not move. '
    'Distinct: hash of the shadow along the history.',
    require=['mode changed', 'only the yaw mode changed', 'same mode selected', 'mode changed away from the origin with old references', 'references kept by an armed update', 'set_reference_.*', 'HOVER -> MOTOR_W', 'POSITION -> TRAJECTORY', 'ACRO -> VELOCITY'])

add('C14', grid('c14.cpp', STD + STD12, 60000, 1500000),
    'random rotor geometries (tilted, off-plane, unequal): every mixer entry against the wrench of one rotor, the rotor model on random speeds; '
    'random well-conditioned upright geometries and built airframes: inverse, and random thrust and body-rate requests with any PID tuning '
    'pushed through allocation and rotor model; signed root and square over the whole exponent range. Distinct: hash of wrench or speeds.',
    require=['tilted rotor', 'upright rotor', 'allocation', 'quadrotor inverse', 'pseudo-inverse allocation', 'negative allocation', 'built airframe', 'signed root and square', 'simulator in acro mode', 'vehicle changed'])
add('C15', grid('c15.cpp', [('d4', 'san'), ('f4', 'san'), ('d4', 'rel'), ('f4', 'rel'), ('d6', 'rel')], 120000, 3000000),
    'random mass, gravity, gain matrix (full or diagonal), acceleration, yaw (also far beyond a turn) and attitude, degenerate thrust '
    'directions; thrust vector, projection and body rate against the reference law, equilibrium, sign, yaw period. Distinct: hash of rate.',
    require=['rate judged', 'degenerate direction', 'thrust below the vehicle', 'turned away', 'heading undefined'])

add('C16', grid('c16.cpp', STD, 32000, 800000),
    'random histories of one IMU (any mounting, biases set or drifting, resets, updates without time, reseeding) and IMUs of random vehicles '
    'in closed-loop flight (any mass and attitude, vehicle changed in flight); every reading against rotated kinematics plus bias. '
    'Distinct: hash of a reading.',
    require=['turned mounting', 'aligned mounting', 'measured in flight', 'mounting changed', 'bias set', 'drifting bias', 'update without time', 'reset', 'mass changed in flight', 'default IMU', 'very short update'])
add('C17', grid('c17.cpp', STD, 32000, 800000),
    'noisy IMUs with random intensities and seeds, direct and in the simulator, steps 0.1 ms - 0.5 s; noise, initial bias, drift increments and '
    'whole walks recorded and judged at 6.5 sigma on mean, variance, all axis pairs, previous sample and noise-drift correlation; all '
    'combinations of zero intensities; reseeding. Distinct: hash of a noise sample.',
    require=['noisy run', 'statistics judged', 'some intensities zero', 'all intensities zero', 'reseeded', 'intensities changed'])
add('C18', grid('c18.cpp', STD, 24000, 600000),
    'random readings, filter factors, orientations, resets fed to the odometry directly and by the simulator, each update compared with the '
    'reference integrator; and noise-free flights of tumbling vehicles of any mass where a perfect IMU must follow the true motion. '
    'Distinct: hash of position and orientation.',
    require=['filtered update', 'heavily filtered update', 'unfiltered update', 'reset', 'orientation set', 'updated by the simulator', 'tracked', 'tracking tight', 'default arguments'])
add('C19', grid('c19.cpp', STD + STD12, 20000, 500000),
    'random valid vehicles with one (or two) values spoiled - each kind, at any rotor, by any amount down to the smallest negative number - '
    'offered at construction, in flight and through copies, while a twin simulator never sees them; and valid updates compared with the '
    'reference in every derived quantity. Distinct: hash of the update history.',
    require=['rejected construction', 'recovered from a rejected construction', 'accepted update', 'step after an accepted update judged', 'negative mass', 'negative inertia determinant', 'negative drag', 'negative aerodynamic determinant',
             'wrong rotor count', 'negative time constant of the last rotor', 'negative rotor inertia of the first rotor', 'negative thrust coefficient of an inner rotor', 'negative torque coefficient of the last rotor',
             'speed limits exchanged of an inner rotor', 'speed limits exchanged of the last rotor'])
add('C20', grid('c20.cpp', STD, 14000, 700000),
    'random histories of setters, whole parameter sets, refused limits, resets and re-applied parameters on vector and scalar controllers with a '
    'shadow of every setting; cascades updated part by part through different calls next to twins, with every stage compared before and after; '
    'simulators whose components are replaced in mid-run next to twins that receive newly built components. Distinct: hash of outputs along the history.',
    require=['PID settings', 'scalar PID settings', 'own parameters re-applied', 'limits refused', 'cascade reset', 'all controllers updated', 'assembled', 'set_dynamics_params', 'set_controller_params', 'set_imu_params',
             'set_inertial_odometry_params', 'position controller updated', 'velocity controller updated', 'trajectory controller updated', 'rate controller updated', 'attitude controller updated'])
add('C22', grid('c22.cpp', [('d4', 'san'), ('f4', 'san'), ('d4', 'rel'), ('f4', 'rel'), ('d6', 'rel'), ('f8', 'rel')], 40000, 1000000),
    'states of 1 to 12 rotors and odometry estimates with values over the whole exponent range and orientations at and around vertical pitch, '
    'half turns, the heading wrap and unnormalised, written in default, scientific and fixed format at every precision and parsed back field by '
    'field; logged and converted angles rebuilt into a rotation. Distinct: hash of position and orientation.',
    require=['1 rotors', '2 rotors', '4 rotors', '12 rotors', 'odometry record', 'vertical pitch', 'nearly vertical pitch', 'upside down', 'unnormalised quaternion', 'angles judged', 'default format', 'scientific format', 'fixed format'])
add('C24', grid('c24.cpp', [('d4', 'san'), ('f4', 'san'), ('d4', 'rel'), ('f4', 'rel')], 60000, 2000000),
    'random arms, coefficients, limits, time constants and inertias for the three builders; every field of every rotor against the documented '
    'layout, and the wrench of the resulting model for equal speeds and for roll, pitch and yaw patterns. Distinct: hash of the arms.',
    require=['X equal arms', 'X unequal arms', 'plus unequal arms', 'hexacopter .*', 'X wrench', 'plus wrench', 'hexacopter wrench'])

add('C25', lambda tier: grid('c25.cpp', [('d4', 'san'), ('d4', 'rel')], 6000, 300000)(tier)
    + grid('c25.cpp', [('f4', 'san'), ('d6', 'san'), ('f4', 'rel'), ('f6', 'rel'), ('d3', 'rel'), ('d8', 'rel'), ('d1', 'rel')], 6000, 300000, ['-DFORCE_INST'])(tier),
    'pairs of runs next to each other, step by step: single against double precision, rotors renumbered, idle rotors added, the scene shifted '
    'and turned about the vertical, in every control mode and with the floor; all class templates instantiated completely for both precisions '
    'and 1 to 8 rotors. Distinct: hash of kind and resulting position.',
    require=['precision: dynamics', 'precision: slow turn', 'precision: sensors', 'precision: control', 'renumbered rotors', 'null rotors', 'place: shifted', 'place: quarter turn', 'place: turned', 'place: floor contact',
             'place: POSITION', 'place: VELOCITY', 'place: TRAJECTORY', 'place: ACRO', 'place: MOTOR_W', 'place: HOVER'], compile_is_property=True)

add('C21', lambda tier: grid('c21.cpp', [('d4', 'san'), ('f6', 'san'), ('d1', 'san'), ('d12', 'san'), ('d3', 'rel'), ('f4', 'rel'), ('d8', 'rel')], 24000, 1000000)(tier)
    + grid('c21.cpp', [('d4', 'msan'), ('f6', 'msan')], 24000, 1000000)(tier),
    'random histories of 26 kinds of operation over every public class (default-built, configured, refused, copied, assigned, moved, replaced, '
    'destroyed sources, held references, arguments that alias the object, refused steps, extreme values); every observed value is checked for '
    'definedness by MSan or by repeating the history with other garbage in object, stack and heap memory. Distinct: hash of the observations.',
    require=['default simulator', 'configured simulator', 'refused simulator', 'copied simulator', 'assigned simulator', 'self assignment', 'source destroyed', 'component copied out', 'component replaced', 'refused update',
             'own state fed back', 'held references', 'step refused', 'dynamics', 'model', 'imu', 'odometry', 'controller', 'pid', 'scalar pid', 'text', 'simulators in a vector', 'kept state', 'moved simulator', 'extreme values'])

add('C23', grid('c23.cpp', [('d4', 'san'), ('d4', 'rel'), ('f4', 'rel'), ('d6', 'rel'), ('f6', 'rel')], 1600, 60000),
    'closed-loop missions of one to three legs with the example tuning scaled to vehicles of 0.02 to 100 kg, built at once or part by part, in X, plus and hexacopter layout and '
    'gravity 8 to 12: moderate initial attitude, rate, velocity and heading, reached and held references and poses held by mode changes in the four '
    'pose modes, steady turns, circles followed, take-off and landing on a floor, and the same mission elsewhere and turned. Every step of the '
    'holding window is judged. Distinct: hash of the final state.',
    require=['POSITION reached', 'HOVER reached', 'TRAJECTORY reached', 'VELOCITY reached', 'POSITION held after mode change', 'HOVER held after mode change', 'TRAJECTORY held after mode change',
             'VELOCITY held after mode change', 'turning in POSITION', 'turning in HOVER', 'turning in TRAJECTORY', 'turning in VELOCITY', 'moving reference followed', 'took off in POSITION', 'took off in HOVER',
             'took off in TRAJECTORY', 'landed', 'same flight elsewhere', 'very heavy or light vehicle', 'vehicle replaced before the flight'])

# the deciding method, in a few words, for MANIFEST.json
SAN = ' under ASan+UBSan and optimised builds'
TECH = {
    'C01': 'online monitor comparing every observed step with a Newton-Euler reference, random vehicles and states,' + SAN,
    'C02': 'online monitor of elapsed motion against analytic motion and split-step twins,' + SAN,
    'C03': 'online monitor of rotor limits and first-order response, hostile commands,' + SAN,
    'C04': 'invariant monitor on orientation along long violent runs, exact-rotation oracle,' + SAN,
    'C05': 'statistical monitor on the isolated random part of every step,' + SAN,
    'C06': 'differential monitor on twin, copied and interleaved runs; ThreadSanitizer on concurrent runs',
    'C07': 'trace monitor with a floor-free twin predicting every step,' + SAN,
    'C08': 'trace monitor on arming histories with twins,' + SAN,
    'C09': 'shadow-state monitor over all references after every call,' + SAN,
    'C10': 'online monitor comparing every command with a reference control cascade,' + SAN,
    'C11': 'online monitor comparing every PID call with the textbook law over the history,' + SAN,
    'C12': 'invariant monitor on outputs against limits with an unlimited twin,' + SAN,
    'C13': 'differential monitor on scalar, one-dimensional and vector controllers side by side,' + SAN,
    'C14': 'monitor comparing allocation with the wrench the rotor model produces,' + SAN,
    'C15': 'monitor comparing attitude and thrust commands with the reference law and its metamorphic relations,' + SAN,
    'C16': 'online monitor comparing every IMU reading with body-frame kinematics and bias,' + SAN,
    'C17': 'statistical monitor over recorded IMU noise and bias histories,' + SAN,
    'C18': 'online monitor comparing odometry with a reference integrator and with true motion,' + SAN,
    'C19': 'mutation of parameter sets with behaviour twins,' + SAN,
    'C20': 'read-back and behaviour-twin monitor over configuration histories,' + SAN,
    'C21': 'random API histories under ASan, UBSan, MSan, libstdc++ and Eigen assertions',
    'C22': 'round-trip monitor on produced text and Euler angles,' + SAN,
    'C23': 'closed-loop trace monitor (settling and holding) on random missions',
    'C24': 'monitor on built geometries and the wrench they produce,' + SAN,
    'C25': 'differential monitor on paired runs (precision, numbering, place, added rotors)',
}
