#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
D = 'multirotor_simulator/multirotor_dynamic_model/dynamics.hpp'
M = 'multirotor_simulator/multirotor_dynamic_model/model.hpp'
ST = 'multirotor_simulator/multirotor_dynamic_model/common/state.hpp'
U = 'multirotor_simulator/multirotor_dynamic_model/common/utils.hpp'
S = 'multirotor_simulator/multirotor_simulator.hpp'
C = 'multirotor_simulator/multirotor_controllers/multirotor_controllers.hpp'
CA = 'multirotor_simulator/multirotor_controllers/controllers/acro_controller.hpp'
CI = 'multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp'
CP = 'multirotor_simulator/multirotor_controllers/controllers/position_controller.hpp'
CV = 'multirotor_simulator/multirotor_controllers/controllers/velocity_controller.hpp'
CT = 'multirotor_simulator/multirotor_controllers/controllers/trajectory_controller.hpp'
IM = 'multirotor_simulator/imu_simulator/imu.hpp'
IO = 'multirotor_simulator/imu_simulator/inertial_odometry.hpp'
P = 'pid_controller/include/pid_controller/pid.hpp'
P1 = 'pid_controller/include/pid_controller/pid_1d.hpp'
out = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    out.append({'id': id, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'A dynamics step is one explicit Euler step of the Newton-Euler equations',
     'With process noise off, a step of at most 10 ms moves the state by exactly one explicit Euler step of the rigid-body equations: total force is rotor thrust rotated to the earth frame plus mass times gravity plus quadratic drag opposing the velocity on each axis plus the external force, and total torque is rotor thrust and drag torque plus the rotor spin-up reaction plus the aerodynamic moment minus the gyroscopic term. '
     'Position advances with the velocity before the step, velocity and body rate advance with force over mass and inverse inertia times torque, and the reported accelerations, force and torque are the ones that were applied. '
     'This holds for every valid vehicle (any mass, full inertia tensor, tilted and unequal rotors, any rotor count, single or double precision).',
     ['inputs', 'configurations', 'histories'], 'every valid vehicle model, state, rotor command, external force and step length up to 10 ms, at every point of a run',
     'The tests step a unit-mass, flat, symmetric quadrotor from rest and look at signs or at zero; they never compare a moving, tilted, non-unit-mass vehicle with the equations.',
     [D, M, U], [('explicit Euler step', D + ' process_euler_explicit'), ('rotor wrench and aerodynamics', M + ' get_*_by_motors, get_drag_force, get_aerodynamic_moment')],
     ['the state after each step through the dynamics and the simulator API'])

prop('C02', 'Every positive step advances exactly the requested time',
     'A step of any positive length advances the vehicle by exactly that much simulated time, however long it is: uniform motion covers velocity times time, a constant force changes the velocity by acceleration times time, and the rotors keep following the command and the external force keeps acting through the whole step. '
     'A long step agrees with the same time walked in short steps up to the integration error. '
     'A zero or negative step is rejected with an exception and changes nothing.',
     ['inputs', 'histories'], 'every step length and every split of a time span into steps',
     'The tests use a few round step lengths on a vehicle that rests on the floor, where a wrong amount of simulated time is invisible.',
     [D, S], [('splitting of long steps', D + ' process_euler_explicit')], ['the state after long steps against analytic motion and against short steps'])

prop('C03', 'Rotor speeds obey their limits and a first-order response',
     'After every step each rotor speed lies within the minimum and maximum of that rotor, whatever speed was commanded, including infinite commands. '
     'When the step is not longer than the rotor time constant, the speed moves from its old value towards the limited command without passing it, by the fraction step over time constant of the distance, and each rotor answers only to its own command and its own parameters.',
     ['inputs', 'configurations', 'histories'], 'every command sequence, every set of per-rotor limits and time constants, all rotor counts, all control modes',
     'The tests give one fixed command to identical rotors.',
     [D], [('command and speed clamping, first-order motor model', D + ' clamp_motors_angular_velocity, get_motors_angular_velocity_derivative')],
     ['rotor speeds and accelerations in the state after each step'])

prop('C04', 'Orientation is always a unit rotation driven by the body rate',
     'At every instant of every run the orientation of the vehicle, and that of the odometry estimate, is a unit quaternion, and a step of at most 10 ms from a finite state of moderate speed and body rate, with finite commands, leaves every reported quantity finite. '
     'The orientation evolves by rotating the body frame with the body-frame angular velocity: a constant rate turns the vehicle about that body axis by rate times time, for any starting orientation, up to integration error.',
     ['histories', 'inputs'], 'every run length, starting orientation, body rate and step length',
     'Normalisation drift, a wrong multiplication order or a wrong frame only show on long runs or away from the identity orientation, which the tests do not use.',
     [D, U, IO], [('quaternion derivative, integration and normalisation', U + ' get_quaternion_derivative, get_quaternion_integrate'), ('state integration', D + ' process_euler_explicit')],
     ['orientation in the state and in the odometry after each step'])

prop('C05', 'Process noise is off when off, and has the configured strength when on',
     'With noise disabled, or with zero noise intensity, a step has no random part at all. '
     'With noise enabled the random force is zero-mean on each axis, independent between axes and between steps, with variance equal to the configured force intensity over the integration step, and the random moment likewise with the moment intensity; the random parts enter the reported force and torque additively. '
     'Force and moment intensities act only on the force and on the torque respectively.',
     ['inputs', 'histories', 'configurations'], 'every noise intensity, seed, step length and number of steps',
     'The tests only check that noise is non-zero or that calls do not throw; strength, independence and additivity are properties of whole sample histories.',
     [M, D], [('noise generation', M + ' set_stochastic_noise, disable_stochastic_noise'), ('noise injection', D + ' process_euler_explicit')],
     ['the stochastic force and moment and the reported force and torque over long runs'])

prop('C06', 'Runs are reproducible and independent of each other',
     'Two simulators built from the same parameters and seeds and given the same calls produce identical states, sensor readings and odometry at every step, and different seeds give different noise. '
     'A copy continues exactly like its original and neither influences the other afterwards. '
     'Independent simulators do not influence each other, also when they run interleaved in one thread or at the same time in several threads.',
     ['histories', 'schedules', 'configurations'], 'every call history, every interleaving of independent simulators and every number of threads',
     'The tests run one object at a time in one thread and never compare two runs.',
     [M, IM, S, C], [('per-object random engines', M + ' random_number_generator_; ' + IM + ' random_number_generator_'), ('value semantics of all parts', S)],
     ['full observable state of two or more simulators, bit for bit; data-race reports'])

prop('C07', 'The vehicle never ends a step below an enabled floor',
     'While floor collision is enabled, no step ends with the vehicle below the floor height; a step that would do so leaves it at the floor height with zero linear and angular velocity and acceleration, keeps horizontal position, orientation, rotor speeds and reported force and torque, and restarts the IMU and the odometry from zero with the orientation of the vehicle. '
     'Above the floor, and with floor collision disabled, the floor has no effect at all. '
     'A vehicle found below the floor has its weight carried during the next step, a grounded vehicle with enough thrust takes off, and the step after a contact has no process noise.',
     ['histories', 'inputs', 'configurations'], 'every floor height, approach speed and attitude, step length, control mode and history of enabling and disabling',
     'The tests watch one vehicle at rest on a floor at height zero and allow a millimetre of error.',
     [S], [('floor handling', S + ' update_dynamics'), ('floor switch', S + ' enable_floor_collision, disable_floor_collision')],
     ['state, IMU reading and odometry after each step'])

prop('C08', 'A disarmed vehicle is never actuated',
     'From the moment it is disarmed, and from construction until it is armed, the commanded rotor speeds are zero after every controller update, in every control mode and for every reference, and the rotors spin down to standstill, or to their minimum speed where that is higher. '
     'Only arming and disarming change the armed state, and controller updates while disarmed leave no trace in the control that follows a later arming. '
     'Arming sets the acro references to a thrust of 9.81 and zero rates, sets the reference height to the floor height, and leaves the rest alone.',
     ['histories'], 'every history of arming, disarming, mode changes, reference changes and updates',
     'The tests toggle the armed flag a couple of times in one mode.',
     [S], [('armed gate', S + ' update_controller, arm, disarm')], ['armed state, actuation command and rotor speeds along call histories'])

prop('C09', 'Changing the control mode holds the current pose and clears old references',
     'Changing the control mode or the yaw mode sets the position reference to the current position and the yaw reference to the current heading and clears velocity, acceleration, thrust and body-rate references, so that nothing requested in an earlier mode is carried over. '
     'Selecting the mode that is already active changes nothing, and every reference setter changes exactly the references it names, to exactly the given values.',
     ['histories', 'inputs'], 'every history of mode changes, reference changes and motion, for all modes and both yaw modes',
     'The tests set each mode once from rest at the origin, where the current pose and zero are the same.',
     [S], [('mode switch', S + ' set_control_mode'), ('reference setters', S + ' set_reference_*')], ['all reference, mode and actuation getters after every call'])

prop('C10', 'Each control mode acts on its own references with the full control cascade',
     'In every control mode an armed controller update commands exactly what the cascade for that mode gives for the current state and references: position error to velocity, velocity error to acceleration, trajectory errors plus feed-forward to acceleration, acceleration and yaw to thrust and body rate, body rate to rotor speeds; hover equals position control, direct rotor mode passes the rotor references through. '
     'References that do not belong to the mode have no influence, yaw-rate mode turns the heading reference into current heading plus rate over yaw gain, and the intermediate commands that can be read back are the ones that were used. '
     'A direct call of the cascade for given measurements and references gives the same result as the simulator.',
     ['histories', 'inputs', 'configurations'], 'every mode sequence, gain set, state and reference',
     'The tests check that a call does not throw, or the sign of one output, for a handful of states.',
     [S, C, CP, CV, CT], [('mode dispatch', S + ' update_controller'), ('cascade', C + ' compute_*_control, convert_*')],
     ['actuation command and intermediate commands after each controller update'])

prop('C11', 'The PID output is the textbook law over the whole error history',
     'At every call the output before limiting is proportional gain times error, plus integral gain times the accumulated error-time area since the last reset, plus derivative gain times the error rate (given, or derived by differences and smoothed by the first-order filter, zero on the first call after a reset), on each axis separately. '
     'The accumulated area never exceeds the anti-windup limit in magnitude where one is set, and with the reset option a saturated accumulator restarts from zero when the error changes sign. '
     'Resetting forgets the past completely, changing gains or limits keeps it, and the reported errors and contributions are those of the last call.',
     ['histories', 'inputs', 'configurations'], 'every sequence of errors, time steps, resets and parameter changes, any dimension and precision',
     'The tests check one or two calls with constant error; accumulation, filtering, windup and reset are properties of histories.',
     [P, P1], [('PID law', P + ' compute_control, compute_integral_contribution, compute_derivative_contribution_by_deriving'), ('scalar PID law', P1 + ' compute_control')],
     ['output, errors and contributions after each call'])

prop('C12', 'An enabled output limit is never exceeded',
     'While output limits are set, every output lies within them on every axis; per-axis limiting changes only the axes that exceed a limit, and proportional limiting keeps the direction of the output vector (for limits on both sides of zero) and leaves an output inside the limits untouched. '
     'Limits that are inverted or equal on any axis, or all zero, switch limiting off, and a later valid setting switches it on again; the limits never disturb the integral and derivative history.',
     ['inputs', 'histories', 'configurations'], 'every output, limit pair (symmetric or not), limiting mode, dimension and sequence of limit changes',
     'The tests use two or three hand-picked vectors with symmetric limits.',
     [P, P1], [('saturation', P + ' saturate_output, set_output_saturation, update_pid_params'), ('scalar saturation', P1 + ' saturate_output')],
     ['output against the limits after each call, and of the static saturation function'])

prop('C13', 'The scalar PID and every axis of the vector PID are the same controller',
     'For the same gains, options and error history the scalar controller, a one-dimensional vector controller and any single axis of a vector controller (with per-axis limiting, and anti-windup and output limits set on every axis or on none) give the same outputs and contributions at every call, through resets, parameter changes and limit changes. '
     'Axes of a vector controller do not influence each other and permuting the axes permutes the outputs.',
     ['histories', 'inputs', 'configurations'], 'every error history and parameter set, any dimension, both precisions',
     'The two implementations are tested separately, on different inputs.',
     [P, P1], [('vector PID', P), ('scalar PID', P1)], ['outputs of the controllers run side by side'])

prop('C14', 'Rotor allocation produces exactly the requested thrust and torque',
     'The mixer of a vehicle maps squared rotor speeds to the force and torque those rotors produce at their mounting pose, its reduced form agrees with the full form for upright rotors, and the quadrotor mixer inverse undoes it: the rotor speeds commanded for a thrust and body-rate request generate, in the vehicle model, that collective thrust and the torque of the rate law (inertia times PID output plus the gyroscopic term of the desired rate). '
     'Signed square and signed square root are odd, monotone inverses of each other, so negative allocations keep their sign.',
     ['inputs', 'configurations'], 'every rotor geometry with an invertible allocation, every inertia, thrust, body rate and gain set',
     'The tests check one symmetric geometry entry by entry and never push a request through the inverse and the rotor model together.',
     [M, CI, U], [('mixer', M + ' compute_mixer_matrix_4D/6D, compute_mixer_inertia_matrix'), ('allocation', CI + ' acro_to_motor_angular_velocity, compute_quadrotor_mixer_matrix_inverse')],
     ['mixer matrices, rotor speed commands and the wrench the model computes from them'])

prop('C15', 'Acceleration and yaw commands become the right thrust and body rate',
     'The thrust vector for a desired acceleration is mass times acceleration minus gravity, the collective thrust is its component along the body vertical and never negative, and the body rate is minus the attitude gain times half the skew difference between the current attitude and the one whose vertical is the thrust direction and whose heading is the yaw command. '
     'The body rate is zero exactly at the desired attitude, turns the vehicle towards it for positive gains, depends on yaw only modulo a full turn, and both outputs are zero when the thrust would point below the vehicle. '
     'All outputs are finite for finite inputs, including thrust directions parallel to the heading.',
     ['inputs', 'configurations'], 'every attitude, yaw command, desired acceleration, mass, gravity and gain matrix',
     'The tests use the level attitude and check signs.',
     [CA, C], [('attitude law', CA + ' acceleration_to_thrust, yaw_angle_to_angular_velocity'), ('projection', C + ' convert_linear_acceleration_to_acro')],
     ['thrust and body rate returned by the conversion functions'])

prop('C16', 'The IMU reports body rate and acceleration in its own frame plus bias and noise',
     'With noise off, the gyroscope reads the body rate and the accelerometer the linear acceleration of the vehicle in the body frame, both rotated into the mounting frame of the IMU, plus the current biases, for every attitude, mass and mounting. '
     'A reset clears measurement and biases, a non-positive time step changes nothing, biases that are set are added exactly, and all ways of reading a measurement agree.',
     ['inputs', 'histories', 'configurations'], 'every attitude, motion, mounting orientation, bias and history of updates, resets and reconfigurations',
     'The tests use the identity attitude, identity mounting and unit mass, where all frames and scalings coincide.',
     [IM, S], [('measurement', IM + ' process_measurement, update, reset'), ('specific force for the IMU', S + ' update_imu')],
     ['IMU measurement and bias getters after each update'])

prop('C17', 'IMU noise and bias drift have the configured statistics',
     'Measurement noise is zero-mean and independent between axes, samples and sensors with the configured variance, the initial biases have the variance of the measurement noise, and each bias performs a random walk whose variance grows by intensity times elapsed time, however the time is divided into updates. '
     'Zero intensities give exactly no noise and no drift, each intensity affects only its own sensor, and reseeding replays the same sequence.',
     ['histories', 'inputs', 'configurations'], 'every set of intensities, seed, update rate and run length',
     'Statistics are properties of long sample histories; the tests look at single samples.',
     [IM], [('noise and bias processes', IM + ' process_bias, process_measurement, set_bias_standard_normal_distribution')],
     ['measurements and biases over long runs and many seeds'])

prop('C18', 'Odometry integrates the IMU readings from the given start',
     'After every update the odometry is the result of low-pass filtering the readings with the configured factor, turning the orientation by the filtered rate, rotating the filtered acceleration to the world frame and integrating it to velocity and position. '
     'With a perfect, unfiltered, aligned IMU and short steps it follows the true motion from the same start up to integration error, for any attitude history and any mass. '
     'A reset restarts it from zero at the configured orientation, and all ways of reading it agree.',
     ['histories', 'inputs', 'configurations'], 'every sequence of readings, steps, resets, filter factors and initial orientations',
     'The tests integrate one or two constant readings with the identity orientation.',
     [IO, S], [('filter and integration', IO + ' filter_measurement, integrate_measurement'), ('reset', IO + ' reset, set_initial_orientation')],
     ['odometry after each update'])

prop('C19', 'Invalid vehicle parameters are rejected and change nothing',
     'Parameters with a negative mass, inertia determinant, drag, aerodynamic determinant, time constant, rotor inertia or rotor coefficient, a rotor whose maximum speed is below its minimum, or a wrong number of rotors are rejected, whichever rotor is affected, and the vehicle keeps behaving exactly as with its previous parameters. '
     'Valid parameters are accepted, take full effect at once in every derived quantity, and read back unchanged.',
     ['inputs', 'configurations', 'histories'], 'every parameter set and every history of accepted and rejected updates',
     'The tests spoil one parameter at a time of one vehicle and look only at the return value.',
     [M], [('validation', M + ' check_params, update_params')], ['check result, parameters, mixers and dynamics before and after an update'])

prop('C20', 'Settings read back as written and take effect without disturbing the run',
     'Every parameter, gain, limit, flag, reference, seed, state or model that can be set can be read back unchanged through every getter, and re-applying the parameters read from a controller leaves its behaviour unchanged. '
     'Updating the parameters of one controller of the cascade changes only that controller, keeps the accumulated control history, and resetting the cascade clears the history of all controllers; replacing a component of the simulator makes it behave like a newly built one while the other components go on undisturbed.',
     ['histories', 'configurations'], 'every parameter set and every history of updates, resets and replacements',
     'The tests set values once and read them back, and never look at the behaviour of the other controllers or at the history.',
     [P, P1, C, CA, CI, CP, CV, CT, S, D], [('parameter updates', C + ' update_*_params, reset_controller; ' + P + ' get_params, update_pid_params; ' + S + ' set_*_params')],
     ['getters after setters, outputs of an updated controller against a reference'])

prop('C21', 'No API history causes a memory error, undefined behaviour or uninitialised read',
     'No sequence of public calls with valid arguments, on default-built, configured, copied or rejected-configuration objects, in either precision and for any rotor count, reads or writes outside an object, uses a dangling reference, converts out of range, or lets an uninitialised value reach a result or a decision.',
     ['histories', 'configurations', 'inputs'], 'every call history over the whole public API, all precisions and rotor counts',
     'The tests run without sanitizers, mostly on four rotors in double precision, and cannot see an uninitialised or dangling read that happens to give a plausible number.',
     [S, D, M, C, CI, IM, IO, P, P1, ST, U], [('initialised members and fixed-size storage', M + ', ' + S), ('rotor count check', M + ' check_params')],
     ['AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, Eigen and library assertions'])

prop('C22', 'Logged states are complete, ordered and faithful',
     'Writing a state or an odometry estimate as text gives one comma-separated value per quantity in the fixed documented order, for every rotor count, and parsing the text gives back the values up to the precision of the stream; the labelled dumps name the same quantities with the same values. '
     'The Euler angles that are logged are the roll, pitch and yaw of the orientation: rebuilding a rotation from them gives the same rotation for every orientation away from vertical pitch, roll and yaw in (-pi, pi], pitch within a quarter turn, and finite at vertical pitch and for unnormalised quaternions.',
     ['inputs', 'configurations'], 'every state, orientation and rotor count',
     'The tests check that printing does not throw and compare Euler angles for a few orientations.',
     [ST, IO], [('text output', ST + ' operator<<, print_*; ' + IO + ' operator<<, print_state'), ('Euler conversion', ST + ' quaternion_to_Euler')],
     ['the produced text, parsed back, against the state'])

prop('C23', 'Closed-loop flight reaches and holds its reference',
     'With the example tuning (scaled to the vehicle) and no noise, an armed vehicle started near its reference (so that the commanded acceleration stays moderate, well below gravity downwards) reaches it within a bounded number of steps and then stays there, in position, hover, velocity and trajectory control with yaw angle or yaw rate, from any moderate initial attitude, velocity and heading, for vehicles of any mass within the thrust budget. '
     'After a mode change it holds its pose, and the response does not depend on where in the horizontal plane, or at which heading, the flight takes place.',
     ['histories', 'inputs', 'configurations'], 'every moderate initial state, reference, mode sequence, mass and heading',
     'The tests fly one scenario from rest at the origin with unit mass.',
     [S, C, CA, CI, D, M], [('whole loop', S + ' update_controller, update_dynamics')], ['distance to the reference along closed-loop runs'])

prop('C24', 'Airframe builders give balanced vehicles with the documented geometry',
     'For all arm lengths, coefficients and limits the quadrotor X, quadrotor plus and hexacopter builders place the rotors at the documented positions in the documented order with alternating spin, all upright, all with the given coefficients, limits, time constant and inertia. '
     'Equal rotor speeds therefore give pure thrust without torque, and the documented differential patterns give pure roll, pitch and yaw torque of the documented sign.',
     ['inputs', 'configurations'], 'every arm length, coefficient, limit, time constant and inertia, both precisions',
     'The tests build each airframe once with one set of numbers, equal x and y arms and equal minimum and maximum handling.',
     [M], [('builders', M + ' create_quadrotor_x_config, create_quadrotor_plus_config, create_hexacopter_config')],
     ['the rotor list returned by each builder and the wrench of the resulting mixer'])

prop('C25', 'Physics and control do not depend on precision, rotor numbering or place',
     'The same vehicle simulated in single and in double precision agrees step by step up to rounding, and renumbering the rotors together with their commands changes nothing but the order of the rotor values. '
     'Without noise, shifting the whole scene, or turning it about the vertical, shifts or turns the trajectory and changes nothing else (when turned by other than quarter turns: without drag, with the horizontal axes tuned alike and outside output limits), and adding rotors that produce nothing changes nothing.',
     ['inputs', 'configurations', 'histories'], 'every vehicle, state, command, control mode and reference, rotor counts from one to eight, both precisions',
     'The tests almost only use four rotors in double precision around the origin; such relations compare pairs of runs.',
     [D, M, S, C], [('templates over precision and rotor count', D + ', ' + M + ', ' + S + ', ' + C)], ['states and actuation of paired runs'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in out:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(out), 'properties')
