TECH = "TLA+ specification model-checked exhaustively with TLC on bounded configurations; implementation traces recorded from the real code validated against it with TLC"
NOTE.update({
 "C01": "RingBuffer.tla: abstract measurement store, circular-array refinement checked exhaustively; TLC-generated histories and random histories replayed on RingBuffer.h and validated",
 "C02": "Intake.tla: rate limit, averaging, delay compensation, bounded buffers and hand-over at the horizon, no-loss checked exhaustively; random message streams driven through the sensor interface validated exactly",
 "C03": "ImuDownSampler.tla: exact delta composition in fixed point, interval correction; random raw streams validated",
 "C06": "RangeFinder.tla: validity automaton; random histories of readings validated",
 "C07": "AlphaFilter.tla: blend and weight law; random call histories validated for scalar and vector filters",
 "C08": "GeoLookup.tla: bilinear interpolation of the committed world magnetic tables; grid, pole, date-line and random queries validated",
 "C09": "Projection.tla: life cycle and metric meaning of projections; long-range answers compared against vector geometry computed in the harness",
 "C10": "NavGeo.tla: plane geometry of tracks in integer arithmetic, long-range answers compared against vector geometry computed in the harness",
 "C11": "WindEst.tla: life cycle, rate limits, gating and numeric meaning of each step; random call histories validated",
 "C04": "EkfIntake.tla + HorizonTrace.tla: delay line of filter periods and hand-over of measurements to the fusion; delay line (HorizonMC) and intake checked exhaustively; whole-filter random flights validated at every step",
 "C05": "AtRest.tla: at-rest automaton checked exhaustively; random movement histories validated at every IMU sample",
 "C24": "Limits.tla: limits and unused-state rules, checked exhaustively over prediction/fusion/reset/mode steps; covariance and states after every step of broad and of limit-seeking flights validated",
 "C23": "Resets.tla: counters, announced events and the shift of delayed and current outputs for every state reset; whole-filter flights with resets of every kind validated at every step",
 "C12": "GpsChecks.tla: each check, the health timer and the verdict, checked exhaustively over selections and message histories; every GNSS message of random and check-focused flights judged",
 "C13": "Origin.tla: setting, keeping, requesting and the shift of every reference, checked exhaustively; global position before/after and against the simulated truth on recorded flights",
 "C14": "Align.tla: data gathered before the start, start attitude and height, tilt and yaw alignment, checked exhaustively over arrival orders, disturbances and restarts; recorded starts and restarts in any attitude judged at every step",
 "C15": "HeightSource.tla: time-out, change and use of the height measurements, checked exhaustively for the four configured sources; recorded flights with losses and faults judged at every step (known finding: stale vision height)",
 "C16": "GpsAiding.tla: start, end and resets of GNSS aiding, checked exhaustively over samples, quality, alignment and other aids; recorded flights with GNSS losses, degradations and refused measurements judged at every step",
 "C17": "EvAiding.tla: start, end and resets of vision position, velocity and yaw, checked exhaustively over message histories with a delayed horizon; recorded flights with vision losses, slow and shifted vision judged at every step",
 "C18": "FlowAiding.tla: use of flow samples, start, end and resets of flow aiding, checked exhaustively; recorded flights with losses and faults of flow, range and GNSS judged at every step, innovations compared with the simulated truth",
 "C19": "MagModes.tla: mode selection, take-over by other yaw sources, disturbance and inhibition, checked exhaustively; recorded flights with manoeuvres, disturbances, faults and other yaw sources judged at every step",
 "C20": "YawSource.tla: life of the GNSS heading, composed with magnetometer modes and vision yaw and checked exhaustively for a single source; recorded flights with heading losses, faults and GNSS gaps judged at every step",
 "C21": "DeadReckon.tla: constrained drift, time-out of local and global position, synthetic position, checked exhaustively over histories of accepted measurements; recorded flights with losses and faults of every aid judged at every step",
 "C26": "Wind.tla: start, support, use and end of the wind estimate, checked exhaustively over histories of airspeed, sideslip, drag, flight and made-up position; recorded flights with losses and refusals of each judged at every step, innovations and starts recomputed",
 "C27": "Terrain.tla: start, measurements, validity, sensor bits and ground clearance, checked exhaustively with heights on a grid; recorded flights over steps with range and flow losses and faults judged at every step, corrections recomputed from the readings",
 "C22": "Status.tla: the words as functions of aids, faults and ratios, relations between the bits checked exhaustively over all combinations; words and ratios compared at every step of flights with every fault, with uninitialised memory filled by the compiler",
 "C31": "Accel.tla: evidence of bad acceleration, probation, and when each axis may learn, checked exhaustively over clipping, innovations and manoeuvres; recorded flights with shaken, clipped and biased accelerometers judged at every step",
 "C28": "YawGsf.tla: start, weights and end of the bank of yaw hypotheses and the rules of its resets, checked exhaustively over histories of data, velocities, failures and requests; recorded flights with wrong headings, gyro kicks and GNSS losses judged at every step: spacing, weights, composite, variance, propagation, convergence to the true heading, when a reset must and must not happen",
 "C30": "Truth.tla: what each set of aids makes known and the envelope it must stay in, checked exhaustively on error dynamics with aids that come and go; recorded noiseless flights in 14 aiding mixes with IMU biases and wind compared with the truth at every step",
 "C29": "Outputs.tla: steering of the current outputs towards the delayed states, decay of the error checked exhaustively for scalar loops with every disturbance; recorded flights judged at every raw IMU sample: integration of the newest sample, tracking errors, proportional and integral correction, alternative vertical loop, body offset",
 "C32": "Instances.tla: instances as functions of their own history, checked exhaustively over interleavings; twins in differently pre-filled memory and a bystander compared by digests of all outputs at every step",
 "C25": "Gating.tla: test ratio, flag and effect of every measurement, checked exhaustively; every innovation test of random flights validated, and twin filters that see one sensor differently (or not at all) must stay bit-identical exactly while both refuse it",
})
