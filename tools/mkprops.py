#!/usr/bin/env python3
"""Single source of the property list; writes properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Measurement buffers return each measurement at most once, and the right one",
 "Asked for a time T, a measurement buffer returns the newest stored measurement that is not newer than T, provided it is less than 100 ms older than T, and reports nothing otherwise; what it returned and everything older is gone afterwards, newer measurements stay. Pushing into a full buffer discards exactly the oldest measurement. Size, newest and oldest queries always agree with that history.",
 ["histories", "inputs"], "every sequence of allocate/push/pop/query calls on a buffer of any length, with any non-decreasing measurement times and any request times",
 "The ring-buffer tests run six fixed sequences on a three-slot buffer; wrap-around, popping at the head, repeated pops and pushes after a pop combine into histories they never visit.",
 ["EKF/RingBuffer.h"], [("push / pop_first_older_than / allocate", "EKF/RingBuffer.h")], ["return values of the buffer API"])

prop("C02", "Measurement intake: rate limit, averaging and time stamps",
 "Before the filter is initialised no measurement is stored; afterwards one is accepted only if it is more than the minimum interval newer than the last accepted one of its kind, and it is stamped with its own time minus that sensor's configured delay minus half a filter period. Magnetometer and barometer readings arriving in between are averaged, reading and time, into the stored one; a GNSS message is used only when GNSS is selected for aiding or height and it has at least a 3D fix. Buffer lengths cover the largest configured delay and the minimum interval guarantees that no accepted measurement is overwritten before the fusion time reaches it.",
 ["histories", "configurations", "inputs"], "every interleaving of sensor deliveries at any rates, with any sensor delays in the parameter range",
 "Tests deliver each sensor at one or two fixed rates with default delays; averaging, spacing and delay bookkeeping depend on the arrival history and configuration.",
 ["EKF/estimator_interface.cpp", "EKF/estimator_interface.h"], [("set*Data, initialise_interface", "EKF/estimator_interface.cpp")], ["what is fused and when (innovations, delayed baro/flow samples)"])

prop("C03", "IMU down-sampling neither loses nor invents motion",
 "Every down-sampled IMU sample carries the total time, the composed rotation, the velocity change expressed in the end-of-interval body frame, the OR of the clipping flags and the last time stamp of exactly the raw samples received since the previous one. One is produced as soon as the accumulated time reaches the target period corrected for past over- and undershoot, so that the average period converges to the target.",
 ["histories", "inputs"], "every sequence of raw IMU samples with any sample intervals, rotations and velocity increments",
 "Tests use constant rates about one axis and regular intervals; order-dependent rotation composition and the interval correction only show on irregular sequences.",
 ["EKF/imu_down_sampler.cpp", "EKF/imu_down_sampler.hpp"], [("ImuDownSampler::update/reset", "EKF/imu_down_sampler.cpp")], ["ImuDownSampler output sample"])

prop("C04", "The delayed fusion horizon replays the IMU history exactly",
 "The filter steps exactly once per completed down-sampled IMU sample once aligned, and the IMU sample at the fusion horizon is the oldest buffered one, so horizon times strictly increase (once the IMU buffer has filled), lag the newest sample by a fixed number of samples large enough for the largest configured sensor delay, and no sample is skipped or repeated. A measurement is fused in the first step whose horizon time has reached its stamp.",
 ["schedules", "histories", "configurations"], "every IMU rate and jitter pattern, any interleaving of sensor deliveries and update calls, any configured delays",
 "Tests run a fixed 200-250 Hz IMU and check only the final number of samples or state; the one-to-one step correspondence over a whole irregular history is not asserted.",
 ["EKF/estimator_interface.cpp", "EKF/ekf.cpp"], [("setIMUData, Ekf::update, controlFusionModes", "EKF/estimator_interface.cpp, EKF/ekf.cpp, EKF/control.cpp")], ["update() result", "get_imu_sample_delayed()", "get_baro_sample_delayed()"])

prop("C05", "Vehicle at rest is declared only on the ground after a second without movement",
 "The at-rest status is set only while the vehicle is on the ground and no IMU movement has been detected for more than one second; any detected movement, or being in the air, clears it at once. It is set again once the vehicle has been on the ground and still for more than one second.",
 ["histories", "inputs"], "every sequence of IMU samples, landed-state changes and movement-threshold settings",
 "No existing test examines the at-rest status over a sequence of movement and landed-state changes.",
 ["EKF/estimator_interface.cpp"], [("checkIfVehicleAtRest", "EKF/estimator_interface.cpp")], ["isVehicleAtRest()", "control status flag"])

prop("C06", "A range finder reading is used only while it is trustworthy",
 "A range reading becomes valid only when it is new, no older than 0.4 s, part of a regularly arriving stream, of non-zero quality with no zero-quality reading within the quality hysteresis time, taken at a tilt below the limit and within the sensor's distance limits. After more than ten seconds without a valid reading it must additionally have been seen to vary by more than 0.1 m. When readings stop for longer than 0.4 s the sensor is neither healthy nor regular.",
 ["histories", "inputs", "fault_sequences"], "every sequence of readings, gaps, quality drops, tilts and stuck values",
 "Each test holds all but one condition good and uses one fixed sequence; combinations of gaps, hysteresis and stuck detection are not sampled.",
 ["EKF/sensor_range_finder.cpp", "EKF/sensor_range_finder.hpp"], [("updateValidity, updateStuckCheck", "EKF/sensor_range_finder.cpp")], ["isHealthy / isDataHealthy / isRegularlySendingData / getDistBottom"])

prop("C07", "The first-order filter is a convex, monotone low-pass",
 "Each update moves the filter state from its previous value towards the new sample by the configured weight and never beyond either; the weight derived from a sample interval and time constant is interval/(interval+constant), an interval/constant sum of zero or less leaves the weight unchanged, and a reset sets the state exactly.",
 ["histories", "inputs"], "every sequence of updates, resets and parameter changes, for scalar and vector states",
 "Tests check convergence to a constant for single parameter values.",
 ["AlphaFilter/AlphaFilter.hpp"], [("AlphaFilter::update/setParameters/reset", "AlphaFilter/AlphaFilter.hpp")], ["getState() and update() results"])

prop("C08", "Geomagnetic look-up is the bilinear interpolation of its table, everywhere",
 "For every latitude and longitude the declination, inclination and strength returned are the bilinear interpolation of the four surrounding entries of the 10-degree world magnetic tables, in the documented unit for each query variant. Latitudes beyond +/-90 degrees answer as the pole, and longitudes are periodic, so the two sides of the date line agree.",
 ["inputs"], "every latitude and longitude, including the poles, the date line, both hemispheres and points off the 5-degree test grid",
 "Tests sample latitudes -50..60 on a 5-degree grid with tolerances of degrees, so they cannot see polar rows, interpolation weights, unit variants or the wrap.",
 ["geo_lookup/geo_mag_declination.cpp", "geo_lookup/geo_mag_declination.h", "geo_lookup/geo_magnetic_tables.hpp"], [("get_table_data, get_lookup_table_index", "geo_lookup/geo_mag_declination.cpp")], ["get_mag_declination/inclination/strength results"])

prop("C09", "Local map projection is invertible and refuses to run uninitialised",
 "A projection that has not been initialised reports an error from every query and does not touch its outputs; once initialised, the reference maps to the local origin, projecting a point and reprojecting it returns that point, north/east displacements have the right sign and metric length, and distance from the origin is the great-circle distance. Re-initialising replaces the reference and its time stamp, and several projections are independent of one another.",
 ["histories", "inputs"], "every order of initialise/project/reproject calls and every reference and point within range",
 "Tests round-trip two reference points near Zurich; other hemispheres, the reference itself, long ranges, the date line and uninitialised use are not exercised.",
 ["geo/geo.cpp", "geo/geo.h"], [("map_projection_*", "geo/geo.cpp")], ["function results"])

prop("C10", "Distances, bearings and way-point geometry are geometrically right",
 "Great-circle distance, bearing, vector, offset-way-point and way-point-on-line results agree with spherical geometry: distance is symmetric and zero only for equal points, the bearing is in [-pi,pi], and a way-point created at a given distance and bearing is found again at that distance and bearing. Cross-track distance to a line is the perpendicular distance, positive to the right, with the bearing towards the line, and past-end is reported exactly when the vehicle is beyond the end; distance to a full circle is the radial distance.",
 ["inputs"], "every pair or triple of points, bearings and distances in the operating range",
 "Only a few fixed points have distance/bearing tests; line, arc and vector functions are untested.",
 ["geo/geo.cpp"], [("get_distance_to_next_waypoint, get_bearing_to_next_waypoint, waypoint_from_*, get_distance_to_line", "geo/geo.cpp")], ["function results"])

prop("C11", "Stand-alone wind estimator life cycle and sample gating",
 "The wind estimate is valid only after a start at 3 m/s ground speed or more; each of airspeed and sideslip is fused at most every 100 ms, covariance prediction runs at most once a second, and a measurement whose squared innovation exceeds gate squared times its variance changes neither estimate nor variance. Continuous rejection of one measurement type for more than five seconds, or an ill-conditioned variance, re-initialises the estimate, which is reported until the next update. The airspeed scale is never negative and equals the enforced value when one is set; wind variances stay within [0,25].",
 ["histories", "inputs"], "every interleaving of update, airspeed and sideslip calls with any timing, measurements and settings",
 "The wind estimator has no test at all.",
 ["airdata/WindEstimator.cpp", "airdata/WindEstimator.hpp"], [("update, fuse_airspeed, fuse_beta, check_if_meas_is_rejected, run_sanity_checks", "airdata/WindEstimator.cpp")], ["getters of the estimator"])

prop("C12", "GNSS is declared good only after sustained passing of every selected check",
 "Each selected quality check (satellite count, PDOP, reported horizontal, vertical and speed accuracy, horizontal and vertical drift at rest, horizontal speed at rest, vertical speed discrepancy) is reported failed exactly when its requirement is violated, drift and speed-at-rest results being evaluated only on the ground and at rest and cleared in flight; a message with fewer than a 3D fix is never used. GNSS passes only when no selected check has failed for longer than the required health time, and any such failure restarts that time.",
 ["histories", "configurations", "inputs"], "every check-selection mask and requirement, every sequence of GNSS messages and vehicle states",
 "Tests use clean GNSS data with the default mask and two single-failure cases.",
 ["EKF/gps_checks.cpp"], [("Ekf::gps_is_good, collect_gps", "EKF/gps_checks.cpp")], ["get_gps_check_status()", "control_status flags", "get_gps_drift_metrics()"])

prop("C13", "The global origin is set once, from good GNSS, and stays put",
 "The origin becomes valid only when the filter is running and the GNSS quality checks have passed, at a place such that the current local position maps to the reported GNSS position and altitude (an origin requested beforehand keeps its horizontal place); afterwards no GNSS message moves it. Only an explicit request moves it, and then, while horizontally aided, the horizontal position and height states are shifted by the same displacement, so that the global position is unchanged, each shift is counted as a reset, and GNSS, barometer and range height references keep agreeing afterwards (absolute vision positions are the user's to shift).",
 ["histories", "inputs"], "every sequence of GNSS messages, alignment and origin requests",
 "Tests check the origin once after one clean start; messages before alignment, after a reset or during flight and explicit moves with offsets are not varied.",
 ["EKF/gps_checks.cpp", "EKF/ekf_helper.cpp"], [("collect_gps, setEkfGlobalOrigin, setEkfGlobalOriginAltitude", "EKF/gps_checks.cpp, EKF/ekf_helper.cpp")], ["getEkfGlobalOrigin()", "global_origin_valid()", "getPosition()"])

prop("C14", "Alignment waits for still, plausible and sufficient sensor data",
 "The filter starts only after it has received enough barometer and (unless the magnetometer is disabled) magnetometer samples and while the filtered acceleration is within 0.8-1.2 g and the rotation rate below 15 deg/s; the initial tilt then matches gravity, and heights start from the barometer average. Tilt is reported aligned only when its uncertainty has dropped below about 3 degrees, and stays so until the filter is initialised again.",
 ["histories", "inputs"], "every order and timing of first sensor deliveries, any static attitude, any initial motion",
 "Tests initialise at a handful of static attitudes with all sensors present from the start.",
 ["EKF/ekf.cpp", "EKF/control.cpp"], [("initialiseFilter, initialiseTilt, controlFusionModes", "EKF/ekf.cpp, EKF/control.cpp")], ["update()", "attitude_valid()", "control status"])

prop("C15", "Exactly one height reference is active and it falls back on failure",
 "After start-up exactly one of barometer, GNSS, range finder and vision is the active height source. When the active source's height is not successfully fused for 5 s (or after vertical acceleration has been excessive for the configured delay), height is reset to an available healthy source, and a source reported faulty or stopped is left for a usable one rather than kept; GNSS height is given up when GNSS aiding stops. A change of height source does not by itself move the height: the new source is referred to the current height.",
 ["fault_sequences", "histories", "configurations"], "every selected height mode and every sequence of sensor losses, returns and faults",
 "Tests check the four modes for one start and one loss each.",
 ["EKF/control.cpp", "EKF/ekf_helper.cpp"], [("controlHeightFusion, checkVerticalAccelerationHealth, controlHeightSensorTimeouts, setControl*Height", "EKF/control.cpp, EKF/ekf_helper.cpp")], ["control status height flags", "reset counters", "warning and information events"])

prop("C16", "GNSS aiding starts only on aligned, healthy data and stops when data stop",
 "GNSS position/velocity aiding starts only when GNSS aiding is selected, tilt and yaw are aligned, the origin is set and no quality check has failed for 5 s; starting resets velocity and position to GNSS unless they are already aided well. It stops when no GNSS sample reaches the fusion horizon for 10 s, or for 1 s while another source is aiding, or when quality has been failing for 5 s while another source is aiding, and never merely because individual samples fail their innovation gate.",
 ["fault_sequences", "histories", "configurations"], "every sequence of GNSS loss, return and degradation with other aiding sources present or absent",
 "Tests stop GNSS once and restart it once in an otherwise constant scenario.",
 ["EKF/control.cpp"], [("controlGpsFusion, stopGpsFusion", "EKF/control.cpp, EKF/ekf_helper.cpp")], ["control status gps flag", "information events", "reset counters"])

prop("C17", "Vision aiding modes follow configuration, alignment and data freshness",
 "Vision position, velocity and yaw start only if selected, only after tilt (and for position and velocity yaw) alignment and only while samples arrive frequently; position and velocity reset to vision when they have not been constrained for the reset time-out. All vision modes stop when vision data have stopped for the reset time-out, vision yaw is never started while GNSS aiding or GNSS heading is active, and starting vision yaw stops magnetometer fusion.",
 ["fault_sequences", "histories", "configurations"], "every vision selection mask and every sequence of vision loss, return, resets and other aiding",
 "Tests start and stop each vision mode once with vision as the only source.",
 ["EKF/control.cpp", "EKF/ekf_helper.cpp"], [("controlExternalVisionFusion, startEvPosFusion, startEvVelFusion, startEvYawFusion, stopEvFusion", "EKF/control.cpp, EKF/ekf_helper.cpp")], ["control status ev flags", "information events"])

prop("C18", "Optical flow aiding starts, stops and gates samples as configured",
 "Optical flow is fused only if selected and tilt is aligned, from samples of sufficient quality, plausible duration, and magnitude within the sensor limits (in flight); a bad sample is dropped in flight and stands for no motion on the ground; flow stops when no sample has reached the fusion horizon for 10 s or when a sample arrives outside the conditions for its use, and starting, or a fusion time-out, with no other aiding (and only then) resets the horizontal velocity to the flow velocity and position to the last known one.",
 ["fault_sequences", "histories", "configurations"], "every sequence of flow quality, height, take-off, landing and other aiding",
 "Tests start flow once in a steady hover.",
 ["EKF/control.cpp", "EKF/optflow_fusion.cpp"], [("controlOpticalFlowFusion, fuseOptFlow", "EKF/control.cpp, EKF/optflow_fusion.cpp")], ["control status opt_flow flag", "flow innovations", "reset counters"])

prop("C19", "Magnetometer mode: 3-axis only in flight when usable, and none when faulty",
 "At most one of heading and 3-axis magnetometer fusion is active, and neither is active before yaw alignment, after a magnetometer fault, or while vision or GNSS yaw is used. In the automatic mode 3-axis fusion is used only after the in-flight alignment and while the field is observable or was within the last 2 s; a disturbed field is noticed and its heading not used while moving, the declination is fused only with three axes, and the configured fusion type is obeyed.",
 ["histories", "configurations", "fault_sequences"], "every magnetometer configuration, field disturbance, take-off and landing sequence and aiding mix",
 "Tests check the mode for a few configurations at one instant.",
 ["EKF/mag_control.cpp"], [("controlMagFusion, runInAirYawReset, checkMagFieldStrength, checkMagDeclRequired", "EKF/mag_control.cpp")], ["control status mag_hdg/mag_3D/mag_dec/mag_field_disturbed/mag_aligned_in_flight"])

prop("C20", "Heading comes from one absolute source at a time",
 "GNSS heading and vision heading are never active together nor together with magnetometer fusion; GNSS heading starts only if selected, tilt is aligned and a finite heading is available, resets the yaw to it, is declared faulty and stops when GNSS samples arrive but no heading has been accepted for 5 s, and stops when GNSS data stop, after which another source of yaw can take over.",
 ["histories", "configurations", "fault_sequences"], "every sequence of heading availability, rejection and return with every source selection",
 "Tests start and stop GNSS heading once each.",
 ["EKF/control.cpp", "EKF/gps_yaw_fusion.cpp", "EKF/ekf_helper.cpp"], [("controlGpsYawFusion, startGpsYawFusion, stopGpsYawFusion, resetYawToGps", "EKF/control.cpp, EKF/ekf_helper.cpp, EKF/gps_yaw_fusion.cpp")], ["control status gps_yaw/ev_yaw/mag flags", "getQuaternion()"])

prop("C21", "Loss of horizontal aiding is reported and bounded",
 "Inertial dead reckoning is reported exactly when no horizontal velocity, position, flow or air-data fusion has constrained drift recently; once that has lasted longer than the configured maximum the local and global position are reported invalid. With no horizontal aiding at all the filter fuses a synthetic stationary position so that velocity and attitude stay bounded, and local position is reported invalid while it does so.",
 ["fault_sequences", "histories", "configurations"], "every sequence of aiding loss and return of all sources",
 "Tests check validity flags after single starts and stops.",
 ["EKF/ekf_helper.cpp", "EKF/control.cpp"], [("update_deadreckoning_status, controlFakePosFusion", "EKF/ekf_helper.cpp, EKF/control.cpp")], ["inertial_dead_reckoning()", "local_position_is_valid()", "global_position_is_valid()"])

prop("C22", "Solution and innovation status words report exactly the filter's state",
 "Each bit of the solution status word is set exactly when its documented condition holds (attitude, velocities, relative and absolute position, vertical position, terrain height, constant position mode, predicted positions, GNSS glitch, accelerometer error) and every undocumented bit is zero. The innovation status word reports exactly the failure flags, and the innovation ratios the square root of the largest test ratio of each sensor group (magnetometer, velocity, position, the height source in use, airspeed, terrain, sideslip).",
 ["histories", "inputs"], "every reachable combination of fusion modes, faults and test ratios",
 "Tests never read the status words.",
 ["EKF/ekf_helper.cpp", "EKF/common.h"], [("get_ekf_soln_status, get_innovation_test_status", "EKF/ekf_helper.cpp")], ["status words"])

prop("C23", "Every state reset is counted once and reported with its exact size",
 "Whenever horizontal velocity, vertical velocity, horizontal position, vertical position or attitude is reset rather than corrected, the matching counter increases by one and the reported change equals new minus old (for attitude, the rotation from old to new); between resets, counters never change. The output states at the current time shift by the same amount, so that reset consumers stay consistent.",
 ["histories", "fault_sequences"], "every reset cause, in any order and combination",
 "Tests count one or two resets in single scenarios.",
 ["EKF/ekf_helper.cpp"], [("resetHorizontalVelocityTo, resetVerticalPositionTo, resetQuatStateYaw ...", "EKF/ekf_helper.cpp")], ["state_reset_status()", "getPosition/getVelocity/getQuaternion"])

prop("C24", "The covariance stays symmetric, bounded and zero for unused states",
 "After every filter step all covariance entries are finite, the matrix is symmetric, each variance is non-negative and within its documented upper limit, and the rows and columns of the magnetic field states (while 3-axis fusion is off) and of the wind states (while wind is not estimated) are zero. Attitude is a unit quaternion and every state stays finite and within its limit.",
 ["histories", "inputs", "fault_sequences"], "every measurement history, including rejected, extreme and lost measurements",
 "Tests look at a few variances after single scenarios.",
 ["EKF/covariance.cpp", "EKF/ekf_helper.cpp"], [("fixCovarianceErrors, predictCovariance, constrainStates", "EKF/covariance.cpp, EKF/ekf_helper.cpp")], ["covariances()", "getStateAtFusionHorizonAsVector()"])

prop("C25", "A measurement changes the state exactly when its innovation test passes",
 "Each fused measurement's test ratio is its squared innovation divided by gate squared times innovation variance; with a ratio above one the measurement leaves the state estimate unchanged and its failure flag is set, and otherwise it is fused and the flag is cleared. Exceptions are only the documented ones: clamped vertical innovation during bad vertical acceleration, and clamped or ungated yaw on the ground.",
 ["inputs", "histories"], "every sensor type, gate setting and innovation size, at any point of a history",
 "Tests check fusion on/off flags, not whether each single rejected sample leaves the state untouched.",
 ["EKF/vel_pos_fusion.cpp", "EKF/mag_fusion.cpp", "EKF/airspeed_fusion.cpp", "EKF/optflow_fusion.cpp", "EKF/sideslip_fusion.cpp", "EKF/gps_yaw_fusion.cpp", "EKF/drag_fusion.cpp"], [("fuseHorizontalVelocity ... fuseVelPosHeight", "EKF/vel_pos_fusion.cpp")], ["innovations, variances, ratios, failure flags, state"])

prop("C26", "Wind states live exactly while airspeed or sideslip supports them",
 "The main filter estimates wind only while airspeed, synthetic sideslip or drag measurements support it and a real horizontal aid exists: without drag measurements, when neither airspeed nor sideslip has been accepted for 10 s, wind estimation ends, its variances are zero and the last wind stays frozen. Airspeed is used only in flight with more than 1 m/s of airspeed, sideslip only when enabled, in flight, at its interval and above 7 m/s, drag only when selected in flight. A new estimate starts from the current airspeed and heading, or from no wind with the configured uncertainty when there is none.",
 ["histories", "fault_sequences", "configurations"], "every sequence of airspeed loss, return, take-off, landing and enable flags",
 "Tests start airspeed fusion once and check the resulting wind.",
 ["EKF/control.cpp", "EKF/airspeed_fusion.cpp", "EKF/covariance.cpp"], [("controlAirDataFusion, controlBetaFusion, resetWindStates", "EKF/control.cpp, EKF/airspeed_fusion.cpp")], ["get_wind_status()", "getWindVelocity()", "control status fuse_aspd/fuse_beta"])

prop("C27", "Terrain height is never below the vehicle and valid only while measured",
 "The estimated terrain is never above the vehicle's own height less the ground clearance, its variance stays within [0, 10^4], and on the ground it follows the vehicle. In flight it changes only by accepted range or flow measurements (or by a reading refused for 10 s) and its variance otherwise grows as configured. Terrain is reported valid exactly while, within the last 5 s, a real range or flow measurement was taken into it, the vehicle was on the ground, or the filter started; the sensor bits name the sensor that gave those measurements, and flow serves the terrain only when range does not.",
 ["histories", "fault_sequences"], "every sequence of range/flow availability, faults, take-off and landing",
 "Tests run three steady scenarios.",
 ["EKF/terrain_estimator.cpp"], [("runTerrainEstimator, fuseHagl, fuseFlowForTerrain, updateTerrainValidity", "EKF/terrain_estimator.cpp")], ["getTerrainVertPos()", "isTerrainEstimateValid()", "getTerrainEstimateSensorBitfield()"])

prop("C28", "Emergency yaw estimator: normalised weights, right yaw, bounded resets",
 "The backup yaw estimator reports data only after it has started on velocity measurements; its hypothesis weights are non-negative and sum to one, hypotheses start evenly spaced with equal weight, and the composite is their weighted mean on the circle. With horizontal acceleration it converges to the true heading from any unknown initial heading. Filter yaw is reset to it only when its uncertainty is below the limit, at most the configured number of times and not within five seconds of the previous one.",
 ["inputs", "histories"], "every initial heading, velocity history and start/stop sequence",
 "One replay checks one reset; weights, spacing, convergence from all headings and limits are untested.",
 ["EKF/EKFGSF_yaw.cpp", "EKF/ekf_helper.cpp", "EKF/control.cpp"], [("EKFGSF_yaw::update/setVelocity, runYawEKFGSF, resetYawToEKFGSF", "EKF/EKFGSF_yaw.cpp, EKF/ekf_helper.cpp")], ["getDataEKFGSF()", "reset counters"])

prop("C29", "Current-time outputs track the delayed filter states",
 "Outputs at the current time are the delayed filter states propagated over the buffered IMU samples: with unchanged sensors the tracking errors decay towards zero after any disturbance, and attitude, velocity and position outputs stay consistent with one another (velocity is the rate of position, attitude is unit length, body offsets are removed).",
 ["histories", "configurations"], "every motion, sensor delay configuration, body offset and reset history",
 "Tests never compare outputs with delayed states over a history.",
 ["EKF/ekf.cpp"], [("calculateOutputStates, applyCorrectionToOutputBuffer", "EKF/ekf.cpp")], ["getPosition/getVelocity/getQuaternion", "getOutputTrackingError()"])

prop("C30", "With healthy sensors the estimate follows the truth",
 "For any smooth trajectory flown with noiseless, mutually consistent sensors, any aiding combination able to observe it and any initial heading, the estimated attitude, velocity and position stay within small bounds of the truth after convergence, and no innovation failure, warning or spurious reset is reported; the reported variance of the learned inertial biases covers their error.",
 ["inputs", "configurations"], "every trajectory, aiding mix, location and sensor delay configuration",
 "Tests and replays cover a hover and one flight.",
 ["EKF/ekf.cpp", "EKF/covariance.cpp", "EKF/vel_pos_fusion.cpp", "EKF/mag_fusion.cpp"], [("predictState, predictCovariance and every fuse function", "EKF/*.cpp")], ["getPosition/getVelocity/getQuaternion", "fault flags"])

prop("C31", "Accelerometer trouble is detected and bias learning protected",
 "Excessive vertical acceleration errors seen on both vertical innovations (from independent sources or with frequent clipping) set the bad-acceleration status and clear it only after the probation time; a filter fault sets the matching fault flag. Accelerometer bias learning is inhibited, with those variances frozen, during high manoeuvre acceleration, rotation rate or clipping, and biases stay within their configured limit.",
 ["fault_sequences", "histories", "inputs"], "every sequence of clipping, vibration, manoeuvres and vertical sensor errors",
 "Tests do not inject accelerometer faults.",
 ["EKF/control.cpp", "EKF/covariance.cpp"], [("checkVerticalAccelerationHealth, predictCovariance, fixCovarianceErrors", "EKF/control.cpp, EKF/covariance.cpp")], ["fault_status()", "getAccelBias()", "covariances()"])

prop("C32", "Estimator instances are deterministic and independent",
 "Two estimator instances given the same history produce bit-identical outputs at every step, whatever other instances run in between and whatever the memory held before; initialising an instance again clears its states, modes, faults and origin and lets it align anew.",
 ["schedules", "histories"], "every interleaving of several instances in one process",
 "Every test runs a single instance.",
 ["EKF/ekf.cpp", "EKF/estimator_interface.cpp"], [("no shared mutable state; Ekf::reset", "EKF/ekf.cpp")], ["all outputs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
