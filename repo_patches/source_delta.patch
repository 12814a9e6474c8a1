From 947f8913d740d86ef5371ada675179fffc0194c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 01/29] fix: RingBuffer must not return a sample from an empty
 buffer

pop_first_older_than() on a buffer that is empty (never written, or whose
newest sample was popped) compared the zeroed time stamp of the head slot
against the request and returned that slot as a measurement whenever the
request was below 100 ms.
---
 EKF/RingBuffer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EKF/RingBuffer.h b/EKF/RingBuffer.h
index bc36fcb..25e60bb 100644
--- a/EKF/RingBuffer.h
+++ b/EKF/RingBuffer.h
@@ -119,6 +119,11 @@ public:
 
 	bool pop_first_older_than(const uint64_t &timestamp, data_type *sample)
 	{
+		// an empty buffer still has a (zeroed) slot at the head, never return that one
+		if (_first_write) {
+			return false;
+		}
+
 		// start looking from newest observation data
 		for (uint8_t i = 0; i < _size; i++) {
 			int index = (_head - i);
-- 
2.43.0


From 44e1a40ff1f8dfad85f19f45e584fe118307709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 02/29] fix: great-circle distance is NaN for antipodal points

---
 geo/geo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index ec9e671..38e51d3 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -166,7 +166,7 @@ float get_distance_to_next_waypoint(double lat_now, double lon_now, double lat_n
 
 	const double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(lat_now_rad) * cos(lat_next_rad);
 
-	const double c = atan2(sqrt(a), sqrt(1.0 - a));
+	const double c = atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0))); // rounding can make a exceed 1 for antipodal points
 
 	return static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * 2.0 * c);
 }
@@ -416,7 +416,7 @@ float get_distance_to_point_global_wgs84(double lat_now, double lon_now, float a
 	double d_lon = y_rad - current_y_rad;
 
 	double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(current_x_rad) * cos(x_rad);
-	double c = 2 * atan2(sqrt(a), sqrt(1 - a));
+	double c = 2 * atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0))); // rounding can make a exceed 1 for antipodal points
 
 	const float dxy = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * c);
 	const float dz = static_cast<float>(alt_now - alt_next);
-- 
2.43.0


From 930818bae256ee14a802c1e0bc1dfd738e49f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 03/29] fix: optical flow gyro bias compares rates of opposite
 sign

---
 EKF/optflow_fusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a5b5415..c24d584 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -349,7 +349,8 @@ bool Ekf::calcOptFlowBodyRateComp()
 		    && (_flow_sample_delayed.dt > FLT_EPSILON)
 		    && (fabsf(_delta_time_of - _flow_sample_delayed.dt) < 0.1f)) {
 
-			const Vector3f reference_body_rate(_imu_del_ang_of * (1.0f / _delta_time_of));
+			// for clarification of the sign see definition of flowSample and imuSample in common.h
+			const Vector3f reference_body_rate(-_imu_del_ang_of * (1.0f / _delta_time_of));
 
 			const Vector3f measured_body_rate(_flow_sample_delayed.gyro_xyz * (1.0f / _flow_sample_delayed.dt));
 
-- 
2.43.0


From e1b4bfbe55772916461a0adbedb66d64e361b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 04/29] fix: division by zero when the sensor delays need a
 single-element observation buffer

---
 EKF/estimator_interface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index d94cd57..eabf8ed 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -516,6 +516,9 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 	// limit to be no longer than the IMU buffer (we can't process data faster than the EKF prediction rate)
 	_obs_buffer_length = math::min(_obs_buffer_length, _imu_buffer_length);
 
+	// the minimum observation interval is only defined for two or more observations
+	_obs_buffer_length = math::max(_obs_buffer_length, (uint8_t)2);
+
 	if (!_imu_buffer.allocate(_imu_buffer_length) || !_output_buffer.allocate(_imu_buffer_length) || !_output_vert_buffer.allocate(_imu_buffer_length)) {
 		printBufferAllocationFailed("IMU and output");
 		return false;
-- 
2.43.0


From a4efca933e73869d16d2aa5c65d294cebfc0878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 05/29] fix: subtract sensor delays from time stamps in integer
 arithmetic

---
 EKF/estimator_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index eabf8ed..ca0a312 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -153,7 +153,7 @@ void EstimatorInterface::setMagData(const magSample &mag_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
-		mag_sample_new.time_us -= _params.mag_delay_ms * 1000;
+		mag_sample_new.time_us -= static_cast<int64_t>(_params.mag_delay_ms * 1000);
 		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;
@@ -192,7 +192,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 
 		gpsSample gps_sample_new;
 
-		gps_sample_new.time_us = gps.time_usec - _params.gps_delay_ms * 1000;
+		gps_sample_new.time_us = gps.time_usec - static_cast<int64_t>(_params.gps_delay_ms * 1000);
 		gps_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		gps_sample_new.vel = gps.vel_ned;
@@ -264,7 +264,7 @@ void EstimatorInterface::setBaroData(const baroSample &baro_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
-		baro_sample_new.time_us -= _params.baro_delay_ms * 1000;
+		baro_sample_new.time_us -= static_cast<int64_t>(_params.baro_delay_ms * 1000);
 		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_baro_buffer.push(baro_sample_new);
@@ -298,7 +298,7 @@ void EstimatorInterface::setAirspeedData(const airspeedSample &airspeed_sample)
 
 		airspeedSample airspeed_sample_new = airspeed_sample;
 
-		airspeed_sample_new.time_us -= _params.airspeed_delay_ms * 1000;
+		airspeed_sample_new.time_us -= static_cast<int64_t>(_params.airspeed_delay_ms * 1000);
 		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_airspeed_buffer.push(airspeed_sample_new);
@@ -327,7 +327,7 @@ void EstimatorInterface::setRangeData(const rangeSample &range_sample)
 		_time_last_range = range_sample.time_us;
 
 		rangeSample range_sample_new = range_sample;
-		range_sample_new.time_us -= _params.range_delay_ms * 1000;
+		range_sample_new.time_us -= static_cast<int64_t>(_params.range_delay_ms * 1000);
 		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_range_buffer.push(range_sample_new);
@@ -357,7 +357,7 @@ void EstimatorInterface::setOpticalFlowData(const flowSample &flow)
 
 		flowSample optflow_sample_new = flow;
 
-		optflow_sample_new.time_us -= _params.flow_delay_ms * 1000;
+		optflow_sample_new.time_us -= static_cast<int64_t>(_params.flow_delay_ms * 1000);
 		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_flow_buffer.push(optflow_sample_new);
@@ -388,7 +388,7 @@ void EstimatorInterface::setExtVisionData(const extVisionSample &evdata)
 
 		extVisionSample ev_sample_new = evdata;
 		// calculate the system time-stamp for the mid point of the integration period
-		ev_sample_new.time_us -= _params.ev_delay_ms * 1000;
+		ev_sample_new.time_us -= static_cast<int64_t>(_params.ev_delay_ms * 1000);
 		ev_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_ext_vision_buffer.push(ev_sample_new);
@@ -418,7 +418,7 @@ void EstimatorInterface::setAuxVelData(const auxVelSample &auxvel_sample)
 
 		auxVelSample auxvel_sample_new = auxvel_sample;
 
-		auxvel_sample_new.time_us -= _params.auxvel_delay_ms * 1000;
+		auxvel_sample_new.time_us -= static_cast<int64_t>(_params.auxvel_delay_ms * 1000);
 		auxvel_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_auxvel_buffer.push(auxvel_sample_new);
-- 
2.43.0


From 7f96c992080fcf2a1825967a941862389a54e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 06/29] fix: set the innovation failure bits of magnetometer
 and flow axes, not those of their neighbours

---
 EKF/mag_fusion.cpp     | 4 ++--
 EKF/optflow_fusion.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 9d3a55a..ce152b4 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -176,10 +176,10 @@ void Ekf::fuseMag()
 
 		if (_mag_test_ratio(index) > 1.0f) {
 			all_innovation_checks_passed = false;
-			_innov_check_fail_status.value |= (1 << (index + 3));
+			_innov_check_fail_status.value |= (1 << (index + 4));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (index + 3));
+			_innov_check_fail_status.value &= ~(1 << (index + 4));
 		}
 	}
 
diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index c24d584..237f864 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -245,10 +245,10 @@ void Ekf::fuseOptFlow()
 	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
 		if (test_ratio[obs_index] > 1.0f) {
 			flow_fail = true;
-			_innov_check_fail_status.value |= (1 << (obs_index + 10));
+			_innov_check_fail_status.value |= (1 << (obs_index + 11));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (obs_index + 10));
+			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));
 
 		}
 	}
-- 
2.43.0


From b54083d9e30023b41887df349730ac1f47ef4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 07/29] fix: fault status word covers all its flags

---
 EKF/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/common.h b/EKF/common.h
index 28ec23a..37f3c85 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -407,7 +407,7 @@ union fault_status_u {
 		bool bad_acc_vertical: 1; ///< 16 - true if bad vertical accelerometer data has been detected
 		bool bad_acc_clipping: 1; ///< 17 - true if delta velocity data contains clipping (asymmetric railing)
 	} flags;
-	uint16_t value;
+	uint32_t value;
 
 };
 
-- 
2.43.0


From f3ff1e0d636e157c15c770a9ba7ee347a5e4e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:58 +0000
Subject: [PATCH 08/29] fix: initialise the vertical innovation monitors of the
 accelerometer health check

---
 EKF/ekf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index ade36dd..9d8ec49 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -401,10 +401,10 @@ private:
 	Vector3f _last_vel_obs;			///< last velocity observation (m/s)
 	Vector3f _last_vel_obs_var;		///< last velocity observation variance (m/s)**2
 	Vector2f _last_fail_hvel_innov;		///< last failed horizontal velocity innovation (m/s)**2
-	float _vert_pos_innov_ratio;		///< vertical position innovation divided by estimated standard deviation of innovation
-	uint64_t _vert_pos_fuse_attempt_time_us;	///< last system time in usec vertical position measurement fuson was attempted
-	float _vert_vel_innov_ratio;		///< standard deviation of vertical velocity innovation
-	uint64_t _vert_vel_fuse_time_us;	///< last system time in usec time vertical velocity measurement fuson was attempted
+	float _vert_pos_innov_ratio{0.0f};		///< vertical position innovation divided by estimated standard deviation of innovation
+	uint64_t _vert_pos_fuse_attempt_time_us{0};	///< last system time in usec vertical position measurement fuson was attempted
+	float _vert_vel_innov_ratio{0.0f};		///< standard deviation of vertical velocity innovation
+	uint64_t _vert_vel_fuse_time_us{0};	///< last system time in usec time vertical velocity measurement fuson was attempted
 
 	Vector3f _gps_vel_innov;	///< GPS velocity innovations (m/sec)
 	Vector3f _gps_vel_innov_var;	///< GPS velocity innovation variances ((m/sec)**2)
-- 
2.43.0


From 34378c338e7a51d548d30d689a0167338fb59067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 09/29] fix: limit rather than reject vertical innovations
 while the vertical acceleration is bad

---
 EKF/ekf.h              | 1 -
 EKF/vel_pos_fusion.cpp | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 9d8ec49..0f7aef0 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -524,7 +524,6 @@ private:
 	// imu fault status
 	uint64_t _time_bad_vert_accel{0};	///< last time a bad vertical accel was detected (uSec)
 	uint64_t _time_good_vert_accel{0};	///< last time a good vertical accel was detected (uSec)
-	bool _bad_vert_accel_detected{false};	///< true when bad vertical accelerometer data has been detected
 	uint16_t _clip_counter{0};		///< counter that increments when clipping ad decrements when not
 
 	// variables used to control range aid functionality
diff --git a/EKF/vel_pos_fusion.cpp b/EKF/vel_pos_fusion.cpp
index 9631304..f3b2bfb 100644
--- a/EKF/vel_pos_fusion.cpp
+++ b/EKF/vel_pos_fusion.cpp
@@ -86,7 +86,7 @@ bool Ekf::fuseVerticalVelocity(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
@@ -157,7 +157,7 @@ bool Ekf::fuseVerticalPosition(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
-- 
2.43.0


From da9e366973c28236f2761860c27e18e07d4aa903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:59 +0000
Subject: [PATCH 10/29] fix: move all height references with an explicitly set
 global origin

---
 EKF/ekf_helper.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 24e8c87..a1c70c9 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -718,6 +718,16 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 			// reset altitude
 			_gps_alt_ref = altitude;
 			resetVerticalPositionTo(_gps_alt_ref - current_alt);
+
+			// the other height references are relative to the local origin and have to move with it
+			_baro_hgt_offset += _state_reset_status.posD_change;
+			_terrain_vpos += _state_reset_status.posD_change;
+			_last_on_ground_posD += _state_reset_status.posD_change;
+
+			if (_control_status.flags.rng_hgt) {
+				_hgt_sensor_offset += _state_reset_status.posD_change;
+			}
+
 		} else {
 			// reset altitude
 			_gps_alt_ref = altitude;
-- 
2.43.0


From 0eeedd4e15482e9bd325f3062e3879c69183ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:18 +0000
Subject: [PATCH 11/29] fix: refer GNSS height to a current measurement when it
 becomes the height source

---
 EKF/ekf_helper.cpp | 3 ++-
 EKF/gps_checks.cpp | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index a1c70c9..a1b2e1c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1275,7 +1275,8 @@ void Ekf::startGpsHgtFusion()
 	// we have just switched to using gps height, calculate height sensor offset such that current
 	// measurement matches our current height estimate
 	if (_control_status_prev.flags.gps_hgt != _control_status.flags.gps_hgt) {
-		_hgt_sensor_offset = _gps_sample_delayed.hgt - _gps_alt_ref + _state.pos(2);
+		// use the newest measurement, the delayed one can be from before a loss of data
+		_hgt_sensor_offset = _gps_buffer.get_newest().hgt - _gps_alt_ref + _state.pos(2);
 	}
 }
 
diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index c2fdca1..5f74b1b 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -109,7 +109,10 @@ bool Ekf::collect_gps(const gps_message &gps)
 
 		// if the user has selected GPS as the primary height source, switch across to using it
 		if (_params.vdist_sensor_type == VDIST_SENSOR_GPS) {
-			startGpsHgtFusion();
+			setControlGPSHeight();
+
+			// the height of the origin has just been matched to this measurement, which is not yet in the buffer
+			_hgt_sensor_offset = 0.0f;
 		}
 
 		_information_events.flags.gps_checks_passed = true;
-- 
2.43.0


From aaa15749d31da460bc5f5d28970226be4ec5c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:03 +0000
Subject: [PATCH 12/29] fix: gather fresh data for the alignment after the
 filter is initialised again

---
 EKF/ekf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index 6ca20cb..966f18c 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -75,6 +75,11 @@ void Ekf::reset()
 
 	_filter_initialised = false;
 	_terrain_initialised = false;
+
+	// gather new inertial, magnetometer and barometer data for the alignment
+	_is_first_imu_sample = true;
+	_mag_counter = 0;
+	_baro_counter = 0;
 	_range_sensor.setPitchOffset(_params.rng_sens_pitch);
 	_range_sensor.setCosMaxTilt(_params.range_cos_max_tilt);
 	_range_sensor.setQualityHysteresis(_params.range_valid_quality_s);
-- 
2.43.0


From d4f6b9dfdd0360b6057aa34dfdbf867758e2db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:42 +0000
Subject: [PATCH 13/29] fix: fall back to the barometer when GNSS fusion is
 stopped while GNSS is the height source

stopGpsPosFusion() cleared gps_hgt and left no height source at all: the
height time-out logic only handles an active source, so that the height was
never corrected again, not even after GNSS had come back.
---
 EKF/ekf_helper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index a1b2e1c..8530d85 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1449,7 +1449,12 @@ void Ekf::stopGpsFusion()
 void Ekf::stopGpsPosFusion()
 {
 	_control_status.flags.gps = false;
-	_control_status.flags.gps_hgt = false;
+
+	if (_control_status.flags.gps_hgt) {
+		// do not leave the filter without a height source
+		startBaroHgtFusion();
+	}
+
 	_gps_pos_innov.setZero();
 	_gps_pos_innov_var.setZero();
 	_gps_pos_test_ratio.setZero();
-- 
2.43.0


From fdff2beee6162d8186b8a6a18200088675f08992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:25 +0000
Subject: [PATCH 14/29] fix: count accepted GNSS positions as absolute position
 when vision odometry is also used

---
 EKF/control.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 2a354f5..38023a4 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -717,6 +717,7 @@ void Ekf::controlGpsFusion()
 			// fuse GPS measurement
 			fuseHorizontalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
 			fuseVerticalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
+			_fuse_hpos_as_odom = false;
 			fuseHorizontalPosition(_gps_pos_innov, gps_pos_innov_gates, gps_pos_obs_var, _gps_pos_innov_var, _gps_pos_test_ratio);
 		}
 
-- 
2.43.0


From 194e7837bb7e423b02bfed622bc88aabaae8191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:58 +0000
Subject: [PATCH 15/29] fix: compute the vision innovation after a reset to
 vision

---
 EKF/control.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 38023a4..80e0842 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -277,8 +277,6 @@ void Ekf::controlExternalVisionFusion()
 					ev_pos_meas = _R_ev_to_ekf * ev_pos_meas;
 					ev_pos_var = _R_ev_to_ekf * ev_pos_var * _R_ev_to_ekf.transpose();
 				}
-				_ev_pos_innov(0) = _state.pos(0) - ev_pos_meas(0);
-				_ev_pos_innov(1) = _state.pos(1) - ev_pos_meas(1);
 
 				ev_pos_obs_var(0) = fmaxf(ev_pos_var(0, 0), sq(0.01f));
 				ev_pos_obs_var(1) = fmaxf(ev_pos_var(1, 1), sq(0.01f));
@@ -293,6 +291,9 @@ void Ekf::controlExternalVisionFusion()
 
 					resetHorizontalPosition();
 				}
+
+				_ev_pos_innov(0) = _state.pos(0) - ev_pos_meas(0);
+				_ev_pos_innov(1) = _state.pos(1) - ev_pos_meas(1);
 			}
 
 			// innovation gate size
@@ -306,9 +307,6 @@ void Ekf::controlExternalVisionFusion()
 
 			Vector2f ev_vel_innov_gates;
 
-			_last_vel_obs = getVisionVelocityInEkfFrame();
-			_ev_vel_innov = _state.vel - _last_vel_obs;
-
 			// check if we have been deadreckoning too long
 			if (isTimedOut(_time_last_hor_vel_fuse, _params.reset_timeout_max)) {
 				// only reset velocity if we have no another source of aiding constraining it
@@ -318,6 +316,9 @@ void Ekf::controlExternalVisionFusion()
 				}
 			}
 
+			_last_vel_obs = getVisionVelocityInEkfFrame();
+			_ev_vel_innov = _state.vel - _last_vel_obs;
+
 			_last_vel_obs_var = matrix::max(getVisionVelocityVarianceInEkfFrame(), sq(0.05f));
 
 			ev_vel_innov_gates.setAll(fmaxf(_params.ev_vel_innov_gate, 1.0f));
-- 
2.43.0


From 022a78f44216523a9778af4c802a54d9a68e967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:19 +0000
Subject: [PATCH 16/29] fix: do not fuse the first vision position as a change
 in position without noise

---
 EKF/control.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 80e0842..400b3ea 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -242,6 +242,9 @@ void Ekf::controlExternalVisionFusion()
 				_fuse_hpos_as_odom = false;
 			}
 
+			// a change in position can only be fused once there is a previous measurement
+			const bool can_fuse_hpos = !_fuse_hpos_as_odom || _hpos_prev_available;
+
 			if (_fuse_hpos_as_odom) {
 				if (!_hpos_prev_available) {
 					// no previous observation available to calculate position change
@@ -299,7 +302,9 @@ void Ekf::controlExternalVisionFusion()
 			// innovation gate size
 			ev_pos_innov_gates(0) = fmaxf(_params.ev_pos_innov_gate, 1.0f);
 
-			fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			if (can_fuse_hpos) {
+				fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			}
 		}
 
 		// determine if we should use the velocity observations
-- 
2.43.0


From 819668be694aefd9b7f7839d6639122b2127b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:05 +0000
Subject: [PATCH 17/29] fix: do not fuse the magnetic heading of a disturbed
 field while moving

---
 EKF/mag_fusion.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index ce152b4..b8b08d2 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -759,6 +759,11 @@ void Ekf::fuseHeading()
 				}
 				_last_static_yaw = predicted_hdg;
 
+				if (!fuse_zero_innov) {
+					// the yaw variance is small enough, there is nothing to fuse
+					return;
+				}
+
 			} else {
 				// Vehicle is at rest so use the last moving prediction as an observation
 				// to prevent the heading from drifting and to enable yaw gyro bias learning
@@ -810,6 +815,11 @@ void Ekf::fuseHeading()
 				}
 				_last_static_yaw = predicted_hdg;
 
+				if (!fuse_zero_innov) {
+					// the yaw variance is small enough, there is nothing to fuse
+					return;
+				}
+
 			} else {
 				// Vehicle is at rest so use the last moving prediction as an observation
 				// to prevent the heading from drifting and to enable yaw gyro bias learning
-- 
2.43.0


From 519d44432fa1c6cbb4aefb3fafba3b2a97cdb3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:30 +0000
Subject: [PATCH 18/29] fix: end declination fusion together with the
 magnetometer fusion

---
 EKF/ekf_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 8530d85..6ad1000 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1227,6 +1227,7 @@ void Ekf::stopMag3DFusion()
 	if (_control_status.flags.mag_3D) {
 		saveMagCovData();
 		_control_status.flags.mag_3D = false;
+		_control_status.flags.mag_dec = false;
 	}
 }
 
-- 
2.43.0


From 54f6a24530cab6b2568f5642745a4711f1de4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:24 +0000
Subject: [PATCH 19/29] fix: do not start vision yaw while GNSS yaw is used

---
 EKF/control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 400b3ea..748e65e 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -215,7 +215,7 @@ void Ekf::controlExternalVisionFusion()
 		}
 
 		// external vision yaw aiding selection logic
-		if (!_control_status.flags.gps && (_params.fusion_mode & MASK_USE_EVYAW) && !_control_status.flags.ev_yaw && _control_status.flags.tilt_align) {
+		if (!_control_status.flags.gps && !_control_status.flags.gps_yaw && (_params.fusion_mode & MASK_USE_EVYAW) && !_control_status.flags.ev_yaw && _control_status.flags.tilt_align) {
 			// don't start using EV data unless data is arriving frequently
 			if (isRecent(_time_last_ext_vision, 2 * EV_MAX_INTERVAL)) {
 				startEvYawFusion();
-- 
2.43.0


From aca3a9df0b558383566a5a558a3a5fe63bff0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:31 +0000
Subject: [PATCH 20/29] fix: stop GNSS yaw fusion when GNSS data stop and GNSS
 position is not used

---
 EKF/control.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 748e65e..da9398b 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -737,6 +737,10 @@ void Ekf::controlGpsFusion()
 		stopGpsFusion();
 		_warning_events.flags.gps_data_stopped_using_alternate = true;
 		ECL_WARN("GPS data stopped, using only EV, OF or air data" );
+
+	} else if (_control_status.flags.gps_yaw && (_imu_sample_delayed.time_us - _gps_sample_delayed.time_us > (uint64_t)10e6)) {
+		// let another source of yaw take over when only the heading of the GPS was used
+		stopGpsYawFusion();
 	}
 }
 
-- 
2.43.0


From aa46cd3b7b76ec6e4c4da8ac53a83b35b33be7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:07 +0000
Subject: [PATCH 21/29] fix: terrain initialised from optical flow no longer
 counts as range finder data

---
 EKF/terrain_estimator.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/EKF/terrain_estimator.cpp b/EKF/terrain_estimator.cpp
index 380fe1f..4aa2ef5 100644
--- a/EKF/terrain_estimator.cpp
+++ b/EKF/terrain_estimator.cpp
@@ -53,6 +53,7 @@ bool Ekf::initHagl()
 		// use the ground clearance value as our uncertainty
 		_terrain_var = sq(_params.rng_gnd_clearance);
 		_time_last_fake_hagl_fuse = _time_last_imu;
+		_time_last_hagl_fuse = _time_last_imu;
 		initialized = true;
 
 	} else if (shouldUseRangeFinderForHagl()
@@ -61,6 +62,7 @@ bool Ekf::initHagl()
 		_terrain_vpos = _state.pos(2) + _range_sensor.getDistBottom();
 		// initialise state variance to variance of measurement
 		_terrain_var = sq(_params.range_noise);
+		_time_last_hagl_fuse = _time_last_imu;
 		// success
 		initialized = true;
 
@@ -69,17 +71,14 @@ bool Ekf::initHagl()
 		// initialise terrain vertical position to origin as this is the best guess we have
 		_terrain_vpos = fmaxf(0.0f,  _state.pos(2));
 		_terrain_var = 100.0f;
+		// no range data has been used, so only the flow timer is updated
+		_time_last_flow_terrain_fuse = _time_last_imu;
 		initialized = true;
 
 	} else {
 		// no information - cannot initialise
 	}
 
-	if (initialized) {
-		// has initialized with valid data
-		_time_last_hagl_fuse = _time_last_imu;
-	}
-
 	return initialized;
 }
 
-- 
2.43.0


From 380bcedcc62d3f5ffd83a96f7e43e513d1c8f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:28 +0000
Subject: [PATCH 22/29] fix: undocumented bits of the solution status were
 uninitialised

---
 EKF/ekf_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 6ad1000..f65bc91 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -970,7 +970,7 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 // return a bitmask integer that describes which state estimates are valid
 void Ekf::get_ekf_soln_status(uint16_t *status) const
 {
-	ekf_solution_status soln_status;
+	ekf_solution_status soln_status{};
 	// TODO: Is this accurate enough?
 	soln_status.flags.attitude = _control_status.flags.tilt_align && _control_status.flags.yaw_align && (_fault_status.value == 0);
 	soln_status.flags.velocity_horiz = (isHorizontalAidingActive() || (_control_status.flags.fuse_beta && _control_status.flags.fuse_aspd)) && (_fault_status.value == 0);
-- 
2.43.0


From 38948045df33621ef5ec518d19418621d078ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:54 +0000
Subject: [PATCH 23/29] fix: keep an inhibited accel bias uncorrelated so it is
 not modified

---
 EKF/covariance.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index 94bafce..aad3327 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -159,6 +159,9 @@ void Ekf::predictCovariance()
 			if (!_accel_bias_inhibit[index]) {
 				_prev_dvel_bias_var(index) = P(stateIndex, stateIndex);
 				_accel_bias_inhibit[index] = true;
+
+				// remove the correlation with all other states, otherwise the bias would still be modified through it
+				P.uncorrelateCovariance<1>(stateIndex);
 			}
 
 		} else {
-- 
2.43.0


From 60be852adfbdca635c96859d3694f552aef5e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:29 +0000
Subject: [PATCH 24/29] fix: do not count time without the accel bias check as
 a continuous failure

---
 EKF/covariance.cpp                       |   3 +
 test/change_indication/ekf_gsf_reset.csv | 110 +++++++++++------------
 test/change_indication/iris_gps.csv      |  50 +++++------
 3 files changed, 83 insertions(+), 80 deletions(-)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index aad3327..f521abc 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -982,6 +982,9 @@ void Ekf::fixCovarianceErrors(bool force_symmetry)
 			P.makeRowColSymmetric<3>(13);
 		}
 
+	} else {
+		// the check is not running, do not count this time as a continuous failure
+		_time_acc_bias_check = _time_last_imu;
 	}
 
 	// magnetic field states
diff --git a/test/change_indication/ekf_gsf_reset.csv b/test/change_indication/ekf_gsf_reset.csv
index df78fec..169b64a 100644
--- a/test/change_indication/ekf_gsf_reset.csv
+++ b/test/change_indication/ekf_gsf_reset.csv
@@ -334,58 +334,58 @@ Timestamp,state[0],state[1],state[2],state[3],state[4],state[5],state[6],state[7
 33185000,0.710888,0.00241459,-0.00217875,0.703298,-1.29883,-0.765131,0.593922,-14.8205,-7.06737,-366.7,-1.18847e-05,-6.05084e-05,2.01592e-06,-0.000270726,0.000142677,-0.00073644,0.214277,0.00208335,0.429347,-0.00353318,0.00277453,0.00372568,0,0,9.27042e-05,1.33282e-05,1.32519e-05,9.25788e-05,0.0235758,0.0240803,0.0155051,0.333611,0.334713,0.0741049,3.64072e-11,3.63471e-11,2.5772e-10,2.10102e-07,2.11668e-07,1.77738e-06,0.000608686,1.47664e-05,0.000598685,8.21121e-05,0.000608032,0.000594186,0,0
 33285000,0.662562,0.015418,-0.00100579,0.748848,-1.29439,-0.748369,0.561121,-14.95,-7.14295,-366.643,-1.18879e-05,-6.04894e-05,2.03757e-06,-0.000268648,0.000143239,-0.000733442,0.213945,0.00210311,0.429077,-0.00340552,0.00298205,0.00342828,0,0,9.67402e-05,1.34636e-05,1.33789e-05,8.51964e-05,0.0246797,0.025193,0.0153847,0.346256,0.347221,0.0740944,3.64923e-11,3.62941e-11,2.576e-10,2.08209e-07,2.115e-07,1.77054e-06,0.000539336,1.44753e-05,0.000531833,7.40981e-05,0.000538912,0.000529374,0,0
 33385000,0.56194,0.0136439,-0.00171883,0.827064,-1.29239,-0.735526,0.752537,-15.0829,-7.21533,-366.577,-1.19153e-05,-6.04638e-05,2.055e-06,-0.000266328,0.000145125,-0.000731766,0.212892,0.00211986,0.42939,-0.0031222,0.00331461,0.00362746,0,0,0.000105866,1.34114e-05,1.32786e-05,7.38291e-05,0.023306,0.0237315,0.0147871,0.343011,0.344174,0.0727724,3.64645e-11,3.61751e-11,2.57445e-10,2.06895e-07,2.11359e-07,1.7676e-06,0.00049478,1.42737e-05,0.000508139,6.86062e-05,0.000493244,0.000506453,0,0
-33485000,0.426066,0.00720653,0.000960051,0.904663,-1.27601,-0.731435,0.779909,-15.2115,-7.28864,-366.498,-1.1911e-05,-6.04723e-05,2.04511e-06,-0.000266328,0.000145125,-0.000731766,0.213259,0.00211309,0.429498,-0.00319724,0.00359752,0.00374385,0,0,0.00011672,1.36075e-05,1.34045e-05,6.25852e-05,0.0243605,0.0247897,0.0148326,0.355585,0.356618,0.0740757,3.65533e-11,3.622e-11,2.57462e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000440113,1.41665e-05,0.000498504,6.60528e-05,0.00043575,0.000497138,0,0
-33585000,0.269734,0.00113683,-0.00138258,0.962933,-1.23607,-0.729362,0.743612,-15.322,-7.34736,-366.427,-1.18871e-05,-6.04349e-05,2.01291e-06,-0.000266328,0.000145122,-0.000731786,0.211614,0.00208907,0.429369,-0.00292761,0.00275334,0.00366745,0,0,0.000125042,1.35449e-05,1.32787e-05,5.36525e-05,0.02331,0.0236864,0.0146937,0.352522,0.353748,0.0727513,3.64941e-11,3.61387e-11,2.57385e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000343212,1.40437e-05,0.000490307,6.41582e-05,0.000333192,0.00048915,0,0
-33685000,0.103505,-0.00226185,-0.00449534,0.994616,-1.18334,-0.727982,0.75029,-15.443,-7.42035,-366.352,-1.18993e-05,-6.04391e-05,2.00508e-06,-0.000266328,0.000145122,-0.000731786,0.210695,0.00207531,0.429445,-0.00288469,0.00191111,0.00377231,0,0,0.000129573,1.36972e-05,1.33591e-05,4.88699e-05,0.0244999,0.0249155,0.0152585,0.364796,0.365892,0.0726485,3.65793e-11,3.61906e-11,2.57393e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000253197,1.39017e-05,0.000484874,6.25717e-05,0.000238003,0.000483832,0,0
-33785000,-0.0663401,-0.00390996,-0.0062909,0.99777,-1.12328,-0.71154,0.733963,-15.5654,-7.47968,-366.276,-1.19404e-05,-6.04526e-05,1.87679e-06,-0.000266328,0.000145122,-0.000731784,0.20955,0.00199373,0.429108,-0.00260926,0.00123891,0.00358474,0,0,0.000128572,1.34819e-05,1.30928e-05,4.84971e-05,0.0235272,0.023908,0.0157943,0.362151,0.363442,0.0713928,3.64724e-11,3.6038e-11,2.57233e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000187019,1.37188e-05,0.000480955,6.02029e-05,0.00016874,0.000480002,0,0
-33885000,-0.234009,-0.00508546,-0.00695449,0.972196,-1.05603,-0.690768,0.720631,-15.6739,-7.5504,-366.204,-1.19524e-05,-6.05245e-05,1.77004e-06,-0.000266328,0.000145122,-0.000731785,0.208589,0.00190035,0.428982,-0.00234284,0.000574419,0.00359838,0,0,0.000122756,1.35036e-05,1.30867e-05,5.27514e-05,0.0248608,0.0252724,0.0170759,0.374141,0.375291,0.0712999,3.65663e-11,3.60413e-11,2.57118e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000143472,1.3498e-05,0.00047802,5.68317e-05,0.000123875,0.000477141,0,0
-33985000,-0.381939,-0.00369688,-0.0103952,0.924122,-1.00048,-0.653388,0.692583,-15.8037,-7.60724,-366.134,-1.20688e-05,-6.05221e-05,1.64175e-06,-0.000266608,0.000144665,-0.000732828,0.208763,0.00185231,0.42889,-0.00208553,0.000718522,0.00359019,0,0,0.000113103,1.30788e-05,1.26949e-05,5.93383e-05,0.0239473,0.0243011,0.0182054,0.371878,0.373231,0.0701546,3.64086e-11,3.57939e-11,2.56803e-10,2.06874e-07,2.11284e-07,1.75308e-06,0.000115499,1.32551e-05,0.000475682,5.28006e-05,9.60194e-05,0.000474874,0,0
-34085000,-0.490326,-0.00249807,-0.0120762,0.871452,-0.944677,-0.609451,0.693689,-15.9007,-7.67064,-366.064,-1.20713e-05,-6.05502e-05,1.59619e-06,-0.000267159,0.000143732,-0.000725237,0.208596,0.00181653,0.428956,-0.0019901,0.000550901,0.00368677,0,0,0.00010446,1.29693e-05,1.26595e-05,6.62452e-05,0.025397,0.0257461,0.020512,0.383601,0.3848,0.0714424,3.6507e-11,3.58038e-11,2.56674e-10,2.06846e-07,2.11228e-07,1.73436e-06,0.00010151,1.30725e-05,0.00047425,4.96821e-05,8.23328e-05,0.000473494,0,0
-34185000,-0.561838,-0.0023616,-0.0107081,0.827175,-0.916101,-0.564044,0.696069,-16.0446,-7.73729,-365.993,-1.23148e-05,-6.06127e-05,1.5016e-06,-0.000269612,0.000145314,-0.000732628,0.208926,0.00178945,0.428841,-0.00178803,0.000555404,0.00361652,0,0,9.64223e-05,1.24265e-05,1.21886e-05,7.03691e-05,0.0244983,0.0247593,0.0224592,0.381688,0.383095,0.0704114,3.62981e-11,3.55166e-11,2.56291e-10,2.06775e-07,2.11165e-07,1.71295e-06,8.82799e-05,1.28405e-05,0.000472596,4.57747e-05,6.99727e-05,0.0004719,0,0
-34285000,-0.606375,-0.00322325,-0.00778651,0.795134,-0.865015,-0.516515,0.694471,-16.1334,-7.79159,-365.924,-1.23146e-05,-6.06516e-05,1.43204e-06,-0.000270562,0.000145204,-0.000733531,0.209028,0.00174307,0.428811,-0.00154378,0.000547207,0.00362797,0,0,9.11355e-05,1.23023e-05,1.21146e-05,7.32093e-05,0.026094,0.0263207,0.0257276,0.393159,0.394408,0.0706729,3.63975e-11,3.55189e-11,2.5609e-10,2.06734e-07,2.11152e-07,1.69605e-06,7.95508e-05,1.2633e-05,0.000471314,4.23654e-05,6.17564e-05,0.000470657,0,0
-34385000,-0.63339,-0.00395822,-0.00501055,0.773806,-0.833521,-0.47529,0.69416,-16.2683,-7.85174,-365.856,-1.25758e-05,-6.07175e-05,1.35354e-06,-0.000274749,0.000149984,-0.000737657,0.209401,0.00172897,0.4287,-0.00136685,0.000545746,0.00352121,0,0,8.66959e-05,1.1763e-05,1.16065e-05,7.38032e-05,0.0251898,0.0253413,0.0282768,0.391562,0.393015,0.0698397,3.61452e-11,3.52311e-11,2.55711e-10,2.06545e-07,2.10978e-07,1.67725e-06,7.29444e-05,1.24476e-05,0.000470129,3.9489e-05,5.5975e-05,0.000469505,0,0
-34485000,-0.649776,-0.00489922,-0.00276426,0.760105,-0.777657,-0.433436,0.692738,-16.3487,-7.89739,-365.789,-1.25761e-05,-6.0747e-05,1.29503e-06,-0.00027521,0.000149989,-0.000734915,0.209328,0.00169077,0.428704,-0.00125812,0.000386118,0.00354749,0,0,8.42166e-05,1.1677e-05,1.15374e-05,7.44306e-05,0.0268962,0.0270117,0.0324777,0.402799,0.40409,0.0704694,3.62451e-11,3.52659e-11,2.55549e-10,2.06517e-07,2.1097e-07,1.66523e-06,6.83873e-05,1.22867e-05,0.000469196,3.70852e-05,5.17452e-05,0.000468588,0,0
-34585000,-0.659745,-0.00518388,-0.00147351,0.751471,-0.752201,-0.404342,0.692008,-16.4927,-7.96695,-365.72,-1.29558e-05,-6.08863e-05,1.27115e-06,-0.000283788,0.000159174,-0.000728938,0.209659,0.00170125,0.428679,-0.00122038,0.000248819,0.00351529,0,0,8.14276e-05,1.11459e-05,1.10131e-05,7.35467e-05,0.0259375,0.0259961,0.0351484,0.401488,0.402977,0.0698508,3.59592e-11,3.49826e-11,2.55183e-10,2.06145e-07,2.10588e-07,1.64402e-06,6.44054e-05,1.21406e-05,0.000468214,3.50728e-05,4.84927e-05,0.000467629,0,0
-34685000,-0.66595,-0.00555211,-0.000648663,0.745976,-0.694115,-0.363285,0.688328,-16.5649,-8.00547,-365.648,-1.29564e-05,-6.09039e-05,1.22236e-06,-0.00028461,0.000159551,-0.000731094,0.209885,0.00167853,0.428679,-0.00100753,0.000346705,0.00347665,0,0,8.01482e-05,1.10811e-05,1.09518e-05,7.34538e-05,0.0277391,0.0277594,0.040042,0.412505,0.413832,0.0709598,3.6059e-11,3.50411e-11,2.55053e-10,2.06127e-07,2.10582e-07,1.63485e-06,6.16689e-05,1.20135e-05,0.000467472,3.33787e-05,4.59591e-05,0.000466895,0,0
-34785000,-0.669912,-0.0052272,-0.000246351,0.742422,-0.670436,-0.338212,0.687368,-16.7019,-8.07185,-365.576,-1.33663e-05,-6.10783e-05,1.1612e-06,-0.000296362,0.00017335,-0.000742647,0.210432,0.00167407,0.428576,-0.000806804,0.000261241,0.00332926,0,0,7.8199e-05,1.05594e-05,1.04295e-05,7.22293e-05,0.0266968,0.026678,0.0426152,0.411452,0.41297,0.071791,3.57511e-11,3.47696e-11,2.54744e-10,2.05533e-07,2.09952e-07,1.61043e-06,5.94172e-05,1.19221e-05,0.00046677,3.22761e-05,4.43555e-05,0.000466216,0,0
-34885000,-0.67244,-0.00526043,-0.000125749,0.740133,-0.614073,-0.30013,0.685862,-16.766,-8.10388,-365.506,-1.33653e-05,-6.1093e-05,1.12088e-06,-0.000296556,0.000173517,-0.000744162,0.210399,0.00165256,0.428564,-0.000749811,0.00016656,0.00332937,0,0,7.74073e-05,1.05081e-05,1.03774e-05,7.19241e-05,0.0285578,0.0284968,0.0479181,0.422266,0.423622,0.0734986,3.58506e-11,3.4842e-11,2.5463e-10,2.05522e-07,2.09948e-07,1.60272e-06,5.75142e-05,1.18153e-05,0.00046615,3.09936e-05,4.2596e-05,0.000465605,0,0
-34985000,-0.675685,-0.0120163,-0.0024368,0.737088,0.357345,0.329479,-0.0970459,-16.8435,-8.13196,-365.5,-1.38786e-05,-6.13299e-05,1.07189e-06,-0.000313486,0.000193535,-0.000748856,0.210972,0.00165512,0.428519,-0.000586467,-2.66957e-05,0.00332692,0,0,7.52975e-05,9.97792e-06,9.90792e-06,7.04547e-05,0.0290368,0.0302123,0.0511863,0.421376,0.422832,0.0732553,3.55328e-11,3.45687e-11,2.54264e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.53337e-05,1.17121e-05,0.000465304,2.98813e-05,4.10884e-05,0.00046478,0,0
-35085000,-0.67584,-0.0123953,-0.00283684,0.736939,0.577989,0.350282,-0.199385,-16.7881,-8.09876,-365.511,-1.38758e-05,-6.13429e-05,1.02504e-06,-0.000313486,0.000193535,-0.00074885,0.210937,0.00163284,0.428506,-0.000537103,-0.000131735,0.0033836,0,0,7.48389e-05,9.93797e-06,9.8702e-06,7.00048e-05,0.0309251,0.0324707,0.0546483,0.431945,0.433108,0.0756281,3.56318e-11,3.46514e-11,2.54161e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.39832e-05,1.16216e-05,0.000464711,2.89137e-05,3.98462e-05,0.000464185,0,0
-35185000,-0.675891,-0.0124129,-0.00287289,0.736891,0.60919,0.388142,-0.182121,-16.7286,-8.062,-365.512,-1.38637e-05,-6.13441e-05,9.60047e-07,-0.000313486,0.000193535,-0.000748847,0.21109,0.00161565,0.428709,-0.000447104,-0.000105182,0.00361796,0,0,7.34313e-05,9.90118e-06,9.83239e-06,6.83702e-05,0.032642,0.0341792,0.0525273,0.443081,0.443973,0.0751561,3.57289e-11,3.47362e-11,2.54057e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.26904e-05,1.15373e-05,0.000463895,2.80647e-05,3.87512e-05,0.00046339,0,0
-35285000,-0.675933,-0.0124221,-0.00294693,0.736853,0.642375,0.426542,-0.177607,-16.6659,-8.02141,-365.52,-1.38606e-05,-6.13551e-05,8.99384e-07,-0.000313486,0.000193534,-0.00074884,0.211131,0.00159263,0.428737,-0.00035206,-0.00015847,0.00370298,0,0,7.30667e-05,9.86887e-06,9.79834e-06,6.79656e-05,0.0344415,0.0359626,0.0551622,0.454835,0.455484,0.0777593,3.58272e-11,3.48248e-11,2.53959e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.16831e-05,1.14582e-05,0.000463384,2.7316e-05,3.78322e-05,0.000462881,0,0
-35385000,-0.676018,-0.0124553,-0.00293386,0.736774,0.674415,0.464259,-0.159145,-16.6001,-7.97721,-365.517,-1.3851e-05,-6.13625e-05,8.1382e-07,-0.000313486,0.000193534,-0.000748836,0.211223,0.001567,0.428809,-0.000258176,-0.000205637,0.0038431,0,0,7.19249e-05,9.83991e-06,9.76891e-06,6.65702e-05,0.0363044,0.0378081,0.0531504,0.46726,0.46769,0.0785913,3.59245e-11,3.49167e-11,2.53907e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.0881e-05,1.14021e-05,0.000462761,2.68084e-05,3.71867e-05,0.000462282,0,0
-35485000,-0.676141,-0.0124736,-0.0029406,0.736661,0.707733,0.501426,-0.155267,-16.5309,-7.92919,-365.524,-1.38481e-05,-6.13738e-05,7.39139e-07,-0.000313486,0.000193534,-0.00074883,0.211268,0.00154109,0.428815,-0.000148519,-0.000266641,0.0039132,0,0,7.16135e-05,9.81283e-06,9.74046e-06,6.62165e-05,0.0382485,0.0397274,0.0555118,0.480411,0.480648,0.0813897,3.6022e-11,3.50088e-11,2.5381e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.00728e-05,1.13303e-05,0.000462305,2.61956e-05,3.6456e-05,0.000461829,0,0
-35585000,-0.676193,-0.0124779,-0.00296764,0.736613,0.740095,0.539642,-0.140089,-16.4588,-7.87748,-365.522,-1.38379e-05,-6.13761e-05,6.95839e-07,-0.000313197,0.000193609,-0.000751262,0.211269,0.00152852,0.428865,-0.000146924,-0.000330596,0.00401534,0,0,7.04194e-05,9.78684e-06,9.71397e-06,6.47568e-05,0.0402607,0.0417132,0.0527154,0.49434,0.494411,0.0803749,3.61182e-11,3.51016e-11,2.53707e-10,2.04666e-07,2.09046e-07,1.57155e-06,4.9231e-05,1.12619e-05,0.000461624,2.56434e-05,3.57746e-05,0.000461176,0,0
-35685000,-0.67624,-0.0124717,-0.00292886,0.73657,0.772992,0.577719,-0.136467,-16.3833,-7.82182,-365.531,-1.38405e-05,-6.1383e-05,6.41725e-07,-0.000313736,0.000194007,-0.000760654,0.211305,0.00151212,0.428799,-6.98616e-05,-0.000366844,0.00398919,0,0,7.01632e-05,9.7648e-06,9.69037e-06,6.44357e-05,0.0423899,0.0438051,0.055035,0.509113,0.509039,0.0831493,3.62148e-11,3.51963e-11,2.53607e-10,2.04647e-07,2.09048e-07,1.56455e-06,4.85819e-05,1.11964e-05,0.000461217,2.51453e-05,3.51953e-05,0.000460774,0,0
-35785000,-0.676288,-0.0125068,-0.00296281,0.736525,0.806156,0.615829,-0.120781,-16.3048,-7.76248,-365.525,-1.3834e-05,-6.13771e-05,5.80881e-07,-0.000313942,0.000194024,-0.000765171,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.8735e-05,9.74538e-06,9.6704e-06,6.28032e-05,0.0445684,0.0459011,0.0525408,0.524781,0.524591,0.081865,3.63121e-11,3.52921e-11,2.53305e-10,2.04637e-07,2.09049e-07,1.56022e-06,0,0,0,0,0,0,0,0
-35885000,-0.67636,-0.01252,-0.00302867,0.736458,0.838681,0.65548,-0.115866,-16.2227,-7.6988,-365.529,-1.38323e-05,-6.13725e-05,5.25455e-07,-0.000313942,0.000194024,-0.000765549,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.77933e-05,9.73037e-06,9.65402e-06,6.19249e-05,0.0467849,0.0479708,0.0551249,0.54142,0.541124,0.084572,3.64119e-11,3.53895e-11,2.52808e-10,2.04637e-07,2.09049e-07,1.56021e-06,0,0,0,0,0,0,0,0
-35985000,-0.676399,-0.0124782,-0.00303801,0.736423,0.871211,0.693032,-0.103969,-16.1377,-7.63156,-365.526,-1.38285e-05,-6.13669e-05,4.88894e-07,-0.000313942,0.000194024,-0.000774204,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.61447e-05,9.71691e-06,9.63878e-06,6.01483e-05,0.0490571,0.050095,0.0528077,0.559076,0.55869,0.0830463,3.65112e-11,3.54864e-11,2.52303e-10,2.04637e-07,2.09049e-07,1.55552e-06,0,0,0,0,0,0,0,0
-36085000,-0.676456,-0.0125275,-0.00305261,0.73637,0.90378,0.732396,-0.100083,-16.0492,-7.56004,-365.53,-1.3827e-05,-6.13629e-05,4.39287e-07,-0.000313942,0.000194024,-0.000775005,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.55639e-05,9.70648e-06,9.62724e-06,5.95964e-05,0.0514157,0.0523142,0.0561848,0.577839,0.577362,0.0875215,3.6611e-11,3.55845e-11,2.51948e-10,2.04637e-07,2.09049e-07,1.55545e-06,0,0,0,0,0,0,0,0
-36185000,-0.6766,-0.0125269,-0.00308337,0.736238,0.935093,0.7722,-0.0871626,-15.9582,-7.48412,-365.523,-1.38226e-05,-6.13501e-05,2.80029e-07,-0.000313942,0.000194024,-0.000786304,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.40624e-05,9.69698e-06,9.61614e-06,5.79684e-05,0.0538238,0.0545559,0.053838,0.597747,0.597179,0.0857091,3.67105e-11,3.56816e-11,2.51433e-10,2.04637e-07,2.09049e-07,1.5453e-06,0,0,0,0,0,0,0,0
-36285000,-0.676704,-0.0126035,-0.00307002,0.736141,0.967181,0.81187,-0.0789005,-15.8637,-7.40455,-365.517,-1.382e-05,-6.13435e-05,2.01256e-07,-0.000313942,0.000194024,-0.000789142,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.32293e-05,9.69006e-06,9.60789e-06,5.71857e-05,0.0563139,0.0568662,0.0566799,0.618903,0.618221,0.0883153,3.68103e-11,3.57792e-11,2.50916e-10,2.04637e-07,2.09049e-07,1.54502e-06,0,0,0,0,0,0,0,0
-36385000,-0.676732,-0.0126384,-0.00309595,0.736114,0.999661,0.848894,-0.0691268,-15.766,-7.32149,-365.512,-1.38176e-05,-6.13386e-05,1.55628e-07,-0.000313942,0.000194024,-0.000801643,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.18832e-05,9.6845e-06,9.60106e-06,5.5736e-05,0.0588573,0.0592295,0.054266,0.641343,0.640538,0.0863257,3.69099e-11,3.58765e-11,2.50391e-10,2.04637e-07,2.09049e-07,1.52852e-06,0,0,0,0,0,0,0,0
-36485000,-0.676734,-0.0126987,-0.0031555,0.736112,1.03346,0.887305,-0.0655258,-15.6644,-7.23477,-365.513,-1.3817e-05,-6.13379e-05,1.54062e-07,-0.000313942,0.000194024,-0.000803096,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.11071e-05,9.68093e-06,9.59658e-06,5.50027e-05,0.061479,0.0616594,0.0570657,0.665181,0.664212,0.0888094,3.70098e-11,3.59742e-11,2.49863e-10,2.04637e-07,2.09049e-07,1.52786e-06,0,0,0,0,0,0,0,0
-36585000,-0.676881,-0.0127518,-0.00314686,0.735976,1.06495,0.927187,-0.0536225,-15.5606,-7.14315,-365.506,-1.38146e-05,-6.13294e-05,3.89313e-08,-0.000313942,0.000194024,-0.000816021,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.99123e-05,9.67948e-06,9.59379e-06,5.37313e-05,0.0641516,0.0641332,0.0545208,0.690446,0.689291,0.0866822,3.71095e-11,3.60717e-11,2.49326e-10,2.04637e-07,2.09049e-07,1.50489e-06,0,0,0,0,0,0,0,0
-36685000,-0.676995,-0.0127419,-0.00312191,0.735871,1.09752,0.967258,-0.0490914,-15.453,-7.04746,-365.505,-1.38134e-05,-6.13238e-05,-4.61458e-08,-0.000313942,0.000194024,-0.000818317,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.94595e-05,9.68048e-06,9.59324e-06,5.32994e-05,0.0669102,0.0667076,0.0579501,0.717275,0.715897,0.0911267,3.72094e-11,3.61701e-11,2.48947e-10,2.04637e-07,2.09049e-07,1.50407e-06,0,0,0,0,0,0,0,0
-36785000,-0.677141,-0.0127838,-0.00316161,0.735736,1.12961,1.00772,-0.0400942,-15.3427,-6.94755,-365.499,-1.38116e-05,-6.13165e-05,-1.54766e-07,-0.000313942,0.000194024,-0.000825523,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.83994e-05,9.6826e-06,9.59428e-06,5.21836e-05,0.0697154,0.0692997,0.055194,0.745678,0.74402,0.0887926,3.73093e-11,3.62677e-11,2.48401e-10,2.04637e-07,2.09049e-07,1.4751e-06,0,0,0,0,0,0,0,0
-36885000,-0.677288,-0.0128397,-0.00317844,0.735599,1.16178,1.04664,-0.0360093,-15.2289,-6.8432,-365.497,-1.38105e-05,-6.13095e-05,-2.70626e-07,-0.000313942,0.000194024,-0.000828044,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.77328e-05,9.68688e-06,9.59744e-06,5.15583e-05,0.0725987,0.0719597,0.0578104,0.775804,0.773786,0.0912049,3.74092e-11,3.63656e-11,2.47851e-10,2.04637e-07,2.09049e-07,1.47341e-06,0,0,0,0,0,0,0,0
-36985000,-0.677394,-0.0128537,-0.00312659,0.735501,1.19462,1.08663,-0.0304608,-15.1119,-6.73531,-365.493,-1.38095e-05,-6.13039e-05,-3.59273e-07,-0.000313942,0.000194024,-0.000832236,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.68105e-05,9.69334e-06,9.60219e-06,5.05959e-05,0.075537,0.074672,0.0549141,0.807669,0.80524,0.0887915,3.75091e-11,3.64635e-11,2.47293e-10,2.04637e-07,2.09049e-07,1.43938e-06,0,0,0,0,0,0,0,0
-37085000,-0.677453,-0.0128821,-0.00311325,0.735446,1.2277,1.12549,-0.0245781,-14.9914,-6.62386,-365.49,-1.38087e-05,-6.13003e-05,-4.17063e-07,-0.000313942,0.000194024,-0.000835197,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.62002e-05,9.70156e-06,9.60904e-06,5.00214e-05,0.0785466,0.077446,0.0573278,0.84143,0.838488,0.091116,3.7609e-11,3.65614e-11,2.46731e-10,2.04637e-07,2.09049e-07,1.43694e-06,0,0,0,0,0,0,0,0
-37185000,-0.677536,-0.0129205,-0.00311654,0.735369,1.26106,1.16438,-0.0183439,-14.8675,-6.50877,-365.489,-1.38084e-05,-6.12977e-05,-4.60199e-07,-0.000313942,0.000194024,-0.000841982,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.53965e-05,9.71154e-06,9.61792e-06,4.92019e-05,0.0816098,0.0802706,0.0543124,0.877099,0.873576,0.0886488,3.7709e-11,3.66594e-11,2.46162e-10,2.04637e-07,2.09049e-07,1.39899e-06,0,0,0,0,0,0,0,0
-37285000,-0.677628,-0.0129386,-0.00315938,0.735284,1.29378,1.20386,-0.0138961,-14.7406,-6.38872,-365.486,-1.38078e-05,-6.12925e-05,-5.51711e-07,-0.000313942,0.000194024,-0.000844694,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.48382e-05,9.72328e-06,9.6286e-06,4.86786e-05,0.0847513,0.083162,0.0565017,0.914841,0.910615,0.0908836,3.78089e-11,3.67574e-11,2.45588e-10,2.04637e-07,2.09049e-07,1.39576e-06,0,0,0,0,0,0,0,0
-37385000,-0.677725,-0.0129784,-0.00312018,0.735194,1.32608,1.24208,-0.00986812,-14.6101,-6.26541,-365.485,-1.38076e-05,-6.12895e-05,-6.06745e-07,-0.000313942,0.000194024,-0.000848374,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.43609e-05,9.73757e-06,9.64189e-06,4.81792e-05,0.0879492,0.0861315,0.0540686,0.954682,0.949732,0.0903817,3.79089e-11,3.6856e-11,2.45176e-10,2.04637e-07,2.09049e-07,1.35591e-06,0,0,0,0,0,0,0,0
-37485000,-0.677858,-0.0129958,-0.00311696,0.735071,1.35849,1.28343,-0.00607689,-14.4769,-6.13677,-365.484,-1.38072e-05,-6.12836e-05,-7.18004e-07,-0.000313942,0.000194024,-0.000849374,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.38451e-05,9.75333e-06,9.65648e-06,4.77032e-05,0.0912182,0.0891355,0.0560737,0.996769,0.990895,0.0926213,3.80088e-11,3.69541e-11,2.44591e-10,2.04637e-07,2.09049e-07,1.35215e-06,0,0,0,0,0,0,0,0
-37585000,-0.677954,-0.0130271,-0.0031181,0.734982,1.38986,1.3234,0.00256077,-14.3407,-6.00458,-365.476,-1.38068e-05,-6.12781e-05,-8.18624e-07,-0.000313942,0.000194024,-0.000859484,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.32371e-05,9.77102e-06,9.67307e-06,4.70977e-05,0.0945395,0.0921865,0.0528784,1.04112,1.03422,0.0899944,3.81088e-11,3.70522e-11,2.43999e-10,2.04637e-07,2.09049e-07,1.30984e-06,0,0,0,0,0,0,0,0
-37685000,-0.67804,-0.013075,-0.00317135,0.734902,1.42163,1.36455,0.0108397,-14.2014,-5.86834,-365.467,-1.38062e-05,-6.12729e-05,-9.11594e-07,-0.000313942,0.000194024,-0.000866246,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.27684e-05,9.7904e-06,9.69175e-06,4.66644e-05,0.0979367,0.0953044,0.0546365,1.08793,1.07984,0.0921294,3.82088e-11,3.71504e-11,2.43401e-10,2.04637e-07,2.09049e-07,1.30533e-06,0,0,0,0,0,0,0,0
-37785000,-0.678121,-0.0130514,-0.00322254,0.734828,1.45329,1.40449,0.0178645,-14.0586,-5.72849,-365.459,-1.3806e-05,-6.12691e-05,-9.80399e-07,-0.000313942,0.000194024,-0.000872422,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.22371e-05,9.8116e-06,9.71197e-06,4.61495e-05,0.101387,0.0984724,0.0514415,1.1372,1.12779,0.0894858,3.83087e-11,3.72486e-11,2.42796e-10,2.04637e-07,2.09049e-07,1.26245e-06,0,0,0,0,0,0,0,0
-37885000,-0.678196,-0.0130579,-0.0032352,0.734758,1.48537,1.44503,0.0208658,-13.9122,-5.58424,-365.459,-1.38059e-05,-6.1266e-05,-1.04636e-06,-0.000313942,0.000194024,-0.000870652,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.1808e-05,9.83496e-06,9.73436e-06,4.57591e-05,0.104908,0.101702,0.0529567,1.18912,1.1782,0.0915086,3.84087e-11,3.73469e-11,2.42185e-10,2.04637e-07,2.09049e-07,1.25726e-06,0,0,0,0,0,0,0,0
-37985000,-0.678233,-0.0130756,-0.0032907,0.734724,1.51792,1.48495,0.0249885,-13.7624,-5.43661,-365.456,-1.38055e-05,-6.12638e-05,-1.08761e-06,-0.000313942,0.000194024,-0.000867286,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.15371e-05,9.86026e-06,9.75921e-06,4.54872e-05,0.108487,0.105016,0.0504683,1.24372,1.23126,0.0909325,3.85086e-11,3.74456e-11,2.41748e-10,2.04637e-07,2.09049e-07,1.216e-06,0,0,0,0,0,0,0,0
-38085000,-0.678295,-0.0130983,-0.00331451,0.734666,1.54893,1.52551,0.0343643,-13.6104,-5.2838,-365.445,-1.38053e-05,-6.12587e-05,-1.18513e-06,-0.000313942,0.000194024,-0.000874019,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.11462e-05,9.88749e-06,9.78559e-06,4.51269e-05,0.112134,0.108358,0.0518035,1.30115,1.28685,0.0929289,3.86086e-11,3.75439e-11,2.41126e-10,2.04637e-07,2.09049e-07,1.21051e-06,0,0,0,0,0,0,0,0
-38185000,-0.678347,-0.0130934,-0.00330435,0.734618,1.57978,1.56536,0.0356417,-13.4543,-5.12745,-365.443,-1.38047e-05,-6.12558e-05,-1.24271e-06,-0.000313942,0.000194024,-0.000866335,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.07328e-05,9.91671e-06,9.81383e-06,4.47399e-05,0.115839,0.111754,0.0486849,1.36145,1.34514,0.090226,3.87085e-11,3.76422e-11,2.40497e-10,2.04637e-07,2.09049e-07,1.16878e-06,0,0,0,0,0,0,0,0
-38285000,-0.678416,-0.0131167,-0.00332477,0.734553,1.61213,1.60468,0.0397618,-13.2955,-4.96705,-365.439,-1.38047e-05,-6.12527e-05,-1.30833e-06,-0.000313942,0.000194024,-0.000866978,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.03719e-05,9.94778e-06,9.84423e-06,4.44176e-05,0.119615,0.11522,0.0498066,1.42482,1.40626,0.0920968,3.88085e-11,3.77406e-11,2.39862e-10,2.04637e-07,2.09049e-07,1.16278e-06,0,0,0,0,0,0,0,0
-38385000,-0.678454,-0.0131084,-0.00329501,0.734518,1.64375,1.64532,0.0390697,-13.1328,-4.80305,-365.436,-1.38035e-05,-6.12501e-05,-1.35108e-06,-0.000313942,0.000194024,-0.000853908,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.00049e-05,9.98093e-06,9.87643e-06,4.40811e-05,0.123455,0.11874,0.0468086,1.49127,1.47028,0.0894468,3.89083e-11,3.78389e-11,2.3922e-10,2.04637e-07,2.09049e-07,1.12256e-06,0,0,0,0,0,0,0,0
-38485000,-0.67853,-0.0131114,-0.00332823,0.734448,1.67625,1.68607,0.04219,-12.9676,-4.63424,-365.433,-1.38035e-05,-6.12468e-05,-1.42282e-06,-0.000313942,0.000194024,-0.000853174,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.96746e-05,1.00158e-05,9.9107e-06,4.37893e-05,0.127363,0.122326,0.0477368,1.561,1.53733,0.0911911,3.90083e-11,3.79373e-11,2.38573e-10,2.04637e-07,2.09049e-07,1.11616e-06,0,0,0,0,0,0,0,0
-38585000,-0.678551,-0.0131407,-0.0032718,0.734429,1.7094,1.72723,0.038827,-12.7983,-4.46155,-365.436,-1.38022e-05,-6.1244e-05,-1.47028e-06,-0.000313942,0.000194024,-0.000835504,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.93481e-05,1.0053e-05,9.94707e-06,4.34915e-05,0.131332,0.12597,0.0448779,1.63405,1.60748,0.0886043,3.91081e-11,3.80357e-11,2.37919e-10,2.04637e-07,2.09049e-07,1.0778e-06,0,0,0,0,0,0,0,0
-38685000,-0.678638,-0.0132136,-0.00330128,0.734347,1.74111,1.76615,0.0411629,-12.6264,-4.28447,-365.436,-1.38021e-05,-6.12409e-05,-1.5398e-06,-0.000313942,0.000194024,-0.000832123,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.92131e-05,1.0092e-05,9.98606e-06,4.33755e-05,0.135368,0.129701,0.0462618,1.71063,1.68107,0.0923044,3.92081e-11,3.81346e-11,2.37449e-10,2.04637e-07,2.09049e-07,1.07285e-06,0,0,0,0,0,0,0,0
-38785000,-0.678679,-0.0132168,-0.00331,0.734308,1.77371,1.80665,0.0419009,-12.4512,-4.10347,-365.434,-1.38014e-05,-6.12375e-05,-1.60554e-06,-0.000313942,0.000194024,-0.000824267,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.89155e-05,1.01328e-05,1.00263e-05,4.31088e-05,0.139466,0.133464,0.0434941,1.79072,1.75777,0.0896724,3.93079e-11,3.8233e-11,2.36783e-10,2.04637e-07,2.09049e-07,1.03634e-06,0,0,0,0,0,0,0,0
-38885000,-0.678744,-0.0133849,-0.00338529,0.734245,1.79014,1.82697,0.491212,-12.2737,-3.9192,-365.416,-1.38016e-05,-6.12346e-05,-1.67209e-06,-0.000313942,0.000194024,-0.00082765,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.8634e-05,1.01755e-05,1.00694e-05,4.28653e-05,0.141775,0.135537,0.044011,1.87447,1.83784,0.0912281,3.94079e-11,3.83314e-11,2.36112e-10,2.04637e-07,2.09049e-07,1.02967e-06,0,0,0,0,0,0,0,0
+33485000,0.426066,0.00720653,0.000960051,0.904663,-1.27601,-0.731434,0.779951,-15.2115,-7.28864,-366.498,-1.1911e-05,-6.04723e-05,2.04511e-06,-0.000266328,0.000145125,-0.000731766,0.213259,0.00211309,0.429498,-0.00319724,0.00359752,0.00374386,0,0,0.00011672,1.36075e-05,1.34045e-05,6.25852e-05,0.024364,0.024792,0.0148505,0.355575,0.356608,0.0740727,3.65533e-11,3.622e-11,2.57462e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000440113,1.41665e-05,0.000498504,6.60528e-05,0.00043575,0.000497138,0,0
+33585000,0.269734,0.00113653,-0.00138284,0.962933,-1.23601,-0.729334,0.743357,-15.3221,-7.34737,-366.427,-1.18867e-05,-6.04347e-05,2.01307e-06,-0.000266328,0.000145125,-0.000731766,0.21161,0.00208911,0.429366,-0.00292789,0.00275626,0.00366415,0,0,0.000125043,1.35425e-05,1.32763e-05,5.36472e-05,0.023319,0.0236939,0.014762,0.352529,0.353755,0.0727475,3.64924e-11,3.61371e-11,2.57385e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000343207,1.40437e-05,0.000490301,6.41577e-05,0.000333189,0.000489145,0,0
+33685000,0.103505,-0.00226218,-0.00449558,0.994616,-1.18324,-0.727949,0.750117,-15.443,-7.42035,-366.352,-1.18989e-05,-6.0439e-05,2.00527e-06,-0.000266328,0.000145125,-0.000731766,0.210692,0.00207538,0.429442,-0.00288517,0.00191365,0.00376958,0,0,0.000129574,1.36948e-05,1.33567e-05,4.88637e-05,0.0245156,0.0249297,0.0153934,0.364793,0.365888,0.0726449,3.65777e-11,3.6189e-11,2.57393e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000253192,1.39017e-05,0.000484869,6.25712e-05,0.000238001,0.000483826,0,0
+33785000,-0.0663388,-0.00391012,-0.00629144,0.99777,-1.12312,-0.711429,0.73268,-15.5654,-7.47971,-366.276,-1.19403e-05,-6.04521e-05,1.87718e-06,-0.000266328,0.000145125,-0.000731766,0.209542,0.00199371,0.429101,-0.0026126,0.00124515,0.0035769,0,0,0.000128577,1.3477e-05,1.30876e-05,4.84772e-05,0.0235463,0.0239269,0.0160035,0.362163,0.363453,0.0713921,3.64689e-11,3.60345e-11,2.57232e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000186999,1.37188e-05,0.000480924,6.02017e-05,0.000168732,0.000479972,0,0
+33885000,-0.234008,-0.00508563,-0.00695505,0.972197,-1.05579,-0.690568,0.718728,-15.6739,-7.5504,-366.204,-1.19524e-05,-6.0524e-05,1.77053e-06,-0.000266328,0.000145125,-0.000731766,0.208581,0.0019004,0.428975,-0.00234656,0.000580743,0.00359121,0,0,0.000122761,1.34984e-05,1.30816e-05,5.27297e-05,0.0248857,0.0252995,0.0173813,0.374143,0.375292,0.0713086,3.65628e-11,3.60376e-11,2.57118e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000143449,1.34981e-05,0.000477991,5.68308e-05,0.000123869,0.000477112,0,0
+33985000,-0.381937,-0.0036965,-0.0103961,0.924122,-1.00024,-0.653161,0.690479,-15.8037,-7.6073,-366.135,-1.20693e-05,-6.05215e-05,1.64208e-06,-0.000266328,0.000145125,-0.000731766,0.208751,0.00185138,0.428883,-0.00209528,0.000726354,0.00358356,0,0,0.000113116,1.30705e-05,1.26872e-05,5.92937e-05,0.0239725,0.0243309,0.0185986,0.371893,0.373244,0.0701725,3.64033e-11,3.57878e-11,2.56802e-10,2.06899e-07,2.11363e-07,1.7676e-06,0.000115444,1.32553e-05,0.000475602,5.28001e-05,9.60096e-05,0.000474794,0,0
+34085000,-0.490325,-0.00249773,-0.012077,0.871453,-0.944421,-0.609186,0.692027,-15.9007,-7.67067,-366.064,-1.20719e-05,-6.05496e-05,1.59647e-06,-0.000266328,0.000145125,-0.000731779,0.208585,0.00181555,0.42895,-0.00199955,0.000558605,0.00368113,0,0,0.000104471,1.29607e-05,1.26521e-05,6.62009e-05,0.0254263,0.0257833,0.0210264,0.383607,0.384805,0.0714844,3.65016e-11,3.57978e-11,2.56674e-10,2.06909e-07,2.11373e-07,1.76761e-06,0.000101451,1.30728e-05,0.000474173,4.96821e-05,8.23252e-05,0.000473415,0,0
+34185000,-0.561839,-0.00236006,-0.0107091,0.827174,-0.915879,-0.563797,0.694175,-16.0446,-7.73736,-365.993,-1.23165e-05,-6.06127e-05,1.50081e-06,-0.000268122,0.00014682,-0.00073251,0.208914,0.00178569,0.428837,-0.00180732,0.000561091,0.00361654,0,0,9.64394e-05,1.24148e-05,1.21791e-05,7.02981e-05,0.0245258,0.0247971,0.023108,0.381707,0.38311,0.0704715,3.6291e-11,3.55081e-11,2.56291e-10,2.06889e-07,2.11351e-07,1.76657e-06,8.81719e-05,1.28411e-05,0.000472439,4.57763e-05,6.9968e-05,0.000471739,0,0
+34285000,-0.606377,-0.00322167,-0.00778762,0.795133,-0.864766,-0.516234,0.692562,-16.1334,-7.79163,-365.924,-1.23163e-05,-6.06516e-05,1.43101e-06,-0.000268117,0.000146823,-0.000732467,0.209016,0.0017392,0.428807,-0.00156225,0.000553463,0.00362806,0,0,9.11465e-05,1.22905e-05,1.21057e-05,7.31387e-05,0.0261247,0.0263663,0.0265894,0.393168,0.394415,0.0707791,3.63904e-11,3.55106e-11,2.5609e-10,2.06899e-07,2.11361e-07,1.76655e-06,7.94333e-05,1.26337e-05,0.00047116,4.23672e-05,6.17555e-05,0.000470499,0,0
+34385000,-0.633394,-0.00395555,-0.00501187,0.773803,-0.833302,-0.475023,0.691908,-16.2683,-7.85182,-365.857,-1.25785e-05,-6.0718e-05,1.35143e-06,-0.000271736,0.000151288,-0.000730894,0.209378,0.00172247,0.428692,-0.00139734,0.000560834,0.00352094,0,0,8.67118e-05,1.17483e-05,1.15958e-05,7.37048e-05,0.0252175,0.0253859,0.0292963,0.391583,0.393031,0.0699742,3.61366e-11,3.52204e-11,2.55711e-10,2.06749e-07,2.11204e-07,1.76062e-06,7.27609e-05,1.24491e-05,0.00046987,3.94922e-05,5.59861e-05,0.000469236,0,0
+34485000,-0.64978,-0.00489651,-0.00276563,0.760101,-0.777432,-0.433129,0.690671,-16.3486,-7.89744,-365.79,-1.25789e-05,-6.07475e-05,1.29265e-06,-0.00027172,0.000151292,-0.000730535,0.209305,0.00168416,0.428696,-0.00128772,0.000402494,0.00354618,0,0,8.42251e-05,1.16624e-05,1.15273e-05,7.4332e-05,0.0269266,0.0270642,0.0337662,0.402811,0.404101,0.0706788,3.62365e-11,3.52555e-11,2.55549e-10,2.06759e-07,2.11214e-07,1.76042e-06,6.81903e-05,1.22882e-05,0.000468942,3.7088e-05,5.1761e-05,0.000468322,0,0
+34585000,-0.659753,-0.0051797,-0.00147468,0.751464,-0.75205,-0.404067,0.690488,-16.4926,-7.96704,-365.721,-1.29595e-05,-6.0888e-05,1.26686e-06,-0.00028026,0.000160513,-0.000729405,0.209619,0.00169025,0.428669,-0.00126793,0.000278819,0.00351581,0,0,8.14432e-05,1.11288e-05,1.10014e-05,7.34247e-05,0.0259643,0.0260465,0.0365664,0.40151,0.402995,0.0700948,3.59493e-11,3.49697e-11,2.55184e-10,2.06407e-07,2.10849e-07,1.74645e-06,6.41261e-05,1.21431e-05,0.000467838,3.50761e-05,4.85302e-05,0.000467232,0,0
+34685000,-0.665958,-0.00554774,-0.000649906,0.745968,-0.693925,-0.362954,0.686763,-16.5648,-8.00553,-365.649,-1.29604e-05,-6.09057e-05,1.21751e-06,-0.000280236,0.000160521,-0.000730379,0.209848,0.00166727,0.428671,-0.0010533,0.000375303,0.0034793,0,0,8.01566e-05,1.1064e-05,1.09406e-05,7.33318e-05,0.027768,0.0278183,0.0417547,0.41252,0.413845,0.0713096,3.60492e-11,3.50284e-11,2.55053e-10,2.06417e-07,2.10859e-07,1.74574e-06,6.13706e-05,1.2016e-05,0.000467101,3.33812e-05,4.60021e-05,0.000466501,0,0
+34785000,-0.669925,-0.00522141,-0.000247307,0.74241,-0.670252,-0.337905,0.685368,-16.7018,-8.07194,-365.578,-1.33713e-05,-6.10813e-05,1.15376e-06,-0.000291398,0.000173626,-0.000736071,0.210379,0.00165794,0.428574,-0.000871376,0.000304961,0.0033424,0,0,7.82224e-05,1.05402e-05,1.04167e-05,7.20953e-05,0.0267217,0.0267336,0.0443685,0.411475,0.412988,0.0721816,3.57402e-11,3.47543e-11,2.54746e-10,2.05821e-07,2.1024e-07,1.72228e-06,5.90307e-05,1.1926e-05,0.000466268,3.22783e-05,4.44274e-05,0.000465679,0,0
+34885000,-0.672455,-0.00525455,-0.000126615,0.74012,-0.613879,-0.299774,0.683788,-16.7658,-8.10394,-365.507,-1.33704e-05,-6.10961e-05,1.11284e-06,-0.00029136,0.00017363,-0.000736952,0.210348,0.00163616,0.428563,-0.000812606,0.000209144,0.00334351,0,0,7.74245e-05,1.04889e-05,1.03651e-05,7.17921e-05,0.0285844,0.0285616,0.0499626,0.422283,0.423636,0.0740256,3.58397e-11,3.48269e-11,2.54632e-10,2.05831e-07,2.10249e-07,1.72085e-06,5.7104e-05,1.18192e-05,0.000465654,3.09947e-05,4.26743e-05,0.00046507,0,0
+34985000,-0.675707,-0.0120086,-0.00243723,0.737069,0.357464,0.329859,-0.09823,-16.8433,-8.13206,-365.501,-1.38848e-05,-6.13347e-05,1.06036e-06,-0.000308479,0.000193538,-0.000743465,0.210888,0.00163234,0.428521,-0.000674397,4.32039e-05,0.0033484,0,0,7.53379e-05,9.95665e-06,9.89408e-06,7.03308e-05,0.0290352,0.0302199,0.0527145,0.421401,0.422851,0.0737872,3.55212e-11,3.4551e-11,2.54269e-10,2.04961e-07,2.09349e-07,1.68871e-06,5.48274e-05,1.17175e-05,0.000464683,2.98808e-05,4.12043e-05,0.000464106,0,0
+35085000,-0.675863,-0.0123875,-0.0028371,0.736918,0.578114,0.350724,-0.200463,-16.7879,-8.09881,-365.512,-1.38821e-05,-6.1348e-05,1.01276e-06,-0.000308479,0.000193538,-0.000743465,0.210862,0.00160957,0.428512,-0.000621891,-6.89721e-05,0.00341038,0,0,7.48751e-05,9.9167e-06,9.85672e-06,6.9887e-05,0.0309251,0.032478,0.0561575,0.431963,0.433123,0.0762843,3.56201e-11,3.46337e-11,2.54166e-10,2.04961e-07,2.09349e-07,1.68871e-06,5.34472e-05,1.1627e-05,0.000464095,2.89122e-05,3.99701e-05,0.000463514,0,0
+35185000,-0.675916,-0.0124047,-0.00287263,0.736869,0.60933,0.388672,-0.181579,-16.7283,-8.062,-365.512,-1.38704e-05,-6.13503e-05,9.47416e-07,-0.000308479,0.000193538,-0.000743465,0.211062,0.00159058,0.428743,-0.000521627,-8.92629e-05,0.00367671,0,0,7.34856e-05,9.87997e-06,9.81916e-06,6.82707e-05,0.0326441,0.0341905,0.0537462,0.443093,0.443985,0.0757826,3.57173e-11,3.47189e-11,2.54062e-10,2.04961e-07,2.09349e-07,1.68871e-06,5.19649e-05,1.15428e-05,0.000463147,2.80636e-05,3.89162e-05,0.000462574,0,0
+35285000,-0.675958,-0.0124136,-0.00294659,0.736829,0.642541,0.427157,-0.176587,-16.6656,-8.02135,-365.52,-1.38677e-05,-6.13617e-05,8.86425e-07,-0.000308479,0.000193538,-0.000743465,0.211111,0.00156714,0.428773,-0.000423704,-0.000151825,0.00376435,0,0,7.31193e-05,9.84771e-06,9.78543e-06,6.78763e-05,0.0344455,0.0359779,0.056339,0.454842,0.455492,0.0784835,3.58156e-11,3.48076e-11,2.53964e-10,2.04961e-07,2.09349e-07,1.68871e-06,5.0924e-05,1.14637e-05,0.000462645,2.73141e-05,3.80061e-05,0.00046207,0,0
+35385000,-0.676045,-0.0124467,-0.00293328,0.73675,0.674629,0.464962,-0.158148,-16.5998,-7.97707,-365.517,-1.38587e-05,-6.13698e-05,8.00737e-07,-0.000308479,0.000193538,-0.000743465,0.211248,0.00154012,0.42887,-0.000321634,-0.000240567,0.00393371,0,0,7.20006e-05,9.81884e-06,9.75618e-06,6.65118e-05,0.0363103,0.0378274,0.0540776,0.467261,0.467696,0.0792832,3.59129e-11,3.48997e-11,2.53912e-10,2.04961e-07,2.09349e-07,1.68871e-06,4.99382e-05,1.14077e-05,0.000461898,2.68071e-05,3.74008e-05,0.000461334,0,0
+35485000,-0.676168,-0.0124648,-0.00293999,0.736636,0.707986,0.50223,-0.154061,-16.5306,-7.92895,-365.523,-1.38562e-05,-6.13814e-05,7.25855e-07,-0.000308479,0.000193538,-0.000743465,0.211301,0.00151389,0.428876,-0.000209658,-0.000310412,0.00400493,0,0,7.16896e-05,9.79182e-06,9.728e-06,6.61727e-05,0.0382562,0.0397509,0.0563851,0.480405,0.480652,0.082152,3.60105e-11,3.49919e-11,2.53815e-10,2.04961e-07,2.09349e-07,1.68871e-06,4.9095e-05,1.1336e-05,0.000461453,2.61937e-05,3.66798e-05,0.000460889,0,0
+35585000,-0.676221,-0.0124692,-0.00296675,0.736588,0.740375,0.54049,-0.139324,-16.4585,-7.87716,-365.521,-1.38464e-05,-6.13842e-05,6.82554e-07,-0.000308479,0.000193538,-0.000743468,0.211342,0.00150017,0.428948,-0.000201409,-0.000409965,0.00413088,0,0,7.05217e-05,9.76588e-06,9.70172e-06,6.47584e-05,0.0402706,0.0417412,0.0533899,0.49433,0.494414,0.0810641,3.61067e-11,3.50848e-11,2.53712e-10,2.04967e-07,2.09355e-07,1.68871e-06,4.80633e-05,1.12677e-05,0.000460664,2.56421e-05,3.60412e-05,0.000460113,0,0
+35685000,-0.676268,-0.0124633,-0.00292789,0.736544,0.773313,0.578642,-0.136626,-16.3829,-7.8214,-365.53,-1.38494e-05,-6.13911e-05,6.27853e-07,-0.000308479,0.000193538,-0.000743524,0.211386,0.00148367,0.428884,-0.000123337,-0.000449714,0.00410728,0,0,7.02687e-05,9.7439e-06,9.67836e-06,6.44565e-05,0.0424019,0.0438379,0.0556911,0.509097,0.509044,0.0838795,3.62034e-11,3.51797e-11,2.53612e-10,2.04977e-07,2.09365e-07,1.68872e-06,4.73773e-05,1.12023e-05,0.00046027,2.51436e-05,3.54724e-05,0.000459721,0,0
+35785000,-0.676316,-0.0124983,-0.00296168,0.736499,0.806495,0.616826,-0.120822,-16.3044,-7.76195,-365.524,-1.38435e-05,-6.13857e-05,5.67009e-07,-0.000308462,0.000193528,-0.00074999,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.88694e-05,9.7246e-06,9.65852e-06,6.287e-05,0.0445737,0.0459313,0.0530699,0.524761,0.524597,0.0825074,3.63008e-11,3.52756e-11,2.53309e-10,2.04981e-07,2.09369e-07,1.6874e-06,0,0,0,0,0,0,0,0
+35885000,-0.67639,-0.0125116,-0.00302753,0.736431,0.839016,0.656528,-0.116042,-16.2223,-7.69816,-365.528,-1.38418e-05,-6.13811e-05,5.10897e-07,-0.000308462,0.000193528,-0.00075047,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.79354e-05,9.70974e-06,9.64223e-06,6.20018e-05,0.0467907,0.0480067,0.0556384,0.541395,0.541133,0.0852126,3.64006e-11,3.5373e-11,2.52813e-10,2.04981e-07,2.09369e-07,1.68738e-06,0,0,0,0,0,0,0,0
+35985000,-0.67643,-0.0124699,-0.00303682,0.736395,0.871548,0.694138,-0.104207,-16.1372,-7.63082,-365.526,-1.38382e-05,-6.13758e-05,4.73834e-07,-0.000308462,0.000193528,-0.000760044,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.63147e-05,9.69642e-06,9.6271e-06,6.02636e-05,0.0490635,0.0501365,0.0532466,0.559048,0.558703,0.0835963,3.64999e-11,3.547e-11,2.52307e-10,2.04981e-07,2.09369e-07,1.68168e-06,0,0,0,0,0,0,0,0
+36085000,-0.676488,-0.0125193,-0.00305141,0.736341,0.904114,0.733552,-0.100458,-16.0486,-7.55918,-365.529,-1.38368e-05,-6.13719e-05,4.23745e-07,-0.000308462,0.000193528,-0.000760961,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.57398e-05,9.68616e-06,9.61567e-06,5.972e-05,0.0514224,0.0523606,0.0566728,0.577807,0.577381,0.0880775,3.65998e-11,3.55681e-11,2.51952e-10,2.04981e-07,2.09369e-07,1.68159e-06,0,0,0,0,0,0,0,0
+36185000,-0.676632,-0.0125188,-0.00308211,0.736208,0.935422,0.773395,-0.0875822,-15.9577,-7.48316,-365.522,-1.38325e-05,-6.13593e-05,2.64011e-07,-0.000308462,0.000193528,-0.000773373,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.42624e-05,9.67682e-06,9.60467e-06,5.81266e-05,0.053831,0.0546076,0.0543021,0.597712,0.597206,0.0861826,3.66993e-11,3.56653e-11,2.51436e-10,2.04981e-07,2.09369e-07,1.6695e-06,0,0,0,0,0,0,0,0
+36285000,-0.676737,-0.0125956,-0.00306871,0.73611,0.96751,0.813117,-0.0794399,-15.8631,-7.40346,-365.516,-1.38301e-05,-6.13528e-05,1.84699e-07,-0.000308462,0.000193528,-0.00077653,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.34371e-05,9.67006e-06,9.59653e-06,5.73547e-05,0.0563214,0.056923,0.0572299,0.618864,0.618259,0.0887653,3.67992e-11,3.57629e-11,2.5092e-10,2.04981e-07,2.09369e-07,1.66915e-06,0,0,0,0,0,0,0,0
+36385000,-0.676767,-0.0126306,-0.00309465,0.736082,0.999987,0.850194,-0.0696986,-15.7654,-7.32027,-365.511,-1.38278e-05,-6.1348e-05,1.38506e-07,-0.000308462,0.000193528,-0.000790207,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.21108e-05,9.66465e-06,9.5898e-06,5.59347e-05,0.0588649,0.0592912,0.0548189,0.641301,0.640589,0.0867073,3.68988e-11,3.58602e-11,2.50394e-10,2.04981e-07,2.09369e-07,1.6497e-06,0,0,0,0,0,0,0,0
+36485000,-0.676769,-0.012691,-0.00315422,0.736079,1.03379,0.888664,-0.0662352,-15.6638,-7.23341,-365.513,-1.38272e-05,-6.13473e-05,1.3627e-07,-0.000308462,0.000193528,-0.000791786,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.1342e-05,9.66123e-06,9.58543e-06,5.5212e-05,0.0614866,0.061726,0.0577395,0.665136,0.664278,0.0891701,3.69987e-11,3.5958e-11,2.49866e-10,2.04981e-07,2.09369e-07,1.6489e-06,0,0,0,0,0,0,0,0
+36585000,-0.676917,-0.0127442,-0.00314558,0.735942,1.06526,0.92859,-0.0543312,-15.5599,-7.14166,-365.505,-1.38248e-05,-6.13388e-05,2.05778e-08,-0.000308462,0.000193528,-0.000805923,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.0163e-05,9.65995e-06,9.58275e-06,5.39655e-05,0.0641593,0.0642044,0.0552024,0.690399,0.689375,0.0869877,3.70985e-11,3.60555e-11,2.4933e-10,2.04981e-07,2.09369e-07,1.622e-06,0,0,0,0,0,0,0,0
+36685000,-0.677032,-0.0127344,-0.00312064,0.735836,1.09784,0.968707,-0.0499124,-15.4523,-7.04584,-365.504,-1.38236e-05,-6.13333e-05,-6.49362e-08,-0.000308462,0.000193528,-0.000808408,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.97149e-05,9.66111e-06,9.5823e-06,5.35409e-05,0.0669178,0.0667826,0.058782,0.717225,0.716002,0.0914337,3.71984e-11,3.61538e-11,2.48951e-10,2.04981e-07,2.09369e-07,1.62101e-06,0,0,0,0,0,0,0,0
+36785000,-0.677179,-0.0127765,-0.00316033,0.7357,1.12992,1.00921,-0.0409226,-15.3419,-6.94578,-365.498,-1.38219e-05,-6.1326e-05,-1.74167e-07,-0.000308462,0.000193528,-0.000816379,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.86675e-05,9.66339e-06,9.58346e-06,5.24459e-05,0.0697228,0.069379,0.0560212,0.745627,0.744149,0.0890527,3.72982e-11,3.62515e-11,2.48404e-10,2.04981e-07,2.09369e-07,1.58727e-06,0,0,0,0,0,0,0,0
+36885000,-0.677327,-0.0128324,-0.00317717,0.735563,1.16208,1.04818,-0.0369459,-15.2282,-6.8413,-365.497,-1.38208e-05,-6.1319e-05,-2.90634e-07,-0.000308462,0.000193528,-0.000819086,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.80064e-05,9.66782e-06,9.58673e-06,5.18292e-05,0.0726057,0.0720432,0.058795,0.775751,0.773942,0.0914648,3.73982e-11,3.63494e-11,2.47854e-10,2.04981e-07,2.09369e-07,1.58528e-06,0,0,0,0,0,0,0,0
+36985000,-0.677434,-0.0128466,-0.00312533,0.735465,1.19492,1.08822,-0.0313965,-15.1112,-6.73326,-365.493,-1.38197e-05,-6.13134e-05,-3.79927e-07,-0.000308462,0.000193528,-0.000823826,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.7094e-05,9.67445e-06,9.59159e-06,5.0884e-05,0.0755436,0.0747596,0.0558733,0.807615,0.805427,0.0890125,3.74981e-11,3.64472e-11,2.47296e-10,2.04981e-07,2.09369e-07,1.54585e-06,0,0,0,0,0,0,0,0
+37085000,-0.677494,-0.0128752,-0.00311202,0.735409,1.22799,1.12713,-0.0256027,-14.9906,-6.62164,-365.49,-1.3819e-05,-6.13098e-05,-4.38325e-07,-0.000308462,0.000193528,-0.000827003,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.64885e-05,9.68282e-06,9.59856e-06,5.03171e-05,0.0785527,0.0775373,0.0584466,0.841375,0.838709,0.0913499,3.7598e-11,3.65452e-11,2.46734e-10,2.04981e-07,2.09369e-07,1.543e-06,0,0,0,0,0,0,0,0
+37185000,-0.677577,-0.0129136,-0.00311534,0.735331,1.26134,1.16607,-0.0193178,-14.8667,-6.50638,-365.488,-1.38187e-05,-6.13071e-05,-4.82151e-07,-0.000308462,0.000193528,-0.000834532,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.56926e-05,9.69297e-06,9.60755e-06,4.95117e-05,0.0816152,0.0803656,0.0553814,0.877042,0.873835,0.0888487,3.7698e-11,3.66431e-11,2.46164e-10,2.04981e-07,2.09369e-07,1.49928e-06,0,0,0,0,0,0,0,0
+37285000,-0.67767,-0.0129319,-0.0031582,0.735246,1.29406,1.20559,-0.0149391,-14.7398,-6.38617,-365.486,-1.3818e-05,-6.13019e-05,-5.74275e-07,-0.000308462,0.000193528,-0.000837438,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.51381e-05,9.70487e-06,9.61833e-06,4.8995e-05,0.084756,0.0832605,0.0577243,0.914783,0.910917,0.0911086,3.77979e-11,3.67412e-11,2.4559e-10,2.04981e-07,2.09369e-07,1.49552e-06,0,0,0,0,0,0,0,0
+37385000,-0.677768,-0.0129718,-0.00311902,0.735155,1.32635,1.24386,-0.0108639,-14.6093,-6.26269,-365.485,-1.38179e-05,-6.12989e-05,-6.2982e-07,-0.000308462,0.000193528,-0.000841638,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.46662e-05,9.71932e-06,9.63174e-06,4.85058e-05,0.087953,0.0862329,0.0552263,0.954624,0.950077,0.090584,3.78979e-11,3.68397e-11,2.45179e-10,2.04981e-07,2.09369e-07,1.44987e-06,0,0,0,0,0,0,0,0
+37485000,-0.677902,-0.0129894,-0.00311583,0.735031,1.35875,1.28525,-0.00713999,-14.476,-6.13388,-365.484,-1.38174e-05,-6.1293e-05,-7.41682e-07,-0.000308462,0.000193528,-0.000842703,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.41535e-05,9.73524e-06,9.64643e-06,4.80355e-05,0.0912212,0.0892401,0.0573767,0.99671,0.99129,0.092861,3.79978e-11,3.69378e-11,2.44593e-10,2.04981e-07,2.09369e-07,1.44553e-06,0,0,0,0,0,0,0,0
+37585000,-0.677999,-0.0130208,-0.003117,0.734941,1.39011,1.32527,0.00160211,-14.3399,-6.00152,-365.476,-1.3817e-05,-6.12873e-05,-8.42919e-07,-0.000308462,0.000193528,-0.000853774,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.35506e-05,9.75309e-06,9.66314e-06,4.74398e-05,0.0945413,0.0922943,0.0540859,1.04107,1.03467,0.090201,3.80978e-11,3.70359e-11,2.44001e-10,2.04981e-07,2.09369e-07,1.39733e-06,0,0,0,0,0,0,0,0
+37685000,-0.678085,-0.0130688,-0.00317028,0.73486,1.42187,1.36647,0.00986674,-14.2005,-5.86509,-365.467,-1.38164e-05,-6.12821e-05,-9.36459e-07,-0.000308462,0.000193528,-0.000861003,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.30845e-05,9.77263e-06,9.68192e-06,4.70114e-05,0.0979375,0.095415,0.0559747,1.08787,1.08034,0.0923817,3.81978e-11,3.71341e-11,2.43403e-10,2.04981e-07,2.09369e-07,1.39217e-06,0,0,0,0,0,0,0,0
+37785000,-0.678166,-0.0130453,-0.0032215,0.734786,1.45353,1.40646,0.0169696,-14.0577,-5.72505,-365.459,-1.38161e-05,-6.12783e-05,-1.00587e-06,-0.000308462,0.000193528,-0.00086784,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.25572e-05,9.79399e-06,9.70225e-06,4.65045e-05,0.101387,0.0985858,0.0526684,1.13714,1.12836,0.0897037,3.82977e-11,3.72323e-11,2.42798e-10,2.04981e-07,2.09369e-07,1.34362e-06,0,0,0,0,0,0,0,0
+37885000,-0.678243,-0.0130518,-0.00323417,0.734715,1.4856,1.44704,0.0199121,-13.9113,-5.58061,-365.459,-1.3816e-05,-6.12751e-05,-1.07247e-06,-0.000308462,0.000193528,-0.000865951,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.21302e-05,9.81751e-06,9.72475e-06,4.61182e-05,0.104906,0.101818,0.0542977,1.18906,1.17884,0.0917779,3.83977e-11,3.73305e-11,2.42187e-10,2.04981e-07,2.09369e-07,1.3377e-06,0,0,0,0,0,0,0,0
+37985000,-0.67828,-0.0130696,-0.00328966,0.73468,1.51814,1.48702,0.0240442,-13.7615,-5.43278,-365.456,-1.38157e-05,-6.12729e-05,-1.11417e-06,-0.000308462,0.000193528,-0.000862647,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.1862e-05,9.84297e-06,9.74969e-06,4.58521e-05,0.108484,0.105134,0.0517009,1.24366,1.23197,0.0911768,3.84976e-11,3.74292e-11,2.41749e-10,2.04981e-07,2.09369e-07,1.29129e-06,0,0,0,0,0,0,0,0
+38085000,-0.678342,-0.0130925,-0.0033135,0.734622,1.54915,1.52763,0.0334288,-13.6095,-5.27977,-365.445,-1.38154e-05,-6.12678e-05,-1.21225e-06,-0.000308462,0.000193528,-0.000869813,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.14727e-05,9.87035e-06,9.77616e-06,4.54954e-05,0.112129,0.108478,0.0531366,1.30109,1.28763,0.0932307,3.85976e-11,3.75275e-11,2.41127e-10,2.04981e-07,2.09369e-07,1.28507e-06,0,0,0,0,0,0,0,0
+38185000,-0.678396,-0.0130877,-0.00330331,0.734573,1.57999,1.56753,0.0346843,-13.4534,-5.12321,-365.443,-1.38148e-05,-6.12649e-05,-1.27044e-06,-0.000308462,0.000193528,-0.000861951,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.10618e-05,9.89974e-06,9.8045e-06,4.51138e-05,0.115832,0.111877,0.0498898,1.36139,1.346,0.090488,3.86975e-11,3.76258e-11,2.40498e-10,2.04981e-07,2.09369e-07,1.2384e-06,0,0,0,0,0,0,0,0
+38285000,-0.678466,-0.0131112,-0.00332375,0.734508,1.61234,1.6069,0.0387741,-13.2946,-4.96259,-365.439,-1.38148e-05,-6.12617e-05,-1.33664e-06,-0.000308462,0.000193528,-0.000862645,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.07022e-05,9.93097e-06,9.835e-06,4.47944e-05,0.119608,0.115345,0.0510956,1.42475,1.40721,0.0924172,3.87975e-11,3.77242e-11,2.39863e-10,2.04981e-07,2.09369e-07,1.23166e-06,0,0,0,0,0,0,0,0
+38385000,-0.678504,-0.0131029,-0.00329394,0.734472,1.64395,1.64759,0.0380186,-13.1319,-4.79838,-365.437,-1.38137e-05,-6.12593e-05,-1.37995e-06,-0.000308462,0.000193528,-0.000849171,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.03371e-05,9.96428e-06,9.86729e-06,4.44621e-05,0.123445,0.118867,0.0479692,1.4912,1.47132,0.0897259,3.88974e-11,3.78225e-11,2.39222e-10,2.04981e-07,2.09369e-07,1.18696e-06,0,0,0,0,0,0,0,0
+38485000,-0.678581,-0.013106,-0.00332717,0.734401,1.67645,1.68838,0.0411067,-12.9667,-4.62934,-365.434,-1.38136e-05,-6.12559e-05,-1.45225e-06,-0.000308462,0.000193528,-0.000848429,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.00077e-05,9.99931e-06,9.90166e-06,4.41727e-05,0.127352,0.122455,0.0489665,1.56093,1.53847,0.0915281,3.89974e-11,3.79209e-11,2.38574e-10,2.04981e-07,2.09369e-07,1.17981e-06,0,0,0,0,0,0,0,0
+38585000,-0.678602,-0.0131354,-0.00327067,0.734381,1.70959,1.72959,0.037661,-12.7974,-4.45643,-365.437,-1.38124e-05,-6.12533e-05,-1.50027e-06,-0.000308462,0.000193528,-0.000830184,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,4.96826e-05,1.00367e-05,9.93814e-06,4.38783e-05,0.131319,0.1261,0.0459825,1.63397,1.60872,0.0888988,3.90972e-11,3.80193e-11,2.3792e-10,2.04981e-07,2.09369e-07,1.13744e-06,0,0,0,0,0,0,0,0
+38685000,-0.67869,-0.0132085,-0.00330015,0.734299,1.7413,1.76856,0.0399391,-12.6255,-4.27912,-365.437,-1.38123e-05,-6.12502e-05,-1.57019e-06,-0.000308462,0.000193528,-0.000826657,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,4.9548e-05,1.00758e-05,9.97722e-06,4.37638e-05,0.135354,0.129833,0.047438,1.71056,1.68241,0.0926711,3.91972e-11,3.81182e-11,2.3745e-10,2.04981e-07,2.09369e-07,1.13194e-06,0,0,0,0,0,0,0,0
+38785000,-0.678732,-0.0132117,-0.00330884,0.73426,1.77389,1.80912,0.0406814,-12.4503,-4.09789,-365.435,-1.38117e-05,-6.12469e-05,-1.63648e-06,-0.000308462,0.000193528,-0.000818777,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,4.92513e-05,1.01168e-05,1.00175e-05,4.34998e-05,0.139449,0.133597,0.0445483,1.79064,1.75922,0.0899937,3.9297e-11,3.82166e-11,2.36784e-10,2.04981e-07,2.09369e-07,1.09186e-06,0,0,0,0,0,0,0,0
+38885000,-0.678797,-0.01338,-0.00338416,0.734196,1.79032,1.82949,0.489995,-12.2728,-3.91337,-365.416,-1.38118e-05,-6.12438e-05,-1.70358e-06,-0.000308462,0.000193528,-0.000822383,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,4.89703e-05,1.01596e-05,1.00607e-05,4.32579e-05,0.141757,0.135672,0.0451179,1.87439,1.83941,0.0916052,3.9397e-11,3.83151e-11,2.36113e-10,2.04981e-07,2.09369e-07,1.08449e-06,0,0,0,0,0,0,0,0
diff --git a/test/change_indication/iris_gps.csv b/test/change_indication/iris_gps.csv
index 5d9a3fc..bfe7cf1 100644
--- a/test/change_indication/iris_gps.csv
+++ b/test/change_indication/iris_gps.csv
@@ -324,28 +324,28 @@ Timestamp,state[0],state[1],state[2],state[3],state[4],state[5],state[6],state[7
 32185000,0.983331,-0.00863573,-0.0136449,0.181108,0.010611,-0.0330096,0.767297,-0.00269186,0.0145593,-0.0862889,-1.06084e-05,-5.70277e-05,4.53775e-06,3.74358e-05,-0.000320197,-0.00108606,0.20428,0.00198396,0.434362,0,0,0,0,0,3.02451e-06,1.78421e-05,1.78238e-05,8.70171e-05,0.0142352,0.0142372,0.00994974,0.0373382,0.0373399,0.059412,5.51963e-11,5.52137e-11,4.85816e-10,2.64787e-07,2.64694e-07,5.0002e-08,0,0,0,0,0,0,0,0
 32285000,0.983346,-0.00855886,-0.0138979,0.181007,0.0124303,-0.0375706,0.765828,-0.00152577,0.0109962,-0.0172401,-1.06055e-05,-5.70281e-05,4.61096e-06,3.76201e-05,-0.000320412,-0.00108337,0.20428,0.00198396,0.434362,0,0,0,0,0,3.01762e-06,1.81178e-05,1.80987e-05,8.68494e-05,0.0152962,0.0152983,0.0100198,0.0409734,0.0409756,0.0595692,5.5295e-11,5.53127e-11,4.83333e-10,2.64795e-07,2.64702e-07,5.0001e-08,0,0,0,0,0,0,0,0
 32385000,0.983328,-0.00857328,-0.0140173,0.181097,0.0190651,-0.0366818,0.764495,0.00941817,0.0109567,0.0554987,-1.0689e-05,-5.69317e-05,4.58004e-06,4.16208e-05,-0.000317073,-0.00108078,0.20428,0.00198396,0.434362,0,0,0,0,0,3.01438e-06,1.76111e-05,1.75923e-05,8.66877e-05,0.014271,0.0142728,0.00991717,0.0374118,0.0374135,0.0591307,5.39962e-11,5.40135e-11,4.80823e-10,2.62472e-07,2.62382e-07,5.0001e-08,0,0,0,0,0,0,0,0
-32485000,0.983343,-0.0114765,-0.0119475,0.181003,0.0452221,-0.104549,-0.108097,0.0130854,0.0020971,0.0640455,-1.06893e-05,-5.693e-05,4.52934e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00515e-06,1.7876e-05,1.78685e-05,8.65427e-05,0.0169326,0.0169331,0.00979685,0.041145,0.0411472,0.0592784,5.40951e-11,5.41121e-11,4.78291e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
-32585000,0.983354,-0.011406,-0.0119114,0.180951,0.0447899,-0.10343,-0.10948,0.0246662,0.00136568,0.0461386,-1.09196e-05,-5.68337e-05,4.63228e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00071e-06,1.72404e-05,1.72328e-05,8.63984e-05,0.0161763,0.016177,0.00943287,0.0375917,0.0375935,0.0588049,5.2605e-11,5.26191e-11,4.75732e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
-32685000,0.983358,-0.0113945,-0.0117748,0.180936,0.0413206,-0.110208,-0.11126,0.0290189,-0.00932289,0.0313959,-1.09194e-05,-5.6833e-05,4.61982e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99546e-06,1.75037e-05,1.74961e-05,8.62649e-05,0.0178756,0.0178768,0.00924058,0.0414494,0.0414517,0.0588773,5.2704e-11,5.27177e-11,4.73154e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
-32785000,0.983362,-0.0111898,-0.0118557,0.180927,0.0392434,-0.10586,-0.111868,0.0381791,-0.00818324,0.0165229,-1.11893e-05,-5.6737e-05,4.71927e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00445e-06,1.67641e-05,1.67558e-05,8.64775e-05,0.017037,0.0170384,0.00898868,0.0378405,0.0378424,0.0592348,5.11067e-11,5.11173e-11,4.71229e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
-32885000,0.983381,-0.0111652,-0.0119174,0.180818,0.0397314,-0.113752,-0.113169,0.0421805,-0.0191848,0.00288518,-1.11882e-05,-5.67378e-05,4.7648e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99801e-06,1.702e-05,1.70112e-05,8.63587e-05,0.0188269,0.018829,0.00881283,0.0417964,0.0417988,0.0592402,5.12057e-11,5.12159e-11,4.68612e-10,2.62476e-07,2.62387e-07,5.0003e-08,0,0,0,0,0,0,0,0
-32985000,0.983392,-0.0110105,-0.0118842,0.180769,0.036917,-0.10941,-0.112146,0.0493731,-0.019689,-0.00973263,-1.14335e-05,-5.66681e-05,4.89044e-06,4.16373e-05,-0.000317561,-0.00108039,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99492e-06,1.61863e-05,1.61772e-05,8.62418e-05,0.0179092,0.0179114,0.00852047,0.0381197,0.0381216,0.0586839,4.95309e-11,4.95378e-11,4.65972e-10,2.62482e-07,2.62393e-07,5.00129e-08,0,0,0,0,0,0,0,0
-33085000,0.983396,-0.0109791,-0.0119006,0.180751,0.0338565,-0.114638,-0.109895,0.0529429,-0.0308512,-0.0182272,-1.14338e-05,-5.66683e-05,4.88489e-06,4.16368e-05,-0.000317561,-0.00108039,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99064e-06,1.64333e-05,1.64238e-05,8.61343e-05,0.0198492,0.0198523,0.00837896,0.0421775,0.0421801,0.0586314,4.96299e-11,4.96365e-11,4.63314e-10,2.62492e-07,2.62403e-07,5.00229e-08,0,0,0,0,0,0,0,0
-33185000,0.983405,-0.0107866,-0.0118242,0.180719,0.0298309,-0.110707,-0.108292,0.058448,-0.0302498,-0.0243466,-1.16822e-05,-5.65967e-05,4.8525e-06,4.14415e-05,-0.000320073,-0.00108064,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98482e-06,1.55231e-05,1.55133e-05,8.60329e-05,0.018869,0.018872,0.00813569,0.0384226,0.0384246,0.0580564,4.79138e-11,4.7917e-11,4.60635e-10,2.62359e-07,2.62269e-07,5.00304e-08,0,0,0,0,0,0,0,0
-33285000,0.983427,-0.0108599,-0.0118337,0.180591,0.0274575,-0.114231,-0.108096,0.0612522,-0.041503,-0.0328166,-1.16797e-05,-5.65999e-05,4.9923e-06,4.14394e-05,-0.000320071,-0.00108065,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98066e-06,1.57604e-05,1.57505e-05,8.59369e-05,0.0209472,0.0209513,0.00803019,0.0425879,0.0425906,0.057958,4.80127e-11,4.80158e-11,4.57941e-10,2.62369e-07,2.62279e-07,5.00403e-08,0,0,0,0,0,0,0,0
-33385000,0.983441,-0.0106317,-0.0118909,0.180524,0.0228067,-0.103315,-0.105736,0.0637531,-0.0346724,-0.0412308,-1.20161e-05,-5.65084e-05,5.04979e-06,4.14394e-05,-0.000320071,-0.00108094,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97608e-06,1.47966e-05,1.47862e-05,8.58452e-05,0.0196439,0.0196479,0.0078313,0.0387444,0.0387466,0.0573739,4.62939e-11,4.62937e-11,4.55227e-10,2.62369e-07,2.62279e-07,5.00418e-08,0,0,0,0,0,0,0,0
-33485000,0.983445,-0.010619,-0.0118453,0.180505,0.0187476,-0.107187,-0.105641,0.0657879,-0.0451669,-0.0519329,-1.20159e-05,-5.65087e-05,5.06215e-06,4.14394e-05,-0.000320071,-0.00108094,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98441e-06,1.50238e-05,1.50133e-05,8.60982e-05,0.0215519,0.0215569,0.00782354,0.0430131,0.0430159,0.0580727,4.63931e-11,4.63928e-11,4.53206e-10,2.62369e-07,2.62279e-07,5.00515e-08,0,0,0,0,0,0,0,0
-33585000,0.983473,-0.0103515,-0.0118145,0.180373,0.0148189,-0.100155,-0.10188,0.0675549,-0.0393754,-0.0577308,-1.2293e-05,-5.64284e-05,5.1888e-06,4.14394e-05,-0.000320071,-0.00108157,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97951e-06,1.40285e-05,1.40176e-05,8.60161e-05,0.0200751,0.0200797,0.0076621,0.0390721,0.0390744,0.0574714,4.47052e-11,4.47021e-11,4.50462e-10,2.62369e-07,2.62279e-07,5.00437e-08,0,0,0,0,0,0,0,0
-33685000,0.983482,-0.010347,-0.0118035,0.180323,0.0108783,-0.104106,-0.103466,0.0688786,-0.0496287,-0.0661824,-1.22922e-05,-5.64293e-05,5.23042e-06,4.14394e-05,-0.000320071,-0.0010816,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97615e-06,1.42455e-05,1.42345e-05,8.5938e-05,0.021983,0.0219885,0.00762174,0.0434307,0.0434338,0.0573124,4.48041e-11,4.48009e-11,4.47707e-10,2.62369e-07,2.62279e-07,5.00524e-08,0,0,0,0,0,0,0,0
-33785000,0.983495,-0.0101498,-0.0118005,0.180265,0.00642084,-0.0964672,-0.0976836,0.0717194,-0.0428582,-0.0721555,-1.25573e-05,-5.63207e-05,5.20586e-06,4.14394e-05,-0.000320071,-0.00108233,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97058e-06,1.32406e-05,1.32293e-05,8.5865e-05,0.020363,0.0203679,0.00749643,0.0393895,0.0393919,0.0567195,4.31754e-11,4.31696e-11,4.44934e-10,2.62369e-07,2.62279e-07,5.00318e-08,0,0,0,0,0,0,0,0
-33885000,0.98351,-0.0101901,-0.0117577,0.180181,0.00292715,-0.0975233,-0.0972647,0.0721337,-0.0526036,-0.0793915,-1.25552e-05,-5.6323e-05,5.31157e-06,4.14394e-05,-0.000320071,-0.00108241,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96776e-06,1.34474e-05,1.34361e-05,8.57937e-05,0.0222458,0.0222518,0.00748531,0.043823,0.0438263,0.0565444,4.32743e-11,4.32684e-11,4.42148e-10,2.62369e-07,2.62279e-07,5.00388e-08,0,0,0,0,0,0,0,0
-33985000,0.983504,-0.00993811,-0.011893,0.18022,0.00049359,-0.0869688,-0.093615,0.0737896,-0.0432238,-0.0825777,-1.2837e-05,-5.61904e-05,5.26474e-06,4.14394e-05,-0.000320071,-0.00108334,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96505e-06,1.24529e-05,1.2441e-05,8.5725e-05,0.0205113,0.0205166,0.0073919,0.0396843,0.0396868,0.0559669,4.17271e-11,4.17189e-11,4.39348e-10,2.62369e-07,2.62279e-07,5.0005e-08,0,0,0,0,0,0,0,0
-34085000,0.98351,-0.00987543,-0.0118965,0.180193,-0.00307165,-0.0915214,-0.0926805,0.0737052,-0.0521797,-0.0892314,-1.28369e-05,-5.61906e-05,5.26796e-06,4.14394e-05,-0.000320071,-0.00108344,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97353e-06,1.265e-05,1.26379e-05,8.59997e-05,0.0223577,0.0223638,0.00746462,0.0441766,0.04418,0.0565837,4.18262e-11,4.18181e-11,4.37267e-10,2.62369e-07,2.62279e-07,5.00108e-08,0,0,0,0,0,0,0,0
-34185000,0.983511,-0.00970374,-0.0119353,0.180194,-0.00669917,-0.0815476,-0.0903303,0.075782,-0.0436107,-0.090991,-1.30755e-05,-5.60703e-05,5.31388e-06,4.14394e-05,-0.000320071,-0.0010842,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97183e-06,1.16814e-05,1.16691e-05,8.59357e-05,0.0205288,0.0205341,0.00739717,0.0399467,0.0399493,0.0560115,4.03754e-11,4.03653e-11,4.34447e-10,2.62369e-07,2.62279e-07,5.00037e-08,0,0,0,0,0,0,0,0
-34285000,0.983515,-0.00959662,-0.0119957,0.180175,-0.00681518,-0.0850923,-0.0892805,0.0751369,-0.0519839,-0.0982195,-1.30744e-05,-5.60715e-05,5.36923e-06,4.14394e-05,-0.000320071,-0.0010843,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97032e-06,1.18693e-05,1.18565e-05,8.58747e-05,0.0223277,0.0223338,0.00743792,0.0444809,0.0444843,0.0558374,4.04742e-11,4.04642e-11,4.31617e-10,2.62369e-07,2.62279e-07,5.00041e-08,0,0,0,0,0,0,0,0
-34385000,0.983539,-0.00938213,-0.0120053,0.180056,-0.00967086,-0.0741646,-0.0842616,0.0754265,-0.0431743,-0.101365,-1.32981e-05,-5.59686e-05,5.38272e-06,4.14394e-05,-0.000320071,-0.00108576,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96424e-06,1.09395e-05,1.09265e-05,8.58204e-05,0.020423,0.0204283,0.00739461,0.0401699,0.0401725,0.055292,3.9129e-11,3.91174e-11,4.28777e-10,2.62369e-07,2.62279e-07,5.0001e-08,0,0,0,0,0,0,0,0
-34485000,0.983542,-0.00946703,-0.0119351,0.180035,-0.0126943,-0.07792,-0.0827552,0.0743096,-0.0508471,-0.104829,-1.32969e-05,-5.59699e-05,5.44141e-06,4.14394e-05,-0.000320071,-0.00108612,0.20428,0.00198396,0.434362,0,0,0,0,0,2.9629e-06,1.11184e-05,1.11056e-05,8.57639e-05,0.0221673,0.0221733,0.00745784,0.0447287,0.0447322,0.0551331,3.92277e-11,3.92163e-11,4.25928e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
-34585000,0.983548,-0.00926901,-0.0117585,0.180024,-0.0129087,-0.0664564,0.663155,0.0747607,-0.0431089,-0.0796953,-1.34781e-05,-5.58713e-05,5.4307e-06,4.14394e-05,-0.000320071,-0.00108746,0.20428,0.00198396,0.434362,0,0,0,0,0,2.95989e-06,1.02363e-05,1.02238e-05,8.57111e-05,0.0190972,0.0191019,0.00742823,0.0403189,0.0403216,0.0546181,3.79919e-11,3.79792e-11,4.23071e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
-34685000,0.983555,-0.00925604,-0.0114714,0.180007,-0.0147049,-0.0634549,1.65382,0.0733875,-0.0496012,0.033174,-1.34785e-05,-5.58709e-05,5.41475e-06,4.14394e-05,-0.000320071,-0.00108719,0.20428,0.00198396,0.434362,0,0,0,0,0,2.95711e-06,1.04067e-05,1.03947e-05,8.56601e-05,0.0192062,0.0192109,0.00750225,0.0447127,0.0447161,0.0544796,3.80906e-11,3.80781e-11,4.20207e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
-34785000,0.983564,-0.00909768,-0.0112419,0.17998,-0.0148332,-0.0520086,2.62009,0.0741569,-0.0419445,0.194952,-1.36231e-05,-5.57809e-05,5.42862e-06,4.14394e-05,-0.000320071,-0.00106123,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96557e-06,9.67873e-06,9.66718e-06,8.59489e-05,0.0163743,0.016378,0.0075385,0.0402526,0.0402552,0.0547349,3.70853e-11,3.70719e-11,4.18077e-10,2.62369e-07,2.62279e-07,5.0002e-08,0,0,0,0,0,0,0,0
-34885000,0.98357,-0.00908335,-0.0109562,0.179966,-0.0165727,-0.0489912,3.60564,0.0726319,-0.0469674,0.48478,-1.36238e-05,-5.57798e-05,5.40752e-06,4.14394e-05,-0.000320071,-0.00105899,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96287e-06,9.84294e-06,9.83192e-06,8.59003e-05,0.0164857,0.0164894,0.00763028,0.0443691,0.0443723,0.0546181,3.7184e-11,3.71709e-11,4.15202e-10,2.62369e-07,2.62279e-07,5.0001e-08,0,0,0,0,0,0,0,0
+32485000,0.983343,-0.0114765,-0.0119475,0.181003,0.0452221,-0.104549,-0.108095,0.0130854,0.0020971,0.0640457,-1.06893e-05,-5.693e-05,4.52934e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00515e-06,1.7876e-05,1.78685e-05,8.65427e-05,0.0169827,0.0169834,0.00976944,0.0411474,0.0411496,0.0592756,5.40951e-11,5.41121e-11,4.78291e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
+32585000,0.983354,-0.0114052,-0.0119113,0.180951,0.0447854,-0.103407,-0.109478,0.0246632,0.00137489,0.0461383,-1.09204e-05,-5.68337e-05,4.63224e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00071e-06,1.72351e-05,1.72275e-05,8.63984e-05,0.0162246,0.0162254,0.00940718,0.0375944,0.0375962,0.0587996,5.25984e-11,5.26126e-11,4.75732e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
+32685000,0.983359,-0.0113936,-0.0117747,0.180936,0.0413156,-0.110183,-0.111256,0.0290154,-0.00931124,0.0313964,-1.09202e-05,-5.6833e-05,4.61974e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99546e-06,1.74983e-05,1.74907e-05,8.62649e-05,0.0179303,0.0179316,0.00921573,0.041456,0.0414583,0.0588684,5.26974e-11,5.27111e-11,4.73154e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
+32785000,0.983361,-0.0111882,-0.0118555,0.180927,0.0392338,-0.105808,-0.111864,0.0381735,-0.00816137,0.016523,-1.11906e-05,-5.67369e-05,4.71913e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00445e-06,1.67533e-05,1.67451e-05,8.64775e-05,0.0170877,0.0170891,0.00896525,0.0378464,0.0378482,0.0592236,5.1094e-11,5.11046e-11,4.71229e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
+32885000,0.983381,-0.0111636,-0.0119172,0.180818,0.0397208,-0.113697,-0.113164,0.0421739,-0.0191577,0.00288568,-1.11895e-05,-5.67377e-05,4.7646e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99801e-06,1.70091e-05,1.70003e-05,8.63587e-05,0.018883,0.0188851,0.00879023,0.0418066,0.0418091,0.0592259,5.1193e-11,5.12032e-11,4.68612e-10,2.62476e-07,2.62387e-07,5.0003e-08,0,0,0,0,0,0,0,0
+32985000,0.983392,-0.0110084,-0.0118839,0.180769,0.0369019,-0.109335,-0.112144,0.0493647,-0.0196536,-0.00973515,-1.14352e-05,-5.6668e-05,4.89014e-06,4.16373e-05,-0.000317561,-0.00108039,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99492e-06,1.61704e-05,1.61612e-05,8.62418e-05,0.0179593,0.0179616,0.00849937,0.0381283,0.0381303,0.0586681,4.9513e-11,4.95199e-11,4.65972e-10,2.62482e-07,2.62393e-07,5.00129e-08,0,0,0,0,0,0,0,0
+33085000,0.983396,-0.010977,-0.0119003,0.180752,0.0338403,-0.114559,-0.109894,0.0529329,-0.0308082,-0.0182304,-1.14355e-05,-5.66681e-05,4.8845e-06,4.16368e-05,-0.00031756,-0.00108039,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99063e-06,1.64172e-05,1.64077e-05,8.61343e-05,0.0199036,0.0199068,0.00835868,0.042191,0.0421936,0.058613,4.9612e-11,4.96186e-11,4.63314e-10,2.62492e-07,2.62403e-07,5.00229e-08,0,0,0,0,0,0,0,0
+33185000,0.983405,-0.0107844,-0.011824,0.180719,0.0298117,-0.110611,-0.108295,0.0584371,-0.0302004,-0.0243546,-1.1684e-05,-5.65966e-05,4.85199e-06,4.1442e-05,-0.00032007,-0.00108064,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98481e-06,1.55026e-05,1.54928e-05,8.60329e-05,0.0189159,0.018919,0.00811679,0.0384335,0.0384356,0.0580369,4.78919e-11,4.78951e-11,4.60635e-10,2.62359e-07,2.62269e-07,5.00304e-08,0,0,0,0,0,0,0,0
+33285000,0.983427,-0.0108576,-0.0118335,0.180592,0.027437,-0.114131,-0.1081,0.0612393,-0.0414439,-0.0328254,-1.16814e-05,-5.65997e-05,4.99169e-06,4.14399e-05,-0.000320068,-0.00108065,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98066e-06,1.57396e-05,1.57297e-05,8.59369e-05,0.0209974,0.0210015,0.00801208,0.042604,0.0426067,0.0579363,4.79908e-11,4.79938e-11,4.57941e-10,2.62369e-07,2.62279e-07,5.00403e-08,0,0,0,0,0,0,0,0
+33385000,0.983441,-0.0106292,-0.0118907,0.180525,0.022786,-0.103206,-0.105743,0.0637399,-0.0346056,-0.0412417,-1.20178e-05,-5.65083e-05,5.04905e-06,4.14399e-05,-0.000320068,-0.00108094,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97608e-06,1.47721e-05,1.47617e-05,8.58452e-05,0.0196676,0.0196717,0.00781443,0.0387571,0.0387593,0.0573516,4.62692e-11,4.6269e-11,4.55227e-10,2.62369e-07,2.62279e-07,5.00418e-08,0,0,0,0,0,0,0,0
+33485000,0.983445,-0.0106165,-0.011845,0.180506,0.0187256,-0.107074,-0.105647,0.0657726,-0.045089,-0.0519435,-1.20176e-05,-5.65085e-05,5.06133e-06,4.14399e-05,-0.000320068,-0.00108094,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98441e-06,1.49991e-05,1.49885e-05,8.60982e-05,0.0215779,0.0215829,0.00780724,0.0430304,0.0430333,0.0580479,4.63684e-11,4.63681e-11,4.53206e-10,2.62369e-07,2.62279e-07,5.00515e-08,0,0,0,0,0,0,0,0
+33585000,0.983473,-0.0103491,-0.0118143,0.180374,0.0147977,-0.100039,-0.101889,0.0675405,-0.0392962,-0.0577467,-1.22945e-05,-5.64283e-05,5.18785e-06,4.14399e-05,-0.000320068,-0.00108157,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97951e-06,1.4001e-05,1.39901e-05,8.60161e-05,0.0200958,0.0201004,0.00764696,0.0390855,0.0390878,0.0574464,4.46789e-11,4.46757e-11,4.50462e-10,2.62369e-07,2.62279e-07,5.00437e-08,0,0,0,0,0,0,0,0
+33685000,0.983482,-0.0103445,-0.0118033,0.180323,0.0108559,-0.103985,-0.103476,0.0688621,-0.0495378,-0.0661995,-1.22938e-05,-5.64292e-05,5.22937e-06,4.14399e-05,-0.000320068,-0.0010816,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97615e-06,1.42178e-05,1.42066e-05,8.5938e-05,0.0220051,0.0220106,0.00760732,0.0434482,0.0434513,0.057286,4.47778e-11,4.47745e-11,4.47707e-10,2.62369e-07,2.62279e-07,5.00524e-08,0,0,0,0,0,0,0,0
+33785000,0.983495,-0.0101475,-0.0118003,0.180266,0.00640068,-0.0963483,-0.0976961,0.0717053,-0.0427693,-0.0721766,-1.25585e-05,-5.63206e-05,5.20469e-06,4.14399e-05,-0.000320068,-0.00108233,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97058e-06,1.32109e-05,1.31996e-05,8.5865e-05,0.0203797,0.0203846,0.00748306,0.0394029,0.0394053,0.056693,4.31485e-11,4.31427e-11,4.44934e-10,2.62369e-07,2.62279e-07,5.00318e-08,0,0,0,0,0,0,0,0
+33885000,0.98351,-0.0101878,-0.0117576,0.180182,0.00290587,-0.0974002,-0.0972777,0.0721175,-0.0525026,-0.0794133,-1.25564e-05,-5.63229e-05,5.31031e-06,4.14399e-05,-0.000320068,-0.00108241,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96776e-06,1.34174e-05,1.34061e-05,8.57937e-05,0.022263,0.022269,0.00747261,0.04384,0.0438433,0.0565169,4.32474e-11,4.32415e-11,4.42148e-10,2.62369e-07,2.62279e-07,5.00388e-08,0,0,0,0,0,0,0,0
+33985000,0.983504,-0.00993608,-0.0118928,0.180221,0.000474934,-0.08685,-0.0936306,0.0737764,-0.0431267,-0.0826041,-1.28377e-05,-5.61904e-05,5.26338e-06,4.14399e-05,-0.000320068,-0.00108334,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96505e-06,1.24218e-05,1.24099e-05,8.5725e-05,0.0205234,0.0205287,0.00738016,0.0396971,0.0396996,0.0559396,4.17006e-11,4.16924e-11,4.39348e-10,2.62369e-07,2.62279e-07,5.0005e-08,0,0,0,0,0,0,0,0
+34085000,0.98351,-0.0098734,-0.0118963,0.180194,-0.00309132,-0.0913989,-0.0926968,0.0736902,-0.0520706,-0.0892595,-1.28376e-05,-5.61906e-05,5.26655e-06,4.14399e-05,-0.000320068,-0.00108344,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97353e-06,1.26187e-05,1.26065e-05,8.59997e-05,0.0223696,0.0223757,0.00745335,0.0441925,0.0441958,0.0565549,4.17997e-11,4.17916e-11,4.37268e-10,2.62369e-07,2.62279e-07,5.00108e-08,0,0,0,0,0,0,0,0
+34185000,0.983511,-0.00970207,-0.0119351,0.180195,-0.0067162,-0.0814342,-0.0903489,0.07577,-0.0435096,-0.0910233,-1.30758e-05,-5.60705e-05,5.31238e-06,4.14399e-05,-0.000320068,-0.0010842,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97183e-06,1.16498e-05,1.16375e-05,8.59357e-05,0.0205362,0.0205415,0.00738678,0.0399586,0.0399612,0.0559831,4.03501e-11,4.03401e-11,4.34447e-10,2.62369e-07,2.62279e-07,5.00037e-08,0,0,0,0,0,0,0,0
+34285000,0.983515,-0.00959494,-0.0119955,0.180176,-0.00683311,-0.0849757,-0.0892991,0.0751232,-0.0518713,-0.0982528,-1.30746e-05,-5.60717e-05,5.36767e-06,4.14399e-05,-0.000320068,-0.0010843,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97031e-06,1.18375e-05,1.18247e-05,8.58747e-05,0.0223343,0.0223404,0.0074281,0.0444951,0.0444986,0.0558085,4.04489e-11,4.04389e-11,4.31617e-10,2.62369e-07,2.62279e-07,5.00041e-08,0,0,0,0,0,0,0,0
+34385000,0.983538,-0.00938086,-0.0120051,0.180057,-0.0096869,-0.0740601,-0.0842819,0.0754152,-0.0430722,-0.101403,-1.32978e-05,-5.59689e-05,5.38109e-06,4.14399e-05,-0.000320068,-0.00108576,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96424e-06,1.09081e-05,1.08951e-05,8.58204e-05,0.0204258,0.0204311,0.0073856,0.0401805,0.0401831,0.0552637,3.91054e-11,3.90938e-11,4.28777e-10,2.62369e-07,2.62279e-07,5.0001e-08,0,0,0,0,0,0,0,0
+34485000,0.983542,-0.00946577,-0.0119349,0.180036,-0.0127112,-0.0778132,-0.0827764,0.0742966,-0.0507345,-0.104868,-1.32966e-05,-5.59702e-05,5.43975e-06,4.14399e-05,-0.000320068,-0.00108612,0.20428,0.00198396,0.434362,0,0,0,0,0,2.9629e-06,1.10867e-05,1.10738e-05,8.57639e-05,0.0221687,0.0221747,0.00744936,0.0447411,0.0447446,0.0551047,3.92042e-11,3.91928e-11,4.25928e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
+34585000,0.983548,-0.00926817,-0.0117582,0.180025,-0.0129232,-0.066365,0.663133,0.0747503,-0.043009,-0.0797386,-1.34773e-05,-5.58717e-05,5.429e-06,4.14399e-05,-0.000320068,-0.00108746,0.20428,0.00198396,0.434362,0,0,0,0,0,2.9599e-06,1.02055e-05,1.0193e-05,8.57111e-05,0.0190968,0.0191015,0.00742045,0.040328,0.0403307,0.0545903,3.79705e-11,3.79578e-11,4.23071e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
+34685000,0.983555,-0.0092552,-0.0114712,0.180008,-0.0147195,-0.0633636,1.6538,0.0733756,-0.0494922,0.0331333,-1.34777e-05,-5.58713e-05,5.41304e-06,4.14399e-05,-0.000320068,-0.00108719,0.20428,0.00198396,0.434362,0,0,0,0,0,2.95711e-06,1.03756e-05,1.03637e-05,8.56602e-05,0.0192058,0.0192106,0.00749494,0.0447231,0.0447265,0.0544518,3.80692e-11,3.80567e-11,4.20207e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
+34785000,0.983564,-0.00909719,-0.0112416,0.179981,-0.0148454,-0.0519311,2.62009,0.0741477,-0.0418485,0.194962,-1.36219e-05,-5.57816e-05,5.42701e-06,4.14399e-05,-0.000320068,-0.00106123,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96557e-06,9.64864e-06,9.63708e-06,8.59489e-05,0.0163732,0.0163768,0.00753172,0.0402602,0.0402629,0.0547072,3.70659e-11,3.70525e-11,4.18078e-10,2.62369e-07,2.62279e-07,5.0002e-08,0,0,0,0,0,0,0,0
+34885000,0.98357,-0.00908286,-0.0109558,0.179967,-0.0165849,-0.0489137,3.60564,0.0726214,-0.0468636,0.484799,-1.36226e-05,-5.57805e-05,5.40593e-06,4.14399e-05,-0.000320068,-0.00105898,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96287e-06,9.81258e-06,9.80156e-06,8.59003e-05,0.0164846,0.0164883,0.00762393,0.0443776,0.0443809,0.0545905,3.71646e-11,3.71514e-11,4.15202e-10,2.62369e-07,2.62279e-07,5.0001e-08,0,0,0,0,0,0,0,0
-- 
2.43.0


From 68c14b0c5cb217c0e8cd8dc5cb1a6766da96831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:02 +0000
Subject: [PATCH 25/29] fix: give the backup yaw estimator the GNSS speed
 accuracy, not the vertical position accuracy

---
 EKF/ekf_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index f65bc91..a376d11 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1671,9 +1671,9 @@ void Ekf::runYawEKFGSF()
 	_yawEstimator.update(_imu_sample_delayed, _control_status.flags.in_air, TAS, imu_gyro_bias);
 
 	// basic sanity check on GPS velocity data
-	if (_gps_data_ready && _gps_sample_delayed.vacc > FLT_EPSILON &&
+	if (_gps_data_ready && _gps_sample_delayed.sacc > FLT_EPSILON &&
 	    ISFINITE(_gps_sample_delayed.vel(0)) && ISFINITE(_gps_sample_delayed.vel(1))) {
-		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.vacc);
+		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.sacc);
 	}
 }
 
-- 
2.43.0


From bc4a81f43d411c4bc62b0cffde671c5d1499d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:29 +0000
Subject: [PATCH 26/29] test: restore the change indicator files, rewritten by
 accident in 60be852

---
 test/change_indication/ekf_gsf_reset.csv | 110 +++++++++++------------
 test/change_indication/iris_gps.csv      |  50 +++++------
 2 files changed, 80 insertions(+), 80 deletions(-)

diff --git a/test/change_indication/ekf_gsf_reset.csv b/test/change_indication/ekf_gsf_reset.csv
index 169b64a..df78fec 100644
--- a/test/change_indication/ekf_gsf_reset.csv
+++ b/test/change_indication/ekf_gsf_reset.csv
@@ -334,58 +334,58 @@ Timestamp,state[0],state[1],state[2],state[3],state[4],state[5],state[6],state[7
 33185000,0.710888,0.00241459,-0.00217875,0.703298,-1.29883,-0.765131,0.593922,-14.8205,-7.06737,-366.7,-1.18847e-05,-6.05084e-05,2.01592e-06,-0.000270726,0.000142677,-0.00073644,0.214277,0.00208335,0.429347,-0.00353318,0.00277453,0.00372568,0,0,9.27042e-05,1.33282e-05,1.32519e-05,9.25788e-05,0.0235758,0.0240803,0.0155051,0.333611,0.334713,0.0741049,3.64072e-11,3.63471e-11,2.5772e-10,2.10102e-07,2.11668e-07,1.77738e-06,0.000608686,1.47664e-05,0.000598685,8.21121e-05,0.000608032,0.000594186,0,0
 33285000,0.662562,0.015418,-0.00100579,0.748848,-1.29439,-0.748369,0.561121,-14.95,-7.14295,-366.643,-1.18879e-05,-6.04894e-05,2.03757e-06,-0.000268648,0.000143239,-0.000733442,0.213945,0.00210311,0.429077,-0.00340552,0.00298205,0.00342828,0,0,9.67402e-05,1.34636e-05,1.33789e-05,8.51964e-05,0.0246797,0.025193,0.0153847,0.346256,0.347221,0.0740944,3.64923e-11,3.62941e-11,2.576e-10,2.08209e-07,2.115e-07,1.77054e-06,0.000539336,1.44753e-05,0.000531833,7.40981e-05,0.000538912,0.000529374,0,0
 33385000,0.56194,0.0136439,-0.00171883,0.827064,-1.29239,-0.735526,0.752537,-15.0829,-7.21533,-366.577,-1.19153e-05,-6.04638e-05,2.055e-06,-0.000266328,0.000145125,-0.000731766,0.212892,0.00211986,0.42939,-0.0031222,0.00331461,0.00362746,0,0,0.000105866,1.34114e-05,1.32786e-05,7.38291e-05,0.023306,0.0237315,0.0147871,0.343011,0.344174,0.0727724,3.64645e-11,3.61751e-11,2.57445e-10,2.06895e-07,2.11359e-07,1.7676e-06,0.00049478,1.42737e-05,0.000508139,6.86062e-05,0.000493244,0.000506453,0,0
-33485000,0.426066,0.00720653,0.000960051,0.904663,-1.27601,-0.731434,0.779951,-15.2115,-7.28864,-366.498,-1.1911e-05,-6.04723e-05,2.04511e-06,-0.000266328,0.000145125,-0.000731766,0.213259,0.00211309,0.429498,-0.00319724,0.00359752,0.00374386,0,0,0.00011672,1.36075e-05,1.34045e-05,6.25852e-05,0.024364,0.024792,0.0148505,0.355575,0.356608,0.0740727,3.65533e-11,3.622e-11,2.57462e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000440113,1.41665e-05,0.000498504,6.60528e-05,0.00043575,0.000497138,0,0
-33585000,0.269734,0.00113653,-0.00138284,0.962933,-1.23601,-0.729334,0.743357,-15.3221,-7.34737,-366.427,-1.18867e-05,-6.04347e-05,2.01307e-06,-0.000266328,0.000145125,-0.000731766,0.21161,0.00208911,0.429366,-0.00292789,0.00275626,0.00366415,0,0,0.000125043,1.35425e-05,1.32763e-05,5.36472e-05,0.023319,0.0236939,0.014762,0.352529,0.353755,0.0727475,3.64924e-11,3.61371e-11,2.57385e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000343207,1.40437e-05,0.000490301,6.41577e-05,0.000333189,0.000489145,0,0
-33685000,0.103505,-0.00226218,-0.00449558,0.994616,-1.18324,-0.727949,0.750117,-15.443,-7.42035,-366.352,-1.18989e-05,-6.0439e-05,2.00527e-06,-0.000266328,0.000145125,-0.000731766,0.210692,0.00207538,0.429442,-0.00288517,0.00191365,0.00376958,0,0,0.000129574,1.36948e-05,1.33567e-05,4.88637e-05,0.0245156,0.0249297,0.0153934,0.364793,0.365888,0.0726449,3.65777e-11,3.6189e-11,2.57393e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000253192,1.39017e-05,0.000484869,6.25712e-05,0.000238001,0.000483826,0,0
-33785000,-0.0663388,-0.00391012,-0.00629144,0.99777,-1.12312,-0.711429,0.73268,-15.5654,-7.47971,-366.276,-1.19403e-05,-6.04521e-05,1.87718e-06,-0.000266328,0.000145125,-0.000731766,0.209542,0.00199371,0.429101,-0.0026126,0.00124515,0.0035769,0,0,0.000128577,1.3477e-05,1.30876e-05,4.84772e-05,0.0235463,0.0239269,0.0160035,0.362163,0.363453,0.0713921,3.64689e-11,3.60345e-11,2.57232e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000186999,1.37188e-05,0.000480924,6.02017e-05,0.000168732,0.000479972,0,0
-33885000,-0.234008,-0.00508563,-0.00695505,0.972197,-1.05579,-0.690568,0.718728,-15.6739,-7.5504,-366.204,-1.19524e-05,-6.0524e-05,1.77053e-06,-0.000266328,0.000145125,-0.000731766,0.208581,0.0019004,0.428975,-0.00234656,0.000580743,0.00359121,0,0,0.000122761,1.34984e-05,1.30816e-05,5.27297e-05,0.0248857,0.0252995,0.0173813,0.374143,0.375292,0.0713086,3.65628e-11,3.60376e-11,2.57118e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000143449,1.34981e-05,0.000477991,5.68308e-05,0.000123869,0.000477112,0,0
-33985000,-0.381937,-0.0036965,-0.0103961,0.924122,-1.00024,-0.653161,0.690479,-15.8037,-7.6073,-366.135,-1.20693e-05,-6.05215e-05,1.64208e-06,-0.000266328,0.000145125,-0.000731766,0.208751,0.00185138,0.428883,-0.00209528,0.000726354,0.00358356,0,0,0.000113116,1.30705e-05,1.26872e-05,5.92937e-05,0.0239725,0.0243309,0.0185986,0.371893,0.373244,0.0701725,3.64033e-11,3.57878e-11,2.56802e-10,2.06899e-07,2.11363e-07,1.7676e-06,0.000115444,1.32553e-05,0.000475602,5.28001e-05,9.60096e-05,0.000474794,0,0
-34085000,-0.490325,-0.00249773,-0.012077,0.871453,-0.944421,-0.609186,0.692027,-15.9007,-7.67067,-366.064,-1.20719e-05,-6.05496e-05,1.59647e-06,-0.000266328,0.000145125,-0.000731779,0.208585,0.00181555,0.42895,-0.00199955,0.000558605,0.00368113,0,0,0.000104471,1.29607e-05,1.26521e-05,6.62009e-05,0.0254263,0.0257833,0.0210264,0.383607,0.384805,0.0714844,3.65016e-11,3.57978e-11,2.56674e-10,2.06909e-07,2.11373e-07,1.76761e-06,0.000101451,1.30728e-05,0.000474173,4.96821e-05,8.23252e-05,0.000473415,0,0
-34185000,-0.561839,-0.00236006,-0.0107091,0.827174,-0.915879,-0.563797,0.694175,-16.0446,-7.73736,-365.993,-1.23165e-05,-6.06127e-05,1.50081e-06,-0.000268122,0.00014682,-0.00073251,0.208914,0.00178569,0.428837,-0.00180732,0.000561091,0.00361654,0,0,9.64394e-05,1.24148e-05,1.21791e-05,7.02981e-05,0.0245258,0.0247971,0.023108,0.381707,0.38311,0.0704715,3.6291e-11,3.55081e-11,2.56291e-10,2.06889e-07,2.11351e-07,1.76657e-06,8.81719e-05,1.28411e-05,0.000472439,4.57763e-05,6.9968e-05,0.000471739,0,0
-34285000,-0.606377,-0.00322167,-0.00778762,0.795133,-0.864766,-0.516234,0.692562,-16.1334,-7.79163,-365.924,-1.23163e-05,-6.06516e-05,1.43101e-06,-0.000268117,0.000146823,-0.000732467,0.209016,0.0017392,0.428807,-0.00156225,0.000553463,0.00362806,0,0,9.11465e-05,1.22905e-05,1.21057e-05,7.31387e-05,0.0261247,0.0263663,0.0265894,0.393168,0.394415,0.0707791,3.63904e-11,3.55106e-11,2.5609e-10,2.06899e-07,2.11361e-07,1.76655e-06,7.94333e-05,1.26337e-05,0.00047116,4.23672e-05,6.17555e-05,0.000470499,0,0
-34385000,-0.633394,-0.00395555,-0.00501187,0.773803,-0.833302,-0.475023,0.691908,-16.2683,-7.85182,-365.857,-1.25785e-05,-6.0718e-05,1.35143e-06,-0.000271736,0.000151288,-0.000730894,0.209378,0.00172247,0.428692,-0.00139734,0.000560834,0.00352094,0,0,8.67118e-05,1.17483e-05,1.15958e-05,7.37048e-05,0.0252175,0.0253859,0.0292963,0.391583,0.393031,0.0699742,3.61366e-11,3.52204e-11,2.55711e-10,2.06749e-07,2.11204e-07,1.76062e-06,7.27609e-05,1.24491e-05,0.00046987,3.94922e-05,5.59861e-05,0.000469236,0,0
-34485000,-0.64978,-0.00489651,-0.00276563,0.760101,-0.777432,-0.433129,0.690671,-16.3486,-7.89744,-365.79,-1.25789e-05,-6.07475e-05,1.29265e-06,-0.00027172,0.000151292,-0.000730535,0.209305,0.00168416,0.428696,-0.00128772,0.000402494,0.00354618,0,0,8.42251e-05,1.16624e-05,1.15273e-05,7.4332e-05,0.0269266,0.0270642,0.0337662,0.402811,0.404101,0.0706788,3.62365e-11,3.52555e-11,2.55549e-10,2.06759e-07,2.11214e-07,1.76042e-06,6.81903e-05,1.22882e-05,0.000468942,3.7088e-05,5.1761e-05,0.000468322,0,0
-34585000,-0.659753,-0.0051797,-0.00147468,0.751464,-0.75205,-0.404067,0.690488,-16.4926,-7.96704,-365.721,-1.29595e-05,-6.0888e-05,1.26686e-06,-0.00028026,0.000160513,-0.000729405,0.209619,0.00169025,0.428669,-0.00126793,0.000278819,0.00351581,0,0,8.14432e-05,1.11288e-05,1.10014e-05,7.34247e-05,0.0259643,0.0260465,0.0365664,0.40151,0.402995,0.0700948,3.59493e-11,3.49697e-11,2.55184e-10,2.06407e-07,2.10849e-07,1.74645e-06,6.41261e-05,1.21431e-05,0.000467838,3.50761e-05,4.85302e-05,0.000467232,0,0
-34685000,-0.665958,-0.00554774,-0.000649906,0.745968,-0.693925,-0.362954,0.686763,-16.5648,-8.00553,-365.649,-1.29604e-05,-6.09057e-05,1.21751e-06,-0.000280236,0.000160521,-0.000730379,0.209848,0.00166727,0.428671,-0.0010533,0.000375303,0.0034793,0,0,8.01566e-05,1.1064e-05,1.09406e-05,7.33318e-05,0.027768,0.0278183,0.0417547,0.41252,0.413845,0.0713096,3.60492e-11,3.50284e-11,2.55053e-10,2.06417e-07,2.10859e-07,1.74574e-06,6.13706e-05,1.2016e-05,0.000467101,3.33812e-05,4.60021e-05,0.000466501,0,0
-34785000,-0.669925,-0.00522141,-0.000247307,0.74241,-0.670252,-0.337905,0.685368,-16.7018,-8.07194,-365.578,-1.33713e-05,-6.10813e-05,1.15376e-06,-0.000291398,0.000173626,-0.000736071,0.210379,0.00165794,0.428574,-0.000871376,0.000304961,0.0033424,0,0,7.82224e-05,1.05402e-05,1.04167e-05,7.20953e-05,0.0267217,0.0267336,0.0443685,0.411475,0.412988,0.0721816,3.57402e-11,3.47543e-11,2.54746e-10,2.05821e-07,2.1024e-07,1.72228e-06,5.90307e-05,1.1926e-05,0.000466268,3.22783e-05,4.44274e-05,0.000465679,0,0
-34885000,-0.672455,-0.00525455,-0.000126615,0.74012,-0.613879,-0.299774,0.683788,-16.7658,-8.10394,-365.507,-1.33704e-05,-6.10961e-05,1.11284e-06,-0.00029136,0.00017363,-0.000736952,0.210348,0.00163616,0.428563,-0.000812606,0.000209144,0.00334351,0,0,7.74245e-05,1.04889e-05,1.03651e-05,7.17921e-05,0.0285844,0.0285616,0.0499626,0.422283,0.423636,0.0740256,3.58397e-11,3.48269e-11,2.54632e-10,2.05831e-07,2.10249e-07,1.72085e-06,5.7104e-05,1.18192e-05,0.000465654,3.09947e-05,4.26743e-05,0.00046507,0,0
-34985000,-0.675707,-0.0120086,-0.00243723,0.737069,0.357464,0.329859,-0.09823,-16.8433,-8.13206,-365.501,-1.38848e-05,-6.13347e-05,1.06036e-06,-0.000308479,0.000193538,-0.000743465,0.210888,0.00163234,0.428521,-0.000674397,4.32039e-05,0.0033484,0,0,7.53379e-05,9.95665e-06,9.89408e-06,7.03308e-05,0.0290352,0.0302199,0.0527145,0.421401,0.422851,0.0737872,3.55212e-11,3.4551e-11,2.54269e-10,2.04961e-07,2.09349e-07,1.68871e-06,5.48274e-05,1.17175e-05,0.000464683,2.98808e-05,4.12043e-05,0.000464106,0,0
-35085000,-0.675863,-0.0123875,-0.0028371,0.736918,0.578114,0.350724,-0.200463,-16.7879,-8.09881,-365.512,-1.38821e-05,-6.1348e-05,1.01276e-06,-0.000308479,0.000193538,-0.000743465,0.210862,0.00160957,0.428512,-0.000621891,-6.89721e-05,0.00341038,0,0,7.48751e-05,9.9167e-06,9.85672e-06,6.9887e-05,0.0309251,0.032478,0.0561575,0.431963,0.433123,0.0762843,3.56201e-11,3.46337e-11,2.54166e-10,2.04961e-07,2.09349e-07,1.68871e-06,5.34472e-05,1.1627e-05,0.000464095,2.89122e-05,3.99701e-05,0.000463514,0,0
-35185000,-0.675916,-0.0124047,-0.00287263,0.736869,0.60933,0.388672,-0.181579,-16.7283,-8.062,-365.512,-1.38704e-05,-6.13503e-05,9.47416e-07,-0.000308479,0.000193538,-0.000743465,0.211062,0.00159058,0.428743,-0.000521627,-8.92629e-05,0.00367671,0,0,7.34856e-05,9.87997e-06,9.81916e-06,6.82707e-05,0.0326441,0.0341905,0.0537462,0.443093,0.443985,0.0757826,3.57173e-11,3.47189e-11,2.54062e-10,2.04961e-07,2.09349e-07,1.68871e-06,5.19649e-05,1.15428e-05,0.000463147,2.80636e-05,3.89162e-05,0.000462574,0,0
-35285000,-0.675958,-0.0124136,-0.00294659,0.736829,0.642541,0.427157,-0.176587,-16.6656,-8.02135,-365.52,-1.38677e-05,-6.13617e-05,8.86425e-07,-0.000308479,0.000193538,-0.000743465,0.211111,0.00156714,0.428773,-0.000423704,-0.000151825,0.00376435,0,0,7.31193e-05,9.84771e-06,9.78543e-06,6.78763e-05,0.0344455,0.0359779,0.056339,0.454842,0.455492,0.0784835,3.58156e-11,3.48076e-11,2.53964e-10,2.04961e-07,2.09349e-07,1.68871e-06,5.0924e-05,1.14637e-05,0.000462645,2.73141e-05,3.80061e-05,0.00046207,0,0
-35385000,-0.676045,-0.0124467,-0.00293328,0.73675,0.674629,0.464962,-0.158148,-16.5998,-7.97707,-365.517,-1.38587e-05,-6.13698e-05,8.00737e-07,-0.000308479,0.000193538,-0.000743465,0.211248,0.00154012,0.42887,-0.000321634,-0.000240567,0.00393371,0,0,7.20006e-05,9.81884e-06,9.75618e-06,6.65118e-05,0.0363103,0.0378274,0.0540776,0.467261,0.467696,0.0792832,3.59129e-11,3.48997e-11,2.53912e-10,2.04961e-07,2.09349e-07,1.68871e-06,4.99382e-05,1.14077e-05,0.000461898,2.68071e-05,3.74008e-05,0.000461334,0,0
-35485000,-0.676168,-0.0124648,-0.00293999,0.736636,0.707986,0.50223,-0.154061,-16.5306,-7.92895,-365.523,-1.38562e-05,-6.13814e-05,7.25855e-07,-0.000308479,0.000193538,-0.000743465,0.211301,0.00151389,0.428876,-0.000209658,-0.000310412,0.00400493,0,0,7.16896e-05,9.79182e-06,9.728e-06,6.61727e-05,0.0382562,0.0397509,0.0563851,0.480405,0.480652,0.082152,3.60105e-11,3.49919e-11,2.53815e-10,2.04961e-07,2.09349e-07,1.68871e-06,4.9095e-05,1.1336e-05,0.000461453,2.61937e-05,3.66798e-05,0.000460889,0,0
-35585000,-0.676221,-0.0124692,-0.00296675,0.736588,0.740375,0.54049,-0.139324,-16.4585,-7.87716,-365.521,-1.38464e-05,-6.13842e-05,6.82554e-07,-0.000308479,0.000193538,-0.000743468,0.211342,0.00150017,0.428948,-0.000201409,-0.000409965,0.00413088,0,0,7.05217e-05,9.76588e-06,9.70172e-06,6.47584e-05,0.0402706,0.0417412,0.0533899,0.49433,0.494414,0.0810641,3.61067e-11,3.50848e-11,2.53712e-10,2.04967e-07,2.09355e-07,1.68871e-06,4.80633e-05,1.12677e-05,0.000460664,2.56421e-05,3.60412e-05,0.000460113,0,0
-35685000,-0.676268,-0.0124633,-0.00292789,0.736544,0.773313,0.578642,-0.136626,-16.3829,-7.8214,-365.53,-1.38494e-05,-6.13911e-05,6.27853e-07,-0.000308479,0.000193538,-0.000743524,0.211386,0.00148367,0.428884,-0.000123337,-0.000449714,0.00410728,0,0,7.02687e-05,9.7439e-06,9.67836e-06,6.44565e-05,0.0424019,0.0438379,0.0556911,0.509097,0.509044,0.0838795,3.62034e-11,3.51797e-11,2.53612e-10,2.04977e-07,2.09365e-07,1.68872e-06,4.73773e-05,1.12023e-05,0.00046027,2.51436e-05,3.54724e-05,0.000459721,0,0
-35785000,-0.676316,-0.0124983,-0.00296168,0.736499,0.806495,0.616826,-0.120822,-16.3044,-7.76195,-365.524,-1.38435e-05,-6.13857e-05,5.67009e-07,-0.000308462,0.000193528,-0.00074999,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.88694e-05,9.7246e-06,9.65852e-06,6.287e-05,0.0445737,0.0459313,0.0530699,0.524761,0.524597,0.0825074,3.63008e-11,3.52756e-11,2.53309e-10,2.04981e-07,2.09369e-07,1.6874e-06,0,0,0,0,0,0,0,0
-35885000,-0.67639,-0.0125116,-0.00302753,0.736431,0.839016,0.656528,-0.116042,-16.2223,-7.69816,-365.528,-1.38418e-05,-6.13811e-05,5.10897e-07,-0.000308462,0.000193528,-0.00075047,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.79354e-05,9.70974e-06,9.64223e-06,6.20018e-05,0.0467907,0.0480067,0.0556384,0.541395,0.541133,0.0852126,3.64006e-11,3.5373e-11,2.52813e-10,2.04981e-07,2.09369e-07,1.68738e-06,0,0,0,0,0,0,0,0
-35985000,-0.67643,-0.0124699,-0.00303682,0.736395,0.871548,0.694138,-0.104207,-16.1372,-7.63082,-365.526,-1.38382e-05,-6.13758e-05,4.73834e-07,-0.000308462,0.000193528,-0.000760044,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.63147e-05,9.69642e-06,9.6271e-06,6.02636e-05,0.0490635,0.0501365,0.0532466,0.559048,0.558703,0.0835963,3.64999e-11,3.547e-11,2.52307e-10,2.04981e-07,2.09369e-07,1.68168e-06,0,0,0,0,0,0,0,0
-36085000,-0.676488,-0.0125193,-0.00305141,0.736341,0.904114,0.733552,-0.100458,-16.0486,-7.55918,-365.529,-1.38368e-05,-6.13719e-05,4.23745e-07,-0.000308462,0.000193528,-0.000760961,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.57398e-05,9.68616e-06,9.61567e-06,5.972e-05,0.0514224,0.0523606,0.0566728,0.577807,0.577381,0.0880775,3.65998e-11,3.55681e-11,2.51952e-10,2.04981e-07,2.09369e-07,1.68159e-06,0,0,0,0,0,0,0,0
-36185000,-0.676632,-0.0125188,-0.00308211,0.736208,0.935422,0.773395,-0.0875822,-15.9577,-7.48316,-365.522,-1.38325e-05,-6.13593e-05,2.64011e-07,-0.000308462,0.000193528,-0.000773373,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.42624e-05,9.67682e-06,9.60467e-06,5.81266e-05,0.053831,0.0546076,0.0543021,0.597712,0.597206,0.0861826,3.66993e-11,3.56653e-11,2.51436e-10,2.04981e-07,2.09369e-07,1.6695e-06,0,0,0,0,0,0,0,0
-36285000,-0.676737,-0.0125956,-0.00306871,0.73611,0.96751,0.813117,-0.0794399,-15.8631,-7.40346,-365.516,-1.38301e-05,-6.13528e-05,1.84699e-07,-0.000308462,0.000193528,-0.00077653,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.34371e-05,9.67006e-06,9.59653e-06,5.73547e-05,0.0563214,0.056923,0.0572299,0.618864,0.618259,0.0887653,3.67992e-11,3.57629e-11,2.5092e-10,2.04981e-07,2.09369e-07,1.66915e-06,0,0,0,0,0,0,0,0
-36385000,-0.676767,-0.0126306,-0.00309465,0.736082,0.999987,0.850194,-0.0696986,-15.7654,-7.32027,-365.511,-1.38278e-05,-6.1348e-05,1.38506e-07,-0.000308462,0.000193528,-0.000790207,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.21108e-05,9.66465e-06,9.5898e-06,5.59347e-05,0.0588649,0.0592912,0.0548189,0.641301,0.640589,0.0867073,3.68988e-11,3.58602e-11,2.50394e-10,2.04981e-07,2.09369e-07,1.6497e-06,0,0,0,0,0,0,0,0
-36485000,-0.676769,-0.012691,-0.00315422,0.736079,1.03379,0.888664,-0.0662352,-15.6638,-7.23341,-365.513,-1.38272e-05,-6.13473e-05,1.3627e-07,-0.000308462,0.000193528,-0.000791786,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.1342e-05,9.66123e-06,9.58543e-06,5.5212e-05,0.0614866,0.061726,0.0577395,0.665136,0.664278,0.0891701,3.69987e-11,3.5958e-11,2.49866e-10,2.04981e-07,2.09369e-07,1.6489e-06,0,0,0,0,0,0,0,0
-36585000,-0.676917,-0.0127442,-0.00314558,0.735942,1.06526,0.92859,-0.0543312,-15.5599,-7.14166,-365.505,-1.38248e-05,-6.13388e-05,2.05778e-08,-0.000308462,0.000193528,-0.000805923,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,6.0163e-05,9.65995e-06,9.58275e-06,5.39655e-05,0.0641593,0.0642044,0.0552024,0.690399,0.689375,0.0869877,3.70985e-11,3.60555e-11,2.4933e-10,2.04981e-07,2.09369e-07,1.622e-06,0,0,0,0,0,0,0,0
-36685000,-0.677032,-0.0127344,-0.00312064,0.735836,1.09784,0.968707,-0.0499124,-15.4523,-7.04584,-365.504,-1.38236e-05,-6.13333e-05,-6.49362e-08,-0.000308462,0.000193528,-0.000808408,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.97149e-05,9.66111e-06,9.5823e-06,5.35409e-05,0.0669178,0.0667826,0.058782,0.717225,0.716002,0.0914337,3.71984e-11,3.61538e-11,2.48951e-10,2.04981e-07,2.09369e-07,1.62101e-06,0,0,0,0,0,0,0,0
-36785000,-0.677179,-0.0127765,-0.00316033,0.7357,1.12992,1.00921,-0.0409226,-15.3419,-6.94578,-365.498,-1.38219e-05,-6.1326e-05,-1.74167e-07,-0.000308462,0.000193528,-0.000816379,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.86675e-05,9.66339e-06,9.58346e-06,5.24459e-05,0.0697228,0.069379,0.0560212,0.745627,0.744149,0.0890527,3.72982e-11,3.62515e-11,2.48404e-10,2.04981e-07,2.09369e-07,1.58727e-06,0,0,0,0,0,0,0,0
-36885000,-0.677327,-0.0128324,-0.00317717,0.735563,1.16208,1.04818,-0.0369459,-15.2282,-6.8413,-365.497,-1.38208e-05,-6.1319e-05,-2.90634e-07,-0.000308462,0.000193528,-0.000819086,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.80064e-05,9.66782e-06,9.58673e-06,5.18292e-05,0.0726057,0.0720432,0.058795,0.775751,0.773942,0.0914648,3.73982e-11,3.63494e-11,2.47854e-10,2.04981e-07,2.09369e-07,1.58528e-06,0,0,0,0,0,0,0,0
-36985000,-0.677434,-0.0128466,-0.00312533,0.735465,1.19492,1.08822,-0.0313965,-15.1112,-6.73326,-365.493,-1.38197e-05,-6.13134e-05,-3.79927e-07,-0.000308462,0.000193528,-0.000823826,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.7094e-05,9.67445e-06,9.59159e-06,5.0884e-05,0.0755436,0.0747596,0.0558733,0.807615,0.805427,0.0890125,3.74981e-11,3.64472e-11,2.47296e-10,2.04981e-07,2.09369e-07,1.54585e-06,0,0,0,0,0,0,0,0
-37085000,-0.677494,-0.0128752,-0.00311202,0.735409,1.22799,1.12713,-0.0256027,-14.9906,-6.62164,-365.49,-1.3819e-05,-6.13098e-05,-4.38325e-07,-0.000308462,0.000193528,-0.000827003,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.64885e-05,9.68282e-06,9.59856e-06,5.03171e-05,0.0785527,0.0775373,0.0584466,0.841375,0.838709,0.0913499,3.7598e-11,3.65452e-11,2.46734e-10,2.04981e-07,2.09369e-07,1.543e-06,0,0,0,0,0,0,0,0
-37185000,-0.677577,-0.0129136,-0.00311534,0.735331,1.26134,1.16607,-0.0193178,-14.8667,-6.50638,-365.488,-1.38187e-05,-6.13071e-05,-4.82151e-07,-0.000308462,0.000193528,-0.000834532,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.56926e-05,9.69297e-06,9.60755e-06,4.95117e-05,0.0816152,0.0803656,0.0553814,0.877042,0.873835,0.0888487,3.7698e-11,3.66431e-11,2.46164e-10,2.04981e-07,2.09369e-07,1.49928e-06,0,0,0,0,0,0,0,0
-37285000,-0.67767,-0.0129319,-0.0031582,0.735246,1.29406,1.20559,-0.0149391,-14.7398,-6.38617,-365.486,-1.3818e-05,-6.13019e-05,-5.74275e-07,-0.000308462,0.000193528,-0.000837438,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.51381e-05,9.70487e-06,9.61833e-06,4.8995e-05,0.084756,0.0832605,0.0577243,0.914783,0.910917,0.0911086,3.77979e-11,3.67412e-11,2.4559e-10,2.04981e-07,2.09369e-07,1.49552e-06,0,0,0,0,0,0,0,0
-37385000,-0.677768,-0.0129718,-0.00311902,0.735155,1.32635,1.24386,-0.0108639,-14.6093,-6.26269,-365.485,-1.38179e-05,-6.12989e-05,-6.2982e-07,-0.000308462,0.000193528,-0.000841638,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.46662e-05,9.71932e-06,9.63174e-06,4.85058e-05,0.087953,0.0862329,0.0552263,0.954624,0.950077,0.090584,3.78979e-11,3.68397e-11,2.45179e-10,2.04981e-07,2.09369e-07,1.44987e-06,0,0,0,0,0,0,0,0
-37485000,-0.677902,-0.0129894,-0.00311583,0.735031,1.35875,1.28525,-0.00713999,-14.476,-6.13388,-365.484,-1.38174e-05,-6.1293e-05,-7.41682e-07,-0.000308462,0.000193528,-0.000842703,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.41535e-05,9.73524e-06,9.64643e-06,4.80355e-05,0.0912212,0.0892401,0.0573767,0.99671,0.99129,0.092861,3.79978e-11,3.69378e-11,2.44593e-10,2.04981e-07,2.09369e-07,1.44553e-06,0,0,0,0,0,0,0,0
-37585000,-0.677999,-0.0130208,-0.003117,0.734941,1.39011,1.32527,0.00160211,-14.3399,-6.00152,-365.476,-1.3817e-05,-6.12873e-05,-8.42919e-07,-0.000308462,0.000193528,-0.000853774,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.35506e-05,9.75309e-06,9.66314e-06,4.74398e-05,0.0945413,0.0922943,0.0540859,1.04107,1.03467,0.090201,3.80978e-11,3.70359e-11,2.44001e-10,2.04981e-07,2.09369e-07,1.39733e-06,0,0,0,0,0,0,0,0
-37685000,-0.678085,-0.0130688,-0.00317028,0.73486,1.42187,1.36647,0.00986674,-14.2005,-5.86509,-365.467,-1.38164e-05,-6.12821e-05,-9.36459e-07,-0.000308462,0.000193528,-0.000861003,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.30845e-05,9.77263e-06,9.68192e-06,4.70114e-05,0.0979375,0.095415,0.0559747,1.08787,1.08034,0.0923817,3.81978e-11,3.71341e-11,2.43403e-10,2.04981e-07,2.09369e-07,1.39217e-06,0,0,0,0,0,0,0,0
-37785000,-0.678166,-0.0130453,-0.0032215,0.734786,1.45353,1.40646,0.0169696,-14.0577,-5.72505,-365.459,-1.38161e-05,-6.12783e-05,-1.00587e-06,-0.000308462,0.000193528,-0.00086784,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.25572e-05,9.79399e-06,9.70225e-06,4.65045e-05,0.101387,0.0985858,0.0526684,1.13714,1.12836,0.0897037,3.82977e-11,3.72323e-11,2.42798e-10,2.04981e-07,2.09369e-07,1.34362e-06,0,0,0,0,0,0,0,0
-37885000,-0.678243,-0.0130518,-0.00323417,0.734715,1.4856,1.44704,0.0199121,-13.9113,-5.58061,-365.459,-1.3816e-05,-6.12751e-05,-1.07247e-06,-0.000308462,0.000193528,-0.000865951,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.21302e-05,9.81751e-06,9.72475e-06,4.61182e-05,0.104906,0.101818,0.0542977,1.18906,1.17884,0.0917779,3.83977e-11,3.73305e-11,2.42187e-10,2.04981e-07,2.09369e-07,1.3377e-06,0,0,0,0,0,0,0,0
-37985000,-0.67828,-0.0130696,-0.00328966,0.73468,1.51814,1.48702,0.0240442,-13.7615,-5.43278,-365.456,-1.38157e-05,-6.12729e-05,-1.11417e-06,-0.000308462,0.000193528,-0.000862647,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.1862e-05,9.84297e-06,9.74969e-06,4.58521e-05,0.108484,0.105134,0.0517009,1.24366,1.23197,0.0911768,3.84976e-11,3.74292e-11,2.41749e-10,2.04981e-07,2.09369e-07,1.29129e-06,0,0,0,0,0,0,0,0
-38085000,-0.678342,-0.0130925,-0.0033135,0.734622,1.54915,1.52763,0.0334288,-13.6095,-5.27977,-365.445,-1.38154e-05,-6.12678e-05,-1.21225e-06,-0.000308462,0.000193528,-0.000869813,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.14727e-05,9.87035e-06,9.77616e-06,4.54954e-05,0.112129,0.108478,0.0531366,1.30109,1.28763,0.0932307,3.85976e-11,3.75275e-11,2.41127e-10,2.04981e-07,2.09369e-07,1.28507e-06,0,0,0,0,0,0,0,0
-38185000,-0.678396,-0.0130877,-0.00330331,0.734573,1.57999,1.56753,0.0346843,-13.4534,-5.12321,-365.443,-1.38148e-05,-6.12649e-05,-1.27044e-06,-0.000308462,0.000193528,-0.000861951,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.10618e-05,9.89974e-06,9.8045e-06,4.51138e-05,0.115832,0.111877,0.0498898,1.36139,1.346,0.090488,3.86975e-11,3.76258e-11,2.40498e-10,2.04981e-07,2.09369e-07,1.2384e-06,0,0,0,0,0,0,0,0
-38285000,-0.678466,-0.0131112,-0.00332375,0.734508,1.61234,1.6069,0.0387741,-13.2946,-4.96259,-365.439,-1.38148e-05,-6.12617e-05,-1.33664e-06,-0.000308462,0.000193528,-0.000862645,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.07022e-05,9.93097e-06,9.835e-06,4.47944e-05,0.119608,0.115345,0.0510956,1.42475,1.40721,0.0924172,3.87975e-11,3.77242e-11,2.39863e-10,2.04981e-07,2.09369e-07,1.23166e-06,0,0,0,0,0,0,0,0
-38385000,-0.678504,-0.0131029,-0.00329394,0.734472,1.64395,1.64759,0.0380186,-13.1319,-4.79838,-365.437,-1.38137e-05,-6.12593e-05,-1.37995e-06,-0.000308462,0.000193528,-0.000849171,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.03371e-05,9.96428e-06,9.86729e-06,4.44621e-05,0.123445,0.118867,0.0479692,1.4912,1.47132,0.0897259,3.88974e-11,3.78225e-11,2.39222e-10,2.04981e-07,2.09369e-07,1.18696e-06,0,0,0,0,0,0,0,0
-38485000,-0.678581,-0.013106,-0.00332717,0.734401,1.67645,1.68838,0.0411067,-12.9667,-4.62934,-365.434,-1.38136e-05,-6.12559e-05,-1.45225e-06,-0.000308462,0.000193528,-0.000848429,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,5.00077e-05,9.99931e-06,9.90166e-06,4.41727e-05,0.127352,0.122455,0.0489665,1.56093,1.53847,0.0915281,3.89974e-11,3.79209e-11,2.38574e-10,2.04981e-07,2.09369e-07,1.17981e-06,0,0,0,0,0,0,0,0
-38585000,-0.678602,-0.0131354,-0.00327067,0.734381,1.70959,1.72959,0.037661,-12.7974,-4.45643,-365.437,-1.38124e-05,-6.12533e-05,-1.50027e-06,-0.000308462,0.000193528,-0.000830184,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,4.96826e-05,1.00367e-05,9.93814e-06,4.38783e-05,0.131319,0.1261,0.0459825,1.63397,1.60872,0.0888988,3.90972e-11,3.80193e-11,2.3792e-10,2.04981e-07,2.09369e-07,1.13744e-06,0,0,0,0,0,0,0,0
-38685000,-0.67869,-0.0132085,-0.00330015,0.734299,1.7413,1.76856,0.0399391,-12.6255,-4.27912,-365.437,-1.38123e-05,-6.12502e-05,-1.57019e-06,-0.000308462,0.000193528,-0.000826657,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,4.9548e-05,1.00758e-05,9.97722e-06,4.37638e-05,0.135354,0.129833,0.047438,1.71056,1.68241,0.0926711,3.91972e-11,3.81182e-11,2.3745e-10,2.04981e-07,2.09369e-07,1.13194e-06,0,0,0,0,0,0,0,0
-38785000,-0.678732,-0.0132117,-0.00330884,0.73426,1.77389,1.80912,0.0406814,-12.4503,-4.09789,-365.435,-1.38117e-05,-6.12469e-05,-1.63648e-06,-0.000308462,0.000193528,-0.000818777,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,4.92513e-05,1.01168e-05,1.00175e-05,4.34998e-05,0.139449,0.133597,0.0445483,1.79064,1.75922,0.0899937,3.9297e-11,3.82166e-11,2.36784e-10,2.04981e-07,2.09369e-07,1.09186e-06,0,0,0,0,0,0,0,0
-38885000,-0.678797,-0.01338,-0.00338416,0.734196,1.79032,1.82949,0.489995,-12.2728,-3.91337,-365.416,-1.38118e-05,-6.12438e-05,-1.70358e-06,-0.000308462,0.000193528,-0.000822383,0.211495,0.00147872,0.428994,-9.68426e-05,-0.000457635,0.0042285,0,0,4.89703e-05,1.01596e-05,1.00607e-05,4.32579e-05,0.141757,0.135672,0.0451179,1.87439,1.83941,0.0916052,3.9397e-11,3.83151e-11,2.36113e-10,2.04981e-07,2.09369e-07,1.08449e-06,0,0,0,0,0,0,0,0
+33485000,0.426066,0.00720653,0.000960051,0.904663,-1.27601,-0.731435,0.779909,-15.2115,-7.28864,-366.498,-1.1911e-05,-6.04723e-05,2.04511e-06,-0.000266328,0.000145125,-0.000731766,0.213259,0.00211309,0.429498,-0.00319724,0.00359752,0.00374385,0,0,0.00011672,1.36075e-05,1.34045e-05,6.25852e-05,0.0243605,0.0247897,0.0148326,0.355585,0.356618,0.0740757,3.65533e-11,3.622e-11,2.57462e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000440113,1.41665e-05,0.000498504,6.60528e-05,0.00043575,0.000497138,0,0
+33585000,0.269734,0.00113683,-0.00138258,0.962933,-1.23607,-0.729362,0.743612,-15.322,-7.34736,-366.427,-1.18871e-05,-6.04349e-05,2.01291e-06,-0.000266328,0.000145122,-0.000731786,0.211614,0.00208907,0.429369,-0.00292761,0.00275334,0.00366745,0,0,0.000125042,1.35449e-05,1.32787e-05,5.36525e-05,0.02331,0.0236864,0.0146937,0.352522,0.353748,0.0727513,3.64941e-11,3.61387e-11,2.57385e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000343212,1.40437e-05,0.000490307,6.41582e-05,0.000333192,0.00048915,0,0
+33685000,0.103505,-0.00226185,-0.00449534,0.994616,-1.18334,-0.727982,0.75029,-15.443,-7.42035,-366.352,-1.18993e-05,-6.04391e-05,2.00508e-06,-0.000266328,0.000145122,-0.000731786,0.210695,0.00207531,0.429445,-0.00288469,0.00191111,0.00377231,0,0,0.000129573,1.36972e-05,1.33591e-05,4.88699e-05,0.0244999,0.0249155,0.0152585,0.364796,0.365892,0.0726485,3.65793e-11,3.61906e-11,2.57393e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000253197,1.39017e-05,0.000484874,6.25717e-05,0.000238003,0.000483832,0,0
+33785000,-0.0663401,-0.00390996,-0.0062909,0.99777,-1.12328,-0.71154,0.733963,-15.5654,-7.47968,-366.276,-1.19404e-05,-6.04526e-05,1.87679e-06,-0.000266328,0.000145122,-0.000731784,0.20955,0.00199373,0.429108,-0.00260926,0.00123891,0.00358474,0,0,0.000128572,1.34819e-05,1.30928e-05,4.84971e-05,0.0235272,0.023908,0.0157943,0.362151,0.363442,0.0713928,3.64724e-11,3.6038e-11,2.57233e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000187019,1.37188e-05,0.000480955,6.02029e-05,0.00016874,0.000480002,0,0
+33885000,-0.234009,-0.00508546,-0.00695449,0.972196,-1.05603,-0.690768,0.720631,-15.6739,-7.5504,-366.204,-1.19524e-05,-6.05245e-05,1.77004e-06,-0.000266328,0.000145122,-0.000731785,0.208589,0.00190035,0.428982,-0.00234284,0.000574419,0.00359838,0,0,0.000122756,1.35036e-05,1.30867e-05,5.27514e-05,0.0248608,0.0252724,0.0170759,0.374141,0.375291,0.0712999,3.65663e-11,3.60413e-11,2.57118e-10,2.06896e-07,2.1136e-07,1.7676e-06,0.000143472,1.3498e-05,0.00047802,5.68317e-05,0.000123875,0.000477141,0,0
+33985000,-0.381939,-0.00369688,-0.0103952,0.924122,-1.00048,-0.653388,0.692583,-15.8037,-7.60724,-366.134,-1.20688e-05,-6.05221e-05,1.64175e-06,-0.000266608,0.000144665,-0.000732828,0.208763,0.00185231,0.42889,-0.00208553,0.000718522,0.00359019,0,0,0.000113103,1.30788e-05,1.26949e-05,5.93383e-05,0.0239473,0.0243011,0.0182054,0.371878,0.373231,0.0701546,3.64086e-11,3.57939e-11,2.56803e-10,2.06874e-07,2.11284e-07,1.75308e-06,0.000115499,1.32551e-05,0.000475682,5.28006e-05,9.60194e-05,0.000474874,0,0
+34085000,-0.490326,-0.00249807,-0.0120762,0.871452,-0.944677,-0.609451,0.693689,-15.9007,-7.67064,-366.064,-1.20713e-05,-6.05502e-05,1.59619e-06,-0.000267159,0.000143732,-0.000725237,0.208596,0.00181653,0.428956,-0.0019901,0.000550901,0.00368677,0,0,0.00010446,1.29693e-05,1.26595e-05,6.62452e-05,0.025397,0.0257461,0.020512,0.383601,0.3848,0.0714424,3.6507e-11,3.58038e-11,2.56674e-10,2.06846e-07,2.11228e-07,1.73436e-06,0.00010151,1.30725e-05,0.00047425,4.96821e-05,8.23328e-05,0.000473494,0,0
+34185000,-0.561838,-0.0023616,-0.0107081,0.827175,-0.916101,-0.564044,0.696069,-16.0446,-7.73729,-365.993,-1.23148e-05,-6.06127e-05,1.5016e-06,-0.000269612,0.000145314,-0.000732628,0.208926,0.00178945,0.428841,-0.00178803,0.000555404,0.00361652,0,0,9.64223e-05,1.24265e-05,1.21886e-05,7.03691e-05,0.0244983,0.0247593,0.0224592,0.381688,0.383095,0.0704114,3.62981e-11,3.55166e-11,2.56291e-10,2.06775e-07,2.11165e-07,1.71295e-06,8.82799e-05,1.28405e-05,0.000472596,4.57747e-05,6.99727e-05,0.0004719,0,0
+34285000,-0.606375,-0.00322325,-0.00778651,0.795134,-0.865015,-0.516515,0.694471,-16.1334,-7.79159,-365.924,-1.23146e-05,-6.06516e-05,1.43204e-06,-0.000270562,0.000145204,-0.000733531,0.209028,0.00174307,0.428811,-0.00154378,0.000547207,0.00362797,0,0,9.11355e-05,1.23023e-05,1.21146e-05,7.32093e-05,0.026094,0.0263207,0.0257276,0.393159,0.394408,0.0706729,3.63975e-11,3.55189e-11,2.5609e-10,2.06734e-07,2.11152e-07,1.69605e-06,7.95508e-05,1.2633e-05,0.000471314,4.23654e-05,6.17564e-05,0.000470657,0,0
+34385000,-0.63339,-0.00395822,-0.00501055,0.773806,-0.833521,-0.47529,0.69416,-16.2683,-7.85174,-365.856,-1.25758e-05,-6.07175e-05,1.35354e-06,-0.000274749,0.000149984,-0.000737657,0.209401,0.00172897,0.4287,-0.00136685,0.000545746,0.00352121,0,0,8.66959e-05,1.1763e-05,1.16065e-05,7.38032e-05,0.0251898,0.0253413,0.0282768,0.391562,0.393015,0.0698397,3.61452e-11,3.52311e-11,2.55711e-10,2.06545e-07,2.10978e-07,1.67725e-06,7.29444e-05,1.24476e-05,0.000470129,3.9489e-05,5.5975e-05,0.000469505,0,0
+34485000,-0.649776,-0.00489922,-0.00276426,0.760105,-0.777657,-0.433436,0.692738,-16.3487,-7.89739,-365.789,-1.25761e-05,-6.0747e-05,1.29503e-06,-0.00027521,0.000149989,-0.000734915,0.209328,0.00169077,0.428704,-0.00125812,0.000386118,0.00354749,0,0,8.42166e-05,1.1677e-05,1.15374e-05,7.44306e-05,0.0268962,0.0270117,0.0324777,0.402799,0.40409,0.0704694,3.62451e-11,3.52659e-11,2.55549e-10,2.06517e-07,2.1097e-07,1.66523e-06,6.83873e-05,1.22867e-05,0.000469196,3.70852e-05,5.17452e-05,0.000468588,0,0
+34585000,-0.659745,-0.00518388,-0.00147351,0.751471,-0.752201,-0.404342,0.692008,-16.4927,-7.96695,-365.72,-1.29558e-05,-6.08863e-05,1.27115e-06,-0.000283788,0.000159174,-0.000728938,0.209659,0.00170125,0.428679,-0.00122038,0.000248819,0.00351529,0,0,8.14276e-05,1.11459e-05,1.10131e-05,7.35467e-05,0.0259375,0.0259961,0.0351484,0.401488,0.402977,0.0698508,3.59592e-11,3.49826e-11,2.55183e-10,2.06145e-07,2.10588e-07,1.64402e-06,6.44054e-05,1.21406e-05,0.000468214,3.50728e-05,4.84927e-05,0.000467629,0,0
+34685000,-0.66595,-0.00555211,-0.000648663,0.745976,-0.694115,-0.363285,0.688328,-16.5649,-8.00547,-365.648,-1.29564e-05,-6.09039e-05,1.22236e-06,-0.00028461,0.000159551,-0.000731094,0.209885,0.00167853,0.428679,-0.00100753,0.000346705,0.00347665,0,0,8.01482e-05,1.10811e-05,1.09518e-05,7.34538e-05,0.0277391,0.0277594,0.040042,0.412505,0.413832,0.0709598,3.6059e-11,3.50411e-11,2.55053e-10,2.06127e-07,2.10582e-07,1.63485e-06,6.16689e-05,1.20135e-05,0.000467472,3.33787e-05,4.59591e-05,0.000466895,0,0
+34785000,-0.669912,-0.0052272,-0.000246351,0.742422,-0.670436,-0.338212,0.687368,-16.7019,-8.07185,-365.576,-1.33663e-05,-6.10783e-05,1.1612e-06,-0.000296362,0.00017335,-0.000742647,0.210432,0.00167407,0.428576,-0.000806804,0.000261241,0.00332926,0,0,7.8199e-05,1.05594e-05,1.04295e-05,7.22293e-05,0.0266968,0.026678,0.0426152,0.411452,0.41297,0.071791,3.57511e-11,3.47696e-11,2.54744e-10,2.05533e-07,2.09952e-07,1.61043e-06,5.94172e-05,1.19221e-05,0.00046677,3.22761e-05,4.43555e-05,0.000466216,0,0
+34885000,-0.67244,-0.00526043,-0.000125749,0.740133,-0.614073,-0.30013,0.685862,-16.766,-8.10388,-365.506,-1.33653e-05,-6.1093e-05,1.12088e-06,-0.000296556,0.000173517,-0.000744162,0.210399,0.00165256,0.428564,-0.000749811,0.00016656,0.00332937,0,0,7.74073e-05,1.05081e-05,1.03774e-05,7.19241e-05,0.0285578,0.0284968,0.0479181,0.422266,0.423622,0.0734986,3.58506e-11,3.4842e-11,2.5463e-10,2.05522e-07,2.09948e-07,1.60272e-06,5.75142e-05,1.18153e-05,0.00046615,3.09936e-05,4.2596e-05,0.000465605,0,0
+34985000,-0.675685,-0.0120163,-0.0024368,0.737088,0.357345,0.329479,-0.0970459,-16.8435,-8.13196,-365.5,-1.38786e-05,-6.13299e-05,1.07189e-06,-0.000313486,0.000193535,-0.000748856,0.210972,0.00165512,0.428519,-0.000586467,-2.66957e-05,0.00332692,0,0,7.52975e-05,9.97792e-06,9.90792e-06,7.04547e-05,0.0290368,0.0302123,0.0511863,0.421376,0.422832,0.0732553,3.55328e-11,3.45687e-11,2.54264e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.53337e-05,1.17121e-05,0.000465304,2.98813e-05,4.10884e-05,0.00046478,0,0
+35085000,-0.67584,-0.0123953,-0.00283684,0.736939,0.577989,0.350282,-0.199385,-16.7881,-8.09876,-365.511,-1.38758e-05,-6.13429e-05,1.02504e-06,-0.000313486,0.000193535,-0.00074885,0.210937,0.00163284,0.428506,-0.000537103,-0.000131735,0.0033836,0,0,7.48389e-05,9.93797e-06,9.8702e-06,7.00048e-05,0.0309251,0.0324707,0.0546483,0.431945,0.433108,0.0756281,3.56318e-11,3.46514e-11,2.54161e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.39832e-05,1.16216e-05,0.000464711,2.89137e-05,3.98462e-05,0.000464185,0,0
+35185000,-0.675891,-0.0124129,-0.00287289,0.736891,0.60919,0.388142,-0.182121,-16.7286,-8.062,-365.512,-1.38637e-05,-6.13441e-05,9.60047e-07,-0.000313486,0.000193535,-0.000748847,0.21109,0.00161565,0.428709,-0.000447104,-0.000105182,0.00361796,0,0,7.34313e-05,9.90118e-06,9.83239e-06,6.83702e-05,0.032642,0.0341792,0.0525273,0.443081,0.443973,0.0751561,3.57289e-11,3.47362e-11,2.54057e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.26904e-05,1.15373e-05,0.000463895,2.80647e-05,3.87512e-05,0.00046339,0,0
+35285000,-0.675933,-0.0124221,-0.00294693,0.736853,0.642375,0.426542,-0.177607,-16.6659,-8.02141,-365.52,-1.38606e-05,-6.13551e-05,8.99384e-07,-0.000313486,0.000193534,-0.00074884,0.211131,0.00159263,0.428737,-0.00035206,-0.00015847,0.00370298,0,0,7.30667e-05,9.86887e-06,9.79834e-06,6.79656e-05,0.0344415,0.0359626,0.0551622,0.454835,0.455484,0.0777593,3.58272e-11,3.48248e-11,2.53959e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.16831e-05,1.14582e-05,0.000463384,2.7316e-05,3.78322e-05,0.000462881,0,0
+35385000,-0.676018,-0.0124553,-0.00293386,0.736774,0.674415,0.464259,-0.159145,-16.6001,-7.97721,-365.517,-1.3851e-05,-6.13625e-05,8.1382e-07,-0.000313486,0.000193534,-0.000748836,0.211223,0.001567,0.428809,-0.000258176,-0.000205637,0.0038431,0,0,7.19249e-05,9.83991e-06,9.76891e-06,6.65702e-05,0.0363044,0.0378081,0.0531504,0.46726,0.46769,0.0785913,3.59245e-11,3.49167e-11,2.53907e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.0881e-05,1.14021e-05,0.000462761,2.68084e-05,3.71867e-05,0.000462282,0,0
+35485000,-0.676141,-0.0124736,-0.0029406,0.736661,0.707733,0.501426,-0.155267,-16.5309,-7.92919,-365.524,-1.38481e-05,-6.13738e-05,7.39139e-07,-0.000313486,0.000193534,-0.00074883,0.211268,0.00154109,0.428815,-0.000148519,-0.000266641,0.0039132,0,0,7.16135e-05,9.81283e-06,9.74046e-06,6.62165e-05,0.0382485,0.0397274,0.0555118,0.480411,0.480648,0.0813897,3.6022e-11,3.50088e-11,2.5381e-10,2.04676e-07,2.09044e-07,1.57527e-06,5.00728e-05,1.13303e-05,0.000462305,2.61956e-05,3.6456e-05,0.000461829,0,0
+35585000,-0.676193,-0.0124779,-0.00296764,0.736613,0.740095,0.539642,-0.140089,-16.4588,-7.87748,-365.522,-1.38379e-05,-6.13761e-05,6.95839e-07,-0.000313197,0.000193609,-0.000751262,0.211269,0.00152852,0.428865,-0.000146924,-0.000330596,0.00401534,0,0,7.04194e-05,9.78684e-06,9.71397e-06,6.47568e-05,0.0402607,0.0417132,0.0527154,0.49434,0.494411,0.0803749,3.61182e-11,3.51016e-11,2.53707e-10,2.04666e-07,2.09046e-07,1.57155e-06,4.9231e-05,1.12619e-05,0.000461624,2.56434e-05,3.57746e-05,0.000461176,0,0
+35685000,-0.67624,-0.0124717,-0.00292886,0.73657,0.772992,0.577719,-0.136467,-16.3833,-7.82182,-365.531,-1.38405e-05,-6.1383e-05,6.41725e-07,-0.000313736,0.000194007,-0.000760654,0.211305,0.00151212,0.428799,-6.98616e-05,-0.000366844,0.00398919,0,0,7.01632e-05,9.7648e-06,9.69037e-06,6.44357e-05,0.0423899,0.0438051,0.055035,0.509113,0.509039,0.0831493,3.62148e-11,3.51963e-11,2.53607e-10,2.04647e-07,2.09048e-07,1.56455e-06,4.85819e-05,1.11964e-05,0.000461217,2.51453e-05,3.51953e-05,0.000460774,0,0
+35785000,-0.676288,-0.0125068,-0.00296281,0.736525,0.806156,0.615829,-0.120781,-16.3048,-7.76248,-365.525,-1.3834e-05,-6.13771e-05,5.80881e-07,-0.000313942,0.000194024,-0.000765171,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.8735e-05,9.74538e-06,9.6704e-06,6.28032e-05,0.0445684,0.0459011,0.0525408,0.524781,0.524591,0.081865,3.63121e-11,3.52921e-11,2.53305e-10,2.04637e-07,2.09049e-07,1.56022e-06,0,0,0,0,0,0,0,0
+35885000,-0.67636,-0.01252,-0.00302867,0.736458,0.838681,0.65548,-0.115866,-16.2227,-7.6988,-365.529,-1.38323e-05,-6.13725e-05,5.25455e-07,-0.000313942,0.000194024,-0.000765549,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.77933e-05,9.73037e-06,9.65402e-06,6.19249e-05,0.0467849,0.0479708,0.0551249,0.54142,0.541124,0.084572,3.64119e-11,3.53895e-11,2.52808e-10,2.04637e-07,2.09049e-07,1.56021e-06,0,0,0,0,0,0,0,0
+35985000,-0.676399,-0.0124782,-0.00303801,0.736423,0.871211,0.693032,-0.103969,-16.1377,-7.63156,-365.526,-1.38285e-05,-6.13669e-05,4.88894e-07,-0.000313942,0.000194024,-0.000774204,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.61447e-05,9.71691e-06,9.63878e-06,6.01483e-05,0.0490571,0.050095,0.0528077,0.559076,0.55869,0.0830463,3.65112e-11,3.54864e-11,2.52303e-10,2.04637e-07,2.09049e-07,1.55552e-06,0,0,0,0,0,0,0,0
+36085000,-0.676456,-0.0125275,-0.00305261,0.73637,0.90378,0.732396,-0.100083,-16.0492,-7.56004,-365.53,-1.3827e-05,-6.13629e-05,4.39287e-07,-0.000313942,0.000194024,-0.000775005,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.55639e-05,9.70648e-06,9.62724e-06,5.95964e-05,0.0514157,0.0523142,0.0561848,0.577839,0.577362,0.0875215,3.6611e-11,3.55845e-11,2.51948e-10,2.04637e-07,2.09049e-07,1.55545e-06,0,0,0,0,0,0,0,0
+36185000,-0.6766,-0.0125269,-0.00308337,0.736238,0.935093,0.7722,-0.0871626,-15.9582,-7.48412,-365.523,-1.38226e-05,-6.13501e-05,2.80029e-07,-0.000313942,0.000194024,-0.000786304,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.40624e-05,9.69698e-06,9.61614e-06,5.79684e-05,0.0538238,0.0545559,0.053838,0.597747,0.597179,0.0857091,3.67105e-11,3.56816e-11,2.51433e-10,2.04637e-07,2.09049e-07,1.5453e-06,0,0,0,0,0,0,0,0
+36285000,-0.676704,-0.0126035,-0.00307002,0.736141,0.967181,0.81187,-0.0789005,-15.8637,-7.40455,-365.517,-1.382e-05,-6.13435e-05,2.01256e-07,-0.000313942,0.000194024,-0.000789142,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.32293e-05,9.69006e-06,9.60789e-06,5.71857e-05,0.0563139,0.0568662,0.0566799,0.618903,0.618221,0.0883153,3.68103e-11,3.57792e-11,2.50916e-10,2.04637e-07,2.09049e-07,1.54502e-06,0,0,0,0,0,0,0,0
+36385000,-0.676732,-0.0126384,-0.00309595,0.736114,0.999661,0.848894,-0.0691268,-15.766,-7.32149,-365.512,-1.38176e-05,-6.13386e-05,1.55628e-07,-0.000313942,0.000194024,-0.000801643,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.18832e-05,9.6845e-06,9.60106e-06,5.5736e-05,0.0588573,0.0592295,0.054266,0.641343,0.640538,0.0863257,3.69099e-11,3.58765e-11,2.50391e-10,2.04637e-07,2.09049e-07,1.52852e-06,0,0,0,0,0,0,0,0
+36485000,-0.676734,-0.0126987,-0.0031555,0.736112,1.03346,0.887305,-0.0655258,-15.6644,-7.23477,-365.513,-1.3817e-05,-6.13379e-05,1.54062e-07,-0.000313942,0.000194024,-0.000803096,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,6.11071e-05,9.68093e-06,9.59658e-06,5.50027e-05,0.061479,0.0616594,0.0570657,0.665181,0.664212,0.0888094,3.70098e-11,3.59742e-11,2.49863e-10,2.04637e-07,2.09049e-07,1.52786e-06,0,0,0,0,0,0,0,0
+36585000,-0.676881,-0.0127518,-0.00314686,0.735976,1.06495,0.927187,-0.0536225,-15.5606,-7.14315,-365.506,-1.38146e-05,-6.13294e-05,3.89313e-08,-0.000313942,0.000194024,-0.000816021,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.99123e-05,9.67948e-06,9.59379e-06,5.37313e-05,0.0641516,0.0641332,0.0545208,0.690446,0.689291,0.0866822,3.71095e-11,3.60717e-11,2.49326e-10,2.04637e-07,2.09049e-07,1.50489e-06,0,0,0,0,0,0,0,0
+36685000,-0.676995,-0.0127419,-0.00312191,0.735871,1.09752,0.967258,-0.0490914,-15.453,-7.04746,-365.505,-1.38134e-05,-6.13238e-05,-4.61458e-08,-0.000313942,0.000194024,-0.000818317,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.94595e-05,9.68048e-06,9.59324e-06,5.32994e-05,0.0669102,0.0667076,0.0579501,0.717275,0.715897,0.0911267,3.72094e-11,3.61701e-11,2.48947e-10,2.04637e-07,2.09049e-07,1.50407e-06,0,0,0,0,0,0,0,0
+36785000,-0.677141,-0.0127838,-0.00316161,0.735736,1.12961,1.00772,-0.0400942,-15.3427,-6.94755,-365.499,-1.38116e-05,-6.13165e-05,-1.54766e-07,-0.000313942,0.000194024,-0.000825523,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.83994e-05,9.6826e-06,9.59428e-06,5.21836e-05,0.0697154,0.0692997,0.055194,0.745678,0.74402,0.0887926,3.73093e-11,3.62677e-11,2.48401e-10,2.04637e-07,2.09049e-07,1.4751e-06,0,0,0,0,0,0,0,0
+36885000,-0.677288,-0.0128397,-0.00317844,0.735599,1.16178,1.04664,-0.0360093,-15.2289,-6.8432,-365.497,-1.38105e-05,-6.13095e-05,-2.70626e-07,-0.000313942,0.000194024,-0.000828044,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.77328e-05,9.68688e-06,9.59744e-06,5.15583e-05,0.0725987,0.0719597,0.0578104,0.775804,0.773786,0.0912049,3.74092e-11,3.63656e-11,2.47851e-10,2.04637e-07,2.09049e-07,1.47341e-06,0,0,0,0,0,0,0,0
+36985000,-0.677394,-0.0128537,-0.00312659,0.735501,1.19462,1.08663,-0.0304608,-15.1119,-6.73531,-365.493,-1.38095e-05,-6.13039e-05,-3.59273e-07,-0.000313942,0.000194024,-0.000832236,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.68105e-05,9.69334e-06,9.60219e-06,5.05959e-05,0.075537,0.074672,0.0549141,0.807669,0.80524,0.0887915,3.75091e-11,3.64635e-11,2.47293e-10,2.04637e-07,2.09049e-07,1.43938e-06,0,0,0,0,0,0,0,0
+37085000,-0.677453,-0.0128821,-0.00311325,0.735446,1.2277,1.12549,-0.0245781,-14.9914,-6.62386,-365.49,-1.38087e-05,-6.13003e-05,-4.17063e-07,-0.000313942,0.000194024,-0.000835197,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.62002e-05,9.70156e-06,9.60904e-06,5.00214e-05,0.0785466,0.077446,0.0573278,0.84143,0.838488,0.091116,3.7609e-11,3.65614e-11,2.46731e-10,2.04637e-07,2.09049e-07,1.43694e-06,0,0,0,0,0,0,0,0
+37185000,-0.677536,-0.0129205,-0.00311654,0.735369,1.26106,1.16438,-0.0183439,-14.8675,-6.50877,-365.489,-1.38084e-05,-6.12977e-05,-4.60199e-07,-0.000313942,0.000194024,-0.000841982,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.53965e-05,9.71154e-06,9.61792e-06,4.92019e-05,0.0816098,0.0802706,0.0543124,0.877099,0.873576,0.0886488,3.7709e-11,3.66594e-11,2.46162e-10,2.04637e-07,2.09049e-07,1.39899e-06,0,0,0,0,0,0,0,0
+37285000,-0.677628,-0.0129386,-0.00315938,0.735284,1.29378,1.20386,-0.0138961,-14.7406,-6.38872,-365.486,-1.38078e-05,-6.12925e-05,-5.51711e-07,-0.000313942,0.000194024,-0.000844694,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.48382e-05,9.72328e-06,9.6286e-06,4.86786e-05,0.0847513,0.083162,0.0565017,0.914841,0.910615,0.0908836,3.78089e-11,3.67574e-11,2.45588e-10,2.04637e-07,2.09049e-07,1.39576e-06,0,0,0,0,0,0,0,0
+37385000,-0.677725,-0.0129784,-0.00312018,0.735194,1.32608,1.24208,-0.00986812,-14.6101,-6.26541,-365.485,-1.38076e-05,-6.12895e-05,-6.06745e-07,-0.000313942,0.000194024,-0.000848374,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.43609e-05,9.73757e-06,9.64189e-06,4.81792e-05,0.0879492,0.0861315,0.0540686,0.954682,0.949732,0.0903817,3.79089e-11,3.6856e-11,2.45176e-10,2.04637e-07,2.09049e-07,1.35591e-06,0,0,0,0,0,0,0,0
+37485000,-0.677858,-0.0129958,-0.00311696,0.735071,1.35849,1.28343,-0.00607689,-14.4769,-6.13677,-365.484,-1.38072e-05,-6.12836e-05,-7.18004e-07,-0.000313942,0.000194024,-0.000849374,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.38451e-05,9.75333e-06,9.65648e-06,4.77032e-05,0.0912182,0.0891355,0.0560737,0.996769,0.990895,0.0926213,3.80088e-11,3.69541e-11,2.44591e-10,2.04637e-07,2.09049e-07,1.35215e-06,0,0,0,0,0,0,0,0
+37585000,-0.677954,-0.0130271,-0.0031181,0.734982,1.38986,1.3234,0.00256077,-14.3407,-6.00458,-365.476,-1.38068e-05,-6.12781e-05,-8.18624e-07,-0.000313942,0.000194024,-0.000859484,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.32371e-05,9.77102e-06,9.67307e-06,4.70977e-05,0.0945395,0.0921865,0.0528784,1.04112,1.03422,0.0899944,3.81088e-11,3.70522e-11,2.43999e-10,2.04637e-07,2.09049e-07,1.30984e-06,0,0,0,0,0,0,0,0
+37685000,-0.67804,-0.013075,-0.00317135,0.734902,1.42163,1.36455,0.0108397,-14.2014,-5.86834,-365.467,-1.38062e-05,-6.12729e-05,-9.11594e-07,-0.000313942,0.000194024,-0.000866246,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.27684e-05,9.7904e-06,9.69175e-06,4.66644e-05,0.0979367,0.0953044,0.0546365,1.08793,1.07984,0.0921294,3.82088e-11,3.71504e-11,2.43401e-10,2.04637e-07,2.09049e-07,1.30533e-06,0,0,0,0,0,0,0,0
+37785000,-0.678121,-0.0130514,-0.00322254,0.734828,1.45329,1.40449,0.0178645,-14.0586,-5.72849,-365.459,-1.3806e-05,-6.12691e-05,-9.80399e-07,-0.000313942,0.000194024,-0.000872422,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.22371e-05,9.8116e-06,9.71197e-06,4.61495e-05,0.101387,0.0984724,0.0514415,1.1372,1.12779,0.0894858,3.83087e-11,3.72486e-11,2.42796e-10,2.04637e-07,2.09049e-07,1.26245e-06,0,0,0,0,0,0,0,0
+37885000,-0.678196,-0.0130579,-0.0032352,0.734758,1.48537,1.44503,0.0208658,-13.9122,-5.58424,-365.459,-1.38059e-05,-6.1266e-05,-1.04636e-06,-0.000313942,0.000194024,-0.000870652,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.1808e-05,9.83496e-06,9.73436e-06,4.57591e-05,0.104908,0.101702,0.0529567,1.18912,1.1782,0.0915086,3.84087e-11,3.73469e-11,2.42185e-10,2.04637e-07,2.09049e-07,1.25726e-06,0,0,0,0,0,0,0,0
+37985000,-0.678233,-0.0130756,-0.0032907,0.734724,1.51792,1.48495,0.0249885,-13.7624,-5.43661,-365.456,-1.38055e-05,-6.12638e-05,-1.08761e-06,-0.000313942,0.000194024,-0.000867286,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.15371e-05,9.86026e-06,9.75921e-06,4.54872e-05,0.108487,0.105016,0.0504683,1.24372,1.23126,0.0909325,3.85086e-11,3.74456e-11,2.41748e-10,2.04637e-07,2.09049e-07,1.216e-06,0,0,0,0,0,0,0,0
+38085000,-0.678295,-0.0130983,-0.00331451,0.734666,1.54893,1.52551,0.0343643,-13.6104,-5.2838,-365.445,-1.38053e-05,-6.12587e-05,-1.18513e-06,-0.000313942,0.000194024,-0.000874019,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.11462e-05,9.88749e-06,9.78559e-06,4.51269e-05,0.112134,0.108358,0.0518035,1.30115,1.28685,0.0929289,3.86086e-11,3.75439e-11,2.41126e-10,2.04637e-07,2.09049e-07,1.21051e-06,0,0,0,0,0,0,0,0
+38185000,-0.678347,-0.0130934,-0.00330435,0.734618,1.57978,1.56536,0.0356417,-13.4543,-5.12745,-365.443,-1.38047e-05,-6.12558e-05,-1.24271e-06,-0.000313942,0.000194024,-0.000866335,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.07328e-05,9.91671e-06,9.81383e-06,4.47399e-05,0.115839,0.111754,0.0486849,1.36145,1.34514,0.090226,3.87085e-11,3.76422e-11,2.40497e-10,2.04637e-07,2.09049e-07,1.16878e-06,0,0,0,0,0,0,0,0
+38285000,-0.678416,-0.0131167,-0.00332477,0.734553,1.61213,1.60468,0.0397618,-13.2955,-4.96705,-365.439,-1.38047e-05,-6.12527e-05,-1.30833e-06,-0.000313942,0.000194024,-0.000866978,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.03719e-05,9.94778e-06,9.84423e-06,4.44176e-05,0.119615,0.11522,0.0498066,1.42482,1.40626,0.0920968,3.88085e-11,3.77406e-11,2.39862e-10,2.04637e-07,2.09049e-07,1.16278e-06,0,0,0,0,0,0,0,0
+38385000,-0.678454,-0.0131084,-0.00329501,0.734518,1.64375,1.64532,0.0390697,-13.1328,-4.80305,-365.436,-1.38035e-05,-6.12501e-05,-1.35108e-06,-0.000313942,0.000194024,-0.000853908,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,5.00049e-05,9.98093e-06,9.87643e-06,4.40811e-05,0.123455,0.11874,0.0468086,1.49127,1.47028,0.0894468,3.89083e-11,3.78389e-11,2.3922e-10,2.04637e-07,2.09049e-07,1.12256e-06,0,0,0,0,0,0,0,0
+38485000,-0.67853,-0.0131114,-0.00332823,0.734448,1.67625,1.68607,0.04219,-12.9676,-4.63424,-365.433,-1.38035e-05,-6.12468e-05,-1.42282e-06,-0.000313942,0.000194024,-0.000853174,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.96746e-05,1.00158e-05,9.9107e-06,4.37893e-05,0.127363,0.122326,0.0477368,1.561,1.53733,0.0911911,3.90083e-11,3.79373e-11,2.38573e-10,2.04637e-07,2.09049e-07,1.11616e-06,0,0,0,0,0,0,0,0
+38585000,-0.678551,-0.0131407,-0.0032718,0.734429,1.7094,1.72723,0.038827,-12.7983,-4.46155,-365.436,-1.38022e-05,-6.1244e-05,-1.47028e-06,-0.000313942,0.000194024,-0.000835504,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.93481e-05,1.0053e-05,9.94707e-06,4.34915e-05,0.131332,0.12597,0.0448779,1.63405,1.60748,0.0886043,3.91081e-11,3.80357e-11,2.37919e-10,2.04637e-07,2.09049e-07,1.0778e-06,0,0,0,0,0,0,0,0
+38685000,-0.678638,-0.0132136,-0.00330128,0.734347,1.74111,1.76615,0.0411629,-12.6264,-4.28447,-365.436,-1.38021e-05,-6.12409e-05,-1.5398e-06,-0.000313942,0.000194024,-0.000832123,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.92131e-05,1.0092e-05,9.98606e-06,4.33755e-05,0.135368,0.129701,0.0462618,1.71063,1.68107,0.0923044,3.92081e-11,3.81346e-11,2.37449e-10,2.04637e-07,2.09049e-07,1.07285e-06,0,0,0,0,0,0,0,0
+38785000,-0.678679,-0.0132168,-0.00331,0.734308,1.77371,1.80665,0.0419009,-12.4512,-4.10347,-365.434,-1.38014e-05,-6.12375e-05,-1.60554e-06,-0.000313942,0.000194024,-0.000824267,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.89155e-05,1.01328e-05,1.00263e-05,4.31088e-05,0.139466,0.133464,0.0434941,1.79072,1.75777,0.0896724,3.93079e-11,3.8233e-11,2.36783e-10,2.04637e-07,2.09049e-07,1.03634e-06,0,0,0,0,0,0,0,0
+38885000,-0.678744,-0.0133849,-0.00338529,0.734245,1.79014,1.82697,0.491212,-12.2737,-3.9192,-365.416,-1.38016e-05,-6.12346e-05,-1.67209e-06,-0.000313942,0.000194024,-0.00082765,0.21138,0.00150813,0.428893,-4.86852e-05,-0.000343309,0.00409105,0,0,4.8634e-05,1.01755e-05,1.00694e-05,4.28653e-05,0.141775,0.135537,0.044011,1.87447,1.83784,0.0912281,3.94079e-11,3.83314e-11,2.36112e-10,2.04637e-07,2.09049e-07,1.02967e-06,0,0,0,0,0,0,0,0
diff --git a/test/change_indication/iris_gps.csv b/test/change_indication/iris_gps.csv
index bfe7cf1..5d9a3fc 100644
--- a/test/change_indication/iris_gps.csv
+++ b/test/change_indication/iris_gps.csv
@@ -324,28 +324,28 @@ Timestamp,state[0],state[1],state[2],state[3],state[4],state[5],state[6],state[7
 32185000,0.983331,-0.00863573,-0.0136449,0.181108,0.010611,-0.0330096,0.767297,-0.00269186,0.0145593,-0.0862889,-1.06084e-05,-5.70277e-05,4.53775e-06,3.74358e-05,-0.000320197,-0.00108606,0.20428,0.00198396,0.434362,0,0,0,0,0,3.02451e-06,1.78421e-05,1.78238e-05,8.70171e-05,0.0142352,0.0142372,0.00994974,0.0373382,0.0373399,0.059412,5.51963e-11,5.52137e-11,4.85816e-10,2.64787e-07,2.64694e-07,5.0002e-08,0,0,0,0,0,0,0,0
 32285000,0.983346,-0.00855886,-0.0138979,0.181007,0.0124303,-0.0375706,0.765828,-0.00152577,0.0109962,-0.0172401,-1.06055e-05,-5.70281e-05,4.61096e-06,3.76201e-05,-0.000320412,-0.00108337,0.20428,0.00198396,0.434362,0,0,0,0,0,3.01762e-06,1.81178e-05,1.80987e-05,8.68494e-05,0.0152962,0.0152983,0.0100198,0.0409734,0.0409756,0.0595692,5.5295e-11,5.53127e-11,4.83333e-10,2.64795e-07,2.64702e-07,5.0001e-08,0,0,0,0,0,0,0,0
 32385000,0.983328,-0.00857328,-0.0140173,0.181097,0.0190651,-0.0366818,0.764495,0.00941817,0.0109567,0.0554987,-1.0689e-05,-5.69317e-05,4.58004e-06,4.16208e-05,-0.000317073,-0.00108078,0.20428,0.00198396,0.434362,0,0,0,0,0,3.01438e-06,1.76111e-05,1.75923e-05,8.66877e-05,0.014271,0.0142728,0.00991717,0.0374118,0.0374135,0.0591307,5.39962e-11,5.40135e-11,4.80823e-10,2.62472e-07,2.62382e-07,5.0001e-08,0,0,0,0,0,0,0,0
-32485000,0.983343,-0.0114765,-0.0119475,0.181003,0.0452221,-0.104549,-0.108095,0.0130854,0.0020971,0.0640457,-1.06893e-05,-5.693e-05,4.52934e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00515e-06,1.7876e-05,1.78685e-05,8.65427e-05,0.0169827,0.0169834,0.00976944,0.0411474,0.0411496,0.0592756,5.40951e-11,5.41121e-11,4.78291e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
-32585000,0.983354,-0.0114052,-0.0119113,0.180951,0.0447854,-0.103407,-0.109478,0.0246632,0.00137489,0.0461383,-1.09204e-05,-5.68337e-05,4.63224e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00071e-06,1.72351e-05,1.72275e-05,8.63984e-05,0.0162246,0.0162254,0.00940718,0.0375944,0.0375962,0.0587996,5.25984e-11,5.26126e-11,4.75732e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
-32685000,0.983359,-0.0113936,-0.0117747,0.180936,0.0413156,-0.110183,-0.111256,0.0290154,-0.00931124,0.0313964,-1.09202e-05,-5.6833e-05,4.61974e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99546e-06,1.74983e-05,1.74907e-05,8.62649e-05,0.0179303,0.0179316,0.00921573,0.041456,0.0414583,0.0588684,5.26974e-11,5.27111e-11,4.73154e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
-32785000,0.983361,-0.0111882,-0.0118555,0.180927,0.0392338,-0.105808,-0.111864,0.0381735,-0.00816137,0.016523,-1.11906e-05,-5.67369e-05,4.71913e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00445e-06,1.67533e-05,1.67451e-05,8.64775e-05,0.0170877,0.0170891,0.00896525,0.0378464,0.0378482,0.0592236,5.1094e-11,5.11046e-11,4.71229e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
-32885000,0.983381,-0.0111636,-0.0119172,0.180818,0.0397208,-0.113697,-0.113164,0.0421739,-0.0191577,0.00288568,-1.11895e-05,-5.67377e-05,4.7646e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99801e-06,1.70091e-05,1.70003e-05,8.63587e-05,0.018883,0.0188851,0.00879023,0.0418066,0.0418091,0.0592259,5.1193e-11,5.12032e-11,4.68612e-10,2.62476e-07,2.62387e-07,5.0003e-08,0,0,0,0,0,0,0,0
-32985000,0.983392,-0.0110084,-0.0118839,0.180769,0.0369019,-0.109335,-0.112144,0.0493647,-0.0196536,-0.00973515,-1.14352e-05,-5.6668e-05,4.89014e-06,4.16373e-05,-0.000317561,-0.00108039,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99492e-06,1.61704e-05,1.61612e-05,8.62418e-05,0.0179593,0.0179616,0.00849937,0.0381283,0.0381303,0.0586681,4.9513e-11,4.95199e-11,4.65972e-10,2.62482e-07,2.62393e-07,5.00129e-08,0,0,0,0,0,0,0,0
-33085000,0.983396,-0.010977,-0.0119003,0.180752,0.0338403,-0.114559,-0.109894,0.0529329,-0.0308082,-0.0182304,-1.14355e-05,-5.66681e-05,4.8845e-06,4.16368e-05,-0.00031756,-0.00108039,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99063e-06,1.64172e-05,1.64077e-05,8.61343e-05,0.0199036,0.0199068,0.00835868,0.042191,0.0421936,0.058613,4.9612e-11,4.96186e-11,4.63314e-10,2.62492e-07,2.62403e-07,5.00229e-08,0,0,0,0,0,0,0,0
-33185000,0.983405,-0.0107844,-0.011824,0.180719,0.0298117,-0.110611,-0.108295,0.0584371,-0.0302004,-0.0243546,-1.1684e-05,-5.65966e-05,4.85199e-06,4.1442e-05,-0.00032007,-0.00108064,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98481e-06,1.55026e-05,1.54928e-05,8.60329e-05,0.0189159,0.018919,0.00811679,0.0384335,0.0384356,0.0580369,4.78919e-11,4.78951e-11,4.60635e-10,2.62359e-07,2.62269e-07,5.00304e-08,0,0,0,0,0,0,0,0
-33285000,0.983427,-0.0108576,-0.0118335,0.180592,0.027437,-0.114131,-0.1081,0.0612393,-0.0414439,-0.0328254,-1.16814e-05,-5.65997e-05,4.99169e-06,4.14399e-05,-0.000320068,-0.00108065,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98066e-06,1.57396e-05,1.57297e-05,8.59369e-05,0.0209974,0.0210015,0.00801208,0.042604,0.0426067,0.0579363,4.79908e-11,4.79938e-11,4.57941e-10,2.62369e-07,2.62279e-07,5.00403e-08,0,0,0,0,0,0,0,0
-33385000,0.983441,-0.0106292,-0.0118907,0.180525,0.022786,-0.103206,-0.105743,0.0637399,-0.0346056,-0.0412417,-1.20178e-05,-5.65083e-05,5.04905e-06,4.14399e-05,-0.000320068,-0.00108094,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97608e-06,1.47721e-05,1.47617e-05,8.58452e-05,0.0196676,0.0196717,0.00781443,0.0387571,0.0387593,0.0573516,4.62692e-11,4.6269e-11,4.55227e-10,2.62369e-07,2.62279e-07,5.00418e-08,0,0,0,0,0,0,0,0
-33485000,0.983445,-0.0106165,-0.011845,0.180506,0.0187256,-0.107074,-0.105647,0.0657726,-0.045089,-0.0519435,-1.20176e-05,-5.65085e-05,5.06133e-06,4.14399e-05,-0.000320068,-0.00108094,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98441e-06,1.49991e-05,1.49885e-05,8.60982e-05,0.0215779,0.0215829,0.00780724,0.0430304,0.0430333,0.0580479,4.63684e-11,4.63681e-11,4.53206e-10,2.62369e-07,2.62279e-07,5.00515e-08,0,0,0,0,0,0,0,0
-33585000,0.983473,-0.0103491,-0.0118143,0.180374,0.0147977,-0.100039,-0.101889,0.0675405,-0.0392962,-0.0577467,-1.22945e-05,-5.64283e-05,5.18785e-06,4.14399e-05,-0.000320068,-0.00108157,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97951e-06,1.4001e-05,1.39901e-05,8.60161e-05,0.0200958,0.0201004,0.00764696,0.0390855,0.0390878,0.0574464,4.46789e-11,4.46757e-11,4.50462e-10,2.62369e-07,2.62279e-07,5.00437e-08,0,0,0,0,0,0,0,0
-33685000,0.983482,-0.0103445,-0.0118033,0.180323,0.0108559,-0.103985,-0.103476,0.0688621,-0.0495378,-0.0661995,-1.22938e-05,-5.64292e-05,5.22937e-06,4.14399e-05,-0.000320068,-0.0010816,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97615e-06,1.42178e-05,1.42066e-05,8.5938e-05,0.0220051,0.0220106,0.00760732,0.0434482,0.0434513,0.057286,4.47778e-11,4.47745e-11,4.47707e-10,2.62369e-07,2.62279e-07,5.00524e-08,0,0,0,0,0,0,0,0
-33785000,0.983495,-0.0101475,-0.0118003,0.180266,0.00640068,-0.0963483,-0.0976961,0.0717053,-0.0427693,-0.0721766,-1.25585e-05,-5.63206e-05,5.20469e-06,4.14399e-05,-0.000320068,-0.00108233,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97058e-06,1.32109e-05,1.31996e-05,8.5865e-05,0.0203797,0.0203846,0.00748306,0.0394029,0.0394053,0.056693,4.31485e-11,4.31427e-11,4.44934e-10,2.62369e-07,2.62279e-07,5.00318e-08,0,0,0,0,0,0,0,0
-33885000,0.98351,-0.0101878,-0.0117576,0.180182,0.00290587,-0.0974002,-0.0972777,0.0721175,-0.0525026,-0.0794133,-1.25564e-05,-5.63229e-05,5.31031e-06,4.14399e-05,-0.000320068,-0.00108241,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96776e-06,1.34174e-05,1.34061e-05,8.57937e-05,0.022263,0.022269,0.00747261,0.04384,0.0438433,0.0565169,4.32474e-11,4.32415e-11,4.42148e-10,2.62369e-07,2.62279e-07,5.00388e-08,0,0,0,0,0,0,0,0
-33985000,0.983504,-0.00993608,-0.0118928,0.180221,0.000474934,-0.08685,-0.0936306,0.0737764,-0.0431267,-0.0826041,-1.28377e-05,-5.61904e-05,5.26338e-06,4.14399e-05,-0.000320068,-0.00108334,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96505e-06,1.24218e-05,1.24099e-05,8.5725e-05,0.0205234,0.0205287,0.00738016,0.0396971,0.0396996,0.0559396,4.17006e-11,4.16924e-11,4.39348e-10,2.62369e-07,2.62279e-07,5.0005e-08,0,0,0,0,0,0,0,0
-34085000,0.98351,-0.0098734,-0.0118963,0.180194,-0.00309132,-0.0913989,-0.0926968,0.0736902,-0.0520706,-0.0892595,-1.28376e-05,-5.61906e-05,5.26655e-06,4.14399e-05,-0.000320068,-0.00108344,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97353e-06,1.26187e-05,1.26065e-05,8.59997e-05,0.0223696,0.0223757,0.00745335,0.0441925,0.0441958,0.0565549,4.17997e-11,4.17916e-11,4.37268e-10,2.62369e-07,2.62279e-07,5.00108e-08,0,0,0,0,0,0,0,0
-34185000,0.983511,-0.00970207,-0.0119351,0.180195,-0.0067162,-0.0814342,-0.0903489,0.07577,-0.0435096,-0.0910233,-1.30758e-05,-5.60705e-05,5.31238e-06,4.14399e-05,-0.000320068,-0.0010842,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97183e-06,1.16498e-05,1.16375e-05,8.59357e-05,0.0205362,0.0205415,0.00738678,0.0399586,0.0399612,0.0559831,4.03501e-11,4.03401e-11,4.34447e-10,2.62369e-07,2.62279e-07,5.00037e-08,0,0,0,0,0,0,0,0
-34285000,0.983515,-0.00959494,-0.0119955,0.180176,-0.00683311,-0.0849757,-0.0892991,0.0751232,-0.0518713,-0.0982528,-1.30746e-05,-5.60717e-05,5.36767e-06,4.14399e-05,-0.000320068,-0.0010843,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97031e-06,1.18375e-05,1.18247e-05,8.58747e-05,0.0223343,0.0223404,0.0074281,0.0444951,0.0444986,0.0558085,4.04489e-11,4.04389e-11,4.31617e-10,2.62369e-07,2.62279e-07,5.00041e-08,0,0,0,0,0,0,0,0
-34385000,0.983538,-0.00938086,-0.0120051,0.180057,-0.0096869,-0.0740601,-0.0842819,0.0754152,-0.0430722,-0.101403,-1.32978e-05,-5.59689e-05,5.38109e-06,4.14399e-05,-0.000320068,-0.00108576,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96424e-06,1.09081e-05,1.08951e-05,8.58204e-05,0.0204258,0.0204311,0.0073856,0.0401805,0.0401831,0.0552637,3.91054e-11,3.90938e-11,4.28777e-10,2.62369e-07,2.62279e-07,5.0001e-08,0,0,0,0,0,0,0,0
-34485000,0.983542,-0.00946577,-0.0119349,0.180036,-0.0127112,-0.0778132,-0.0827764,0.0742966,-0.0507345,-0.104868,-1.32966e-05,-5.59702e-05,5.43975e-06,4.14399e-05,-0.000320068,-0.00108612,0.20428,0.00198396,0.434362,0,0,0,0,0,2.9629e-06,1.10867e-05,1.10738e-05,8.57639e-05,0.0221687,0.0221747,0.00744936,0.0447411,0.0447446,0.0551047,3.92042e-11,3.91928e-11,4.25928e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
-34585000,0.983548,-0.00926817,-0.0117582,0.180025,-0.0129232,-0.066365,0.663133,0.0747503,-0.043009,-0.0797386,-1.34773e-05,-5.58717e-05,5.429e-06,4.14399e-05,-0.000320068,-0.00108746,0.20428,0.00198396,0.434362,0,0,0,0,0,2.9599e-06,1.02055e-05,1.0193e-05,8.57111e-05,0.0190968,0.0191015,0.00742045,0.040328,0.0403307,0.0545903,3.79705e-11,3.79578e-11,4.23071e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
-34685000,0.983555,-0.0092552,-0.0114712,0.180008,-0.0147195,-0.0633636,1.6538,0.0733756,-0.0494922,0.0331333,-1.34777e-05,-5.58713e-05,5.41304e-06,4.14399e-05,-0.000320068,-0.00108719,0.20428,0.00198396,0.434362,0,0,0,0,0,2.95711e-06,1.03756e-05,1.03637e-05,8.56602e-05,0.0192058,0.0192106,0.00749494,0.0447231,0.0447265,0.0544518,3.80692e-11,3.80567e-11,4.20207e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
-34785000,0.983564,-0.00909719,-0.0112416,0.179981,-0.0148454,-0.0519311,2.62009,0.0741477,-0.0418485,0.194962,-1.36219e-05,-5.57816e-05,5.42701e-06,4.14399e-05,-0.000320068,-0.00106123,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96557e-06,9.64864e-06,9.63708e-06,8.59489e-05,0.0163732,0.0163768,0.00753172,0.0402602,0.0402629,0.0547072,3.70659e-11,3.70525e-11,4.18078e-10,2.62369e-07,2.62279e-07,5.0002e-08,0,0,0,0,0,0,0,0
-34885000,0.98357,-0.00908286,-0.0109558,0.179967,-0.0165849,-0.0489137,3.60564,0.0726214,-0.0468636,0.484799,-1.36226e-05,-5.57805e-05,5.40593e-06,4.14399e-05,-0.000320068,-0.00105898,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96287e-06,9.81258e-06,9.80156e-06,8.59003e-05,0.0164846,0.0164883,0.00762393,0.0443776,0.0443809,0.0545905,3.71646e-11,3.71514e-11,4.15202e-10,2.62369e-07,2.62279e-07,5.0001e-08,0,0,0,0,0,0,0,0
+32485000,0.983343,-0.0114765,-0.0119475,0.181003,0.0452221,-0.104549,-0.108097,0.0130854,0.0020971,0.0640455,-1.06893e-05,-5.693e-05,4.52934e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00515e-06,1.7876e-05,1.78685e-05,8.65427e-05,0.0169326,0.0169331,0.00979685,0.041145,0.0411472,0.0592784,5.40951e-11,5.41121e-11,4.78291e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
+32585000,0.983354,-0.011406,-0.0119114,0.180951,0.0447899,-0.10343,-0.10948,0.0246662,0.00136568,0.0461386,-1.09196e-05,-5.68337e-05,4.63228e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00071e-06,1.72404e-05,1.72328e-05,8.63984e-05,0.0161763,0.016177,0.00943287,0.0375917,0.0375935,0.0588049,5.2605e-11,5.26191e-11,4.75732e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
+32685000,0.983358,-0.0113945,-0.0117748,0.180936,0.0413206,-0.110208,-0.11126,0.0290189,-0.00932289,0.0313959,-1.09194e-05,-5.6833e-05,4.61982e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99546e-06,1.75037e-05,1.74961e-05,8.62649e-05,0.0178756,0.0178768,0.00924058,0.0414494,0.0414517,0.0588773,5.2704e-11,5.27177e-11,4.73154e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
+32785000,0.983362,-0.0111898,-0.0118557,0.180927,0.0392434,-0.10586,-0.111868,0.0381791,-0.00818324,0.0165229,-1.11893e-05,-5.6737e-05,4.71927e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,3.00445e-06,1.67641e-05,1.67558e-05,8.64775e-05,0.017037,0.0170384,0.00898868,0.0378405,0.0378424,0.0592348,5.11067e-11,5.11173e-11,4.71229e-10,2.62473e-07,2.62384e-07,5e-08,0,0,0,0,0,0,0,0
+32885000,0.983381,-0.0111652,-0.0119174,0.180818,0.0397314,-0.113752,-0.113169,0.0421805,-0.0191848,0.00288518,-1.11882e-05,-5.67378e-05,4.7648e-06,4.16451e-05,-0.000317094,-0.00108035,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99801e-06,1.702e-05,1.70112e-05,8.63587e-05,0.0188269,0.018829,0.00881283,0.0417964,0.0417988,0.0592402,5.12057e-11,5.12159e-11,4.68612e-10,2.62476e-07,2.62387e-07,5.0003e-08,0,0,0,0,0,0,0,0
+32985000,0.983392,-0.0110105,-0.0118842,0.180769,0.036917,-0.10941,-0.112146,0.0493731,-0.019689,-0.00973263,-1.14335e-05,-5.66681e-05,4.89044e-06,4.16373e-05,-0.000317561,-0.00108039,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99492e-06,1.61863e-05,1.61772e-05,8.62418e-05,0.0179092,0.0179114,0.00852047,0.0381197,0.0381216,0.0586839,4.95309e-11,4.95378e-11,4.65972e-10,2.62482e-07,2.62393e-07,5.00129e-08,0,0,0,0,0,0,0,0
+33085000,0.983396,-0.0109791,-0.0119006,0.180751,0.0338565,-0.114638,-0.109895,0.0529429,-0.0308512,-0.0182272,-1.14338e-05,-5.66683e-05,4.88489e-06,4.16368e-05,-0.000317561,-0.00108039,0.20428,0.00198396,0.434362,0,0,0,0,0,2.99064e-06,1.64333e-05,1.64238e-05,8.61343e-05,0.0198492,0.0198523,0.00837896,0.0421775,0.0421801,0.0586314,4.96299e-11,4.96365e-11,4.63314e-10,2.62492e-07,2.62403e-07,5.00229e-08,0,0,0,0,0,0,0,0
+33185000,0.983405,-0.0107866,-0.0118242,0.180719,0.0298309,-0.110707,-0.108292,0.058448,-0.0302498,-0.0243466,-1.16822e-05,-5.65967e-05,4.8525e-06,4.14415e-05,-0.000320073,-0.00108064,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98482e-06,1.55231e-05,1.55133e-05,8.60329e-05,0.018869,0.018872,0.00813569,0.0384226,0.0384246,0.0580564,4.79138e-11,4.7917e-11,4.60635e-10,2.62359e-07,2.62269e-07,5.00304e-08,0,0,0,0,0,0,0,0
+33285000,0.983427,-0.0108599,-0.0118337,0.180591,0.0274575,-0.114231,-0.108096,0.0612522,-0.041503,-0.0328166,-1.16797e-05,-5.65999e-05,4.9923e-06,4.14394e-05,-0.000320071,-0.00108065,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98066e-06,1.57604e-05,1.57505e-05,8.59369e-05,0.0209472,0.0209513,0.00803019,0.0425879,0.0425906,0.057958,4.80127e-11,4.80158e-11,4.57941e-10,2.62369e-07,2.62279e-07,5.00403e-08,0,0,0,0,0,0,0,0
+33385000,0.983441,-0.0106317,-0.0118909,0.180524,0.0228067,-0.103315,-0.105736,0.0637531,-0.0346724,-0.0412308,-1.20161e-05,-5.65084e-05,5.04979e-06,4.14394e-05,-0.000320071,-0.00108094,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97608e-06,1.47966e-05,1.47862e-05,8.58452e-05,0.0196439,0.0196479,0.0078313,0.0387444,0.0387466,0.0573739,4.62939e-11,4.62937e-11,4.55227e-10,2.62369e-07,2.62279e-07,5.00418e-08,0,0,0,0,0,0,0,0
+33485000,0.983445,-0.010619,-0.0118453,0.180505,0.0187476,-0.107187,-0.105641,0.0657879,-0.0451669,-0.0519329,-1.20159e-05,-5.65087e-05,5.06215e-06,4.14394e-05,-0.000320071,-0.00108094,0.20428,0.00198396,0.434362,0,0,0,0,0,2.98441e-06,1.50238e-05,1.50133e-05,8.60982e-05,0.0215519,0.0215569,0.00782354,0.0430131,0.0430159,0.0580727,4.63931e-11,4.63928e-11,4.53206e-10,2.62369e-07,2.62279e-07,5.00515e-08,0,0,0,0,0,0,0,0
+33585000,0.983473,-0.0103515,-0.0118145,0.180373,0.0148189,-0.100155,-0.10188,0.0675549,-0.0393754,-0.0577308,-1.2293e-05,-5.64284e-05,5.1888e-06,4.14394e-05,-0.000320071,-0.00108157,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97951e-06,1.40285e-05,1.40176e-05,8.60161e-05,0.0200751,0.0200797,0.0076621,0.0390721,0.0390744,0.0574714,4.47052e-11,4.47021e-11,4.50462e-10,2.62369e-07,2.62279e-07,5.00437e-08,0,0,0,0,0,0,0,0
+33685000,0.983482,-0.010347,-0.0118035,0.180323,0.0108783,-0.104106,-0.103466,0.0688786,-0.0496287,-0.0661824,-1.22922e-05,-5.64293e-05,5.23042e-06,4.14394e-05,-0.000320071,-0.0010816,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97615e-06,1.42455e-05,1.42345e-05,8.5938e-05,0.021983,0.0219885,0.00762174,0.0434307,0.0434338,0.0573124,4.48041e-11,4.48009e-11,4.47707e-10,2.62369e-07,2.62279e-07,5.00524e-08,0,0,0,0,0,0,0,0
+33785000,0.983495,-0.0101498,-0.0118005,0.180265,0.00642084,-0.0964672,-0.0976836,0.0717194,-0.0428582,-0.0721555,-1.25573e-05,-5.63207e-05,5.20586e-06,4.14394e-05,-0.000320071,-0.00108233,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97058e-06,1.32406e-05,1.32293e-05,8.5865e-05,0.020363,0.0203679,0.00749643,0.0393895,0.0393919,0.0567195,4.31754e-11,4.31696e-11,4.44934e-10,2.62369e-07,2.62279e-07,5.00318e-08,0,0,0,0,0,0,0,0
+33885000,0.98351,-0.0101901,-0.0117577,0.180181,0.00292715,-0.0975233,-0.0972647,0.0721337,-0.0526036,-0.0793915,-1.25552e-05,-5.6323e-05,5.31157e-06,4.14394e-05,-0.000320071,-0.00108241,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96776e-06,1.34474e-05,1.34361e-05,8.57937e-05,0.0222458,0.0222518,0.00748531,0.043823,0.0438263,0.0565444,4.32743e-11,4.32684e-11,4.42148e-10,2.62369e-07,2.62279e-07,5.00388e-08,0,0,0,0,0,0,0,0
+33985000,0.983504,-0.00993811,-0.011893,0.18022,0.00049359,-0.0869688,-0.093615,0.0737896,-0.0432238,-0.0825777,-1.2837e-05,-5.61904e-05,5.26474e-06,4.14394e-05,-0.000320071,-0.00108334,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96505e-06,1.24529e-05,1.2441e-05,8.5725e-05,0.0205113,0.0205166,0.0073919,0.0396843,0.0396868,0.0559669,4.17271e-11,4.17189e-11,4.39348e-10,2.62369e-07,2.62279e-07,5.0005e-08,0,0,0,0,0,0,0,0
+34085000,0.98351,-0.00987543,-0.0118965,0.180193,-0.00307165,-0.0915214,-0.0926805,0.0737052,-0.0521797,-0.0892314,-1.28369e-05,-5.61906e-05,5.26796e-06,4.14394e-05,-0.000320071,-0.00108344,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97353e-06,1.265e-05,1.26379e-05,8.59997e-05,0.0223577,0.0223638,0.00746462,0.0441766,0.04418,0.0565837,4.18262e-11,4.18181e-11,4.37267e-10,2.62369e-07,2.62279e-07,5.00108e-08,0,0,0,0,0,0,0,0
+34185000,0.983511,-0.00970374,-0.0119353,0.180194,-0.00669917,-0.0815476,-0.0903303,0.075782,-0.0436107,-0.090991,-1.30755e-05,-5.60703e-05,5.31388e-06,4.14394e-05,-0.000320071,-0.0010842,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97183e-06,1.16814e-05,1.16691e-05,8.59357e-05,0.0205288,0.0205341,0.00739717,0.0399467,0.0399493,0.0560115,4.03754e-11,4.03653e-11,4.34447e-10,2.62369e-07,2.62279e-07,5.00037e-08,0,0,0,0,0,0,0,0
+34285000,0.983515,-0.00959662,-0.0119957,0.180175,-0.00681518,-0.0850923,-0.0892805,0.0751369,-0.0519839,-0.0982195,-1.30744e-05,-5.60715e-05,5.36923e-06,4.14394e-05,-0.000320071,-0.0010843,0.20428,0.00198396,0.434362,0,0,0,0,0,2.97032e-06,1.18693e-05,1.18565e-05,8.58747e-05,0.0223277,0.0223338,0.00743792,0.0444809,0.0444843,0.0558374,4.04742e-11,4.04642e-11,4.31617e-10,2.62369e-07,2.62279e-07,5.00041e-08,0,0,0,0,0,0,0,0
+34385000,0.983539,-0.00938213,-0.0120053,0.180056,-0.00967086,-0.0741646,-0.0842616,0.0754265,-0.0431743,-0.101365,-1.32981e-05,-5.59686e-05,5.38272e-06,4.14394e-05,-0.000320071,-0.00108576,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96424e-06,1.09395e-05,1.09265e-05,8.58204e-05,0.020423,0.0204283,0.00739461,0.0401699,0.0401725,0.055292,3.9129e-11,3.91174e-11,4.28777e-10,2.62369e-07,2.62279e-07,5.0001e-08,0,0,0,0,0,0,0,0
+34485000,0.983542,-0.00946703,-0.0119351,0.180035,-0.0126943,-0.07792,-0.0827552,0.0743096,-0.0508471,-0.104829,-1.32969e-05,-5.59699e-05,5.44141e-06,4.14394e-05,-0.000320071,-0.00108612,0.20428,0.00198396,0.434362,0,0,0,0,0,2.9629e-06,1.11184e-05,1.11056e-05,8.57639e-05,0.0221673,0.0221733,0.00745784,0.0447287,0.0447322,0.0551331,3.92277e-11,3.92163e-11,4.25928e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
+34585000,0.983548,-0.00926901,-0.0117585,0.180024,-0.0129087,-0.0664564,0.663155,0.0747607,-0.0431089,-0.0796953,-1.34781e-05,-5.58713e-05,5.4307e-06,4.14394e-05,-0.000320071,-0.00108746,0.20428,0.00198396,0.434362,0,0,0,0,0,2.95989e-06,1.02363e-05,1.02238e-05,8.57111e-05,0.0190972,0.0191019,0.00742823,0.0403189,0.0403216,0.0546181,3.79919e-11,3.79792e-11,4.23071e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
+34685000,0.983555,-0.00925604,-0.0114714,0.180007,-0.0147049,-0.0634549,1.65382,0.0733875,-0.0496012,0.033174,-1.34785e-05,-5.58709e-05,5.41475e-06,4.14394e-05,-0.000320071,-0.00108719,0.20428,0.00198396,0.434362,0,0,0,0,0,2.95711e-06,1.04067e-05,1.03947e-05,8.56601e-05,0.0192062,0.0192109,0.00750225,0.0447127,0.0447161,0.0544796,3.80906e-11,3.80781e-11,4.20207e-10,2.62369e-07,2.62279e-07,5e-08,0,0,0,0,0,0,0,0
+34785000,0.983564,-0.00909768,-0.0112419,0.17998,-0.0148332,-0.0520086,2.62009,0.0741569,-0.0419445,0.194952,-1.36231e-05,-5.57809e-05,5.42862e-06,4.14394e-05,-0.000320071,-0.00106123,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96557e-06,9.67873e-06,9.66718e-06,8.59489e-05,0.0163743,0.016378,0.0075385,0.0402526,0.0402552,0.0547349,3.70853e-11,3.70719e-11,4.18077e-10,2.62369e-07,2.62279e-07,5.0002e-08,0,0,0,0,0,0,0,0
+34885000,0.98357,-0.00908335,-0.0109562,0.179966,-0.0165727,-0.0489912,3.60564,0.0726319,-0.0469674,0.48478,-1.36238e-05,-5.57798e-05,5.40752e-06,4.14394e-05,-0.000320071,-0.00105899,0.20428,0.00198396,0.434362,0,0,0,0,0,2.96287e-06,9.84294e-06,9.83192e-06,8.59003e-05,0.0164857,0.0164894,0.00763028,0.0443691,0.0443723,0.0546181,3.7184e-11,3.71709e-11,4.15202e-10,2.62369e-07,2.62279e-07,5.0001e-08,0,0,0,0,0,0,0,0
-- 
2.43.0


From d99e7be54e28795936e044bec4c0ecf135abee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:17 +0000
Subject: [PATCH 27/29] fix: use the vision heading even if the magnetometer
 heading was inhibited when it started

_is_yaw_fusion_inhibited describes the magnetometer (none fitted, indoor, or
disturbed field). It was left set when vision yaw took over the heading, and
fuseHeading() then replaced every vision measurement by the last static yaw (at
rest) or dropped it (in motion).
---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index b8b08d2..bcdbd41 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -743,7 +743,7 @@ void Ekf::fuseHeading()
 
 		// handle special case where yaw measurement is unavailable
 		bool fuse_zero_innov = false;
-		if (_is_yaw_fusion_inhibited) {
+		if (_is_yaw_fusion_inhibited && !_control_status.flags.ev_yaw) {
 			// The yaw measurement cannot be trusted but we need to fuse something to prevent a badly
 			// conditioned covariance matrix developing over time.
 			if (!_control_status.flags.vehicle_at_rest) {
@@ -799,7 +799,7 @@ void Ekf::fuseHeading()
 
 		// handle special case where yaw measurement is unavailable
 		bool fuse_zero_innov = false;
-		if (_is_yaw_fusion_inhibited) {
+		if (_is_yaw_fusion_inhibited && !_control_status.flags.ev_yaw) {
 			// The yaw measurement cannot be trusted but we need to fuse something to prevent a badly
 			// conditioned covariance matrix developing over time.
 			if (!_control_status.flags.vehicle_at_rest) {
-- 
2.43.0


From fd184cb455df065d31aa2a504ca7980e8ed8f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:06 +0000
Subject: [PATCH 28/29] fix: do not reset a measured yaw to the backup yaw
 estimate

With MAG_FUSE_TYPE_NONE the yaw alignment requested when the origin is set
stayed pending while GNSS heading or vision yaw provided the yaw, and later
replaced it by the less accurate EKF-GSF estimate.
---
 EKF/ekf_helper.cpp | 6 ++++++
 EKF/gps_checks.cpp | 8 +++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index a376d11..bd88ac2 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1475,6 +1475,9 @@ void Ekf::startGpsYawFusion()
 	stopMagHdgFusion();
 	stopMag3DFusion();
 	_control_status.flags.gps_yaw = true;
+
+	// the yaw is measured: a pending alignment to the EKF-GSF estimate would only degrade it
+	_do_ekfgsf_yaw_reset = false;
 }
 
 void Ekf::stopGpsYawFusion()
@@ -1513,6 +1516,9 @@ void Ekf::startEvYawFusion()
 	_control_status.flags.ev_yaw = true;
 	_control_status.flags.mag_dec = false;
 
+	// the yaw is measured: a pending alignment to the EKF-GSF estimate would only degrade it
+	_do_ekfgsf_yaw_reset = false;
+
 	stopMagHdgFusion();
 	stopMag3DFusion();
 
diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index 5f74b1b..3868d72 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -93,9 +93,11 @@ bool Ekf::collect_gps(const gps_message &gps)
 
 		// request a reset of the yaw using the new declination
 		if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
-			// try to reset the yaw using the EKF-GSF yaw estimator
-			_do_ekfgsf_yaw_reset = true;
-			_ekfgsf_yaw_reset_time = 0;
+			// try to reset the yaw using the EKF-GSF yaw estimator, unless another sensor already provides it
+			if (noOtherYawAidingThanMag()) {
+				_do_ekfgsf_yaw_reset = true;
+				_ekfgsf_yaw_reset_time = 0;
+			}
 
 		} else {
 			if (!declination_was_valid) {
-- 
2.43.0


From 6dfc8c14aefb53360d879a3a49affcac055316f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:06 +0000
Subject: [PATCH 29/29] fix: scale the reported inertial bias variances with
 the square of the time step

The states are delta angles and delta velocities, so their variances in (rad/s)^2
and (m/s^2)^2 are P / dt^2; P / dt made the reported deviations ten times too small.
---
 EKF/ekf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 0f7aef0..c9c58b5 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -224,8 +224,8 @@ public:
 	Vector3f getAccelBias() const { return _state.delta_vel_bias / _dt_ekf_avg; } // get the accelerometer bias in m/s**2
 	const Vector3f &getMagBias() const { return _state.mag_B; }
 
-	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / _dt_ekf_avg; } // get the gyroscope bias variance in rad/s
-	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / _dt_ekf_avg; } // get the accelerometer bias variance in m/s**2
+	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / sq(_dt_ekf_avg); } // get the gyroscope bias variance in (rad/s)^2
+	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / sq(_dt_ekf_avg); } // get the accelerometer bias variance in (m/s**2)^2
 	Vector3f getMagBiasVariance() const { return Vector3f{P(19, 19), P(20, 20), P(21, 21)}; }
 
 	// get GPS check status
-- 
2.43.0

