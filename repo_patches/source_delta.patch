From a76d94d997c50452bd0ed826258fe25954a91b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:16 +0000
Subject: [PATCH 01/19] fix: ignore 'done' messages from workers that have no
 job

The current request of an idle worker is null and was dereferenced.
---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f84f791..36d4926 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -280,6 +280,11 @@ void broker_handler::process_worker_done(
 
 	request_ptr current = queue_->get_current_request(worker);
 
+	if (current == nullptr) {
+		logger_->warn("Got 'done' message from worker {} which has no job assigned", worker->get_description());
+		return;
+	}
+
 	if (message.at(1) != current->data.get_job_id()) {
 		logger_->error("Got 'done' message from worker {} with mismatched job id - {} (message) vs. {} (worker)",
 			worker->get_description(),
-- 
2.43.0


From 887d4db423a4057a0e060183ea42daeff1b12f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:16 +0000
Subject: [PATCH 02/19] fix: survive 'eval' messages without job id or header
 terminator

Such messages caused an uncaught exception or a read past the end of the message.
---
 src/handlers/broker_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 36d4926..4fe8b7b 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -92,6 +92,12 @@ void broker_handler::process_client_eval(
 	// Then let client know that we are alive and well
 	respond(message_container(broker_connect::KEY_CLIENTS, identity, {"ack"}));
 
+	// There must be a job id and at least the frame which terminates the headers
+	if (message.size() < 3) {
+		logger_->warn("Eval command with not enough arguments from frontend. Skipped.");
+		return;
+	}
+
 	// Get job identification and parse headers
 	std::string job_id = message.at(1);
 	request::headers_t headers;
-- 
2.43.0


From c3f0d793e8db2801ca6b35d8188d0f296ecf9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:16 +0000
Subject: [PATCH 03/19] fix: do not let non-numeric thread counts kill the
 broker

A count that cannot be converted to a number is not satisfied by (and does not satisfy) anything.
---
 src/worker.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index 1935cbb..bd4f898 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,6 +1,8 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
 
+#include <stdexcept>
+
 bool header_matcher::match(const std::string &value)
 {
 	return value == my_value_;
@@ -64,14 +66,35 @@ class count_matcher : public header_matcher
 {
 private:
 	/** Preset number to be base for comparison. */
-	std::size_t my_count_;
+	std::size_t my_count_ = 0;
+
+	/** True if the base value could be converted to a number (nothing matches it otherwise). */
+	bool valid_;
+
+	/**
+	 * Convert a string to a number using std::stoul.
+	 * @param value String to be converted.
+	 * @param result Result of the conversion.
+	 * @return @a true if the conversion succeeded, @a false otherwise.
+	 */
+	static bool parse_count(const std::string &value, std::size_t &result)
+	{
+		try {
+			result = std::stoul(value);
+		} catch (const std::logic_error &) {
+			// not a number or out of range
+			return false;
+		}
+
+		return true;
+	}
 
 public:
 	/**
 	 * Constructor.
 	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul.
 	 */
-	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(std::stoul(my_value))
+	count_matcher(std::string my_value) : header_matcher(my_value), valid_(parse_count(my_value, my_count_))
 	{
 	}
 
@@ -89,7 +112,9 @@ public:
 
 bool count_matcher::match(const std::string &value)
 {
-	return my_count_ >= std::stoul(value);
+	std::size_t count;
+
+	return valid_ && parse_count(value, count) && my_count_ >= count;
 }
 
 worker::worker(
-- 
2.43.0


From 420066216314aead0079f5f0bd4c5167d3d1bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:16 +0000
Subject: [PATCH 04/19] fix: expire workers which go silent right after
 registration

The liveness counter of a new worker was zero and the (unsigned) counter was decremented past zero, so such a
worker was never considered dead.
---
 src/handlers/broker_handler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 4fe8b7b..b9aad2b 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -255,6 +255,7 @@ void broker_handler::process_worker_init(
 	}
 
 	// Start an idle timer for our new worker
+	new_worker->liveness = config_->get_max_worker_liveness();
 	worker_timers_.emplace(new_worker, std::chrono::milliseconds(0));
 
 	if (logger_->should_log(spdlog::level::debug)) {
@@ -404,10 +405,12 @@ void broker_handler::process_timer(const message_container &message, const handl
 		worker_timers_[worker] += time;
 
 		if (worker_timers_[worker] > config_->get_worker_ping_interval()) {
-			worker->liveness -= 1;
+			if (worker->liveness > 0) {
+				worker->liveness -= 1;
+			}
 			worker_timers_[worker] = std::chrono::milliseconds(0);
 
-			if (worker->liveness <= 0) {
+			if (worker->liveness == 0) {
 				to_remove.push_back(worker);
 			}
 		}
-- 
2.43.0


From c99e139ee9bd1927e9e1e96ac3045cfd30e614b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:16 +0000
Subject: [PATCH 05/19] fix: do not send a declared current job back to the
 worker

According to queue_manager_interface, add_worker returns nullptr when current_request is specified.
---
 src/queuing/single_queue_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1d4d87c..ae72a8c 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -81,7 +81,7 @@ public:
         workers_.push_back(worker);
 
         if (current_request != nullptr) {
-            return current_request;
+            return nullptr; // the worker is already processing it, there is nothing to be sent
         }
 
         return assign_request(worker);
-- 
2.43.0


From 70a1683aad2cb22dab7f7cbce57b8d17d072c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:16 +0000
Subject: [PATCH 06/19] fix: keep the order of jobs which arrive in the same
 millisecond

The order of equal elements was not preserved and the wall clock could go back.
---
 src/queuing/single_queue_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index ae72a8c..0a1e6ae 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -90,7 +90,7 @@ public:
     request_ptr assign_request(worker_ptr worker) override
     {
         worker_jobs_[worker] = nullptr;
-        std::sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
+        std::stable_sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
             return comparator_->compare(a, b, worker);
         });
 
@@ -152,7 +152,7 @@ public:
             jobs_.push_back(request_entry{
                 .request = request,
                 .arrived_at = std::chrono::duration_cast<std::chrono::milliseconds>(
-                    std::chrono::system_clock::now().time_since_epoch()
+                    std::chrono::steady_clock::now().time_since_epoch()
                 ),
             });
         }
-- 
2.43.0


From 88e221bd3a67585e2f1f0a141bb4bf030e293090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:16 +0000
Subject: [PATCH 07/19] fix: do not send messages without any frames through
 router sockets

The identity frame was left waiting for its data and the next message was appended to it.
---
 src/reactor/router_socket_wrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/router_socket_wrapper.cpp b/src/reactor/router_socket_wrapper.cpp
index 91c4d3c..7b034fd 100644
--- a/src/reactor/router_socket_wrapper.cpp
+++ b/src/reactor/router_socket_wrapper.cpp
@@ -8,6 +8,10 @@ router_socket_wrapper::router_socket_wrapper(
 
 bool router_socket_wrapper::send_message(const message_container &source)
 {
+	// Sending just the identity would glue the next message to this one
+	if (source.data.empty()) {
+		return false;
+	}
 
 	try {
 		socket_.send(source.identity.c_str(), source.identity.size(), ZMQ_SNDMORE);
-- 
2.43.0


From 71dd0b2eecc7b84230a4b78bc5aa1ab8b1c11fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 08/19] fix: give a worker its next job after an internal error

A worker whose failed job was moved elsewhere or could not be reassigned was left idle with jobs waiting for it.
---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index b9aad2b..93c0e39 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -328,7 +328,10 @@ void broker_handler::process_worker_done(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
 			reassign_request(failed_request, respond);
-		} else {
+		}
+
+		// Unless the request went back to the same worker, the worker is free to process another one
+		if (queue_->get_current_request(worker) == nullptr) {
 			auto new_request = queue_->assign_request(worker);
 			if (new_request) {
 				send_request(worker, new_request, respond);
-- 
2.43.0


From 4be4bd880a0a0109aaf49189cbcedd4bedb26e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:24 +0000
Subject: [PATCH 09/19] fix: do not reassign jobs to workers that expire at the
 same time

Requests of an expired worker could be given to a worker that was found dead in the very same timer event. All
expired workers are now removed before their requests are reassigned.
---
 src/handlers/broker_handler.cpp | 24 +++++++++++++++++++++---
 src/handlers/broker_handler.h   | 16 ++++++++++++++++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 93c0e39..5a086ca 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -419,8 +419,8 @@ void broker_handler::process_timer(const message_container &message, const handl
 		}
 	}
 
-	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
-	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
+	// Remove all the expired workers before we start looking for new workers for their requests
+	abandoned_requests_t abandoned_requests;
 
 	for (const auto &worker : to_remove) {
 		logger_->info("Worker {} expired", worker->get_description());
@@ -430,7 +430,22 @@ void broker_handler::process_timer(const message_container &message, const handl
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
 
-		auto requests = queue_->worker_terminated(worker);
+		abandoned_requests.emplace_back(worker, queue_->worker_terminated(worker));
+	}
+
+	reassign_abandoned_requests(abandoned_requests, respond);
+	update_runtime_stats();
+}
+
+void broker_handler::reassign_abandoned_requests(
+	const abandoned_requests_t &abandoned_requests, const handler_interface::response_cb &respond)
+{
+	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
+	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
+
+	for (const auto &item : abandoned_requests) {
+		const auto &worker = item.first;
+		const auto &requests = item.second;
 		std::vector<worker::request_ptr> unassigned_requests;
 
 		for (const auto &request : *requests) {
@@ -460,7 +475,10 @@ void broker_handler::process_timer(const message_container &message, const handl
 			}
 		}
 	}
+}
 
+void broker_handler::update_runtime_stats()
+{
 	runtime_stats_[STATS_QUEUED_JOBS] = queue_->get_queued_request_count();
 	runtime_stats_[STATS_WORKER_COUNT] = workers_->get_workers().size();
 
diff --git a/src/handlers/broker_handler.h b/src/handlers/broker_handler.h
index 5268ee8..88c9bb4 100644
--- a/src/handlers/broker_handler.h
+++ b/src/handlers/broker_handler.h
@@ -127,6 +127,22 @@ private:
 	 */
 	void process_timer(const message_container &message, const response_cb &respond);
 
+	/** Workers that are gone together with the requests which have to be reassigned because of that */
+	using abandoned_requests_t =
+		std::vector<std::pair<worker_registry::worker_ptr, std::shared_ptr<std::vector<request_ptr>>>>;
+
+	/**
+	 * Try to reassign requests of workers that are gone and notify the frontend and the monitor about the outcome.
+	 * @param abandoned_requests the workers (already removed) and their requests
+	 * @param respond a callback to notify the workers, the monitor and the frontend
+	 */
+	void reassign_abandoned_requests(const abandoned_requests_t &abandoned_requests, const response_cb &respond);
+
+	/**
+	 * Update the statistics about workers and queued jobs
+	 */
+	void update_runtime_stats();
+
 	/**
 	 * Find a substitute worker to try and process the request again.
 	 * @param request the request to reassign
-- 
2.43.0


From 54d13efb750931c3d6a09abbd747712674696bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:24 +0000
Subject: [PATCH 10/19] fix: replace the registration of a worker that changes
 its capabilities

A second registration of the same identity was added next to the old one: the worker could be sent two jobs at
once, the results of one of them were ignored and a changed hwgroup was not noticed at all. The old registration
is now removed and its requests are handled like those of a dead worker, unless the worker declares that it is
still processing its current job.
---
 src/handlers/broker_handler.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 5a086ca..d5ae521 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -215,7 +215,7 @@ void broker_handler::process_worker_init(
 	worker_registry::worker_ptr current_worker = workers_->find_worker_by_identity(identity);
 
 	if (current_worker != nullptr) {
-		if (current_worker->headers_equal(headers)) {
+		if (current_worker->hwgroup == hwgroup && current_worker->headers_equal(headers)) {
 			// We don't have to update anything
 			return;
 		}
@@ -245,6 +245,25 @@ void broker_handler::process_worker_init(
 		}
 	}
 
+	// The new registration replaces the old one
+	abandoned_requests_t abandoned_requests;
+
+	if (current_worker != nullptr) {
+		auto old_request = queue_->get_current_request(current_worker);
+
+		if (old_request != nullptr && current_request != nullptr &&
+			old_request->data.get_job_id() == current_request->data.get_job_id()) {
+			// The worker goes on with the job we gave it
+			current_request = queue_->worker_cancelled(current_worker);
+		} else if (old_request != nullptr) {
+			old_request->failure_count += 1;
+		}
+
+		workers_->remove_worker(current_worker);
+		abandoned_requests.emplace_back(current_worker, queue_->worker_terminated(current_worker));
+		worker_timers_.erase(current_worker);
+	}
+
 	// Insert the worker into the registry
 	workers_->add_worker(new_worker);
 	request_ptr request = queue_->add_worker(new_worker, current_request);
@@ -258,6 +277,9 @@ void broker_handler::process_worker_init(
 	new_worker->liveness = config_->get_max_worker_liveness();
 	worker_timers_.emplace(new_worker, std::chrono::milliseconds(0));
 
+	// Take care of requests of the replaced worker
+	reassign_abandoned_requests(abandoned_requests, respond);
+
 	if (logger_->should_log(spdlog::level::debug)) {
 		std::stringstream ss;
 		std::copy(message.begin() + 1, message.end(), std::ostream_iterator<std::string>(ss, " "));
@@ -327,7 +349,10 @@ void broker_handler::process_worker_done(
 			status_notifier.rejected_job(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
-			reassign_request(failed_request, respond);
+			if (!reassign_request(failed_request, respond)) {
+				status_notifier.rejected_job(failed_request->data.get_job_id(),
+					"Job failed with '" + message.at(3) + "' and cannot be reassigned");
+			}
 		}
 
 		// Unless the request went back to the same worker, the worker is free to process another one
-- 
2.43.0


From 9ed5d65b0565aa36869baddf0c46b2d1fa2f9680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:30 +0000
Subject: [PATCH 11/19] fix: encode special characters in notifications for the
 frontend

Job ids and messages containing characters such as '&', '+', '%' or spaces were mangled.
---
 src/handlers/status_notifier_handler.cpp |  2 +-
 src/helpers/curl.cpp                     | 22 +++++++++++++++++++++-
 src/helpers/curl.h                       |  7 +++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/handlers/status_notifier_handler.cpp b/src/handlers/status_notifier_handler.cpp
index 1cc7ab4..ff924b4 100644
--- a/src/handlers/status_notifier_handler.cpp
+++ b/src/handlers/status_notifier_handler.cpp
@@ -47,7 +47,7 @@ void status_notifier_handler::on_request(
 	}
 
 	if (id != "") {
-		ss << "/" << id;
+		ss << "/" << helpers::url_encode(id);
 	}
 
 	std::size_t retries = 4; // we come by this value using digital suction
diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index f223391..744cf0f 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,6 +7,26 @@
 #endif
 
 
+std::string helpers::url_encode(const std::string &value)
+{
+	static const char hex[] = "0123456789ABCDEF";
+	static const std::string unreserved =
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~";
+	std::string result;
+
+	for (unsigned char c : value) {
+		if (unreserved.find(static_cast<char>(c)) != std::string::npos) {
+			result += static_cast<char>(c);
+		} else {
+			result += '%';
+			result += hex[c >> 4];
+			result += hex[c & 15];
+		}
+	}
+
+	return result;
+}
+
 std::string helpers::get_http_query(const curl_params &params)
 {
 	std::string result;
@@ -16,7 +36,7 @@ std::string helpers::get_http_query(const curl_params &params)
 			result += "&";
 		}
 
-		result += par.first + "=" + par.second;
+		result += url_encode(par.first) + "=" + url_encode(par.second);
 	}
 
 	return result;
diff --git a/src/helpers/curl.h b/src/helpers/curl.h
index fe40cc4..4072868 100644
--- a/src/helpers/curl.h
+++ b/src/helpers/curl.h
@@ -12,6 +12,13 @@ namespace helpers
 	 */
 	using curl_params = std::map<std::string, std::string>;
 
+	/**
+	 * Percent-encode a string so that it can be used as a part of an URL path or as a form field.
+	 * @param value the string to be encoded
+	 * @return encoded string
+	 */
+	std::string url_encode(const std::string &value);
+
 	/**
 	 * Construct standard http query and return it.
 	 * @note Leading question mark is not included in returned string.
-- 
2.43.0


From 53b4d5b4431d81731d5994258dd4b1ae6426bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:30 +0000
Subject: [PATCH 12/19] fix: announce all the elapsed time in timer events

Only whole milliseconds spent polling were counted, so the time seen by handlers was slowed down or stopped by
frequent messages.
---
 src/reactor/reactor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 95b8dd1..ae357b9 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -73,13 +73,16 @@ void reactor::start_loop()
 
 	termination_flag_.store(false);
 
+	auto last_time = std::chrono::steady_clock::now();
+
 	// Enter the poll loop
 	while (!termination_flag_.load()) {
-		auto time_before_poll = std::chrono::system_clock::now();
 		zmq::poll(pollitems, std::chrono::milliseconds(100));
-		auto time_after_poll = std::chrono::system_clock::now();
+		auto time_after_poll = std::chrono::steady_clock::now();
 
-		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(time_after_poll - time_before_poll);
+		// Include the time spent in handlers and carry the fractions of milliseconds over to the next cycle
+		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(time_after_poll - last_time);
+		last_time += elapsed_time;
 
 		std::size_t i = 0;
 		for (auto item : pollitems) {
-- 
2.43.0


From 2e9658093e701acac80563e9ded5c8fbe5d8aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:30 +0000
Subject: [PATCH 13/19] fix: do not forget a termination request made before
 the loop starts

---
 src/reactor/reactor.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index ae357b9..72dcf72 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -6,7 +6,7 @@ const std::string reactor::KEY_TIMER = "timer";
 
 reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
-	  async_handler_socket_(*context, zmq::socket_type::router)
+	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
@@ -71,8 +71,6 @@ void reactor::start_loop()
 	pollitems.push_back(
 		zmq_pollitem_t{.socket = (void *) async_handler_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0});
 
-	termination_flag_.store(false);
-
 	auto last_time = std::chrono::steady_clock::now();
 
 	// Enter the poll loop
-- 
2.43.0


From 8eed842d6687cf9c58228ad98f53d4a691c5c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:30 +0000
Subject: [PATCH 14/19] fix: do not lose messages for asynchronous handlers

Messages (including the termination request) were dropped when sent before the handler thread connected its socket
or when too many of them were waiting for a slow handler. A message without data frames was glued to the next one.
---
 src/reactor/reactor.cpp | 21 +++++++++++++++------
 src/reactor/reactor.h   |  5 +++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 72dcf72..918fed3 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -8,6 +8,9 @@ reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
 	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
+	// Messages for asynchronous handlers must not be dropped, no matter how many of them are waiting
+	async_handler_socket_.setsockopt(ZMQ_SNDHWM, 0);
+	async_handler_socket_.setsockopt(ZMQ_RCVHWM, 0);
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
 
@@ -152,8 +155,15 @@ asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &conte
 	reactor &reactor_ref,
 	std::shared_ptr<handler_interface> handler)
 	: handler_wrapper(reactor_ref, handler), context_(context), reactor_socket_(async_handler_socket),
-	  unique_id_(std::to_string((uintptr_t) this))
+	  unique_id_(std::to_string((uintptr_t) this)), handler_socket_(context, zmq::socket_type::dealer)
 {
+	// Connect before the first message is sent, the reactor would drop it otherwise
+	handler_socket_.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
+	handler_socket_.connect("inproc://" + reactor_.unique_id);
+
+	// Make the reactor socket process the new connection
+	reactor_socket_.getsockopt<int>(ZMQ_EVENTS);
+
 	worker_ = std::thread([this]() { handler_thread(); });
 }
 
@@ -171,7 +181,8 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 {
 	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
 	reactor_socket_.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	reactor_socket_.send(
+		message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
@@ -180,9 +191,7 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 
 void asynchronous_handler_wrapper::handler_thread()
 {
-	zmq::socket_t socket(context_, zmq::socket_type::dealer);
-	socket.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
-	socket.connect("inproc://" + reactor_.unique_id);
+	zmq::socket_t &socket = handler_socket_;
 
 	while (true) {
 		message_container request;
@@ -215,7 +224,7 @@ void asynchronous_handler_wrapper::handler_thread()
 void asynchronous_handler_wrapper::send_response(zmq::socket_t &socket, const message_container &message)
 {
 	socket.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	socket.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	socket.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		socket.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 0117860..162bf63 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -114,6 +114,11 @@ private:
 	 * A unique identifier of the handler used in inprocess communication with the reactor
 	 */
 	const std::string unique_id_;
+
+	/**
+	 * The handler side of the inprocess connection. It is used only by the worker thread once that is running.
+	 */
+	zmq::socket_t handler_socket_;
 };
 
 /**
-- 
2.43.0


From a5e5efc641500f8df1e68e21e8b9f5153bf3e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 15/19] fix: post notifications about jobs named by dots to the
 right address

---
 src/helpers/curl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 744cf0f..fbc23a3 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -133,6 +133,8 @@ std::string helpers::curl_post(const std::string &url,
 	if (curl.get()) {
 		// destination address
 		curl_easy_setopt(curl.get(), CURLOPT_URL, url.c_str());
+		// Do not interpret dots in the path, they might be a part of some identifier
+		curl_easy_setopt(curl.get(), CURLOPT_PATH_AS_IS, 1L);
 
 		// set port
 		curl_easy_setopt(curl.get(), CURLOPT_PORT, port);
-- 
2.43.0


From 483658bc34450dce2ca3e8ecf4ace5a0aceff149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 16/19] fix: initialize the default port of the notifier

---
 src/config/notifier_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/notifier_config.h b/src/config/notifier_config.h
index 48b906b..ef3af52 100644
--- a/src/config/notifier_config.h
+++ b/src/config/notifier_config.h
@@ -17,7 +17,7 @@ public:
 	/**
 	 * Port on which frontend runs.
 	 */
-	std::uint16_t port;
+	std::uint16_t port = 0;
 
 	/**
 	 * Username which is used in HTTP authentication.
-- 
2.43.0


From d9a9ed857d5dd795bdf6a1f7b6c5e4ac4bd6a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:18 +0000
Subject: [PATCH 17/19] fix: recognize a repeated registration regardless of
 the order of its headers

---
 src/worker.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index bd4f898..9fba598 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,6 +1,7 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
 
+#include <algorithm>
 #include <stdexcept>
 
 bool header_matcher::match(const std::string &value)
@@ -153,7 +154,9 @@ bool worker::check_header(const std::string &header, const std::string &value)
 
 bool worker::headers_equal(const std::multimap<std::string, std::string> &other)
 {
-	return other == headers_copy_;
+	// The order of the values of one header does not matter
+	return other.size() == headers_copy_.size() &&
+		std::is_permutation(std::begin(other), std::end(other), std::begin(headers_copy_));
 }
 
 std::string worker::get_description() const
-- 
2.43.0


From 45ad44f212a08292b3b9e1617d9d95e3cd7e4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:58 +0000
Subject: [PATCH 18/19] fix: start with a log file given without any directory

---
 src/broker_core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broker_core.cpp b/src/broker_core.cpp
index 2903f04..e0da5ff 100644
--- a/src/broker_core.cpp
+++ b/src/broker_core.cpp
@@ -90,7 +90,7 @@ void broker_core::log_init()
 	// Try to create target directory for logs
 	auto path = fs::path(log_conf.log_path);
 	try {
-		if (!fs::is_directory(path)) {
+		if (!path.empty() && !fs::is_directory(path)) {
 			fs::create_directories(path);
 		}
 	} catch (fs::filesystem_error &e) {
-- 
2.43.0


From 4a56bbbc1ffc6edb94180eae16dea43857735608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:58 +0000
Subject: [PATCH 19/19] fix: respect all the documented log levels

---
 src/helpers/logger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helpers/logger.cpp b/src/helpers/logger.cpp
index ec3f6e8..dbb55c5 100644
--- a/src/helpers/logger.cpp
+++ b/src/helpers/logger.cpp
@@ -13,11 +13,13 @@ spdlog::level::level_enum helpers::get_log_level(const std::string &lev)
 {
 	if (lev == "off") {
 		return spdlog::level::off;
-	} else if (lev == "critical") {
+	} else if (lev == "critical" || lev == "alert" || lev == "emerg") {
+		// the logger has no levels above critical
 		return spdlog::level::critical;
 	} else if (lev == "err") {
 		return spdlog::level::err;
-	} else if (lev == "warn") {
+	} else if (lev == "warn" || lev == "notice") {
+		// the logger has no level between info and warn
 		return spdlog::level::warn;
 	} else if (lev == "info") {
 		return spdlog::level::info;
-- 
2.43.0

