From decce218019ad80780ac4378f9aca15540935170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 01/71] fix: refuse negative literals for unsigned types

boost::lexical_cast and operator>> of the unsigned types wrap a negative
literal around, so unsignedInt "-1" was read as 18446744073709551615.
---
 .../src/syntax/unsigned_integer.cpp                 | 13 +++++++++++++
 .../src/syntax/unsigned_short.cpp                   | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index 4a2094c..b46c2b1 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -26,6 +26,10 @@ UnsignedInteger::UnsignedInteger(value_type value) { data = value; }
 
 UnsignedInteger::UnsignedInteger(const std::string & s)
 {
+  if (not s.empty() and s.front() == '-') {  // The conversion below would wrap it around
+    throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
+  }
+
   try {
     data = boost::lexical_cast<value_type>(s);
   } catch (const boost::bad_lexical_cast &) {
@@ -55,6 +59,15 @@ UnsignedInteger::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedInteger & datum) -> std::istream &
 {
+  if (is.flags() & std::ios_base::skipws) {
+    is >> std::ws;
+  }
+
+  if (is.peek() == '-') {  // The extraction below would wrap it around
+    is.setstate(std::ios_base::failbit);
+    return is;
+  }
+
   return is >> datum.data;
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index bfc23d9..eb1f7af 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -28,6 +28,10 @@ UnsignedShort::UnsignedShort(value_type value) { data = value; }
 
 UnsignedShort::UnsignedShort(const std::string & s)
 {
+  if (not s.empty() and s.front() == '-') {  // The conversion below would wrap it around
+    throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
+  }
+
   try {
     data = boost::lexical_cast<value_type>(s);
   } catch (const boost::bad_lexical_cast &) {
@@ -57,6 +61,15 @@ UnsignedShort::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedShort & datum) -> std::istream &
 {
+  if (is.flags() & std::ios_base::skipws) {
+    is >> std::ws;
+  }
+
+  if (is.peek() == '-') {  // The extraction below would wrap it around
+    is.setstate(std::ios_base::failbit);
+    return is;
+  }
+
   return is >> datum.data;
 }
 
-- 
2.43.0


From c695902d74bbc0d0fa59e924e44568a009a4bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 02/71] fix: refuse boolean literals with trailing garbage

Boolean("truex") was read as true.
---
 openscenario/openscenario_interpreter/src/syntax/boolean.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
index bef6f81..76c1204 100644
--- a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
@@ -32,7 +32,9 @@ Boolean::Boolean(const std::string & target)
 {
   std::stringstream interpreter;
 
-  if (!(interpreter << target && interpreter >> std::boolalpha >> data)) {
+  if (
+    !(interpreter << target && interpreter >> std::boolalpha >> data) ||
+    !(interpreter >> std::ws).eof()) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(target);
   }
 }
-- 
2.43.0


From 112c594e92dbc3fdbac2bec61c559e921d473aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 03/71] fix: make the rule notEqualTo the negation of equalTo

equalTo allows a difference below epsilon but notEqualTo compared exactly, so
both were true for 0.1 + 0.2 and 0.3; and equalTo(infinity, infinity) was
false because infinity - infinity is not a number.
---
 .../openscenario_interpreter/functional/equal_to.hpp | 12 ++++++++----
 .../include/openscenario_interpreter/syntax/rule.hpp |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
index 7657557..5552d96 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
@@ -35,7 +35,8 @@ struct equal_to<T, typename std::enable_if<std::is_floating_point<T>::value>::ty
 {
   constexpr auto operator()(const T & lhs, const T & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 };
 
@@ -45,17 +46,20 @@ struct equal_to<std::valarray<T>, typename std::enable_if<std::is_floating_point
   constexpr auto operator()(
     const std::valarray<T> & lhs, const std::valarray<T> & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return (lhs == rhs) or
+           (std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon());
   }
 
   constexpr auto operator()(const std::valarray<T> & lhs, const T & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return (lhs == rhs) or
+           (std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon());
   }
 
   constexpr auto operator()(const T & lhs, const std::valarray<T> & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return (lhs == rhs) or
+           (std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon());
   }
 };
 }  // namespace syntax
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
index 56b2e55..fbee60d 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
@@ -92,7 +92,7 @@ struct Rule
         return std::less_equal()(
           std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
       case notEqualTo:
-        return std::not_equal_to()(
+        return not equal_to<T>()(
           std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
       default:
         return {};
-- 
2.43.0


From 9e146731bcaa7bccf5113c1ed2e842008301fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 04/71] fix: do not skip a cell when a grid traversal starts on
 a cell border

---
 .../src/sensor_simulation/occupancy_grid/grid_traversal.cpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 39e56d4..fde052d 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -33,8 +33,9 @@ GridTraversal::GridTraversal(double start_x, double start_y, double end_x, doubl
 
 auto GridTraversal::begin() const -> Iterator
 {
-  double tx = vx_ > 0 ? std::ceil(start_x_) : std::floor(start_x_);
-  double ty = vy_ > 0 ? std::ceil(start_y_) : std::floor(start_y_);
+  // The first border crossed in positive direction is the far one even if the start is on a border.
+  double tx = std::floor(start_x_) + (vx_ > 0 ? 1 : 0);
+  double ty = std::floor(start_y_) + (vy_ > 0 ? 1 : 0);
   tx = vx_ != 0 ? (tx - start_x_) / vx_ : tdx_;
   ty = vy_ != 0 ? (ty - start_y_) / vy_ : tdy_;
   return {this, tx, ty, int32_t(start_x_), int32_t(start_y_)};
-- 
2.43.0


From 099d4259eb1a56599945b726045a3a645b6ca4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 05/71] fix: include the last cell in a grid traversal

---
 .../sensor_simulation/occupancy_grid/grid_traversal.hpp     | 1 +
 .../src/sensor_simulation/occupancy_grid/grid_traversal.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
index eb94085..95a3bcc 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
@@ -40,6 +40,7 @@ class GridTraversal
   private:
     const GridTraversal * parent_;
 
+    double t_;  // where on the segment the current cell is entered
     double tx_, ty_;
     int32_t x_, y_;
   };
diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index fde052d..7f000d7 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -45,7 +45,7 @@ auto GridTraversal::end() const -> Sentinel { return {}; }
 
 GridTraversal::Iterator::Iterator(
   const GridTraversal * parent, double tx, double ty, int32_t x, int32_t y)
-: parent_(parent), tx_(tx), ty_(ty), x_(x), y_(y)
+: parent_(parent), t_(0.0), tx_(tx), ty_(ty), x_(x), y_(y)
 {
 }
 
@@ -54,9 +54,11 @@ auto GridTraversal::Iterator::operator*() -> Index { return {x_, y_}; }
 auto GridTraversal::Iterator::operator++() -> Iterator &
 {
   if (tx_ < ty_) {
+    t_ = tx_;
     tx_ += parent_->tdx_;
     x_ += parent_->step_x_;
   } else {
+    t_ = ty_;
     ty_ += parent_->tdy_;
     y_ += parent_->step_y_;
   }
@@ -65,7 +67,7 @@ auto GridTraversal::Iterator::operator++() -> Iterator &
 
 auto GridTraversal::Iterator::operator!=(const Sentinel &) -> bool
 {
-  return tx_ <= 1.0 || ty_ <= 1.0;
+  return t_ <= 1.0;
 }
 
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From 31bffcfb206c990a35e9bb22fc469bbe7d2a5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 06/71] fix: keep fractions of a second in the total time of
 test suites

---
 common/simple_junit/include/simple_junit/test_suites.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/simple_junit/include/simple_junit/test_suites.hpp b/common/simple_junit/include/simple_junit/test_suites.hpp
index a60b93c..29640c2 100644
--- a/common/simple_junit/include/simple_junit/test_suites.hpp
+++ b/common/simple_junit/include/simple_junit/test_suites.hpp
@@ -50,7 +50,7 @@ public:
   auto getTotalTime() const
   {
     return std::accumulate(
-      std::cbegin(test_suites_), std::cend(test_suites_), 0,
+      std::cbegin(test_suites_), std::cend(test_suites_), 0.0,
       [](const auto sum, const auto & each_suite) {
         const auto & each_cases = std::get<1>(each_suite);
 
-- 
2.43.0


From bc3b1367233c2dffd1cd4620bf0d2fc2e5e7b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 07/71] fix: report the number of test cases instead of suites
 in the total of a test report

---
 common/simple_junit/src/test_suites.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/simple_junit/src/test_suites.cpp b/common/simple_junit/src/test_suites.cpp
index 07a8cff..0faea20 100644
--- a/common/simple_junit/src/test_suites.cpp
+++ b/common/simple_junit/src/test_suites.cpp
@@ -37,7 +37,9 @@ void TestSuites::write(const std::filesystem::path & destination)
   node.append_attribute("timestamp") = timestamp_.c_str();
 
   document.child("testsuites").append_attribute("time") = getTotalTime();
-  document.child("testsuites").append_attribute("tests") = test_suites_.size();
+  document.child("testsuites").append_attribute("tests") = std::accumulate(
+    std::cbegin(test_suites_), std::cend(test_suites_), std::size_t(0),
+    [](const auto sum, const auto & each_suite) { return sum + std::get<1>(each_suite).size(); });
 
   for (const auto & each : test_suites_) {
     const auto & suite_name = std::get<0>(each);
-- 
2.43.0


From 69b69bb4ab0542a3dac5dce6ced024be05404a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 08/71] fix: let jobs that are not exclusive run side by side

---
 simulation/traffic_simulator/src/job/job_list.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/job/job_list.cpp b/simulation/traffic_simulator/src/job/job_list.cpp
index e292125..d751349 100644
--- a/simulation/traffic_simulator/src/job/job_list.cpp
+++ b/simulation/traffic_simulator/src/job/job_list.cpp
@@ -24,7 +24,9 @@ void JobList::append(
   job::Type type, bool exclusive, const job::Event event)
 {
   for (auto & job : list_) {
-    if (job.type == type && job.exclusive == exclusive && job.getStatus() == job::Status::ACTIVE) {
+    if (
+      exclusive && job.exclusive && job.type == type &&
+      job.getStatus() == job::Status::ACTIVE) {
       job.inactivate();
     }
   }
-- 
2.43.0


From cd62b671a90ad8f71766490f7467eee0b8222330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 09/71] fix: guard the error kept by the task queue against
 concurrent access

---
 external/concealer/src/task_queue.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/external/concealer/src/task_queue.cpp b/external/concealer/src/task_queue.cpp
index daf7642..fd3df82 100644
--- a/external/concealer/src/task_queue.cpp
+++ b/external/concealer/src/task_queue.cpp
@@ -32,6 +32,7 @@ TaskQueue::TaskQueue()
         }
       }
     } catch (...) {
+      auto lock = std::unique_lock(thunks_mutex);
       thrown = std::current_exception();
     }
   })
@@ -66,8 +67,13 @@ auto TaskQueue::pop() -> void
 
 auto TaskQueue::rethrow() const -> void
 {
-  if (thrown) {
-    std::rethrow_exception(thrown);
+  const auto exception = [this]() {
+    auto lock = std::unique_lock(thunks_mutex);
+    return thrown;
+  }();
+
+  if (exception) {
+    std::rethrow_exception(exception);
   }
 }
 }  // namespace concealer
-- 
2.43.0


From 765f41cfd38eb3c2e47927dc4ffead21179367a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 10/71] fix: count status monitors under their lock

---
 common/status_monitor/src/status_monitor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/status_monitor/src/status_monitor.cpp b/common/status_monitor/src/status_monitor.cpp
index fc8fc0c..2c4ea96 100644
--- a/common/status_monitor/src/status_monitor.cpp
+++ b/common/status_monitor/src/status_monitor.cpp
@@ -38,6 +38,8 @@ static std::size_t count = 0;
 
 StatusMonitor::StatusMonitor()
 {
+  auto lock = std::scoped_lock<std::mutex>(mutex);
+
   if (not count++) {
     statuses = {};
 
-- 
2.43.0


From aa861433fd023708e1b32ee72a95a3221ce2cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 11/71] fix: do not wait for the status watchdog while holding
 the lock it needs

---
 common/status_monitor/src/status_monitor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/status_monitor/src/status_monitor.cpp b/common/status_monitor/src/status_monitor.cpp
index 2c4ea96..e3bbbcc 100644
--- a/common/status_monitor/src/status_monitor.cpp
+++ b/common/status_monitor/src/status_monitor.cpp
@@ -61,7 +61,7 @@ StatusMonitor::StatusMonitor()
 
 StatusMonitor::~StatusMonitor()
 {
-  auto lock = std::scoped_lock<std::mutex>(mutex);
+  auto lock = std::unique_lock<std::mutex>(mutex);
 
   auto mark_as_exited = []() {
     if (auto iter = statuses.find(std::this_thread::get_id()); iter != std::end(statuses)) {
@@ -72,6 +72,8 @@ StatusMonitor::~StatusMonitor()
   mark_as_exited();
 
   if (not --count) {
+    lock.unlock();  // The watchdog may be waiting for it to write a last record.
+
     terminating.store(true, std::memory_order_release);
     watchdog.join();
     terminating.store(false, std::memory_order_release);
-- 
2.43.0


From 867d96cd886d30e6a776b234b29c03e9640db6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 12/71] fix: keep the program name alive as long as the status
 watchdog uses it

---
 common/status_monitor/src/status_monitor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/status_monitor/src/status_monitor.cpp b/common/status_monitor/src/status_monitor.cpp
index e3bbbcc..6f6566c 100644
--- a/common/status_monitor/src/status_monitor.cpp
+++ b/common/status_monitor/src/status_monitor.cpp
@@ -41,6 +41,8 @@ StatusMonitor::StatusMonitor()
   auto lock = std::scoped_lock<std::mutex>(mutex);
 
   if (not count++) {
+    name();  // The watchdog uses it until the end, so it must be destructed after this object.
+
     statuses = {};
 
     watchdog = std::thread([this]() {
-- 
2.43.0


From b890479804689d7c8212f1e6a00026e70b600c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 13/71] fix: keep waiting for an external command when a signal
 arrives

---
 .../openscenario_interpreter/src/posix/fork_exec.cpp         | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
index f45a27e..43d38a7 100644
--- a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
+++ b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
@@ -64,9 +64,8 @@ pid_t fork_exec(const std::vector<std::string> & f_xs)
         break;
 
       default:
-        do {
-          ::waitpid(pid, &status, WUNTRACED);
-        } while (!WIFEXITED(status) && !WIFSIGNALED(status));
+        while (::waitpid(pid, &status, 0) < 0 and errno == EINTR) {
+        }
     }
 
     return pid;
-- 
2.43.0


From e639e2dfe9311973afd7f90d72b526df23d99a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 14/71] fix: keep null characters in the captured output of a
 command

---
 external/concealer/src/execute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/concealer/src/execute.cpp b/external/concealer/src/execute.cpp
index b6a3c66..efcfe79 100644
--- a/external/concealer/src/execute.cpp
+++ b/external/concealer/src/execute.cpp
@@ -65,8 +65,8 @@ auto dollar(const std::string & command) -> std::string
   if (not pipe) {
     throw std::system_error(errno, std::system_category());
   } else {
-    while (std::fgets(buffer.data(), buffer.size(), pipe.get())) {
-      result += buffer.data();
+    while (const auto size = std::fread(buffer.data(), 1, buffer.size(), pipe.get())) {
+      result.append(buffer.data(), size);
     }
     return result;
   }
-- 
2.43.0


From 86120f25cec9632236be5172719175d4beba77e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 15/71] Revert "fix: report the number of test cases instead of
 suites in the total of a test report"

This reverts commit bc3b1367233c2dffd1cd4620bf0d2fc2e5e7b301.
---
 common/simple_junit/src/test_suites.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/simple_junit/src/test_suites.cpp b/common/simple_junit/src/test_suites.cpp
index 0faea20..07a8cff 100644
--- a/common/simple_junit/src/test_suites.cpp
+++ b/common/simple_junit/src/test_suites.cpp
@@ -37,9 +37,7 @@ void TestSuites::write(const std::filesystem::path & destination)
   node.append_attribute("timestamp") = timestamp_.c_str();
 
   document.child("testsuites").append_attribute("time") = getTotalTime();
-  document.child("testsuites").append_attribute("tests") = std::accumulate(
-    std::cbegin(test_suites_), std::cend(test_suites_), std::size_t(0),
-    [](const auto sum, const auto & each_suite) { return sum + std::get<1>(each_suite).size(); });
+  document.child("testsuites").append_attribute("tests") = test_suites_.size();
 
   for (const auto & each : test_suites_) {
     const auto & suite_name = std::get<0>(each);
-- 
2.43.0


From bd3f7752eabe92bc5549d202823396d4ad251d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 16/71] Revert "fix: keep fractions of a second in the total
 time of test suites"

This reverts commit 31bffcfb206c990a35e9bb22fc469bbe7d2a5367.
---
 common/simple_junit/include/simple_junit/test_suites.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/simple_junit/include/simple_junit/test_suites.hpp b/common/simple_junit/include/simple_junit/test_suites.hpp
index 29640c2..a60b93c 100644
--- a/common/simple_junit/include/simple_junit/test_suites.hpp
+++ b/common/simple_junit/include/simple_junit/test_suites.hpp
@@ -50,7 +50,7 @@ public:
   auto getTotalTime() const
   {
     return std::accumulate(
-      std::cbegin(test_suites_), std::cend(test_suites_), 0.0,
+      std::cbegin(test_suites_), std::cend(test_suites_), 0,
       [](const auto sum, const auto & each_suite) {
         const auto & each_cases = std::get<1>(each_suite);
 
-- 
2.43.0


From 6eef8ff39ab1745ce07e73dddce7878d71fb5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 17/71] fix: do not lose or distort solutions of cubic
 equations close to a triple root

---
 common/math/geometry/src/solver/polynomial_solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/src/solver/polynomial_solver.cpp b/common/math/geometry/src/solver/polynomial_solver.cpp
index 17eddcc..5604f4a 100644
--- a/common/math/geometry/src/solver/polynomial_solver.cpp
+++ b/common/math/geometry/src/solver/polynomial_solver.cpp
@@ -189,7 +189,9 @@ auto PolynomialSolver::solveMonicCubicEquationWithComplex(
     // clang-format off
     [this, a](const auto q, const auto r) -> std::vector<std::complex<double>> {
     // clang-format on
-    if (const double q3 = q * q * q; r * r <= (q3 + tolerance)) {
+    /// @note The tolerance must not exceed the size of the coefficients, otherwise solutions that are
+    /// close to each other are taken for a multiple solution, which they are not.
+    if (const double q3 = q * q * q; 0 < q3 && r * r <= q3 + tolerance * std::min(1.0, q3)) {
       /**
        * @note If 3 real solutions are found.
        * The URL specified in @sa is a reference material for developers who wish to follow the formulas,
-- 
2.43.0


From 238f1c9fc4bcf0dbbb109ee9bb50a647291c371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 18/71] fix: know the length of the only segment of a curve of
 two points

---
 common/math/geometry/src/spline/catmull_rom_spline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/math/geometry/src/spline/catmull_rom_spline.cpp b/common/math/geometry/src/spline/catmull_rom_spline.cpp
index 5006b35..b55cfac 100644
--- a/common/math/geometry/src/spline/catmull_rom_spline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_spline.cpp
@@ -206,6 +206,7 @@ CatmullRomSpline::CatmullRomSpline(
     /// @note In this case, spline is interpreted as line segment.
     case 2:
       total_length_ = line_segments_[0].length;
+      length_list_.emplace_back(total_length_);
       break;
     /// @note In this case, spline is interpreted as curve.
     default:
-- 
2.43.0


From edfb4c7cb2144b61e48e01f98a67e0a0a69906c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 19/71] fix: find the collision of a curve of two points with a
 segment

---
 common/math/geometry/src/spline/catmull_rom_spline.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/math/geometry/src/spline/catmull_rom_spline.cpp b/common/math/geometry/src/spline/catmull_rom_spline.cpp
index b55cfac..bde1b2c 100644
--- a/common/math/geometry/src/spline/catmull_rom_spline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_spline.cpp
@@ -467,6 +467,10 @@ auto CatmullRomSpline::getCollisionPointIn2D(
   const bool search_backward) const -> std::optional<double>
 {
   std::size_t n = curves_.size();
+  if (n == 0) {
+    /// @note A point or a single line segment, there are no curves to search.
+    return getCollisionPointIn2D({point0, point1}, search_backward);
+  }
   if (search_backward) {
     for (std::size_t i = 0; i < n; i++) {
       auto s = curves_[n - 1 - i].getCollisionPointIn2D(point0, point1, search_backward, true);
-- 
2.43.0


From e48b850105434d5d0132375ca11a1c7800aa4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 20/71] fix: do not restrict the altitude of a part of a curve
 without control points

---
 common/math/geometry/src/spline/catmull_rom_subspline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/src/spline/catmull_rom_subspline.cpp b/common/math/geometry/src/spline/catmull_rom_subspline.cpp
index fcb412b..27ee0dd 100644
--- a/common/math/geometry/src/spline/catmull_rom_subspline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_subspline.cpp
@@ -54,10 +54,10 @@ std::pair<double, double> CatmullRomSubspline::getAltitudeRange() const
     }
 
     return {
-      min_altitude.value_or(std::numeric_limits<double>::min()),
+      min_altitude.value_or(std::numeric_limits<double>::lowest()),
       max_altitude.value_or(std::numeric_limits<double>::max())};
   } else {
-    return {std::numeric_limits<double>::min(), std::numeric_limits<double>::max()};
+    return {std::numeric_limits<double>::lowest(), std::numeric_limits<double>::max()};
   }
 }
 
-- 
2.43.0


From c6fd2bc142b7b910b4b3d626f275c516acf93d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 21/71] fix: do not lose the intersection of two line segments
 by rounding

---
 common/math/geometry/src/polygon/line_segment.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index 791fb8f..55f8cfa 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
 #include <cmath>
 #include <geometry/intersection/intersection.hpp>
 #include <geometry/polygon/line_segment.hpp>
@@ -193,7 +194,11 @@ auto LineSegment::get2DIntersectionSValue(const LineSegment & line, const bool d
   -> std::optional<double>
 {
   if (const auto point = getIntersection2D(line); point.has_value()) {
-    return get2DIntersectionSValue(point.value(), denormalize_s);
+    /// @note The intersection is already confirmed. Do not test the rounded point against this line segment again.
+    const double proportion_2d = std::min(
+      std::hypot(point->x - start_point.x, point->y - start_point.y) / length_2d, 1.0);
+    return denormalize_s ? std::make_optional(proportion_2d * length)
+                         : std::make_optional(proportion_2d);
   } else {
     return std::nullopt;
   }
-- 
2.43.0


From 4b75a2f46a9d2b95187a67baba49f1cabc0685a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 22/71] fix: judge collisions of curves with segments along the
 longer axis of the segment

---
 .../geometry/src/spline/hermite_curve.cpp     | 27 +++++++------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/common/math/geometry/src/spline/hermite_curve.cpp b/common/math/geometry/src/spline/hermite_curve.cpp
index 06ff944..5f92ac8 100644
--- a/common/math/geometry/src/spline/hermite_curve.cpp
+++ b/common/math/geometry/src/spline/hermite_curve.cpp
@@ -158,23 +158,16 @@ std::set<double> HermiteCurve::getCollisionPointsIn2D(
   };
 
   for (const auto solution : get_solutions()) {
-    constexpr double epsilon = std::numeric_limits<double>::epsilon();
-    double x = solver_.cubic(ax_, bx_, cx_, dx_, solution);
-    double tx = (x - point0.x) / (point1.x - point0.x);
-    double y = solver_.cubic(ay_, by_, cy_, dy_, solution);
-    double ty = (y - point0.y) / (point1.y - point0.y);
-    if (std::abs(tx - ty) > epsilon || std::isnan(tx) || std::isnan(ty)) {
-      /**
-       * @note If the curve and the line segment to be intersected are parallel to either of the x/y axes, one of the two parameters, 
-       * tx, ty, will be in the range [0, 1] while the other will be out of that range because of division by zero.
-       */
-      if ((0 <= tx && tx <= 1) || (0 <= ty && ty <= 1)) {
-        s_values.insert(denormalize(solution));
-      }
-    } else {
-      if ((0 <= tx && tx <= 1) && (0 <= ty && ty <= 1)) {
-        s_values.insert(denormalize(solution));
-      }
+    /**
+     * @note The solution is on the line through the two points. Its position between them is the ratio along the axis 
+     * with the longer extent, because the ratio along the other axis is imprecise or even a division by zero.
+     */
+    const double t =
+      std::abs(ex) >= std::abs(ey)
+        ? (solver_.cubic(ax_, bx_, cx_, dx_, solution) - point0.x) / ex
+        : (solver_.cubic(ay_, by_, cy_, dy_, solution) - point0.y) / ey;
+    if (0 <= t && t <= 1) {
+      s_values.insert(denormalize(solution));
     }
   }
   return s_values;
-- 
2.43.0


From 6b88c417fa14b8992163ba55bd2dcaed98322661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 23/71] fix: do not step over the end of a curve by rounding
 when computing its bounds

---
 common/math/geometry/src/spline/catmull_rom_spline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/src/spline/catmull_rom_spline.cpp b/common/math/geometry/src/spline/catmull_rom_spline.cpp
index bde1b2c..d03fbf6 100644
--- a/common/math/geometry/src/spline/catmull_rom_spline.cpp
+++ b/common/math/geometry/src/spline/catmull_rom_spline.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
 #include <geometry/spline/catmull_rom_spline.hpp>
 #include <iostream>
 #include <limits>
@@ -58,7 +59,7 @@ auto CatmullRomSpline::getRightBounds(
   std::vector<geometry_msgs::msg::Point> points;
   double step_size = getLength() / static_cast<double>(num_points);
   for (std::size_t i = 0; i < num_points + 1; i++) {
-    double s = step_size * static_cast<double>(i);
+    double s = std::min(step_size * static_cast<double>(i), getLength());
     points.emplace_back(
       [this](const double local_width, const double local_s, const double local_z_offset) {
         geometry_msgs::msg::Vector3 vec = getNormalVector(local_s);
@@ -81,7 +82,7 @@ auto CatmullRomSpline::getLeftBounds(
   std::vector<geometry_msgs::msg::Point> points;
   double step_size = getLength() / static_cast<double>(num_points);
   for (std::size_t i = 0; i < num_points + 1; i++) {
-    double s = step_size * static_cast<double>(i);
+    double s = std::min(step_size * static_cast<double>(i), getLength());
     points.emplace_back(
       [this](const double local_width, const double local_s, const double local_z_offset) {
         geometry_msgs::msg::Vector3 vec = getNormalVector(local_s);
-- 
2.43.0


From 0a3dcafefdc1d09fc91aa6f1913c5d815dd6eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 24/71] fix: interpolate rotations the shorter way round

---
 .../math/geometry/include/geometry/quaternion/slerp.hpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/math/geometry/include/geometry/quaternion/slerp.hpp b/common/math/geometry/include/geometry/quaternion/slerp.hpp
index 1207de2..80b147e 100644
--- a/common/math/geometry/include/geometry/quaternion/slerp.hpp
+++ b/common/math/geometry/include/geometry/quaternion/slerp.hpp
@@ -30,6 +30,14 @@ template <
 auto slerp(T quat1, U quat2, V t)
 {
   double qr = quat1.w * quat2.w + quat1.x * quat2.x + quat1.y * quat2.y + quat1.z * quat2.z;
+  /// @note Both a quaternion and its negation are the same rotation. Take the one with the shorter way.
+  if (qr < 0) {
+    quat2.x = -quat2.x;
+    quat2.y = -quat2.y;
+    quat2.z = -quat2.z;
+    quat2.w = -quat2.w;
+    qr = -qr;
+  }
   double ss = 1.0 - qr * qr;
   constexpr double e = std::numeric_limits<double>::epsilon();
   if (std::fabs(ss) <= e) {
-- 
2.43.0


From fc87c9d956d8c2aa9ed09582be052225beae9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 25/71] fix: do not interpolate rotations to NaN if the product
 exceeds one by rounding

---
 common/math/geometry/include/geometry/quaternion/slerp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/include/geometry/quaternion/slerp.hpp b/common/math/geometry/include/geometry/quaternion/slerp.hpp
index 80b147e..3b338f4 100644
--- a/common/math/geometry/include/geometry/quaternion/slerp.hpp
+++ b/common/math/geometry/include/geometry/quaternion/slerp.hpp
@@ -40,7 +40,7 @@ auto slerp(T quat1, U quat2, V t)
   }
   double ss = 1.0 - qr * qr;
   constexpr double e = std::numeric_limits<double>::epsilon();
-  if (std::fabs(ss) <= e) {
+  if (ss <= e) {
     return geometry_msgs::build<geometry_msgs::msg::Quaternion>()
       .x(quat1.x)
       .y(quat1.y)
-- 
2.43.0


From 6da84ffc16e70b6b63c1e859f538897048d36489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 26/71] fix: tolerate rounding when computing the angle between
 parallel vectors

---
 .../geometry/include/geometry/vector3/internal_angle.hpp   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/include/geometry/vector3/internal_angle.hpp b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
index 30168a2..30e1d7c 100644
--- a/common/math/geometry/include/geometry/vector3/internal_angle.hpp
+++ b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
@@ -15,6 +15,8 @@
 #ifndef GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 #define GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 
+#include <algorithm>
+#include <cmath>
 #include <geometry/vector3/inner_product.hpp>
 #include <geometry/vector3/is_like_vector3.hpp>
 #include <geometry/vector3/norm.hpp>
@@ -31,8 +33,9 @@ template <
 auto getInternalAngle(const T & v0, const U & v1)
 {
   const auto val = innerProduct(v0, v1) / (norm(v0) * norm(v1));
-  if (-1 <= val && val <= 1) {
-    return std::acos(val);
+  if (not std::isnan(val)) {
+    /// @note The value can exceed the range by rounding if the vectors are parallel.
+    return std::acos(std::clamp(val, -1.0, 1.0));
   }
   THROW_SIMULATION_ERROR(
     "value of v0*v1/(size(v0)*size(v1)) in vector v0 : ", v0.x, ",", v0.y, ",", v0.z,
-- 
2.43.0


From 7b75bb1359a3a93721d65ece5962a147e2acb2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 27/71] fix: compute the slope of line segments in the negative
 direction of the axis

---
 common/math/geometry/src/polygon/line_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index 55f8cfa..b3f52a0 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -230,7 +230,7 @@ auto LineSegment::getNormalVector() const -> geometry_msgs::msg::Vector3
 
 auto LineSegment::get2DVectorSlope() const -> double
 {
-  if (vector_2d.x <= std::numeric_limits<double>::epsilon()) {
+  if (std::abs(vector_2d.x) <= std::numeric_limits<double>::epsilon()) {
     THROW_SIMULATION_ERROR("Slope of a vertical line is undefined");
   } else {
     return vector_2d.y / vector_2d.x;
-- 
2.43.0


From dd77d460589441ff0b1c0de35462206efaf5b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 28/71] fix: carry the control time and is_defined flags of
 control messages over the wire

---
 simulation/simulation_interface/src/conversions.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/simulation/simulation_interface/src/conversions.cpp b/simulation/simulation_interface/src/conversions.cpp
index 5d006d3..fd1f13d 100644
--- a/simulation/simulation_interface/src/conversions.cpp
+++ b/simulation/simulation_interface/src/conversions.cpp
@@ -493,16 +493,21 @@ void toProto(
   const autoware_control_msgs::msg::Lateral & message, autoware_control_msgs::Lateral & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_steering_tire_angle(message.steering_tire_angle);
   proto.set_steering_tire_rotation_rate(message.steering_tire_rotation_rate);
+  proto.set_is_defined_steering_tire_rotation_rate(
+    message.is_defined_steering_tire_rotation_rate);
 }
 
 void toMsg(
   const autoware_control_msgs::Lateral & proto, autoware_control_msgs::msg::Lateral & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.steering_tire_angle = proto.steering_tire_angle();
   message.steering_tire_rotation_rate = proto.steering_tire_rotation_rate();
+  message.is_defined_steering_tire_rotation_rate = proto.is_defined_steering_tire_rotation_rate();
 }
 
 void toProto(
@@ -510,9 +515,12 @@ void toProto(
   autoware_control_msgs::Longitudinal & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_velocity(message.velocity);
   proto.set_acceleration(message.acceleration);
   proto.set_jerk(message.jerk);
+  proto.set_is_defined_acceleration(message.is_defined_acceleration);
+  proto.set_is_defined_jerk(message.is_defined_jerk);
 }
 
 void toMsg(
@@ -520,15 +528,19 @@ void toMsg(
   autoware_control_msgs::msg::Longitudinal & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.velocity = proto.velocity();
   message.acceleration = proto.acceleration();
   message.jerk = proto.jerk();
+  message.is_defined_acceleration = proto.is_defined_acceleration();
+  message.is_defined_jerk = proto.is_defined_jerk();
 }
 
 void toProto(
   const autoware_control_msgs::msg::Control & message, autoware_control_msgs::Control & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   toProto(message.lateral, *proto.mutable_lateral());
   toProto(message.longitudinal, *proto.mutable_longitudinal());
 }
@@ -537,6 +549,7 @@ void toMsg(
   const autoware_control_msgs::Control & proto, autoware_control_msgs::msg::Control & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   toMsg(proto.lateral(), message.lateral);
   toMsg(proto.longitudinal(), message.longitudinal);
 }
-- 
2.43.0


From a2518edfbcbf85b30bb1f44c54eea3056b4057db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 29/71] fix: refuse gear commands that have no counterpart in
 the other representation

---
 simulation/simulation_interface/src/conversions.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simulation/simulation_interface/src/conversions.cpp b/simulation/simulation_interface/src/conversions.cpp
index fd1f13d..172dc01 100644
--- a/simulation/simulation_interface/src/conversions.cpp
+++ b/simulation/simulation_interface/src/conversions.cpp
@@ -591,6 +591,9 @@ auto toProto(
     CASE(PARK);
     CASE(LOW);
     CASE(LOW_2);
+    default:
+      THROW_SIMULATION_ERROR(
+        "command of the GearCommand is invalid!\ncommand is " + std::to_string(message.command));
   }
 }
 
@@ -599,6 +602,10 @@ auto toMsg(
   autoware_vehicle_msgs::msg::GearCommand & message) -> void
 {
   toMsg(proto.stamp(), message.stamp);
+  if (not autoware_vehicle_msgs::GearCommand_Constants_IsValid(proto.command())) {
+    THROW_SIMULATION_ERROR(
+      "command of the GearCommand is invalid!\ncommand is " + std::to_string(proto.command()));
+  }
   message.command = proto.command();
 }
 
-- 
2.43.0


From 458ff6b32e27d389f08c73cc99cbac0a5aa1a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 30/71] fix: initialize the value of a trigger and of a
 condition group

Copying or publishing a trigger that has not been evaluated yet read an
indeterminate bool.
---
 .../include/openscenario_interpreter/syntax/condition_group.hpp | 2 +-
 .../include/openscenario_interpreter/syntax/trigger.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
index 8acc2f1..84d4653 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
@@ -39,7 +39,7 @@ inline namespace syntax
  * -------------------------------------------------------------------------- */
 struct ConditionGroup : public std::list<Condition>
 {
-  bool current_value;
+  bool current_value = false;
 
   // NOTE: Default constructed ConditionGroup must be return TRUE.
   ConditionGroup() = default;
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
index 3f7418d..d6c61a1 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
@@ -35,7 +35,7 @@ inline namespace syntax
  * -------------------------------------------------------------------------- */
 struct Trigger : public std::list<ConditionGroup>
 {
-  bool current_value;
+  bool current_value = false;
 
   // NOTE: Default constructed Trigger must be return FALSE.
   Trigger() = default;
-- 
2.43.0


From 8afa5e6d31984e46451fde7b649b4623375174c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 31/71] fix: initialize the results of simulation time and
 traffic signal controller conditions

---
 .../syntax/simulation_time_condition.hpp                        | 2 +-
 .../syntax/traffic_signal_controller_condition.hpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/simulation_time_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/simulation_time_condition.hpp
index 11a919f..71eef17 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/simulation_time_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/simulation_time_condition.hpp
@@ -41,7 +41,7 @@ struct SimulationTimeCondition : private SimulatorCore::ConditionEvaluation
 
   explicit SimulationTimeCondition(const pugi::xml_node &, Scope &);
 
-  Double result;
+  Double result = Double::nan();
 
   auto description() const -> String;
 
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller_condition.hpp
index d78cf41..4c8df85 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/traffic_signal_controller_condition.hpp
@@ -45,7 +45,7 @@ struct TrafficSignalControllerCondition
 
   String current_phase_name;
 
-  Double current_phase_since;
+  Double current_phase_since = Double::nan();
 
   Scope scope;
 
-- 
2.43.0


From 55cb3353821a8c1630fe8db5ea288016055dba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 32/71] fix: interrupt storyboard elements only while they are
 running

---
 .../openscenario_interpreter/syntax/storyboard_element.hpp    | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 060506e..112d724 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -88,9 +88,7 @@ public:
 
   auto override()
   {
-    if (
-      not is<StoryboardElementState::standbyState>() and
-      not is<StoryboardElementState::stopTransition>()) {
+    if (is<StoryboardElementState::runningState>()) {
       transitionTo(stop_transition);
     }
     return current_state;
-- 
2.43.0


From cccc444b6a7fd0ec32158fe2cd408be6c8ecea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 33/71] fix: stop the children of a stopped storyboard element
 even if they are in standby

---
 .../openscenario_interpreter/syntax/storyboard_element.hpp  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 112d724..4c107cf 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -118,7 +118,11 @@ private:
   {
     for (auto && element : elements) {
       assert(element.is_also<StoryboardElement>());
-      element.as<StoryboardElement>().override();
+      if (auto & child = element.as<StoryboardElement>();
+          not child.is<StoryboardElementState::completeState>() and
+          not child.is<StoryboardElementState::stopTransition>()) {
+        child.transitionTo(stop_transition);
+      }
       element.evaluate();
     }
   }
-- 
2.43.0


From bcef6417b34583e8b3fd4e6bae27f28df86f55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 34/71] fix: forget the deferred registrations of a storyboard
 that could not be built

---
 .../openscenario_interpreter/src/syntax/storyboard.cpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/storyboard.cpp b/openscenario/openscenario_interpreter/src/syntax/storyboard.cpp
index 902f901..43f04f9 100644
--- a/openscenario/openscenario_interpreter/src/syntax/storyboard.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/storyboard.cpp
@@ -28,7 +28,7 @@ namespace openscenario_interpreter
 inline namespace syntax
 {
 Storyboard::Storyboard(const pugi::xml_node & node, Scope & scope)
-: Scope("Storyboard", scope),  // FIXME DIRTY HACK
+try : Scope("Storyboard", scope),  // FIXME DIRTY HACK
   StoryboardElement(readElement<Trigger>("StopTrigger", node, local())),
   init(readElement<Init>("Init", node, local()))
 {
@@ -41,6 +41,10 @@ Storyboard::Storyboard(const pugi::xml_node & node, Scope & scope)
     std::invoke(thunks.front());
     thunks.pop();
   }
+} catch (...) {
+  // NOTE: The remaining thunks refer to elements that are destroyed together with this storyboard.
+  thunks = {};
+  throw;
 }
 
 auto Storyboard::run() -> void
-- 
2.43.0


From baf718443d950732cf3416ad104b0d6b2741d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 35/71] fix: leave the child of a failed exec without running
 the exit handlers of its parent

---
 openscenario/openscenario_interpreter/src/posix/fork_exec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
index 43d38a7..329046b 100644
--- a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
+++ b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
@@ -59,7 +59,7 @@ pid_t fork_exec(const std::vector<std::string> & f_xs)
       case 0:
         if (execvp(f_xs) < 0) {
           std::cerr << std::system_error(errno, std::system_category()).what() << std::endl;
-          std::exit(EXIT_FAILURE);
+          std::_Exit(EXIT_FAILURE);
         }
         break;
 
-- 
2.43.0


From 19f19c972d00a9f5b5732843ddcd4dcd1bd84a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 36/71] fix: do not read before the start of an empty name
 reference

---
 .../include/openscenario_interpreter/name.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
index 299f613..5a73456 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
@@ -57,7 +57,7 @@ struct Prefixed  // NOTE: 1.4.5. Naming conventions for OpenSCENARIO references
   }
 
   explicit Prefixed(const std::vector<std::string> given)
-  : absolute(not given.empty() and given.front().empty()),
+  : absolute(1 < given.size() and given.front().empty()),
     prefixes(
       absolute ? std::next(std::begin(given)) : std::begin(given), std::prev(std::end(given))),
     name(given.back())
-- 
2.43.0


From eaca7688d42ee6c5d5e0b1178f7069b8d0041570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 37/71] fix: resolve a qualified name in the scopes it spells
 only

---
 .../openscenario_interpreter/scope.hpp        | 18 +++++++--
 .../openscenario_interpreter/src/scope.cpp    | 37 ++++++++++---------
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/scope.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/scope.hpp
index ea43afa..8619762 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/scope.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/scope.hpp
@@ -70,7 +70,7 @@ public:
   auto define(const Name &, const Object &) -> void;
 
   template <typename T>
-  auto find(const Name & name) const -> Object
+  auto findLocal(const Name & name) const -> Object
   {
     // NOTE: breadth first search
     for (std::vector<const EnvironmentFrame *> frames{this}; not frames.empty();) {
@@ -104,7 +104,17 @@ public:
       }
     }
 
-    return isOutermost() ? throw NoSuchVariableNamed<T>(name) : outer_frame->find<T>(name);
+    return Object();
+  }
+
+  template <typename T>
+  auto find(const Name & name) const -> Object
+  {
+    if (auto found = findLocal<T>(name); found) {
+      return found;
+    } else {
+      return isOutermost() ? throw NoSuchVariableNamed<T>(name) : outer_frame->find<T>(name);
+    }
   }
 
   template <typename T>
@@ -120,8 +130,10 @@ public:
         default:
           throw AmbiguousReferenceTo<T>(boost::lexical_cast<std::string>(prefixed_name));
       }
+    } else if (auto found = findLocal<T>(prefixed_name.name); found) {
+      return found;
     } else {
-      return find<T>(prefixed_name.name);
+      throw NoSuchVariableNamed<T>(boost::lexical_cast<std::string>(prefixed_name));
     }
   }
 
diff --git a/openscenario/openscenario_interpreter/src/scope.cpp b/openscenario/openscenario_interpreter/src/scope.cpp
index 9aa255b..06b088d 100644
--- a/openscenario/openscenario_interpreter/src/scope.cpp
+++ b/openscenario/openscenario_interpreter/src/scope.cpp
@@ -45,15 +45,19 @@ auto EnvironmentFrame::resolvePrefix(const Prefixed<Name> & prefixed_name) const
 {
   std::list<const EnvironmentFrame *> result;
 
-  const auto it = inner_frames.equal_range(prefixed_name.prefixes.front());
-  std::for_each(
-    it.first, it.second, [&](auto && name_and_frame) { result.push_back(name_and_frame.second); });
-
-  if (result.empty()) {
-    // BUG: must be breadth first search
-    for (auto & child : unnamed_inner_frames) {
-      result.merge(child->resolvePrefix(prefixed_name));
+  // NOTE: breadth first search
+  for (std::vector<const EnvironmentFrame *> frames{this}; result.empty() and not frames.empty();) {
+    std::vector<const EnvironmentFrame *> unnamed_frames;
+    for (auto && frame : frames) {
+      const auto it = frame->inner_frames.equal_range(prefixed_name.prefixes.front());
+      std::for_each(it.first, it.second, [&](auto && name_and_frame) {
+        result.push_back(name_and_frame.second);
+      });
+      std::copy(
+        frame->unnamed_inner_frames.begin(), frame->unnamed_inner_frames.end(),
+        std::back_inserter(unnamed_frames));
     }
+    frames = std::move(unnamed_frames);
   }
 
   return result;
@@ -69,23 +73,22 @@ auto EnvironmentFrame::lookupFrame(const Prefixed<Name> & prefixed_name) const
 {
   assert(not prefixed_name.prefixes.empty());
 
-  if (isOutermost()) {
-    return this;
-  } else {
-    auto sibling_scope = outer_frame->resolvePrefix(prefixed_name);
-    switch (sibling_scope.size()) {
+  for (auto frame = this; frame; frame = frame->outer_frame) {
+    switch (const auto found = frame->resolvePrefix(prefixed_name); found.size()) {
       case 0:
-        assert(outer_frame);
-        return outer_frame->lookupFrame(prefixed_name);
+        break;
       case 1:
-        assert(sibling_scope.front());
-        return sibling_scope.front();
+        return found.front();
       default:
         throw SyntaxError(
           "There are multiple StoryboardElements that can be referenced by the name ",
           std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
     }
   }
+
+  throw SyntaxError(
+    "No such StoryboardElement that can be referenced by the name ",
+    std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
 }
 
 Scope::Scope(const OpenScenario * const open_scenario)
-- 
2.43.0


From 5ec16a0031e6c862aff21953ca7e9de8e070ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 38/71] fix: refuse an empty expression

---
 openscenario/openscenario_interpreter/src/evaluate.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index b9f8ea6..870bd69 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -236,9 +236,7 @@ std::string evaluate(const std::string & expression, const Scope & scope)
   auto first = expression.begin();
   auto last = expression.end();
 
-  qi::phrase_parse(first, last, parser, ascii::space, output);
-
-  if (first != last) {
+  if (not qi::phrase_parse(first, last, parser, ascii::space, output) or first != last) {
     THROW_SYNTAX_ERROR("Failed to parse ", std::quoted(expression));
   }
 
-- 
2.43.0


From 2a86d537b3bada0efbbb920b466435ce32a1505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 39/71] fix: give the square root in an expression as a real
 number

---
 openscenario/openscenario_interpreter/src/evaluate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index 870bd69..ff78272 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -118,7 +118,7 @@ struct Value
   DEFINE_UNARY(round, [](double v) { return static_cast<int>(std::round(v)); }, double, int)
   DEFINE_UNARY(floor, [](double v) { return static_cast<int>(std::floor(v)); }, double, int)
   DEFINE_UNARY(ceil,  [](double v) { return static_cast<int>(std::ceil(v)); },  double, int)
-  DEFINE_UNARY(sqrt,  [](double v) { return static_cast<int>(std::sqrt(v)); },  double, int)
+  DEFINE_UNARY(sqrt,  [](double v) { return std::sqrt(v); }, double, double)
   // clang-format on
   DEFINE_UNARY(operator-, -, Numeric, Numeric)
   DEFINE_UNARY(operator!, !, bool, bool)
-- 
2.43.0


From b64586d6e81c38bc4e953067972d89c900aabaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 40/71] fix: keep the precision of real numbers in expressions

---
 openscenario/openscenario_interpreter/src/evaluate.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index ff78272..8438c81 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -15,10 +15,13 @@
 #include <boost/spirit/include/phoenix.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <functional>
+#include <iomanip>
+#include <limits>
 #include <openscenario_interpreter/reader/evaluate.hpp>
 #include <openscenario_interpreter/scope.hpp>
 #include <openscenario_interpreter/syntax/parameter_type.hpp>
 #include <openscenario_interpreter/utility/overload.hpp>
+#include <sstream>
 #include <variant>
 
 namespace openscenario_interpreter
@@ -243,6 +246,11 @@ std::string evaluate(const std::string & expression, const Scope & scope)
   return visit(
     overload(
       [](bool v) -> std::string { return v ? "true" : "false"; },
+      [](double v) -> std::string {
+        std::stringstream ss;
+        ss << std::showpoint << std::setprecision(std::numeric_limits<double>::max_digits10) << v;
+        return ss.str();
+      },
       [](auto v) -> std::string { return std::to_string(v); }),
     output.data);
 }
-- 
2.43.0


From 752c7a9d5ced3b8cbc55901ca2c029358a8955f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 41/71] fix: refuse booleans as numbers in divisions, powers
 and functions of expressions

---
 openscenario/openscenario_interpreter/src/evaluate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index 8438c81..cebafcf 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -150,6 +150,7 @@ struct Value
 template <typename T>
 auto Value::cast() const -> Value
 {
+  if (same_as<bool>()) throw std::runtime_error{"boolean cannot convert to numeric."};
   if (same_as<double>() and std::is_integral<T>::value)
     throw std::runtime_error{"double cannot convert to integer implicitly."};
   return Value{visit([](auto v) { return static_cast<T>(v); }, data)};
-- 
2.43.0


From 1ec6aa28d5b917e8e52768706f17d02e9cce79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 42/71] fix: report overflow and results without a value in
 expressions

---
 .../openscenario_interpreter/src/evaluate.cpp | 69 ++++++++++++++++---
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index cebafcf..1824047 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -91,7 +91,17 @@ struct Value
       F && f, const std::array<Value, sizeof...(Args)> & args, std::index_sequence<I...>)
     {
       return visit(
-        [&f](auto &&... v) { return Value{f(std::forward<decltype(v)>(v)...)}; },
+        [&f](auto &&... v) {
+          auto result = f(v...);
+          if constexpr (std::is_floating_point_v<decltype(result)>) {
+            if (
+              std::isnan(result) or
+              (std::isinf(result) and (std::isfinite(static_cast<double>(v)) and ...))) {
+              throw std::runtime_error{"the result of the expression is not a finite number."};
+            }
+          }
+          return Value{result};
+        },
         get_arg<I>(args)...);
     }
 
@@ -117,18 +127,61 @@ struct Value
       [](auto l, auto r) { return FUNC(l, r); }, {lhs, rhs}); \
   }
 
+  static auto to_int(double v) -> int
+  {
+    if (std::numeric_limits<int>::min() <= v and v <= std::numeric_limits<int>::max()) {
+      return static_cast<int>(v);
+    } else {
+      throw std::runtime_error{"double is out of range of integer."};
+    }
+  }
+
+#define DEFINE_CHECKED_OPERATION(NAME, OPERATOR, BUILTIN)                   \
+  struct NAME                                                               \
+  {                                                                         \
+    template <typename T, typename U>                                       \
+    auto operator()(T l, U r) const                                         \
+    {                                                                       \
+      if constexpr (decltype(l OPERATOR r) result{};                        \
+                    std::is_integral_v<decltype(l OPERATOR r)>) {           \
+        if (BUILTIN(+l, +r, &result)) {                                     \
+          throw std::runtime_error{"integer overflow in the expression."};  \
+        }                                                                   \
+        return result;                                                      \
+      } else {                                                              \
+        return l OPERATOR r;                                                \
+      }                                                                     \
+    }                                                                       \
+  }
+
+  DEFINE_CHECKED_OPERATION(Plus, +, __builtin_add_overflow);
+  DEFINE_CHECKED_OPERATION(Minus, -, __builtin_sub_overflow);
+  DEFINE_CHECKED_OPERATION(Multiplies, *, __builtin_mul_overflow);
+
+#undef DEFINE_CHECKED_OPERATION
+
+  template <typename T>
+  static auto negate(T v)
+  {
+    if constexpr (std::is_integral_v<T>) {
+      return Minus{}(T(), v);
+    } else {
+      return -v;
+    }
+  }
+
   // clang-format off
-  DEFINE_UNARY(round, [](double v) { return static_cast<int>(std::round(v)); }, double, int)
-  DEFINE_UNARY(floor, [](double v) { return static_cast<int>(std::floor(v)); }, double, int)
-  DEFINE_UNARY(ceil,  [](double v) { return static_cast<int>(std::ceil(v)); },  double, int)
+  DEFINE_UNARY(round, [](double v) { return to_int(std::round(v)); }, double, int)
+  DEFINE_UNARY(floor, [](double v) { return to_int(std::floor(v)); }, double, int)
+  DEFINE_UNARY(ceil,  [](double v) { return to_int(std::ceil(v)); },  double, int)
   DEFINE_UNARY(sqrt,  [](double v) { return std::sqrt(v); }, double, double)
   // clang-format on
-  DEFINE_UNARY(operator-, -, Numeric, Numeric)
+  DEFINE_UNARY(operator-, negate, Numeric, Numeric)
   DEFINE_UNARY(operator!, !, bool, bool)
 
-  DEFINE_BINARY(operator*, std::multiplies<void>{}, Numeric)
-  DEFINE_BINARY(operator+, std::plus<void>{}, Numeric)
-  DEFINE_BINARY(operator-, std::minus<void>{}, Numeric)
+  DEFINE_BINARY(operator*, Multiplies{}, Numeric)
+  DEFINE_BINARY(operator+, Plus{}, Numeric)
+  DEFINE_BINARY(operator-, Minus{}, Numeric)
   DEFINE_BINARY(operator%, std::fmod, Numeric)
   DEFINE_BINARY(operator/, std::divides<double>{}, double)
   DEFINE_BINARY(operator&&, std::logical_and<bool>{}, bool)
-- 
2.43.0


From fc02b9ad1a761ca099477b23c48396e4a28fbfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 43/71] fix: do not look at the last character of an empty
 command output

---
 openscenario/openscenario_interpreter/src/reader/attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/reader/attribute.cpp b/openscenario/openscenario_interpreter/src/reader/attribute.cpp
index 3e0dc85..3ece387 100644
--- a/openscenario/openscenario_interpreter/src/reader/attribute.cpp
+++ b/openscenario/openscenario_interpreter/src/reader/attribute.cpp
@@ -30,7 +30,7 @@ auto substitute(const std::string & attribute, const Scope & scope) -> String
 
   auto ros2 = [](auto && arguments, const auto &) {
     auto remove_trailing_newline = [](auto && s) {
-      while (s.back() == '\n') {
+      while (not s.empty() and s.back() == '\n') {
         s.pop_back();
       }
       return s;
-- 
2.43.0


From 1fe39ab0de6ea31a64f952adcc08be21b7fc28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 44/71] fix: modify parameters of integral types by the given
 real number, within their range

---
 .../utility/numeric_cast.hpp                  | 42 +++++++++++++++++++
 .../src/syntax/parameter_add_value_rule.cpp   | 12 ++++--
 .../parameter_multiply_by_value_rule.cpp      | 12 ++++--
 3 files changed, 60 insertions(+), 6 deletions(-)
 create mode 100644 openscenario/openscenario_interpreter/include/openscenario_interpreter/utility/numeric_cast.hpp

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/utility/numeric_cast.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/utility/numeric_cast.hpp
new file mode 100644
index 0000000..79d3855
--- /dev/null
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/utility/numeric_cast.hpp
@@ -0,0 +1,42 @@
+// Copyright 2015 TIER IV, Inc. All rights reserved.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#ifndef OPENSCENARIO_INTERPRETER__UTILITY__NUMERIC_CAST_HPP_
+#define OPENSCENARIO_INTERPRETER__UTILITY__NUMERIC_CAST_HPP_
+
+#include <cmath>
+#include <limits>
+#include <openscenario_interpreter/error.hpp>
+#include <openscenario_interpreter/utility/demangle.hpp>
+
+namespace openscenario_interpreter
+{
+inline namespace utility
+{
+// NOTE: long double represents every value of the 64 bits wide integral types exactly.
+template <typename T>
+auto numeric_cast(long double value) -> T
+{
+  if (const auto truncated = std::trunc(value);
+      static_cast<long double>(std::numeric_limits<T>::lowest()) <= truncated and
+      truncated <= static_cast<long double>(std::numeric_limits<T>::max())) {
+    return static_cast<T>(truncated);
+  } else {
+    throw SemanticError("The value ", value, " is out of range of type ", makeTypename(typeid(T)));
+  }
+}
+}  // namespace utility
+}  // namespace openscenario_interpreter
+
+#endif  // OPENSCENARIO_INTERPRETER__UTILITY__NUMERIC_CAST_HPP_
diff --git a/openscenario/openscenario_interpreter/src/syntax/parameter_add_value_rule.cpp b/openscenario/openscenario_interpreter/src/syntax/parameter_add_value_rule.cpp
index 3807a41..a47e1f5 100644
--- a/openscenario/openscenario_interpreter/src/syntax/parameter_add_value_rule.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/parameter_add_value_rule.cpp
@@ -14,6 +14,7 @@
 
 #include <openscenario_interpreter/reader/attribute.hpp>
 #include <openscenario_interpreter/syntax/parameter_add_value_rule.hpp>
+#include <openscenario_interpreter/utility/numeric_cast.hpp>
 #include <typeindex>
 #include <unordered_map>
 #include <utility>
@@ -34,7 +35,8 @@ auto ParameterAddValueRule::operator()(const Object & target) const -> Object
     overloads{
       {typeid(Integer),
        [](auto && target, auto && value) {
-         target.template as<Integer>() += value;
+         auto & parameter = target.template as<Integer>();
+         parameter = Integer(numeric_cast<Integer::value_type>(static_cast<long double>(parameter) + value));
          return target;
        }},
 
@@ -46,13 +48,17 @@ auto ParameterAddValueRule::operator()(const Object & target) const -> Object
 
       {typeid(UnsignedInteger),
        [](auto && target, auto && value) {
-         target.template as<UnsignedInteger>() += value;
+         auto & parameter = target.template as<UnsignedInteger>();
+         parameter =
+           UnsignedInteger(numeric_cast<UnsignedInteger::value_type>(static_cast<long double>(parameter) + value));
          return target;
        }},
 
       {typeid(UnsignedShort),
        [](auto && target, auto && value) {
-         target.template as<UnsignedShort>() += value;
+         auto & parameter = target.template as<UnsignedShort>();
+         parameter =
+           UnsignedShort(numeric_cast<UnsignedShort::value_type>(static_cast<long double>(parameter) + value));
          return target;
        }},
     };
diff --git a/openscenario/openscenario_interpreter/src/syntax/parameter_multiply_by_value_rule.cpp b/openscenario/openscenario_interpreter/src/syntax/parameter_multiply_by_value_rule.cpp
index 2a247c5..457c628 100644
--- a/openscenario/openscenario_interpreter/src/syntax/parameter_multiply_by_value_rule.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/parameter_multiply_by_value_rule.cpp
@@ -14,6 +14,7 @@
 
 #include <openscenario_interpreter/reader/attribute.hpp>
 #include <openscenario_interpreter/syntax/parameter_multiply_by_value_rule.hpp>
+#include <openscenario_interpreter/utility/numeric_cast.hpp>
 #include <typeindex>
 #include <unordered_map>
 #include <utility>
@@ -35,7 +36,8 @@ auto ParameterMultiplyByValueRule::operator()(const Object & target) const -> Ob
     overloads{
       {typeid(Integer),
        [](auto && target, auto && value) {
-         target.template as<Integer>() *= value;
+         auto & parameter = target.template as<Integer>();
+         parameter = Integer(numeric_cast<Integer::value_type>(static_cast<long double>(parameter) * value));
          return target;
        }},
 
@@ -47,13 +49,17 @@ auto ParameterMultiplyByValueRule::operator()(const Object & target) const -> Ob
 
       {typeid(UnsignedInteger),
        [](auto && target, auto && value) {
-         target.template as<UnsignedInteger>() *= value;
+         auto & parameter = target.template as<UnsignedInteger>();
+         parameter =
+           UnsignedInteger(numeric_cast<UnsignedInteger::value_type>(static_cast<long double>(parameter) * value));
          return target;
        }},
 
       {typeid(UnsignedShort),
        [](auto && target, auto && value) {
-         target.template as<UnsignedShort>() *= value;
+         auto & parameter = target.template as<UnsignedShort>();
+         parameter =
+           UnsignedShort(numeric_cast<UnsignedShort::value_type>(static_cast<long double>(parameter) * value));
          return target;
        }},
     };
-- 
2.43.0


From a5ff7e2cc8e920cc92dc429d47b05fe78dec7115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 45/71] fix: report parameters out of the range of the numbers
 in expressions

---
 .../openscenario_interpreter/src/evaluate.cpp       | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index 1824047..3007865 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -261,6 +261,15 @@ struct Grammar : qi::grammar<Iter, Value(), ascii::space_type>
     // clang-format on
   }
 
+  template <typename To, typename From>
+  static auto narrow(const std::string & key, const From & from) -> To
+  {
+    if (from < std::numeric_limits<To>::lowest() or std::numeric_limits<To>::max() < from) {
+      THROW_SYNTAX_ERROR(std::quoted(key), " = ", from, " is out of range in an expression");
+    }
+    return static_cast<To>(from);
+  }
+
   static auto toValue(const std::string & key, const Scope & scope) -> Value
   {
     auto found = scope.ref(key);
@@ -269,9 +278,9 @@ struct Grammar : qi::grammar<Iter, Value(), ascii::space_type>
     }
 
     if (found.is<Integer>()) {
-      return Value{static_cast<int>(found.as<Integer>())};
+      return Value{narrow<int>(key, found.as<Integer>().data)};
     } else if (found.is<UnsignedInt>()) {
-      return Value{static_cast<unsigned int>(found.as<UnsignedInt>())};
+      return Value{narrow<unsigned int>(key, found.as<UnsignedInt>().data)};
     } else if (found.is<UnsignedShort>()) {
       return Value{static_cast<unsigned short>(found.as<UnsignedShort>())};
     } else if (found.is<Double>()) {
-- 
2.43.0


From b94cb5cbddaae055e398f53fff8c70b7ce370f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 46/71] fix: move points to the origin of an occupancy grid
 before rotating them

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 53e8456..079d4e5 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -45,7 +45,7 @@ auto OccupancyGridBuilder::transformToGrid(const PointType & p) const -> PointTy
   const auto & r = origin_.orientation;
   const auto & o = origin_.position;
   const auto np =
-    (Quat(r.w, r.x, r.y, r.z).conjugate() * Vec3(p.x, p.y, p.z) - Vec3(o.x, o.y, o.z)).eval();
+    (Quat(r.w, r.x, r.y, r.z).conjugate() * (Vec3(p.x, p.y, p.z) - Vec3(o.x, o.y, o.z))).eval();
   return makePoint(np.x(), np.y(), np.z());
 }
 
-- 
2.43.0


From 9b2d93280d721c87564d9c9c9fb210aea560076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 47/71] fix: publish the origin of occupancy grids that are not
 square at their corner

---
 .../occupancy_grid/occupancy_grid_sensor.cpp                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
index c48ecc4..1dacd42 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
@@ -149,8 +149,8 @@ auto OccupancyGridSensor<nav_msgs::msg::OccupancyGrid>::getOccupancyGrid(
   res.info.map_load_time = stamp;
   res.info.resolution = configuration_.resolution();
   res.info.origin = ego_pose_north_up;
-  res.info.origin.position.x -= 0.5 * configuration_.height() * configuration_.resolution();
-  res.info.origin.position.y -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.x -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.y -= 0.5 * configuration_.height() * configuration_.resolution();
   return res;
 }
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From f73a3d4d7dd7486bbc39808746447dbda42e614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 48/71] fix: start a grid traversal in the cell of a negative
 coordinate

---
 .../src/sensor_simulation/occupancy_grid/grid_traversal.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 7f000d7..4e03823 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -38,7 +38,7 @@ auto GridTraversal::begin() const -> Iterator
   double ty = std::floor(start_y_) + (vy_ > 0 ? 1 : 0);
   tx = vx_ != 0 ? (tx - start_x_) / vx_ : tdx_;
   ty = vy_ != 0 ? (ty - start_y_) / vy_ : tdy_;
-  return {this, tx, ty, int32_t(start_x_), int32_t(start_y_)};
+  return {this, tx, ty, int32_t(std::floor(start_x_)), int32_t(std::floor(start_y_))};
 }
 
 auto GridTraversal::end() const -> Sentinel { return {}; }
-- 
2.43.0


From b4ccd1d807823ca8cfd2fc087017d67833ac5d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 49/71] fix: clip obstacles with a closed ring of the occupancy
 grid

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 079d4e5..88e00c1 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -84,6 +84,7 @@ auto OccupancyGridBuilder::makeOccupiedArea(const PrimitiveType & primitive) con
     {+real_width, -real_height},  // bottom right
     {-real_width, -real_height},  // bottom left
     {-real_width, +real_height},  // top left
+    {+real_width, +real_height},  // top right again, to close the ring
   };
 
   // Clip a polygon to fit into grid area
-- 
2.43.0


From e4b77cb3509a5dc0242829ab20e22792ed09f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 50/71] fix: hide the whole occupancy grid when an obstacle
 covers its origin

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 88e00c1..bb37650 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -126,7 +126,7 @@ auto OccupancyGridBuilder::makeInvisibleArea(const PolygonType & occupied_polygo
     for (size_t i = 0; i < occupied_polygon.size(); ++i) {
       const auto & p = occupied_polygon[i];
       const auto & q = occupied_polygon[(i + 1) % occupied_polygon.size()];
-      overlap_origin &= p.x * q.y - q.x * p.y < 0;
+      overlap_origin &= p.x * q.y - q.x * p.y <= 0;
     }
     if (overlap_origin) return corners;
   }
-- 
2.43.0


From ae39a24eaaf5966e904b719e328731d3af2c69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 51/71] fix: detect every light of a regulatory element

---
 .../traffic_lights/traffic_lights.hpp                | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 8d83327..74ab935 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -71,13 +71,19 @@ public:
 
   auto addState(const lanelet::Id lanelet_id, const std::string & state) -> void
   {
-    auto [iter, inserted] = detected_traffic_lights_.try_emplace(lanelet_id, lanelet_id);
-    iter->second.set(state);
+    for (const auto way_id : traffic_simulator::traffic_lights::trafficLightsIds(lanelet_id)) {
+      auto [iter, inserted] = detected_traffic_lights_.try_emplace(way_id, way_id);
+      iter->second.set(state);
+    }
   }
 
   auto clearState(const lanelet::Id lanelet_id) -> bool
   {
-    return detected_traffic_lights_.erase(lanelet_id) > 0;
+    std::size_t erased = 0;
+    for (const auto way_id : traffic_simulator::traffic_lights::trafficLightsIds(lanelet_id)) {
+      erased += detected_traffic_lights_.erase(way_id);
+    }
+    return erased > 0;
   }
 
   auto empty() const -> bool { return detected_traffic_lights_.empty(); }
-- 
2.43.0


From bedb62082c2cc2163d0803e3d1276bfc246fe494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 52/71] fix: synchronise V2I output of lights set through their
 regulatory element

---
 .../traffic_lights/traffic_lights.hpp         | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 74ab935..84d505e 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -241,17 +241,20 @@ public:
       [this, v2i = v2i_channel_.getGroundTruth()](
         lanelet::Id lanelet_id, const std::string & state,
         TrafficLightsBase::StateChangeType change_type) {
-        if (v2i_enabled_traffic_lights_.count(lanelet_id) > 0) {
-          switch (change_type) {
-            case TrafficLightsBase::StateChangeType::SET:
-              v2i->setTrafficLightsState(lanelet_id, state);
-              break;
-            case TrafficLightsBase::StateChangeType::CLEAR:
-              v2i->clearTrafficLightsState(lanelet_id);
-              break;
-            case TrafficLightsBase::StateChangeType::ADD:
-              v2i->addTrafficLightsState(lanelet_id, state);
-              break;
+        // the feature is enabled per light, the given ID may be of a regulatory element
+        for (const auto way_id : traffic_simulator::traffic_lights::trafficLightsIds(lanelet_id)) {
+          if (v2i_enabled_traffic_lights_.count(way_id) > 0) {
+            switch (change_type) {
+              case TrafficLightsBase::StateChangeType::SET:
+                v2i->setTrafficLightsState(way_id, state);
+                break;
+              case TrafficLightsBase::StateChangeType::CLEAR:
+                v2i->clearTrafficLightsState(way_id);
+                break;
+              case TrafficLightsBase::StateChangeType::ADD:
+                v2i->addTrafficLightsState(way_id, state);
+                break;
+            }
           }
         }
       });
-- 
2.43.0


From 1446dd3bf232b2d9c97aaef633a9c5ba453eafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 53/71] fix: report the V2I feature enabled through a
 regulatory element

---
 .../src/traffic_lights/traffic_lights.cpp                | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
index edc1a5e..0c46b02 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
@@ -61,7 +61,14 @@ auto TrafficLights::generateConventionalUpdateRequest() const
 
 auto TrafficLights::isV2ITrafficLightEnabled(const lanelet::Id lanelet_id) const -> bool
 {
-  return v2i_enabled_traffic_lights_.count(lanelet_id) > 0;
+  if (lanelet_wrapper::traffic_lights::isTrafficLightRegulatoryElement(lanelet_id)) {
+    const auto way_ids = traffic_simulator::traffic_lights::wayIds(lanelet_id);
+    return std::all_of(way_ids.begin(), way_ids.end(), [this](const auto way_id) {
+      return isV2ITrafficLightEnabled(way_id);
+    });
+  } else {
+    return v2i_enabled_traffic_lights_.count(lanelet_id) > 0;
+  }
 }
 
 auto V2ITrafficLights::addTrafficLightsStatePrediction(
-- 
2.43.0


From 0107b56550051946ca5158738c9f6c15d4390b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 54/71] fix: end the prediction of a running distance to a
 speed beyond the limit

---
 .../src/behavior/longitudinal_speed_planning.cpp                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
index 0a3f47f..1d49b11 100644
--- a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
+++ b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
@@ -117,6 +117,7 @@ auto LongitudinalSpeedPlanner::getRunningDistance(
    * technical reasons.
    */
   constexpr double twist_tolerance = 0.01;
+  target_speed = std::clamp(target_speed, -1 * constraints.max_speed, constraints.max_speed);
   if (isTargetSpeedReached(target_speed, current_twist, twist_tolerance)) {
     return 0;
   }
-- 
2.43.0


From ef18b33ba7b4ea8fdce8fcbfea0dab44277bcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 55/71] fix: predict the duration of speed changes to the
 target speed

---
 .../src/behavior/longitudinal_speed_planning.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
index 1d49b11..d29ae53 100644
--- a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
+++ b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
@@ -152,7 +152,7 @@ auto LongitudinalSpeedPlanner::getVelocityWithConstantJerk(
       current_twist, current_accel, constraints.max_acceleration_rate, duration);
   } else {
     return getVelocityWithConstantJerk(
-      current_twist, current_accel, constraints.max_deceleration_rate, duration);
+      current_twist, current_accel, -constraints.max_deceleration_rate, duration);
   }
 }
 
@@ -173,13 +173,13 @@ auto LongitudinalSpeedPlanner::getQuadraticAccelerationDurationWithConstantJerk(
     return (-current_accel.linear.x + std::sqrt(
                                         current_accel.linear.x * current_accel.linear.x +
                                         2 * constraints.max_acceleration_rate *
-                                          (constraints.max_speed - current_twist.linear.x))) /
+                                          (target_speed - current_twist.linear.x))) /
            constraints.max_acceleration_rate;
   } else {
-    return (-current_accel.linear.x + std::sqrt(
-                                        current_accel.linear.x * current_accel.linear.x +
-                                        2 * constraints.max_deceleration_rate *
-                                          (-constraints.max_speed - current_twist.linear.x))) /
+    return (current_accel.linear.x + std::sqrt(
+                                       current_accel.linear.x * current_accel.linear.x +
+                                       2 * constraints.max_deceleration_rate *
+                                         (current_twist.linear.x - target_speed))) /
            constraints.max_deceleration_rate;
   }
 }
@@ -205,11 +205,11 @@ auto LongitudinalSpeedPlanner::getQuadraticAccelerationDuration(
     }
   } else {
     double duration =
-      (current_accel.linear.x - constraints.max_deceleration) / constraints.max_deceleration_rate;
+      (current_accel.linear.x + constraints.max_deceleration) / constraints.max_deceleration_rate;
     double v = getVelocityWithConstantJerk(
       current_twist, current_accel, -constraints.max_deceleration_rate, duration);
     // While quadratic acceleration, the entity does not reached the target speed.
-    if (v < target_speed) {
+    if (v > target_speed) {
       return duration;
     }
     // While quadratic acceleration, the entity reached the target speed.
-- 
2.43.0


From 61f68ae13de37dbf648c51d8d4c0f0e4e1e7ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 56/71] fix: plan decelerations within a given time

---
 .../behavior/longitudinal_speed_planning.cpp  | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
index d29ae53..52025e8 100644
--- a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
+++ b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
@@ -48,12 +48,17 @@ auto LongitudinalSpeedPlanner::planConstraintsFromJerkAndTimeConstraint(
   const auto quad_duration =
     getQuadraticAccelerationDuration(target_speed, constraints, current_twist, current_accel);
   if (quad_duration >= acceleration_duration) {
-    ret.max_acceleration_rate =
-      2 * (target_speed - current_twist.linear.x - current_accel.linear.x * acceleration_duration) /
-      (acceleration_duration * acceleration_duration);
-    ret.max_deceleration_rate =
-      2 * (target_speed - current_twist.linear.x - current_accel.linear.x * acceleration_duration) /
-      (acceleration_duration * acceleration_duration);
+    if (isAccelerating(target_speed, current_twist)) {
+      ret.max_acceleration_rate =
+        2 *
+        (target_speed - current_twist.linear.x - current_accel.linear.x * acceleration_duration) /
+        (acceleration_duration * acceleration_duration);
+    } else {
+      ret.max_deceleration_rate =
+        2 *
+        (current_twist.linear.x + current_accel.linear.x * acceleration_duration - target_speed) /
+        (acceleration_duration * acceleration_duration);
+    }
   } else {
     if (isAccelerating(target_speed, current_twist)) {
       double discriminant =
@@ -75,15 +80,15 @@ auto LongitudinalSpeedPlanner::planConstraintsFromJerkAndTimeConstraint(
         (constraints.max_deceleration_rate * acceleration_duration *
          constraints.max_deceleration_rate * acceleration_duration) -
         2 * constraints.max_deceleration_rate *
-          (current_twist.linear.x - current_accel.linear.x * acceleration_duration - target_speed);
+          (current_twist.linear.x + current_accel.linear.x * acceleration_duration - target_speed);
 
       if (discriminant < 0) {
         THROW_SEMANTIC_ERROR(
           "Negative discriminant: the target speed is too high compared to the deceleration.");
       }
 
-      ret.max_deceleration = -constraints.max_deceleration_rate * acceleration_duration +
-                             std::sqrt(discriminant) + current_accel.linear.x;
+      ret.max_deceleration = constraints.max_deceleration_rate * acceleration_duration -
+                             std::sqrt(discriminant) - current_accel.linear.x;
     }
   }
   return ret;
-- 
2.43.0


From 45aea8a902ec31d62b481f738d75fa9a436ad44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 57/71] fix: round negative times to full steps

The predicted time at constant speed is negative for candidates that travel
beyond the waypoint before; its conversion to an unsigned number of steps was
undefined and made them look as if they arrived much too late.
---
 .../src/behavior/follow_waypoint_controller.cpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
index 44b8403..233bfd9 100644
--- a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
@@ -106,7 +106,7 @@ auto FollowWaypointController::roundTimeToFullStepsWithTolerance(
       step_time, ") - the value is too large. Probably the distance to the waypoint is extremely",
       " large and the predicted time exceeds the range.");
   } else {
-    const auto number_of_steps_source = static_cast<std::size_t>(remaining_time_source / step_time);
+    const auto number_of_steps_source = std::floor(remaining_time_source / step_time);
     const double remaining_time = number_of_steps_source * step_time;
     if (const double time_difference =
           (remaining_time_source / step_time) - (remaining_time / step_time);
-- 
2.43.0


From 56dccefcdfd7b169e2deae27e8eca1512f27849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 58/71] fix: tolerate rounding errors of acceleration limits

Following a plain trajectory failed with contradictory acceleration limits
because of differences of about 1e-12, and limits interchanged by less than
that were passed to std::clamp, which is undefined.
---
 .../behavior/follow_waypoint_controller.hpp              | 7 +++++++
 .../src/behavior/follow_waypoint_controller.cpp          | 9 ++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp b/simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp
index e3806ee..96e3ac9 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/behavior/follow_waypoint_controller.hpp
@@ -158,6 +158,13 @@ class FollowWaypointController
   */
   static constexpr double predicted_distance_tolerance = 1.0;
 
+  /*
+     Acceptable inaccuracy of acceleration limits. They are calculated from
+     differences of speeds divided by the step time, therefore their rounding
+     errors exceed local_epsilon.
+  */
+  static constexpr double acceleration_limits_tolerance = 1e-9;
+
   /*
      Number of considered acceleration candidates. This is a discretization of
      the current range of [min_acceleration, max_acceleration].
diff --git a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
index 233bfd9..fc3c243 100644
--- a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
@@ -180,7 +180,7 @@ auto FollowWaypointController::getAccelerationLimits(
       In such cases, local_min_acceleration (needed to reach acceleration equal to 0.0 at speed 0.0) can be equal to local_max_acceleration
       (the maximum increase allowed by max_acceleration_rate constraint).
   */
-  if (local_max_acceleration + local_epsilon < local_min_acceleration - local_epsilon) {
+  if (local_max_acceleration + acceleration_limits_tolerance < local_min_acceleration) {
     throw ControllerError(
       "Contradictory acceleration limits: local_max_acceleration (", local_max_acceleration,
       ") < local_min_acceleration (", local_min_acceleration,
@@ -189,8 +189,11 @@ auto FollowWaypointController::getAccelerationLimits(
       ". ", *this);
   }
 
+  /// @note the limits may be interchanged by an inaccuracy within the tolerance
+  const auto ordered_max_acceleration = std::max(local_min_acceleration, local_max_acceleration);
+
   const double min_speed = speed + local_min_acceleration * step_time;
-  const double max_speed = speed + local_max_acceleration * step_time;
+  const double max_speed = speed + ordered_max_acceleration * step_time;
   if (
     max_speed < -local_epsilon || max_speed > std::min(max_speed, target_speed) + local_epsilon ||
     min_speed < -local_epsilon || min_speed > std::min(max_speed, target_speed) + local_epsilon) {
@@ -200,7 +203,7 @@ auto FollowWaypointController::getAccelerationLimits(
       " max_speed: ", max_speed, ". ", *this);
   }
 
-  return {local_min_acceleration, local_max_acceleration};
+  return {local_min_acceleration, ordered_max_acceleration};
 }
 
 auto FollowWaypointController::getPredictedStopEntityStatusWithoutConsideringTime(
-- 
2.43.0


From 43cd28506d24e82e3fb1db968f45d3780d032fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 59/71] fix: give up accelerations with the rate of the other
 direction

The acceleration with which zero speed or the target speed can just be reached
depends on how fast it can be given up then. With different rates trajectories
were refused, waypoints overrun and the target speed exceeded.
---
 .../traffic_simulator/src/behavior/follow_trajectory.cpp     | 2 +-
 .../src/behavior/follow_waypoint_controller.cpp              | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp b/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
index 345193a..a0fe523 100644
--- a/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
@@ -573,7 +573,7 @@ auto makeUpdatedStatus(
       FollowWaypointController(behavior_parameter, step_time, true, target_braking_speed);
     const auto deceleration = std::max(
       controller.accelerationWithJerkConstraint(
-        speed, target_braking_speed, behavior_parameter.dynamic_constraints.max_deceleration_rate),
+        speed, target_braking_speed, behavior_parameter.dynamic_constraints.max_acceleration_rate),
       -behavior_parameter.dynamic_constraints.max_deceleration);
     return scalarToDirectionVector(speed + deceleration * step_time, orientation);
   };
diff --git a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
index fc3c243..551c192 100644
--- a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
@@ -157,10 +157,11 @@ auto FollowWaypointController::getAccelerationLimits(
   const double acceleration, const double speed) const -> std::pair<double, double>
 {
   /// @note see header file for detailed preconditions and assumptions
+  /// @note a deceleration is given up with max_acceleration_rate, an acceleration with max_deceleration_rate
   const auto min_acceleration_zero_speed =
-    accelerationWithJerkConstraint(speed, 0.0, max_deceleration_rate);
+    accelerationWithJerkConstraint(speed, 0.0, max_acceleration_rate);
   const auto max_acceleration_target_speed =
-    accelerationWithJerkConstraint(speed, target_speed, max_acceleration_rate);
+    accelerationWithJerkConstraint(speed, target_speed, max_deceleration_rate);
 
   const auto local_min_acceleration = std::max(
     std::max(min_acceleration_zero_speed, -max_deceleration),
-- 
2.43.0


From be4243e6e7ab5954f7e501765b27cfeaf0763c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 60/71] fix: keep the acceleration limits when too fast or
 standing

A vehicle faster than the target speed decelerated beyond its limit, and one
standing with a deceleration left moved backwards with a positive speed.
---
 .../src/behavior/follow_waypoint_controller.cpp             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
index 551c192..12f7922 100644
--- a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
@@ -429,15 +429,15 @@ auto FollowWaypointController::getAcceleration(
 
   /*
      Handle edge cases where vehicle is in abnormal state:
-     (1) Negative speed: apply maximum acceleration to return to positive speed
+     (1) Negative speed: apply the acceleration that returns to zero speed
      (2) Speed exceeding target_speed: apply maximum deceleration to reduce speed
   */
   if (const auto max_acceleration = (acceleration + max_acceleration_rate * step_time);
       speed + max_acceleration * step_time < 0.0) {
-    return max_acceleration;
+    return clampAcceleration(max_acceleration, acceleration, speed);
   } else if (const auto min_acceleration = (acceleration - max_deceleration_rate * step_time);
              speed + min_acceleration * step_time > target_speed) {
-    return min_acceleration;
+    return std::max(min_acceleration, -max_deceleration);
   }
 
   const auto [local_min_acceleration, local_max_acceleration] =
-- 
2.43.0


From e71e9797b41644d17b6295c22881559526fe07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 61/71] fix: validate trajectories before they are accessed

With less than two waypoints memory beyond the trajectory was read before the
error could be reported.
---
 .../traffic_simulator/src/behavior/follow_trajectory.cpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp b/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
index a0fe523..a75cc32 100644
--- a/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
@@ -830,6 +830,10 @@ auto makeUpdatedStatus(
   //                    EXECUTION
   //  ==============================================
 
+  /// @note the trajectory is accessed below, therefore it has to be validated first
+  validate_entity_status();
+  validate_trajectory();
+
   if (verbose_input_state) {
     auto const orientation = convertQuaternionToEulerAngle(entity_status.pose.orientation);
     auto const previous = previous_waypoint().position.position;
-- 
2.43.0


From 03515cfc3d56a2fb45b607b3f29ffdafa2aeaa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:15 +0000
Subject: [PATCH 62/71] fix: report a run ended from outside before its verdict
 as a timeout

---
 .../openscenario_interpreter/openscenario_interpreter.hpp  | 4 ++++
 .../src/openscenario_interpreter.cpp                       | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
index 56563dc..be55951 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
@@ -90,6 +90,8 @@ class Interpreter : public rclcpp_lifecycle::LifecycleNode,
 
   std::variant<common::junit::Pass, common::junit::Failure, common::junit::Error> result;
 
+  bool is_result_reported = false;
+
   ExecutionTimer<> execution_timer;
 
   using Result = rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn;
@@ -148,6 +150,8 @@ public:
 
     results.write_to((std::filesystem::path(output_directory) / "result.junit.xml").c_str(), "  ");
 
+    is_result_reported = true;
+
     execution_timer.save(std::filesystem::path(output_directory) / "execution_timer.json");
   }
 
diff --git a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
index 8467d7e..b983c7b 100644
--- a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
+++ b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
@@ -114,6 +114,8 @@ auto Interpreter::on_configure(const rclcpp_lifecycle::State &) -> Result
         "Timeout",
         "The simulation time has exceeded the time specified by the scenario_test_runner.");
 
+      is_result_reported = false;
+
       std::this_thread::sleep_for(std::chrono::seconds(1));  // NOTE: Wait for parameters to be set.
 
       GET_PARAMETER(local_frame_rate);
@@ -298,6 +300,11 @@ auto Interpreter::on_activate(const rclcpp_lifecycle::State &) -> Result
 
 auto Interpreter::on_deactivate(const rclcpp_lifecycle::State &) -> Result
 {
+  if (not is_result_reported) {
+    // NOTE: Deactivated from outside, before the scenario reached a verdict (see on_configure).
+    set<common::junit::Failure>(std::get<common::junit::Failure>(result));
+  }
+
   reset();
 
   return Interpreter::Result::SUCCESS;  // => Inactive
-- 
2.43.0


From c48499198d1a8b948c90a38dc701b308e6157793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 63/71] fix: do not drop a scenario that is already gone when
 an error is handled

---
 .../openscenario_interpreter/src/openscenario_interpreter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
index b983c7b..fa0a6fa 100644
--- a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
+++ b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
@@ -382,7 +382,9 @@ auto Interpreter::reset() -> void
   common::status_monitor.overrideThreshold(
     simulator_core_shutdown_threshold, SimulatorCore::deactivate);
 
-  scenarios.pop_front();
+  if (not scenarios.empty()) {
+    scenarios.pop_front();
+  }
 
   // NOTE: Error on simulation is not error of the interpreter; so we print error messages into
   // INFO_STREAM.
-- 
2.43.0


From 2e269ab9d9926722cf07559c4f6509cf312046ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 64/71] fix: read parameter value distributions by the name the
 standard gives them

---
 .../openscenario_interpreter/src/openscenario_interpreter.cpp   | 2 +-
 .../src/syntax/open_scenario_category.cpp                       | 2 +-
 .../src/syntax/parameter_value_distribution_definition.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
index fa0a6fa..285e5b9 100644
--- a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
+++ b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
@@ -139,7 +139,7 @@ auto Interpreter::on_configure(const rclcpp_lifecycle::State &) -> Result
 
       if (script->category.is<ScenarioDefinition>()) {
         scenarios = {std::dynamic_pointer_cast<ScenarioDefinition>(script->category)};
-      } else if (script->category.is<ParameterValueDistribution>()) {
+      } else if (script->category.is_also<ParameterValueDistribution>()) {
         throw Error(
           "ParameterValueDistribution cannot be processed by openscenario_interpreter alone. "
           "Give a preprocessed scenario using openscenario_preprocessor together");
diff --git a/openscenario/openscenario_interpreter/src/syntax/open_scenario_category.cpp b/openscenario/openscenario_interpreter/src/syntax/open_scenario_category.cpp
index e7ee145..8d8a65f 100644
--- a/openscenario/openscenario_interpreter/src/syntax/open_scenario_category.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/open_scenario_category.cpp
@@ -27,7 +27,7 @@ OpenScenarioCategory::OpenScenarioCategory(const pugi::xml_node & tree, Scope &
     choice(tree, {
       { "Storyboard",                [&](auto &&     ) { return make<ScenarioDefinition                  >(tree, scope); } },  // DIRTY HACK!!!
       { "Catalog",                   [&](auto &&     ) { return make<CatalogDefinition                   >(tree, scope); } },
-      { "ParameterValueDistribution",[&](auto && node) { return make<ParameterValueDistributionDefinition>(node, scope); } },
+      { "ParameterValueDistribution",[&](auto &&     ) { return make<ParameterValueDistributionDefinition>(tree, scope); } },
     }))
 // clang-format on
 {
diff --git a/openscenario/openscenario_interpreter/src/syntax/parameter_value_distribution_definition.cpp b/openscenario/openscenario_interpreter/src/syntax/parameter_value_distribution_definition.cpp
index a95da7e..3deb582 100644
--- a/openscenario/openscenario_interpreter/src/syntax/parameter_value_distribution_definition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/parameter_value_distribution_definition.cpp
@@ -22,7 +22,7 @@ inline namespace syntax
 ParameterValueDistributionDefinition::ParameterValueDistributionDefinition(
   const pugi::xml_node & node, Scope & scope)
 : ParameterValueDistribution(
-    readElement<ParameterValueDistribution>("parameterValueDistribution", node, scope))
+    readElement<ParameterValueDistribution>("ParameterValueDistribution", node, scope))
 {
 }
 }  // namespace syntax
-- 
2.43.0


From 9c3161942849740e8194bcfe896dc043762ca33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:41 +0000
Subject: [PATCH 65/71] fix: describe conditions on undeclared parameters
 instead of terminating

---
 .../src/syntax/parameter_condition.cpp                | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/parameter_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/parameter_condition.cpp
index 8356da1..c00039c 100644
--- a/openscenario/openscenario_interpreter/src/syntax/parameter_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/parameter_condition.cpp
@@ -62,8 +62,15 @@ auto ParameterCondition::description() const -> String
 {
   std::stringstream description;
 
-  description << "The value of parameter " << std::quoted(parameter_ref) << " = "
-              << local().ref(parameter_ref) << " " << rule << " " << value << "?";
+  description << "The value of parameter " << std::quoted(parameter_ref) << " = ";
+
+  try {
+    description << local().ref(parameter_ref);
+  } catch (const SyntaxError &) {  // NOTE: Reported by evaluate, a description must not throw.
+    description << "(unknown)";
+  }
+
+  description << " " << rule << " " << value << "?";
 
   return description.str();
 }
-- 
2.43.0


From d90218d277863189e9a2cca78d0a6ecb7a420727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 66/71] fix: name unsupported user defined values instead of
 failing with a map lookup

---
 .../syntax/user_defined_value_condition.cpp   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
index 8b81ce5..405d374 100644
--- a/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
@@ -150,7 +150,12 @@ UserDefinedValueCondition::UserDefinedValueCondition(const pugi::xml_node & node
         "currentTurnIndicatorsState",
         [result]() { return make<String>(getTurnIndicatorsCommandName(result.str(1))); }),
     };
-    evaluate_value = dispatch.at(result.str(2));  // XXX catch
+    if (const auto iter = dispatch.find(result.str(2)); iter != std::end(dispatch)) {
+      evaluate_value = iter->second;
+    } else {
+      throw SyntaxError(
+        "Given value ", std::quoted(name), " is not a supported name of UserDefinedValueCondition");
+    }
   } else if (std::regex_match(name, result, FunctionCallExpression::pattern())) {
     const std::unordered_map<std::string, std::function<Object(const std::vector<std::string> &)>>
       functions{
@@ -168,8 +173,13 @@ UserDefinedValueCondition::UserDefinedValueCondition(const pugi::xml_node & node
             }
           }),
       };
-    evaluate_value =
-      curry2(functions.at(result.str(1)))(FunctionCallExpression::splitParameters(result.str(3)));
+    if (const auto iter = functions.find(result.str(1)); iter != std::end(functions)) {
+      evaluate_value =
+        curry2(iter->second)(FunctionCallExpression::splitParameters(result.str(3)));
+    } else {
+      throw SyntaxError(
+        "Given value ", std::quoted(name), " is not a supported name of UserDefinedValueCondition");
+    }
   } else if (std::regex_match(name, result, std::regex(R"(^(?:\/[\w-]+)*\/([\w]+)$)"))) {
 #if __has_include(<tier4_simulation_msgs/msg/user_defined_value.hpp>)
     using tier4_simulation_msgs::msg::UserDefinedValue;
@@ -206,7 +216,8 @@ UserDefinedValueCondition::UserDefinedValueCondition(const pugi::xml_node & node
       "when the `UserDefinedValue` type is present in the `tier4_simulation_msgs` package.");
 #endif
   } else {
-    throw SyntaxError(__FILE__, ":", __LINE__);
+    throw SyntaxError(
+      "Given value ", std::quoted(name), " is not a supported name of UserDefinedValueCondition");
   }
 }
 
-- 
2.43.0


From f3ab343d24ce12c69c47afcc327f35dd3e6e338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 67/71] fix: add up the cycle time of a traffic signal
 controller without truncating its phases

---
 .../src/syntax/traffic_signal_controller.cpp                 | 4 ++--
 .../openscenario_interpreter/src/syntax/traffic_signals.cpp  | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index e40ead1..6c714a0 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -100,8 +100,8 @@ auto TrafficSignalController::currentPhaseSince() const -> double
 auto TrafficSignalController::cycleTime() const -> double
 {
   return std::accumulate(
-    std::cbegin(phases), std::cend(phases), 0,
-    [](const auto & sum, const auto & phase) { return sum + phase.duration; });
+    std::cbegin(phases), std::cend(phases), 0.0,
+    [](double sum, const auto & phase) -> double { return sum + phase.duration; });
 }
 
 auto TrafficSignalController::evaluate() -> Object
diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
index 855b03d..2cf640b 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <cmath>
 #include <openscenario_interpreter/error.hpp>
 #include <openscenario_interpreter/reader/element.hpp>
 #include <openscenario_interpreter/simulator_core.hpp>
@@ -48,7 +49,9 @@ auto TrafficSignals::resolve_reference(Scope & scope) -> void
     if (not each->reference.empty()) {
       try {
         auto & reference = scope.ref<TrafficSignalController>(each->reference);
-        if (each->cycleTime() != reference.cycleTime()) {
+        // sums of the same durations may differ by a rounding error
+        if (each->cycleTime() != reference.cycleTime() and
+            not(std::abs(each->cycleTime() - reference.cycleTime()) < 1e-6)) {
           THROW_SEMANTIC_ERROR(
             "The cycle time of ", each->name, "(", each->cycleTime(), " sec) and ", each->reference,
             "(", reference.cycleTime(), " sec) is different");
-- 
2.43.0


From 3ba671900f0ab2556ae0c674c03cea4edda2eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 68/71] fix: read relative headings to fractional lane
 positions as function calls

---
 .../src/syntax/user_defined_value_condition.cpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
index 405d374..ac7c155 100644
--- a/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
@@ -120,7 +120,7 @@ UserDefinedValueCondition::UserDefinedValueCondition(const pugi::xml_node & node
   value(readAttribute<String>("value", node, scope)),
   rule(readAttribute<Rule>("rule", node, scope))
 {
-  if (std::smatch result; std::regex_match(name, result, std::regex(R"(([^.]+)\.(.+))"))) {
+  if (std::smatch result; std::regex_match(name, result, std::regex(R"(([^.(]+)\.(.+))"))) {
     const std::unordered_map<std::string, std::function<Object()>> dispatch{
       std::make_pair(
         "currentState",
-- 
2.43.0


From b558bb8a9f596f439873cbc5758e0ead8dc6b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:16 +0000
Subject: [PATCH 69/71] fix: read the name of an environment in the scope that
 exists

---
 .../openscenario_interpreter/src/syntax/environment.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/environment.cpp b/openscenario/openscenario_interpreter/src/syntax/environment.cpp
index a3c477a..5177d4a 100644
--- a/openscenario/openscenario_interpreter/src/syntax/environment.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/environment.cpp
@@ -21,7 +21,7 @@ namespace openscenario_interpreter
 inline namespace syntax
 {
 Environment::Environment(const pugi::xml_node & node, Scope & scope)
-: Scope(readAttribute<String>("name", node, local()), scope),
+: Scope(readAttribute<String>("name", node, scope), scope),
   parameter_declarations(
     readElement<ParameterDeclarations>("ParameterDeclarations", node, local())),
   time_of_day(readElement<TimeOfDay>("TimeOfDay", node, local())),
-- 
2.43.0


From 6d40a1fcacb198ddb6d6359bcc87a4b1cd621d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 70/71] fix: name the attribute whose expression or parameter
 has no value of its type

---
 .../reader/attribute.hpp                      | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/reader/attribute.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/reader/attribute.hpp
index e5408e0..d01823c 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/reader/attribute.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/reader/attribute.hpp
@@ -50,7 +50,16 @@ auto readAttribute(const std::string & name, const Node & node, const Scope & sc
   };
 
   auto read_openscenario_standard_expression = [&](const auto & s) {
-    return boost::lexical_cast<T>(evaluate(std::string(std::begin(s) + 2, std::end(s) - 1), scope));
+    try {
+      return boost::lexical_cast<T>(
+        evaluate(std::string(std::begin(s) + 2, std::end(s) - 1), scope));
+    } catch (const common::Error &) {
+      throw;
+    } catch (const std::exception & e) {
+      throw SyntaxError(
+        "Value ", std::quoted(s), " specified for attribute ", std::quoted(name), " of class ",
+        std::quoted(node.name()), " is invalid (", e.what(), ")");
+    }
   };
 
   auto is_openscenario_standard_parameter_reference = [](const auto & s) {
@@ -60,7 +69,15 @@ auto readAttribute(const std::string & name, const Node & node, const Scope & sc
   auto read_openscenario_standard_parameter_reference = [&](const auto & s) {
     // TODO Use `return scope.template ref<T>(s.substr(1));`
     if (auto && object = scope.ref(s.substr(1)); object) {
-      return boost::lexical_cast<T>(boost::lexical_cast<String>(object));
+      try {
+        return boost::lexical_cast<T>(boost::lexical_cast<String>(object));
+      } catch (const boost::bad_lexical_cast &) {
+        throw SyntaxError(
+          "Value ", std::quoted(boost::lexical_cast<String>(object)), " of parameter ",
+          std::quoted(s.substr(1)), " referenced by attribute ", std::quoted(name), " of class ",
+          std::quoted(node.name()), " is invalid (Is not value of type ", makeTypename(typeid(T)),
+          ")");
+      }
     } else {
       throw SyntaxError(
         "There is no parameter named ", std::quoted(s.substr(1)), " (Attribute ", std::quoted(name),
-- 
2.43.0


From 14eb96ec123da044d88a226452f8c253e17da483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 71/71] fix: refuse empty entity names instead of calling them
 a simulator bug

---
 openscenario/openscenario_interpreter/src/syntax/entity.cpp  | 5 ++++-
 .../src/syntax/speed_profile_action.cpp                      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/entity.cpp b/openscenario/openscenario_interpreter/src/syntax/entity.cpp
index ae03639..dd7d04d 100644
--- a/openscenario/openscenario_interpreter/src/syntax/entity.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/entity.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <openscenario_interpreter/error.hpp>
 #include <openscenario_interpreter/object.hpp>
 #include <openscenario_interpreter/reader/element.hpp>
 #include <openscenario_interpreter/scope.hpp>
@@ -37,7 +38,9 @@ Entity::Entity(const ScenarioObject & object) : Object(make(object)) {}
 Entity::Entity(const EntitySelection & selection) : Object(make(selection)) {}
 
 Entity::Entity(const String & name, const Scope & scope)
-: Object(name.empty() ? nullptr : scope.global().entities->ref(name))
+: Object(
+    name.empty() ? throw SyntaxError("An entity was referred to by an empty name")
+                 : scope.global().entities->ref(name))
 {
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/speed_profile_action.cpp b/openscenario/openscenario_interpreter/src/syntax/speed_profile_action.cpp
index e294a09..c727d7a 100644
--- a/openscenario/openscenario_interpreter/src/syntax/speed_profile_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/speed_profile_action.cpp
@@ -31,7 +31,10 @@ SpeedProfileAction::SpeedProfileAction(const pugi::xml_node & node, Scope & scop
   // for `SpeedProfileAction.entityRef`. It seems `EntitySelection` can be used only when
   // it is the subject of any actions or conditions, so I left default allowance of entities
   // and `EntitySelection` is not allowed here.
-  entity_ref(readAttribute<String>("entityRef", node, scope, String()), scope),
+  entity_ref([&]() {
+    const auto name = readAttribute<String>("entityRef", node, scope, String());
+    return name.empty() ? Entity() : Entity(name, scope);
+  }()),
   following_mode(readAttribute<FollowingMode>("followingMode", node, scope)),
   dynamic_constraints(
     readElement<DynamicConstraints>("DynamicConstraints", node, scope, DynamicConstraints())),
-- 
2.43.0

