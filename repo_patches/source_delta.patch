From 7c51e5c203a61fb4cd006bf576e96437fa56e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 01/67] fix: guard the log buffer and custom sink with a mutex

Logging from several threads raced on the buffer slots, and changing the
buffer size, replacing the sink or dumping while another thread logs read
freed memory, although the logger is documented to be thread-safe.
---
 include/huira/util/logger.hpp      |  8 +++++++-
 include/huira_impl/util/logger.ipp | 15 ++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index 877465d..311da76 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 #include <thread>
@@ -61,7 +62,9 @@ struct LogEntry {
  * - Per-level console output configuration
  * - Cross-platform crash reporting (signals and SEH)
  *
- * The logger is thread-safe and uses lock-free atomic operations for performance.
+ * The logger is thread-safe: settings that filter messages are atomic, and the buffer and the
+ * custom sink are guarded by a mutex. The mutex is recursive, so that a custom sink may itself log,
+ * and so that a crash report can still be written if the crash happened inside the logger.
  * Log entries are stored in a circular buffer and can be dumped to a file on demand
  * or automatically during crashes.
  */
@@ -123,6 +126,9 @@ class Logger {
     std::atomic<bool> console_warning_;
     CustomSink custom_sink_;
 
+    // Guards buffer_, write_index_ and custom_sink_
+    std::recursive_mutex mutex_;
+
     // Ensures only one crash report is printed per process
     static std::atomic<bool> crash_reported_;
 };
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 7338960..c72c64e 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -138,6 +138,8 @@ void Logger::set_buffer_size(size_t size)
     }
     std::vector<LogEntry> new_buffer(size);
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+
     // Copy existing entries
     size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
     size_t old_size = instance().buffer_.size();
@@ -159,6 +161,7 @@ void Logger::set_buffer_size(size_t size)
  */
 size_t Logger::get_buffer_size()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     return instance().buffer_.size();
 }
 
@@ -172,6 +175,7 @@ size_t Logger::get_buffer_size()
  */
 void Logger::set_custom_sink(CustomSink sink)
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = std::move(sink);
 }
 
@@ -180,6 +184,7 @@ void Logger::set_custom_sink(CustomSink sink)
  */
 void Logger::clear_custom_sink()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = nullptr;
 }
 
@@ -200,15 +205,17 @@ void Logger::log(LogLevel level, const std::string& message)
 
     LogEntry entry{std::chrono::system_clock::now(), level, message, std::this_thread::get_id()};
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+
     // Add to circular buffer
     size_t index =
         instance().write_index_.fetch_add(1, std::memory_order_relaxed) % instance().buffer_.size();
     instance().buffer_[index] = entry;
 
-    // Call custom sink if set
-    if (instance().custom_sink_) {
+    // Call custom sink if set (a copy, as the sink may replace itself)
+    if (CustomSink sink = instance().custom_sink_) {
         try {
-            instance().custom_sink_(entry);
+            sink(entry);
         } catch (...) {
             // Ignore exceptions from custom sink to prevent logging from crashing
         }
@@ -253,6 +260,8 @@ std::string Logger::dump_to_file(const std::string& filepath)
     file << "=========\n\n";
     file << "Platform: " << platform_str << " | Compiler: " << compiler_str << "\n\n";
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+
     size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
     size_t total_entries = std::min(current_write, instance().buffer_.size());
     size_t start_index =
-- 
2.43.0


From 749c62414e9c399bf96eca6d4d4c1b234326d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 02/67] fix: end the process on a fatal signal when crash
 handling is disabled

The handler stays installed and returned, so a segmentation fault re-ran the
faulting instruction forever.
---
 include/huira_impl/util/logger.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index c72c64e..d0884ae 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -418,6 +418,9 @@ void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
     if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
+        // Returning would resume at the faulting instruction: leave it to the default action
+        std::signal(signal, SIG_DFL);
+        std::raise(signal);
         return;
     }
     // Only print crash report once
-- 
2.43.0


From e58a74a0d287b9bec30372efc1ba6d21b31f3b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 03/67] fix: leaving a medium removes it from the medium stack
 wherever it is

---
 include/huira/volumes/medium_stack.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/huira/volumes/medium_stack.hpp b/include/huira/volumes/medium_stack.hpp
index 3c952a0..4d04975 100644
--- a/include/huira/volumes/medium_stack.hpp
+++ b/include/huira/volumes/medium_stack.hpp
@@ -53,9 +53,18 @@ class MediumStack {
             return;
         }
 
-        if (size_ > 0 && entries_[size_ - 1].primitive == primitive) {
-            --size_;
-        } else if (size_ < CAPACITY) {
+        // Media may overlap, so the primitive being left is not necessarily the last one entered.
+        for (std::size_t i = 0; i < size_; ++i) {
+            if (entries_[i].primitive == primitive) {
+                for (std::size_t j = i + 1; j < size_; ++j) {
+                    entries_[j - 1] = entries_[j];
+                }
+                --size_;
+                return;
+            }
+        }
+
+        if (size_ < CAPACITY) {
             entries_[size_] = {primitive, medium};
             ++size_;
         }
-- 
2.43.0


From 224b5277d9b52d87e359b1b21d9fef6caa2e750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 04/67] fix: give the direct and indirect received power
 buffers their own images

---
 include/huira/render/frame_buffer.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/huira/render/frame_buffer.hpp b/include/huira/render/frame_buffer.hpp
index 4e2c499..f1476e0 100644
--- a/include/huira/render/frame_buffer.hpp
+++ b/include/huira/render/frame_buffer.hpp
@@ -52,17 +52,17 @@ class FrameBuffer {
 
     void enable_received_direct_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_direct_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_direct_power() { return received_power_; }
-    bool has_received_direct_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_direct_power() { return received_direct_power_; }
+    bool has_received_direct_power() const { return has_(received_direct_power_); }
 
     void enable_received_indirect_power(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable);
+        enable_(received_indirect_power_, TSpectral{0}, enable);
     }
-    Image<TSpectral>& received_indirect_power() { return received_power_; }
-    bool has_received_indirect_power() const { return has_(received_power_); }
+    Image<TSpectral>& received_indirect_power() { return received_indirect_power_; }
+    bool has_received_indirect_power() const { return has_(received_indirect_power_); }
 
     void enable_received_power(bool enable = true)
     {
@@ -73,7 +73,9 @@ class FrameBuffer {
 
     void enable_sensor_response(bool enable = true)
     {
-        enable_(received_power_, TSpectral{0}, enable); // Sensor response requires received power
+        if (enable) {
+            enable_received_power(); // Sensor response requires received power
+        }
         enable_(sensor_response_, SensorT{}, enable);
     }
     Image<SensorT>& sensor_response() { return sensor_response_; }
@@ -96,6 +98,12 @@ class FrameBuffer {
         if (has_world_normals()) {
             world_normals_.fill(Vec3<float>{0, 0, 0});
         }
+        if (has_received_direct_power()) {
+            received_direct_power_.fill(TSpectral{0});
+        }
+        if (has_received_indirect_power()) {
+            received_indirect_power_.fill(TSpectral{0});
+        }
         if (has_received_power()) {
             received_power_.fill(TSpectral{0});
         }
@@ -115,6 +123,8 @@ class FrameBuffer {
     Image<Vec3<float>> camera_normals_;
     Image<Vec3<float>> world_normals_;
 
+    Image<TSpectral> received_direct_power_;
+    Image<TSpectral> received_indirect_power_;
     Image<TSpectral> received_power_;
     Image<SensorT> sensor_response_;
 
-- 
2.43.0


From 43d8c03dbb1eceb71dcfc1cc22bf25f896538084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 05/67] fix: reject negative and non-finite coordinates in
 Image::at

---
 include/huira_impl/images/image.ipp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d583b0..89a77c1 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -290,7 +290,7 @@ const PixelT& Image<PixelT>::at(std::size_t index) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(int x, int y)
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -307,7 +307,7 @@ PixelT& Image<PixelT>::at(int x, int y)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(int x, int y) const
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -325,12 +325,15 @@ const PixelT& Image<PixelT>::at(int x, int y) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(const Pixel& pixel)
 {
+    // Coordinates that truncate to an index outside of the image (or are NaN) are rejected before
+    // they are converted:
+    if (!(pixel.x > -1.f && pixel.x < static_cast<float>(resolution_.width)) ||
+        !(pixel.y > -1.f && pixel.y < static_cast<float>(resolution_.height))) {
+        HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
+    }
     // TODO Do proper rounding/conversion
     auto x = static_cast<int>(pixel.x);
     auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
-        HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
-    }
     return data_[to_linear(x, y)];
 }
 
@@ -346,12 +349,15 @@ PixelT& Image<PixelT>::at(const Pixel& pixel)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(const Pixel& pixel) const
 {
+    // Coordinates that truncate to an index outside of the image (or are NaN) are rejected before
+    // they are converted:
+    if (!(pixel.x > -1.f && pixel.x < static_cast<float>(resolution_.width)) ||
+        !(pixel.y > -1.f && pixel.y < static_cast<float>(resolution_.height))) {
+        HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
+    }
     // TODO Do proper rounding/conversion
     auto x = static_cast<int>(pixel.x);
     auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
-        HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
-    }
     return data_[to_linear(x, y)];
 }
 
-- 
2.43.0


From cb72a08cffe88d9e54fc55e6ad0275ef3d68573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 06/67] fix: keep image sampling inside the image for
 non-finite and very large coordinates

---
 include/huira_impl/images/image.ipp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 89a77c1..305cdd9 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -599,19 +599,24 @@ template <WrapMode W>
 float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
 {
     if constexpr (W == WrapMode::Clamp) {
-        return std::clamp(coord, 0.0f, max);
+        return std::isnan(coord) ? 0.0f : std::clamp(coord, 0.0f, max);
     } else if constexpr (W == WrapMode::Repeat) {
+        if (!std::isfinite(coord)) {
+            return 0.0f;
+        }
         coord = std::fmod(coord, max);
         if (coord < 0.0f) {
             coord += max;
         }
         return coord;
     } else if constexpr (W == WrapMode::Mirror) {
-        coord = std::fabs(coord);
-        int period = static_cast<int>(coord / max);
-        coord = std::fmod(coord, max);
-        if (period % 2 == 1) {
-            coord = max - coord;
+        if (!std::isfinite(coord)) {
+            return 0.0f;
+        }
+        // The mirrored image repeats every two widths:
+        coord = std::fmod(std::fabs(coord), 2.0f * max);
+        if (coord > max) {
+            coord = 2.0f * max - coord;
         }
         return std::clamp(coord, 0.0f, max);
     } else {
-- 
2.43.0


From 99dc7efb362bb0daeeb6c447688f2f1dde4ce17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 07/67] fix: do not mirror the kernel in direct image
 convolution

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 305cdd9..0818da2 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -638,12 +638,12 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         for (int x = 0; x < this->width(); ++x) {
             PixelT sum{};
             for (int ky = 0; ky < kh; ++ky) {
-                int sy = y + ky - kcy;
+                int sy = y - (ky - kcy);
                 if (sy < 0 || sy >= this->height()) {
                     continue;
                 }
                 for (int kx = 0; kx < kw; ++kx) {
-                    int sx = x + kx - kcx;
+                    int sx = x - (kx - kcx);
                     if (sx < 0 || sx >= this->width()) {
                         continue;
                     }
-- 
2.43.0


From 62a19b0ef3474c8ed3fdc65e12e3634d14fb5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 08/67] fix: keep the sensor bit depth of an image when
 convolving it

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 0818da2..9872cc9 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -654,7 +654,7 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         }
     }
 
-    *this = std::move(result);
+    data_ = std::move(result.data_);
 }
 
 template <IsImagePixel PixelT>
@@ -765,6 +765,6 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     fftwf_free(freq_a);
     fftwf_free(freq_b);
 
-    *this = std::move(result);
+    data_ = std::move(result.data_);
 }
 } // namespace huira
-- 
2.43.0


From de5907a39f57da7cdc2448af2a957c848320c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 09/67] fix: compute image sizes and pixel offsets without
 integer overflow

---
 include/huira_impl/images/image.ipp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 9872cc9..6e91a59 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -27,7 +27,8 @@ Image<PixelT>::Image() : data_{}, resolution_{0, 0}
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y)), resolution_{resolution}
+    : data_(static_cast<std::size_t>(resolution.x) * static_cast<std::size_t>(resolution.y)),
+      resolution_{resolution}
 {
 }
 
@@ -41,7 +42,8 @@ Image<PixelT>::Image(Resolution resolution)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y), fill_value),
+    : data_(static_cast<std::size_t>(resolution.x) * static_cast<std::size_t>(resolution.y),
+            fill_value),
       resolution_{resolution}
 {
 }
@@ -56,7 +58,8 @@ Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height)
-    : data_(static_cast<std::size_t>(width * height)), resolution_{width, height}
+    : data_(static_cast<std::size_t>(width) * static_cast<std::size_t>(height)),
+      resolution_{width, height}
 {
 }
 
@@ -71,7 +74,8 @@ Image<PixelT>::Image(int width, int height)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(width * height), fill_value), resolution_{width, height}
+    : data_(static_cast<std::size_t>(width) * static_cast<std::size_t>(height), fill_value),
+      resolution_{width, height}
 {
 }
 
@@ -583,7 +587,8 @@ Image<float> Image<PixelT>::get_channel(std::size_t channel) const
 template <IsImagePixel PixelT>
 std::size_t Image<PixelT>::to_linear(int x, int y) const noexcept
 {
-    return static_cast<std::size_t>(y * resolution_.width + x);
+    return static_cast<std::size_t>(y) * static_cast<std::size_t>(resolution_.width) +
+           static_cast<std::size_t>(x);
 }
 
 /**
-- 
2.43.0


From 1ed612ffd2145d12505a6b6c7bc45d50df96d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 10/67] fix: reject every pixel position in Image::at for an
 empty image

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6e91a59..0ed1eed 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -331,7 +331,7 @@ PixelT& Image<PixelT>::at(const Pixel& pixel)
 {
     // Coordinates that truncate to an index outside of the image (or are NaN) are rejected before
     // they are converted:
-    if (!(pixel.x > -1.f && pixel.x < static_cast<float>(resolution_.width)) ||
+    if (empty() || !(pixel.x > -1.f && pixel.x < static_cast<float>(resolution_.width)) ||
         !(pixel.y > -1.f && pixel.y < static_cast<float>(resolution_.height))) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
@@ -355,7 +355,7 @@ const PixelT& Image<PixelT>::at(const Pixel& pixel) const
 {
     // Coordinates that truncate to an index outside of the image (or are NaN) are rejected before
     // they are converted:
-    if (!(pixel.x > -1.f && pixel.x < static_cast<float>(resolution_.width)) ||
+    if (empty() || !(pixel.x > -1.f && pixel.x < static_cast<float>(resolution_.width)) ||
         !(pixel.y > -1.f && pixel.y < static_cast<float>(resolution_.height))) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
-- 
2.43.0


From 4788c8ce0050ce6ad34e607a8a3ae4c9b21624b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 11/67] fix: reject star catalogue files whose size does not
 match, report failed writes, order undefined magnitudes last

---
 include/huira/stars/io/star_data.hpp         |  6 +++++-
 include/huira_impl/stars/io/star_catalog.ipp | 20 +++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/huira/stars/io/star_data.hpp b/include/huira/stars/io/star_data.hpp
index bf2da54..30079d7 100644
--- a/include/huira/stars/io/star_data.hpp
+++ b/include/huira/stars/io/star_data.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdint>
 #include <filesystem>
 #include <limits>
@@ -32,9 +33,12 @@ struct StarData {
     // Normalize the Epoch to J2000.0 using proper motion and epoch of observation (if provided)
     inline void normalize_epoch(double epochRA, double epochDEC);
 
-    // Allows sorting by magnitude:
+    // Allows sorting by magnitude (stars without a magnitude come last):
     bool operator<(const StarData& other) const
     {
+        if (std::isnan(visual_magnitude) || std::isnan(other.visual_magnitude)) {
+            return !std::isnan(visual_magnitude) && std::isnan(other.visual_magnitude);
+        }
         return visual_magnitude < other.visual_magnitude;
     }
 };
diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 30d9dac..ad9a691 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -54,6 +54,11 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
     out.write(reinterpret_cast<const char*>(valid_stars.data()),
               static_cast<std::streamsize>(valid_stars.size() * sizeof(StarData)));
 
+    out.close();
+    if (!out) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to write file: " + filepath.string());
+    }
+
     HUIRA_LOG_INFO("StarCatalog - " + std::to_string(valid_stars.size()) +
                    " stars written to: " + filepath.string());
 }
@@ -68,7 +73,7 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
     // Read and validate header
     HrscHeader header{};
     in.read(reinterpret_cast<char*>(&header), sizeof(header));
-    if (header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
+    if (!in || header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
         header.magic[3] != 'C') {
         HUIRA_THROW_ERROR("StarData - Invalid file format: " + filepath.string());
     }
@@ -80,6 +85,16 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
                           ").  Please re-generate.");
     }
 
+    // The file has to hold exactly the stars that its header announces
+    in.seekg(0, std::ios::end);
+    const std::streamoff file_size = in.tellg();
+    const std::uint64_t body_size = static_cast<std::uint64_t>(file_size) - sizeof(HrscHeader);
+    if (file_size < 0 || body_size % sizeof(StarData) != 0 ||
+        body_size / sizeof(StarData) != header.star_count) {
+        HUIRA_THROW_ERROR("StarCatalog - File size does not match its header: " +
+                          filepath.string());
+    }
+
     // Binary search on file to find cutoff index
     std::uint64_t low = 0, high = header.star_count;
     StarData temp;
@@ -101,6 +116,9 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
     in.seekg(static_cast<std::streamoff>(sizeof(HrscHeader)));
     in.read(reinterpret_cast<char*>(stars.data()),
             static_cast<std::streamsize>(low * sizeof(StarData)));
+    if (!in) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to read file: " + filepath.string());
+    }
 
     StarCatalog star_catalog(stars);
     star_catalog.set_catalog_type(header.catalog_type);
-- 
2.43.0


From 2a6466fb686192357a65c33d40f5339239238f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 12/67] fix: parse each Tycho-2 record on its own, also the
 last one without a line break

---
 include/huira_impl/stars/io/load_tycho2.ipp | 80 ++++++++++++---------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 81c3769..e6c0695 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -51,6 +51,20 @@ static double read_entry_(const std::string& line, std::size_t start, std::size_
     }
 }
 
+static bool read_tycho2_id_(const std::string& line, std::uint64_t& id)
+{
+    double tyc1 = read_entry_(line, 0, 4);
+    double tyc2 = read_entry_(line, 5, 10);
+    double tyc3 = read_entry_(line, 11, 12);
+    if (!(tyc1 >= 0 && tyc1 <= 0x3FFF && tyc2 >= 0 && tyc2 <= 0xFFFF && tyc3 >= 0 && tyc3 <= 0xF)) {
+        return false;
+    }
+    id = pack_tycho2_id(static_cast<std::uint16_t>(tyc1),
+                        static_cast<std::uint16_t>(tyc2),
+                        static_cast<std::uint8_t>(tyc3));
+    return true;
+}
+
 static bool is_valid_line_(const std::string& line)
 {
     // Data lines start with a digit (TYC1 number)
@@ -59,23 +73,23 @@ static bool is_valid_line_(const std::string& line)
 
 std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_dat - Failed to open file: " + filepath.string());
     }
 
+    std::vector<StarData> star_data;
+    star_data.reserve(count_lines_(filepath) + 1);
+
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
+            StarData star{};
+
             // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            if (!read_tycho2_id_(line, star.id)) {
+                continue;
+            }
 
             float epochRA = 2000.0;
             float epochDEC = 2000.0;
@@ -86,8 +100,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
             } else {
                 // Observed position at bytes 153-165 and 166-178
                 double RA = read_entry_(line, 153, 165);
@@ -95,8 +109,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
 
                 // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
                 // These are "epoch - 1990", so add 1990 to get Julian year
@@ -114,14 +128,14 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(epochRA, epochDEC);
+            star.normalize_epoch(epochRA, epochDEC);
 
             // BT magnitude at bytes 110-116, VT at 123-129
             double BTmag = read_entry_(line, 110, 116);
@@ -129,34 +143,33 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
     return star_data;
 }
 
 std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to open file: " + filepath.string());
     }
 
+    std::vector<StarData> star_data;
+    star_data.reserve(count_lines_(filepath) + 1);
+
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
+            StarData star{};
+
             // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            if (!read_tycho2_id_(line, star.id)) {
+                continue;
+            }
 
             // Supplement position at bytes 15-27 and 28-40
             double RA = read_entry_(line, 15, 27);
@@ -164,21 +177,21 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(RA) || std::isnan(DEC)) {
                 continue;
             }
-            star_data[i].RA = RA * PI<double>() / 180.;
-            star_data[i].DEC = DEC * PI<double>() / 180.;
+            star.RA = RA * PI<double>() / 180.;
+            star.DEC = DEC * PI<double>() / 180.;
 
             // Proper motion at bytes 42-49 and 50-57
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(1991.25f, 1991.25f);
+            star.normalize_epoch(1991.25f, 1991.25f);
 
             // BT magnitude at bytes 83-89, VT at 96-102
             double BTmag = read_entry_(line, 83, 89);
@@ -186,12 +199,11 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
     return star_data;
 }
 } // namespace huira
-- 
2.43.0


From 84f0436e73a7da3d939627a694a703d95b575316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 13/67] fix: read the observed Tycho-2 position and epoch from
 their own columns

---
 include/huira_impl/stars/io/load_tycho2.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index e6c0695..7819acc 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -103,19 +103,19 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 star.RA = RA * PI<double>() / 180.;
                 star.DEC = DEC * PI<double>() / 180.;
             } else {
-                // Observed position at bytes 153-165 and 166-178
-                double RA = read_entry_(line, 153, 165);
-                double DEC = read_entry_(line, 166, 178);
+                // Observed position at bytes 152-164 and 165-177
+                double RA = read_entry_(line, 152, 164);
+                double DEC = read_entry_(line, 165, 177);
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
                 star.RA = RA * PI<double>() / 180.;
                 star.DEC = DEC * PI<double>() / 180.;
 
-                // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
+                // Epoch of observed position: epRA at bytes 178-182, epDE at 183-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
-                double epRA = read_entry_(line, 179, 183);
-                double epDE = read_entry_(line, 184, 188);
+                double epRA = read_entry_(line, 178, 182);
+                double epDE = read_entry_(line, 183, 187);
                 if (std::isnan(epRA) || std::isnan(epDE)) {
                     continue;
                 }
-- 
2.43.0


From b4a47c95ce7cd9f7c8d37b448afcc1baa3143fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 14/67] fix: find every plane crossing of a trajectory arc, for
 any cubic and any scale

---
 include/huira_impl/render/trajectory_arc.ipp | 85 +++++++-------------
 1 file changed, 29 insertions(+), 56 deletions(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 769d5bd..42f3371 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -279,7 +279,7 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
     }
 
     std::vector<float> roots;
-    if (discriminant < eps) {
+    if (discriminant == 0.0f) {
         float t = -b / (2.0f * a);
         if (t >= t_min - eps && t <= t_max + eps) {
             roots.push_back(std::clamp(t, t_min, t_max));
@@ -309,7 +309,7 @@ TrajectoryArc::solve_quadratic_(float a, float b, float c, float t_min, float t_
 /**
  * @brief Solve a*t^3 + b*t^2 + c*t + d = 0 for roots in [t_min, t_max].
  *
- * Uses the depressed cubic (Cardano's method) for analytic solution.
+ * Only roots at which the sign changes are found, which is what clipping needs.
  */
 std::vector<float>
 TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, float t_max)
@@ -320,69 +320,42 @@ TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, flo
         return solve_quadratic_(b, c, d, t_min, t_max);
     }
 
-    float p = b / a;
-    float q = c / a;
-    float r = d / a;
+    // Between its turning points the cubic is monotone, so that each piece with a change of sign
+    // holds exactly one root.
+    auto value = [=](double t) { return ((double{a} * t + b) * t + c) * t + d; };
 
-    float p2 = p * p;
-    float A = q - p2 / 3.0f;
-    float B = r - p * q / 3.0f + 2.0f * p2 * p / 27.0f;
-
-    float discriminant = -4.0f * A * A * A - 27.0f * B * B;
+    std::vector<double> bounds{t_min};
+    for (float t : solve_quadratic_(3.0f * a, 2.0f * b, c, t_min, t_max)) {
+        bounds.push_back(t);
+    }
+    bounds.push_back(t_max);
 
     std::vector<float> roots;
-    float offset = -p / 3.0f;
 
-    if (discriminant > eps) {
-        float m = 2.0f * std::sqrt(-A / 3.0f);
-        float theta = std::acos(3.0f * B / (A * m)) / 3.0f;
-
-        for (int k = 0; k < 3; ++k) {
-            float u = m * std::cos(theta - 2.0f * PI<float>() * static_cast<float>(k) / 3.0f);
-            float t = u + offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
-        }
-    } else if (discriminant < -eps) {
-        float sqrtQ3 = std::sqrt(-A / 3.0f);
-        float cosh_val = std::abs(B) / (sqrtQ3 * sqrtQ3 * sqrtQ3) * 1.5f;
-
-        float u;
-        if (A < 0.0f) {
-            float acosh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val - 1.0f));
-            u = -2.0f * std::copysign(sqrtQ3, B) * std::cosh(acosh_val / 3.0f);
-        } else {
-            float asinh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val + 1.0f));
-            u = -2.0f * std::copysign(std::sqrt(A / 3.0f), B) * std::sinh(asinh_val / 3.0f);
+    // Neighbouring segments meet at their ends, where rounding may hide the change of sign:
+    const double zero = 1e-6 * (std::abs(a) + std::abs(b) + std::abs(c) + std::abs(d));
+    for (float t : {t_min, t_max}) {
+        if (std::abs(value(t)) <= zero) {
+            roots.push_back(t);
         }
+    }
 
-        float t = u + offset;
-        if (t >= t_min - eps && t <= t_max + eps) {
-            roots.push_back(std::clamp(t, t_min, t_max));
+    for (std::size_t i = 0; i + 1 < bounds.size(); ++i) {
+        double lo = bounds[i];
+        double hi = bounds[i + 1];
+        const bool lo_inside = value(lo) >= 0.0;
+        if (lo_inside == (value(hi) >= 0.0)) {
+            continue;
         }
-    } else {
-        if (std::abs(B) < eps) {
-            float t = offset;
-            if (t >= t_min - eps && t <= t_max + eps) {
-                roots.push_back(std::clamp(t, t_min, t_max));
-            }
-        } else {
-            float u1 = 3.0f * B / A;
-            float u2 = -u1 / 2.0f;
-
-            float t1 = u1 + offset;
-            float t2 = u2 + offset;
-
-            if (t1 >= t_min - eps && t1 <= t_max + eps) {
-                roots.push_back(std::clamp(t1, t_min, t_max));
-            }
-            if (t2 >= t_min - eps && t2 <= t_max + eps) {
-                if (roots.empty() || std::abs(t2 - roots.back()) > eps) {
-                    roots.push_back(std::clamp(t2, t_min, t_max));
-                }
+        for (int k = 0; k < 60; ++k) {
+            const double mid = 0.5 * (lo + hi);
+            if ((value(mid) >= 0.0) == lo_inside) {
+                lo = mid;
+            } else {
+                hi = mid;
             }
         }
+        roots.push_back(static_cast<float>(0.5 * (lo + hi)));
     }
 
     std::sort(roots.begin(), roots.end());
-- 
2.43.0


From 52be9f54ff87bbf1740c5620f93469cf889438da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 15/67] fix: judge on which side of a plane an arc lies away
 from where it touches it

---
 include/huira_impl/render/frustum.ipp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/render/frustum.ipp b/include/huira_impl/render/frustum.ipp
index 834fc27..8a4e559 100644
--- a/include/huira_impl/render/frustum.ipp
+++ b/include/huira_impl/render/frustum.ipp
@@ -215,12 +215,20 @@ Frustum<TSpectral>::arc_intervals_inside_plane_(const TrajectoryArc& arc, const
     }
     boundaries.push_back(1.0f);
 
-    // Test the midpoint of each interval to determine sign:
+    // Test each interval to determine its sign:
     std::vector<std::pair<float, float>> intervals;
     for (std::size_t i = 0; i + 1 < boundaries.size(); ++i) {
-        float t_mid = (boundaries[i] + boundaries[i + 1]) / 2.0f;
-        Vec3<float> dir = arc.evaluate(t_mid);
-        if (glm::dot(normal, dir) >= 0.0f) {
+        // The sign is the same throughout, so take it where rounding matters least (an arc may
+        // touch the plane anywhere):
+        float side = 0.0f;
+        for (float f : {0.5f, 0.25f, 0.75f}) {
+            float t = boundaries[i] + f * (boundaries[i + 1] - boundaries[i]);
+            float d = glm::dot(normal, arc.evaluate(t));
+            if (std::abs(d) > std::abs(side)) {
+                side = d;
+            }
+        }
+        if (side >= 0.0f) {
             // Merge with previous interval if contiguous:
             if (!intervals.empty() && std::abs(intervals.back().second - boundaries[i]) < eps) {
                 intervals.back().second = boundaries[i + 1];
-- 
2.43.0


From 4385485f332f4718f971f2ab86c61094eb4f1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 16/67] fix: a mile is exactly 1609.344 metres

---
 include/huira/units/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/units/units.hpp b/include/huira/units/units.hpp
index d738f4b..dbafaae 100644
--- a/include/huira/units/units.hpp
+++ b/include/huira/units/units.hpp
@@ -54,7 +54,7 @@ using AstronomicalUnit = Quantity<Length, std::ratio<149597870700, 1>>;
 
 using Foot = Quantity<Length, std::ratio<381, 1250>>;
 using Yard = Quantity<Length, std::ratio<1143, 1250>>;
-using Mile = Quantity<Length, std::ratio<80467, 50>>;
+using Mile = Quantity<Length, std::ratio<201168, 125>>;
 /// @}
 
 /// @defgroup mass_units Mass Units
-- 
2.43.0


From cb3324a593d648a11edbb4bcf4620d05399f0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 17/67] fix: compound assignment of quantities rejects
 not-a-number like every other operation

---
 include/huira/units/quantity.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/huira/units/quantity.hpp b/include/huira/units/quantity.hpp
index afed062..526b904 100644
--- a/include/huira/units/quantity.hpp
+++ b/include/huira/units/quantity.hpp
@@ -105,15 +105,13 @@ class Quantity {
     // Addition assignment
     constexpr Quantity& operator+=(const Quantity& other)
     {
-        value_ += other.value_;
-        return *this;
+        return *this = *this + other;
     }
 
     // Subtraction assignment
     constexpr Quantity& operator-=(const Quantity& other)
     {
-        value_ -= other.value_;
-        return *this;
+        return *this = *this - other;
     }
 
     // Scalar multiplication
@@ -134,16 +132,14 @@ class Quantity {
     template <IsNumeric T>
     constexpr Quantity& operator*=(T scalar)
     {
-        value_ *= static_cast<double>(scalar);
-        return *this;
+        return *this = *this * scalar;
     }
 
     // Scalar division assignment
     template <IsNumeric T>
     constexpr Quantity& operator/=(T scalar)
     {
-        value_ /= static_cast<double>(scalar);
-        return *this;
+        return *this = *this / scalar;
     }
 
     // Comparison operators
@@ -511,14 +507,12 @@ class Quantity<Dimensionless, Scale> {
 
     constexpr Quantity& operator+=(const Quantity& other)
     {
-        value_ += other.value_;
-        return *this;
+        return *this = *this + other;
     }
 
     constexpr Quantity& operator-=(const Quantity& other)
     {
-        value_ -= other.value_;
-        return *this;
+        return *this = *this - other;
     }
 
     template <IsNumeric T>
@@ -536,15 +530,13 @@ class Quantity<Dimensionless, Scale> {
     template <IsNumeric T>
     constexpr Quantity& operator*=(T scalar)
     {
-        value_ *= static_cast<double>(scalar);
-        return *this;
+        return *this = *this * scalar;
     }
 
     template <IsNumeric T>
     constexpr Quantity& operator/=(T scalar)
     {
-        value_ /= static_cast<double>(scalar);
-        return *this;
+        return *this = *this / scalar;
     }
 
     constexpr bool operator==(const Quantity& other) const { return value_ == other.value_; }
-- 
2.43.0


From 09cf35c8372232525dce9c0d6a657374f885547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 18/67] fix: print spectral quantities in the SI unit they name

---
 include/huira_impl/units/spectral_quantity.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/units/spectral_quantity.ipp b/include/huira_impl/units/spectral_quantity.ipp
index 6a279d0..b5eef30 100644
--- a/include/huira_impl/units/spectral_quantity.ipp
+++ b/include/huira_impl/units/spectral_quantity.ipp
@@ -67,12 +67,13 @@ SpectralQuantity<Dim, NewScale, TSpectral> SpectralQuantity<Dim, Scale, TSpectra
 template <IsDimensionality Dim, typename Scale, IsSpectral TSpectral>
 std::string SpectralQuantity<Dim, Scale, TSpectral>::to_string() const
 {
+    const TSpectral si = to_si();
     std::string result = "SpectralQuantity[" + Dim::to_si_string() + "](";
     for (std::size_t i = 0; i < TSpectral::size(); ++i) {
         if (i > 0) {
             result += ", ";
         }
-        result += std::to_string(value_[i]);
+        result += std::to_string(si[i]);
     }
     result += ")";
     return result;
-- 
2.43.0


From 08340756f78b492d982d9f8bc90af27adf8f8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 19/67] fix: measure spectral overlap with RGB over all bins,
 not the red one alone

---
 include/huira_impl/core/spectral_bins.ipp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 8c11cee..76d5b2a 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -1,6 +1,7 @@
 #include <array>
 #include <iostream>
 #include <string>
+#include <utility>
 
 #include "huira/core/physics.hpp"
 #include "huira/util/logger.hpp"
@@ -797,10 +798,22 @@ TSpectral convert_rgb_to_spectral(const RGB& rgb)
         return rgb;
     } else {
         // Determine overlap between TSpectral's full range and RGB's full range
-        constexpr double spectral_min = TSpectral::get_bin(0).min_wavelength;
-        constexpr double spectral_max = TSpectral::get_bin(TSpectral::size() - 1).max_wavelength;
-        constexpr double rgb_min = RGB::get_bin(0).min_wavelength; // 380nm (blue bin min)
-        constexpr double rgb_max = RGB::get_bin(0).max_wavelength; // 750nm (red bin max)
+        // (bins are not necessarily listed in ascending order: RGB lists red first)
+        constexpr auto full_range = []<typename T>() {
+            std::pair<double, double> range{T::get_bin(0).min_wavelength,
+                                            T::get_bin(0).max_wavelength};
+            for (std::size_t i = 1; i < T::size(); ++i) {
+                range.first = std::min(range.first, T::get_bin(i).min_wavelength);
+                range.second = std::max(range.second, T::get_bin(i).max_wavelength);
+            }
+            return range;
+        };
+        constexpr auto spectral_range = full_range.template operator()<TSpectral>();
+        constexpr auto rgb_full_range = full_range.template operator()<RGB>();
+        constexpr double spectral_min = spectral_range.first;
+        constexpr double spectral_max = spectral_range.second;
+        constexpr double rgb_min = rgb_full_range.first;  // 380nm (blue bin min)
+        constexpr double rgb_max = rgb_full_range.second; // 750nm (red bin max)
 
         constexpr double overlap_min = std::max(spectral_min, rgb_min);
         constexpr double overlap_max = std::min(spectral_max, rgb_max);
-- 
2.43.0


From a8b0be262ea0ae0877d0a52b251fdc6fcf1fa1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 20/67] fix: bins a short initializer list leaves out are zero

---
 include/huira_impl/core/spectral_bins.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 76d5b2a..b47c030 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -36,7 +36,7 @@ constexpr SpectralBins<N, Args...>::SpectralBins(const float& value)
  * @param init Initializer list of float values.
  */
 template <std::size_t N, auto... Args>
-constexpr SpectralBins<N, Args...>::SpectralBins(std::initializer_list<float> init)
+constexpr SpectralBins<N, Args...>::SpectralBins(std::initializer_list<float> init) : data_{}
 {
     if (init.size() == 1) {
         data_.fill(*init.begin());
-- 
2.43.0


From 1bae42c552a69f0b8000abc36692308960b8ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 21/67] fix: integrating sampled spectra rejects wavelengths
 that are not numbers

---
 include/huira_impl/core/spectral_bins.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index b47c030..390f6b3 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -95,7 +95,7 @@ SpectralBins<N, Args...>::integrate_over_data(const std::vector<double>& wavelen
             "SpectralBins::integrate_over_data: wavelengths and values must not be empty");
     }
     for (std::size_t k = 1; k < wavelengths.size(); ++k) {
-        if (wavelengths[k] <= wavelengths[k - 1]) {
+        if (!(wavelengths[k] > wavelengths[k - 1])) {
             HUIRA_THROW_ERROR(
                 "SpectralBins::integrate_over_data: wavelengths must be strictly ascending");
         }
-- 
2.43.0


From bec694640eb9ce3c856f431bbbe80f0ac296704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 22/67] fix: a material refuses a missing BSDF instead of
 dereferencing it

---
 include/huira_impl/materials/material.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/materials/material.ipp b/include/huira_impl/materials/material.ipp
index cc88999..f32a2f6 100644
--- a/include/huira_impl/materials/material.ipp
+++ b/include/huira_impl/materials/material.ipp
@@ -1,3 +1,5 @@
+#include "huira/util/logger.hpp"
+
 namespace huira {
 /**
  * @brief Evaluate all material textures at the given interaction point.
@@ -92,6 +94,9 @@ float Material<TSpectral>::bsdf_pdf(const Vec3<float>& wo,
 template <IsSpectral TSpectral>
 void Material<TSpectral>::set_bsdf(std::shared_ptr<BSDF<TSpectral>> bsdf)
 {
+    if (!bsdf) {
+        HUIRA_THROW_ERROR("Material::set_bsdf - A material needs a BSDF");
+    }
     bsdf_ = bsdf;
 
     // Cache the flags flat in the material memory layout
-- 
2.43.0


From 7d75cc9b0a10df143429085aa8162660b5d368dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 23/67] fix: names of scene objects stay unique and resolve:
 own name kept, empty name refused, objects of other scenes rejected

---
 include/huira/scene/name_registry.hpp      |  3 ++
 include/huira_impl/scene/name_registry.ipp | 48 ++++++++++++++++++++--
 include/huira_impl/scene/scene.ipp         |  2 +-
 3 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index e921009..69340de 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -28,12 +28,15 @@ class NameRegistry {
     auto begin() const { return objects_.begin(); }
     auto end() const { return objects_.end(); }
 
+    bool contains(const T* object) const;
+
     std::shared_ptr<T> lookup(const std::string& name) const;
 
   private:
     std::vector<std::shared_ptr<T>> objects_;
     std::unordered_map<std::string, std::shared_ptr<T>> name_registry_;
 
+    std::string default_name_(const T& object) const;
     std::string make_unique_name_(std::string name) const;
 };
 } // namespace huira
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 7ebb185..7bf2a88 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <string>
@@ -16,8 +17,16 @@ namespace huira {
 template <typename T>
 void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
 {
+    if (!object) {
+        HUIRA_THROW_ERROR("NameRegistry - cannot add a null object to the scene");
+    }
+    // A live object already has a name, in this scene or in another one
+    if (object->is_scene_owned() && !object->name().empty()) {
+        HUIRA_THROW_ERROR(object->get_info() + " already belongs to a scene");
+    }
+
     if (name.empty()) {
-        name = object->type() + "." + std::to_string(object->id());
+        name = default_name_(*object);
     }
     objects_.push_back(object);
 
@@ -25,6 +34,7 @@ void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
 
     name_registry_[name] = object;
     object->name_ = name;
+    object->set_scene_owned(true);
 
     HUIRA_LOG_INFO("Scene - Added: " + object->get_info());
 }
@@ -57,18 +67,37 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
 template <typename T>
 void NameRegistry<T>::set_name(std::shared_ptr<T> object, std::string name)
 {
-    std::string new_name = make_unique_name_(name);
-    std::string old_name = object->name();
+    if (!contains(object.get())) {
+        HUIRA_THROW_ERROR(object->get_info() + " does not exist in the scene");
+    }
+
+    if (name.empty()) {
+        name = default_name_(*object);
+    }
 
-    if (new_name == old_name) {
+    std::string old_name = object->name();
+    if (name == old_name) {
         return;
     }
+    std::string new_name = make_unique_name_(name);
 
     name_registry_.erase(old_name);
     name_registry_[new_name] = object;
     object->name_ = new_name;
 }
 
+/**
+ * @brief Check whether an object is in the registry.
+ * @param object Pointer to object
+ * @return bool True if the object is in the registry
+ */
+template <typename T>
+bool NameRegistry<T>::contains(const T* object) const
+{
+    return std::any_of(
+        objects_.begin(), objects_.end(), [&](const auto& o) { return o.get() == object; });
+}
+
 /**
  * @brief Lookup an object by name.
  * @param name Name to search for
@@ -84,6 +113,17 @@ std::shared_ptr<T> NameRegistry<T>::lookup(const std::string& name) const
     return it->second;
 }
 
+/**
+ * @brief The name of an object that was not given one.
+ * @param object Object
+ * @return std::string Name made of the object's type and id
+ */
+template <typename T>
+std::string NameRegistry<T>::default_name_(const T& object) const
+{
+    return object.type() + "." + std::to_string(object.id());
+}
+
 /**
  * @brief Make a name unique within the registry.
  * @param name Desired name
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index eb4445d..99f7875 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -160,8 +160,8 @@ template <IsSpectral TSpectral>
 GeometryHandle<TSpectral>
 Scene<TSpectral>::add_geometry(std::shared_ptr<Geometry<TSpectral>> geometry, std::string name)
 {
-    geometry->set_device(device_);
     geometries_.add(geometry, name);
+    geometry->set_device(device_);
     return GeometryHandle<TSpectral>{geometry};
 }
 
-- 
2.43.0


From d97e1c08d40d1cbedfcf047351b63465c0c7b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 24/67] fix: deleting scene objects releases everything below
 them, also in models, and ends with the scene

---
 include/huira/assets/model.hpp             |  1 +
 include/huira/scene/frame_node.hpp         |  2 ++
 include/huira/scene/name_registry.hpp      |  6 ++++++
 include/huira/scene/node.hpp               |  1 +
 include/huira/scene/scene.hpp              |  1 +
 include/huira_impl/scene/frame_node.ipp    | 15 ++++++++++++-
 include/huira_impl/scene/name_registry.ipp | 11 ++++++++++
 include/huira_impl/scene/node.ipp          | 10 +++++++++
 include/huira_impl/scene/scene.ipp         | 25 ++++++++++++++++++++++
 9 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/include/huira/assets/model.hpp b/include/huira/assets/model.hpp
index 8cddd63..2473366 100644
--- a/include/huira/assets/model.hpp
+++ b/include/huira/assets/model.hpp
@@ -61,6 +61,7 @@ class Model : public SceneObject<Model<TSpectral>> {
     void print_node_(const Node<TSpectral>* node, const std::string& prefix, bool is_last) const;
 
     friend class ModelLoader<TSpectral>;
+    friend class Scene<TSpectral>;
     friend class SceneView<TSpectral>;
 };
 
diff --git a/include/huira/scene/frame_node.hpp b/include/huira/scene/frame_node.hpp
index 3777212..36afb20 100644
--- a/include/huira/scene/frame_node.hpp
+++ b/include/huira/scene/frame_node.hpp
@@ -64,6 +64,8 @@ class FrameNode : public Node<TSpectral> {
   protected:
     std::vector<std::shared_ptr<Node<TSpectral>>> children_;
 
+    void release_() override;
+
     bool position_must_be_spice_() const override;
     bool rotation_must_be_spice_() const override;
 
diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index 69340de..e082b6d 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -17,6 +17,12 @@ namespace huira {
 template <typename T>
 class NameRegistry {
   public:
+    NameRegistry() = default;
+    ~NameRegistry();
+
+    NameRegistry(const NameRegistry&) = delete;
+    NameRegistry& operator=(const NameRegistry&) = delete;
+
     void add(std::shared_ptr<T> object, std::string name);
     void remove(std::shared_ptr<T> object);
     void set_name(std::shared_ptr<T> object, std::string name);
diff --git a/include/huira/scene/node.hpp b/include/huira/scene/node.hpp
index db4b7f5..90e99c3 100644
--- a/include/huira/scene/node.hpp
+++ b/include/huira/scene/node.hpp
@@ -153,6 +153,7 @@ class Node : public SceneObject<Node<TSpectral>> {
     Node<TSpectral>* parent_ = nullptr;
 
     void set_parent_(Node<TSpectral>* parent) { parent_ = parent; }
+    virtual void release_();
 
     std::pair<const Node<TSpectral>*, Transform<double>> find_spice_origin_ancestor_() const;
     std::pair<const Node<TSpectral>*, std::pair<Rotation<double>, Vec3<double>>>
diff --git a/include/huira/scene/scene.hpp b/include/huira/scene/scene.hpp
index 1589e00..f845124 100644
--- a/include/huira/scene/scene.hpp
+++ b/include/huira/scene/scene.hpp
@@ -288,6 +288,7 @@ class Scene {
 
     NameRegistry<Node<TSpectral>> node_registry_;
     void register_node_name_(const std::shared_ptr<Node<TSpectral>>& node, const std::string& name);
+    void unregister_node_names_(const std::shared_ptr<Node<TSpectral>>& node);
 
     /// Embree RTC Device
     std::shared_ptr<EmbreeDevice> device_;
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index f75b271..e18a30e 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -55,8 +55,8 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
     auto it = std::find(children_.begin(), children_.end(), child);
     if (it != children_.end()) {
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
-        this->scene_->node_registry_.remove(child);
         children_.erase(it);
+        child->release_();
     }
 }
 
@@ -148,6 +148,19 @@ FrameNode<TSpectral>::new_instance(CameraModel<TSpectral>* camera_model)
 // === Protected Members === //
 // ========================= //
 
+/**
+ * @brief Take this node and everything below it out of the scene.
+ */
+template <IsSpectral TSpectral>
+void FrameNode<TSpectral>::release_()
+{
+    for (const auto& child : children_) {
+        child->release_();
+    }
+    children_.clear();
+    Node<TSpectral>::release_();
+}
+
 /**
  * @brief Check if manual position is allowed (no child uses SPICE).
  * @return bool True if allowed
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 7bf2a88..3b73aba 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -9,6 +9,17 @@
 
 namespace huira {
 
+/**
+ * @brief Objects that outlive their scene are no longer part of it.
+ */
+template <typename T>
+NameRegistry<T>::~NameRegistry()
+{
+    for (const auto& object : objects_) {
+        object->set_scene_owned(false);
+    }
+}
+
 /**
  * @brief Add an object to the registry with a given name.
  * @param object Shared pointer to object
diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5bc5ba2..06bca20 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -745,6 +745,16 @@ Node<TSpectral>::find_spice_frame_ancestor_() const
 // ========================= //
 // === Protected Members === //
 // ========================= //
+/**
+ * @brief Take this node out of the scene: handles to it are no longer valid.
+ */
+template <IsSpectral TSpectral>
+void Node<TSpectral>::release_()
+{
+    this->set_scene_owned(false);
+    parent_ = nullptr;
+}
+
 template <IsSpectral TSpectral>
 bool Node<TSpectral>::position_can_be_spice_() const
 {
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index 99f7875..a58777a 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -91,6 +91,7 @@ template <IsSpectral TSpectral>
 Scene<TSpectral>::~Scene()
 {
     HUIRA_TRACE_SCOPE("Scene::~Scene");
+    root_node_->release_();
 }
 
 #ifdef _MSC_VER
@@ -784,6 +785,9 @@ void Scene<TSpectral>::delete_model(const ModelHandle<TSpectral>& model_handle)
 {
     auto model_shared = model_handle.get();
     prune_graph_references_(model_shared.get());
+    if (model_shared->root_node_) {
+        unregister_node_names_(model_shared->root_node_);
+    }
     models_.remove(model_shared);
 }
 
@@ -1149,6 +1153,12 @@ void Scene<TSpectral>::prune_graph_references_(TAssetPtr target_ptr)
     if (root_node_) {
         prune_references(root_node_.get());
     }
+    // Models place the primitives they were loaded with in graphs of their own
+    for (const auto& model : models_) {
+        if (model->root_node_) {
+            prune_references(model->root_node_.get());
+        }
+    }
 }
 
 /**
@@ -1406,4 +1416,19 @@ void Scene<TSpectral>::register_node_name_(const std::shared_ptr<Node<TSpectral>
 {
     node_registry_.add(node, name);
 }
+
+/**
+ * @brief Frees the names of a node and of all nodes below it.
+ * @param node Shared pointer to the node
+ */
+template <IsSpectral TSpectral>
+void Scene<TSpectral>::unregister_node_names_(const std::shared_ptr<Node<TSpectral>>& node)
+{
+    for (const auto& child : node->get_children()) {
+        unregister_node_names_(child);
+    }
+    if (node_registry_.contains(node.get())) {
+        node_registry_.remove(node);
+    }
+}
 } // namespace huira
-- 
2.43.0


From 7ec318b11adb2bcd543b6230f1b565004ca0de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 25/67] fix: a scene refuses assets of another scene

---
 include/huira_impl/scene/frame_node.ipp | 15 +++++++++++++++
 include/huira_impl/scene/scene.ipp      |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index e18a30e..6402fbe 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -69,6 +69,9 @@ template <IsSpectral TSpectral>
 std::weak_ptr<Instance<TSpectral>>
 FrameNode<TSpectral>::new_instance(Primitive<TSpectral>* primitive)
 {
+    if (this->scene_ && !this->scene_->primitives_.contains(primitive)) {
+        HUIRA_THROW_ERROR(this->get_info() + " - cannot place primitive of another scene");
+    }
     auto child = std::make_shared<Instance<TSpectral>>(this->scene_, primitive);
     child->set_parent_(this);
 
@@ -86,6 +89,9 @@ FrameNode<TSpectral>::new_instance(Primitive<TSpectral>* primitive)
 template <IsSpectral TSpectral>
 std::weak_ptr<Instance<TSpectral>> FrameNode<TSpectral>::new_instance(Light<TSpectral>* light)
 {
+    if (this->scene_ && !this->scene_->lights_.contains(light)) {
+        HUIRA_THROW_ERROR(this->get_info() + " - cannot place light of another scene");
+    }
     auto child = std::make_shared<Instance<TSpectral>>(this->scene_, light);
     child->set_parent_(this);
 
@@ -103,6 +109,9 @@ std::weak_ptr<Instance<TSpectral>> FrameNode<TSpectral>::new_instance(Light<TSpe
 template <IsSpectral TSpectral>
 std::weak_ptr<Instance<TSpectral>> FrameNode<TSpectral>::new_instance(Model<TSpectral>* model)
 {
+    if (this->scene_ && !this->scene_->models_.contains(model)) {
+        HUIRA_THROW_ERROR(this->get_info() + " - cannot place model of another scene");
+    }
     auto child = std::make_shared<Instance<TSpectral>>(this->scene_, model);
     child->set_parent_(this);
 
@@ -121,6 +130,9 @@ template <IsSpectral TSpectral>
 std::weak_ptr<Instance<TSpectral>>
 FrameNode<TSpectral>::new_instance(UnresolvedObject<TSpectral>* unresolved_object)
 {
+    if (this->scene_ && !this->scene_->unresolved_objects_.contains(unresolved_object)) {
+        HUIRA_THROW_ERROR(this->get_info() + " - cannot place unresolved object of another scene");
+    }
     auto child = std::make_shared<Instance<TSpectral>>(this->scene_, unresolved_object);
     child->set_parent_(this);
     HUIRA_LOG_INFO(this->get_info() + " - Added: " + child->get_info());
@@ -137,6 +149,9 @@ template <IsSpectral TSpectral>
 std::weak_ptr<Instance<TSpectral>>
 FrameNode<TSpectral>::new_instance(CameraModel<TSpectral>* camera_model)
 {
+    if (this->scene_ && !this->scene_->camera_models_.contains(camera_model)) {
+        HUIRA_THROW_ERROR(this->get_info() + " - cannot place camera model of another scene");
+    }
     auto child = std::make_shared<Instance<TSpectral>>(this->scene_, camera_model);
     child->set_parent_(this);
     HUIRA_LOG_INFO(this->get_info() + " - Added: " + child->get_info());
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index a58777a..03567b8 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -285,6 +285,9 @@ Scene<TSpectral>::add_primitive(const GeometryHandle<TSpectral>& geometry_handle
     if (!geometry_handle.valid()) {
         HUIRA_THROW_ERROR("Cannot create Primitive: Invalid Geometry Handle.");
     }
+    if (!geometries_.contains(geometry_handle.get().get())) {
+        HUIRA_THROW_ERROR("Cannot create Primitive: Geometry belongs to another scene.");
+    }
     if (!material_handle.valid()) {
         HUIRA_THROW_ERROR("Invalid Material Handle provided. Using default material.");
     }
-- 
2.43.0


From f07887383c976eb8835e450082d95404b170145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 26/67] fix: static rotation getters and manual transforms
 follow the node's actual mode

---
 include/huira_impl/scene/node.ipp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 06bca20..281c1f4 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -161,6 +161,7 @@ void Node<TSpectral>::set_angular_velocity(const Vec3<double>& angular_velocity)
     }
 
     this->local_transform_.angular_velocity = angular_velocity;
+    this->body_frame_rates_ = false;
 }
 
 /**
@@ -223,6 +224,10 @@ void Node<TSpectral>::set_manual_transform(const Transform<double>& transform)
 
     this->local_transform_ = transform;
     this->body_frame_rates_ = false;
+    this->position_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->rotation_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->spice_origin_ = "";
+    this->spice_frame_ = "";
 }
 
 /**
@@ -587,7 +592,7 @@ Vec3<double> Node<TSpectral>::get_static_position() const
 template <IsSpectral TSpectral>
 Rotation<double> Node<TSpectral>::get_static_rotation() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static rotation when rotation mode is not MANUAL_TRANSFORM");
@@ -612,7 +617,7 @@ Vec3<double> Node<TSpectral>::get_static_velocity() const
 template <IsSpectral TSpectral>
 Vec3<double> Node<TSpectral>::get_static_angular_velocity() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static angular velocity when rotation mode is not MANUAL_TRANSFORM");
@@ -633,7 +638,7 @@ std::string Node<TSpectral>::get_spice_origin() const
 template <IsSpectral TSpectral>
 std::string Node<TSpectral>::get_spice_frame() const
 {
-    if (position_mode_ != TransformMode::SPICE_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::SPICE_TRANSFORM) {
         HUIRA_THROW_ERROR(this->get_info() +
                           " - cannot get spice frame when rotation mode is not SPICE_TRANSFORM");
     }
-- 
2.43.0


From 23e194a55ea026aa247e734c169b7572b6524968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 27/67] fix: callbacks cannot replace the ephemeris of a node
 whose children need it, nor the root's; a refused SPICE subframe is not left
 behind

---
 include/huira_impl/handles/scene/frame_handle.ipp |  7 ++++++-
 include/huira_impl/scene/frame_node.ipp           |  8 ++++++++
 include/huira_impl/scene/node.ipp                 | 15 +++++++++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/handles/scene/frame_handle.ipp b/include/huira_impl/handles/scene/frame_handle.ipp
index 88011b7..c598182 100644
--- a/include/huira_impl/handles/scene/frame_handle.ipp
+++ b/include/huira_impl/handles/scene/frame_handle.ipp
@@ -21,7 +21,12 @@ FrameHandle<TSpectral>::new_spice_subframe(const std::string& spice_origin,
                                            const std::string& spice_frame) const
 {
     FrameHandle<TSpectral> subframe = this->new_subframe();
-    subframe.set_spice(spice_origin, spice_frame);
+    try {
+        subframe.set_spice(spice_origin, spice_frame);
+    } catch (...) {
+        this->delete_subframe(subframe);
+        throw;
+    }
     return subframe;
 }
 
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index 6402fbe..3e3b578 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -183,6 +183,10 @@ void FrameNode<TSpectral>::release_()
 template <IsSpectral TSpectral>
 bool FrameNode<TSpectral>::position_must_be_spice_() const
 {
+    // The root of a scene has no parent it could be placed in
+    if (this->scene_ && !this->parent_) {
+        return true;
+    }
     for (const auto& child : children_) {
         if (child->position_mode_ == TransformMode::SPICE_TRANSFORM) {
             return true;
@@ -198,6 +202,10 @@ bool FrameNode<TSpectral>::position_must_be_spice_() const
 template <IsSpectral TSpectral>
 bool FrameNode<TSpectral>::rotation_must_be_spice_() const
 {
+    // The root of a scene has no parent it could be placed in
+    if (this->scene_ && !this->parent_) {
+        return true;
+    }
     for (const auto& child : children_) {
         if (child->rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
             return true;
diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 281c1f4..57c4b94 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -292,6 +292,11 @@ template <IsSpectral TSpectral>
 template <IsPositionCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_position_callback(Args&&... args)
 {
+    if (this->position_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set position callback when child has a spice_origin");
+    }
+
     position_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->position_mode_ = TransformMode::POSITION_CALLBACK;
     this->spice_origin_ = "";
@@ -315,6 +320,11 @@ template <IsSpectral TSpectral>
 template <IsRotationCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_rotation_callback(Args&&... args)
 {
+    if (this->rotation_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set rotation callback when child has a spice_frame");
+    }
+
     rotation_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->rotation_mode_ = TransformMode::ROTATION_CALLBACK;
     this->spice_frame_ = "";
@@ -336,6 +346,11 @@ template <IsSpectral TSpectral>
 template <IsTransformCallback TCallback, typename... Args>
 void Node<TSpectral>::set_custom_state_callback(Args&&... args)
 {
+    if (this->rotation_must_be_spice_() || this->position_must_be_spice_()) {
+        HUIRA_THROW_ERROR(this->get_info() +
+                          " - cannot set state callback when child uses SPICE");
+    }
+
     transform_callback_ = std::make_unique<TCallback>(std::forward<Args>(args)...);
     this->position_mode_ = TransformMode::TRANSFORM_CALLBACK;
     this->rotation_mode_ = TransformMode::TRANSFORM_CALLBACK;
-- 
2.43.0


From c43c9526da0164b3dfcfd08d41e051a2c91b6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 28/67] fix: a state callback still gives the position or
 rotation that no later setting replaced

---
 include/huira_impl/scene/node.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 57c4b94..7e35375 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -496,6 +496,10 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
         local.velocity = pos.velocity;
+    } else if (position_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        transform_callback_->evaluate(t_emit);
+        local.position = transform_callback_->state.position;
+        local.velocity = transform_callback_->state.velocity;
     }
 
     if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
@@ -507,6 +511,10 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
         local.angular_velocity = rot.angular_velocity;
+    } else if (rotation_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        transform_callback_->evaluate(t_emit);
+        local.rotation = transform_callback_->state.rotation;
+        local.angular_velocity = transform_callback_->state.angular_velocity;
     }
 
     // Mixed case - Step 2:
-- 
2.43.0


From 780b9e22a553ba46c451ed86d5a3eab6177181b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 29/67] fix: Transform::to_matrix fills the columns of a
 column-major matrix

---
 include/huira_impl/core/transform.ipp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 9d1af84..d8ac129 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -33,18 +33,18 @@ Mat4<T> Transform<T>::to_matrix() const
     // Create transformation matrix: T * R * S
     Mat4<T> result{};
 
-    // Apply scale and rotation
+    // Apply scale and rotation (columns first)
     Mat3<T> rot_basis = rotation.local_to_parent_matrix();
     for (int i = 0; i < 3; ++i) {
         for (int j = 0; j < 3; ++j) {
-            result[i][j] = rot_basis[i][j] * scale[j];
+            result[i][j] = rot_basis[i][j] * scale[i];
         }
     }
 
     // Apply position
-    result[0][3] = position.x;
-    result[1][3] = position.y;
-    result[2][3] = position.z;
+    result[3][0] = position.x;
+    result[3][1] = position.y;
+    result[3][2] = position.z;
 
     // Set homogeneous coordinate
     result[3][3] = T(1);
-- 
2.43.0


From 48177a13fa36b3885b519ac2fbe5294d5cdbe0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 30/67] fix: the inverse of a rotating transform undoes its
 velocity

---
 include/huira_impl/core/transform.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index d8ac129..6640d62 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -122,8 +122,9 @@ Transform<T> Transform<T>::inverse() const
     // Inverse position: undo the rotation and scale
     result.position = result.rotation * (-position * result.scale);
 
-    // Inverse velocity (in the new frame)
-    result.velocity = result.rotation * (-velocity * result.scale);
+    // Inverse velocity: as seen from the moving and rotating frame
+    result.velocity =
+        result.rotation * ((glm::cross(angular_velocity, position) - velocity) * result.scale);
 
     // Inverse angular velocity
     result.angular_velocity = result.rotation * (-angular_velocity);
-- 
2.43.0


From f71dea4ee299aa027231aedfdacc2df0b71e297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 31/67] fix: body rates are turned into the parent's
 coordinates

---
 include/huira_impl/scene/node.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 7e35375..ea89b9a 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -594,7 +594,9 @@ Node<TSpectral>::get_local_rotation_at_(const Time& epoch, const Time& t_obs, do
             }
         }
 
-        local_transform_at_time.angular_velocity = local_transform_.angular_velocity;
+        // Angular velocities are given in the parent's coordinates
+        local_transform_at_time.angular_velocity =
+            body_frame_rates_ ? local_transform_at_time.rotation * omega : omega;
     } else {
         // This is not expected to happen since the setters should prevent it
         HUIRA_THROW_ERROR("get_local_rotation_at_ - Unknown rotation_mode_");
-- 
2.43.0


From c0cea28e3ae964779f0a0504033dcb684eb670c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 32/67] fix: the angular velocity of an ephemeris frame already
 is in the parent's coordinates

---
 include/huira_impl/core/spice.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 72fd408..834a195 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -357,12 +357,12 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
                             static_cast<T>(matrix[1][2]),
                             static_cast<T>(matrix[2][2])};
 
-    huira::Vec3<T> ang_vel_local{static_cast<T>(angular_velocity[0]),
+    // The angular velocity is given in the coordinates of FROM
+    huira::Vec3<T> ang_vel_parent{static_cast<T>(angular_velocity[0]),
                                  static_cast<T>(angular_velocity[1]),
                                  static_cast<T>(angular_velocity[2])};
 
     Rotation<T> rotation_obj = huira::Rotation<T>::from_parent_to_local(rotation);
-    huira::Vec3<T> ang_vel_parent = rotation_obj * ang_vel_local;
 
     // SPICE represents tha passive rotation of parent-to-local:
     return {rotation_obj, ang_vel_parent};
-- 
2.43.0


From 5be46856ebe16153d9e1e4027de211e2a5bb0882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 33/67] fix: an ephemeris position or frame keeps its own
 velocity below a moving parent

---
 include/huira_impl/scene/node.ipp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index ea89b9a..a1a7948 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -485,13 +485,16 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
 
     // Mixed case - Step 1:
     Transform<double> local{};
+    Transform<double> spice_state{};
     if (position_mode_ == TransformMode::SPICE_TRANSFORM) {
         // Convert SPICE SSB result to local frame
         auto [pos, vel, _] =
             spice::spkezr<double>(this->spice_origin_, t_emit, "J2000", "NONE", "SSB");
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.position = parent_inv.apply_to_point(pos);
-        local.velocity = parent_inv.apply_to_direction(vel);
+        spice_state.position = pos;
+        spice_state.velocity = vel;
+        Transform<double> relative = parent_ssb.inverse() * spice_state;
+        local.position = relative.position;
+        local.velocity = relative.velocity;
     } else if (position_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
@@ -504,9 +507,11 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
 
     if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
         auto [rotation, ang_vel] = spice::sxform<double>("J2000", this->spice_frame_, t_emit);
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.rotation = parent_inv.rotation * rotation;
-        local.angular_velocity = parent_inv.apply_to_direction(ang_vel);
+        spice_state.rotation = rotation;
+        spice_state.angular_velocity = ang_vel;
+        Transform<double> relative = parent_ssb.inverse() * spice_state;
+        local.rotation = relative.rotation;
+        local.angular_velocity = relative.angular_velocity;
     } else if (rotation_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
@@ -532,6 +537,15 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
     local.scale = this->get_static_scale();
 
     Transform<double> ssb_state = parent_ssb * local;
+    // What the ephemeris gives holds in the SSB frame, however the parent moves
+    if (position_mode_ == TransformMode::SPICE_TRANSFORM) {
+        ssb_state.position = spice_state.position;
+        ssb_state.velocity = spice_state.velocity;
+    }
+    if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
+        ssb_state.rotation = spice_state.rotation;
+        ssb_state.angular_velocity = spice_state.angular_velocity;
+    }
     return ssb_state;
 }
 
-- 
2.43.0


From b85d8b1d8001860ea9ea915a223e76b33daf39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 34/67] fix: resolve a hit at the time of its ray

A hit on a moving instance was resolved with the instance's pose at the
start of the exposure whatever the time of the ray, and the rotation and
scale of an interpolated transform were dropped.
---
 include/huira/core/transform.hpp        |  4 +++
 include/huira/geometry/ray.hpp          |  1 +
 include/huira_impl/core/transform.ipp   | 40 +++++++++++++++++++++++++
 include/huira_impl/render/renderer.ipp  | 31 -------------------
 include/huira_impl/scene/scene_view.ipp |  3 +-
 5 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/include/huira/core/transform.hpp b/include/huira/core/transform.hpp
index 1565bd9..ca18880 100644
--- a/include/huira/core/transform.hpp
+++ b/include/huira/core/transform.hpp
@@ -2,6 +2,7 @@
 
 #include <array>
 #include <string>
+#include <vector>
 
 #include "embree4/rtcore.h"
 #include "huira/concepts/numeric_concepts.hpp"
@@ -52,6 +53,9 @@ struct Transform {
 
     Vec3<T> velocity_of_local_point(const Vec3<T>& local_point) const;
 };
+
+template <IsFloatingPoint T>
+Transform<T> interpolate_transform(const std::vector<Transform<T>>& transforms, T t);
 } // namespace huira
 
 #include "huira_impl/core/transform.ipp"
diff --git a/include/huira/geometry/ray.hpp b/include/huira/geometry/ray.hpp
index 102c181..b80ef34 100644
--- a/include/huira/geometry/ray.hpp
+++ b/include/huira/geometry/ray.hpp
@@ -43,6 +43,7 @@ struct HitRecord {
     unsigned int geom_id = RTC_INVALID_GEOMETRY_ID;   ///< Geometry ID in BLAS
     unsigned int prim_id = 0;                         ///< Triangle index
     Vec3<float> Ng{};                                 ///< Geometric face normal (unnormalized)
+    float time = 0.f;                                 ///< Normalized time of the ray that hit
 
     [[nodiscard]] bool hit() const noexcept { return inst_id != RTC_INVALID_GEOMETRY_ID; }
 };
diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 6640d62..c3d3005 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -1,4 +1,7 @@
+#include <algorithm>
 #include <array>
+#include <cmath>
+#include <vector>
 
 #include "embree4/rtcore.h"
 #include "huira/concepts/numeric_concepts.hpp"
@@ -251,4 +254,41 @@ Vec3<T> Transform<T>::velocity_of_local_point(const Vec3<T>& local_point) const
     Vec3<T> global_point = apply_to_point(local_point);
     return velocity_of_point(global_point);
 }
+
+/**
+ * @brief Interpolate between transforms sampled at evenly spaced times.
+ *
+ * Positions and scales are interpolated linearly and rotations spherically, which is how the
+ * motion of the instances is interpolated when rays are traced.
+ *
+ * @param transforms Transforms at evenly spaced samples of the interval
+ * @param t Normalized time in [0, 1] over the interval
+ * @return Transform<T> The transform at time t
+ */
+template <IsFloatingPoint T>
+Transform<T> interpolate_transform(const std::vector<Transform<T>>& transforms, T t)
+{
+    if (transforms.empty()) {
+        return Transform<T>{};
+    }
+    if (transforms.size() == 1) {
+        return transforms[0];
+    }
+
+    T scaled_t = std::max(T{0}, t) * static_cast<T>(transforms.size() - 1);
+    std::size_t idx = static_cast<std::size_t>(std::floor(scaled_t));
+    idx = std::min(idx, transforms.size() - 2);
+    T frac = std::min(scaled_t - static_cast<T>(idx), T{1});
+
+    const Transform<T>& a = transforms[idx];
+    const Transform<T>& b = transforms[idx + 1];
+
+    Transform<T> result;
+    result.position = a.position * (T{1} - frac) + b.position * frac;
+    result.rotation = Rotation<T>::from_local_to_parent(glm::slerp(
+        a.rotation.local_to_parent_quaternion(), b.rotation.local_to_parent_quaternion(), frac));
+    result.scale = a.scale * (T{1} - frac) + b.scale * frac;
+
+    return result;
+}
 } // namespace huira
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index aaa8f07..b76363e 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -71,37 +71,6 @@ inline float power_heuristic(float f_pdf, float g_pdf)
     return f2 / (f2 + g2);
 }
 
-inline Transform<float> interpolate_transform(const std::vector<Transform<float>>& transforms,
-                                              float t)
-{
-    if (transforms.empty()) {
-        return Transform<float>{};
-    }
-    if (transforms.size() == 1) {
-        return transforms[0];
-    }
-
-    float scaled_t = t * static_cast<float>(transforms.size() - 1);
-    std::size_t idx = static_cast<std::size_t>(std::floor(scaled_t));
-    idx = std::min(idx, transforms.size() - 2);
-    float frac = scaled_t - static_cast<float>(idx);
-
-    Transform<float> result;
-    // Linearly interpolate position
-    result.position =
-        transforms[idx].position * (1.0f - frac) + transforms[idx + 1].position * frac;
-
-    // Slerp rotation (assuming you are using glm::quat for rotations)
-    auto quat = transforms[idx].rotation.local_to_parent_quaternion();
-    auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation.from_local_to_parent(glm::slerp(quat, next_quat, frac));
-
-    // Scale interpolation
-    // result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
-
-    return result;
-}
-
 /**
  * @brief Path trace a scene view into a frame buffer.
  *
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 091e9e4..376b3ad 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -199,6 +199,7 @@ SceneView<TSpectral>::intersect(const Ray<TSpectral>& ray, float time, unsigned
     rtcIntersect1(tlas_, &rayhit, &args);
 
     HitRecord rec;
+    rec.time = time;
     if (rayhit.hit.geomID != RTC_INVALID_GEOMETRY_ID) {
         rec.t = rayhit.ray.tfar;
         rec.u = rayhit.hit.u;
@@ -310,7 +311,7 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     batch.primitive->geometry->compute_surface_interaction(hit, isect);
     isect.wo = -ray.direction();
     const auto& instance_transforms = batch.instances[mapping.instance_index];
-    const Transform<float>& xf = instance_transforms[0];
+    const Transform<float> xf = interpolate_transform(instance_transforms, hit.time);
 
     isect.position = xf.apply_to_point(isect.position);
     isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
-- 
2.43.0


From 21ab0a704be5a9911d5bf3a4374298ae0d83eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 35/67] fix: keep the irradiance resolved for an unresolved
 instance with its view

It was stored in the shared object, so that two instances of one object, or
two views, showed whatever had been resolved last.
---
 include/huira/scene/scene_view_types.hpp | 1 +
 include/huira_impl/render/renderer.ipp   | 6 +-----
 include/huira_impl/scene/scene_view.ipp  | 8 ++++++++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/huira/scene/scene_view_types.hpp b/include/huira/scene/scene_view_types.hpp
index 196bf34..70c2ea6 100644
--- a/include/huira/scene/scene_view_types.hpp
+++ b/include/huira/scene/scene_view_types.hpp
@@ -35,6 +35,7 @@ template <IsSpectral TSpectral>
 struct UnresolvedInstance {
     std::shared_ptr<UnresolvedObject<TSpectral>> unresolved_object;
     std::vector<Transform<float>> transforms; // Transform at N times
+    std::vector<TSpectral> irradiances{};     // Irradiance at N times
 };
 
 /**
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index b76363e..bd462cf 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -643,8 +643,6 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     std::vector<RenderItem<TSpectral>> items;
     items.reserve(scene_view.stars_.size() + scene_view.unresolved_objects_.size());
 
-    const auto& times = scene_view.temporal_samples_;
-
     for (const auto& star : scene_view.stars_) {
         std::vector<Vec3<float>> directions(star.size());
         std::vector<TSpectral> irradiances(star.size());
@@ -657,13 +655,11 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     }
     for (const auto& instance : scene_view.unresolved_objects_) {
         std::vector<Vec3<float>> directions(instance.transforms.size());
-        std::vector<TSpectral> irradiances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
-            irradiances[i] = instance.unresolved_object->get_irradiance(times[i]);
         }
         TrajectoryArc arc(directions);
-        items.push_back({arc, irradiances, stamp_radius});
+        items.push_back({arc, instance.irradiances, stamp_radius});
     }
 
     if (items.empty()) {
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 376b3ad..c179340 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -138,6 +138,14 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
         // interval
         unresolved_object.unresolved_object->resolve_irradiance(unresolved_object.transforms[0],
                                                                 lights_);
+
+        // Keep what was resolved for this instance: other instances of the same object, and other
+        // views, resolve it anew.
+        unresolved_object.irradiances.clear();
+        for (const auto& time : temporal_samples_) {
+            unresolved_object.irradiances.push_back(
+                unresolved_object.unresolved_object->get_irradiance(time));
+        }
     }
 
     build_tlas_();
-- 
2.43.0


From 4a90f9d07d0974afb77f9f10e4589b45cfb275e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 36/67] fix: brightness of unresolved asteroids and spheres

Distances in metres were multiplied by the astronomical unit instead of
divided by it, and a phase angle rounded past 0 or 180 degrees was NaN.
---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 4 ++--
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index c925429..919a9f1 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -179,8 +179,8 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
             double phi2 = asteroid_phi2(alpha_rad);
             double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);
 
-            double r_au = r_m * AU<double>();
-            double delta_au = delta_m * AU<double>();
+            double r_au = r_m / AU<double>();
+            double delta_au = delta_m / AU<double>();
             double apparent_visual_mag = reduced_mag + 5.0 * std::log10(r_au * delta_au);
 
             TSpectral computed_irradiance =
diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 01292a0..d12da7c 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <vector>
@@ -137,7 +138,7 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral incident_irradiance =
                 light_->irradiance_at(self_transform.position, light_inst.transforms[0]);
 
-            float phase = std::acos(glm::dot(V, L));
+            float phase = std::acos(std::clamp(glm::dot(V, L), -1.f, 1.f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
-- 
2.43.0


From ef27d56df83e9a170b6a9f89355b50c235d5b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 37/67] fix: aberration keeps apparent directions unit length

---
 include/huira_impl/core/physics.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index b2a6204..18893af 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -249,7 +249,7 @@ inline Vec3<double> compute_aberrated_direction(Vec3<double> direction, Vec3<dou
 
         // Relativistic Aberration Formula
         //    Transforms the direction vector 'u' into the moving frame 'u_app'.
-        //    Formula: u_app = (u + beta + (gamma / (1+gamma)) * (u . beta) * beta)
+        //    Formula: u_app = (u + gamma * beta + (gamma^2 / (1+gamma)) * (u . beta) * beta)
         //                     ----------------------------------------------------
         //                             gamma * (1 + u . beta)
         //
@@ -257,7 +257,8 @@ inline Vec3<double> compute_aberrated_direction(Vec3<double> direction, Vec3<dou
         // the object should appear shifted TOWARDS 'v'.
         // (u + beta) in the numerator achieves this correctly.
 
-        Vec3<double> num = direction + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
+        Vec3<double> num =
+            direction + gamma * beta + (gamma * gamma / (1.0 + gamma)) * u_dot_beta * beta;
         double den = gamma * (1.0 + u_dot_beta);
 
         return num / den;
-- 
2.43.0


From 35b2763ec79eb14ba1378248fab1f3d7c68912aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 38/67] fix: pass the periapsis distance, not the semi-major
 axis, to conics

---
 include/huira_impl/core/spice.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 834a195..da0e148 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -390,7 +390,11 @@ inline std::pair<Vec3<T>, Vec3<T>> conics(const std::array<double, 8>& elements,
     SpiceDouble et = time.et();
     SpiceDouble state[6];
 
-    call_spice(conics_c, elements.data(), et, state);
+    // SPICE takes the distance at periapsis in place of the semi-major axis
+    std::array<double, 8> spice_elements = elements;
+    spice_elements[0] = elements[0] * (1.0 - elements[1]);
+
+    call_spice(conics_c, spice_elements.data(), et, state);
 
     Vec3<T> position_km{
         static_cast<T>(state[0]), static_cast<T>(state[1]), static_cast<T>(state[2])};
-- 
2.43.0


From 10c3985d8591a15f8c4bb8568a5456d676e1a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 39/67] fix: errors while turning a state transformation into a
 rotation are reported

---
 include/huira_impl/core/spice.ipp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index da0e148..5fffa19 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -340,11 +340,15 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
     SpiceDouble matrix[3][3];
     SpiceDouble angular_velocity[3];
 
-    // Get state transformation matrix (includes rotation + derivatives)
-    call_spice(sxform_c, FROM.c_str(), TO.c_str(), et, state_xform);
+    call_spice([&]() {
+        // Get state transformation matrix (includes rotation + derivatives)
+        sxform_c(FROM.c_str(), TO.c_str(), et, state_xform);
 
-    // Extract rotation matrix and angular velocity vector
-    xf2rav_c(state_xform, matrix, angular_velocity);
+        // Extract rotation matrix and angular velocity vector
+        if (!failed_c()) {
+            xf2rav_c(state_xform, matrix, angular_velocity);
+        }
+    });
 
     // SPICE returns row-major, huira::Mat3 is column-major
     huira::Mat3<T> rotation{static_cast<T>(matrix[0][0]),
-- 
2.43.0


From 30c78ac1fa1bb3bfee4c4bcbbbd96ff85e07daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 40/67] fix: a failure to load the leap seconds carries the
 short message too

---
 include/huira_impl/core/spice.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 5fffa19..0bc1276 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -149,12 +149,14 @@ inline void ensure_lsk_loaded()
             HUIRA_LOG_INFO("Loading default LSK from: " + get_default_lsk_path().string());
             furnsh_c(get_default_lsk_path().string().c_str());
             if (failed_c()) {
+                SpiceChar short_msg[1841];
                 SpiceChar msg[1841];
+                getmsg_c("SHORT", 1841, short_msg);
                 getmsg_c("LONG", 1841, msg);
                 reset_c();
                 erract_c("SET", 0, oldAction); // Restore before throwing
                 HUIRA_THROW_ERROR("ensure_lsk_loaded() - Failed to load default LSK: " +
-                                  std::string(msg));
+                                  std::string(short_msg) + ": " + std::string(msg));
             }
         }
 
-- 
2.43.0


From 3c9910a335cf6ff40dc4aae79e87ef12b4de07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 41/67] fix: one thread at a time inside CSPICE; a stale error
 does not fail the leap second probe

---
 include/huira_impl/core/spice.ipp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 0bc1276..9cdc8a6 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -14,6 +14,13 @@
 namespace fs = std::filesystem;
 
 namespace huira::spice {
+/// CSPICE keeps its state in globals, so only one thread may be inside it at a time.
+inline std::recursive_mutex& spice_mutex()
+{
+    static std::recursive_mutex mutex;
+    return mutex;
+}
+
 inline void check_spice_error()
 {
     if (!failed_c()) {
@@ -38,6 +45,9 @@ inline void check_spice_error()
 template <typename Func, typename... Args>
 auto call_spice(Func func, Args&&... args)
 {
+    // The call, its error check and the reset belong together
+    std::lock_guard<std::recursive_mutex> lock(spice_mutex());
+
     // Initialize error handling on first call
     static bool initialized = []() {
         SpiceChar action[] = "RETURN";
@@ -100,6 +110,8 @@ inline void furnsh_relative_to_file(const fs::path& kernel_path)
         ~DirectoryGuard() { fs::current_path(original); }
     };
 
+    // Other toolkit calls must not see the temporary working directory
+    std::lock_guard<std::recursive_mutex> lock(spice_mutex());
     DirectoryGuard guard;
     fs::current_path(kernel_path.parent_path());
     call_spice([&]() { furnsh_c(kernel_path.filename().string().c_str()); });
@@ -128,6 +140,13 @@ inline void ensure_lsk_loaded()
         return;
     }
     std::call_once(lsk_init_flag, []() {
+        std::lock_guard<std::recursive_mutex> lock(spice_mutex());
+
+        // An error left behind by an earlier call says nothing about the LSK
+        if (failed_c()) {
+            reset_c();
+        }
+
         // Save current error action and set to RETURN mode
         SpiceChar oldAction[16];
         erract_c("GET", sizeof(oldAction), oldAction);
-- 
2.43.0


From 333cee6645cd20a9519f21a00f98b70f99c2e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 42/67] fix: the OpenCV lens model without coefficients does
 not move points

---
 include/huira_impl/cameras/distortion/opencv_distortion.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/distortion/opencv_distortion.ipp b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
index 6040246..c403e11 100644
--- a/include/huira_impl/cameras/distortion/opencv_distortion.ipp
+++ b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
@@ -58,7 +58,7 @@ OpenCVDistortion<TSpectral>::compute_delta_(BasePixel<TFloat> homogeneous_coords
             ? std::copysign(static_cast<TFloat>(kMinDenominator), denominator_raw)
             : denominator_raw;
 
-    const TFloat radial_factor = numerator / denominator;
+    const TFloat radial_factor = numerator / denominator - TFloat{1};
 
     // Tangential and thin prism distortion components
     const TFloat xy = x * y;
-- 
2.43.0


From e6616f19b5abbeb41f010defa7aa684ab19b1b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 43/67] fix: field of view and distorted rays reach to the
 outer edge of the last pixels

---
 include/huira_impl/cameras/camera_model.ipp | 49 +++++++++------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7be37bc..6e6bb43 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -490,8 +490,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / static_cast<float>(rx_);
+        float v = pixel[1] / static_cast<float>(ry_);
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -519,8 +519,8 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel) const
     Vec3<float> origin{0, 0, 0};
     Vec3<float> direction{0, 0, 1};
     if (distortion_) {
-        float u = pixel[0] / static_cast<float>(rx_ - 1);
-        float v = pixel[1] / static_cast<float>(ry_ - 1);
+        float u = pixel[0] / static_cast<float>(rx_);
+        float v = pixel[1] / static_cast<float>(ry_);
         direction = distortion_field_.sample_bilinear<WrapMode::Clamp>(u, v);
     } else {
         direction = pixel_to_direction_<float>(pixel);
@@ -646,10 +646,11 @@ void CameraModel<TSpectral>::compute_distortion_field_()
 {
     Resolution res = sensor_->resolution();
 
-    distortion_field_ = Image<Vec3<float>>(res, Vec3<float>{0, 0, 0});
+    // One entry per pixel corner, so that every position on the sensor lies between entries
+    distortion_field_ = Image<Vec3<float>>(res.x + 1, res.y + 1, Vec3<float>{0, 0, 0});
 
-    for (int x = 0; x < res.x; ++x) {
-        for (int y = 0; y < res.y; ++y) {
+    for (int x = 0; x <= res.x; ++x) {
+        for (int y = 0; y <= res.y; ++y) {
             Pixel pixel{static_cast<float>(x), static_cast<float>(y)};
             distortion_field_(x, y) = glm::normalize(pixel_to_direction_<float>(pixel));
         }
@@ -727,37 +728,29 @@ void CameraModel<TSpectral>::compute_frustum_()
         ydir = Vec3<float>{0, -1, 0};
     }
 
-    // Initialize the frustum side planes:
+    // The direction along each edge of the sensor that lies furthest to its side:
     Vec3<float> left_extrema{0, 0, 0};
-    float left_min_dot = 100.f;
-
     Vec3<float> right_extrema{0, 0, 0};
-    float right_min_dot = 100.f;
-
     Vec3<float> top_extrema{0, 0, 0};
-    float top_min_dot = 100.f;
-
     Vec3<float> bottom_extrema{0, 0, 0};
-    float bottom_min_dot = 100.f;
 
-    auto update = [&](int i, int j, Vec3<float>& extrema, float& min_dot) {
-        Ray<TSpectral> ray = cast_ray(i, j);
-        Vec3<float> direction = ray.direction();
-        float d = glm::dot(direction, zdir);
-        if (d < min_dot) {
+    auto update = [&](int i, int j, const Vec3<float>& side, Vec3<float>& extrema) {
+        Vec3<float> direction = pixel_to_direction_<float>(
+            Pixel{static_cast<float>(i), static_cast<float>(j)}); // at unit depth
+        if (extrema == Vec3<float>{0, 0, 0} ||
+            glm::dot(direction, side) > glm::dot(extrema, side)) {
             extrema = direction;
-            min_dot = d;
         }
     };
 
-    // Loop over all edge-pixels
-    for (int i = 0; i < res.x; ++i) {
-        update(i, 0, top_extrema, top_min_dot);
-        update(i, res.y - 1, bottom_extrema, bottom_min_dot);
+    // Loop over the outer edges of all edge-pixels
+    for (int i = 0; i <= res.x; ++i) {
+        update(i, 0, -ydir, top_extrema);
+        update(i, res.y, ydir, bottom_extrema);
     }
-    for (int j = 1; j < res.y - 1; ++j) {
-        update(0, j, left_extrema, left_min_dot);
-        update(res.x - 1, j, right_extrema, right_min_dot);
+    for (int j = 0; j <= res.y; ++j) {
+        update(0, j, -xdir, left_extrema);
+        update(res.x, j, xdir, right_extrema);
     }
 
     // Form the frustum planes:
-- 
2.43.0


From 62f41ec2fb8fcdbfabaeaa8663b0394ba6f9a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 44/67] fix: a camera follows its final settings: what derives
 from them is rebuilt, a refused setting changes nothing

---
 include/huira/cameras/camera_model.hpp      |  14 +-
 include/huira_impl/cameras/camera_model.ipp | 143 ++++++++++++--------
 2 files changed, 101 insertions(+), 56 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f4aa44e..e23c813 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -62,7 +62,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     void set_opencv_distortion(OpenCVCoefficients coeffs);
     void set_owen_distortion(OwenCoefficients coeffs);
 
-    void delete_distortion() { distortion_ = nullptr; }
+    void delete_distortion()
+    {
+        distortion_ = nullptr;
+        compute_intrinsics_();
+    }
 
     template <IsSensor<TSpectral> TSensor, typename... Args>
     void set_sensor(Args&&... args);
@@ -152,7 +156,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
         return FrameBuffer<TSpectral>(resolution());
     }
 
-    void use_blender_convention(bool value = true) { blender_convention_ = value; }
+    void use_blender_convention(bool value = true)
+    {
+        blender_convention_ = value;
+        compute_intrinsics_();
+    }
     bool is_blender_convention() const { return blender_convention_; }
 
   protected:
@@ -185,6 +193,8 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
 
     bool is_explicit_matrix_ = false;
     void compute_intrinsics_();
+    void update_blur_();
+    void update_defocus_();
 
     bool depth_of_field_ = false;
 
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 6e6bb43..72e39e3 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -33,22 +33,19 @@ CameraModel<TSpectral>::CameraModel()
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
 {
-    is_explicit_matrix_ = false;
-    focal_length_ = focal_length.to_si_f();
+    float new_focal_length = focal_length.to_si_f();
 
-    if (focal_length_ <= 0 || std::isinf(focal_length_) || std::isnan(focal_length_)) {
+    if (new_focal_length <= 0 || std::isinf(new_focal_length) || std::isnan(new_focal_length)) {
         HUIRA_THROW_ERROR(
             "CameraModel::set_focal_length - Focal length must be a positive finite value: " +
-            std::to_string(focal_length_));
+            std::to_string(new_focal_length));
     }
 
+    is_explicit_matrix_ = false;
+    focal_length_ = new_focal_length;
+
     compute_intrinsics_();
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_blur_();
 }
 
 /**
@@ -63,8 +60,7 @@ template <IsDistortion<TSpectral> TDistortion, typename... Args>
 void CameraModel<TSpectral>::set_distortion(Args&&... args)
 {
     distortion_ = std::make_unique<TDistortion>(std::forward<Args>(args)...);
-    compute_distortion_field_();
-    compute_frustum_();
+    compute_intrinsics_();
 }
 
 /**
@@ -110,6 +106,7 @@ void CameraModel<TSpectral>::set_sensor(Args&&... args)
 {
     sensor_ = std::make_unique<TSensor>(std::forward<Args>(args)...);
     compute_intrinsics_();
+    update_blur_();
 }
 
 /**
@@ -130,15 +127,6 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
                                                          std::optional<float> cx,
                                                          std::optional<float> cy)
 {
-    is_explicit_matrix_ = false;
-
-    sensor_->set_resolution(resolution);
-
-    if (!pitch_y.has_value()) {
-        pitch_y = pitch_x;
-    }
-    sensor_->set_pixel_pitch(pitch_x, pitch_y.value());
-
     float final_cx = cx.value_or(static_cast<float>(resolution.x) * 0.5f);
     float final_cy = cy.value_or(static_cast<float>(resolution.y) * 0.5f);
 
@@ -147,6 +135,19 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
         HUIRA_THROW_ERROR("CameraModel - Principal point (cx, cy) must be finite numeric values.");
     }
 
+    const Resolution old_resolution = sensor_->resolution();
+    sensor_->set_resolution(resolution);
+    try {
+        if (!pitch_y.has_value()) {
+            pitch_y = pitch_x;
+        }
+        sensor_->set_pixel_pitch(pitch_x, pitch_y.value());
+    } catch (...) {
+        sensor_->set_resolution(old_resolution);
+        throw;
+    }
+    is_explicit_matrix_ = false;
+
     if (final_cx < -static_cast<float>(resolution.x) ||
         final_cx > static_cast<float>(resolution.x) * 2.0f ||
         final_cy < -static_cast<float>(resolution.y) ||
@@ -159,6 +160,7 @@ void CameraModel<TSpectral>::configure_sensor_from_pitch(const Resolution& resol
     cy_ = final_cy;
 
     compute_intrinsics_();
+    update_blur_();
 }
 
 /**
@@ -179,20 +181,6 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
                                                         std::optional<float> cx,
                                                         std::optional<float> cy)
 {
-    is_explicit_matrix_ = false;
-
-    sensor_->set_resolution(resolution);
-
-    if (height.has_value()) {
-        sensor_->set_sensor_size(width, height.value());
-    } else {
-        // If height is not provided, assume square pixels and compute height from width and
-        // resolution
-        float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);
-        float pixel_size_y = pixel_size_x; // Square pixels
-        sensor_->set_pixel_pitch(units::Meter(pixel_size_x), units::Meter(pixel_size_y));
-    }
-
     float final_cx = cx.value_or(static_cast<float>(resolution.x) * 0.5f);
     float final_cy = cy.value_or(static_cast<float>(resolution.y) * 0.5f);
 
@@ -201,6 +189,24 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
         HUIRA_THROW_ERROR("CameraModel - Principal point (cx, cy) must be finite numeric values.");
     }
 
+    const Resolution old_resolution = sensor_->resolution();
+    sensor_->set_resolution(resolution);
+    try {
+        if (height.has_value()) {
+            sensor_->set_sensor_size(width, height.value());
+        } else {
+            // If height is not provided, assume square pixels and compute height from width and
+            // resolution
+            float pixel_size_x = width.to_si_f() / static_cast<float>(resolution.x);
+            float pixel_size_y = pixel_size_x; // Square pixels
+            sensor_->set_pixel_pitch(units::Meter(pixel_size_x), units::Meter(pixel_size_y));
+        }
+    } catch (...) {
+        sensor_->set_resolution(old_resolution);
+        throw;
+    }
+    is_explicit_matrix_ = false;
+
     if (final_cx < -static_cast<float>(resolution.x) ||
         final_cx > static_cast<float>(resolution.x) * 2.0f ||
         final_cy < -static_cast<float>(resolution.y) ||
@@ -213,6 +219,7 @@ void CameraModel<TSpectral>::configure_sensor_from_size(const Resolution& resolu
     cy_ = final_cy;
 
     compute_intrinsics_();
+    update_blur_();
 }
 
 /**
@@ -251,22 +258,30 @@ void CameraModel<TSpectral>::set_intrinsics(float fx,
                                             const Resolution& resolution,
                                             units::Millimeter anchor_focal_length)
 {
-    is_explicit_matrix_ = true;
+    const float new_focal_length = anchor_focal_length.to_si_f();
+    if (!(fx > 0.f) || !(fy > 0.f) || !(new_focal_length > 0.f) || std::isinf(fx) ||
+        std::isinf(fy) || std::isinf(new_focal_length)) {
+        HUIRA_THROW_ERROR(
+            "CameraModel::set_intrinsics - Focal lengths must be positive finite values.");
+    }
+    if (!std::isfinite(cx) || !std::isfinite(cy)) {
+        HUIRA_THROW_ERROR("CameraModel - Principal point (cx, cy) must be finite numeric values.");
+    }
+
+    // Use the anchor to compute the pixel pitch
+    sensor_->set_resolution(resolution);
+    sensor_->set_pixel_pitch(units::Meter(new_focal_length / fx),
+                             units::Meter(new_focal_length / fy));
 
+    is_explicit_matrix_ = true;
     fx_ = fx;
     fy_ = fy;
     cx_ = cx;
     cy_ = cy;
-    sensor_->set_resolution(resolution);
-    focal_length_ = anchor_focal_length.to_si_f();
-
-    // Use the anchor to compute the pixel_pitch/size
-    units::Meter px(focal_length_ / fx_);
-    units::Meter py(focal_length_ / fy_);
-    sensor_->set_pixel_pitch(px, py);
-    sensor_->set_sensor_size(px * resolution.x, py * resolution.y);
+    focal_length_ = new_focal_length;
 
     compute_intrinsics_();
+    update_blur_();
 }
 
 /**
@@ -292,6 +307,7 @@ template <IsAperture TAperture, typename... Args>
 void CameraModel<TSpectral>::set_aperture(Args&&... args)
 {
     aperture_ = std::make_unique<TAperture>(std::forward<Args>(args)...);
+    update_blur_();
 }
 
 /**
@@ -408,10 +424,7 @@ void CameraModel<TSpectral>::set_focus_distance(units::Meter focus_distance)
     }
     d_ = focus_distance_;
 
-    units::Meter pitch_x(sensor_->pixel_pitch().x);
-    units::Meter pitch_y(sensor_->pixel_pitch().y);
-    this->aperture_->build_defocus_kernel(
-        this->get_diopters(), this->focal_length(), pitch_x, pitch_y, 16);
+    update_defocus_();
 }
 
 /**
@@ -575,12 +588,7 @@ void CameraModel<TSpectral>::set_fstop(float fstop)
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_blur_();
 }
 
 /**
@@ -609,10 +617,37 @@ void CameraModel<TSpectral>::compute_intrinsics_()
         fy_ = focal_length_ / sensor_->pixel_pitch().y;
     }
 
+    if (distortion_) {
+        compute_distortion_field_();
+    }
     compute_frustum_();
     compute_pixel_solid_angles_();
 }
 
+/**
+ * @brief Rebuild what depends on aperture, focal length and pixel pitch: the PSF and the defocus.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::update_blur_()
+{
+    if (use_aperture_psf_) {
+        units::Meter f(focal_length_);
+        units::Meter px(sensor_->pixel_pitch().x);
+        units::Meter py(sensor_->pixel_pitch().y);
+        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
+    }
+    update_defocus_();
+}
+
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::update_defocus_()
+{
+    units::Meter pitch_x(sensor_->pixel_pitch().x);
+    units::Meter pitch_y(sensor_->pixel_pitch().y);
+    this->aperture_->build_defocus_kernel(
+        this->get_diopters(), this->focal_length(), pitch_x, pitch_y, 16);
+}
+
 template <IsSpectral TSpectral>
 template <IsFloatingPoint TFloat>
 Vec3<TFloat> CameraModel<TSpectral>::pixel_to_direction_(const Pixel& pixel) const
-- 
2.43.0


From a022c570651f06fadd2ab16ac1bc5e9510133fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:47 +0000
Subject: [PATCH 45/67] fix: sensors refuse a gain in dB or a bit depth without
 a finite gain and full scale

---
 include/huira/cameras/sensors/sensor_model.hpp      | 7 ++++++-
 include/huira_impl/cameras/sensors/sensor_model.ipp | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/huira/cameras/sensors/sensor_model.hpp b/include/huira/cameras/sensors/sensor_model.hpp
index f036707..4d4f615 100644
--- a/include/huira/cameras/sensors/sensor_model.hpp
+++ b/include/huira/cameras/sensors/sensor_model.hpp
@@ -55,7 +55,12 @@ struct SensorConfig {
             HUIRA_THROW_ERROR("SensorModel::set_gain_db - Gain in dB must be a finite value: " +
                               std::to_string(gain_db) + " dB");
         }
-        gain = std::pow(10.f, (unity_db - gain_db) / 20.f);
+        const float new_gain = std::pow(10.f, (unity_db - gain_db) / 20.f);
+        if (new_gain <= 0.f || std::isinf(new_gain)) {
+            HUIRA_THROW_ERROR("SensorModel::set_gain_db - Gain in dB is out of range: " +
+                              std::to_string(gain_db) + " dB");
+        }
+        gain = new_gain;
     }
     /**
      * @brief Returns the gain in dB for the sensor.
diff --git a/include/huira_impl/cameras/sensors/sensor_model.ipp b/include/huira_impl/cameras/sensors/sensor_model.ipp
index ae6993f..8a46982 100644
--- a/include/huira_impl/cameras/sensors/sensor_model.ipp
+++ b/include/huira_impl/cameras/sensors/sensor_model.ipp
@@ -1,4 +1,6 @@
 
+#include <limits>
+
 #include "huira/core/types.hpp"
 #include "huira/util/logger.hpp"
 
@@ -201,7 +203,8 @@ void SensorModel<TSpectral>::set_bias_level_dn(float bias_level_dn)
 template <IsSpectral TSpectral>
 void SensorModel<TSpectral>::set_bit_depth(int bit_depth)
 {
-    if (bit_depth <= 0) {
+    // The full scale, 2^bit_depth - 1, has to be a finite value:
+    if (bit_depth <= 0 || bit_depth >= std::numeric_limits<float>::max_exponent) {
         HUIRA_THROW_ERROR("SensorModel::set_bit_depth - Bit depth must be a positive integer: " +
                           std::to_string(bit_depth) + " bits");
     }
-- 
2.43.0


From 2583868704ff8aa33c21a89b2c2e16b2a6550e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:47 +0000
Subject: [PATCH 46/67] fix: reading out needs both images; no square root of
 negative signals, no normal distribution of zero width

---
 .../huira_impl/cameras/sensors/simple_sensor.ipp  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 737dc77..d698a34 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -18,7 +18,7 @@ namespace huira {
  * @param config Sensor configuration.
  * @param max_dn Maximum digital number (saturation level).
  * @param rng Random number generator.
- * @param read_noise_dist Normal distribution for read noise.
+ * @param read_noise_dist Unit normal distribution for read noise.
  * @return Normalized intensity in [0, 1].
  */
 template <IsSpectral TSpectral>
@@ -35,9 +35,10 @@ inline float noise_and_adc(float signal_e,
 
     float bias = 0.f;
     if (config.simulate_noise) {
-        std::normal_distribution<float> shot_dist(0.0f, std::sqrt(accumulated_e));
-        accumulated_e += shot_dist(rng);
-        accumulated_e += read_noise_dist(rng);
+        // Scaled unit distributions, as either deviation may be zero:
+        std::normal_distribution<float> shot_dist(0.0f, 1.0f);
+        accumulated_e += shot_dist(rng) * std::sqrt(std::max(accumulated_e, 0.f));
+        accumulated_e += read_noise_dist(rng) * config.read_noise;
         bias = config.bias_level_dn;
     }
 
@@ -65,6 +66,10 @@ inline float noise_and_adc(float signal_e,
 template <IsSpectral TSpectral>
 void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second exposure_time) const
 {
+    if (!fb.has_received_power() || !fb.has_sensor_response()) {
+        return;
+    }
+
     Image<TSpectral>& received_power = fb.received_power();
     auto& output = fb.sensor_response();
     output.set_sensor_bit_depth(this->config_.bit_depth);
@@ -73,7 +78,7 @@ void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second
 
     // TODO Move this somewhere else?
     static std::mt19937 rng(1);
-    std::normal_distribution<float> read_noise_dist(0.0f, this->config_.read_noise);
+    std::normal_distribution<float> read_noise_dist(0.0f, 1.0f);
 
     const TSpectral photon_energy = TSpectral::photon_energies();
     float max_dn = std::pow(2.f, static_cast<float>(this->config_.bit_depth)) - 1.f;
-- 
2.43.0


From 7c400f5162af4b5a1b6e978da83b14cf45eef1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 47/67] fix: every tile draws from its own random stream and
 keeps its own ray time

---
 include/huira_impl/render/renderer.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index bd462cf..e98d679 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -106,7 +106,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
     int tiles_x = (fb_width + TILE_SIZE - 1) / TILE_SIZE;
     int tiles_y = (fb_height + TILE_SIZE - 1) / TILE_SIZE;
     int num_tiles = tiles_x * tiles_y;
-    float time = 0.f;
     const bool has_motion_blur = scene_view.temporal_samples_.size() > 1;
 
     tbb::parallel_for(
@@ -122,6 +121,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                 // Per-tile RNG seeded from tile index for reproducibility:
                 RandomSampler<float> sampler(static_cast<unsigned int>(tile_idx));
+                float time = 0.f;
 
                 for (int y = y0; y < y1; ++y) {
                     for (int x = x0; x < x1; ++x) {
@@ -201,7 +201,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                       time);
 
                                             auto sample = light_instance.light->sample_li(
-                                                vol_isect, current_transform, this->sampler_);
+                                                vol_isect, current_transform, sampler);
 
                                             if (!sample) {
                                                 continue;
@@ -360,7 +360,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             interpolate_transform(light_instance.transforms, time);
 
                                         auto sample = light_instance.light->sample_li(
-                                            isect, current_transform, this->sampler_);
+                                            isect, current_transform, sampler);
 
                                         if (!sample) {
                                             continue;
-- 
2.43.0


From 91240abf7fbe073b27de4867fe635aeafb74dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 48/67] fix: pixels that see no geometry get no normals instead
 of NaN

---
 include/huira_impl/render/renderer.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index e98d679..0dd542f 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -489,13 +489,16 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                 }
                             }
                         }
-                        float inv_spp = 1.0f / static_cast<float>(samples_taken);
+                        float inv_spp = 1.0f / static_cast<float>(std::max(samples_taken, 1));
 
                         // Average over samples and write to frame buffer:
                         TSpectral avg_radiance = pixel_radiance * inv_spp;
                         TSpectral direct_radiance = pixel_direct_radiance * inv_spp;
                         TSpectral indirect_radiance = pixel_indirect_radiance * inv_spp;
-                        Vec3<float> avg_camera_normals = glm::normalize(camera_normals * inv_spp);
+                        Vec3<float> avg_camera_normals{0};
+                        if (glm::length(camera_normals) > 0.0f) {
+                            avg_camera_normals = glm::normalize(camera_normals);
+                        }
 
                         if (frame_buffer.has_depth()) {
                             if (closest_depth < std::numeric_limits<float>::infinity()) {
-- 
2.43.0


From 85c67cdea4c98a6f19cfa17a32cbaf0e92ba9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 49/67] fix: geometry hides point sources and veiling glare
 applies whichever outputs are enabled

---
 include/huira_impl/render/renderer.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 0dd542f..124dccb 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -34,16 +34,22 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
 
     frame_buffer.clear();
 
+    // Geometry hides unresolved sources also when no depth output was asked for:
+    const bool has_depth_output = frame_buffer.has_depth();
+    frame_buffer.enable_depth();
+
     Image<TSpectral> ray_traced_power = this->path_trace_(scene_view, frame_buffer);
 
     Image<TSpectral> star_power = this->render_unresolved_(scene_view, frame_buffer);
 
+    frame_buffer.enable_depth(has_depth_output);
+
     if (frame_buffer.has_received_power()) {
         frame_buffer.received_power() = ray_traced_power + star_power;
     }
 
     // Apply Veiling Glare
-    if (camera->veiling_glare_enabled_) {
+    if (camera->veiling_glare_enabled_ && frame_buffer.has_received_power()) {
         float unveiled = 1.f - camera->veiling_alpha_;
         TSpectral total_power{0.f};
         for (std::size_t i = 0; i < frame_buffer.received_power().size(); ++i) {
-- 
2.43.0


From bf60028034752a88219807ea7604935ffc027231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 50/67] fix: point sources land on the pixel they fall in,
 nearer than geometry they are not hidden, moving ones give their share of the
 exposure

---
 include/huira_impl/render/renderer.ipp | 52 ++++++++++++++++----------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 124dccb..de14bb6 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -565,28 +565,34 @@ template <IsSpectral TSpectral>
 struct RenderItem {
     RenderItem(TrajectoryArc set_arc,
                std::vector<TSpectral> set_irradiance,
-               int set_effective_radius)
+               int set_effective_radius,
+               std::vector<float> set_distance = {std::numeric_limits<float>::infinity()})
         : arc(std::move(set_arc)), irradiance(std::move(set_irradiance)),
-          effective_radius(set_effective_radius)
+          distance(std::move(set_distance)), effective_radius(set_effective_radius)
     {
     }
 
     TrajectoryArc arc;
     std::vector<TSpectral> irradiance;
+    std::vector<float> distance;
     int effective_radius;
 
-    TSpectral interpolate_irradiances(float t) const
+    TSpectral interpolate_irradiances(float t) const { return interpolate(irradiance, t); }
+    float interpolate_distances(float t) const { return interpolate(distance, t); }
+
+    template <typename T>
+    static T interpolate(const std::vector<T>& samples, float t)
     {
-        if (irradiance.size() == 1) {
-            return irradiance[0];
+        if (samples.size() == 1) {
+            return samples[0];
         }
 
-        float scaled = t * static_cast<float>(irradiance.size() - 1);
+        float scaled = t * static_cast<float>(samples.size() - 1);
         std::size_t lo = static_cast<std::size_t>(std::floor(scaled));
-        lo = std::min(lo, irradiance.size() - 2);
+        lo = std::min(lo, samples.size() - 2);
         float frac = scaled - static_cast<float>(lo);
 
-        return irradiance[lo] + frac * (irradiance[lo + 1] - irradiance[lo]);
+        return samples[lo] + frac * (samples[lo + 1] - samples[lo]);
     }
 
     float max_irradiance() const
@@ -664,11 +670,13 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     }
     for (const auto& instance : scene_view.unresolved_objects_) {
         std::vector<Vec3<float>> directions(instance.transforms.size());
+        std::vector<float> distances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
+            distances[i] = glm::length(instance.transforms[i].position);
         }
         TrajectoryArc arc(directions);
-        items.push_back({arc, instance.irradiances, stamp_radius});
+        items.push_back({arc, instance.irradiances, stamp_radius, distances});
     }
 
     if (items.empty()) {
@@ -714,6 +722,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
         float weight;
         TSpectral irradiance;
         Vec3<float> direction;
+        float distance;
     };
 
     std::vector<std::vector<ProjectedItem>> tile_bins(static_cast<std::size_t>(num_tiles));
@@ -796,7 +805,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 } else {
                     dt = (params[k + 1] - params[k - 1]) / 2.0f;
                 }
-                float weight = dt / (t_end - t_start); // normalize so weights sum to ~1
+                float weight = dt; // the share of the exposure, all visible shares sum to ~1
 
                 // Interpolate irradiance at this parameter value:
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
@@ -810,7 +819,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 int ty = std::clamp(static_cast<int>(p.y) / TILE_SIZE, 0, tiles_y - 1);
 
                 tile_bins[static_cast<std::size_t>(ty * tiles_x + tx)].push_back(
-                    {i, p, weight, irrad, dir});
+                    {i, p, weight, irrad, dir, item.interpolate_distances(params[k])});
             }
         }
     }
@@ -819,7 +828,9 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     const auto& depth_buffer = frame_buffer.depth();
     bool has_depth = frame_buffer.has_depth();
 
-    int margin = stamp_radius;
+    // A stamp is centered on the pixel whose center is nearest to the left and top, which can be
+    // the last one of the tile before:
+    int margin = stamp_radius + 1;
 
     struct TileBuffer {
         Image<TSpectral> buf;
@@ -859,9 +870,13 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                     const auto& item = items[proj.item_idx];
                     const Pixel& star_p = proj.projected;
 
+                    // Pixel (x, y) covers [x, x + 1) x [y, y + 1):
+                    int px = std::min(static_cast<int>(star_p.x), fb_width - 1);
+                    int py = std::min(static_cast<int>(star_p.y), fb_height - 1);
+
                     bool unobstructed = true;
                     if (has_depth) {
-                        if (!std::isinf(depth_buffer(star_p))) {
+                        if (depth_buffer(px, py) < proj.distance) {
                             unobstructed = false;
                         }
                     }
@@ -873,10 +888,11 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                     TSpectral power = proj.weight * proj.irradiance * projected_area;
 
                     if (stamp_radius > 0) {
-                        float floor_x = std::floor(star_p.x);
-                        float floor_y = std::floor(star_p.y);
-                        float frac_x = star_p.x - floor_x;
-                        float frac_y = star_p.y - floor_y;
+                        // Kernels are shifted from the pixel center:
+                        float floor_x = std::floor(star_p.x - 0.5f);
+                        float floor_y = std::floor(star_p.y - 0.5f);
+                        float frac_x = (star_p.x - 0.5f) - floor_x;
+                        float frac_y = (star_p.y - 0.5f) - floor_y;
 
                         int eff_r = item.effective_radius;
 
@@ -933,8 +949,6 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                             }
                         }
                     } else {
-                        int px = static_cast<int>(std::round(star_p.x));
-                        int py = static_cast<int>(std::round(star_p.y));
                         if (px >= local_x0 && px < local_x1 && py >= local_y0 && py < local_y1) {
                             local_buf(px - local_x0, py - local_y0) += power;
                         }
-- 
2.43.0


From e171d9dba1a457d1aeb2c8864cded6fcb8b91373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 51/67] fix: PSF kernels are integrated over whole shifted
 pixels

---
 include/huira_impl/cameras/psfs/psf.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/psfs/psf.ipp b/include/huira_impl/cameras/psfs/psf.ipp
index d1ba086..6ae265c 100644
--- a/include/huira_impl/cameras/psfs/psf.ipp
+++ b/include/huira_impl/cameras/psfs/psf.ipp
@@ -80,7 +80,8 @@ void PSF<TSpectral>::generate_polyphase_data_()
     std::vector<TSpectral> lut_data(static_cast<std::size_t>(lut_res) *
                                     static_cast<std::size_t>(lut_res));
 
-    float max_radius = static_cast<float>(cache_.radius) + 1.0f;
+    // A pixel reaches half a pixel beyond its center, and a bank shifts it by up to one:
+    float max_radius = static_cast<float>(cache_.radius) + 1.5f;
     float lut_scale_inv = 1.0f / static_cast<float>(lut_res - 1);
 
     tbb::parallel_for(
-- 
2.43.0


From 924bea56508dac7e3e481ac83258915a7e9bee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 52/67] fix: meshes of partial triangles are refused, no NaN at
 the poles of an ellipsoid

---
 include/huira_impl/geometry/ellipsoid.ipp | 3 ++-
 include/huira_impl/geometry/mesh.ipp      | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 030b8a0..e3bf293 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -159,7 +160,7 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
         Vec3<float> P_unit = glm::normalize(O_s + t_u * D_u);
         float u = (std::atan2(P_unit.y, P_unit.x) + PI<float>()) / (2.0f * PI<float>());
-        float v = std::acos(P_unit.z) / PI<float>();
+        float v = std::acos(std::clamp(P_unit.z, -1.0f, 1.0f)) / PI<float>();
 
         RTCHitN_u(hit, args->N, 0) = u;
         RTCHitN_v(hit, args->N, 0) = v;
diff --git a/include/huira_impl/geometry/mesh.ipp b/include/huira_impl/geometry/mesh.ipp
index eae9e8e..8b69b65 100644
--- a/include/huira_impl/geometry/mesh.ipp
+++ b/include/huira_impl/geometry/mesh.ipp
@@ -22,6 +22,9 @@ Mesh<TSpectral>::Mesh(IndexBuffer index_buffer, VertexBuffer<TSpectral> vertex_b
     : index_buffer_(std::move(index_buffer)), vertex_buffer_(std::move(vertex_buffer))
 {
     HUIRA_TRACE_SCOPE("Mesh::Mesh(index_buffer, vertex_buffer)");
+    if (index_buffer_.size() % 3 != 0) {
+        HUIRA_THROW_ERROR("Mesh::Mesh - index_buffer must contain whole triangles.");
+    }
     const auto c = vertex_buffer_.size();
     if (std::ranges::any_of(index_buffer_, [c](std::uint32_t i) { return i >= c; })) {
         HUIRA_THROW_ERROR("Mesh::Mesh - index_buffer contains out-of-bounds indices.");
@@ -36,6 +39,9 @@ Mesh<TSpectral>::Mesh(IndexBuffer index_buffer,
       tangent_buffer_(std::move(tangent_buffer))
 {
     HUIRA_TRACE_SCOPE("Mesh::Mesh(index_buffer, vertex_buffer, tangent_buffer)");
+    if (index_buffer_.size() % 3 != 0) {
+        HUIRA_THROW_ERROR("Mesh::Mesh - index_buffer must contain whole triangles.");
+    }
     const auto vertex_count = vertex_buffer_.size();
     if (std::ranges::any_of(index_buffer_,
                             [vertex_count](std::uint32_t idx) { return idx >= vertex_count; })) {
-- 
2.43.0


From ddc69284ca3cc0c7b30bcd23b811d4287515e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 53/67] fix: world normals are turned by the camera's pose, not
 its inverse

---
 include/huira_impl/scene/scene_view.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index c179340..3b0477d 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -62,7 +62,7 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
 
         observer_transforms[i] = obs_ssb;
         observer_inverses[i] = obs_ssb.inverse();
-        camera_to_world_[i] = static_cast<Transform<float>>(observer_inverses[i]);
+        camera_to_world_[i] = static_cast<Transform<float>>(obs_ssb);
     }
 
     // Copy the background radiance:
-- 
2.43.0


From c6ba2a921ed406a093434b1d5160355238e50424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 54/67] fix: shading frames are finite and perpendicular
 without tangents, with uneven scale and with empty normal texels

---
 include/huira_impl/materials/material.ipp | 20 ++++++++++-----
 include/huira_impl/scene/scene_view.ipp   | 30 +++++++++++++++++------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/include/huira_impl/materials/material.ipp b/include/huira_impl/materials/material.ipp
index f32a2f6..4e780ae 100644
--- a/include/huira_impl/materials/material.ipp
+++ b/include/huira_impl/materials/material.ipp
@@ -43,22 +43,30 @@ MaterialEval<TSpectral> Material<TSpectral>::evaluate(const Interaction<TSpectra
 
     if (eval_normal_) {
         if (isect.tangent != Vec3<float>{0.0f}) {
-            Vec3<float> ts_normal = glm::normalize(normal_image_->sample_bilinear(uv.x, uv.y));
+            Vec3<float> ts_normal = normal_image_->sample_bilinear(uv.x, uv.y);
 
             ts_normal.x *= normal_factor_;
             ts_normal.y *= normal_factor_;
-            ts_normal = glm::normalize(ts_normal);
 
             Vec3<float> perturbed = isect.tangent * ts_normal.x + isect.bitangent * ts_normal.y +
                                     isect.normal_s * ts_normal.z;
-            shading_isect.normal_s = glm::normalize(perturbed);
+            // A texel that encodes no direction leaves the normal as it is:
+            if (glm::length(perturbed) > 0.0f) {
+                shading_isect.normal_s = glm::normalize(perturbed);
+            }
         }
     }
 
     // Keep the original tangent/bitangent, just orthogonalize against new normal
-    shading_isect.tangent = glm::normalize(
-        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s);
-    shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    const Vec3<float> tangent =
+        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s;
+    if (glm::length(tangent) > 1e-4f) {
+        shading_isect.tangent = glm::normalize(tangent);
+        shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    } else {
+        build_default_tangent_frame(
+            shading_isect.normal_s, shading_isect.tangent, shading_isect.bitangent);
+    }
 
     MaterialEval<TSpectral> result{};
     result.params = params;
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 3b0477d..7a02f58 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -322,19 +322,35 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     const Transform<float> xf = interpolate_transform(instance_transforms, hit.time);
 
     isect.position = xf.apply_to_point(isect.position);
-    isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
+
+    // Normals transform by the inverse transpose (its cofactors, which are finite for any scale):
+    const auto transform_normal = [&xf](const Vec3<float>& n) {
+        const Vec3<float>& s = xf.scale;
+        return xf.rotation * Vec3<float>{n.x * s.y * s.z, n.y * s.z * s.x, n.z * s.x * s.y};
+    };
+    isect.normal_g = glm::normalize(transform_normal(glm::normalize(hit.Ng)));
     isect.normal_g =
         glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
-    isect.normal_s = glm::normalize(
-        xf.apply_to_direction(isect.normal_s)); // TODO Do we need to invert this as well?
+
+    // Without a usable shading normal, use the geometric one:
+    const Vec3<float> normal_s = transform_normal(isect.normal_s);
+    isect.normal_s =
+        glm::length(normal_s) > 0.0f ? glm::normalize(normal_s) : isect.normal_g;
     if (glm::dot(isect.normal_s, isect.normal_g) < 0.0f) {
         isect.normal_s = -isect.normal_s;
     }
 
-    isect.tangent = glm::normalize(xf.apply_to_direction(isect.tangent));
-    isect.bitangent = glm::normalize(xf.apply_to_direction(isect.bitangent));
-    if (glm::dot(glm::cross(isect.tangent, isect.bitangent), isect.normal_s) < 0.0f) {
-        isect.bitangent = -isect.bitangent;
+    // Complete the shading frame around the normal; without a usable tangent any will do:
+    Vec3<float> tangent = xf.apply_to_direction(isect.tangent);
+    const float tangent_length = glm::length(tangent);
+    tangent -= glm::dot(tangent, isect.normal_s) * isect.normal_s;
+    if (glm::length(tangent) > 1e-4f * tangent_length) {
+        tangent = glm::normalize(tangent);
+        isect.tangent =
+            glm::normalize(tangent - glm::dot(tangent, isect.normal_s) * isect.normal_s);
+        isect.bitangent = glm::cross(isect.normal_s, isect.tangent);
+    } else {
+        build_default_tangent_frame(isect.normal_s, isect.tangent, isect.bitangent);
     }
 
     return isect;
-- 
2.43.0


From 2dc6787b40cb59babe9e5a3e9413f2f95a94ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 55/67] fix: BMP reader refuses impossible headers, foreign bit
 fields and overlapping pixel data

---
 include/huira_impl/images/io/bmp_io.ipp | 34 +++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 3d68983..953e840 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstring>
 #include <filesystem>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -65,7 +66,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(dib_size) + ")");
     }
 
-    if (size < 14 + dib_size) {
+    if (dib_size > size - 14) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in DIB header");
     }
 
@@ -92,6 +93,27 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    if (compression == 3) {
+        // Only the byte order this reader assumes is supported
+        uint32_t masks[3] = {0, 0, 0};
+        if (bits_per_pixel == 32 && size >= 54 + sizeof(masks)) {
+            std::memcpy(masks, &data[54], sizeof(masks));
+        }
+        if (masks[0] != 0x00FF0000u || masks[1] != 0x0000FF00u || masks[2] != 0x000000FFu) {
+            HUIRA_THROW_ERROR("read_bmp_raw_ - Unsupported BMP bit fields");
+        }
+    }
+
+    // The height is negative for top-down images; its most negative value has no magnitude
+    if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions (" + std::to_string(raw_width) +
+                          " x " + std::to_string(raw_height) + ")");
+    }
+
+    if (pixel_offset < 14 + static_cast<std::size_t>(dib_size)) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Pixel data overlaps the BMP headers");
+    }
+
     int width = static_cast<int>(raw_width);
     bool flip_vertical = (raw_height > 0);
     int height = (raw_height > 0) ? static_cast<int>(raw_height) : static_cast<int>(-raw_height);
@@ -102,7 +124,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // BMP rows are padded to 4-byte boundaries
     std::size_t row_stride =
-        (static_cast<std::size_t>(width * file_channels) + 3) & ~static_cast<std::size_t>(3);
+        (static_cast<std::size_t>(width) * static_cast<std::size_t>(file_channels) + 3) & ~static_cast<std::size_t>(3);
 
     std::size_t required_size =
         static_cast<std::size_t>(pixel_offset) + row_stride * static_cast<std::size_t>(height);
@@ -115,16 +137,18 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // Convert from BGR(A) bottom-up to RGB(A) top-down
     std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
-                                        static_cast<std::size_t>(height * out_channels));
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(out_channels));
 
     for (int y = 0; y < height; ++y) {
         int src_y = flip_vertical ? (height - 1 - y) : y;
         const unsigned char* src_row = pixel_data + static_cast<std::size_t>(src_y) * row_stride;
 
         for (int x = 0; x < width; ++x) {
-            std::size_t src_idx = static_cast<std::size_t>(x * file_channels);
+            std::size_t src_idx = static_cast<std::size_t>(x) * static_cast<std::size_t>(file_channels);
             std::size_t dst_idx =
-                (static_cast<std::size_t>(y * width) + static_cast<std::size_t>(x)) *
+                (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
+                 static_cast<std::size_t>(x)) *
                 static_cast<std::size_t>(out_channels);
 
             // BMP stores BGR(A), convert to RGB(A)
-- 
2.43.0


From 260a8d7c0c10f6221ebd091bf668af7c09b82d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 56/67] fix: TGA reader honours the right-hand origin and
 refuses unreadable depths, colour maps and packets past the image

---
 include/huira_impl/images/io/tga_io.ipp | 29 +++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 2a2fd28..93a684b 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -78,6 +78,7 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
     int width = static_cast<int>(width_u16);
     int height = static_cast<int>(height_u16);
     bool top_origin = (descriptor & 0x20) != 0;
+    bool right_origin = (descriptor & 0x10) != 0;
 
     // Validate image type
     bool is_rle = (image_type == 9 || image_type == 10 || image_type == 11);
@@ -133,6 +134,20 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
         has_alpha = (pixel_depth == 32);
     }
 
+    // What remains are the formats with whole bytes for every channel
+    if (is_color_mapped) {
+        if (pixel_depth != 8 && pixel_depth != 16) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA color map index size (" +
+                              std::to_string(static_cast<int>(pixel_depth)) + ")");
+        }
+        if (color_map.empty() || (cm_entry_size != 24 && cm_entry_size != 32)) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Missing or unsupported TGA color map");
+        }
+    } else if (is_gray ? pixel_depth != 8 : (pixel_depth != 24 && pixel_depth != 32)) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA pixel depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) + ")");
+    }
+
     int out_channels = has_alpha ? 4 : 3;
 
     // Read pixel data (raw or RLE)
@@ -143,7 +158,11 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
     std::vector<unsigned char> pixel_indices;
 
     if (is_rle) {
-        // RLE decode
+        // RLE decode. A packet holds up to 128 pixels in a header byte and at least one pixel value,
+        // so what is left of the file bounds the image it can declare.
+        if (num_pixels > (size - pos) / (1 + index_bytes) * 128) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
+        }
         pixel_indices.resize(num_pixels * index_bytes);
         std::size_t pixels_decoded = 0;
 
@@ -173,6 +192,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 if (pos + bytes_to_read > size) {
                     HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
                 }
+                if (static_cast<std::size_t>(count) > num_pixels - pixels_decoded) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - RLE data runs past the end of the image");
+                }
                 std::memcpy(
                     &pixel_indices[pixels_decoded * index_bytes], data + pos, bytes_to_read);
                 pos += bytes_to_read;
@@ -197,7 +219,7 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
         for (int x = 0; x < width; ++x) {
             std::size_t src_pixel =
                 static_cast<std::size_t>(src_y) * static_cast<std::size_t>(width) +
-                static_cast<std::size_t>(x);
+                static_cast<std::size_t>(right_origin ? width - 1 - x : x);
             std::size_t dst_idx = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
                                    static_cast<std::size_t>(x)) *
                                   static_cast<std::size_t>(out_channels);
@@ -211,6 +233,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 } else if (pixel_depth == 16) {
                     std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));
                 }
+                if (index < cm_first_index || index - cm_first_index >= cm_length) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - Pixel outside the color map");
+                }
                 index = static_cast<uint16_t>(index - cm_first_index);
                 const unsigned char* src_ptr =
                     &color_map[static_cast<std::size_t>(index) *
-- 
2.43.0


From 0c078d8bdbf6d10c72c144b42f67469ca1cdd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 57/67] fix: HDR reader decodes old-style runs, both
 orientations and refuses damaged headers

---
 include/huira_impl/images/io/hdr_io.ipp | 77 ++++++++++++++++++-------
 1 file changed, 57 insertions(+), 20 deletions(-)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 0b98c33..284fbef 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -132,8 +132,10 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
             break;
         }
 
-        if (line.find("FORMAT=32-bit_rle_rgbe") != std::string::npos ||
-            line.find("FORMAT=32-bit_rle_xyze") != std::string::npos) {
+        if (line.find("FORMAT=32-bit_rle_xyze") != std::string::npos) {
+            HUIRA_THROW_ERROR("read_hdr_raw_ - XYZE pixels are not supported");
+        }
+        if (line.find("FORMAT=32-bit_rle_rgbe") != std::string::npos) {
             found_format = true;
         }
     }
@@ -149,6 +151,8 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
 
     int width = 0;
     int height = 0;
+    bool bottom_to_top = false;
+    bool right_to_left = false;
 
     auto parse_resolution = [&](const std::string& prefix_y, const std::string& prefix_x) -> bool {
         if (line.find(prefix_y) != 0) {
@@ -169,11 +173,12 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
     if (parse_resolution("-Y", "+X")) {
         /* Standard top-to-bottom, left-to-right */
     } else if (parse_resolution("+Y", "+X")) {
-        /* Bottom-to-top variant */
+        bottom_to_top = true;
     } else if (parse_resolution("-Y", "-X")) {
-        /* Right-to-left variant */
+        right_to_left = true;
     } else if (parse_resolution("+Y", "-X")) {
-        /* Both flipped */
+        bottom_to_top = true;
+        right_to_left = true;
     } else {
         HUIRA_THROW_ERROR("read_hdr_raw_ - Unsupported resolution format: \"" + line + "\"");
     }
@@ -185,6 +190,15 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
 
     // Decode scanlines
     std::size_t num_pixels = static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
+
+    // Every scanline takes at least four bytes, and no encoding makes more than a full run-length
+    // encoded scanline out of one
+    std::size_t remaining_size = size - cur.pos;
+    if (static_cast<std::size_t>(height) > remaining_size / 4 ||
+        num_pixels / 32768 > remaining_size) {
+        HUIRA_THROW_ERROR("read_hdr_raw_ - Unexpected end of data");
+    }
+
     std::vector<float> raw_data(num_pixels * 3);
 
     std::vector<unsigned char> scanline(static_cast<std::size_t>(width) * 4);
@@ -197,7 +211,8 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                               std::to_string(y));
         }
 
-        bool is_new_rle = (header[0] == 2 && header[1] == 2 &&
+        // Narrower and wider scanlines cannot be run-length encoded
+        bool is_new_rle = (width >= 8 && width <= 32767 && header[0] == 2 && header[1] == 2 &&
                            ((static_cast<int>(header[2]) << 8) | header[3]) == width);
 
         if (is_new_rle) {
@@ -213,11 +228,14 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                     if (byte > 128) {
                         // Run: repeat next byte (byte - 128) times
                         int count = byte - 128;
+                        if (count > width - pos) {
+                            HUIRA_THROW_ERROR("read_hdr_raw_ - Run past the end of a scanline");
+                        }
                         int val = cur.getc();
                         if (val == -1) {
                             HUIRA_THROW_ERROR("read_hdr_raw_ - Unexpected end of RLE data");
                         }
-                        for (int i = 0; i < count && pos < width; ++i) {
+                        for (int i = 0; i < count; ++i) {
                             scanline[static_cast<std::size_t>(pos) * 4 +
                                      static_cast<std::size_t>(ch)] =
                                 static_cast<unsigned char>(val);
@@ -226,7 +244,10 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                     } else {
                         // Literal: read 'byte' values
                         int count = byte;
-                        for (int i = 0; i < count && pos < width; ++i) {
+                        if (count > width - pos) {
+                            HUIRA_THROW_ERROR("read_hdr_raw_ - Run past the end of a scanline");
+                        }
+                        for (int i = 0; i < count; ++i) {
                             int val = cur.getc();
                             if (val == -1) {
                                 HUIRA_THROW_ERROR("read_hdr_raw_ - Unexpected end of RLE data");
@@ -240,16 +261,30 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                 }
             }
         } else {
-            // Old-style: first 4 bytes are already the first RGBE pixel
-            scanline[0] = header[0];
-            scanline[1] = header[1];
-            scanline[2] = header[2];
-            scanline[3] = header[3];
-
-            // Read remaining pixels for this scanline
-            if (width > 1) {
-                std::size_t remaining = static_cast<std::size_t>(width - 1) * 4;
-                if (!cur.read(&scanline[4], remaining)) {
+            // Old-style: pixels as they are, where (1, 1, 1, n) repeats the one before n times.
+            // Repeats that follow each other are the digits of one count, lowest first.
+            const unsigned char* pixel = header;
+            std::size_t x = 0;
+            int shift = 0;
+            while (true) {
+                if (pixel[0] == 1 && pixel[1] == 1 && pixel[2] == 1) {
+                    std::size_t count = shift <= 24 ? static_cast<std::size_t>(pixel[3]) << shift : 0;
+                    if (x == 0 || shift > 24 || count > static_cast<std::size_t>(width) - x) {
+                        HUIRA_THROW_ERROR("read_hdr_raw_ - Invalid repeat in a scanline");
+                    }
+                    for (std::size_t i = 0; i < count; ++i, ++x) {
+                        std::memcpy(&scanline[x * 4], &scanline[(x - 1) * 4], 4);
+                    }
+                    shift += 8;
+                } else {
+                    std::memcpy(&scanline[x * 4], pixel, 4);
+                    ++x;
+                    shift = 0;
+                }
+                if (x == static_cast<std::size_t>(width)) {
+                    break;
+                }
+                if (!cur.read(header, 4)) {
                     HUIRA_THROW_ERROR("read_hdr_raw_ - Unexpected end of data");
                 }
             }
@@ -258,8 +293,10 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
         // Convert RGBE scanline to float RGB
         for (int x = 0; x < width; ++x) {
             std::size_t src = static_cast<std::size_t>(x) * 4;
-            std::size_t dst = (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
-                               static_cast<std::size_t>(x)) *
+            int dst_x = right_to_left ? width - 1 - x : x;
+            int dst_y = bottom_to_top ? height - 1 - y : y;
+            std::size_t dst = (static_cast<std::size_t>(dst_y) * static_cast<std::size_t>(width) +
+                               static_cast<std::size_t>(dst_x)) *
                               3;
 
             rgbe_to_float_(&scanline[src], raw_data[dst], raw_data[dst + 1], raw_data[dst + 2]);
-- 
2.43.0


From 24dc6dd243056aa7046953cd1432eca473ee67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 58/67] fix: pictures read from HDR files are marked as linear

---
 include/huira_impl/images/io/hdr_io.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 284fbef..c01ebd7 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -331,6 +331,7 @@ inline ImageBundle<RGB> read_image_hdr(const unsigned char* data, std::size_t si
     auto hdr_data = read_hdr_raw_(data, size);
 
     ImageBundle<RGB> bundle{Image<RGB>(hdr_data.resolution)};
+    bundle.color_space = ColorSpaceHint::Linear;
     for (int y = 0; y < hdr_data.height; ++y) {
         for (int x = 0; x < hdr_data.width; ++x) {
             std::size_t idx =
@@ -379,6 +380,7 @@ inline ImageBundle<float> read_image_hdr_mono(const unsigned char* data, std::si
     auto hdr_data = read_hdr_raw_(data, size);
 
     ImageBundle<float> bundle{Image<float>(hdr_data.resolution)};
+    bundle.color_space = ColorSpaceHint::Linear;
 
     for (int y = 0; y < hdr_data.height; ++y) {
         for (int x = 0; x < hdr_data.width; ++x) {
-- 
2.43.0


From 66b336a825414e9937d2bf637949fb19051f2490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 59/67] fix: float_to_integer turns NaN into 0 instead of an
 undefined conversion

---
 include/huira_impl/images/io/convert_pixel.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/convert_pixel.ipp b/include/huira_impl/images/io/convert_pixel.ipp
index bb12849..8eac9c3 100644
--- a/include/huira_impl/images/io/convert_pixel.ipp
+++ b/include/huira_impl/images/io/convert_pixel.ipp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <cmath>
 #include <limits>
 
 #include "huira/concepts/numeric_concepts.hpp"
@@ -100,7 +102,7 @@ template <IsUnsignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
     float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
+    normalized = std::isnan(normalized) ? 0.0f : std::clamp(normalized, 0.0f, 1.0f);
     return static_cast<T>(normalized * static_cast<float>(std::numeric_limits<T>::max()) + 0.5f);
 }
 
-- 
2.43.0


From 7a602cd2bd0a910e1f443bd7bee876eac087b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 60/67] fix: PNG reader tells the bit depth of the file

---
 include/huira_impl/images/io/png_io.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index bd5c189..36a1c3e 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -306,6 +306,7 @@ inline ImageBundle<RGB> read_image_png(const unsigned char* data, std::size_t si
     ImageBundle<RGB> bundle{Image<RGB>(png_data.resolution)};
 
     read_color_space(png_data.color_info, bundle);
+    bundle.bit_depth = png_data.final_bit_depth;
 
     png_data.has_alpha = read_alpha && png_data.has_alpha;
     if (png_data.has_alpha) {
@@ -399,6 +400,7 @@ read_image_png_mono(const unsigned char* data, std::size_t size, bool read_alpha
     ImageBundle<float> bundle{Image<float>(png_data.resolution)};
 
     read_color_space(png_data.color_info, bundle);
+    bundle.bit_depth = png_data.final_bit_depth;
 
     png_data.has_alpha = read_alpha && png_data.has_alpha;
 
-- 
2.43.0


From 160ab232fa2b61610e8a8a2f2abde69809841bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 61/67] fix: TIFF writer keeps the alpha image, rounds samples
 and refuses empty images; the reader tells the bit depth

---
 include/huira_impl/images/io/tiff_io.ipp | 105 +++++++++++++++++------
 1 file changed, 78 insertions(+), 27 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 9f47b9f..8f174d8 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -40,6 +40,7 @@ struct TIFFData {
 
     std::vector<std::vector<float>> channels;
     std::size_t num_channels = 0;
+    int bit_depth = 8;
 
     uint16_t photometric = PHOTOMETRIC_MINISBLACK;
     bool has_alpha = false;
@@ -462,6 +463,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     tiff_data.height = static_cast<int>(height);
     tiff_data.channels = std::move(channels);
     tiff_data.num_channels = num_channels;
+    tiff_data.bit_depth = bits_per_sample == 8 ? 8 : 16;
     tiff_data.photometric = photometric;
     tiff_data.has_alpha = has_alpha;
     tiff_data.alpha_index = alpha_index;
@@ -503,6 +505,7 @@ read_image_tiff_rgb(const unsigned char* data, std::size_t size, bool read_alpha
     bool extract_alpha = tiff_data.has_alpha && read_alpha;
 
     ImageBundle<RGB> bundle{Image<RGB>(tiff_data.resolution)};
+    bundle.bit_depth = tiff_data.bit_depth;
 
     if (extract_alpha) {
         bundle.alpha = Image<float>(tiff_data.resolution, 1.0f);
@@ -584,6 +587,7 @@ read_image_tiff_mono(const unsigned char* data, std::size_t size, bool read_alph
     bool extract_alpha = tiff_data.has_alpha && read_alpha;
 
     ImageBundle<float> bundle{Image<float>(tiff_data.resolution)};
+    bundle.bit_depth = tiff_data.bit_depth;
 
     if (extract_alpha) {
         bundle.alpha = Image<float>(tiff_data.resolution, 1.0f);
@@ -636,6 +640,38 @@ inline ImageBundle<float> read_image_tiff_mono(const fs::path& filepath, bool re
 // TIFF Writers
 // =========================================================================
 
+/**
+ * @brief Whether a bundle has an alpha image that fits its picture.
+ */
+template <IsImagePixel PixelT>
+inline bool tiff_writes_alpha_(const fs::path& filepath, const ImageBundle<PixelT>& bundle)
+{
+    if (bundle.alpha.empty()) {
+        return false;
+    }
+    if (bundle.alpha.width() != bundle.image.width() ||
+        bundle.alpha.height() != bundle.image.height()) {
+        HUIRA_LOG_WARNING("write_image_tiff - The alpha image does not have the size of the image "
+                          "and will be ignored: " +
+                          filepath.string());
+        return false;
+    }
+    return true;
+}
+
+/**
+ * @brief Stores one sample of a scanline with the given bit depth.
+ */
+inline void tiff_store_sample_(unsigned char* sample, float value, int bit_depth)
+{
+    if (bit_depth == 8) {
+        *sample = float_to_integer<std::uint8_t>(value);
+    } else {
+        std::uint16_t stored = float_to_integer<std::uint16_t>(value);
+        std::memcpy(sample, &stored, sizeof(stored));
+    }
+}
+
 /**
  * @brief Writes an RGB image to a TIFF file with optional metadata.
  *
@@ -655,6 +691,10 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Bit depth must be 8 or 16");
     }
 
+    if (bundle.image.empty()) {
+        HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
+    }
+
     make_path(filepath);
 
     ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
@@ -668,7 +708,13 @@ inline void write_image_tiff(const fs::path& filepath,
 
     TIFFSetField(tif.get(), TIFFTAG_IMAGEWIDTH, width);
     TIFFSetField(tif.get(), TIFFTAG_IMAGELENGTH, height);
-    TIFFSetField(tif.get(), TIFFTAG_SAMPLESPERPIXEL, 3);
+    bool has_alpha = tiff_writes_alpha_(filepath, bundle);
+    std::size_t samples_per_pixel = has_alpha ? 4 : 3;
+    TIFFSetField(tif.get(), TIFFTAG_SAMPLESPERPIXEL, static_cast<uint16_t>(samples_per_pixel));
+    if (has_alpha) {
+        uint16_t extra_sample = EXTRASAMPLE_UNASSALPHA;
+        TIFFSetField(tif.get(), TIFFTAG_EXTRASAMPLES, 1, &extra_sample);
+    }
     TIFFSetField(tif.get(), TIFFTAG_BITSPERSAMPLE, static_cast<uint16_t>(bundle.bit_depth));
     TIFFSetField(tif.get(), TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
     TIFFSetField(tif.get(), TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
@@ -684,28 +730,22 @@ inline void write_image_tiff(const fs::path& filepath,
     }
 
     std::size_t bytes_per_sample = static_cast<std::size_t>(bundle.bit_depth) / 8;
-    std::size_t scanline_size = width * 3 * bytes_per_sample;
+    std::size_t scanline_size = width * samples_per_pixel * bytes_per_sample;
     std::vector<unsigned char> scanline(scanline_size);
 
     for (uint32_t y = 0; y < height; ++y) {
         for (uint32_t x = 0; x < width; ++x) {
             RGB pixel = bundle.image(static_cast<int>(x), static_cast<int>(y));
-            std::size_t offset = x * 3 * bytes_per_sample;
-
-            if (bundle.bit_depth == 8) {
-                scanline[offset + 0] =
-                    static_cast<uint8_t>(std::clamp(pixel[0] * 255.0f, 0.0f, 255.0f));
-                scanline[offset + 1] =
-                    static_cast<uint8_t>(std::clamp(pixel[1] * 255.0f, 0.0f, 255.0f));
-                scanline[offset + 2] =
-                    static_cast<uint8_t>(std::clamp(pixel[2] * 255.0f, 0.0f, 255.0f));
-            } else {
-                uint16_t r = static_cast<uint16_t>(std::clamp(pixel[0] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t g = static_cast<uint16_t>(std::clamp(pixel[1] * 65535.0f, 0.0f, 65535.0f));
-                uint16_t b = static_cast<uint16_t>(std::clamp(pixel[2] * 65535.0f, 0.0f, 65535.0f));
-                std::memcpy(&scanline[offset + 0], &r, 2);
-                std::memcpy(&scanline[offset + 2], &g, 2);
-                std::memcpy(&scanline[offset + 4], &b, 2);
+            std::size_t offset = x * samples_per_pixel * bytes_per_sample;
+
+            for (std::size_t ch = 0; ch < 3; ++ch) {
+                tiff_store_sample_(
+                    &scanline[offset + ch * bytes_per_sample], pixel[ch], bundle.bit_depth);
+            }
+            if (has_alpha) {
+                tiff_store_sample_(&scanline[offset + 3 * bytes_per_sample],
+                                   bundle.alpha(static_cast<int>(x), static_cast<int>(y)),
+                                   bundle.bit_depth);
             }
         }
 
@@ -728,6 +768,10 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Bit depth must be 8 or 16");
     }
 
+    if (bundle.image.empty()) {
+        HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
+    }
+
     make_path(filepath);
 
     ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
@@ -741,7 +785,13 @@ inline void write_image_tiff(const fs::path& filepath,
 
     TIFFSetField(tif.get(), TIFFTAG_IMAGEWIDTH, width);
     TIFFSetField(tif.get(), TIFFTAG_IMAGELENGTH, height);
-    TIFFSetField(tif.get(), TIFFTAG_SAMPLESPERPIXEL, 1);
+    bool has_alpha = tiff_writes_alpha_(filepath, bundle);
+    std::size_t samples_per_pixel = has_alpha ? 2 : 1;
+    TIFFSetField(tif.get(), TIFFTAG_SAMPLESPERPIXEL, static_cast<uint16_t>(samples_per_pixel));
+    if (has_alpha) {
+        uint16_t extra_sample = EXTRASAMPLE_UNASSALPHA;
+        TIFFSetField(tif.get(), TIFFTAG_EXTRASAMPLES, 1, &extra_sample);
+    }
     TIFFSetField(tif.get(), TIFFTAG_BITSPERSAMPLE, static_cast<uint16_t>(bundle.bit_depth));
     TIFFSetField(tif.get(), TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
     TIFFSetField(tif.get(), TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
@@ -757,19 +807,19 @@ inline void write_image_tiff(const fs::path& filepath,
     }
 
     std::size_t bytes_per_sample = static_cast<std::size_t>(bundle.bit_depth) / 8;
-    std::size_t scanline_size = width * bytes_per_sample;
+    std::size_t scanline_size = width * samples_per_pixel * bytes_per_sample;
     std::vector<unsigned char> scanline(scanline_size);
 
     for (uint32_t y = 0; y < height; ++y) {
         for (uint32_t x = 0; x < width; ++x) {
             float pixel = bundle.image(static_cast<int>(x), static_cast<int>(y));
 
-            if (bundle.bit_depth == 8) {
-                scanline[x] = static_cast<uint8_t>(std::clamp(pixel * 255.0f, 0.0f, 255.0f));
-            } else {
-                uint16_t value =
-                    static_cast<uint16_t>(std::clamp(pixel * 65535.0f, 0.0f, 65535.0f));
-                std::memcpy(&scanline[x * 2], &value, 2);
+            std::size_t offset = x * samples_per_pixel * bytes_per_sample;
+            tiff_store_sample_(&scanline[offset], pixel, bundle.bit_depth);
+            if (has_alpha) {
+                tiff_store_sample_(&scanline[offset + bytes_per_sample],
+                                   bundle.alpha(static_cast<int>(x), static_cast<int>(y)),
+                                   bundle.bit_depth);
             }
         }
 
@@ -796,6 +846,7 @@ inline void write_image_tiff(const fs::path& filepath,
         }
     }
 
-    write_image_tiff(filepath, mono_image, bundle.bit_depth, description, artist);
+    ImageBundle<float> mono_bundle(bundle, std::move(mono_image));
+    write_image_tiff(filepath, mono_bundle, description, artist);
 }
 } // namespace huira
-- 
2.43.0


From b68938d10b6bd8e8fbfcd8d0ede35f4cdf3817ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 62/67] fix: FITS files keep full range, precision, undefined
 pixels and metadata

---
 include/huira/images/io/fits_metadata.hpp |   4 +-
 include/huira_impl/images/io/fits_io.ipp  | 120 ++++++++++++++--------
 2 files changed, 81 insertions(+), 43 deletions(-)

diff --git a/include/huira/images/io/fits_metadata.hpp b/include/huira/images/io/fits_metadata.hpp
index e0a50c0..400bb32 100644
--- a/include/huira/images/io/fits_metadata.hpp
+++ b/include/huira/images/io/fits_metadata.hpp
@@ -108,7 +108,9 @@ struct FitsMetadata {
     /// Returns true if any WCS field has been set.
     [[nodiscard]] bool has_wcs() const noexcept
     {
-        return crpix1.has_value() || crval1.has_value() || cdelt1.has_value() || !ctype1.empty();
+        return crpix1.has_value() || crpix2.has_value() || crval1.has_value() ||
+               crval2.has_value() || cdelt1.has_value() || cdelt2.has_value() || !ctype1.empty() ||
+               !ctype2.empty();
     }
 
     // TODO (multi-band):
diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index b21d3f4..2e0afee 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -65,13 +65,13 @@ inline void write_string_key(
 inline void
 write_double_key(fitsfile* fptr, const char* key, double value, const char* comment, int& status)
 {
-    fits_update_key_dbl(fptr, key, value, 10, comment, &status);
+    fits_update_key_dbl(fptr, key, value, 16, comment, &status);
 }
 
 inline void
 write_float_key(fitsfile* fptr, const char* key, float value, const char* comment, int& status)
 {
-    fits_update_key_flt(fptr, key, value, 6, comment, &status);
+    fits_update_key_flt(fptr, key, value, 8, comment, &status);
 }
 
 inline void
@@ -283,7 +283,7 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
 
         static const char* known[] = {
             "SIMPLE",   "BITPIX", "NAXIS",   "NAXIS1",  "NAXIS2",   "NAXIS3",   "EXTEND",
-            "BZERO",    "BSCALE", "END",     "OBJECT",  "TELESCOP", "INSTRUME", "OBSERVER",
+            "BZERO",    "BSCALE", "BLANK", "END",     "OBJECT",  "TELESCOP", "INSTRUME", "OBSERVER",
             "DATE-OBS", "ORIGIN", "EXPTIME", "FILTER",  "BUNIT",    "DATAMIN",  "DATAMAX",
             "SATURATE", "CRPIX1", "CRPIX2",  "CRVAL1",  "CRVAL2",   "CDELT1",   "CDELT2",
             "CTYPE1",   "CTYPE2", "EQUINOX", "RADESYS", nullptr};
@@ -396,30 +396,35 @@ inline FitsMetadata read_fits_metadata(fitsfile* fptr)
     return m;
 }
 
-// Maximum ADU value for the full range of a given BITPIX.
+// Maximum ADU value for the full range of a given BITPIX, 16 and 32 bits being stored unsigned.
 inline double bitpix_max(int bitpix)
 {
     switch (bitpix) {
     case 8:
         return 255.0;
     case 16:
-        return 32767.0;
+        return 65535.0;
     case 32:
-        return 2147483647.0;
+        return 4294967295.0;
     default:
         return 1.0;
     }
 }
 
+// ADU value that undefined pixels get, at the end of the range valid pixels need less.
+inline double fits_blank_adu(int bit_depth)
+{
+    return bit_depth == 8 ? 0.0 : bitpix_max(bit_depth);
+}
+
+// The same as the BLANK keyword needs it, that is as stored in the file, without BZERO.
 inline long fits_blank_value(int bit_depth)
 {
     switch (bit_depth) {
-    case 8:
-        return 0; // reserve 0; clamp valid pixels to [1, 255]
     case 16:
-        return -32768; // signed min, outside valid ADU range
+        return 32767;
     case 32:
-        return -2147483648L;
+        return 2147483647L;
     default:
         return 0; // float formats use NaN, not BLANK
     }
@@ -470,14 +475,16 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     FitsMetadata metadata = detail::read_fits_metadata(ff.fptr);
 
     // --- Read pixel data ---
-    // CFITSIO converts any on-disk type to TFLOAT and applies BZERO/BSCALE.
+    // CFITSIO converts any on-disk type to TDOUBLE and applies BZERO/BSCALE.
     const long npixels = static_cast<long>(width) * height;
-    std::vector<float> buffer(static_cast<std::size_t>(npixels));
+    std::vector<double> buffer(static_cast<std::size_t>(npixels));
 
     long fpixel[2] = {1, 1};
     int anynul = 0;
 
-    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, nullptr, buffer.data(), &anynul, &status);
+    // Undefined pixels become NaN
+    double undefined = std::numeric_limits<double>::quiet_NaN();
+    fits_read_pix(ff.fptr, TDOUBLE, fpixel, npixels, &undefined, buffer.data(), &anynul, &status);
     detail::fits_check(status, "read pixels");
 
     // --- Normalise integer data to [0, 1] ---
@@ -497,12 +504,17 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
             // Infer sensor bit depth from SATURATE  (e.g. 4095 → 12)
             inferred_sensor_bits = static_cast<int>(std::round(std::log2(divisor + 1.0)));
         } else {
+            int equivalent_type = 0;
+            fits_get_img_equivtype(ff.fptr, &equivalent_type, &status);
+            detail::fits_check(status, "get image type");
             divisor = detail::bitpix_max(bitpix);
+            if (equivalent_type == SHORT_IMG || equivalent_type == LONG_IMG) {
+                divisor = std::floor(divisor / 2.0); // stored signed
+            }
         }
 
-        const float inv = 1.0f / static_cast<float>(divisor);
         for (auto& px : buffer) {
-            px *= inv;
+            px /= divisor;
         }
     }
     // Float BITPIX (−32, −64): pass through as-is.
@@ -517,9 +529,9 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
 
     for (int y = 0; y < height; ++y) {
         const int fits_row = height - 1 - y;
-        const float* src = buffer.data() + static_cast<std::size_t>(fits_row * width);
+        const double* src = buffer.data() + static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(width);
         for (int x = 0; x < width; ++x) {
-            image(x, y) = src[x];
+            image(x, y) = static_cast<float>(src[x]);
         }
     }
 
@@ -573,9 +585,24 @@ inline void write_image_fits(const fs::path& filepath,
     //         fits_write_pix(fptr, TFLOAT, fpixel, w*h, plane_data, &status);
     //     }
 
-    fits_create_img(ff.fptr, bit_depth, 2, naxes, &status);
+    int image_type = bit_depth;
+    if (bit_depth == 16) {
+        image_type = USHORT_IMG;
+    } else if (bit_depth == 32) {
+        image_type = ULONG_IMG;
+    }
+    fits_create_img(ff.fptr, image_type, 2, naxes, &status);
     detail::fits_check(status, "create image HDU");
 
+    // CFITSIO introduces the format in two comments that are not part of the metadata
+    while (status == 0) {
+        fits_delete_key(ff.fptr, "COMMENT", &status);
+    }
+    if (status == KEY_NO_EXIST) {
+        status = 0;
+    }
+    detail::fits_check(status, "remove default comments");
+
     // --- Determine ADU scaling for integer BITPIX ---
     const bool is_integer = (bit_depth > 0);
     const int sensor_bits = image.sensor_bit_depth();
@@ -583,10 +610,14 @@ inline void write_image_fits(const fs::path& filepath,
     // The ADC ceiling: how many counts "1.0" maps to.
     //   • If sensor_bit_depth is set → (2^bits − 1), e.g. 4095 for 12-bit
     //   • Otherwise → full BITPIX range, e.g. 65535 for BITPIX=16
+    //   • If the metadata gives SATURATE, that, because readers take it for 1.0
     double adc_max = 0.0;
     if (is_integer) {
         adc_max =
             (sensor_bits > 0) ? (std::pow(2.0, sensor_bits) - 1.0) : detail::bitpix_max(bit_depth);
+        if (metadata.saturate && *metadata.saturate > 0.0) {
+            adc_max = *metadata.saturate;
+        }
     }
 
     // --- Write metadata ---
@@ -609,36 +640,41 @@ inline void write_image_fits(const fs::path& filepath,
 
     // --- Prepare pixel buffer (flip to FITS bottom-up order) ---
     const long npixels = static_cast<long>(w) * h;
-    std::vector<float> buffer(static_cast<std::size_t>(npixels));
+    std::vector<double> buffer(static_cast<std::size_t>(npixels));
 
-    float actual_min = std::numeric_limits<float>::max();
-    float actual_max = -std::numeric_limits<float>::max();
+    double actual_min = std::numeric_limits<double>::max();
+    double actual_max = -std::numeric_limits<double>::max();
 
-    long blank_value = 0;
-    if (is_integer) {
-        blank_value = detail::fits_blank_value(bit_depth);
+    bool has_undefined = false;
+    for (std::size_t i = 0; i < image.size(); ++i) {
+        has_undefined = has_undefined || !std::isfinite(image[i]);
+    }
+
+    // Where undefined pixels need a value of the range, valid ones stay clear of it
+    double lowest = 0.0;
+    double highest = detail::bitpix_max(bit_depth);
+    const bool has_blank = is_integer && has_undefined;
+    if (has_blank) {
+        if (detail::fits_blank_adu(bit_depth) == lowest) {
+            lowest += 1.0;
+        } else {
+            highest -= 1.0;
+        }
     }
 
-    bool has_blank = false;
     for (int y = 0; y < h; ++y) {
         const int fits_row = h - 1 - y;
-        float* dst = buffer.data() + static_cast<std::size_t>(fits_row * w);
+        double* dst = buffer.data() + static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(w);
         for (int x = 0; x < w; ++x) {
-            float px = image(x, y);
+            double px = static_cast<double>(image(x, y));
 
             if (!std::isfinite(px)) {
-                if (is_integer) {
-                    dst[x] = static_cast<float>(blank_value);
-                    has_blank = true;
-                } else {
-                    dst[x] = std::numeric_limits<float>::quiet_NaN();
-                }
+                dst[x] = is_integer ? detail::fits_blank_adu(bit_depth)
+                                    : std::numeric_limits<double>::quiet_NaN();
             } else {
                 if (is_integer) {
-                    float lo = (bit_depth == 8) ? 1.f : 0.f;
-                    px = std::clamp(px * static_cast<float>(adc_max),
-                                    lo,
-                                    static_cast<float>(detail::bitpix_max(bit_depth)));
+                    // CFITSIO truncates, which would lose a count to every rounding error
+                    px = std::clamp(std::round(px * adc_max), lowest, highest);
                 }
                 dst[x] = px;
                 actual_min = std::min(actual_min, px);
@@ -648,7 +684,7 @@ inline void write_image_fits(const fs::path& filepath,
     }
 
     // --- Write DATAMIN / DATAMAX (actual values in the file) ---
-    {
+    if (actual_min <= actual_max) {
         if (!meta_copy.datamin) {
             detail::write_double_key(ff.fptr, "DATAMIN", actual_min, "Minimum pixel value", status);
         }
@@ -658,17 +694,17 @@ inline void write_image_fits(const fs::path& filepath,
         detail::fits_check(status, "write DATAMIN/DATAMAX");
     }
 
-    if (is_integer && has_blank) {
-        long blank_val = static_cast<long>(blank_value);
+    if (has_blank) {
+        long blank_val = detail::fits_blank_value(bit_depth);
         fits_update_key(
             ff.fptr, TLONG, "BLANK", &blank_val, "Value representing undefined pixels", &status);
         detail::fits_check(status, "write BLANK keyword");
     }
 
     // --- Write pixels ---
-    // CFITSIO converts TFLOAT → on-disk BITPIX, quantising as needed.
+    // CFITSIO converts TDOUBLE → on-disk BITPIX, quantising as needed.
     long fpixel[2] = {1, 1};
-    fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
+    fits_write_pix(ff.fptr, TDOUBLE, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
 }
 
-- 
2.43.0


From f728fe9debc0b62a379a313c027b25821ac72640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 63/67] fix: total power of a sphere light is shared out over
 the bands instead of repeated in each

---
 include/huira_impl/assets/lights/sphere_light.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 1a7bd93..84183c1 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -72,7 +72,7 @@ void SphereLight<TSpectral>::set_spectral_power(const units::Watt& power)
 
     // L = Phi / (4 * pi^2 * r^2)
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
-    this->radiance_ = TSpectral{power_si / (PI<float>() * surface_area)};
+    this->radiance_ = TSpectral::from_total(power_si / (PI<float>() * surface_area));
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From f7aa58f78cd7ed842683272c86004b5000a9e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 64/67] fix: sampling of distant sphere lights no longer
 suffers from cancellation

---
 .../huira_impl/assets/lights/sphere_light.ipp | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 84183c1..e47b7a9 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -104,13 +104,16 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
     // Calculate the cone subtended by the sphere
     float sin_theta_max2 = (radius_ * radius_) / d2;
     float cos_theta_max = std::sqrt(std::max(0.0f, 1.0f - sin_theta_max2));
+    // 1 - cos(theta_max), without the cancellation that distant lights would suffer from
+    float opening_max = sin_theta_max2 / (1.0f + cos_theta_max);
 
     // Uniformly sample the cone
     float u1 = sampler.get_1d();
     float u2 = sampler.get_1d();
 
-    float cos_theta = (1.0f - u1) + u1 * cos_theta_max;
-    float sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta * cos_theta));
+    float opening = u1 * opening_max;
+    float cos_theta = 1.0f - opening;
+    float sin_theta = std::sqrt(std::max(0.0f, opening * (2.0f - opening)));
     float phi = u2 * 2.0f * PI<float>();
 
     // Build a local coordinate system around the vector to the center (wc)
@@ -128,17 +131,11 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
         u * (sin_theta * std::cos(phi)) + v * (sin_theta * std::sin(phi)) + w * cos_theta;
 
     // Calculate Solid Angle and PDF
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-
-    // Robustness fallback for tiny spheres or immense distances
-    // to prevent catastrophic cancellation in floating point math
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
+    float solid_angle = 2.0f * PI<float>() * opening_max;
 
     // Calculate distance to the sphere surface along wi using standard ray-sphere intersection:
-    float b = glm::dot(wc, wi);
-    float discriminant = b * b - d2 + (radius_ * radius_);
+    float b = d * cos_theta;
+    float discriminant = (radius_ * radius_) - d2 * sin_theta * sin_theta;
     float distance = b - std::sqrt(std::max(0.0f, discriminant));
 
     LightSample<TSpectral> ls;
@@ -166,17 +163,15 @@ float SphereLight<TSpectral>::pdf_li(const Interaction<TSpectral>& isect,
 
     float sin_theta_max2 = (radius_ * radius_) / d2;
     float cos_theta_max = std::sqrt(std::max(0.0f, 1.0f - sin_theta_max2));
+    float opening_max = sin_theta_max2 / (1.0f + cos_theta_max);
 
     // Check if the given direction `wi` actually hits the sphere cone
-    float cos_theta = glm::dot(wi, glm::normalize(wc));
-    if (cos_theta < cos_theta_max) {
+    Vec3<float> offset = wi - glm::normalize(wc);
+    if (0.5f * glm::dot(offset, offset) > opening_max) {
         return 0.0f; // Ray missed the sphere
     }
 
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
+    float solid_angle = 2.0f * PI<float>() * opening_max;
 
     return 1.0f / solid_angle;
 }
-- 
2.43.0


From 69559127adf0c4adb1de7cb2431b8ef515e87a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 65/67] fix: exponent of the first H-G phase function

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index 919a9f1..28f1234 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -25,7 +25,7 @@ namespace huira {
 static inline double asteroid_phi1(double alpha)
 {
     double A = 3.33;
-    double B = 0.64;
+    double B = 0.63;
     return std::exp(-A * std::pow(std::tan(alpha / 2.), B));
 };
 
-- 
2.43.0


From cbaa7e19c6b7fd945fd940692c598f84d70a8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 66/67] fix: backlit unresolved spheres are black instead of
 failing the scene view

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index d12da7c..a2ea82f 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -25,7 +25,9 @@ namespace huira {
  */
 static inline float lambert_phase_function(float phase)
 {
-    return (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>();
+    // Rounding must not make the unlit side darker than black
+    return std::max(
+        0.f, (std::sin(phase) + (PI<float>() - phase) * std::cos(phase)) / PI<float>());
 };
 
 /**
-- 
2.43.0


From f1919f0d57c93d3a938d1ec477cb70d301ed9072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:03 +0000
Subject: [PATCH 67/67] fix: unresolved spheres are as bright as Lambertian
 spheres

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index a2ea82f..50eb090 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -142,8 +142,10 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
 
             float phase = std::acos(std::clamp(glm::dot(V, L), -1.f, 1.f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
+            // The phase function is 1 at full phase, where a Lambertian sphere is 8/3 times as bright
+            // as if it reflected equally in all directions
             TSpectral reflectedPower =
-                albedo_ * A * incident_irradiance * lambert_phase_function(phase);
+                albedo_ * A * incident_irradiance * lambert_phase_function(phase) * (8.f / 3.f);
 
             TSpectral reflected_irradiance =
                 reflectedPower / (4 * PI<float>() * distance * distance);
-- 
2.43.0

