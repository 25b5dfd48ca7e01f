From ce03682f02b278b3be4c9d8f62262f55b49d7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 01/31] fix: History::untrack of a signal that is not tracked
 must be a no-op

---
 src/solver/history.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index e431206..a4e19e4 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -41,7 +41,9 @@ void History::untrack(const Signal& sig)
     pooya_debug_verify(empty(), "untrack should be called before the history is updated!");
 
     auto vsig = std::dynamic_pointer_cast<ValueSignalImpl>(sig->shared_from_this());
-    if (vsig) _signals.erase(std::find(_signals.begin(), _signals.end(), vsig));
+    if (!vsig) return;
+    const auto it = std::find(_signals.begin(), _signals.end(), vsig);
+    if (it != _signals.end()) _signals.erase(it);
 }
 
 void History::update(uint k, double t)
-- 
2.43.0


From 3ae42e3cb883be663b522c2fc669b18a239bf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 02/31] fix: History::export_csv must only write the recorded
 rows

---
 src/solver/history.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index a4e19e4..65db190 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -178,8 +178,8 @@ void History::export_csv(const std::string& filename)
     ofs << "\n";
 
     // values
-    auto n = time().size();
-    for (int k = 0; k < n; k++)
+    const uint n = nrows();
+    for (uint k = 0; k < n; k++)
     {
         ofs << time()(k);
         for (const auto& h : *this)
-- 
2.43.0


From c27454f8d707e153178d3defd3e6d7cf2905fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 03/31] fix: Simulator with reuse_order dereferenced a null
 order for stateless models

---
 src/solver/simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f385ba8..5e01b06 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -126,7 +126,7 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    if (_state_variables.size() > 0 && _reuse_order)
+    if (_reuse_order)
     {
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
-- 
2.43.0


From 112c4260df446a3fcbbfdb02d9fae2fd84b1cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 04/31] fix: re-initializing a simulator must not duplicate its
 signal lists

---
 src/solver/simulator_base.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 1c4a1e9..5a5c301 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -78,6 +78,12 @@ void SimulatorBase::init(double t0)
         },
         0);
 
+    value_signals_.clear();
+    scalar_state_signals_.clear();
+#ifdef POOYA_ARRAY_SIGNAL
+    array_state_signals_.clear();
+#endif // POOYA_ARRAY_SIGNAL
+
     value_signals_.reserve(value_signals.size());
     for (auto* sig : value_signals)
     {
-- 
2.43.0


From d4658409ee41579a87f9b73afe552689986b01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 05/31] fix: BusImpl::try_at must return nullopt for nested
 labels that do not exist

---
 src/signal/bus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 1f0d88f..41a8cd3 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -130,9 +130,9 @@ public:
             return it->second;
         }
 
-        BusImpl* bus = static_cast<BusImpl*>(&it->second.impl());
+        BusImpl* bus = dynamic_cast<BusImpl*>(&it->second.impl());
         if (!bus) return std::nullopt;
-        return bus->at(label.substr(pos + 1));
+        return bus->try_at(label.substr(pos + 1));
     }
 
     Signal operator[](std::string_view label) const { return at(label); }
-- 
2.43.0


From cd15fb3b28bd28c0a454819ef569ac548fb7711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 06/31] fix: Derivative must hold its last output, not its last
 input

---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index 9f6c5cb..e2bf4ff 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -44,7 +44,7 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         _t          = t;
         _x          = Base::_s_in;
-        _y          = _x;
+        _y          = Base::_s_out;
         _first_step = false;
     }
 
-- 
2.43.0


From a4836baf8bc92e8c696f721d4100459f7d2095e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 07/31] fix: SubtractA, DivideA and DerivativeA did not compile

---
 src/block/extra/derivative.hpp | 2 +-
 src/block/extra/divide.hpp     | 2 +-
 src/block/extra/subtract.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index e2bf4ff..d9a62b6 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -63,7 +63,7 @@ public:
         }
         else
         {
-            Base::_s_out = (Base::_s_in - _x) / (t - _t);
+            Base::_s_out = (Base::_s_in->get_value() - _x) / (t - _t);
         }
     }
 
diff --git a/src/block/extra/divide.hpp b/src/block/extra/divide.hpp
index 6b9add3..9c582f3 100644
--- a/src/block/extra/divide.hpp
+++ b/src/block/extra/divide.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 / _s_x2;
+        Base::_s_out = _s_x1->get_value() / _s_x2->get_value();
     }
 
 protected:
diff --git a/src/block/extra/subtract.hpp b/src/block/extra/subtract.hpp
index f75f706..82a20f0 100644
--- a/src/block/extra/subtract.hpp
+++ b/src/block/extra/subtract.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 - _s_x2;
+        Base::_s_out = _s_x1->get_value() - _s_x2->get_value();
     }
 
 protected:
-- 
2.43.0


From dce02660bfc08b12446da027a248cec042adc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 08/31] fix: InitialValue and InitialValueA did not compile

---
 src/block/extra/initial_value.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index e1c6212..3ba8ab8 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -41,11 +41,10 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         if (_init)
         {
-            _value      = Base::_s_in->get();
-            Base::_ibus = nullptr;
-            _init       = false;
+            _value = Base::_s_in;
+            _init  = false;
         }
-        Base::_s_out->set(_value);
+        Base::_s_out = _value;
     }
 
 protected:
-- 
2.43.0


From 889ba0c4a92a28ccd89db855c1a343dc567271ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 09/31] fix: SISOFunctionA and SOFunctionA must take callbacks
 that return by value

---
 src/block/extra/siso_function.hpp | 2 +-
 src/block/extra/so_function.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/siso_function.hpp b/src/block/extra/siso_function.hpp
index 6087440..ea34560 100644
--- a/src/block/extra/siso_function.hpp
+++ b/src/block/extra/siso_function.hpp
@@ -33,7 +33,7 @@ class SISOFunctionT : public SingleInputOutputT<T>
 {
 public:
     using Base        = SingleInputOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, typename Types<T>::GetValue)>;
+    using ActFunction = std::function<T(double, typename Types<T>::GetValue)>;
 
     explicit SISOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "")
         : Base(parent, name, 1), _act_func(act_func)
diff --git a/src/block/extra/so_function.hpp b/src/block/extra/so_function.hpp
index 8179405..ae209ea 100644
--- a/src/block/extra/so_function.hpp
+++ b/src/block/extra/so_function.hpp
@@ -33,7 +33,7 @@ class SOFunctionT : public SingleOutputT<T>
 {
 public:
     using Base        = SingleOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, const pooya::Bus& ibus)>;
+    using ActFunction = std::function<T(double, const pooya::Bus& ibus)>;
 
     explicit SOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "",
                          uint16_t num_iports = Block::NoIOLimit)
-- 
2.43.0


From bbbc6b5d340bb21684f79c8357df20acb07958b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 10/31] fix: the trace stack must be per thread

---
 src/helper/trace.cpp | 2 +-
 src/helper/trace.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper/trace.cpp b/src/helper/trace.cpp
index 2578de2..a650c75 100644
--- a/src/helper/trace.cpp
+++ b/src/helper/trace.cpp
@@ -24,7 +24,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 namespace pooya::helper
 {
 
-std::vector<PooyaTraceInfo> pooya_trace_info;
+thread_local std::vector<PooyaTraceInfo> pooya_trace_info;
 
 std::string pooya_trace_info_string()
 {
diff --git a/src/helper/trace.hpp b/src/helper/trace.hpp
index ea28f0e..bada8c8 100644
--- a/src/helper/trace.hpp
+++ b/src/helper/trace.hpp
@@ -43,7 +43,7 @@ struct PooyaTraceInfo
     std::string _msg;
 };
 
-extern std::vector<PooyaTraceInfo> pooya_trace_info;
+extern thread_local std::vector<PooyaTraceInfo> pooya_trace_info;
 
 class PooyaTracer
 {
-- 
2.43.0


From 4b5b2ca8bd97cb26983c21570695b087f25ab62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 11/31] fix: FastSimulator must not depend on the processed
 flags left by earlier runs

---
 src/solver/fast_simulator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 2636a1c..574ba98 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -48,10 +48,13 @@ void FastSimulator::init(double t0)
 
     pooya_debug_verify0(_processing_order.empty());
 
+    _model._mark_unprocessed();
+
+    // blocks that are still marked as processed (e.g. bus block builders) have nothing to compute
     uint num_blocks     = 0;
     auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
     {
-        if (dynamic_cast<Leaf*>(&c)) num_blocks++;
+        if (dynamic_cast<Leaf*>(&c) && !c.processed()) num_blocks++;
         return true;
     };
     _model.visit(enum_blocks_cb, 0);
@@ -62,7 +65,7 @@ void FastSimulator::init(double t0)
 
     auto add_blocks_cb = [&po](Block& c, uint32_t /*level*/) -> bool
     {
-        if (auto* p = dynamic_cast<Leaf*>(&c)) po.push_back(p);
+        if (auto* p = dynamic_cast<Leaf*>(&c); p && !p->processed()) po.push_back(p);
         return true;
     };
     _model.visit(add_blocks_cb, 0);
-- 
2.43.0


From 3f6b77e10bcc8f8341bd77c2c47b835950219b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 12/31] fix: Delay dropped the sample needed to interpolate at
 delays close to its lifespan

---
 src/block/extra/delay.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 06f71b2..09c63ea 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -71,6 +71,7 @@ public:
                 }
                 k++;
             }
+            if (k > 0) k--; // keep one expired sample to interpolate from
             _t.erase(_t.begin(), _t.begin() + k);
             _x.erase(_x.begin(), _x.begin() + k);
         }
-- 
2.43.0


From 4e999a9d3efd44becee05df4e5fbc1e1c363ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 13/31] fix: TriggeredIntegrator must sample its trigger once
 per accepted step

---
 src/block/extra/triggered_integrator.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/block/extra/triggered_integrator.hpp b/src/block/extra/triggered_integrator.hpp
index 2d56709..4814311 100644
--- a/src/block/extra/triggered_integrator.hpp
+++ b/src/block/extra/triggered_integrator.hpp
@@ -72,13 +72,11 @@ public:
         Base::pre_step(t);
     }
 
-    void activation_function(double /*t*/) override
+    void post_step(double t) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        if (!_triggered)
-        {
-            _triggered = _trigger;
-        }
+        Base::post_step(t);
+        _triggered = _trigger;
     }
 
 protected:
-- 
2.43.0


From e77b8543ec33d0a16aecb70cccc7885ef828f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 14/31] fix: a rejected signal reset must leave the handle
 untouched

---
 src/signal/signal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index 1ce7aad..19ab96d 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -84,8 +84,8 @@ public:
 
     virtual void reset(const Signal& sig)
     {
-        _ptr = std::dynamic_pointer_cast<Impl>(sig->shared_from_this());
-        fail_if_invalid_signal_type<T>(_ptr.get());
+        fail_if_invalid_signal_type<T>(&sig.impl());
+        _ptr = sig->shared_from_this();
         update_typed_ptr();
     }
 
-- 
2.43.0


From 93c3b0d3275f868f3cb73523e51c8070ca2d3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 15/31] fix: a rejected derivative signal must not be kept

---
 src/signal/float_signal.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/signal/float_signal.hpp b/src/signal/float_signal.hpp
index 33f9e62..5f97d17 100644
--- a/src/signal/float_signal.hpp
+++ b/src/signal/float_signal.hpp
@@ -39,8 +39,9 @@ public:
     void set_deriv_signal(const Signal& deriv_sig)
     {
         Signal::fail_if_invalid_signal_type<T>(&deriv_sig.impl());
-        _deriv_sig = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
-        pooya_verify(_size == _deriv_sig->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        auto ptr = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
+        pooya_verify(_size == ptr->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        _deriv_sig = ptr;
     }
 
     typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.get(); }
-- 
2.43.0


From d31770cb268b3e65642ca0cb6d15d4c31e04f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 16/31] fix: an interrupted run must resume from the last
 accepted step

---
 src/solver/simulator_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 5a5c301..ef40b07 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -230,6 +230,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                     {
                         reset_with_state_variables(_state_variables);
                         process_model(t1, false, true);
+                        _t_prev = t1;
                     }
                 }
                 else
-- 
2.43.0


From 6bd701c0d1f687a3fbcfdfb0c9f849701130c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 17/31] fix: BusMemory and BusPipe left a dangling block in the
 parent when connecting fails

---
 src/block/extra/bus_memory.cpp | 2 +-
 src/block/extra/bus_pipe.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/bus_memory.cpp b/src/block/extra/bus_memory.cpp
index 8289948..54a1247 100644
--- a/src/block/extra/bus_memory.cpp
+++ b/src/block/extra/bus_memory.cpp
@@ -94,8 +94,8 @@ void BusMemory::block_builder(const std::string& full_label, const Signal& sig_i
     }
 
     block->rename(full_label);
+    _blocks.emplace_back(block); // the parent refers to the block already
     block->connect({sig_in}, {sig_out});
-    _blocks.emplace_back(std::move(block));
 }
 
 } // namespace pooya
diff --git a/src/block/extra/bus_pipe.cpp b/src/block/extra/bus_pipe.cpp
index 504b398..c30132a 100644
--- a/src/block/extra/bus_pipe.cpp
+++ b/src/block/extra/bus_pipe.cpp
@@ -62,8 +62,8 @@ void BusPipe::block_builder(const std::string& full_label, const Signal& sig_in,
     }
 
     block->rename(full_label);
+    _blocks.emplace_back(block); // the parent will refer to the block even if connecting it fails
     _parent->add_block(*block, {sig_in}, {sig_out});
-    _blocks.emplace_back(std::move(block));
 }
 
 } // namespace pooya
-- 
2.43.0


From 0e9c64ab3c4be63e0488f93fd1e1841d31a19683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 18/31] fix: the first step of a run must respect the maximum
 time step too

---
 src/solver/simulator_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index ef40b07..4579c19 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -199,7 +199,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
 
             double new_h;
             double t1         = _t_prev;
-            double t2         = t;
+            double t2         = std::min(t1 + max_time_step, t);
             bool force_accept = false;
             while (t1 < t)
             {
-- 
2.43.0


From c17df31a312597b6b68fe2c9405742b7aeb4e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 19/31] fix: Simulator with reuse_order rejected models with
 bus memories or bus pipes in debug builds

---
 src/solver/simulator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 5e01b06..0811219 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -131,10 +131,13 @@ void Simulator::init(double t0)
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
 
+        _model._mark_unprocessed();
+
+        // blocks that are still marked as processed (e.g. bus block builders) are never processed
         uint num_blocks     = 0;
-        auto enum_blocks_cb = [&](Block& /*c*/, uint32_t /*level*/) -> bool
+        auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
         {
-            num_blocks++;
+            if (!c.processed()) num_blocks++;
             return true;
         };
         _model.visit(enum_blocks_cb, 0);
@@ -144,7 +147,7 @@ void Simulator::init(double t0)
 
         auto add_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
         {
-            _processing_order1.emplace_back(&c);
+            if (!c.processed()) _processing_order1.emplace_back(&c);
             return true;
         };
         _model.visit(add_blocks_cb, 0);
-- 
2.43.0


From afcd466e6666b765e81ba65b6ffe77c40c0c65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 20/31] fix: signals that are each other's derivatives leaked

---
 src/signal/float_signal.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/signal/float_signal.hpp b/src/signal/float_signal.hpp
index 5f97d17..f909e07 100644
--- a/src/signal/float_signal.hpp
+++ b/src/signal/float_signal.hpp
@@ -33,7 +33,7 @@ public:
     using Base = ValueSignalImpl;
     using Ptr  = std::shared_ptr<FloatSignalImplT<T>>;
 
-    typename Types<T>::SignalImpl* state_variable() const { return _deriv_sig.get(); }
+    typename Types<T>::SignalImpl* state_variable() const { return _deriv_sig.lock().get(); }
     std::size_t size() const { return _size; }
 
     void set_deriv_signal(const Signal& deriv_sig)
@@ -44,11 +44,12 @@ public:
         _deriv_sig = ptr;
     }
 
-    typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.get(); }
+    typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.lock().get(); }
 
 protected:
-    std::shared_ptr<typename Types<T>::SignalImpl> _deriv_sig{
-        nullptr}; // the derivative signal if this is a state variable, nullptr otherwise
+    // the derivative signal if this is a state variable, empty otherwise; owned by the block that links both, since
+    // signals may be each other's derivatives
+    std::weak_ptr<typename Types<T>::SignalImpl> _deriv_sig;
     const std::size_t _size;
 
     FloatSignalImplT(std::size_t size, std::string_view name) : Base(name), _size(size) {}
-- 
2.43.0


From 298cbeb1b39ed56e733f9208cd471175dfb89870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 21/31] fix: BusMemory and BusPipe ignored excluded sub-buses

---
 src/block/extra/bus_block_builder.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/block/extra/bus_block_builder.cpp b/src/block/extra/bus_block_builder.cpp
index 4baab28..6c4c3bb 100644
--- a/src/block/extra/bus_block_builder.cpp
+++ b/src/block/extra/bus_block_builder.cpp
@@ -49,17 +49,19 @@ void BusBlockBuilder::visit_bus(const std::string& full_label, const Bus& bus)
 
     for (const auto& [label, sig] : bus)
     {
+        auto new_label = full_label + label;
+        if (std::find(_excluded_labels.begin(), _excluded_labels.end(), new_label) != _excluded_labels.end())
+        {
+            continue;
+        }
+
         if (auto* pa = dynamic_cast<pooya::BusImpl*>(&sig.impl()); pa)
         {
-            visit_bus(full_label + label + ".", Bus(*pa));
+            visit_bus(new_label + ".", Bus(*pa));
         }
         else
         {
-            auto new_label = full_label + label;
-            if (std::find(_excluded_labels.begin(), _excluded_labels.end(), new_label) == _excluded_labels.end())
-            {
-                block_builder(new_label, _ibus.at(new_label), _obus.at(new_label));
-            }
+            block_builder(new_label, _ibus.at(new_label), _obus.at(new_label));
         }
     }
 }
-- 
2.43.0


From c24d1a012fc0d97b1d6f736ee95b0c6993f4b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 22/31] fix: a Delay whose input was not assigned must not be
 left with a time but no sample

---
 src/block/extra/delay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 09c63ea..92880e4 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -77,8 +77,8 @@ public:
         }
 
         pooya_debug_verify0(_t.empty() || (t > _t.back()));
+        _x.push_back(_s_x); // throws if the input is not assigned
         _t.push_back(t);
-        _x.push_back(_s_x);
     }
 
     void activation_function(double t) override
-- 
2.43.0


From b96e1798cf76dc4eaf7985ae7bfef765a8223c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 23/31] fix: Delay read beyond its samples when the delay is
 NaN

---
 src/block/extra/delay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 92880e4..57318e7 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -95,7 +95,7 @@ public:
         {
             Base::_s_out = _s_initial;
         }
-        else if (t >= _t.back())
+        else if (!(t < _t.back())) // also if the delay is NaN
         {
             Base::_s_out = _x.back();
         }
-- 
2.43.0


From 7bd38c20519f523ef6ff4538355246a89b9eef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 24/31] fix: Add and Multiply must not be left connected when
 they are refused for having no inputs

---
 src/block/extra/add.hpp      | 3 ++-
 src/block/extra/multiply.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/add.hpp b/src/block/extra/add.hpp
index 79c7313..c4c1a83 100644
--- a/src/block/extra/add.hpp
+++ b/src/block/extra/add.hpp
@@ -42,13 +42,14 @@ public:
     bool connect(const Bus& ibus, const Bus& obus) override
     {
         pooya_trace("block: " + Base::full_name().str());
+        pooya_debug_verify(ibus->size() >= 1, Base::full_name().str() + " requires 1 or more input signals.");
+
         if (!Base::connect(ibus, obus))
         {
             return false;
         }
 
 #if defined(POOYA_DEBUG)
-        pooya_debug_verify(ibus->size() >= 1, Base::full_name().str() + " requires 1 or more input signals.");
         for (const auto& sig : ibus)
             pooya_debug_verify(dynamic_cast<typename Types<T>::SignalImpl*>(&sig.second.impl()),
                                Base::full_name().str() + ": signal type mismatch!");
diff --git a/src/block/extra/multiply.hpp b/src/block/extra/multiply.hpp
index 4a661ac..9226aed 100644
--- a/src/block/extra/multiply.hpp
+++ b/src/block/extra/multiply.hpp
@@ -43,13 +43,14 @@ public:
     bool connect(const Bus& ibus, const Bus& obus) override
     {
         pooya_trace("block: " + Base::full_name().str());
+        pooya_debug_verify(ibus->size() >= 1, Base::full_name().str() + " requires 1 or more input signals.");
+
         if (!Base::connect(ibus, obus))
         {
             return false;
         }
 
 #if defined(POOYA_DEBUG)
-        pooya_debug_verify(ibus->size() >= 1, Base::full_name().str() + " requires 1 or more input signals.");
         for (const auto& sig : ibus)
             pooya_debug_verify(dynamic_cast<typename Types<T>::SignalImpl*>(&sig.second.impl()),
                                Base::full_name().str() + ": signal type mismatch!");
-- 
2.43.0


From cfe2eccb573582953adcd17043bb7bbd191ea03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 25/31] fix: a simulator whose initialization failed must not
 count as initialized

---
 src/solver/fast_simulator.cpp | 4 +++-
 src/solver/simulator.cpp      | 6 ++++--
 src/solver/simulator_base.cpp | 5 +++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 574ba98..9c10a8d 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -46,7 +46,8 @@ void FastSimulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    pooya_debug_verify0(_processing_order.empty());
+    // an initialization that failed may have left its order behind
+    _processing_order.clear();
 
     _model._mark_unprocessed();
 
@@ -120,6 +121,7 @@ void FastSimulator::init(double t0)
     for (auto& sig : value_signals_) sig->clear();
 
     process_model(t0, true, true);
+    _initialized = true;
 }
 
 } // namespace pooya
diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 0811219..e9ca2c3 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -128,8 +128,9 @@ void Simulator::init(double t0)
 
     if (_reuse_order)
     {
-        pooya_debug_verify0(_processing_order1.empty());
-        pooya_debug_verify0(_processing_order2.empty());
+        // an initialization that failed may have left its order behind
+        _processing_order1.clear();
+        _processing_order2.clear();
 
         _model._mark_unprocessed();
 
@@ -157,6 +158,7 @@ void Simulator::init(double t0)
     }
 
     process_model(t0, true, true);
+    _initialized = true;
 }
 
 } // namespace pooya
diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 4579c19..d945685 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -34,6 +34,9 @@ void SimulatorBase::init(double t0)
 {
     pooya_trace("t0: " + std::to_string(t0));
 
+    // set by the derived class once its initialization is complete
+    _initialized = false;
+
     std::size_t state_variables_size{0};
 
     std::unordered_set<ValueSignalImpl*> value_signals;
@@ -118,8 +121,6 @@ void SimulatorBase::init(double t0)
     {
         sig->clear();
     }
-
-    _initialized = true;
 }
 
 void SimulatorBase::run(double t, double min_time_step, double max_time_step)
-- 
2.43.0


From 0d4d181a5b450a94fbf312239bd85ad85ad5dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 26/31] fix: InitialValue must keep the value of the accepted
 initial evaluation

---
 src/block/extra/initial_value.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index 3ba8ab8..416c452 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -42,11 +42,16 @@ public:
         if (_init)
         {
             _value = Base::_s_in;
-            _init  = false;
         }
         Base::_s_out = _value;
     }
 
+    void post_step(double /*t*/) override
+    {
+        pooya_trace("block: " + Base::full_name().str());
+        _init = false;
+    }
+
 protected:
     T _value;
     bool _init{true};
-- 
2.43.0


From 69268584181c7a3ccf9ab985758a392d73a7fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 27/31] fix: a block refused in its constructor must not stay
 linked to its parent

---
 src/block/singlei.hpp | 8 +++++++-
 src/block/singleo.hpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/block/singlei.hpp b/src/block/singlei.hpp
index c37fc2d..76ee983 100644
--- a/src/block/singlei.hpp
+++ b/src/block/singlei.hpp
@@ -30,9 +30,15 @@ protected:
     typename Types<T>::Signal _s_in;
 
     explicit SingleInputT(Submodel* parent, std::string_view name, uint16_t num_iports, uint16_t num_oports)
-        : Leaf(parent, name, num_iports, num_oports)
+        : Leaf(parent, name, verify_num_iports(num_iports), num_oports)
+    {
+    }
+
+    // to be checked before the block is linked to its parent, which must not keep a block that is not constructed
+    static uint16_t verify_num_iports(uint16_t num_iports)
     {
         pooya_verify(num_iports == 1, "One and only one input expected!");
+        return num_iports;
     }
 
 public:
diff --git a/src/block/singleo.hpp b/src/block/singleo.hpp
index 118e5b9..dd9a391 100644
--- a/src/block/singleo.hpp
+++ b/src/block/singleo.hpp
@@ -31,9 +31,15 @@ protected:
 
     explicit SingleOutputT(Submodel* parent = nullptr, std::string_view name = "",
                            uint16_t num_iports = Block::NoIOLimit, uint16_t num_oports = 1)
-        : Base(parent, name, num_iports, num_oports)
+        : Base(parent, name, num_iports, verify_num_oports(num_oports))
+    {
+    }
+
+    // to be checked before the block is linked to its parent, which must not keep a block that is not constructed
+    static uint16_t verify_num_oports(uint16_t num_oports)
     {
         pooya_verify(num_oports == 1, "One and only one output expected!");
+        return num_oports;
     }
 
 public:
-- 
2.43.0


From 479919b356ac9b1cef848513eefa5b1ee54a68ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 28/31] fix: Add and Multiply must not be left connected when
 an operand's type is refused

---
 src/block/extra/add.hpp      | 11 +++++------
 src/block/extra/multiply.hpp | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/block/extra/add.hpp b/src/block/extra/add.hpp
index c4c1a83..b4e6ede 100644
--- a/src/block/extra/add.hpp
+++ b/src/block/extra/add.hpp
@@ -43,18 +43,17 @@ public:
     {
         pooya_trace("block: " + Base::full_name().str());
         pooya_debug_verify(ibus->size() >= 1, Base::full_name().str() + " requires 1 or more input signals.");
-
-        if (!Base::connect(ibus, obus))
-        {
-            return false;
-        }
-
 #if defined(POOYA_DEBUG)
         for (const auto& sig : ibus)
             pooya_debug_verify(dynamic_cast<typename Types<T>::SignalImpl*>(&sig.second.impl()),
                                Base::full_name().str() + ": signal type mismatch!");
 #endif // POOYA_DEBUG
 
+        if (!Base::connect(ibus, obus))
+        {
+            return false;
+        }
+
         return true;
     }
 
diff --git a/src/block/extra/multiply.hpp b/src/block/extra/multiply.hpp
index 9226aed..95355f3 100644
--- a/src/block/extra/multiply.hpp
+++ b/src/block/extra/multiply.hpp
@@ -44,18 +44,17 @@ public:
     {
         pooya_trace("block: " + Base::full_name().str());
         pooya_debug_verify(ibus->size() >= 1, Base::full_name().str() + " requires 1 or more input signals.");
-
-        if (!Base::connect(ibus, obus))
-        {
-            return false;
-        }
-
 #if defined(POOYA_DEBUG)
         for (const auto& sig : ibus)
             pooya_debug_verify(dynamic_cast<typename Types<T>::SignalImpl*>(&sig.second.impl()),
                                Base::full_name().str() + ": signal type mismatch!");
 #endif // POOYA_DEBUG
 
+        if (!Base::connect(ibus, obus))
+        {
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From f2ebb97b7c4d9759fb9f6c1c3228d64ac9b4d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:43 +0000
Subject: [PATCH 29/31] fix: rows of a history that were skipped hold zeros
 instead of uninitialised memory

---
 src/solver/history.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 65db190..d967e77 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -123,6 +123,13 @@ void History::update(uint k, double t)
 
     if ((_bottom_row == uint(-1)) || (k > _bottom_row))
     {
+        // rows that were skipped have no values yet
+        const uint first = _bottom_row + 1;
+        _time.segment(first, k - first).setZero();
+        for (auto& sig : _signals)
+        {
+            at(sig).middleRows(first, k - first).setZero();
+        }
         _bottom_row = k;
     }
 }
-- 
2.43.0


From 76061b25f6f1722b4425d6b3db0245d547dc13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:43 +0000
Subject: [PATCH 30/31] fix: CSV export must not depend on the global locale

---
 src/solver/history.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index d967e77..ba43a4b 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -16,6 +16,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 */
 
 #include <fstream>
+#include <locale>
 #include <memory>
 #include <string>
 
@@ -160,6 +161,7 @@ void History::export_csv(const std::string& filename)
     }
 
     std::ofstream ofs(filename);
+    ofs.imbue(std::locale::classic());
 
     // header
     ofs << "time";
-- 
2.43.0


From f6f1ee56d338b10be274b91cf66c52391e5d2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:43 +0000
Subject: [PATCH 31/31] fix: a history that grows by no rows wrote behind its
 storage

---
 src/solver/history.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/history.hpp b/src/solver/history.hpp
index 687582a..6c60d20 100644
--- a/src/solver/history.hpp
+++ b/src/solver/history.hpp
@@ -42,7 +42,7 @@ protected:
     std::vector<std::shared_ptr<ValueSignalImpl>> _signals;
 
 public:
-    History(uint nrows_grow = 1000) : _nrows_grow(nrows_grow), _time(nrows_grow) {}
+    History(uint nrows_grow = 1000) : _nrows_grow(nrows_grow > 0 ? nrows_grow : 1), _time(nrows_grow) {}
 
     bool track(const Signal& sig);
     void untrack(const Signal& sig);
-- 
2.43.0

