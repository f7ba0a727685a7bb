From d5e4161de21df0e69198f0edc2e43c4acc00b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 01/30] fix: projection index is rebuilt after removing
 synapses of a postsynaptic neuron

---
 knp/core-library/impl/projection.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/knp/core-library/impl/projection.cpp b/knp/core-library/impl/projection.cpp
index 924afe7..3a98429 100644
--- a/knp/core-library/impl/projection.cpp
+++ b/knp/core-library/impl/projection.cpp
@@ -235,16 +235,11 @@ template <typename SynapseType>
 size_t knp::core::Projection<SynapseType>::remove_postsynaptic_neuron_synapses(size_t neuron_index)  //!OCLINT
 {
     const size_t starting_size = parameters_.size();
-    bool was_index_updated = is_index_updated_;
-    // Basic exception safety.
-    is_index_updated_ = false;
     auto synapses_to_remove = find_synapses(neuron_index, Search::by_postsynaptic);
+    // Positions of the remaining synapses change: the index must be rebuilt before the next search.
+    is_index_updated_ = false;
     std::sort(synapses_to_remove.begin(), synapses_to_remove.end());
     remove_by_index(parameters_, synapses_to_remove);
-    if (was_index_updated)
-        for (auto &synapse : synapses_to_remove) index_.erase(synapse);
-
-    is_index_updated_ = was_index_updated;
     return starting_size - parameters_.size();
 }
 
-- 
2.43.0


From 724a57016d90f25123ff5847bad6d3db56ec4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 02/30] fix: removing a receiver no longer advances an erased
 subscription iterator

---
 knp/core-library/impl/message_endpoint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index cf29d86..c546778 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -129,11 +129,15 @@ void MessageEndpoint::remove_receiver(const UID &receiver)
 {
     SPDLOG_DEBUG("Removing receiver {}...", std::string(receiver));
 
-    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end(); ++sub_iter)
+    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end();)
     {
         if (get_receiver_uid(sub_iter->second) == receiver)
         {
-            subscriptions_.erase(sub_iter);
+            sub_iter = subscriptions_.erase(sub_iter);
+        }
+        else
+        {
+            ++sub_iter;
         }
     }
     update_senders();
-- 
2.43.0


From 96655b3bef846ec9bcedc0f49f06595aae7a32e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 03/30] fix: removing neurons by an unsorted index list removes
 exactly the listed neurons

---
 knp/core-library/include/knp/core/population.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/knp/core-library/include/knp/core/population.h b/knp/core-library/include/knp/core/population.h
index 63918f0..6fbba42 100644
--- a/knp/core-library/include/knp/core/population.h
+++ b/knp/core-library/include/knp/core/population.h
@@ -26,6 +26,7 @@
 #include <knp/core/uid.h>
 #include <knp/neuron-traits/all_traits.h>
 
+#include <algorithm>
 #include <functional>
 #include <utility>
 #include <vector>
@@ -208,10 +209,13 @@ public:  // NOLINT
      */
     void remove_neurons(const std::vector<size_t> &neuron_indexes)
     {
-        size_t index_shift = 0;
-        for (const auto &index : neuron_indexes)
+        // Removing from the last neuron to the first one, so that the remaining indexes stay valid.
+        std::vector<size_t> indexes{neuron_indexes};
+        std::sort(indexes.begin(), indexes.end(), std::greater<>{});
+        indexes.erase(std::unique(indexes.begin(), indexes.end()), indexes.end());
+        for (const auto &index : indexes)
         {
-            remove_neuron(index - index_shift++);
+            remove_neuron(index);
         }
     }
 
-- 
2.43.0


From 1ccc454c5487fcddac36b1c8a1082ee4eeb742c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 04/30] fix: reading a message without elements empties the
 target's elements

---
 knp/core-library/impl/messaging/spike_message.cpp           | 2 --
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/knp/core-library/impl/messaging/spike_message.cpp b/knp/core-library/impl/messaging/spike_message.cpp
index f6e9244..f090a9a 100644
--- a/knp/core-library/impl/messaging/spike_message.cpp
+++ b/knp/core-library/impl/messaging/spike_message.cpp
@@ -58,8 +58,6 @@ std::istream &operator>>(std::istream &stream, SpikeMessage &msg)
     size_t neurons_count = 0;
     stream >> msg.header_.sender_uid_ >> msg.header_.send_time_ >> neurons_count;
 
-    if (0 == neurons_count) return stream;
-
     msg.neuron_indexes_.resize(neurons_count);
     for (size_t i = 0; i < neurons_count; ++i)
     {
diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 96e9f1f..4942916 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -82,8 +82,6 @@ std::istream &operator>>(std::istream &stream, SynapticImpactMessage &msg)
         impacts_count;
 
     msg.is_forcing_ = forcing_buf;
-    if (0 == impacts_count) return stream;
-
     msg.impacts_.resize(impacts_count);
     for (size_t i = 0; i < impacts_count; ++i)
     {
-- 
2.43.0


From 43fcbf0d27e4f2ca42b3058bd2c2cdacb901a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 05/30] fix: a BLIFAT burst counts its phase down and ends, for
 any bursting period and in the resource STDP variant

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h     | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 0c31824..6756848 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -37,11 +37,7 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_)
-    {
-        --neuron.bursting_phase_;
-        neuron.potential_ += neuron.reflexive_weight_;
-    }
+    if (neuron.bursting_phase_ > 0 && 0 == --neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
 
     neuron.pre_impact_potential_ = neuron.potential_;
 }
@@ -59,7 +55,7 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.is_being_forced_ = false;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
+    if (neuron.bursting_phase_ > 0 && 0 == --neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
 
     neuron.pre_impact_potential_ = neuron.potential_;
 }
-- 
2.43.0


From 08b6a08c8d080eec50effa3d98f945bded8803cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 06/30] fix: the step counter of a BLIFAT neuron that has never
 fired does not wrap to zero

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 6756848..266c82e 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -31,7 +31,9 @@ namespace knp::backends::cpu::populations::impl::blifat
 inline void calculate_pre_impact_single_neuron_state_impl(
     knp::neuron_traits::neuron_parameters<knp::neuron_traits::BLIFATNeuron> &neuron)
 {
-    ++neuron.n_time_steps_since_last_firing_;
+    // The largest value means that the neuron has never fired.
+    if (neuron.n_time_steps_since_last_firing_ < std::numeric_limits<std::size_t>::max())
+        ++neuron.n_time_steps_since_last_firing_;
     neuron.dynamic_threshold_ *= neuron.threshold_decay_;
     neuron.postsynaptic_trace_ *= neuron.postsynaptic_trace_decay_;
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
@@ -46,7 +48,9 @@ inline void calculate_pre_impact_single_neuron_state_impl(
 inline void calculate_pre_impact_single_neuron_state_impl(
     knp::neuron_traits::neuron_parameters<knp::neuron_traits::SynapticResourceSTDPBLIFATNeuron> &neuron)
 {
-    ++neuron.n_time_steps_since_last_firing_;
+    // The largest value means that the neuron has never fired.
+    if (neuron.n_time_steps_since_last_firing_ < std::numeric_limits<std::size_t>::max())
+        ++neuron.n_time_steps_since_last_firing_;
     neuron.dynamic_threshold_ *= neuron.threshold_decay_;
     neuron.postsynaptic_trace_ *= neuron.postsynaptic_trace_decay_;
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
-- 
2.43.0


From 3c35a1f7a744549709150990f5fccd33d82ae708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 07/30] fix: a backend whose run ended by a predicate no longer
 reports that it is running

---
 knp/core-library/impl/backend.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 3542aea..0389015 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -89,6 +89,7 @@ void Backend::start()
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -109,6 +110,7 @@ void Backend::start(const RunPredicate& run_predicate)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -137,6 +139,7 @@ void Backend::start(const RunPredicate& pre_step, const RunPredicate& post_step)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
-- 
2.43.0


From 519d2104ed40550874635b8102e8dece47763288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 08/30] fix: selecting devices selects every requested device
 and refuses a request for a missing one

---
 knp/core-library/impl/backend.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 0389015..02a76c6 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -169,6 +169,8 @@ void Backend::_uninit()
 
 void Backend::select_devices(const std::set<UID>& uids)
 {
+    devices_.clear();
+
     for (auto&& device : get_devices())
     {
         SPDLOG_DEBUG("Trying UID {}...", std::string(device->get_uid()));
@@ -176,7 +178,7 @@ void Backend::select_devices(const std::set<UID>& uids)
         {
             SPDLOG_INFO("Device with UID {} was selected.", std::string(device->get_uid()));
             devices_.push_back(std::move(device));
-            return;
+            continue;
         }
         SPDLOG_TRACE("Device with UID {} was not selected.", std::string(device->get_uid()));
     }
-- 
2.43.0


From 2d4f58bcfb7d9800a8a8d3b61353f5228b0900c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 09/30] fix: aligned generator stays inside the smaller
 population for any sizes

---
 .../include/knp/framework/projection/synapse_generators.h  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/projection/synapse_generators.h b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
index 9333512..beca155 100644
--- a/knp/base-framework/include/knp/framework/projection/synapse_generators.h
+++ b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
@@ -100,20 +100,17 @@ template <typename SynapseType>
             syn_gen](size_t index) -> std::optional<typename knp::core::Projection<SynapseType>::Synapse>
     {
         size_t from_index = 0;
-        size_t pack_size = 0;
         size_t to_index = 0;
 
         if (presynaptic_pop_size >= postsynaptic_pop_size)
         {
             from_index = index;
-            pack_size = presynaptic_pop_size / postsynaptic_pop_size;
-            to_index = index / pack_size;
+            to_index = index * postsynaptic_pop_size / presynaptic_pop_size;
         }
         else
         {
             to_index = index;
-            pack_size = postsynaptic_pop_size / presynaptic_pop_size;
-            from_index = index / pack_size;
+            from_index = index * presynaptic_pop_size / postsynaptic_pop_size;
         }
         return std::make_tuple(syn_gen(from_index, to_index), from_index, to_index);
     };
-- 
2.43.0


From e26c2e9e788e754fe68a73b3b94ba9de2dd2b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:51 +0000
Subject: [PATCH 10/30] fix: adding a population or projection variant checks
 for a duplicate UID

---
 knp/base-framework/impl/network.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/network.cpp b/knp/base-framework/impl/network.cpp
index 3810e94..9b61394 100644
--- a/knp/base-framework/impl/network.cpp
+++ b/knp/base-framework/impl/network.cpp
@@ -105,7 +105,7 @@ void Network::add_population(core::AllPopulationsVariant &&population)
 {
     SPDLOG_DEBUG("Adding population variant...");
 
-    // check_population_constraints(std::visit([](const auto &var_val) { return var_val; }, population));
+    std::visit([this](const auto &var_val) { check_population_constraints(var_val); }, population);
 
     populations_.emplace_back(population);
 }
@@ -202,7 +202,7 @@ void Network::add_projection(core::AllProjectionsVariant &&projection)
 {
     SPDLOG_DEBUG("Adding projection variant...");
 
-    // check_projection_constraints(std::visit([](const auto &var_val) { return var_val; }, projection));
+    std::visit([this](const auto &var_val) { check_projection_constraints(var_val); }, projection);
     projections_.emplace_back(projection);
 }
 
-- 
2.43.0


From f2058a44a9d60ed1bda2ac4317f829ff4282ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 11/30] fix: gap between spikes in the resource STDP was
 computed as last step minus current step, so a spiking period never continued

---
 .../knp/backends/cpu-library/impl/populations/training/stdp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index d65489e..35759f4 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -105,13 +105,13 @@ neuron_traits::ISIPeriodType update_isi(
             neuron.first_isi_spike_ = step;
             break;
         case neuron_traits::ISIPeriodType::period_started:
-            if (neuron.last_step_ - step < neuron.isi_max_)
+            if (step - neuron.last_step_ < neuron.isi_max_)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_continued;
             }
             break;
         case neuron_traits::ISIPeriodType::period_continued:
-            if (neuron.last_step_ - step >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
+            if (step - neuron.last_step_ >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_started;
                 neuron.first_isi_spike_ = step;
-- 
2.43.0


From 927f83e372c7d702fc74200d1b60808c89a5018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 12/30] fix: reward stability change used an unsigned
 difference that wrapped when the spiking period was younger than isi_max

---
 .../backends/cpu-library/impl/populations/altai/altai_stdp.h    | 2 +-
 .../backends/cpu-library/impl/populations/blifat/blifat_stdp.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
index b6ca4d1..b2d99d0 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
@@ -142,7 +142,7 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = step - neuron.first_isi_spike_ - neuron.isi_max_;
+                const double difference = static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_;
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - std::fabs(difference) / neuron.isi_max_, -1.0);
             }
diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
index 7e697a7..c132895 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
@@ -145,7 +145,7 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = std::fabs(step - neuron.first_isi_spike_ - neuron.isi_max_);
+                const double difference = std::fabs(static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_);
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - difference / neuron.isi_max_, -1.0);
             }
-- 
2.43.0


From a8427ecac4988f850637cc8c6b3b456dba6ed52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 13/30] fix: resource STDP weight became NaN for a synapse with
 equal weight limits and no resource

---
 .../backends/cpu-library/impl/populations/training/stdp.h    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index 35759f4..f0494b6 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -48,7 +48,10 @@ void recalculate_synapse_weights(
         const auto &rule = synapse.get().rule_;
         const auto syn_w = std::max(rule.synaptic_resource_, 0.F);
         const auto weight_diff = rule.w_max_ - rule.w_min_;
-        synapse.get().weight_ = rule.w_min_ + weight_diff * syn_w / (weight_diff + syn_w);
+        const auto denominator = weight_diff + syn_w;
+        // Without weight range and resource the formula is 0 / 0.
+        synapse.get().weight_ =
+            denominator != 0.F ? rule.w_min_ + weight_diff * syn_w / denominator : rule.w_min_;
     }
 }
 
-- 
2.43.0


From 8f6ca9eb60e96bddebca86861eaa3513912befd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 14/30] fix: presynaptic spike history of the additive STDP was
 filled for synapses of the postsynaptic neuron

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index b3bcc8c..f3f2e2a 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -156,7 +156,7 @@ inline void init_projection(
             append_spike_times(
                 projection, msg,
                 [&projection](uint32_t neuron_index)
-                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_postsynaptic); },
+                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_presynaptic); },
                 &knp::synapse_traits::STDPAdditiveRule<Synapse>::presynaptic_spike_times_);
         }
         if (processing_type == ProcessingType::STDPOnly)
-- 
2.43.0


From 6276b2a742306fcb80252b0e17c82ce3f6f6235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 15/30] fix: removing populations and projections from the CPU
 backends removes them

---
 .../include/knp/backends/cpu-library/init.h   | 28 +++++++++++++++++++
 .../impl/backend.cpp                          | 14 ++++++++++
 .../knp/backends/cpu-multi-threaded/backend.h |  4 +--
 .../impl/backend.cpp                          | 14 ++++++++++
 .../backends/cpu-single-threaded/backend.h    |  4 +--
 5 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/init.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/init.h
index e2e9332..95c3d85 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/init.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/init.h
@@ -27,9 +27,11 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <string>
 #include <tuple>
 #include <variant>
+#include <vector>
 
 
 /**
@@ -109,4 +111,30 @@ void init(const ProjectionContainer &projections, knp::core::MessageEndpoint &me
     }
 }
 
+
+/**
+ * @brief Remove elements with given UIDs from a backend container and drop their subscriptions.
+ * 
+ * @param elements container of backend populations or projections.
+ * @param uids UIDs of elements to remove.
+ * @param message_endpoint message endpoint.
+ * @param get_variant function that returns a population or projection variant stored in a container element.
+ */
+template <typename ElementContainer, typename VariantGetter>
+void remove_elements(
+    ElementContainer &elements, const std::vector<knp::core::UID> &uids, knp::core::MessageEndpoint &message_endpoint,
+    VariantGetter get_variant)
+{
+    for (const auto &uid : uids)
+    {
+        const auto iter = std::find_if(
+            elements.begin(), elements.end(),
+            [&uid, &get_variant](const auto &element)
+            { return std::visit([&uid](const auto &arg) { return arg.get_uid() == uid; }, get_variant(element)); });
+        if (iter == elements.end()) continue;
+        elements.erase(iter);
+        message_endpoint.remove_receiver(uid);
+    }
+}
+
 }  // namespace knp::backends::cpu
diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 8b75e80..65a6b17 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -368,6 +368,20 @@ void MultiThreadedCPUBackend::load_all_populations(const std::vector<knp::core::
 }
 
 
+void MultiThreadedCPUBackend::remove_projections(const std::vector<knp::core::UID> &uids)
+{
+    knp::backends::cpu::remove_elements(
+        projections_, uids, get_message_endpoint(), [](const auto &wrapper) -> const auto & { return wrapper.arg_; });
+}
+
+
+void MultiThreadedCPUBackend::remove_populations(const std::vector<knp::core::UID> &uids)
+{
+    knp::backends::cpu::remove_elements(
+        populations_, uids, get_message_endpoint(), [](const auto &population) -> const auto & { return population; });
+}
+
+
 std::vector<std::unique_ptr<knp::core::Device>> MultiThreadedCPUBackend::get_devices() const
 {
     std::vector<std::unique_ptr<knp::core::Device>> result;
diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h b/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
index 68ed000..84a4c37 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
@@ -315,14 +315,14 @@ public:
      *
      * @param uids UIDs of projections to remove.
      */
-    void remove_projections(const std::vector<knp::core::UID> &uids) override {}
+    void remove_projections(const std::vector<knp::core::UID> &uids) override;
 
     /**
      * @brief Remove populations with given UIDs from the backend.
      *
      * @param uids UIDs of populations to remove.
      */
-    void remove_populations(const std::vector<knp::core::UID> &uids) override {}
+    void remove_populations(const std::vector<knp::core::UID> &uids) override;
 
 public:
     /**
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
index 40c8f12..35b4f0b 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
@@ -186,6 +186,20 @@ void SingleThreadedCPUBackend::load_all_populations(const std::vector<knp::core:
 }
 
 
+void SingleThreadedCPUBackend::remove_projections(const std::vector<knp::core::UID> &uids)
+{
+    knp::backends::cpu::remove_elements(
+        projections_, uids, get_message_endpoint(), [](const auto &wrapper) -> const auto & { return wrapper.arg_; });
+}
+
+
+void SingleThreadedCPUBackend::remove_populations(const std::vector<knp::core::UID> &uids)
+{
+    knp::backends::cpu::remove_elements(
+        populations_, uids, get_message_endpoint(), [](const auto &population) -> const auto & { return population; });
+}
+
+
 std::vector<std::unique_ptr<knp::core::Device>> SingleThreadedCPUBackend::get_devices() const
 {
     std::vector<std::unique_ptr<knp::core::Device>> result;
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h b/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
index 5cbb49d..e346e30 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
+++ b/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
@@ -284,14 +284,14 @@ public:
      *
      * @param uids UIDs of projections to remove.
      */
-    void remove_projections(const std::vector<knp::core::UID> &uids) override {}
+    void remove_projections(const std::vector<knp::core::UID> &uids) override;
 
     /**
      * @brief Remove populations with given UIDs from the backend.
      *
      * @param uids UIDs of populations to remove.
      */
-    void remove_populations(const std::vector<knp::core::UID> &uids) override {}
+    void remove_populations(const std::vector<knp::core::UID> &uids) override;
 
 public:
     /**
-- 
2.43.0


From a715584e66e65e0dc7ff20cd6add268c4ac0c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 16/30] fix: supported neuron and synapse types are looked up
 in the list of all types

---
 knp/meta-library/include/knp/meta/stringify.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/meta-library/include/knp/meta/stringify.h b/knp/meta-library/include/knp/meta/stringify.h
index ebcc688..0948038 100644
--- a/knp/meta-library/include/knp/meta/stringify.h
+++ b/knp/meta-library/include/knp/meta/stringify.h
@@ -92,7 +92,7 @@ std::vector<size_t> get_supported_type_indexes()
     std::vector<size_t> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>([&result](auto i)
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>([&result](auto i)
                                                                                         { result.push_back(i); });
 
     return result;
@@ -115,7 +115,7 @@ std::vector<std::string> get_supported_type_names(const NamesType &type_names)
     std::vector<std::string> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>(
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>(
         [&type_names, &result](auto i) { result.push_back(std::get<i>(type_names)); });
 
     return result;
-- 
2.43.0


From a6b52b0cb7f3627878752e5a25468c0422474279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:53 +0000
Subject: [PATCH 17/30] fix: posting a task to the thread pool does not wait
 for all tasks, so a running task can post

---
 .../thread_pool/thread_pool_executor.h        | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
index 95fab97..78e4c2f 100644
--- a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
+++ b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
@@ -52,6 +52,20 @@ public:
     {
     }
 
+    /**
+     * @brief Copy constructor.
+     * 
+     * @param other executor to copy.
+     * 
+     * @note `boost::asio::post` copies the executor. A copy posts tasks on behalf of the original executor, and does
+     * not wait for them when it is destroyed: otherwise posting a task would block until all tasks are completed, and
+     * posting a task from a running task would never return.
+     */
+    ThreadPoolExecutor(const ThreadPoolExecutor &other)
+        : context_(other.context_), task_count_(other.task_count_), is_copy_(true)
+    {
+    }
+
     /**
      * @brief Get thread pool context.
      * 
@@ -93,8 +107,13 @@ public:
 
     /**
      * @brief Blocking destructor that waits for all tasks to be completed.
+     * 
+     * @note Destructor of a copy does not block.
      */
-    ~ThreadPoolExecutor() { join(); }
+    ~ThreadPoolExecutor()
+    {
+        if (!is_copy_) join();
+    }
 
 private:
     template <class Func>
@@ -148,6 +167,7 @@ private:
 
     ThreadPoolContext &context_;
     std::shared_ptr<size_t> task_count_;
+    bool is_copy_ = false;
 };
 
 }  // namespace knp::backends::cpu_executors
-- 
2.43.0


From 23ef3e5090613fba5dea114b0be5b23213486e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:56 +0000
Subject: [PATCH 18/30] fix: impact messages of the multi-threaded projections
 name their populations in the right order

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index 032a563..ff1b2a2 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -165,8 +165,8 @@ void calculate_projection_multithreaded_impl(
         {
             knp::core::messaging::SynapticImpactMessage message_out{
                 {projection_uid, step_n},
-                postsynaptic_uid,
                 presynaptic_uid,
+                postsynaptic_uid,
                 training::stdp::is_forced(projection),
                 {value.second}};
             future_messages.insert(std::make_pair(value.first, message_out));
-- 
2.43.0


From a213f52adab11edfce7f7926f5e3eebe36e236ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 19/30] fix: multi-threaded projections process the spike
 messages of every sender, not only the first one

---
 .../impl/backend.cpp                          | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 65a6b17..55177e7 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -232,16 +232,19 @@ void send_message(ProjectionWrapper &projection, core::MessageEndpoint &endpoint
     }
 }
 
-inline std::unordered_map<uint64_t, size_t> convert_spikes(const core::messaging::SpikeMessage &message)
+inline std::unordered_map<uint64_t, size_t> convert_spikes(const std::vector<core::messaging::SpikeMessage> &messages)
 {
     std::unordered_map<knp::core::Step, size_t> result;
-    for (auto neuron_idx : message.neuron_indexes_)
+    for (const auto &message : messages)
     {
-        auto iter = result.find(neuron_idx);
-        if (result.end() == iter)
-            result.insert({neuron_idx, 1});
-        else
-            ++(iter->second);
+        for (auto neuron_idx : message.neuron_indexes_)
+        {
+            auto iter = result.find(neuron_idx);
+            if (result.end() == iter)
+                result.insert({neuron_idx, 1});
+            else
+                ++(iter->second);
+        }
     }
     return result;
 }
@@ -264,7 +267,7 @@ void MultiThreadedCPUBackend::calculate_projections()
         }
 
         // Looping over synapses.
-        converted_message_buffer.emplace_back(convert_spikes(msg_buf[0]));
+        converted_message_buffer.emplace_back(convert_spikes(msg_buf));
         const auto proj_size = std::visit([](const auto &proj) { return proj.size(); }, projection.arg_);
         for (size_t synapse_index = 0; synapse_index < proj_size; synapse_index += projection_part_size_)
         {
-- 
2.43.0


From 49c5d43de983bd3eb91a4ca52c502d96449a97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 20/30] fix: multi-threaded projections send one impact per
 spike, as the single-threaded ones do

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index ff1b2a2..46cbc2e 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -141,12 +141,13 @@ void calculate_projection_multithreaded_impl(
         }
 
         knp::core::messaging::SynapticImpact impact{
-            synapse_index, std::get<core::synapse_data>(synapse).weight_ * iter->second,
+            synapse_index, std::get<core::synapse_data>(synapse).weight_,
             std::get<core::synapse_data>(synapse).output_type_,
             static_cast<uint32_t>(std::get<core::source_neuron_id>(synapse)),
             static_cast<uint32_t>(std::get<core::target_neuron_id>(synapse))};
 
-        container.emplace_back(key, impact);
+        // One impact per spike.
+        container.insert(container.end(), iter->second, std::make_pair(key, impact));
     }
     // Add impacts to future messages queue, it is a shared resource.
     const std::lock_guard lock_guard(mutex);
-- 
2.43.0


From 1e5da929a29065923b3265c6226e3d94402298ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 21/30] fix: reading an output channel works for any window: no
 allocation by step numbers, an inverted window is empty; set converter takes
 any output size

---
 knp/base-framework/impl/output_channel.cpp                    | 4 +++-
 .../include/knp/framework/io/out_converters/convert_set.h     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index 056f217..aedd552 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -56,11 +56,13 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::read_some_from_buffer(
 {
     std::vector<core::messaging::SpikeMessage> result;
 
-    result.reserve(starting_step + final_step + 1);
+    // An inverted interval is empty.
+    if (starting_step > final_step) return result;
     // Here we assume that buffer is sorted.
     auto begin_iter = std::lower_bound(message_buffer_.begin(), message_buffer_.end(), starting_step, comp_lower);
     auto end_iter = std::upper_bound(message_buffer_.begin(), message_buffer_.end(), final_step, comp_upper);
 
+    result.reserve(std::distance(begin_iter, end_iter));
     std::move(begin_iter, end_iter, std::back_inserter(result));
     message_buffer_.erase(begin_iter, end_iter);
     return result;
diff --git a/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h b/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
index a70e534..b51c98d 100644
--- a/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
+++ b/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
@@ -24,6 +24,7 @@
 #include <knp/core/impexp.h>
 #include <knp/core/messaging/spike_message.h>
 
+#include <algorithm>
 #include <set>
 #include <vector>
 
@@ -65,7 +66,8 @@ public:
         }
 
         // Ignore extra neurons.
-        auto iter = result.lower_bound(output_size_);
+        auto iter =
+            std::find_if(result.cbegin(), result.cend(), [this](auto index) { return index >= output_size_; });
         result.erase(iter, result.end());
         return result;
     }
-- 
2.43.0


From c9aba941b748e87a18301061d91cecc1598783f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:59 +0000
Subject: [PATCH 22/30] fix: the buffer of an output channel is ordered by
 step, as reading a window needs, however the messages were received

---
 knp/base-framework/impl/output_channel.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index aedd552..1f55551 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -40,6 +40,7 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::update()
     endpoint_.receive_all_messages();
     auto messages = endpoint_.unload_messages<core::messaging::SpikeMessage>(base_.uid_);
 
+    const auto old_size = static_cast<std::ptrdiff_t>(message_buffer_.size());
     message_buffer_.reserve(message_buffer_.size() + messages.size());
     for (auto &&message : messages)
     {
@@ -47,6 +48,12 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::update()
         message_buffer_.push_back(std::move(message));
     }
 
+    // Messages that were routed separately and received together do not come in the order of their steps.
+    const auto comp = [](const auto &left, const auto &right)
+    { return left.header_.send_time_ < right.header_.send_time_; };
+    std::stable_sort(message_buffer_.begin() + old_size, message_buffer_.end(), comp);
+    std::inplace_merge(message_buffer_.begin(), message_buffer_.begin() + old_size, message_buffer_.end(), comp);
+
     return message_buffer_;
 }
 
-- 
2.43.0


From 21142f3742d0815bc79601839308c0eb15e8a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 23/30] fix: a sequence converter gives no spikes for values
 beyond the end of its stream

---
 .../knp/framework/io/in_converters/sequence_converter.h      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
index fbae413..1d858c2 100644
--- a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
+++ b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
@@ -80,8 +80,9 @@ public:
         core::messaging::SpikeData message_data;
         for (size_t i = 0; i < data_size_; ++i)
         {
-            ValueType value;
-            *stream_ >> value;
+            ValueType value{};
+            // There are no values after the end of the stream.
+            if (!(*stream_ >> value)) break;
             if (interpret_(value))
             {
                 message_data.push_back(i);
-- 
2.43.0


From e60dfc6bf767b11e4ac6756087046e72be7ffc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:34 +0000
Subject: [PATCH 24/30] fix: the group winner-take-all handler lets no group
 win when it is told to select none

---
 knp/base-framework/impl/message_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/message_handlers.cpp b/knp/base-framework/impl/message_handlers.cpp
index e7c6cb6..15d81b7 100644
--- a/knp/base-framework/impl/message_handlers.cpp
+++ b/knp/base-framework/impl/message_handlers.cpp
@@ -69,7 +69,7 @@ knp::core::messaging::SpikeData KWtaRandomHandler::operator()(std::vector<knp::c
 knp::core::messaging::SpikeData GroupWtaRandomHandler::operator()(
     const std::vector<knp::core::messaging::SpikeMessage> &messages)
 {
-    if (messages.empty())
+    if (messages.empty() || 0 == num_winners_)
     {
         return {};
     }
-- 
2.43.0


From f728089d6bc71f9115f0c61c079b8f12d932d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:56 +0000
Subject: [PATCH 25/30] fix: the model loader keeps channels apart whose UIDs
 share a hash bucket

---
 knp/base-framework/impl/model_loader.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/knp/base-framework/impl/model_loader.cpp b/knp/base-framework/impl/model_loader.cpp
index 2770968..1edaa55 100644
--- a/knp/base-framework/impl/model_loader.cpp
+++ b/knp/base-framework/impl/model_loader.cpp
@@ -34,17 +34,16 @@ void ModelLoader::init_channels(
     knp::framework::Model &model, const std::unordered_multimap<core::UID, core::UID, core::uid_hash> &channels,
     GenType channel_gen)
 {
-    for (size_t i = 0; i < channels.bucket_count(); ++i)
+    // Equal keys are adjacent. One bucket can hold several keys.
+    for (auto channel_iter = channels.begin(); channel_iter != channels.end();)
     {
-        auto bucket_iter = channels.begin(i);
-        if (channels.end(i) == bucket_iter) continue;
-        auto channel_uid = bucket_iter->first;
+        auto channel_uid = channel_iter->first;
+        const auto channel_end = channels.equal_range(channel_uid).second;
 
         std::vector<core::UID> p_uids;
-        p_uids.reserve(channels.bucket_size(i));
-
+        p_uids.reserve(std::distance(channel_iter, channel_end));
         std::transform(
-            bucket_iter, channels.end(i), std::back_inserter(p_uids),
+            channel_iter, channel_end, std::back_inserter(p_uids),
 #ifdef __clang__
 #    pragma clang diagnostic push
 #    pragma clang diagnostic ignored "-Wunused-lambda-capture"
@@ -60,6 +59,7 @@ void ModelLoader::init_channels(
 #    pragma clang diagnostic pop
 #endif
         (this->*channel_gen)(model, channel_uid, p_uids);
+        channel_iter = channel_end;
     }
 }
 
-- 
2.43.0


From 86d5ec868965a5292ad0b1203cb8ffc62ed082a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 26/30] fix: the model executor sends the inputs only of steps
 that are run

The inputs were sent before the run predicate was asked, so the inputs of the
first step that is not run were sent too, and sent again by the next start().
---
 knp/base-framework/impl/model_executor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/model_executor.cpp b/knp/base-framework/impl/model_executor.cpp
index 71c18be..01c62d1 100644
--- a/knp/base-framework/impl/model_executor.cpp
+++ b/knp/base-framework/impl/model_executor.cpp
@@ -96,13 +96,17 @@ void ModelExecutor::start(core::Backend::RunPredicate run_predicate)
     get_backend()->start(
         [this, run_predicate](knp::core::Step step)
         {
+            // Run user predicate: inputs are only sent for steps that are run.
+            if (!run_predicate(step))
+            {
+                return false;
+            }
             // Sending inputs from the channels.
             for (auto &i_ch : loader_.get_inputs())
             {
                 i_ch.send(step);
             }
-            // Run user predicate.
-            return run_predicate(step);
+            return true;
         },
         [this](knp::core::Step)
         {
-- 
2.43.0


From ba1413727ac7f813a1396f6221503490c5f281a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:29 +0000
Subject: [PATCH 27/30] fix: an image dataset holds exactly the complete
 labelled images, and a split cannot wrap around

A short read of the image stream made a record of the previous image's bytes, a
last label without a newline was dropped, a limit of 0 meant no limit, and the
sum of the two sizes of a split could wrap around and pass the check.
---
 .../impl/data_processing/classification/dataset.cpp      | 3 ++-
 .../impl/data_processing/classification/image.cpp        | 9 ++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/knp/base-framework/impl/data_processing/classification/dataset.cpp b/knp/base-framework/impl/data_processing/classification/dataset.cpp
index b23f457..e2b44c1 100644
--- a/knp/base-framework/impl/data_processing/classification/dataset.cpp
+++ b/knp/base-framework/impl/data_processing/classification/dataset.cpp
@@ -29,7 +29,8 @@ namespace knp::framework::data_processing::classification
 
 void Dataset::split(size_t frames_for_training, size_t frames_for_inference)
 {
-    if (dataset_.size() < frames_for_inference + frames_for_training)
+    // The sum of the two sizes could wrap around.
+    if (dataset_.size() < frames_for_training || dataset_.size() - frames_for_training < frames_for_inference)
     {
         SPDLOG_ERROR(
             "Incorrect split size. Dataset is too small. Required {} frames for training, and {} frames for inference, "
diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index 68f1d81..b5ac678 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -38,19 +38,18 @@ void Dataset::process_labels_and_images(
 
     dataset_.reserve(max_images_amount);
 
-    while (images_stream.good() && labels_stream.good())
+    while (dataset_.size() < max_images_amount && images_stream.good() && labels_stream.good())
     {
-        images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size);
+        // An image or a label that is not complete is not a record.
+        if (!images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size)) break;
         auto spikes_frame = image_to_spikes(image_reading_buffer);
 
         std::string str;
-        if (!std::getline(labels_stream, str).good()) break;
+        if (!std::getline(labels_stream, str)) break;
         int label = std::stoi(str);
 
         // Push to training data set because we dont know dataset size yet for a split
         dataset_.push_back({label, std::move(spikes_frame)});
-
-        if (dataset_.size() == max_images_amount) break;
     }
 }
 
-- 
2.43.0


From 696d84883e266928cff5ac81b1c6b10d32b2ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 28/30] fix: a CPU device has the same UID in every enumeration
 and keeps its identity when it is moved

---
 knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp | 14 +++++++++-----
 knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp     | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
index 4c0f8d2..8b3470d 100644
--- a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
@@ -32,9 +32,6 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
-
-
 /**
  * @brief Fake power meter for unknown CPU.
  */
@@ -49,11 +46,17 @@ public:
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     cpu_name_ = "Unknown CPU " + std::to_string(cpu_num_);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(boost::uuids::nil_uuid())(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)} {}
+CPU::CPU(CPU&& other)
+    : Device(other),
+      cpu_num_{other.cpu_num_},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -61,6 +64,7 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
     std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
diff --git a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
index 363ae42..25ad784 100644
--- a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
@@ -44,9 +44,6 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
-
-
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     auto pcm_instance = pcm::PCM::getInstance();
@@ -55,11 +52,17 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 
     cpu_name_ = pcm_instance->getCPUBrandString() + " " + pcm_instance->getCPUFamilyModelString() + " " +
                 std::to_string(cpu_num);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(boost::uuids::nil_uuid())(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_name_{std::move(other.cpu_name_)}, power_meter_{std::move(other.power_meter_)} {}
+CPU::CPU(CPU&& other)
+    : Device(other),
+      cpu_num_{other.cpu_num_},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -67,6 +70,8 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
+    std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
     return *this;
-- 
2.43.0


From ca907232aa016c8590c4a51881c3c5649082220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 29/30] fix: a projection without a target population in the
 network does not break the description of its graph

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 97cef63..5f140a7 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -159,6 +159,8 @@ AdjacencyList build_adjacency_list(const NetworkGraph &graph)
     adj_list.resize(graph.nodes_.size() + 1);
     for (const auto &edge : graph.edges_)
     {
+        // The projection has no target population in the network.
+        if (edge.index_to_ < 0) continue;
         int index = edge.index_from_;
         if (index < 0) index = static_cast<int>(graph.nodes_.size());
         adj_list[index].push_back(edge.index_to_);
-- 
2.43.0


From a0634d95eeb8d72414fc5ef4d61ddf799b6e0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:42 +0000
Subject: [PATCH 30/30] fix: position_network is declared with the parameters
 it is defined with

---
 .../include/knp/framework/visualizer/visualize_network.h       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/include/knp/framework/visualizer/visualize_network.h b/knp/base-framework/include/knp/framework/visualizer/visualize_network.h
index f0bba76..dd253c7 100644
--- a/knp/base-framework/include/knp/framework/visualizer/visualize_network.h
+++ b/knp/base-framework/include/knp/framework/visualizer/visualize_network.h
@@ -198,7 +198,8 @@ KNP_DECLSPEC std::vector<std::vector<int>> divide_graph_by_connectivity(const Ne
  * to fit inside @p screen_size with the requested @p margin.
  */
 KNP_DECLSPEC std::vector<cv::Point2i> position_network(
-    const NetworkGraph &graph, const std::vector<int> &nodes, cv::Size screen_size, int margin, int num_iterations);
+    const NetworkGraph &graph, const std::vector<int> &nodes, const cv::Size &screen_size, int margin,
+    int num_iterations);
 
 
 /**
-- 
2.43.0

