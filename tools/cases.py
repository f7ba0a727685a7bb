"""The cases of every check: harness, code under test, bounds."""
import os
from krun import Case
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = {}


def check(prop, title, outside, cases):
    CHECKS[prop] = {"title": title, "outside": outside, "cases": cases}


check("C01", "projection index", "more than 2 consecutive operations, more than 2 initial synapses, more than two distinct neuron indexes per side", [
    Case("delta_ops1", "c01_projection.cpp", params=[1, 0, 2], bounds="1 operation after a constructor with up to 2 synapses; neuron indexes, weights, delays, declined generator results symbolic"),
    Case("delta_ops2", "c01_projection.cpp", params=[2, 0, 1], weight=4, bounds="2 operations after a constructor with up to 1 synapse"),
    Case("delta_batch", "c01_projection.cpp", params=[1, 0, 2, 2], weight=2, bounds="lookups, then 1 operation with up to 2 generator calls, after a constructor with up to 2 synapses"),
    Case("stdp_ops1", "c01_projection.cpp", params=[1, 1, 1], bounds="1 operation, additive STDP synapse"),
    Case("resource_ops1", "c01_projection.cpp", params=[1, 2, 1], bounds="1 operation, resource STDP synapse"),
    Case("delta_ops3", "c01_projection.cpp", params=[3, 0, 1], weight=6, ttime=1500, bounds="3 operations after a constructor with up to 1 synapse"),
])

check("C02", "population", "more than 2 consecutive operations, more than 5 neurons", [
    Case("blifat_ops2", "c02_population.cpp", params=[2, 0, 2], weight=4, bounds="2 operations after a constructor asking for 2 neurons; neuron states, declined generator results symbolic; index lists in any order"),
    Case("stdp_ops1", "c02_population.cpp", params=[1, 1, 3], bounds="1 operation, 3 neurons asked for"),
    Case("lif_ops1", "c02_population.cpp", params=[1, 3, 3], bounds="1 operation, 3 LIF neurons asked for"),
    Case("altai_ops1", "c02_population.cpp", params=[1, 2, 3], bounds="1 operation, 3 neurons asked for"),
    Case("blifat_ops3", "c02_population.cpp", params=[3, 0, 1], weight=6, ttime=1500, bounds="3 operations after a constructor asking for 1 neuron"),
])

check("C03", "message bus", "more endpoints, receivers, messages or rounds than listed; concurrent calls", [
    Case("one_endpoint", "c03_bus.cpp", params=[2, 1, 2, 1, 2, 1], weight=2, bounds="2 rounds of 1 configuration operation and 2+1 messages of either type, 1 endpoint with 1 receiver; senders and contents symbolic"),
    Case("two_endpoints", "c03_bus.cpp", params=[1, 2, 2, 2, 1, 2], weight=2, bounds="1 round, 2 configuration operations, 2 messages, 2 endpoints, 2 receivers"),
    Case("rounds", "c03_bus.cpp", params=[2, 1, 1, 2, 1, 1], weight=1, bounds="2 rounds of 1 configuration operation and 1 message, 2 endpoints"),
    Case("removal", "c03_bus.cpp", params=[1, 2, 1, 1, 2, 2, 1], weight=2, bounds="everything subscribed, then 2 configuration operations (subscribe, unsubscribe, remove receiver) and 1 message, 1 endpoint, 2 receivers, both types"),
    Case("order", "c03_bus.cpp", params=[1, 1, 3, 2, 1, 1, 1], weight=2, bounds="3 messages through 2 endpoints, order"),
    Case("destroyed", "c03_bus.cpp", params=[2, 0, 2, 2, 1, 1, 1, 1], weight=1, bounds="2 endpoints and a third that is destroyed at any moment, 2+1 messages"),
    Case("three_rounds", "c03_bus.cpp", params=[3, 1, 2, 2, 2, 1], tier="thorough", ttime=1500, weight=6, bounds="3 rounds, 2 endpoints, both types"),
])

check("C04", "message envelope", "messages with more elements than listed; malformed buffers", [
    Case("spikes", "c04_envelope.cpp", params=[20, 0], bounds="0 to 20 spikes; UIDs, time, indexes symbolic"),
    Case("impacts", "c04_envelope.cpp", params=[6, 1], bounds="0 to 6 impacts; every field symbolic"),
    Case("spikes_long", "c04_envelope.cpp", params=[300, 0], bounds="0 to 300 spikes"),
    Case("impacts_long", "c04_envelope.cpp", params=[40, 1], bounds="0 to 40 impacts"),
    Case("impacts_again", "c04_envelope.cpp", params=[6, 1], repeat=1, bounds="0 to 6 impacts; every field symbolic"),
    Case("spikes_again", "c04_envelope.cpp", params=[20, 0], repeat=1, bounds="0 to 20 spikes; UIDs, time, indexes symbolic"),
])

check("C05", "text form", "numbers outside the listed windows; impact values other than the listed ones (number formatting of C is run, not encoded) and streams with precision below 9", [
    Case("header", "c05_text.cpp", params=[0, 0], bounds="three UIDs, times in windows of 4 around 8, 2^31, 2^32, 2^63 and 2^64"),
    Case("spikes", "c05_text.cpp", params=[1, 2], weight=2, bounds="0 to 2 indexes in windows of 4 around 8, 98, 2^31 and 2^32, target with 0 to 2 old indexes"),
    Case("impact", "c05_text.cpp", params=[2, 0], bounds="one impact, indexes symbolic, every type"),
    Case("impact2", "c05_text.cpp", params=[2, 1], bounds="one impact, extreme values"),
    Case("impact_message", "c05_text.cpp", params=[3, 2], weight=2, bounds="0 to 2 impacts, target with 0 to 2 old impacts, flag symbolic"),
    Case("sequence", "c05_text.cpp", params=[4, 2], bounds="two spike messages one after another"),
    Case("spikes3", "c05_text.cpp", params=[1, 3], weight=3, bounds="0 to 3 indexes"),
    Case("header_again", "c05_text.cpp", params=[0, 0], repeat=1, bounds="three UIDs, times in windows of 4 around 8, 2^31, 2^32, 2^63 and 2^64"),
])

check("C06", "UIDs", "runs of the generator longer than listed", [
    Case("order", "c06_uid.cpp", params=[0], bounds="all pairs of UIDs (32 symbolic bytes)"),
    Case("transitive", "c06_uid.cpp", params=[1, 5], bounds="triples of UIDs, the first or the last 5 bytes symbolic"),
    Case("order_again", "c06_uid.cpp", params=[0], repeat=1, bounds="all pairs of UIDs (32 symbolic bytes)"),
    Case("containers_again", "c06_uid.cpp", params=[6], repeat=1, bounds="pairs of UIDs that differ from empty in at most one bit of a byte"),
    Case("transitive16", "c06_uid.cpp", params=[1, 16], tier="thorough", ttime=800, bounds="all triples of UIDs"),
    Case("hash", "c06_uid.cpp", params=[2], bounds="all UIDs"),
    Case("generator", "c06_uid.cpp", params=[3, 4], bounds="any start value, 4 calls of two generators"),
    Case("random", "c06_uid.cpp", params=[4], bounds="all random bits"),
    Case("text", "c06_uid.cpp", params=[5], weight=6, bounds="each of the 16 bytes symbolic in turn"),
    Case("containers", "c06_uid.cpp", params=[6], bounds="pairs of UIDs that differ from empty in at most one bit of a byte"),
    Case("generator_long", "c06_uid.cpp", params=[3, 8], bounds="any start value, 8 calls"),
])

check("C07", "backend lifecycle", "more runs of start or longer runs than listed; stop from another thread", [
    Case("sessions2", "c07_lifecycle.cpp", params=[2, 2], bounds="2 runs of up to 2 steps, every start variant, every predicate answer, stop, failing step, failing predicate and failing initialisation"),
    Case("steps4", "c07_lifecycle.cpp", params=[1, 4], bounds="1 run of up to 4 steps"),
    Case("sessions3", "c07_lifecycle.cpp", params=[3, 2], weight=4, bounds="3 runs of up to 2 steps"),
])

check("C08", "subscriptions", "more than 3 senders, 2 receivers or the listed number of operations", [
    Case("object2", "c08_subscription.cpp", params=[0, 2], bounds="up to 2 initial senders, 2 operations, senders symbolic out of 3"),
    Case("endpoint2", "c08_subscription.cpp", params=[1, 2], weight=2, bounds="2 operations on an endpoint with 2 receivers and both message types, then one message of each type"),
    Case("object3", "c08_subscription.cpp", params=[0, 3], tier="thorough", weight=4, bounds="3 operations"),
    Case("endpoint3", "c08_subscription.cpp", params=[1, 3], tier="thorough", weight=6, ttime=1500, bounds="3 operations"),
])

check("C09", "tag maps", "more operations than listed, other value types", [
    Case("ops2", "c09_tags.cpp", params=[2], bounds="2 operations on 3 names with integer, floating point, text and enumeration values; numbers symbolic"),
    Case("ops3", "c09_tags.cpp", params=[3], weight=4, bounds="3 operations"),
])

MTG = ("core", "st", "mt", "pool")
MT = dict(groups=MTG, shims=True, defs=["-DKNP_MT"])
check("C10", "synaptic delay", "delay 0 (documented minimum is 1), more synapses, steps or larger delays than listed", [
    Case("delta", "c10_delay.cpp", ("core", "st"), params=[2, 3, 3, 0, 0, 2], weight=3, bounds="2 synapses with any weight, type, delay 1..3, 2 presynaptic neurons, 3 steps with any spikes"),
    Case("delta3", "c10_delay.cpp", ("core", "st"), params=[3, 3, 2, 0, 0, 1], weight=2, bounds="3 synapses of one neuron, delay 1..2, 3 steps"),
    Case("additive", "c10_delay.cpp", ("core", "st"), params=[2, 2, 2, 1, 0, 2], weight=1, bounds="additive STDP synapses, 2 steps"),
    Case("resource", "c10_delay.cpp", ("core", "st"), params=[2, 2, 2, 2, 0, 2], weight=1, bounds="resource STDP synapses, 2 steps"),
    Case("network", "c10_delay.cpp", ("core", "st"), params=[2, 4, 2, 0, 1, 2], weight=2, bounds="two populations joined by the projection, 4 steps, delay 1..2"),
    Case("network_long", "c10_delay.cpp", ("core", "st"), params=[2, 5, 3, 0, 1, 2], weight=4, time=300, bounds="two populations, 5 steps, delay 1..3"),
    Case("delta_mt", "c10_delay.cpp", params=[2, 3, 2, 0, 0, 2], weight=2, bounds="multi-threaded backend: 2 delta synapses, 3 steps, delay 1..2", **MT),
    Case("resource_mt", "c10_delay.cpp", params=[2, 2, 2, 2, 0, 2], weight=1, bounds="multi-threaded backend: resource STDP synapses, 2 steps", **MT),
    Case("network_mt", "c10_delay.cpp", params=[2, 3, 2, 0, 1, 2], weight=1, bounds="multi-threaded backend: two populations, 3 steps, delay 1..2", **MT),
    Case("delta_far", "c10_delay.cpp", ("core", "st"), params=[2, 3, 3, 0, 0, 1, 1], weight=2, bounds="2 synapses of one neuron, delay 1..3, 3 steps from 2 below step 2^31, 2^32 and 2^63"),
    Case("resource_far", "c10_delay.cpp", ("core", "st"), params=[1, 3, 2, 2, 0, 1, 1], weight=1, bounds="the same with 1 resource STDP synapse, delay 1..2"),
    Case("additive_far", "c10_delay.cpp", ("core", "st"), params=[1, 3, 2, 1, 0, 1, 1], weight=1, bounds="the same with 1 additive STDP synapse"),
    Case("network_far", "c10_delay.cpp", ("core", "st"), params=[1, 3, 2, 0, 1, 2, 1], weight=1, bounds="two populations, 3 steps around these"),
    Case("delta_mt_far", "c10_delay.cpp", params=[1, 3, 2, 0, 0, 1, 1], weight=1, bounds="multi-threaded backend: 1 delta synapse around these steps", **MT),
    Case("delta_long", "c10_delay.cpp", ("core", "st"), params=[2, 5, 3, 0, 0, 2], tier="thorough", ttime=1500, weight=4, bounds="5 steps, delay 1..3"),
])

check("C11", "BLIFAT dynamics", "more neurons, impacts or steps than listed; NaN and infinite states and parameters", [
    Case("impact1", "c11_blifat.cpp", ("core", "st"), params=[1, 1, 1, 0, 0], bounds="1 neuron, every state and parameter, up to 1 impact of any type"),
    Case("impact2", "c11_blifat.cpp", ("core", "st"), params=[1, 2, 1, 0, 0], weight=2, bounds="1 neuron, up to 2 impacts"),
    Case("two_neurons", "c11_blifat.cpp", ("core", "st"), params=[2, 1, 1, 0, 1], bounds="2 neurons, up to 1 impact"),
    Case("two_steps", "c11_blifat.cpp", ("core", "st"), params=[1, 1, 2, 0, 1], weight=2, bounds="1 neuron, 2 steps"),
    Case("resource", "c11_blifat.cpp", ("core", "st"), params=[1, 1, 1, 1, 0], bounds="resource STDP BLIFAT neuron, 1 step"),
    Case("impact3", "c11_blifat.cpp", ("core", "st"), params=[1, 3, 1, 0, 0], weight=4, bounds="1 neuron, up to 3 impacts"),
    Case("two_by_two", "c11_blifat.cpp", ("core", "st"), params=[2, 2, 1, 0, 1], weight=4, bounds="2 neurons, up to 2 impacts"),
    Case("impact1_mt", "c11_blifat.cpp", params=[1, 1, 1, 0, 0], bounds="multi-threaded backend: 1 neuron, up to 1 impact of any type", **MT),
    Case("two_neurons_mt", "c11_blifat.cpp", params=[2, 1, 1, 0, 1], bounds="multi-threaded backend: 2 neurons, up to 1 impact", **MT),
    Case("resource_mt", "c11_blifat.cpp", params=[1, 1, 1, 1, 0], bounds="multi-threaded backend: resource STDP BLIFAT neuron", **MT),
    Case("far", "c11_blifat.cpp", ("core", "st"), params=[1, 0, 2, 0, 1, 1], bounds="1 neuron without impacts, 2 steps from 2 below step 2^31, 2^32 and 2^63"),
    Case("three_steps", "c11_blifat.cpp", ("core", "st"), params=[1, 1, 3, 0, 1], ttime=1500, weight=4, bounds="1 neuron, 3 steps"),
])

check("C12", "AltAI-LIF dynamics", "more neurons, impacts or steps than listed; NaN and infinite states and parameters; the floor comparison at equality", [
    Case("impact1", "c12_altai.cpp", ("core", "st"), params=[1, 1, 1, 0, 0], weight=2, bounds="1 neuron, every state and parameter, up to 1 impact"),
    Case("two_neurons", "c12_altai.cpp", ("core", "st"), params=[2, 1, 1, 0, 1], weight=2, bounds="2 neurons, up to 1 impact"),
    Case("resource", "c12_altai.cpp", ("core", "st"), params=[1, 1, 1, 1, 0], weight=2, bounds="resource STDP AltAI-LIF neuron, up to 1 impact"),
    Case("two_steps", "c12_altai.cpp", ("core", "st"), params=[1, 0, 2, 0, 1], weight=2, bounds="1 neuron, 2 steps without impacts"),
    Case("impact2", "c12_altai.cpp", ("core", "st"), params=[1, 2, 1, 0, 0], ttime=800, weight=4, bounds="1 neuron, up to 2 impacts"),
    Case("far", "c12_altai.cpp", ("core", "st"), params=[1, 0, 2, 0, 1, 1], bounds="1 neuron without impacts, 2 steps from 2 below step 2^31, 2^32 and 2^63"),
    Case("two_steps_impact", "c12_altai.cpp", ("core", "st"), params=[1, 1, 2, 0, 1], ttime=800, weight=4, bounds="1 neuron, 2 steps, up to 1 impact each"),
])

check("C13", "LIF dynamics", "more neurons, impacts or steps than listed; NaN and infinite states and parameters", [
    Case("impact2", "c13_lif.cpp", ("core", "st"), params=[1, 2, 1], bounds="1 neuron, every state and parameter, up to 2 impacts"),
    Case("two_neurons", "c13_lif.cpp", ("core", "st"), params=[2, 1, 1], bounds="2 neurons, up to 1 impact"),
    Case("two_steps", "c13_lif.cpp", ("core", "st"), params=[1, 1, 2], bounds="1 neuron, 2 steps"),
    Case("three_steps", "c13_lif.cpp", ("core", "st"), params=[1, 1, 3], weight=2, bounds="1 neuron, 3 steps"),
    Case("two_neurons_mt", "c13_lif.cpp", params=[2, 1, 2], bounds="multi-threaded backend: 2 neurons, 2 steps", **MT),
    Case("far", "c13_lif.cpp", ("core", "st"), params=[1, 1, 2, 0, 0, 1], bounds="1 neuron, 2 steps from 2 below step 2^31, 2^32 and 2^63"),
    Case("three_neurons", "c13_lif.cpp", ("core", "st"), params=[3, 2, 2], tier="thorough", ttime=800, weight=4, bounds="3 neurons, 2 steps, up to 2 impacts"),
])

check("C14", "single and multi-threaded", "larger networks, more steps, other parameters than listed; one schedule of the threads (C15 covers the others); inputs other than spikes; the order of impacts inside a message and the rounding of their sum", [
    Case("chain", "c14_same.cpp", MTG, params=[0, 0, 0, 1, 2, 1, 0, 2, 1, 1], shims=True, weight=3, bounds="2 BLIFAT neurons in a chain, 2 delta synapses: thresholds, weights, types symbolic, 2 external senders, 2 steps"),
    Case("dense", "c14_same.cpp", MTG, params=[1, 0, 0, 2, 2, 2, 0, 1, 1, 1], shims=True, bounds="2 joined BLIFAT populations of 2 neurons and a feedback projection, delays 1 to 2, 2 steps with any spikes"),
    Case("dense_senders", "c14_same.cpp", MTG, params=[1, 0, 0, 2, 2, 1, 0, 2, 2, 1], shims=True, bounds="the same with 2 external senders, delay 1, 2 threads"),
    Case("thresholds", "c14_same.cpp", MTG, params=[1, 0, 0, 2, 2, 1, 0, 1, 1, 1, 1], shims=True, weight=2, bounds="the same with symbolic thresholds"),
    Case("lif", "c14_same.cpp", MTG, params=[1, 1, 0, 2, 2, 1, 0, 1, 1, 1, 1], shims=True, weight=2, bounds="LIF neurons, symbolic thresholds"),
    Case("training", "c14_same.cpp", MTG, params=[1, 2, 1, 2, 3, 1, 1, 1, 1, 1], shims=True, bounds="resource STDP BLIFAT neurons and synapses, training, 3 steps with any spikes"),
    Case("training_thresholds", "c14_same.cpp", MTG, params=[1, 2, 1, 2, 2, 1, 1, 1, 1, 1, 1], shims=True, weight=2, bounds="the same with symbolic thresholds, 2 steps"),
    Case("delays", "c14_same.cpp", MTG, params=[1, 0, 0, 2, 2, 2, 0, 1, 1, 1, 1], shims=True, tier="thorough", weight=4, bounds="dense network, delays 1 to 2, symbolic thresholds"),
])

RACES = ["--races", "--preempt"]
check("C15", "thread schedules", "larger networks, more threads, parts or preemptions than listed; the order of impacts inside a message and the rounding of their sum; schedules are explored at mutexes, condition variables and thread starts, and data races are reported as violations", [
    Case("parts", "c15_schedule.cpp", MTG, params=[1, 1, 0, 2, 3, 1, 0, 1, 2, 4, 0, 0], shims=True, opts=RACES + ["0"], bounds="1 to 2 threads, both part sizes 1 to 4, 3 steps with any spikes, LIF"),
    Case("parts_blifat", "c15_schedule.cpp", MTG, params=[1, 0, 0, 2, 2, 1, 0, 1, 1, 3, 1, 0], shims=True, weight=2, opts=RACES + ["0"], bounds="part sizes 1 to 3, symbolic thresholds, 2 steps, BLIFAT"),
    Case("schedules", "c15_schedule.cpp", MTG, params=[1, 1, 0, 2, 2, 1, 0, 1, 1, 2, 0, 1], shims=True, weight=2, opts=RACES + ["1"], bounds="1 worker thread and the caller, part sizes 1 to 2, 1 preemption in the second step"),
    Case("schedules_training", "c15_schedule.cpp", MTG, params=[1, 2, 1, 2, 2, 1, 1, 1, 1, 1, 0, 1], shims=True, weight=2, opts=RACES + ["1"], bounds="the same with training, part size 1"),
    Case("schedules_two", "c15_schedule.cpp", MTG, params=[1, 1, 0, 2, 2, 1, 0, 1, 2, 2, 0, 1], shims=True, tier="thorough", weight=4, opts=RACES + ["1"], bounds="1 to 2 worker threads"),
])

check("C16", "thread pool", "more threads, tasks or preemptions than listed; tasks that throw; the threads of boost::asio::thread_pool are a model (rt/shim)", [
    Case("nested", "c16_pool.cpp", ("pool",), params=[1, 2, 1, 1], shims=True, opts=RACES + ["3"], bounds="1 thread, up to 2 tasks that may post one, 3 preemptions"),
    Case("threads", "c16_pool.cpp", ("pool",), params=[2, 2, 0, 1], shims=True, weight=2, opts=RACES + ["3"], bounds="2 threads, up to 2 tasks, 3 preemptions"),
    Case("threads_nested", "c16_pool.cpp", ("pool",), params=[2, 1, 2, 1], shims=True, weight=3, opts=RACES + ["3"], bounds="2 threads, a task that posts up to 2, 3 preemptions"),
    Case("rounds", "c16_pool.cpp", ("pool",), params=[1, 2, 0, 2], shims=True, opts=RACES + ["3"], bounds="1 thread, 2 rounds of posting and joining, 3 preemptions"),
    Case("executors", "c16_pool.cpp", ("pool",), params=[1, 2, 0, 0, 1], shims=True, opts=RACES + ["3"], bounds="two executors of one context, 2 tasks, 3 preemptions"),
    Case("executors_two", "c16_pool.cpp", ("pool",), params=[2, 2, 0, 0, 1], shims=True, weight=2, opts=RACES + ["2"], bounds="the same with 2 threads, 2 preemptions"),
    Case("all_schedules", "c16_pool.cpp", ("pool",), params=[1, 2, 1, 1], shims=True, tier="thorough", weight=3, ttime=900, opts=RACES + ["100"], bounds="1 thread, up to 2 tasks that may post one, every schedule"),
])

check("C17", "locked projections", "more projections, synapses or steps than listed", [
    Case("blifat", "c17_lock.cpp", ("core", "st"), params=[0, 2, 2, 1], weight=3, bounds="BLIFAT neuron with 2 resource STDP projections of 1 synapse, 2 steps: every lock state, stop or start of learning, input and state of the neuron"),
    Case("altai", "c17_lock.cpp", ("core", "st"), params=[1, 2, 2, 1], weight=2, bounds="the same with AltAI-LIF"),
    Case("two_synapses", "c17_lock.cpp", ("core", "st"), params=[0, 1, 2, 2], weight=2, bounds="1 projection of 2 synapses, 2 steps"),
    Case("blifat_mt", "c17_lock.cpp", params=[0, 2, 2, 1], weight=3, bounds="multi-threaded backend: 2 projections of 1 synapse, 2 steps", **MT),
    Case("additive", "c17_lock.cpp", ("core", "st"), params=[2], bounds="one additive STDP synapse with full spike histories, locked"),
    Case("three_steps", "c17_lock.cpp", ("core", "st"), params=[0, 1, 3, 1], tier="thorough", weight=4, bounds="1 projection, 3 steps"),
])

check("C18", "resource STDP", "more neurons, synapses or projections than listed; steps below the plasticity period; NaN and infinite states and parameters; in the limits cases resources that are not multiples of 1/4 and other limits than the listed ones", [
    Case("blifat", "c18_resource.cpp", ("core", "st"), params=[0, 1, 1, 2, 0], bounds="one training step of 1 BLIFAT neuron with 1 projection of 2 synapses: every parameter, history, resource and weight symbolic"),
    Case("altai", "c18_resource.cpp", ("core", "st"), params=[1, 1, 1, 2, 0], bounds="the same for AltAI-LIF"),
    Case("two_projections", "c18_resource.cpp", ("core", "st"), params=[0, 1, 2, 1, 0], bounds="1 neuron, 2 projections of 1 synapse"),
    Case("two_neurons", "c18_resource.cpp", ("core", "st"), params=[0, 2, 1, 1, 0], bounds="2 neurons, 1 projection of 1 synapse"),
    Case("limits", "c18_resource.cpp", ("core", "st"), params=[0, 1, 1, 2, 1], weight=3, opts=["--precise-timeout", "60000"], time=300, bounds="weight limits: 3 lower limits, 5 widths, two resources of 5 symbolic bits"),
    Case("two_neurons_two_synapses", "c18_resource.cpp", ("core", "st"), params=[0, 2, 1, 2, 0], tier="thorough", ttime=900, weight=4, bounds="2 neurons, 1 projection of 2 synapses"),
    Case("limits_altai", "c18_resource.cpp", ("core", "st"), params=[1, 1, 1, 2, 1], tier="thorough", weight=3, opts=["--precise-timeout", "60000"], bounds="weight limits, AltAI-LIF"),
])

check("C19", "additive STDP", "other time constants, longer histories, more synapses than listed; simultaneous spikes; histories longer than the rule uses; exp is an uninterpreted function except on constants", [
    Case("pairs", "c19_additive.cpp", ("core", "st"), params=[0], opts=["--fork-select"], bounds="2 synapses with given histories of 2 or 3 spikes, time constants 1 to 2, symbolic times and weights, 2 steps"),
    Case("reversed", "c19_additive.cpp", ("core", "st"), params=[1], bounds="2 by 2 reversed pairs, times 6 to 11"),
    Case("messages", "c19_additive.cpp", ("core", "st"), params=[2, 2], opts=["--fork-select"], weight=2, bounds="3 synapses, unmarked, STDP-only and STDP-and-spikes populations, 2 steps with any spikes, times symbolic"),
    Case("messages3", "c19_additive.cpp", ("core", "st"), params=[2, 3], opts=["--fork-select"], weight=2, bounds="the same over 3 steps, histories only"),
    Case("messages4", "c19_additive.cpp", ("core", "st"), params=[2, 4], opts=["--fork-select"], tier="thorough", weight=2, bounds="the same over 4 steps"),
])

check("C20", "loaded data", "more populations, projections or elements than listed; removal while a step runs; other neuron and synapse types than the backend supports and the listed unsupported ones", [
    Case("single", "c20_load.cpp", ("core", "st", "framework"), params=[2, 2, 2], weight=2, bounds="single-threaded backend: 2 populations and 2 projections of up to 2 elements, every way of loading and removing, contents symbolic"),
    Case("multi", "c20_load.cpp", ("core", "mt", "pool", "framework"), params=[2, 2, 1], shims=True, defs=["-DKNP_MT"], bounds="multi-threaded backend, up to 1 element"),
    Case("multi3", "c20_load.cpp", ("core", "mt", "pool", "framework"), params=[3, 2, 1], shims=True, defs=["-DKNP_MT"], tier="thorough", weight=2, bounds="multi-threaded backend, 3 operations"),
])

check("C21", "network container", "more operations, more than 3 UIDs of populations and of projections, other neuron and synapse types", [
    Case("ops2", "c21_network.cpp", ("core", "framework"), params=[2, 0, 7], weight=2, bounds="2 operations (typed, variant and generated additions, removals, connections) and lookups in a network and in its copy; UIDs and contents symbolic"),
    Case("populations3", "c21_network.cpp", ("core", "framework"), params=[3, 0, 3], weight=3, bounds="3 operations on populations"),
    Case("filled", "c21_network.cpp", ("core", "framework"), params=[1, 0, 7, 3], bounds="3 populations and 3 projections, then 1 operation of any kind"),
    Case("filled2", "c21_network.cpp", ("core", "framework"), params=[2, 0, 7, 3], tier="thorough", ttime=900, weight=3, bounds="the same and 2 operations"),
    Case("projections3", "c21_network.cpp", ("core", "framework"), params=[3, 4, 3], tier="thorough", ttime=900, weight=3, bounds="3 operations on projections"),
])

RANDOM = "random_model.h"
STF = ("core", "st", "framework")
check("C22", "model loading", "more channels, projections or populations than listed; in most cases the UIDs of the channels are chosen from a list and only contents are symbolic; other backends than the single-threaded one", [
    Case("inputs", "c22_loader.cpp", STF, params=[2, 2, 1, 0, 14, 1], bounds="2 input channels with any UIDs out of 15, connected in every way to 2 projections, indexes symbolic"),
    Case("inputs3", "c22_loader.cpp", STF, params=[3, 2, 1, 0, 6, 1], weight=2, bounds="3 input channels"),
    Case("outputs", "c22_loader.cpp", STF, params=[2, 1, 2, 1, 14], weight=2, bounds="2 output channels with symbolic UIDs, connected in every way to 2 populations, indexes symbolic"),
    Case("outputs3", "c22_loader.cpp", STF, params=[3, 1, 2, 1, 6, 1], weight=2, bounds="3 output channels"),
    Case("refusals", "c22_loader.cpp", STF, params=[2, 2, 2, 2, 0], bounds="connections to missing elements, missing generators, unknown channels"),
    Case("refusals_again", "c22_loader.cpp", STF, params=[2, 2, 2, 2, 0], repeat=1, bounds="connections to missing elements, missing generators, unknown channels"),
    Case("inputs_symbolic", "c22_loader.cpp", STF, params=[2, 2, 1, 0, 14], tier="thorough", weight=4, ttime=900, bounds="2 input channels with symbolic UIDs"),
])

check("C23", "projection creators", "populations larger than listed; random choices are arbitrary values of their range (rt/random_model.h replaces the generators of <random>)", [
    Case("generators", "c23_creators.cpp", ("core", "framework"), params=[0, 16], prelude=RANDOM, bounds="all-to-all, aligned, exclusive, index-based generators: both sizes 1 to 16 and two indexes symbolic"),
    Case("creators", "c23_creators.cpp", ("core", "framework"), params=[1, 2, 0, 12], prelude=RANDOM, weight=2, bounds="every creator, sizes 1 to 2, weights and choices symbolic"),
    Case("creators3", "c23_creators.cpp", ("core", "framework"), params=[1, 3, 0, 10], prelude=RANDOM, weight=6, bounds="every creator but fixed-probability and connectors, sizes 1 to 3"),
    Case("generators_again", "c23_creators.cpp", ("core", "framework"), params=[0, 8], prelude=RANDOM, repeat=1, bounds="generators, sizes 1 to 8"),
    Case("creators_again", "c23_creators.cpp", ("core", "framework"), params=[1, 1, 0, 12], prelude=RANDOM, weight=2, repeat=1, bounds="every creator, size 1, weights and choices symbolic"),
    Case("generators_large", "c23_creators.cpp", ("core", "framework"), params=[0, 64], prelude=RANDOM, tier="thorough", bounds="generators, sizes 1 to 64"),
    Case("creators_sized", "c23_creators.cpp", ("core", "framework"), params=[1, 4, 0, 4], prelude=RANDOM, tier="thorough", ttime=800, weight=4, bounds="all-to-all, aligned, exclusive, one-to-one, sizes 1 to 4"),
])

check("C24", "input channels and converters", "more steps, values or digits than listed; malformed input text; floating point texts other than the listed ones", [
    Case("channel", "c24_input.cpp", ("core", "framework"), params=[0, 3, 2], bounds="3 steps with any numbers, up to 2 spikes of any indexes per step, another channel on the bus"),
    Case("sequence", "c24_input.cpp", ("core", "framework"), params=[1, 1, 2, 1], bounds="2 values of one symbolic digit or less, symbolic threshold, calls beyond the end"),
    Case("sequence_digits", "c24_input.cpp", ("core", "framework"), params=[1, 1, 1, 2], bounds="1 value of up to 2 digits"),
    Case("sequence_float", "c24_input.cpp", ("core", "framework"), params=[2, 2, 2, 1], bounds="2 calls of 2 floating point values out of 4"),
    Case("sequence_resized", "c24_input.cpp", ("core", "framework"), params=[2, 1, 2, 1, 1], bounds="the size is changed between calls"),
    Case("lines", "c24_input.cpp", ("core", "framework"), params=[3, 2, 2, 2], weight=2, bounds="2 lines of up to 2 indexes of up to 2 symbolic digits, 3 delimiters, trailing delimiter, with and without last newline"),
    Case("long_line", "c24_input.cpp", ("core", "framework"), params=[3, 1, 4, 1], bounds="1 line of up to 4 indexes"),
    Case("long_numbers", "c24_input.cpp", ("core", "framework"), params=[3, 1, 2, 4], bounds="1 line of up to 2 indexes of up to 4 digits"),
    Case("channel_again", "c24_input.cpp", ("core", "framework"), params=[0, 3, 2], repeat=1, bounds="3 steps with any numbers, up to 2 spikes of any indexes per step, another channel on the bus"),
    Case("sequence_resized_again", "c24_input.cpp", ("core", "framework"), params=[2, 1, 2, 1, 1], repeat=1, bounds="the size is changed between calls"),
    Case("long_line_again", "c24_input.cpp", ("core", "framework"), params=[3, 1, 4, 1], repeat=1, bounds="1 line of up to 4 indexes"),
    Case("sequence4", "c24_input.cpp", ("core", "framework"), params=[1, 2, 2, 1], tier="thorough", weight=4, ttime=900, bounds="2 calls of 2 values"),
    Case("lines3", "c24_input.cpp", ("core", "framework"), params=[3, 2, 3, 2], tier="thorough", weight=4, ttime=900, bounds="2 lines of up to 3 indexes"),
])

check("C25", "output channels and converters", "more messages, reads or indexes, larger outputs than listed", [
    Case("channel", "c25_output.cpp", ("core", "framework"), params=[0, 2, 1], bounds="2 messages of any steps and indexes from 3 senders (one not connected), 1 read of any window"),
    Case("windows", "c25_output.cpp", ("core", "framework"), params=[0, 2, 2], weight=2, bounds="2 reads"),
    Case("converters", "c25_output.cpp", ("core", "framework"), params=[1, 2, 3, 1], bounds="up to 2 messages of up to 1 index, outputs of 0 to 3 neurons, sets of any output size"),
    Case("converters_indexes", "c25_output.cpp", ("core", "framework"), params=[1, 1, 3, 3], bounds="1 message of up to 3 indexes"),
    Case("get", "c25_output.cpp", ("core", "framework"), params=[2, 2, 2], weight=2, bounds="update, read of any window and count in one call, twice; 2 messages"),
    Case("converters_again", "c25_output.cpp", ("core", "framework"), params=[1, 2, 3, 1], repeat=1, bounds="up to 2 messages of up to 1 index, outputs of 0 to 3 neurons, sets of any output size"),
    Case("channel3", "c25_output.cpp", ("core", "framework"), params=[0, 3, 1], tier="thorough", weight=4, ttime=900, bounds="3 messages, 1 read"),
])

SMALL = dict(groups=("core", "framework"), prelude=RANDOM, defs=["-DKNP_SMALL_RANDOM=16"])
check("C26", "message handlers", "more spikes, borders or winners than listed; the generators of the handlers give arbitrary values, the default index distribution values below 16", [
    Case("k_winners", "c26_handlers.cpp", params=[0, 4, 0, 5], bounds="up to 4 spikes of any indexes, k 0 to 5, a second message", **SMALL),
    Case("k_winners_calls", "c26_handlers.cpp", params=[0, 2, 0, 2, 2], bounds="2 calls of one handler", **SMALL),
    Case("winning_groups", "c26_handlers.cpp", params=[1, 3, 2, 3], weight=3, bounds="up to 3 spikes, up to 2 borders in any order, k 0 to 3", **SMALL),
    Case("per_group", "c26_handlers.cpp", params=[2, 2, 2, 3], weight=3, bounds="up to 2 spikes, up to 2 borders in any order, k 0 to 3 per group", **SMALL),
    Case("per_group3", "c26_handlers.cpp", params=[2, 3, 1, 2], weight=3, bounds="up to 3 spikes, up to 1 border", **SMALL),
    Case("union", "c26_handlers.cpp", params=[3, 2, 2, 0], weight=2, bounds="up to 2 messages of up to 2 indexes out of 4", **SMALL),
    Case("k_winners_again", "c26_handlers.cpp", params=[0, 4, 0, 5], repeat=1, bounds="up to 4 spikes of any indexes, k 0 to 5, a second message", **SMALL),
    Case("k_winners_calls_again", "c26_handlers.cpp", params=[0, 2, 0, 2, 2], repeat=1, bounds="2 calls of one handler", **SMALL),
    Case("winning_groups4", "c26_handlers.cpp", params=[1, 4, 2, 3, 1, 1], tier="thorough", weight=4, ttime=900, bounds="up to 4 spikes", **SMALL),
    Case("per_group4", "c26_handlers.cpp", params=[2, 3, 2, 3, 1, 1], tier="thorough", weight=4, ttime=900, bounds="up to 3 spikes, up to 2 borders", **SMALL),
])

check("C27", "normalisation", "other intervals than the ten listed in the harness; integer value types; values outside the source interval; more synapses or neurons than listed", [
    Case("values", "c27_normalization.cpp", ("core", "framework"), params=[0, 0, 10, 10], bounds="float, 10 intervals (one reversed, some very narrow or wide), any value at a multiple of 1/1024 of the source interval"),
    Case("values_double", "c27_normalization.cpp", ("core", "framework"), params=[0, 1, 10, 10], weight=2, bounds="double, the same"),
    Case("order", "c27_normalization.cpp", ("core", "framework"), params=[1, 0, 6, 10], weight=2, bounds="float, 10 intervals, any two values at multiples of 1/64"),
    Case("order_double", "c27_normalization.cpp", ("core", "framework"), params=[1, 1, 5, 6], weight=2, bounds="double, 6 intervals, multiples of 1/32"),
    Case("synapses", "c27_normalization.cpp", ("core", "framework"), params=[2, 0, 2], bounds="3 projections of 2 types with up to 2 synapses, symbolic weights and delays, weights or delays selected"),
    Case("neurons", "c27_normalization.cpp", ("core", "framework"), params=[3, 0, 3], bounds="2 populations of 2 types with up to 3 neurons, symbolic potentials and thresholds"),
    Case("values_again", "c27_normalization.cpp", ("core", "framework"), params=[0, 0, 2, 3], repeat=1, bounds="float, 3 intervals, multiples of 1/4"),
    Case("neurons_again", "c27_normalization.cpp", ("core", "framework"), params=[3, 0, 2], repeat=1, bounds="2 populations with up to 2 neurons"),
    Case("synapses_again", "c27_normalization.cpp", ("core", "framework"), params=[2, 0, 1], repeat=1, bounds="3 projections with up to 1 synapse"),
    Case("values_fine", "c27_normalization.cpp", ("core", "framework"), params=[0, 0, 20, 10], tier="thorough", ttime=800, weight=4, bounds="float, multiples of 2^-20"),
    Case("order_fine", "c27_normalization.cpp", ("core", "framework"), params=[1, 0, 8, 10], tier="thorough", ttime=800, weight=4, bounds="float, multiples of 1/256"),
])

check("C28", "dataset splitting and frame generators", "more images, pixels or steps than listed; malformed labels; parts without frames", [
    Case("load", "c28_dataset.cpp", ("core", "framework"), params=[0, 2, 2, 1], bounds="up to 4 bytes of images of 2, up to 2 labels of a symbolic digit, with and without last newline, any limit"),
    Case("load3", "c28_dataset.cpp", ("core", "framework"), params=[0, 3, 3, 2], bounds="up to 9 bytes of images of 3, up to 3 labels"),
    Case("split", "c28_dataset.cpp", ("core", "framework"), params=[1, 4], bounds="4 records, two splits of any two 64-bit sizes"),
    Case("generators", "c28_dataset.cpp", ("core", "framework"), params=[2, 3, 1, 2], weight=2, bounds="3 frames of 1 pixel and 2 steps, symbolic spikes, any split, two calls at any step of 3 rounds (one of them 2^33)"),
    Case("generators_pixels", "c28_dataset.cpp", ("core", "framework"), params=[2, 2, 2, 2], weight=2, bounds="2 frames of 2 pixels"),
    Case("converter", "c28_dataset.cpp", ("core", "framework"), params=[3, 1, 1, 3], bounds="any byte, up to 3 active steps, factors 1 to 2^-9"),
    Case("converter_pixels", "c28_dataset.cpp", ("core", "framework"), params=[3, 2, 2, 2], bounds="2 pixels"),
    Case("load_again", "c28_dataset.cpp", ("core", "framework"), params=[0, 2, 2, 1], repeat=1, bounds="up to 4 bytes of images of 2, up to 2 labels of a symbolic digit, with and without last newline, any limit"),
    Case("converter_steps", "c28_dataset.cpp", ("core", "framework"), params=[3, 1, 1, 5], tier="thorough", ttime=800, weight=4, bounds="up to 5 active steps"),
])

check("C29", "inference evaluation", "more frames, classes, messages or spikes than listed; ties between classes count either way; the range of metrics of counts above 7", [
    Case("frame", "c29_evaluation.cpp", ("core", "framework"), params=[0, 1, 2, 2, 2, 2], bounds="1 frame of 2 steps, 2 classes, up to 2 messages of up to 2 symbolic indexes at any step, after another evaluation"),
    Case("frames", "c29_evaluation.cpp", ("core", "framework"), params=[0, 2, 1, 3, 2, 1], bounds="2 frames, 3 classes, up to 2 messages of 1 index"),
    Case("frames_steps", "c29_evaluation.cpp", ("core", "framework"), params=[0, 2, 2, 2, 2, 2], weight=2, bounds="2 frames of 2 steps, up to 2 messages of up to 2 indexes"),
    Case("csv", "c29_evaluation.cpp", ("core", "framework"), params=[1, 2, 1, 2, 2, 1], bounds="the table of 2 frames, F-score where false positives equal false negatives"),
    Case("csv_recall", "c29_evaluation.cpp", ("core", "framework"), params=[1, 2, 1, 2, 2, 1, 1], bounds="the recall column, 2 frames"),
    Case("documented", "c29_evaluation.cpp", ("core", "framework"), params=[0, 1, 1, 2, 1, 1, 1], bounds="the class of a false positive, 1 frame"),
    Case("metrics", "c29_evaluation.cpp", ("core", "framework"), params=[2, 3], weight=2, bounds="precision, recall, prevalence, accuracy of any counts up to 7, F-score of multiples of 1/8 and 1/64"),
    Case("metrics_large", "c29_evaluation.cpp", ("core", "framework"), params=[2, 40], bounds="the ratios, but not their range, of any counts below 2^40"),
    Case("frames3", "c29_evaluation.cpp", ("core", "framework"), params=[0, 3, 2, 2, 3, 1], tier="thorough", ttime=800, weight=4, bounds="3 frames of 2 steps, up to 3 messages"),
])

FMT = dict(groups=("core", "framework"), defs=["-UFMT_SHARED", "-DFMT_HEADER_ONLY"])
check("C30", "network validation", "more populations, projections or validators than listed; UIDs that differ in other bytes than the last", [
    Case("connectivity", "c30_validation.cpp", params=[0, 3, 2], weight=2, bounds="up to 3 populations, up to 2 projections with symbolic ends: none, a population of the network, another", **FMT),
    Case("connectivity_projections", "c30_validation.cpp", params=[0, 2, 3], weight=3, bounds="up to 2 populations, up to 3 projections", **FMT),
    Case("executor", "c30_validation.cpp", params=[1, 2, 2, 1], bounds="up to 2 populations and projections, a validator of every kind with up to 2 issues of any severity and code", **FMT),
    Case("executor_validators", "c30_validation.cpp", params=[1, 1, 1, 2], bounds="up to 2 validators of every kind, up to 1 population and projection", **FMT),
    Case("connectivity3", "c30_validation.cpp", params=[0, 3, 3], tier="thorough", ttime=800, weight=4, bounds="up to 3 populations and 3 projections", **FMT),
    Case("executor2", "c30_validation.cpp", params=[1, 2, 2, 2], tier="thorough", ttime=800, weight=4, bounds="up to 2 validators of every kind on up to 2 populations and projections", **FMT),
])

check("C31", "monitoring", "more messages or steps than listed; the text of the status logger; resources other than three values in the weights logger", [
    Case("observer", "c31_monitor.cpp", STF, params=[0, 2, 1, 0], bounds="observers of spikes on 2 steps, symbolic indexes, watched and not watched senders"),
    Case("impacts", "c31_monitor.cpp", STF, params=[0, 2, 1, 1], bounds="observers of synaptic impacts"),
    Case("aggregated", "c31_monitor.cpp", STF, params=[1, 3, 1, 2], bounds="aggregated spike logger, 3 steps, period 1 or 2, symbolic indexes"),
    Case("spikes", "c31_monitor.cpp", STF, params=[2, 2, 1, 0], bounds="spike logger, 2 steps"),
    Case("weights", "c31_monitor.cpp", STF, params=[3, 3, 1, 3], bounds="weights logger, 2 projections with up to 1 synapse, also from a neuron beyond 2^33, 3 steps, period 1 to 3"),
    Case("weights2", "c31_monitor.cpp", STF, params=[3, 1, 2, 1], weight=2, bounds="weights logger, up to 2 synapses in one projection and 1 in another, sources 0, 1, 2^33 and 2^33 + 1, 3 targets"),
    Case("weights_long", "c31_monitor.cpp", STF, params=[3, 2, 2, 2], tier="thorough", ttime=800, weight=4, bounds="weights logger, up to 2 synapses, 2 steps, period 1 or 2"),
    Case("observer3", "c31_monitor.cpp", STF, params=[0, 3, 2, 0], tier="thorough", ttime=800, weight=4, bounds="observers, 3 steps"),
    Case("aggregated4", "c31_monitor.cpp", STF, params=[1, 4, 2, 2], tier="thorough", ttime=800, weight=4, bounds="aggregated spike logger, 4 steps"),
])

check("C32", "model execution", "more steps, runs, input channels or handlers than listed; spikes of one symbolic index; other backends than the single-threaded one", [
    Case("drive", "c32_executor.cpp", STF, params=[0, 2, 1, 1], bounds="2 runs of any length up to 1 step, 1 input channel, a handler, observers of spikes and impacts"),
    Case("drive_channels", "c32_executor.cpp", STF, params=[0, 1, 2, 2], weight=2, bounds="1 run of up to 2 steps, 2 input channels"),
    Case("drive_long", "c32_executor.cpp", STF, params=[0, 1, 3, 1], weight=2, bounds="1 run of up to 3 steps"),
    Case("stop", "c32_executor.cpp", STF, params=[1, 0, 2], bounds="a run stopped from a generator, handler, observer or predicate in any of 2 steps"),
    Case("stop_again", "c32_executor.cpp", STF, params=[1, 0, 2], repeat=1, bounds="a run stopped from a generator, handler, observer or predicate in any of 2 steps"),
    Case("drive_runs", "c32_executor.cpp", STF, params=[0, 2, 2, 1], tier="thorough", ttime=800, weight=4, bounds="2 runs of up to 2 steps"),
    Case("drive_channels3", "c32_executor.cpp", STF, params=[0, 1, 2, 3], tier="thorough", ttime=800, weight=4, bounds="3 input channels"),
])

RC = dict(groups=("core",), prelude=RANDOM)
check("C33", "population creators", "populations larger than listed; the values of the random generator beyond their number", [
    Case("blifat", "c33_populations.cpp", params=[5, 0], bounds="every creator and generator, up to 5 BLIFAT neurons with symbolic parameters", **RC),
    Case("lif", "c33_populations.cpp", params=[8, 1], bounds="up to 8 LIF neurons", **RC),
    Case("altai", "c33_populations.cpp", params=[5, 2], bounds="up to 5 AltAI neurons", **RC),
    Case("stdp_blifat", "c33_populations.cpp", params=[4, 3], bounds="up to 4 STDP BLIFAT neurons", **RC),
    Case("stdp_altai", "c33_populations.cpp", params=[4, 4], bounds="up to 4 STDP AltAI neurons", **RC),
    Case("lif_again", "c33_populations.cpp", params=[3, 1], bounds="up to 3 LIF neurons", repeat=1, **RC),
    Case("blifat_again", "c33_populations.cpp", params=[2, 0], bounds="up to 2 BLIFAT neurons", repeat=1, **RC),
    Case("altai_again", "c33_populations.cpp", params=[2, 2], bounds="up to 2 AltAI neurons", repeat=1, **RC),
    Case("stdp_again", "c33_populations.cpp", params=[2, 3], bounds="up to 2 STDP BLIFAT neurons", repeat=1, **RC),
    Case("stdp_altai_again", "c33_populations.cpp", params=[2, 4], bounds="up to 2 STDP AltAI neurons", repeat=1, **RC),
    Case("blifat_large", "c33_populations.cpp", params=[8, 0], tier="thorough", ttime=800, weight=4, bounds="up to 8 BLIFAT neurons", **RC),
    Case("stdp_large", "c33_populations.cpp", params=[6, 3], tier="thorough", ttime=800, weight=4, bounds="up to 6 STDP BLIFAT neurons", **RC),
])

check("C34", "device selection", "more devices, requested UIDs or requests than listed", [
    Case("devices2", "c34_devices.cpp", params=[2, 2, 2], bounds="2 devices, 2 requests of up to 2 UIDs each, the last byte of every UID symbolic"),
    Case("devices3", "c34_devices.cpp", params=[3, 2, 1], bounds="3 devices, 1 request of up to 2 UIDs"),
    Case("devices3_long", "c34_devices.cpp", params=[3, 3, 2], tier="thorough", weight=4, bounds="3 devices, 2 requests of up to 3 UIDs"),
])

check("C36", "ZeroMQ message bus", "more endpoints, messages, rounds or repeated calls than listed; other transports than inproc, several threads, messages dropped at a high-water mark; libzmq itself is a model: inproc sockets that deliver at once, a ROUTER that reads its peers in any order, and non-blocking calls that may have to be repeated", [
    Case("routes", "c36_zmq.cpp", params=[1, 1, 2, 2, 2, 1, 1, 0, 1], weight=1, bounds="1 configuration operation, 2 messages of either type, 2 endpoints, 1 call answered EAGAIN at any place, any order of sockets"),
    Case("order", "c36_zmq.cpp", params=[1, 0, 3, 2, 1, 1, 1, 0, 2], weight=1, bounds="3 messages, 2 endpoints, 2 calls answered EAGAIN"),
    Case("rounds", "c36_zmq.cpp", params=[2, 1, 1, 2, 1, 1], bounds="2 rounds of 1 configuration operation and 1 message, 2 endpoints"),
    Case("destroyed", "c36_zmq.cpp", params=[2, 0, 2, 2, 1, 1, 1, 1], bounds="2 endpoints and a third that is destroyed at any moment, 2+1 messages"),
    Case("order3", "c36_zmq.cpp", params=[1, 1, 3, 2, 1, 1, 1], bounds="3 messages through 2 endpoints, order"),
    Case("removal", "c36_zmq.cpp", params=[1, 2, 1, 1, 2, 2, 1, 0, 1], weight=2, bounds="everything subscribed, then 2 configuration operations and 1 message, both types"),
    Case("repeats", "c36_zmq.cpp", params=[1, 1, 3, 2, 2, 1, 1, 0, 3], tier="thorough", ttime=900, weight=6, bounds="3 messages of either type, 2 endpoints, 3 calls answered EAGAIN"),
])

DEV = dict(groups=("core", "devices", "st"))
X86 = dict(groups=("core", "devices_x86", "st"), defs=["-DKNP_X86", "-I" + VERIF + "/rt/shim_pcm"])
check("C39", "device identity", "more sockets or moves than listed; power values; Intel PCM itself is a model (its sockets and counters), and processors that share a name", [
    Case("moves", "c39_device.cpp", params=[0, 3, 0], bounds="3 moves of any kind (construction, assignment, swap, growth of a vector), symbolic tags", **DEV),
    Case("backend", "c39_device.cpp", params=[1, 0, 0], bounds="single-threaded backend: listing twice, any request with and without a missing device", **DEV),
    Case("backend_mt", "c39_device.cpp", groups=MTG + ("devices",), params=[1, 0, 0], shims=True, defs=["-DKNP_MT"], bounds="multi-threaded backend"),
    Case("x86_moves", "c39_device.cpp", params=[0, 2, 2], bounds="up to 2 sockets, each on line or not, 2 moves of any kind", **X86),
    Case("x86_backend", "c39_device.cpp", params=[1, 0, 3], bounds="single-threaded backend, up to 3 sockets, any request", **X86),
    Case("x86_moves3", "c39_device.cpp", params=[0, 3, 2], tier="thorough", weight=2, bounds="3 moves", **X86),
])

W40 = dict(groups=("core", "st", "framework"), prelude=RANDOM, defs=["-DKNP_SMALL_RANDOM=16"])
check("C40", "winner-take-all handlers", "more pairs, steps, neurons, winners or borders than listed; the random generator is a model that may draw any of its values; other backends", [
    Case("pair1", "c40_wta.cpp", params=[1, 2, 3, 2, 1], bounds="1 pair of senders and receivers, 2 steps, 3 neurons, up to 2 winners, up to 1 border", **W40),
    Case("pair2", "c40_wta.cpp", params=[2, 2, 2, 1, 1], bounds="2 pairs, 2 steps, 2 neurons each", **W40),
    Case("borders2", "c40_wta.cpp", params=[1, 3, 3, 2, 2], bounds="1 pair, 3 steps, 3 neurons, up to 2 winners, up to 2 borders", **W40),
    Case("pair2_wide", "c40_wta.cpp", params=[2, 3, 2, 2, 1], bounds="2 pairs, 3 steps, up to 2 winners", **W40),
    Case("four", "c40_wta.cpp", params=[1, 2, 4, 3, 2], bounds="1 pair, 2 steps, 4 neurons, up to 3 winners, up to 2 borders", **W40),
    Case("pair3", "c40_wta.cpp", params=[3, 2, 2, 1, 1], tier="thorough", ttime=600, weight=2, bounds="3 pairs, 2 steps, 2 neurons each", **W40),
    Case("four_long", "c40_wta.cpp", params=[1, 3, 4, 3, 2], tier="thorough", ttime=900, weight=4, bounds="1 pair, 3 steps, 4 neurons", **W40),
])

VIS = dict(groups=("core", "framework", "visualizer"), prelude="cv_model.h", defs=["-isystem", "/usr/include/opencv4"])
check("C41", "the graph of a network", "more populations or projections than listed; more than 9 populations or a size above 9 in the description; initial places of the layout other than those of a grid of 2 or 4 values (one path each, the solver is not asked about double divisions of symbolic places); drawing and the window (OpenCV's compiled code)", [
    Case("graph", "c41_graph.cpp", params=[0, 3, 2], bounds="up to 3 populations and 2 projections, the ends of projections symbolic", **VIS),
    Case("names", "c41_graph.cpp", params=[1, 2, 2], bounds="2 populations and 2 projections, each without a name, named, with an empty name or with a name of another type", **VIS),
    Case("wide", "c41_graph.cpp", params=[0, 4, 2], bounds="up to 4 populations and 2 projections", weight=2, **VIS),
    Case("places", "c41_graph.cpp", params=[2, 2, 1, 1], bounds="2 populations, 1 projection, 1 step of the layout, places of a grid of 4 values", **VIS),
    Case("places3", "c41_graph.cpp", params=[2, 3, 2, 3], bounds="3 populations, 2 projections, 3 steps of the layout, places of a grid of 2 values", **dict(VIS, defs=VIS["defs"] + ["-DKNP_RANDU=2"])),
    Case("dense", "c41_graph.cpp", params=[0, 3, 3], tier="thorough", ttime=900, weight=6, bounds="up to 3 populations and 3 projections", **VIS),
])

NOT_APPLICABLE = {
    "C35": "The SONATA sources (impl/sonata, impl/storage/native) are left out of the build in this sandbox, because HighFive and csv2 are missing, so the code neither runs nor can a counterexample be replayed against it; what would have to be symbolic is a file written by the HDF5 C library through HighFive, and a model of both libraries written from memory would be decided instead of the code.",
    "C37": "The bindings are Boost.Python template instantiations: their behaviour is that of Boost.Python's registry and of CPython's C API and object model (reference counts, type objects, an interpreter), which is compiled C outside the bitcode; encoding it is out of reach, and a model of it would be decided instead of the bindings. The C++ functions the bindings call are covered by the other properties.",
    "C38": "The code is CUDA: kernels and device containers need a CUDA compiler and its headers to become an intermediate representation, and neither is in the sandbox (KNP_BUILD_CUDA is off).",
}
