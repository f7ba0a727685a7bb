#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state="", observe=""):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mech], state=[dict(name=x.strip(), meaning="", where=files[0]) for x in state.split(",") if x.strip()], observe_at=[observe] if observe else [], hook_needed=None)))
C="knp/core-library/"; B="knp/backends/cpu/"; F="knp/base-framework/"

prop("C01","Projection keeps exactly its synapses, and every lookup finds exactly them",
 """After any sequence of adding synapses, removing them by index, by neuron or by neuron pair, clearing, and looking synapses up, a projection holds exactly
 the synapses added and not removed, with their parameters and neuron pair unchanged. A search by presynaptic neuron, by postsynaptic neuron or for an exact pair (and the connectivity queries built on it)
 returns exactly the positions of the matching synapses at that moment, and every removal reports the number it really removed.""",
 ["histories","inputs"],"every sequence of operations and every choice of neuron numbers, positions and parameters",
 "Tests try one or two fixed sequences; a lookup cache is only wrong after particular interleavings of lookups and removals.",
 [C+"include/knp/core/projection.h",C+"impl/projection.cpp"],["Projection::add_synapses","Projection::remove_*","Projection::find_synapses","Projection::reindex"],
 "Projection::parameters_, index_, is_index_updated_","Projection public API")
prop("C02","Population keeps exactly the neurons put in, in order",
 """After any sequence of adding neurons from a generator and removing neurons by index or by predicate-independent index lists, a population holds exactly the remaining neurons
 in their original order with their parameters unchanged, and its size equals their number. A generator is asked for each new neuron exactly once, and a neuron it declines is not added.""",
 ["histories","inputs"],"every sequence of additions and removals with any index lists (any order)",
 "Tests remove one fixed list of neurons.",[C+"include/knp/core/population.h",C+"impl/population.cpp"],
 ["Population::add_neurons","Population::remove_neurons","Population::remove_neuron"],"Population::neurons_","Population public API")
prop("C03","The bus delivers each message once to every receiver subscribed to its sender",
 """Every message sent through an endpoint is, after routing and receiving, unloaded exactly once and unchanged by each receiver subscribed to that message type and sender, on any endpoint of the bus; messages sent through one endpoint and routed together keep their sending order.
 A receiver that is not subscribed to the sender never gets it, and neither routing again nor unloading again delivers it a second time.""",
 ["histories","inputs"],"every arrangement of subscriptions (senders, receivers, endpoints, types) and every sequence of send, route, receive and unload steps on the in-process (CPU) bus",
 "Tests route one spike and one impact message between two fixed endpoints.",
 [C+"impl/message_endpoint.cpp",C+"impl/message_bus.cpp",C+"impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp",C+"impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h"],
 ["MessageBus::route_messages","MessageBusCPUImpl::update/step","MessageEndpoint::receive_message","MessageEndpoint::unload_messages"],
 "endpoint message containers, senders sets","MessageEndpoint public API")
prop("C04","Binary message envelope round-trips every message",
 """Packing any spike message or synaptic impact message into the binary envelope and extracting it again yields the same message: header, every index, every impact field, synapse type and flags,
 in the same order. The extracted variant has the type of the packed message.""",
 ["inputs"],"every message value","Tests pack one fixed message of each kind.",
 [C+"impl/messaging/spike_message.cpp",C+"impl/messaging/synaptic_impact_message.cpp",C+"impl/messaging/message_envelope.cpp",C+"impl/messaging/fbs/"],
 ["pack","unpack","pack_to_envelope","extract_from_envelope"],"flatbuffers envelope bytes","knp::core::messaging API")
prop("C05","Text form of messages, headers and impacts reads back to the same value",
 """Writing a message header, spike message, synaptic impact or synaptic impact message to a text stream and reading it back with the stream operators yields an equal value,
 whatever the target object held before, for every field including indexes, types and flags.""",
 ["inputs"],"every message value up to the stated sizes, and every previous content of the target object","Tests write and read one fixed message into a fresh object.",
 [C+"impl/message_header.cpp",C+"impl/messaging/spike_message.cpp",C+"impl/messaging/synaptic_impact_message.cpp"],["operator<<","operator>>"],"","stream operators")
prop("C06","UIDs compare, order, hash and convert consistently",
 """UID equality, inequality and ordering agree with each other and form a strict total order; equal UIDs hash equally; a UID is true exactly when it is not the empty UID; conversion to text gives the canonical form and distinct UIDs give distinct texts.
 The continuous generator hands out pairwise distinct UIDs over any run of calls after any reset, and a random UID is never invalid by construction.""",
 ["inputs","histories"],"all pairs and triples of 128-bit UIDs; every generator start state","Tests compare a handful of UIDs.",
 [C+"include/knp/core/uid.h",C+"impl/uid.cpp"],["UID operators","uid_hash","continuously_uid_generator"],"","UID public API")
prop("C07","Backend lifecycle: start, run predicates, step count and stop are consistent",
 """A backend runs exactly one step per accepted predicate decision: the step counter starts at zero, grows by one for each executed step, and the pre- and post-step predicates are called with the counter value of the step they guard; a false predicate ends the run.
 The running flag is true exactly while a run is in progress and false again when it has ended, by a predicate, by stop or by an exception; a stopped or failed backend can be started again and goes on counting, and initialisation happens once, before the first step.""",
 ["histories","inputs"],"every sequence of predicate answers, start, stop and failing steps","Tests run a fixed number of steps with one predicate.",
 [C+"include/knp/core/backend.h",C+"impl/backend.cpp"],["Backend::start","Backend::stop","Backend::pre_start","Backend::gad_step"],"started_, initialized_, step_","Backend public API")
prop("C08","Subscriptions hold exactly the requested senders",
 """A subscription's sender set is exactly the set of senders given and added minus those removed, with no duplicates, and adding or removing reports the number of senders really changed.
 Adding a subscription for an existing receiver extends it, unsubscribing one sender leaves the others, and removing a receiver removes all of its subscriptions and no one else's, with no further delivery to it.""",
 ["histories","inputs"],"every sequence of subscription changes over any senders and receivers","Tests make one subscription and remove it.",
 [C+"include/knp/core/subscription.h",C+"impl/subscription.cpp",C+"impl/message_endpoint.cpp"],["Subscription::add_senders/remove_sender","MessageEndpoint::add_subscription/unsubscribe/remove_receiver"],
 "Subscription::senders_","Subscription and MessageEndpoint API")
prop("C09","Tag maps return exactly what was stored",
 """A tag read back has the value and type last written under that name; tags with other names are unaffected; reading under a wrong type or a missing name raises the documented error and changes nothing.""",
 ["histories","inputs"],"every sequence of writes and reads over the stated names and value types","Tests store one tag.",
 [C+"include/knp/core/tag.h"],["TagMap::get_tag","TagMap::operator[]"],"TagMap::tags_","TagMap API")
prop("C10","A spike reaches each target exactly at its synaptic delay, with its weight",
 """For a delta-synapse projection, a spike of presynaptic neuron i sent on step t produces, for every synapse of i, exactly one impact with that synapse's weight, type and neuron pair, and delivers it on step t+delay and on no other step.
 Neurons without spikes and synapses of other neurons produce no impact, and nothing is delivered twice or lost, whatever else is in flight.""",
 ["inputs","histories"],"every synapse set, delay, weight and spike train on the single-threaded backend","Tests use one synapse with a fixed delay.",
 [B+"cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h",B+"cpu-library/include/knp/backends/cpu-library/projections.h",B+"cpu-single-threaded-backend/impl/backend.cpp"],
 ["calculate_delta_projection / calculate_projection","MessageQueue"],"future messages queue","SynapticImpactMessage seen on the bus")
prop("C11","BLIFAT neuron step follows its documented dynamics",
 """One step of a BLIFAT neuron from any state under any set of impacts applies decay, threshold and trace updates, excitatory, current- and conductance-inhibitory, dopamine and blocking impacts, bursting, refractoriness, reset and the potential floor as documented, and spikes exactly when the potential reaches the total threshold outside the refractory period and blocking.
 Neurons without impacts still evolve, and no neuron's state depends on another's.""",
 ["inputs"],"every finite neuron state and parameters and every impact list up to the stated length","Tests follow one excitatory path.",
 [B+"cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/"],["calculate_pre_impact","impact_neuron","calculate_post_impact"],"BLIFAT neuron parameters","population state and SpikeMessage after a step")
prop("C12","AltAI-LIF neuron step follows its documented dynamics",
 """One step of an AltAI-LIF neuron from any state under any impacts applies leak (with optional leak reversal), weight saving and synaptic impacts, threshold comparison, reset mode, refractory blocking and floor saturation (below the floor) as documented,
 and spikes exactly when the potential reaches the threshold; no neuron's state depends on another's.""",
 ["inputs"],"every neuron state and parameters and every impact list up to the stated length","Tests follow a few fixed parameter sets.",
 [B+"cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_impl.h"],["calculate_pre_impact","impact_neuron","calculate_post_impact"],"AltAILIF parameters","population state and SpikeMessage after a step")
prop("C13","LIF neuron step follows its documented dynamics",
 """One step of a LIF neuron from any state under any impacts multiplies the potential by the leak coefficient outside the refractory period, ignores impacts while refractory, adds them otherwise, spikes exactly when the potential exceeds the threshold, resets to the reset value and starts the refractory countdown, which falls by one each step.""",
 ["inputs"],"every neuron state and parameters and every impact list up to the stated length","Tests follow one path.",
 [B+"cpu-library/include/knp/backends/cpu-library/impl/populations/lif/"],["lif_impl"],"LIF parameters","population state and SpikeMessage after a step")
prop("C14","Multi-threaded backend computes what the single-threaded backend computes",
 """For the same network and the same input spikes, the multi-threaded backend emits on every step the same spikes from every population and the same impacts from every projection as the single-threaded backend (up to the order inside a message), and leaves the same neuron and synapse states, up to the rounding of a sum taken in another order.""",
 ["inputs","configurations","schedules"],"every supported network, input and thread/part-size configuration up to the stated sizes","Tests run each backend on its own small networks.",
 [B+"cpu-multi-threaded-backend/impl/backend.cpp",B+"cpu-single-threaded-backend/impl/backend.cpp"],["calculate_projections","calculate_populations_*"],"","messages on the bus, get_network_data")
prop("C15","Multi-threaded results do not depend on part sizes, thread number or schedule",
 """The spikes, impacts and states computed by the multi-threaded backend are the same for every number of threads, every population and projection part size, and every order in which the pool executes the parts: each neuron and each spike is processed exactly once per step, and no two threads use the same data without synchronisation. (The order of impacts inside a message, and the rounding of a sum that follows from it, may differ.)""",
 ["configurations","schedules","inputs"],"every part size and thread count in the stated range, every execution order of the parts, all inputs","Tests use the default part sizes and whatever schedule occurs.",
 [B+"cpu-multi-threaded-backend/impl/backend.cpp"],["calculate_populations_pre_impact","calculate_populations_impact","calculate_populations_post_impact","calculate_projections"],"shared message and population buffers","step results")
prop("C16","Thread pool runs every task exactly once and join returns only when all are done",
 """Under every schedule, every task posted to the pool is executed exactly once, join returns only after all tasks posted before it (including tasks posted by running tasks) have finished, and join and destruction always terminate without deadlock.""",
 ["schedules"],"every interleaving of worker threads, posters and the joining thread within the stated bounds","Tests observe a few lucky schedules.",
 [B+"thread_pool/impl/thread_pool_context.cpp",B+"thread_pool/include/knp/backends/thread_pool/"],["ThreadPoolContext","ThreadPoolExecutor::join"],"usage_state_, work_queue_, task_count_","ThreadPool API")
prop("C17","With learning off, running a network changes no synapse",
 """A projection that is locked, and every projection after learning has been stopped, keeps every synapse's weight and synaptic resource unchanged by any run of steps and inputs, while it still transmits every spike with its weight; unlocking or starting learning restores learning exactly for the projections concerned.""",
 ["inputs","histories"],"every spike train and lock history over the stated steps","Tests check lock flags, not weights under activity.",
 [B+"cpu-library/include/knp/backends/cpu-library/impl/projections/delta/",B+"cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h",C+"include/knp/core/projection.h"],
 ["Projection::lock_weights","Backend::stop_learning"],"Projection::is_locked_","synapse parameters")
prop("C18","Resource STDP keeps weights in bounds and weight consistent with resource",
 """Under synaptic-resource plasticity every weight it recalculates lies between the synapse's minimum and maximum weight, is a monotonic function of its synaptic resource, and resource is only moved between a neuron's free resource and its plastic synapses by the rule: the total is conserved by renormalisation.
 Apart from the fixed decrement a synapse gives to the free resource on each unforced spike of its neuron, only synapses that took part (their spike arrived within the plasticity window) gain or lose resource: once per spiking period by the Hebbian rule, and under dopamine while the neuron's last spike is recent.""",
 ["inputs","histories"],"every synapse and neuron state and dopamine value in the stated bounds","Tests check one learning episode.",
 [B+"cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h",B+"cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h"],
 ["recalculate_synapse_weights","renormalize_resource","do_dopamine_plasticity"],"synaptic_resource_, free_synaptic_resource_","synapse parameters")
prop("C19","Additive STDP changes weights exactly by the pair-based exponential rule",
 """Additive spike-timing plasticity changes a weight only for its own synapse's recorded spike pairs, once both of its histories are full (tau_plus + tau_minus spikes): a presynaptic-before-postsynaptic pair adds the exponential of the time difference over tau_plus, the reverse never raises the weight, each pair contributes once and the histories are then emptied.
 A spike of a population marked for STDP enters the postsynaptic history of exactly the synapses that end on its neuron; with STDP-and-spikes it also enters the presynaptic history of exactly those that start from it and is transmitted; STDP-only spikes are not transmitted.""",
 ["inputs"],"every pair of spike-time lists within the stated bounds","Tests compute one example.",
 [B+"cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h"],["STDPFormula","update_stdp / append_spike_times"],"spike time lists","synapse weight")
prop("C20","Loaded populations and projections are the ones the backend runs and gives back",
 """Populations and projections loaded into a backend are returned by its data ranges and network copies with the same UIDs, tags, neurons, synapses and order; unsupported element types are rejected; removing elements removes exactly those named.""",
 ["inputs","histories"],"every combination of supported elements and removal lists in the stated bounds","Tests load one population.",
 [B+"cpu-single-threaded-backend/impl/backend.cpp",B+"cpu-single-threaded-backend/impl/get_network.cpp",F+"impl/synchronization.cpp"],["load_populations","load_projections","get_network_data","get_network_copy"],"","Backend API")
prop("C21","A network holds each population and projection once, and answers by UID exactly",
 """After any history of adding, connecting, removing and looking up populations and projections, a network contains exactly those added and not removed, in the order of addition, and a UID at most once (adding a UID that is present is refused in every form of addition); lookup by UID, with or without a type, returns the element with that UID or reports that there is none.""",
 ["histories","inputs"],"every operation sequence over the stated elements and UIDs","Tests add and remove one element.",
 [F+"include/knp/framework/network.h",F+"impl/network.cpp"],["Network::add_*","Network::remove_*","Network::get_*","Network::is_*_exists"],"populations_, projections_","Network API")
prop("C22","Loading a model connects every declared channel to exactly its own targets",
 """Loading a model creates one input channel per declared input channel UID bound to its generator and one output channel per declared output channel UID; spikes of an input channel reach exactly the projections connected to that UID, and an output channel collects exactly the spikes of the populations connected to it.""",
 ["inputs","configurations"],"every set of channels and UIDs in the stated bounds","Tests declare one input and one output channel.",
 [F+"impl/model.cpp",F+"impl/model_loader.cpp",F+"include/knp/framework/model_loader.h"],["ModelLoader::load","init_channels","connect_input/output_channel"],"i_channels_, o_channels_","ModelLoader/ModelExecutor API")
prop("C23","Projection creators connect exactly the documented neuron pairs",
 """Each projection creator and generator (all-to-all, one-to-one, aligned, exclusive, index-based, from-container, from-map, clone, connectors) yields exactly the documented set of neuron pairs, each once, with the parameters the given function returns for that pair; every index is inside its population for any population sizes. Fixed-number creators give every neuron of the named side exactly the given number of synapses; fixed-probability takes only probabilities in [0, 1] and connects no pair twice.""",
 ["inputs"],"all population sizes and parameters in the stated bounds","Tests use one size per creator.",
 [F+"include/knp/framework/projection/creators.h",F+"include/knp/framework/projection/synapse_generators.h",F+"include/knp/framework/projection/connectors.h"],
 ["creators::*","synapse_generators::*","connectors::*"],"","synapse set of the created projection")
prop("C24","Input converters and channels turn step data into exactly the right spikes",
 """On each step an input channel sends exactly the spikes its generator gives for that step, stamped with that step and channel, and nothing when there are none; a sequence converter emits exactly the positions whose interpreted value is true; an index converter emits exactly the indexes listed on the next input line.""",
 ["inputs","histories"],"every input value sequence in the stated bounds","Tests feed one fixed line.",
 [F+"include/knp/framework/io/input_channel.h",F+"include/knp/framework/io/in_converters/",F+"impl/input_converter.cpp"],["InputChannel::send","SequenceConverter","IndexConverter"],"","SpikeMessage on the bus")
prop("C25","Output channels give each spike of a window once; converters count exactly",
 """Reading a step window from an output channel returns exactly the received messages whose step lies in the window, in order, and removes exactly these; converting them to bits, counts or sets reflects exactly the neuron indexes present.""",
 ["inputs","histories"],"every message list ordered by step, every window and every output size in the stated bounds","Tests read one window.",
 [F+"impl/output_channel.cpp",F+"include/knp/framework/io/out_converters/"],["OutputChannel::read_some_from_buffer","ConvertToBitwise","ConvertToCount","ConvertToSet"],"message_buffer_","OutputChannel API")
prop("C26","Message handlers emit only spikes they are allowed to emit",
 """The winner-take-all handlers output a duplicate-free subset of the input spikes: at most k overall or per group, all spikes when no more than k compete, whole groups for group selection with the most active groups winning; the union handler outputs the set union of its inputs and nothing else.""",
 ["inputs"],"every spike list, group partition, k and every random choice","Tests check one spike list; random choices are sampled.",
 [F+"impl/message_handlers.cpp",F+"include/knp/framework/message_handlers.h"],["KWtaPerGroup","KWtaRandomHandler","GroupWtaRandomHandler","SpikeUnionHandler"],"","returned SpikeData")
prop("C27","Normalisation maps values into the target range, preserving order and exactness",
 """Rescaling floating-point weights or neuron parameters maps the source minimum and maximum onto the target bounds, keeps every result of a value of the source range inside the target range (both up to rounding), preserves order, and touches only the selected field of the selected synapses or neurons; normalizing a constant network changes only the returned copy.""",
 ["inputs"],"every value and range in the stated bounds","Tests rescale one vector.",
 [F+"include/knp/framework/normalization/"],["Rescaler","normalize_synapses","normalize_neurons"],"","synapse and neuron parameters")
prop("C28","Dataset splitting and frame generators cover the data exactly",
 """Loading makes a record of every complete image that has a label, up to the requested number, and of nothing else. Splitting a dataset gives training the first and inference the next records, in the requested numbers and in order, and is refused exactly when there are too few records; the training and inference generators replay, for each step, exactly the frame and label belonging to that step, in a loop.""",
 ["inputs"],"every dataset size, frame size, proportion and step in the stated bounds","Tests load one tiny dataset.",
 [F+"include/knp/framework/data_processing/classification/",F+"impl/data_processing/classification/"],["Dataset::split","make_*_generator"],"","generator outputs")
prop("C29","Inference evaluation counts every prediction exactly once",
 """Evaluation assigns each evaluated frame to exactly one outcome per class from its spikes, so counts add up to the number of frames, and precision, recall, prevalence, accuracy and F-score reported for a class are the documented ratios of those counts, within [0,1] and defined for empty counts.""",
 ["inputs"],"every spike and label sequence and every count in the stated bounds","Tests check a perfect and one imperfect run.",
 [F+"impl/inference_evaluation/"],["InferenceResultsProcessor","get_precision","get_recall","get_f_score"],"","evaluation results and CSV")
prop("C30","Network validation reports exactly the disconnected elements",
 """The connectivity validator reports each population without any projection and each projection without any population exactly once, and reports nothing else; the executor runs every registered validator on every element it applies to and returns every report.""",
 ["inputs","configurations"],"every wiring of the stated number of populations and projections","Tests check a few fixed networks.",
 [F+"impl/network_validation/"],["Connectivity::operator()","Executor::run_validators"],"","Report")
prop("C31","Monitoring observes exactly the messages of the senders it watches",
 """An observer gets each message of the watched senders exactly once, on the step it is due, and no others; aggregated spike counters equal the number of spikes of each named population over the logging period. The weights logger writes, at the end of every period, the resource and last update of every synapse of its projection, by receiver and sender.""",
 ["inputs","histories"],"every message stream and period in the stated bounds","Tests log one run.",
 [F+"include/knp/framework/monitoring/observer.h",F+"impl/monitoring/model.cpp"],["MessageObserver::update","add_aggregated_spikes_logger"],"","observer calls")
prop("C32","Model executor drives inputs, backend, handlers and observers once per step",
 """Each executed step feeds every input channel for that step, runs the backend once and calls each handler and observer once; handler outputs are sent under the handler's UID only to its receivers, and execution ends exactly when the run predicate says so.""",
 ["histories","inputs"],"every predicate, generator and handler result over the stated number of steps","Tests run one model.",
 [F+"impl/model_executor.cpp",F+"include/knp/framework/model_executor.h"],["ModelExecutor::start","SpikeMessageHandler"],"","messages on the bus")
prop("C33","Population creators and neuron generators give the requested neurons",
 """Population creators give exactly the requested number of neurons, each with the parameters its generator returns for its index (defaults, copies of a given neuron, or elements of a container).""",
 ["inputs"],"every size and parameter in the stated bounds","Tests create one population.",
 [F+"include/knp/framework/population/"],["creators","neuron_parameters_generators"],"","Population contents")
prop("C34","Device selection gives the backend the requested devices",
 """Selecting devices by UID leaves the backend with exactly the requested devices of those available, and a request with no match is refused with an error.""",
 ["inputs"],"every device list and request set in the stated bounds","Tests select all devices of the host.",
 [C+"impl/backend.cpp",C+"include/knp/core/device.h"],["Backend::select_devices"],"","Backend::get_current_devices")
prop("C35","Networks saved to disk and loaded again are the same network",
 """Saving a network in SONATA form and loading it gives a network with equal populations, projections and parameters.""",
 ["inputs"],"every network","Tests save one network (and are not built here).",[F+"impl/sonata/"],["sonata::save_network","sonata::load_network"])
prop("C36","The ZeroMQ bus delivers like the in-process bus",
 """A bus created as the ZeroMQ bus gives the delivery guarantee of the in-process bus: every message sent through an endpoint is, once routed and received, unloaded exactly once and unchanged by every receiver subscribed to its sender and message type at the moment it is received, by no other receiver, and the messages of one sender come in the order of sending. This holds in whatever order the sockets are served and whichever non-blocking calls have to be repeated because they would block, and destroying an endpoint does not disturb the others.""",
 ["schedules","histories"],"every order of serving sockets, every place of a call that would block and every history of subscriptions in the stated bounds","The operating system decides the order in which sockets are served; tests send one message.",
 [C+"impl/message_bus_zmq_impl/",C+"impl/message_endpoint.cpp"],["MessageBusZMQImpl::step","MessageEndpointZMQImpl::receive_zmq_message","MessageEndpointZMQImpl::send_zmq_message"])
prop("C37","The Python API shows the same values as the C++ API",
 """Values passed through the Python bindings keep their meaning in both directions.""",
 ["inputs"],"every value of every bound type","Tests touch some bindings.",["knp/python-framework/"],["boost.python converters"])
prop("C38","The CUDA backend computes what the CPU backends compute",
 """The CUDA backend's spikes, impacts and states equal the CPU backends' on the same network and inputs.""",
 ["inputs","configurations"],"every supported network and input","No GPU in tests.",["knp/backends/gpu/"],["CUDABackendImpl"])
prop("C39","Processors listed as devices keep their identity",
 """Listing the processors gives each processor on line once, with a UID and a name that are the same in every listing and differ between processors, and with its socket number. Moving a device by construction, assignment, swap or the growth of a container keeps its UID, name, socket number and tags, so that a device a CPU backend has listed can be selected on that backend by its UID.""",
 ["inputs","histories"],"every set of sockets, every sequence of moves and every request in the stated bounds","The device tests are skipped outside the developers' machines.",
 ["knp/backends/cpu/cpu-devices/impl/","knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp"],["devices::cpu::CPU","devices::cpu::list_processors","get_devices"])
prop("C40","Winner-take-all handlers select winners pair by pair",
 """Adding winner-take-all handlers to a model executor makes one handler for each pair of senders and receivers, with UIDs that differ and come in the order of the pairs. On every step the receivers of a pair get, under its handler's UID, exactly the winners: of the spikes the pair's senders sent on the step before, every group between two borders contributes the requested number of neurons, or all of them when no more compete, with no repeats and nothing from other pairs.""",
 ["inputs","configurations","histories"],"every pattern of spikes, every border and number of winners and every random draw in the stated bounds","No test uses these handlers; winners are drawn at random.",
 [F+"impl/projection/wta.cpp",F+"impl/model_executor.cpp",F+"impl/message_handlers.cpp"],["projection::add_wta_handlers","ModelExecutor::add_spike_message_handler","modifier::KWtaPerGroup"])
prop("C41","The graph of a network shows the network's populations and projections",
 """The graph made of a network has a node for each population and an edge for each projection, in order, with its UID, size, type and name (the start of the UID where there is no name); an edge joins its presynaptic to its postsynaptic population, or names no node for an end outside the network. Dividing the graph gives its connected parts: every node in exactly one, two nodes together exactly if projections connect them. Its description has one line for each population, with its size and those it receives from and sends to. The layout puts every node of a part within the margins.""",
 ["inputs","configurations"],"every set of populations and projections with any ends, in the stated bounds","No test touches the visualizer.",
 [F+"impl/visualizer/visualize_network.cpp",F+"impl/visualizer/graph_physics.cpp"],["NetworkGraph","divide_graph_by_connectivity","print_network_description","position_network"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    if len(p["title"])>80: print(p["id"],len(p["title"]),p["title"])
print(len(P))
