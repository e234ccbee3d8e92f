"""One table: the properties and their checks.  `python3 tools/gen.py` writes
properties.jsonl and MANIFEST.json from it."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, level, note,
         observe=(), state=(), hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, technique=technique, level=level,
                  note=note, observe=observe, state=state, hook=hook, na=na))


prop(
    "C01", "The request limiter never over-admits, never loses a waiter, keeps order",
    "For every interleaving of acquiring, releasing, cancelling waiters and changing the limit, an acquisition "
    "is granted only while fewer holders than the current limit exist, and releasing more than was acquired is refused. "
    "A freed slot goes to the waiter with the highest priority and, among equal priorities, to the one that has waited "
    "longest; a later request never overtakes an earlier waiter of the same or a higher priority. "
    "Whenever a slot is free a waiting request obtains it: no cancellation, release or limit change loses a wakeup or "
    "leaks a slot.",
    ["schedules", "histories"],
    "all interleavings of up to 4 tasks x priorities with release, cancellation of waiting, just-woken and holding tasks, "
    "and limit changes, at every event-loop callback boundary, up to the stated deviation bound",
    "The unit tests run a handful of fixed orders; none cancels a waiter in the window between being woken and resuming, "
    "changes the limit under contention with cancellations, or compares the order with a reference queue.",
    ["zigpy/datastructures.py", "zigpy/device.py", "zigpy/application.py"],
    [("priority wait heap, wake-up hand-off and cancellation handling", "zigpy/datastructures.py:PriorityDynamicBoundedSemaphore")],
    "stateless model checking of the real semaphore on a controlled event loop against a reference queue",
    "model_checking",
    "Exhaustive over the stated task sets at callback granularity; trusts asyncio's FIFO ready queue.",
    observe=["acquire()/release()/locked()/value of the limiter"],
)

prop(
    "C02", "A request gets exactly its own reply and leaves nothing behind",
    "A request that expects a reply finishes with the reply that the addressed device sent for that transaction, or with "
    "a timeout, the send failure, its cancellation or a parsing error of that reply, and never with another device's, another transaction's, a "
    "request-direction, an unparsable, a duplicate or an earlier call's packet. However it ends, no state about it remains: the "
    "transaction number can be used again, a late reply is ignored without error, and the next request to that device is "
    "sent. At most one request per device other than the coordinator is outstanding at a time.",
    ["schedules", "fault_sequences"],
    "all interleavings of two devices x up to 3 concurrent requests with send failure, reply, duplicate, late, foreign and "
    "unsolicited packets, cancellation and timeout, within the deviation bound",
    "Tests mock the request future or deliver one reply at one moment; they do not deliver at every callback boundary, nor combine "
    "cancellation, timeouts and late replies.",
    ["zigpy/device.py", "zigpy/util.py", "zigpy/zcl/__init__.py", "zigpy/zdo/__init__.py", "zigpy/application.py"],
    [("pending-request table keyed by transaction number", "zigpy/util.py:Requests/Request"),
     ("reply dispatch", "zigpy/device.py:Device.packet_received"),
     ("per-device admission", "zigpy/device.py:Device.request")],
    "stateless model checking: real requests over a fake radio, every environment event at every callback boundary",
    "model_checking",
    "Exhaustive within the event menu and deviation bound stated in the evidence.",
    observe=["result of cluster commands and ZDO requests", "packets handed to the radio"],
)

prop(
    "C03", "Duplicate packets are dropped only inside the duplicate window",
    "A packet whose addressing, options and payload equal those of a packet processed less than the duplicate window ago from the same device is not "
    "processed a second time (time, signal quality and radio-level sequence number are not compared). Every other packet is processed: one that differs in any of those respects, one from another device, or "
    "one that repeats a packet from longer than the window ago, whatever other packets were received in between. A "
    "suppressed duplicate still refreshes when the device was last seen and its signal quality.",
    ["histories", "inputs"],
    "all packet histories up to length 6 over 3 payloads and 5 time steps around the window, against a reference filter, "
    "plus every single-field difference",
    "Tests use one or two packets and one expiry; the expiry bookkeeping with several live entries of different ages is not reached.",
    ["zigpy/datastructures.py", "zigpy/device.py"],
    [("expiry queue and membership test", "zigpy/datastructures.py:Debouncer"),
     ("duplicate filter", "zigpy/device.py:Device.packet_received")],
    "bounded exhaustive histories on the real filter and device against a reference model",
    "model_checking",
    "Exhaustive to the stated depth and alphabet; time only moves in the listed steps.",
)

prop(
    "C04", "Reloading the database reproduces the network state",
    "After any history of joins, initializations, address changes, attribute updates, clears and unsupported marks, group "
    "changes, relay updates, topology results, backups and removals, closing and reopening the database yields the same "
    "initialized devices, endpoints, clusters, descriptors, cached attributes, unsupported attributes, groups and members, relays, "
    "neighbors, routes and backups as the running application had. Reloading and saving again changes nothing.",
    ["histories"],
    "all event histories up to the stated depth over two devices (one with a replaced device definition), from empty and from populated databases",
    "Tests restore a few hand-written databases; no test compares live state with reloaded state over arbitrary histories.",
    ["zigpy/appdb.py", "zigpy/application.py", "zigpy/device.py", "zigpy/group.py", "zigpy/zcl/__init__.py", "zigpy/topology.py", "zigpy/backups.py"],
    [("event handlers writing rows", "zigpy/appdb.py:PersistingListener"), ("loading", "zigpy/appdb.py:PersistingListener.load")],
    "explicit-state exploration of event histories on the real application and real SQLite; reload compared with live state",
    "model_checking",
    "Exhaustive over histories up to the depth bound; SQLite itself is trusted.",
)

prop(
    "C05", "A crash at any point leaves a loadable database with a prefix of the history",
    "If the process stops at any moment of creating or writing the database, the next start opens it "
    "without error or manual repair. The reopened state equals the state after some prefix of the events recorded so far, each event "
    "applied entirely or not at all, and losing no event that had been committed. A failed write of one event leaves "
    "no partial change that a later event commits.",
    ["crash_points", "histories", "fault_sequences"],
    "every database operation boundary of creation and of each event handler, every prefix of write-ahead-log frames, and an "
    "injected error at every operation",
    "No test crashes: every test lets each handler finish and closes the database cleanly.",
    ["zigpy/appdb.py"],
    [("transactions per event", "zigpy/appdb.py:PersistingListener"), ("table creation", "zigpy/appdb.py:PersistingListener._run_migrations")],
    "exhaustive crash-point and fault enumeration on real SQLite files, recovered with the real loader",
    "fault_enumeration",
    "Every operation boundary and log prefix; trusts SQLite's own recovery of a torn frame.",
)

prop(
    "C06", "Schema migrations keep all data and are all-or-nothing",
    "Opening a database written by any earlier schema version upgrades it so that every device, endpoint, cluster, attribute, group, "
    "relay, neighbor, route, unsupported attribute, backup and node descriptor it held is still present, with the same values, and the previous version's tables are untouched. "
    "If the process stops or an error occurs at any point of an upgrade, the database is exactly as before (or completely upgraded) and a later start completes the upgrade. "
    "Opening an up-to-date database changes nothing, and a database from a newer version is refused or handled without losing its data.",
    ["configurations", "crash_points", "fault_sequences"],
    "every schema version x every content variant (each table alone, missing, stale rows, rows of absent devices); for the richest content every statement boundary of the whole upgrade (crash, log cut at every frame, error)",
    "Tests migrate a few fixture files on the happy path and inject one failure.",
    ["zigpy/appdb.py", "zigpy/appdb_schemas/__init__.py"],
    [("migration chain inside one transaction", "zigpy/appdb.py:PersistingListener._run_migrations")],
    "exhaustive enumeration of start versions x crash points x injected faults over the real migrations",
    "fault_enumeration",
    "Every version in the repository's schema directory; trusts SQLite transactions.",
)

prop(
    "C07", "Joining devices end initialized or reported failed, exactly once",
    "A joining device is announced once per join or address change, and its initialization either completes, "
    "after which it is reported initialized with exactly the descriptor, endpoints, clusters and model information its replies carried, or is "
    "reported failed and can be retried by a later join or packet. At most one initialization per device runs at "
    "a time, whatever announcements, address changes, packets, lost or failing replies and duplicate joins interleave with it. "
    "A device is never reported initialized while its descriptor or any endpoint is missing.",
    ["schedules", "fault_sequences"],
    "all placements of re-announcement, address change, timeouts, error replies and removal within an interview of a two-endpoint device, within the deviation bound",
    "Tests mock the interview steps and run the straight path with one failure.",
    ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py"],
    [("join handling", "zigpy/application.py:ControllerApplication.handle_join"), ("interview", "zigpy/device.py:Device._initialize")],
    "stateless model checking of the real interview against a scripted device with fault and event choices",
    "model_checking",
    "Exhaustive within the fault menu and deviation bound.",
)

prop(
    "C08", "Removing a device always removes it, everywhere",
    "After removing a device, whatever happens to the leave request (answered, refused, undeliverable, timed out, malformed), the device "
    "disappears from the application's devices and is reported removed exactly once, within the leave timeout. It disappears from every group and from "
    "the database, so the reloaded state agrees with the running one. The device is asked with the requested options, and parents of a sleepy device are each asked to drop it, and to let it rejoin if so requested, "
    "and other devices are unaffected.",
    ["fault_sequences", "schedules"],
    "all outcomes of the leave exchange x device type x group membership x parent set, with packets interleaved",
    "Tests cover one success, one delivery error and one timeout with mocks.",
    ["zigpy/application.py", "zigpy/group.py", "zigpy/appdb.py"],
    [("removal", "zigpy/application.py:ControllerApplication.remove/_remove_device")],
    "exhaustive fault enumeration over the removal protocol on the real application and database",
    "model_checking",
    "Exhaustive within the outcome menu.",
)

prop(
    "C09", "Every wire value decodes to what was encoded, and bad bytes are refused",
    "For every basic wire type, encoding a representable value and decoding it yields the same value and leaves the remaining bytes "
    "untouched, and the encoding has the Zigbee byte order and length. Decoding fewer bytes than the value needs raises a value error, and "
    "integers, lengths and floats outside the type's range are refused rather than silently changed. Decoding any bytes of an integer, enumeration, bitmap, float, octet string or list and "
    "re-encoding the result reproduces the bytes consumed (a float NaN stays a NaN).",
    ["inputs"],
    "all values of types up to 16 bits, boundary and bit-pattern sets above, all half-precision floats, all strings and lists to "
    "length bound over a small alphabet incl. multi-byte characters, all truncations",
    "Tests check a few values per type.",
    ["zigpy/types/basic.py", "zigpy/types/named.py"],
    [("codecs", "zigpy/types/basic.py"), ("named types", "zigpy/types/named.py")],
    "exhaustive bounded enumeration of values and byte strings against an independent reference codec",
    "exploration",
    "Complete for types up to 16 bits; larger types over the stated pattern sets.",
)

prop(
    "C10", "ZCL frames round-trip and truncated frames are refused",
    "Every ZCL header and every general and cluster command with any valid argument values encodes to the layout that the "
    "ZCL specification prescribes for its schema and decodes to the same header and arguments. A frame cut at any "
    "byte is either refused with a value error or decodes to a command whose absent trailing optional fields or list entries are exactly the missing ones. "
    "Attribute reports, read, write and reporting-configuration records carry every attribute type with its value unchanged.",
    ["inputs"],
    "all header flag combinations, all commands of all registered clusters with small argument domains, all attribute data types, all truncations",
    "Tests decode a few dozen literal frames.",
    ["zigpy/zcl/foundation.py", "zigpy/zcl/__init__.py", "zigpy/zcl/clusters/__init__.py", "zigpy/types/struct.py"],
    [("header and command schemas", "zigpy/zcl/foundation.py")],
    "exhaustive bounded enumeration of frames through the real codec against a reference layout",
    "exploration",
    "Complete over the stated domains; every registered command is covered.",
)

prop(
    "C11", "ZDO frames round-trip with their specified layout",
    "Every ZDO command with any valid arguments encodes to transaction number plus its fields in specified "
    "order, width and byte order, and decodes to the same command and arguments. Optional trailing fields may be absent or cut and then decode as absent; any other "
    "truncation is refused with a value error.",
    ["inputs"],
    "all ZDO commands x small argument domains x all truncations, against an independent layout table",
    "Tests cover a handful of commands.",
    ["zigpy/zdo/types.py", "zigpy/zdo/__init__.py"],
    [("ZDO schemas", "zigpy/zdo/types.py:CLUSTERS"), ("codec", "zigpy/zdo/__init__.py:ZDO._serialize/deserialize")],
    "exhaustive bounded enumeration of ZDO frames against an independent layout table",
    "exploration",
    "Complete over the stated domains.",
)

prop(
    "C12", "Structures keep their field order, bit packing and optional-field rules",
    "For every structure layout of integers, bit fields, lists and nested structures with optional and conditional fields, the encoding equals the concatenation of the present "
    "fields with bit fields packed into bytes, the last declared being the most significant, and decoding inverts it. Partially filled structures, structures with missing trailing optional fields, and conditional fields are encoded, "
    "compared, copied and matched consistently, without raising for absent fields.",
    ["programs", "inputs"],
    "all structure layouts up to 4 fields over the field alphabet x value patterns x truncations, against a reference codec",
    "Tests check hand-picked layouts.",
    ["zigpy/types/struct.py"],
    [("struct engine", "zigpy/types/struct.py:Struct")],
    "exhaustive enumeration of generated structure layouts through the real engine against a reference codec",
    "exploration",
    "Complete up to the stated layout size.",
)

prop(
    "C13", "The attribute cache always reflects the last thing the device said",
    "The cached value of an attribute equals the most recent report, successful read or acknowledged ordinary write (converted to the attribute's type when possible), its time of update "
    "moves with it, and failed or unanswered reads and writes leave it unchanged. An attribute the device said it does not support (in answer to a read or a reporting configuration) is "
    "remembered as such until a read or reporting configuration of it succeeds. Reading returns for every requested attribute the device answered (itself or with a default response) "
    "either its value or its failure status, and asks the device only for what the cache may not answer.",
    ["histories"],
    "all operation histories up to the stated depth over reports, reads with every per-attribute answer, writes with every status, clears and unsupported marks",
    "Tests check each operation alone.",
    ["zigpy/zcl/__init__.py"],
    [("attribute cache", "zigpy/zcl/__init__.py:Cluster"), ("reads", "zigpy/zcl/__init__.py:Cluster.read_attributes")],
    "explicit-state exploration of the real cluster against a reference cache",
    "model_checking",
    "Exhaustive to the stated depth and alphabet.",
)

prop(
    "C14", "Group membership is the same seen from groups, endpoints and devices",
    "After any history of adding and removing endpoints to and from groups, group scans, group and device removals, an endpoint is listed as a "
    "member of a group exactly when the group is listed among the endpoint's groups, and this follows the answers of the "
    "device: confirmed additions, removals and scans, while a command the device refuses (itself or with a default response) or does not answer changes nothing. Removing a group or a device ends its memberships, "
    "and group and membership events are emitted exactly on changes.",
    ["histories", "fault_sequences"],
    "all operation histories up to the stated depth over 2 devices x 2 groups with every command outcome",
    "Tests check each operation once with success or one failure.",
    ["zigpy/group.py", "zigpy/endpoint.py", "zigpy/application.py"],
    [("membership", "zigpy/group.py"), ("endpoint commands", "zigpy/endpoint.py")],
    "explicit-state exploration of group operations on the real objects against a reference relation",
    "model_checking",
    "Exhaustive to the stated depth and alphabet.",
)

prop(
    "C15", "Network backups never lose the newest frame counters or settings",
    "After any sequence of backups, the list of backups keeps, for each distinct network, the newest state: a "
    "backup replaces an older compatible one only if its frame counter is not lower, unless it is incomplete, and no complete backup is ever lost without a superseding one. Restoring a backup "
    "writes its settings with the outgoing frame counter raised by the requested increment and never reduced below the stored one. The stored list mirrors the database, and "
    "stored backups do not change when live state changes.",
    ["histories"],
    "all sequences up to length 4 over backups that differ in network identity, counters, times and completeness",
    "Tests cover a few pairs.",
    ["zigpy/backups.py", "zigpy/appdb.py"],
    [("backup list", "zigpy/backups.py:BackupManager")],
    "bounded exhaustive histories on the real backup manager against a reference list",
    "model_checking",
    "Exhaustive to the stated depth and alphabet.",
)

prop(
    "C16", "Backups survive export and import unchanged",
    "Exporting a network backup to its own dictionary form or to the open coordinator backup format and importing it again yields the same network, node, key, counter, "
    "child and address information that the format carries. Exporting an imported backup reproduces the same document, and documents in which a "
    "required part is missing, or an identifier, key or channel mask is malformed, are refused.",
    ["inputs"],
    "the product of representative values for every field, taken three at a time, in both formats",
    "Tests round-trip a few literal backups with symmetric byte patterns.",
    ["zigpy/backups.py", "zigpy/state.py"],
    [("conversion", "zigpy/backups.py:NetworkBackup.as_dict/from_dict, as_open_coordinator_json/from_open_coordinator_json"), ("state", "zigpy/state.py")],
    "bounded exhaustive enumeration of backups through export and import in both formats",
    "exploration",
    "Complete over t-way combinations of the stated field domains.",
)

prop(
    "C17", "A topology scan stores exactly what devices reported and can be stopped",
    "A completed scan of a device stores its whole neighbor and routing table, collected over as many pages as the device needs in any page size, and a "
    "failed or incomplete scan of a table leaves its previous one in place; a device that refuses a request is taken to have no such table. A new scan replaces a running one; stopping periodic scans or shutting down ends "
    "a scheduled scan, whatever it is waiting for, and no further scan request is sent. Newly seen neighbors that are unknown are "
    "discovered, and end devices are not queried.",
    ["schedules", "fault_sequences", "inputs"],
    "all page splits of tables up to 4 entries, all faults at each page, and stop/preempt at every callback boundary",
    "Tests use two pages and mock failures; they never stop a scan in progress.",
    ["zigpy/topology.py"],
    [("scan", "zigpy/topology.py:Topology")],
    "stateless model checking of scans against scripted devices with fault and stop events",
    "model_checking",
    "Exhaustive within the stated table sizes and deviation bound.",
)

prop(
    "C18", "A firmware transfer hands out exactly the image and always ends",
    "During a firmware update every block handed to the device equals the image's bytes at the requested offset, never longer than requested or allowed, and requests outside "
    "the image are refused without data. The update reports success only after the device confirmed the end of the upgrade "
    "successfully, and otherwise reports a failure: every sequence of requests, repeats, silences, aborts and send failures ends it within the inactivity timeout. After it ends nothing "
    "remains subscribed and a new update can start.",
    ["schedules", "fault_sequences", "inputs"],
    "all device behaviours up to the stated number of steps over query, block, page, out-of-range, repeated, wrong-image, abort, invalid and silent steps",
    "Tests script two transfers.",
    ["zigpy/ota/manager.py", "zigpy/device.py"],
    [("transfer", "zigpy/ota/manager.py:OTAManager")],
    "stateless model checking of the real update manager against an adversarial device",
    "model_checking",
    "Exhaustive to the stated number of device steps.",
)

prop(
    "C19", "Firmware containers are parsed faithfully and corrupt ones refused",
    "Parsing a firmware image and writing it out again reproduces the same bytes, for every combination of header options and "
    "elements, and the parsed header and elements are those in the file. A file cut anywhere or whose size or checksum differs from its advertised one is refused with an error, one with inconsistent lengths at the latest when it is written, "
    "and a recognized embedded firmware with any damaged byte is reported invalid.",
    ["inputs"],
    "all header option combinations x element layouts up to 3 elements x all truncations and length-field changes; every single-byte corruption of embedded images",
    "Tests parse a few fixtures.",
    ["zigpy/ota/image.py", "zigpy/ota/validators.py", "zigpy/ota/providers.py"],
    [("parsing", "zigpy/ota/image.py"), ("embedded validation", "zigpy/ota/validators.py"), ("size and checksum", "zigpy/ota/providers.py:BaseOtaImageMetadata")],
    "exhaustive enumeration of containers, truncations and corruptions against a reference parser",
    "exploration",
    "Complete over the stated container shapes.",
)

prop(
    "C20", "Only the right firmware is ever offered to a device",
    "An image is offered as an upgrade only if it is newer than the running version and its manufacturer, type, model, hardware range and current-version "
    "limits, from its metadata or where that is silent from its own header, all admit the device. Offered upgrades are ordered best first, contradicting images of equal version and specificity are all "
    "withheld, and a failed index or download excludes only that source. Asking again, or from several devices at once, gives the same answer without downloading an image twice.",
    ["inputs", "histories", "configurations"],
    "the product of every metadata restriction (absent, matching, failing) x image header restrictions x versions, for sets of up to 3 images and repeated or concurrent queries",
    "Tests check single restrictions with one or two images.",
    ["zigpy/ota/__init__.py", "zigpy/ota/providers.py"],
    [("selection", "zigpy/ota/__init__.py:OTA.get_ota_images"), ("compatibility", "zigpy/ota/__init__.py:OtaImageWithMetadata")],
    "bounded exhaustive enumeration of image sets and device queries against a reference selection",
    "model_checking",
    "Complete over the stated restriction product.",
)

prop(
    "C21", "Every waiting listener gets each matching response once",
    "A response callback or waiter registered for a device, or for any device, receives every matching packet that arrives while it is registered, is not the reply to a pending request and is not taken by an "
    "earlier waiter, and nothing before, after or from a device it did not ask for; a waiter takes the first and only the first. Callbacks that raise, or that register or unregister "
    "callbacks while being called, do not prevent others from being called or the packet from being handled. Removing a "
    "listener, however the waiting ended, leaves none behind.",
    ["histories", "schedules"],
    "all histories of registering, unregistering, matching and non-matching packets up to the stated depth, with callbacks that raise, add and remove listeners",
    "Tests register one or two listeners and deliver one packet.",
    ["zigpy/listeners.py", "zigpy/device.py", "zigpy/application.py", "zigpy/util.py"],
    [("listeners", "zigpy/listeners.py"), ("dispatch", "zigpy/device.py:Device.packet_received"), ("events", "zigpy/util.py:ListenableMixin")],
    "explicit-state exploration of listener histories on the real dispatch against a reference multiset",
    "model_checking",
    "Exhaustive to the stated depth.",
)

prop(
    "C22", "Retries and shared calls keep their caller contracts",
    "A retried operation is attempted until it succeeds or the attempt limit is reached, only for the listed errors, with the specified delay between attempts, and then "
    "fails with the last error; an unlisted error or a cancellation ends it at once. Concurrent identical calls that are combined run the operation once, give every caller its "
    "result or error, start afresh when called later, and one caller's cancellation does not fail the others. Different arguments are never combined.",
    ["schedules", "fault_sequences"],
    "all outcome sequences up to the attempt limit, all interleavings of up to 3 callers with completion, failure and cancellation",
    "Tests use a few outcomes and no cancellation of one of several callers.",
    ["zigpy/util.py"],
    [("retry", "zigpy/util.py:retry/retryable"), ("combining", "zigpy/util.py:combine_concurrent_calls")],
    "stateless model checking of the real helpers over all outcomes and interleavings",
    "model_checking",
    "Exhaustive within the stated numbers of callers and attempts.",
)

prop(
    "C23", "Startup ends running or fully shut down, with valid network settings",
    "Starting the application either ends with the network running and its periodic work started, or, if any radio operation fails at any step, raises that error with the radio disconnected and "
    "nothing left running in the background. A network is formed or restored only when the radio has none and forming was allowed; the newest backup is "
    "restored when one exists. Every network that is formed uses the configured settings where given and otherwise valid identifiers and a channel from the allowed set.",
    ["fault_sequences", "configurations"],
    "every combination of network presence, backup presence, auto-form, validation and feature switches x a failure of each kind at each radio step; all random identifiers at the extremes",
    "Tests fail one or two steps and form with one configuration.",
    ["zigpy/application.py", "zigpy/backups.py", "zigpy/util.py"],
    [("startup", "zigpy/application.py:ControllerApplication.startup/initialize"), ("forming", "zigpy/application.py:ControllerApplication.form_network"), ("channel choice", "zigpy/util.py:pick_optimal_channel")],
    "exhaustive fault enumeration over the startup sequence on a fake radio",
    "fault_enumeration",
    "Every radio step x every listed failure for every configuration in the product.",
)

prop(
    "C24", "Device definitions are matched exactly and deterministically",
    "A device is replaced by a registered definition exactly when its model, manufacturer, endpoints, profiles, device types and both cluster lists all match the definition's signature, and the most recently registered "
    "among the most specific matches wins. The replacement keeps the device's identity, address, descriptor and state, has exactly the endpoints and clusters its definition prescribes, and "
    "matching again changes nothing. Definitions removed or purged no longer match, and ambiguous new-style definitions are reported instead of guessed.",
    ["inputs", "configurations", "histories"],
    "all device signatures within one edit of a definition, all registration orders of overlapping definitions, all removal histories",
    "Tests check selected mismatches.",
    ["zigpy/quirks/__init__.py", "zigpy/quirks/registry.py", "zigpy/quirks/v2/__init__.py"],
    [("registry", "zigpy/quirks/registry.py:DeviceRegistry"), ("signature matching", "zigpy/quirks/__init__.py:signature_matches")],
    "exhaustive enumeration of signatures, registries and registration histories against a reference matcher",
    "exploration",
    "Complete over the stated signature neighbourhood and registry sizes.",
)

prop(
    "C25", "Periodic work runs on schedule and stops when told to",
    "Periodic backups, topology scans, firmware notifications and the watchdog each run at their configured period, survive failures of a run (except that a "
    "watchdog failure is reported as a lost connection once), and never run twice at once. After they are stopped or the application shuts down, at whatever moment, none of "
    "them runs again and no background task remains. Restarting replaces the previous schedule.",
    ["schedules", "fault_sequences"],
    "all placements of stop, restart and shutdown relative to each run's steps, and all outcomes of runs, over several periods",
    "Tests run one or two periods with mocked sleeps.",
    ["zigpy/application.py", "zigpy/backups.py", "zigpy/topology.py", "zigpy/ota/__init__.py"],
    [("loops", "zigpy/backups.py:BackupManager._backup_loop, zigpy/topology.py:Topology._scan_loop, zigpy/ota/__init__.py:OTA.broadcast_loop, zigpy/application.py:ControllerApplication._watchdog_loop")],
    "stateless model checking of the periodic tasks under virtual time with stop at every callback boundary",
    "model_checking",
    "Exhaustive within the stated number of periods and deviation bound.",
)

prop(
    "C26", "No received packet can crash the stack or corrupt other state",
    "Any packet a radio can deliver, from known, uninitialized or unknown devices, to any endpoint, cluster and profile, with any payload bytes, is handled without raising an error to the radio library. It "
    "changes only what its content legitimately changes: a malformed or truncated frame changes nothing but the sender's last-seen time and signal quality, "
    "and other devices, pending requests, groups and caches are untouched. Packets from unknown senders start discovery of that address.",
    ["inputs"],
    "all frame-control and command bytes x all payloads up to the stated length over a boundary alphabet, and every truncation and single-byte change of a valid frame corpus, for each addressing and device state",
    "Tests deliver valid frames and a few literals.",
    ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py", "zigpy/zcl/__init__.py", "zigpy/zdo/__init__.py"],
    [("packet entry", "zigpy/application.py:ControllerApplication.packet_received"), ("device dispatch", "zigpy/device.py:Device.packet_received")],
    "exhaustive bounded enumeration of received byte strings on the real stack with a state-change monitor",
    "exploration",
    "Complete over the stated byte alphabet and lengths.",
)

prop(
    "C27", "Requests from devices are answered correctly and only when due",
    "A ZDO network-address or IEEE-address request that concerns the coordinator, and any match request, is answered once, to its sender, with its transaction number and correct data; every other ZDO message, and address requests about others, are not answered. "
    "Device announcements and address responses update the device they name, whoever sent them. A request to read attributes is answered once with one record per requested attribute, and an attribute report or zone status change gets exactly one default response unless it "
    "disabled it; responses and all other general commands are never answered.",
    ["inputs"],
    "all ZDO request types x addressing x argument variants; all header flag combinations x command kinds x addressing",
    "Tests check single examples.",
    ["zigpy/zdo/__init__.py", "zigpy/zcl/__init__.py"],
    [("ZDO requests", "zigpy/zdo/__init__.py:ZDO.handle_*"), ("default responses", "zigpy/zcl/__init__.py:Cluster.handle_message")],
    "exhaustive enumeration of requests and header combinations on the real stack against a reference responder",
    "exploration",
    "Complete over the stated request product.",
)

prop(
    "C28", "Counters only grow and survive resets of their source",
    "A counter equals the sum of all increments plus the growth of its raw source, never decreases, and treats a raw value below the previous one, or a reset, as a restart of the source. A group "
    "of counters creates each counter on first use, keeps tagged increments in the matching child, and resets all of them together.",
    ["histories"],
    "all operation histories up to the stated depth over increments, raw updates, resets and tags",
    "Tests run short fixed sequences.",
    ["zigpy/state.py"],
    [("counters", "zigpy/state.py:Counter/CounterGroup")],
    "bounded exhaustive histories of the real counters against a reference model",
    "model_checking",
    "Exhaustive to the stated depth and alphabet.",
)

prop(
    "C29", "Install codes and configuration are validated before use",
    "A link key is derived from an install code exactly when the code has a valid length and checksum, and equals the specified hash of the whole code; any single-bit damage is refused. "
    "A configuration is accepted exactly when every setting is in range, values are normalized to one form whatever way they were written, and defaults fill what is missing; normalizing twice changes nothing.",
    ["inputs", "configurations"],
    "all single- and double-bit corruptions of codes of every length; the product of every setting's valid, boundary and invalid values",
    "Tests check a few codes and settings.",
    ["zigpy/util.py", "zigpy/config/__init__.py", "zigpy/config/validators.py"],
    [("install code", "zigpy/util.py:convert_install_code"), ("schema", "zigpy/config/__init__.py"), ("validators", "zigpy/config/validators.py")],
    "exhaustive enumeration of corruptions and settings against reference validators",
    "exploration",
    "Complete over the stated corruption and value sets.",
)

prop(
    "C30", "A deadline timer fires once, at its latest deadline, unless cancelled",
    "A re-schedulable timeout calls its callback exactly once, at the latest deadline it was given, no matter how often and when it is moved earlier or later, and never after being cancelled. "
    "It can be armed again after firing or being cancelled.",
    ["histories"],
    "all histories up to the stated depth of re-arming with several delays, cancelling and letting time pass",
    "Tests use two re-arms.",
    ["zigpy/datastructures.py"],
    [("timer", "zigpy/datastructures.py:ReschedulableTimeout")],
    "bounded exhaustive histories of the real timer under virtual time against a reference model",
    "model_checking",
    "Exhaustive to the stated depth and alphabet.",
)

prop(
    "C31", "Outgoing packets carry the right addressing, options and bytes",
    "Every request sent to a device, group or everyone produces one packet with the destination's current address in the requested mode (a unicast with the coordinator's as source), the given profile, cluster, endpoints, transaction number and priority, and exactly the encoded frame. "
    "Acknowledgement, extended timeout and source route options follow the request, the device type and the configuration, and light-link profile endpoints are addressed with the automation profile except for light-link commissioning commands. Transaction "
    "numbers of consecutive requests to a device do not repeat within 255 requests. A source route names each reported relay once, without the coordinator.",
    ["configurations", "inputs"],
    "the product of request kind, reply expectation, acknowledgement, addressing mode, device type, routing, profile, priority",
    "Tests check a few option combinations.",
    ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py", "zigpy/group.py", "zigpy/zdo/__init__.py", "zigpy/zcl/__init__.py"],
    [("sending", "zigpy/application.py:ControllerApplication.request/mrequest/broadcast"), ("endpoint", "zigpy/endpoint.py:Endpoint.request")],
    "exhaustive enumeration of the option product on the real stack against a reference packet builder",
    "exploration",
    "Complete over the stated product.",
)

prop(
    "C32", "Firmware sources are read faithfully, at most daily, and only those configured",
    "Every entry of a source's index (vendor lists, zigpy and Z2M indexes, remote or local, or a folder of files) is published as exactly one image with the version, manufacturer, "
    "type, models, limits, size, checksum and location that the entry states; entries for gateways, known bricking images and unusable versions are left out without affecting "
    "the others. Error pages, damaged entries and what is no index are refused, and a fetched file that differs from the listed size or checksum is never accepted. A source "
    "is contacted at most once in 24 hours and only for devices of its manufacturers; a device is offered only images that sources for its manufacturer listed when they last "
    "answered, so withdrawn images are not offered any more and a failing source keeps what it listed before. Exactly the sources that the configuration enables are used, with their "
    "addresses and manufacturers, disabled ones not, and an overriding one replaces the earlier ones of its kind.",
    ["inputs", "histories", "configurations"],
    "every entry of a product of field values per index format, alone and in all orders of groups of a spread of up to 3 (thorough: 4) of them, every single damage of an entry, every changed byte and length of a "
    "fetched file, all folders of 11 kinds of file, all histories of queries by two devices, server changes and waits up to depth 5 (thorough: 6), and the product of provider configurations",
    "Tests read one recorded index per vendor, and never a source whose index changes, fails or expires while several devices ask.",
    ["zigpy/ota/providers.py", "zigpy/ota/__init__.py", "zigpy/ota/json_schemas.py"],
    [("index formats", "zigpy/ota/providers.py:BaseOtaProvider"), ("index cache", "zigpy/ota/__init__.py:OTA.get_ota_images"), ("configured sources", "zigpy/ota/__init__.py:OTA._register_providers")],
    "bounded exhaustive enumeration of index entries, damage, folders, histories and configurations of the real providers against an independent reference per format",
    "model_checking",
    "Complete over the stated products and depths; the network session is replaced, so TLS and HTTP themselves are not explored.",
)

prop(
    "C33", "Custom clusters of device definitions talk to the device like others do",
    "A custom cluster of a device definition sends every read, write, reporting configuration and command that concerns something manufacturer-specific, or that belongs to a manufacturer-specific "
    "cluster, with the manufacturer code of the device, whatever else the request contains, and every other one without a code; a code given by the caller wins. Attributes that the definition "
    "declares constant are answered from it and never requested, while the others of the same read are requested once, in order, and each reported with the device's value or failure. "
    "Applying a definition's configuration runs that of each cluster that has one exactly once.",
    ["inputs", "configurations"],
    "every ordered selection of up to 3 (thorough: 4) of 8 kinds of attribute x cluster numbers at the borders of the manufacturer-specific range x source of the code x side x outcome, "
    "every kind of command, every placement of configurations in 5 (thorough: 6) cluster slots",
    "Tests check single attributes and commands.",
    ["zigpy/quirks/__init__.py", "zigpy/zcl/__init__.py", "zigpy/device.py"],
    [("custom clusters", "zigpy/quirks/__init__.py:CustomCluster"), ("configuration", "zigpy/quirks/__init__.py:BaseCustomDevice.apply_custom_configuration")],
    "bounded exhaustive enumeration of requests of custom clusters on the real stack against a reference encoder",
    "exploration",
    "Complete over the stated products.",
)
