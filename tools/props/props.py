p("C01","A failing parallel worker is never lost and never hangs its waiter",
 "Whoever waits for a group of parallel workers returns only after every started worker has finished (or, in the first-error mode, as soon as one failed), and is told about a failure exactly when some worker failed or panicked. Under no interleaving does a waiter hang once all workers finished, does a worker's panic take the process down, or does a goroutine stay blocked behind a finished group. A limited group never runs more workers at once than its limit.",
 ["schedules"],"all interleavings of up to 4 workers that succeed, fail or panic with the waiter, in every wait mode, up to a preemption bound",
 "One schedule per run: the repository has no test of the group at all; lost errors and hangs need a specific interleaving of the last Done with the waiter.",
 ["src/common/util/done_group.go","src/common/graceful/recover.go"],
 [("DoneGroup / LimitDoneGroup","src/common/util/done_group.go"),("Recover","src/common/graceful/recover.go")],["return value of Wait*, goroutine leaks, process survival"])
p("C02","Configured sizes and byte ranges mean what they say",
 "Every textual size (number with unit, any case and spacing the format allows) is read as exactly that many bytes or rejected, printing a size and reading it back gives the same size, and storing and loading it in binary form is lossless. Every byte-range header a client can send is either rejected or yields the exact first and last byte offsets it names.",
 ["inputs"],"all strings of the size and range grammars up to a bound, all boundary sizes around every unit",
 "One test samples three sizes; overflow, lossy printing and malformed ranges are input-specific.",
 ["src/common/datasize/datasize.go","src/common/datasize/msgpack.go","src/common/datasize/yaml_env.go","src/common/request/range.go"],
 [("Parse/String","src/common/datasize/datasize.go"),("GetFirstBytes","src/common/request/range.go")])
p("C03","Everything written to the log, disk or wire decodes to what was encoded",
 "Every record that servers persist or exchange in binary form (metadata, versions, buckets, replicated commands, slot ownership, host statistics) decodes to exactly the value that was encoded, for every field, and decoding truncated or foreign bytes gives an error instead of a crash.",
 ["inputs"],"every field of every record type over boundary values, pairwise, and every truncation of every encoding",
 "No test encodes these records; a dropped or swapped field shows only for the values that differ.",
 ["src/common/proto/msg/metadata_gen.go","src/metaserver/internal/entity/raft_data_gen.go","src/common/hashslot/slot_info_gen.go","src/common/system/system_info_gen.go"],
 [("generated codecs","src/common/proto/msg/metadata_gen.go")])
p("H01","Hash slots always form an exact partition with one owner each",
 "Splitting the slot space, merging ranges and subtracting ranges are exact set operations: the result covers precisely the union respectively difference of its inputs, is sorted, and never changes its inputs' meaning. Whenever ranges of different owners are combined into one routing table, each slot resolves to exactly the owner whose range contains it, overlapping ownership is rejected, and every key hashes to one slot inside the slot space, always the same one.",
 ["inputs","configurations"],"all ordered pairs of range lists over a small slot space, all ownership assignments of a partition, all slot numbers, all split counts",
 "The tests check ten hand-picked lists; ownership holes or overlaps appear for particular adjacent, nested, touching or split ranges.",
 ["src/common/hashslot/hash_slot.go","src/common/hashslot/edge.go"],
 [("WrapSlots, CombineEdges, RemoveEdges, GetSlotIdentify","src/common/hashslot/hash_slot.go")])
p("H02","Slot ownership changes follow one lifecycle and are never half applied",
 "A group's migration state moves only from normal to exactly one of migrating-to or migrating-from and back, any number of concurrent attempts to start one admit exactly one, and an attempt to give slots the group does not own, or to take slots that have an owner, is refused and changes nothing. The ownership record a group publishes always equals what the finished migrations add up to, and survives a restart.",
 ["histories","schedules","fault_sequences"],"all operation sequences up to a depth on two groups, all interleavings of two concurrent operations, a failing coordination store at every call",
 "No test touches the ownership store; it needs two groups, a coordination store and concurrent administrators.",
 ["src/metaserver/internal/usecase/db/hashslot_db.go","src/metaserver/internal/usecase/logic/hashslot_logic.go","src/metaserver/internal/usecase/service/hashslot_service.go"],
 [("HashSlotDB ReadyMigrateTo/From, FinishMigrate*, CancelMigrate*","src/metaserver/internal/usecase/db/hashslot_db.go")])
p("H03","Slot migration moves every record exactly once and loses none",
 "After a successful migration the receiver holds every metadata record, version and bucket record of the moved slots with unchanged content and version numbers, and nothing of slots that were not moved. Whatever message, acknowledgement or write fails, no record is removed at the sender unless the receiver has it, and the migration is reported as failed.",
 ["histories","fault_sequences"],"all small populations of names over moved and unmoved slots, a failure at every message and every write",
 "Needs two metadata groups and a streaming connection that fails at a chosen message.",
 ["src/metaserver/internal/usecase/service/hashslot_service.go","src/metaserver/internal/controller/grpc/hashslot_server.go"],
 [("AutoMigrate, ReceiveItem, FinishReceiveItem","src/metaserver/internal/usecase/service/hashslot_service.go")])
p("H04","A metadata server only answers for keys it may serve",
 "An RPC request for a key, or any modification, is answered by a group only when the group owns the key's slot, except the record hand-over of a running migration; otherwise it is refused without effect. While a group hands over a slot, reads of its keys still work and every kind of modification is refused; a server that is not its group's leader refuses every modification.",
 ["configurations","inputs"],"all combinations of request type, key position, ownership state, migration state and raft role",
 "The tests do not start the access filters; the decision is a product of five dimensions.",
 ["src/metaserver/internal/controller/grpc/middleware.go","src/metaserver/internal/controller/http/middleware.go","src/metaserver/internal/usecase/logic/hashslot_logic.go"],
 [("CheckKeySlot, CheckWritable, interceptors","src/metaserver/internal/controller/grpc/middleware.go")])
p("M01","Object records, versions and buckets behave as one exact versioned store",
 "After any sequence of create, update, delete and list operations on object records, versions and buckets, every read returns what a simple versioned map would return: version numbers of an object rise by one and are not reused while the object has versions, listings are complete, ordered by version number and paged without gaps or repeats, latest means highest number, totals and first and last version are exact. Creation of an existing entry, update or read of a missing one and update with out-of-date data are refused without changing anything; content hash, version number and unique id of a version cannot be changed by an update.",
 ["histories"],"all operation sequences up to a depth over two objects, versions past 10, and two buckets; all pages",
 "The tests need running services and follow one happy path; ordering defects show only past certain counts and orders of operations.",
 ["src/metaserver/internal/usecase/logic/metadata_logic.go","src/metaserver/internal/usecase/logic/bucket_logic.go","src/metaserver/internal/usecase/repo/metadata_repo.go","src/metaserver/internal/usecase/repo/bucket_repo.go","src/metaserver/internal/usecase/service/metadata_service.go","src/metaserver/internal/usecase/service/bucket_service.go"],
 [("AddMeta..GetVer","src/metaserver/internal/usecase/logic/metadata_logic.go"),("MetadataService","src/metaserver/internal/usecase/service/metadata_service.go")])
p("M02","Lookup by content hash finds exactly the live versions with that hash",
 "After any history, asking for a content hash returns every existing version that has this hash, each once and with current content, and nothing else. Moving a shard's location for a hash changes exactly that shard's location in exactly those versions; deleted objects and versions never resurface, and an entry that was deleted can be received again.",
 ["histories"],"all operation sequences up to a depth over objects sharing hashes, including deletion, re-creation, migration in and location updates",
 "The index is maintained at six places and read at two; stale entries need delete and re-create histories.",
 ["src/metaserver/internal/usecase/logic/hash_index_logic.go","src/metaserver/internal/usecase/logic/unique_id_index_logic.go","src/metaserver/internal/usecase/repo/hash_index_repo.go","src/metaserver/internal/usecase/repo/metadata_repo.go","src/metaserver/internal/usecase/service/metadata_service.go"],
 [("HashIndexLogic","src/metaserver/internal/usecase/logic/hash_index_logic.go"),("FindByHash","src/metaserver/internal/usecase/service/metadata_service.go")])
p("M03","A cached read never shows data older than an acknowledged write",
 "Once a write to an object record, version or bucket has been acknowledged by a server, no later read on that server returns the value from before the write, whatever reads run at the same time, whether the write arrived alone, in a batch or by a restored snapshot. Without writes in flight the cached and the stored value agree.",
 ["schedules","histories"],"all interleavings of one or two writers with one or two readers on the same key up to a preemption bound",
 "Races between the fill of a cache after a miss and an invalidation are invisible to sequential tests.",
 ["src/metaserver/internal/usecase/repo/metadata_repo.go","src/metaserver/internal/usecase/repo/metadata_cache_repo.go","src/metaserver/internal/usecase/repo/bucket_repo.go","src/metaserver/internal/usecase/repo/bucket_cache_repo.go","src/common/cache/cache.go"],
 [("MetadataRepo","src/metaserver/internal/usecase/repo/metadata_repo.go"),("BucketRepo","src/metaserver/internal/usecase/repo/bucket_repo.go")])
p("M04","Replicas that apply the same log agree, however it is batched",
 "Applying a sequence of replicated commands one by one, in batches of any shape, or from a snapshot taken at any point followed by the rest, gives the same stored content, and every command gets its own result: success, or the error it would get when applied alone; applying a part of the log again after a restart over the store that already holds it changes nothing. Every acknowledged modification goes through the log. Malformed or unknown commands yield an error and change nothing.",
 ["histories","crash_points"],"all command sequences up to a depth, all ways to split them into batches, a snapshot and restore at every position",
 "No test drives the state machine; batching and snapshot positions are chosen by the raft library at run time.",
 ["src/metaserver/internal/usecase/raftimpl/fsm_impl.go","src/metaserver/internal/usecase/raftimpl/raft_apply.go","src/metaserver/internal/entity/raft_data.go","src/metaserver/internal/usecase/repo/batch_meta_repo.go","src/metaserver/internal/usecase/repo/batch_bucket_repo.go"],
 [("FSMImpl.Apply, ApplyBatch, Snapshot, Restore","src/metaserver/internal/usecase/raftimpl/fsm_impl.go")])
p("M05","Replacing the store keeps serving and survives a restart",
 "Replacing a server's store by a received snapshot either succeeds, after which reads see exactly the snapshot and writes work, or fails and leaves the old content in service; this holds for any number of replacements. After a clean stop and a start on the configured path the last content in service is there again.",
 ["histories","crash_points"],"all sequences of writes, replacements (good, truncated, empty), stops and restarts up to a depth",
 "No test replaces the store; the defects need two replacements or a stop after one.",
 ["src/metaserver/internal/usecase/db/storage.go","src/metaserver/internal/usecase/repo/metadata_repo.go"],
 [("Storage.Replace, Stop, Open","src/metaserver/internal/usecase/db/storage.go"),("Restore","src/metaserver/internal/usecase/repo/metadata_repo.go")])
p("O01","A stored shard reads back byte for byte, whole or by range",
 "A shard uploaded to an object server, plain or compressed, is returned bit-identically by every later read: whole, or exactly the requested byte range of the original content, also repeatedly and after the read cache has been used. A shard that was deleted or never stored is reported as not found, and a delete removes it for every later read.",
 ["inputs","histories"],"all sizes around the alignment and buffer boundaries, plain and compressed, all ranges of a boundary set, repeated and interleaved with deletes",
 "Content, sizes and ranges interact with 4 KiB alignment, compression and the cache; the tests need services and read one file.",
 ["src/objectserver/internal/usecase/service/objects_service.go","src/objectserver/internal/controller/http/objects/objects_rest.go","src/objectserver/internal/controller/http/objects/objects_cache.go","src/objectserver/internal/usecase/service/common.go"],
 [("GetFile, Put, DeleteFile, MvTmpToStorage","src/objectserver/internal/usecase/service/objects_service.go")])
p("O02","A temporary upload becomes one exact shard or nothing",
 "A temporary upload appended in any chunking and then committed becomes a shard with exactly the appended bytes and declared size; before the commit it can be inspected and read back but is not visible as a shard. An aborted, expired, never started or mis-sized upload never becomes a shard and leaves no file behind, and committing the same content twice keeps one intact copy.",
 ["histories","fault_sequences"],"all sequences of create, append, inspect, commit, abort and expiry up to a depth, all chunkings of boundary sizes",
 "The lifecycle spans five requests; order, repetition and sizes are not explored by any test.",
 ["src/objectserver/internal/usecase/service/temp_service.go","src/objectserver/internal/controller/http/temp/temp_rest.go","src/objectserver/internal/controller/http/temp/temp_mid.go","src/objectserver/internal/entity/dto.go"],
 [("temp_rest handlers","src/objectserver/internal/controller/http/temp/temp_rest.go")])
p("O03","Aligned and combined readers deliver exactly the underlying bytes",
 "Reading or writing through the aligned direct-I/O paths, and reading through a combination of several readers, transfers exactly the bytes of the source in order, for every size, buffer size, short read and error position. An error of the source is reported and never turned into extra, missing or zero bytes.",
 ["inputs","fault_sequences"],"all sizes around multiples of the block size, all read sizes, all positions of short reads and errors",
 "Boundary arithmetic on block sizes; no test.",
 ["src/common/system/disk/aligend_reader.go","src/common/system/disk/direct_io_unix.go","src/common/system/disk/multi_reader.go"],
 [("AlignedReader, AligendWriteTo, MultiReader","src/common/system/disk/aligend_reader.go")])
p("O04","The location index of an object server matches what is on its disks",
 "After any history of uploads, commits, deletions and restarts, a server states that it holds a shard exactly when the shard's file is on one of its disks, and resolves the name to the disk that holds it. Listing its contents yields every held shard once.",
 ["histories","schedules"],"all sequences of store, delete, re-scan and lookup up to a depth over two disks, and concurrent pairs",
 "The index, the existence filter and the disks are updated separately; divergence needs histories.",
 ["src/objectserver/internal/db/object_path_cache.go","src/objectserver/internal/usecase/service/objects_service.go","src/objectserver/internal/usecase/service/locate.go","src/objectserver/internal/usecase/component/driver_manager.go"],
 [("PathCache","src/objectserver/internal/db/object_path_cache.go"),("Exist, MarkExist","src/objectserver/internal/usecase/service/objects_service.go")])
p("O05","Capacity and driver accounting equals what is stored",
 "The number of bytes a server reports as stored equals the sum of its shards after any history of stores, duplicate stores, deletions and aborted uploads, and never becomes negative or wraps. Placement chooses only existing drivers and never a driver without enough room while another has it.",
 ["histories","schedules"],"all sequences of store, duplicate store, delete and abort up to a depth; all small driver configurations",
 "Accounting drifts only over histories; nothing tests it.",
 ["src/objectserver/internal/db/object_capacity_db.go","src/objectserver/internal/usecase/service/objects_service.go","src/objectserver/internal/usecase/component/driver_balancer.go","src/objectserver/internal/usecase/component/driver_manager.go"],
 [("ObjectCapacity","src/objectserver/internal/db/object_capacity_db.go"),("DriverManager","src/objectserver/internal/usecase/component/driver_manager.go")])
p("O06","Moving shards between object servers loses and corrupts nothing",
 "When a server hands shards over to another, a shard is removed at the source only after the target stored it with identical content and the metadata points to it. A failure at any message or write leaves the source copy readable and is reported; plans to leave or join never move more than exists and distribute everything.",
 ["fault_sequences","histories"],"all small sets of shards, a failure at every message, write and metadata update, all capacity plans over up to four servers",
 "Needs two servers and failures at chosen messages.",
 ["src/objectserver/internal/usecase/service/migration_service.go","src/objectserver/internal/controller/grpc/migration_server.go"],
 [("MigrationService","src/objectserver/internal/usecase/service/migration_service.go")])
p("A01","Erasure-coded objects survive the loss of any tolerated set of shards",
 "An object stored with erasure coding reads back bit-identically, whole and from every offset, as long as at most as many shards as there are parity shards are missing or unavailable, whichever they are. With more lost shards the read fails with an error and never returns wrong or silently truncated data.",
 ["inputs","fault_sequences"],"all shard layouts in bounds, all subsets of lost shards, all sizes around the block boundaries, all offsets of a boundary set",
 "Loss patterns and offsets are combinatorial; the tests need a cluster and read once.",
 ["src/apiserver/internal/usecase/service/rs_encoder.go","src/apiserver/internal/usecase/service/rs_decoder.go","src/apiserver/internal/usecase/service/rs_get_stream.go","src/apiserver/internal/usecase/service/rs_put_stream.go"],
 [("rsEncoder/rsDecoder","src/apiserver/internal/usecase/service/rs_decoder.go"),("RSGetStream","src/apiserver/internal/usecase/service/rs_get_stream.go")])
p("A02","A degraded read restores lost shards exactly and registers them",
 "Reading an object with missing shards re-creates each missing shard bit-identically on a live server and updates the recorded location of exactly these shards, once. If the repair cannot be stored the read still returns correct data, the recorded locations stay valid and no partial shard remains.",
 ["fault_sequences"],"all subsets of lost shards within tolerance, a failure at each repair request",
 "Repair runs only on degraded reads, beside the read itself.",
 ["src/apiserver/internal/usecase/service/rs_get_stream.go","src/apiserver/internal/usecase/service/rs_decoder.go","src/apiserver/internal/usecase/service/copy_fix_stream.go"],
 [("RSGetStream.Close","src/apiserver/internal/usecase/service/rs_get_stream.go")])
p("A03","Replicated objects read from any surviving copy and heal",
 "An object stored with replication is written identically to every chosen server, reads back bit-identically, whole and from every offset, while at least one copy survives, and after a full read the lost copies, when more are lost than the configured tolerance, are re-created identically on live servers with exactly their locations updated. If no copy survives, the read fails with an error.",
 ["fault_sequences","inputs"],"all copy counts in bounds, all subsets of lost copies, a failure at each request, sizes and offsets of a boundary set",
 "Failure combinations are not reachable by the tests.",
 ["src/apiserver/internal/usecase/service/copy_put_stream.go","src/apiserver/internal/usecase/service/copy_get_stream.go","src/apiserver/internal/usecase/service/copy_fix_stream.go"],
 [("CopyPutStream/CopyGetStream","src/apiserver/internal/usecase/service/copy_put_stream.go")])
p("A04","An acknowledged upload is complete; a failed one leaves no trace",
 "When an upload is acknowledged, every shard or copy the strategy requires is committed with the right bytes, on distinct servers while enough exist, and a version pointing to exactly these locations exists. When any step fails or, with checksums enabled, the content does not match the announced hash, the client gets an error, no version is recorded (only a metadata answer that is lost may leave one, a complete one), and temporary data already sent is discarded.",
 ["fault_sequences"],"a failure at each storage and metadata request of an upload, for every strategy and layout in bounds",
 "Each single fault position is a separate run against a cluster.",
 ["src/apiserver/internal/usecase/service/object_service.go","src/apiserver/internal/usecase/service/put_stream.go","src/apiserver/internal/usecase/service/rs_put_stream.go","src/apiserver/internal/usecase/service/copy_put_stream.go","src/apiserver/internal/usecase/service/temp_stream.go"],
 [("ObjectService.StoreObject","src/apiserver/internal/usecase/service/object_service.go"),("streamToDataServer","src/apiserver/internal/usecase/service/object_service.go")])
p("A05","A resumed upload equals an uninterrupted one",
 "A large upload sent in any number of parts, interrupted anywhere and resumed at the offset the server reports, yields the same object as one uninterrupted upload. The reported offset never exceeds what can be recovered, parts sent at a wrong offset are refused, and a corrupted or mismatching content is never published.",
 ["histories","fault_sequences"],"all splits of boundary sizes into parts, an interruption after each part, wrong offsets and tokens",
 "Interruptions at block boundaries times resume offsets; one path is tested at most.",
 ["src/apiserver/internal/usecase/service/rs_resumable_stream.go","src/apiserver/internal/controller/http/big_api.go"],
 [("RSResumablePutStream","src/apiserver/internal/usecase/service/rs_resumable_stream.go"),("BigObjects handlers","src/apiserver/internal/controller/http/big_api.go")])
p("A06","Bucket policy decides what an upload stores and which versions remain",
 "The bucket's settings decide every upload: a read-only bucket refuses writes, the bucket's strategy, shard counts and compression override the request, and after an upload at most the configured number of newest versions remains (one without versioning or when none is configured) while newer ones are never removed. An upload whose content already exists stores no new data but always yields a version reading back the same bytes.",
 ["histories","configurations"],"all bucket settings in bounds times upload sequences up to a depth",
 "Policy combinations and histories of uploads.",
 ["src/apiserver/internal/usecase/service/object_service.go","src/apiserver/internal/usecase/service/meta_service.go","src/apiserver/internal/entity/metadata.go","src/apiserver/internal/controller/http/objects_api.go"],
 [("MetaService.SaveMetadata, StoreObject","src/apiserver/internal/usecase/service/object_service.go")])
p("A07","Only authorised requests get through",
 "With authentication enabled a protected request is served exactly when at least one configured mechanism accepts its credentials, for all other requests it is refused and the handler does not run; with authentication disabled all pass. What a mechanism is asked about (bucket, name, method and version) is what is then served, and malformed credentials are refused without crashing.",
 ["inputs","configurations"],"all combinations of mechanisms, their verdicts and malformed credentials",
 "No test sends a bad credential.",
 ["src/apiserver/internal/usecase/componet/auth/auth_middleware.go","src/apiserver/internal/usecase/componet/auth/password_validator.go","src/apiserver/internal/usecase/componet/auth/callback_validator.go"],
 [("AuthenticationMiddleware","src/apiserver/internal/usecase/componet/auth/auth_middleware.go")])
p("A08","Shards of one object are placed on distinct live servers",
 "Choosing servers for an object returns exactly the requested number whenever enough exist, all of them known and live, without repeating a server before every server has been used once, and refuses when there is none. Selection never alters the cluster view it was given.",
 ["inputs","configurations"],"all server counts, exclusions, statistics and request counts in bounds, all random outcomes",
 "Random choice hides wrong distributions from a sampled test.",
 ["src/apiserver/internal/usecase/componet/selector/selectors.go","src/apiserver/internal/usecase/componet/selector/random_selector.go","src/apiserver/internal/usecase/componet/selector/space_first_selector.go","src/apiserver/internal/usecase/componet/selector/weighted_io_first.go","src/apiserver/internal/usecase/logic/discovery_logic.go"],
 [("IPSelector","src/apiserver/internal/usecase/componet/selector/selectors.go")])
p("R01","The view of live servers equals the registrations",
 "After any sequence of servers registering, renewing, changing role and leaving, every process's view lists exactly the registered servers with their current addresses, each in the right group and role. A process whose registration expires or fails registers itself again, and a clean shutdown removes it.",
 ["histories","schedules","fault_sequences"],"all event sequences up to a depth, every interleaving with readers up to a bound, a failing coordination store at every call",
 "Event orders and lease loss do not occur in tests.",
 ["src/common/registry/etcd_discovery.go","src/common/registry/service_list.go","src/common/registry/etcd_registry.go","src/common/registry/etcd_lifecycle.go"],
 [("EtcdDiscovery, serviceList","src/common/registry/service_list.go"),("Lifecycle","src/common/registry/etcd_lifecycle.go")])
p("P01","Every recorded performance sample is counted exactly once",
 "Every sample handed to the collector (at once or asynchronously) ends up exactly once in the store after the next successful flush, under any interleaving of recording, flushing, the flushing timer, failing stores and closing; only without flush-when-reached are the oldest samples beyond max-in-memory dropped. Stored samples are returned, counted, averaged, summed and cleared exactly as asked by kind and action, whatever the names and whatever was put and cleared before; a failing etcd request is reported, and repeating the operation completes it. The etcd store keeps only its allowed actions and never more than the newest 100000 samples.",
 ["schedules","histories"],"all interleavings of two recorders with flush and close up to a bound, all store operation sequences up to a depth",
 "Races between recorder and flusher.",
 ["src/common/performance/collector.go","src/common/performance/local_store.go","src/common/performance/store.go","src/common/performance/etcd_store.go"],
 [("Collector","src/common/performance/collector.go"),("localStore","src/common/performance/local_store.go")])
p("D01","The console's merged lists are the union of the groups' lists",
 "Listing objects or buckets across several metadata groups (optionally by a bucket and a prefix of the name) returns every entry of every group exactly once, in the order of bucket and name, whatever the names and however the entries are spread over the groups; pages neither skip nor repeat entries, and the total is the sum of the groups, also past the last page. If one group fails, the error is reported instead of a silently shortened list. Slaves are not asked.",
 ["inputs","fault_sequences"],"all distributions of entries over up to three groups, all pages and orders, a failure of each group",
 "Needs several groups and partial failures.",
 ["src/adminserver/internal/usecase/logic/metadata_logic.go"],
 [("Metadata.MetadataPaging, BucketPaging","src/adminserver/internal/usecase/logic/metadata_logic.go")])
p("S01","The console's statistics are those the running servers publish",
 "While a server runs and the coordination store works, it publishes its statistics at least once a minute under its own key and present lease, so that they vanish when it stops, crashes or loses its lease; after a stop nothing is published any more, and a stop never hangs. The console shows for every registered server the statistics it published last (zeros while there are none or they are malformed) and reports a failing store; its time lines hold the newest 59 samples of each server in the order published, each once, including everything published while it follows, through refused and hanging requests and broken watches, and can be read at any time. A malformed record never affects another server, and servers and services whose names are prefixes of one another are not mixed up.",
 ["fault_sequences","time","interleavings"],"all histories of publications, faults and broken watches up to a depth, in virtual time",
 "Needs lost leases, broken watches and failures between requests.",
 ["src/adminserver/internal/usecase/db/server_stat_db.go","src/adminserver/internal/usecase/logic/server_monitor.go","src/common/system/syncer.go"],
 [("StatSyncer","src/common/system/syncer.go"),("ServerStatDB","src/adminserver/internal/usecase/db/server_stat_db.go"),("ServerMonitor","src/adminserver/internal/usecase/logic/server_monitor.go")])
p("N01","Malformed requests are refused without effect",
 "A request to the object, metadata or api server in which a required parameter is missing, or a parameter of the path, query, header or body is of the wrong type, out of its documented range, cannot be decoded, or names what no stored thing may be named, is answered with an error status and changes nothing: no shard, object, version, bucket, index entry, temporary upload, file or accounting, whichever other parameters are well-formed or malformed with it; it is never carried out with another value in place of the malformed one. Whatever was in progress can be finished afterwards as if the request had not been made.",
 ["inputs"],"all combinations of up to a number of malformed parameters of every route, each from a set of malformed values, in several states of the server",
 "Every route binds its parameters from several sources; a test tries a few malformed requests of a few routes and looks at the status, not at what they left.",
 ["src/objectserver/internal/controller/http","src/metaserver/internal/controller/http","src/apiserver/internal/controller/http","src/objectserver/internal/usecase/service/service.go","src/metaserver/internal/usecase/logic"],
 [("request binders and entities","src/objectserver/internal/entity"),("GetQryInt","src/common/request/request.go"),("BindAll","src/objectserver/internal/entity/binder.go")])
p("E01","The console relays operations faithfully",
 "An operation requested at the console (upload, download, list of versions, creating, changing and deleting a bucket, login, configuration, migration of slots, joining and leaving a cluster, peers) is carried out by a registered server of the right kind exactly once, for exactly the object, bucket, version, page, servers and slots named, whatever characters the names have, and with the credential of that very user: that of the request, else the one last given in the same session; after a logout or without any credential the protected operations are refused and nothing is asked of a server. The answer tells the truth: success exactly when the server did it, with the content and totals it gave; its refusals with their status and reason; unreachable, failing or interrupted servers as errors, and a download that breaks off never looks complete. Several users at once do not influence one another.",
 ["inputs","fault_sequences","histories","interleavings"],"all operations x names x credentials x failures, all histories of a session up to a depth, all pairs of two users' operations",
 "Needs unusual names, lost credentials, failures at the right point and two users at once.",
 ["src/adminserver/internal/usecase/webapi/api_server.go","src/adminserver/internal/controller/http","src/adminserver/internal/usecase/logic"],
 [("webapi","src/adminserver/internal/usecase/webapi/api_server.go"),("SaveToken, GetAuthToken","src/adminserver/internal/controller/http/auth.go"),("getConn","src/adminserver/internal/usecase/logic/conn.go")])
