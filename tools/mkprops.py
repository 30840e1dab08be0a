#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the file stays valid JSONL).
import json,os
P=[]
D='internal/infra/delta/'; I='internal/infra/index/'; R='internal/infra/recdb/'; M='internal/domain/'; H='internal/helpers/'; A='internal/api/shard/'
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],
                 "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "observe_at":list(observe),"hook_needed":None}})
p("C01","The delta log answers with the latest operation of every user-item pair",
 "After any sequence of recording add and remove operations, flushing, closing and reopening a delta log, looking up a user-item pair returns the operation recorded last for that pair, no matter whether any of the operations have been flushed. A pair no operation was ever recorded for is reported as absent.",
 ["histories","inputs"],"every sequence of add/remove/flush/close/reopen over any user and item identifiers, on in-memory and real files",
 "The tests look up three hand-picked pairs after a single add or a single close; they never mix flushed and unflushed operations of one user nor override a flushed operation.",
 [D+"storage.go",D+"storagefactory.go"],[("lookup in unflushed then flushed operations",D+"storage.go: Get"),("recording with replacement of the pending operation",D+"storage.go: Add"),("loading the log",D+"storagefactory.go: Open")],
 [("deltaCache/newDelta","flushed and pending operations by user",D+"storage.go")],["Get after every step"])
p("C02","Delta log counters, reported size and file contents agree with the history",
 "At every point of any history the user count is the number of distinct users having recorded operations, and the item total is the number of log records: those flushed or loaded before plus one for every distinct pair recorded since the last flush. After a flush the file is exactly as long as the reported size, and both then and after a close it holds exactly those records, each intact, every flush adding its own after the previous ones. Using a delta log affects nothing but its file: nothing is printed.",
 ["histories"],"every history of add/flush/close/reopen, checked after every step",
 "Tests check the counters for at most three operations and never compare the file with the counters after a flush.",
 [D+"storage.go"],[("counters",D+"storage.go: GetUserCount, GetTotalItemCount, GetFileSize"),("append offset and header rewrite",D+"storage.go: flushEntries, flushHeader")],
 [("totalItemCount/unflushedItemCount","log records in all / not yet written",D+"storage.go")],["counters after every step","file bytes decoded by an independent reader","stdout/stderr"])
p("C03","A crash never loses flushed delta operations nor invents operations",
 "If the process is killed at any moment of any history of a delta log (between any two file operations, in the middle of a write, and again during recovery itself), opening the log with recovery succeeds. For every pair the recovered log answers with an operation that was recorded, not older than the last successfully flushed one, and contains no pair that was never recorded. The recovered log is fully usable: it can be extended, closed and reopened.",
 ["crash_points","histories"],"every prefix of the sequence of file modifications of every history, the last write cut at any byte; repeated for the modifications made by recovery",
 "Tests recover two hand-written byte strings; they never produce the states a killed process leaves behind.",
 [D+"storage.go",D+"storagefactory.go",D+"protocol.go"],[("lock mark written on open, cleared on close",D+"protocol.go: WriteLocked"),("recovery of a locked or cut file",D+"storagefactory.go: OpenMaybeRecover, Recover"),("flush order",D+"storage.go: Flush")],
 (),["OpenMaybeRecover over every crash image"])
p("C04","Recovery turns any bytes into exactly the intact records they hold",
 "For any file contents, recovering a delta log neither fails nor panics and leaves a well-formed, unlocked log that holds exactly the intact records of the input in their original order, whatever record count the damaged header claims. A record is intact if it is complete, lies at a record boundary, is an add or a remove, and its checksum matches; contents that do not start with a complete delta header hold no records. Recovering once more changes nothing, and opening arbitrary contents without recovery never panics nor takes memory in proportion to a mere count in their header.",
 ["inputs"],"every byte string: truncated, bit-flipped, zero-filled, garbage, wrong prefix, wrong counts",
 "Tests recover a handful of literals (cut prefix, cut header, cut entry, one bad checksum).",
 [D+"protocol.go",D+"storagefactory.go"],[("scan keeping valid records",D+"protocol.go: RecoverTo"),("in-place rewrite and truncation",D+"storagefactory.go: Recover"),("record checksum",D+"protocol.go: CalcEntryChecksum")],(),["file bytes after Recover"])
p("C05","Failing file operations never lose, duplicate or corrupt delta operations",
 "If a write, a partial write or a seek fails while a delta log is being flushed or closed, the error is reported, every operation stays readable, and once a later flush or close succeeds the file holds each of them exactly once per flush. A read, seek or write failure during opening or recovery is reported, and never makes intact records disappear from the file.",
 ["fault_sequences","histories"],"any sequence of injected I/O failures (after any number of bytes) over any history, with retries",
 "No test injects an I/O failure.",
 [D+"storage.go",D+"storagefactory.go",D+"protocol.go"],[("retriable flush at a computed offset",D+"storage.go: flushEntries"),("errors propagated",D+"storage.go: Flush, Close"),("read errors told from the end of file",D+"protocol.go: RecoverTo")],(),["Get, counters, file bytes after the retry"])
p("C06","A file not closed properly is always recognised by its lock mark",
 "Delta log and index files are marked locked from the moment they are opened until they are closed properly, and only then unlocked. Opening a locked file without recovery is refused, for index and recommendation database files with the file-corrupted error, and the refusal changes no byte of it. Setting or querying the lock mark of any of the three file kinds changes no other byte and keeps the file position, or reports the file operation that failed.",
 ["histories","inputs"],"every history of the storages, every position and contents of the file, all three file kinds",
 "Tests check the mark once after open and once after close of an empty file, and never check the position or the other bytes of larger files.",
 [D+"protocol.go",D+"storagefactory.go",I+"protocol.go",I+"storage.go",R+"protocol.go",R+"iterator.go"],[("lock byte",D+"protocol.go: WriteLocked, IsLocked"),("lock byte",I+"protocol.go: WriteLocked, IsLocked"),("lock byte",R+"protocol.go: WriteLocked, IsLocked"),("refusal",I+"storage.go: load; "+R+"iterator.go: NewIterator")],
 [("locked","the header byte telling that the file has not been closed properly",D+"protocol.go: Header.Locked")],["file bytes after every step"])
p("C07","The index is a durable map",
 "An index behaves as a map from 64-bit identifiers to 64-bit positions under any sequence of putting, overwriting, removing and looking up, and a properly closed index opened again holds exactly the same mapping, including after it has shrunk or become empty. Removing an absent identifier is harmless.",
 ["histories","inputs"],"every sequence of put/remove/get/close/reopen over any identifiers and positions",
 "Tests put and remove one or two identifiers and compare literal files.",
 [I+"storage.go",I+"storagefactory.go",I+"protocol.go"],[("in-memory map",I+"storage.go: Get, Put, Remove"),("saving on close, loading on open",I+"storage.go: Close, load")],
 [("indices","the mapping",I+"storage.go")],["Get after every step and after reopening"])
p("C08","A crashed or failed index is reported as corrupted, never silently wrong",
 "If the process is killed at any moment of the life of an index, or any of its file operations fails, the next opening either yields exactly the mapping of the last proper close or of the close that was in progress, or an empty index if the file is empty, or fails with the file-corrupted error. It never yields any other mapping, a failed close is reported as an error, and neither a failed opening nor a close leaves the underlying file open.",
 ["crash_points","fault_sequences","histories"],"every prefix of the file modifications of every history, the last write cut at any byte; any injected write or seek failure",
 "No test interrupts or fails a close.",
 [I+"storage.go",I+"storagefactory.go",M+"errors.go"],[("unlock as the last step of closing",I+"storage.go: Close"),("cut or locked file is corrupted",I+"storage.go: load"),("error kind",M+"errors.go")],(),["Open over every crash image"])
p("C09","Recommendation database entries survive a round trip within their capacity",
 "Any user profile written as a database entry of a sufficient capacity is read back equal, occupies exactly its capacity with the free space zero-filled, and the reported byte counts equal those consumed and produced, so entries can follow each other. An entry that does not fit its capacity, or carries something else than a profile, is refused before anything is written, and a write that fails is reported. The predicted size is the minimal sufficient capacity, and the recommended capacity is never less than that nor than the minimal one.",
 ["inputs"],"every profile (any identifiers, any list lengths), deletion mark and capacity; sequences of entries",
 "Tests write and read one literal entry.",
 [R+"protocol.go",R+"likeprotocol.go",H+"io.go"],[("entry codec",R+"protocol.go: WriteEntry, ReadEntry; "+R+"likeprotocol.go"),("capacity prediction",R+"protocol.go: PredictEntrySize, PredictEntryCapacity")],(),["bytes written, entries read back"])
p("C10","Malformed recommendation database bytes are rejected cleanly",
 "Reading an entry from any bytes never panics, consumes exactly the declared capacity when it succeeds, and never allocates memory out of proportion to the bytes actually present. It succeeds exactly if the bytes hold a complete entry whose lists fit its declared capacity, and then yields the contents they encode; otherwise it fails with an error. Prefixes and headers that are cut or, for prefixes, foreign are rejected likewise.",
 ["inputs"],"every byte string, with list lengths and capacities up to the 32-bit limit",
 "Tests read one well-formed literal.",
 [R+"protocol.go",R+"likeprotocol.go",H+"io.go"],[("bounds of list lengths",R+"likeprotocol.go: readItems, ReadEntryData"),("skipping free space",H+"io.go: SkipReading")],(),["result, bytes consumed, memory allocated"])
p("C11","Scanning a database sees every entry; rewriting one affects only that one",
 "Iterating a database yields every entry in file order, however large the entries and the file are, and exactly as many as the header tells; rewinding at any moment starts over. Rewriting the entry read last, any number of times, changes exactly that entry's bytes in the file and the scan goes on with the following entry. Rewriting before anything has been read, with a different capacity or with contents that do not fit fails and leaves the file and the scan intact, and a failing file operation is never taken for a success, harms at most the entry being rewritten and does not derail the scan.",
 ["histories","inputs"],"every database and every interleaving of next, rewind and rewriting",
 "Tests iterate two tiny entries; the whole file fits the read buffer, so buffering effects are never seen beyond that.",
 [R+"iterator.go"],[("buffered scan with a tracked offset",R+"iterator.go: Next, Rewind"),("in-place rewriting",R+"iterator.go: SetPrevious")],
 [("fileOffset/entryIndex","scan position",R+"iterator.go")],["entries yielded, file bytes"])
p("C12","A profile holds each item once, either liked or disliked, as last told",
 "After any sequence of liking, disliking, un-liking, un-disliking and removing items, a profile qualifies every item according to the last effective action on it: liked, disliked or unknown. Its liked and disliked lists are strictly ascending and share no item.",
 ["histories","inputs"],"every sequence of actions over any 64-bit item identifiers",
 "Tests apply one or two actions to tiny lists.",
 [M+"profile.go",H+"arrays.go"],[("mutually exclusive sorted lists",M+"profile.go: Like, Dislike, Unlike, Undislike, RemoveItem, QualifyItem"),("sorted insertion",H+"arrays.go: PutSavingOrder")],(),["QualifyItem and the lists after every step"])
p("C13","Similarity of profiles is a sound metric",
 "The similarity of two profiles equals 100 times (common likes + f * common dislikes) / (all distinct likes + f * all distinct dislikes), f being the dislike factor from 0 to 1, and is 0 if there is nothing to compare. Hence it is a finite number within 0 and 100, symmetric, 100 for a non-empty profile compared with itself (with f above 0), and independent of the users' identifiers; computing it changes neither profile.",
 ["inputs"],"every pair of profiles and every dislike factor within [0, 1], within single precision rounding",
 "Tests compare two or three literal pairs with whole factors.",
 [M+"profile.go"],[("weighted set similarity",M+"profile.go: ComputeSimilarity")],(),["ComputeSimilarity"])
p("C14","Sorted-list operations find, insert and remove correctly for every list",
 "For any ascending list: searching finds an equal element exactly if there is one, nearest search finds an element at the minimal distance, inserting keeps the list ordered and adds exactly one element, putting adds an element only if it is missing, and removing by position drops exactly that element. The order-preserving operations keep the relative order of the rest, and unordered ones keep exactly the other elements.",
 ["inputs"],"every ascending list, with and without duplicates, of every element type the operations accept, and every needle",
 "Tests use a few literal lists without duplicates and only odd corner positions.",
 [H+"arrays.go"],[("binary searches",H+"arrays.go: BinaryIndexOf, BinaryIndexOfClosest"),("insertion and removal",H+"arrays.go: Insert, InsertSavingOrder, PutSavingOrder, Remove, RemoveSavingOrder")],(),["results"])
p("C15","The namespace registry behaves as a map with unique names",
 "Under any sequence of creating, updating (renaming and changing settings), deleting and looking up namespaces, the registry behaves as a map keyed by name: creating fails exactly if the name is taken, updating fails exactly if the namespace does not exist or the new name belongs to another one, deleting fails exactly if it does not exist. A failed request changes nothing, a successful one changes exactly the namespace concerned, and the default limit of similar profiles applies whenever none is given.",
 ["histories"],"every sequence of registry requests over any valid names and settings, including renaming to itself and reusing freed names",
 "There are no tests of the registry at all.",
 [M+"namespaceservice.go",M+"likenamespace.go"],[("uniqueness checks",M+"namespaceservice.go: CreateNamespace, UpdateNamespace, DeleteNamespace"),("settings",M+"likenamespace.go: Rename, SetMaxSimilarProfiles, SetDislikeFactor")],
 [("namespaces","the registered namespaces",M+"namespaceservice.go")],["lookups and the list after every step"])
p("C16","Registered namespaces survive restarts and crashes",
 "After every successful create, update or delete, a fresh instance started on the same data directory has exactly the same namespaces with the same names, types, limits and dislike factors, and can go on from there. At no moment, even in the middle of a request, does the saved registration hold anything but the state before or after that request. The registration is a JSON array of records, each having the name, the type, maxSimilarProfiles and dislikeFactor of a namespace, so one saved by another version is loaded just so. Loading a missing or damaged registration reports an error and leaves the registry as it was.",
 ["histories","crash_points"],"every request history with a restart after any request; a reader looking at the data directory at any moment; every damaged file",
 "There are no tests of persistence.",
 [M+"namespaceservice.go"],[("saving after every change, replacing the file as a whole",M+"namespaceservice.go: saveNamespaces"),("loading",M+"namespaceservice.go: LoadNamespaces, restoreNamespace")],
 [("namespaces.json","the saved registration",M+"namespaceservice.go")],["a fresh service's list","the file contents"])
p("C17","A change that cannot be saved is refused and leaves no trace",
 "If saving fails (the data directory is missing or the disk is full at any point of the file) the create, update or delete request fails, the registry stays exactly as it was before the request, the registration saved earlier stays intact and loadable, and no file that was not there before is left behind. A namespace whose deletion failed keeps running, and once the fault is gone the same request succeeds.",
 ["fault_sequences","histories"],"every request at every point of every history, with saving failing after any number of bytes",
 "No test makes saving fail.",
 [M+"namespaceservice.go"],[("roll back on failure",M+"namespaceservice.go: CreateNamespace, UpdateNamespace, DeleteNamespace"),("temporary file and rename",M+"namespaceservice.go: saveNamespaces")],(),["registry and file before and after the failed request"])
p("C18","The HTTP API accepts every valid request and rejects every invalid one",
 "Every well-formed namespace request with a valid lower-case alphanumeric name starting with a letter, the known type, a dislike factor from 0 to 1 inclusive and an optional limit is carried out, and its effect is visible through the following requests and reported in the response. Any other request, however malformed, is answered with a 4xx status and changes nothing; no request makes the service panic, answer with a 5xx status or hang. Reading requests change nothing.",
 ["inputs","histories"],"every sequence of HTTP requests: any method bodies, JSON of any shape, any path parameters, boundary values",
 "There are no tests of the HTTP API.",
 [A+"endpoints/namespaceendpoint.go",A+"endpoints/helpers.go",A+"dto/namespacecreaterequest.go",A+"dto/namespaceupdaterequest.go",A+"dto/namespaceresponse.go",A+"application.go"],[("request validation",A+"dto/namespacecreaterequest.go; "+A+"dto/namespaceupdaterequest.go"),("routing and status mapping",A+"endpoints/namespaceendpoint.go")],(),["HTTP responses and the registry"])
p("C19","Concurrent API requests are as good as executed one at a time",
 "Whatever requests arrive concurrently, their success or failure and the final list of namespaces are the same as if they had been executed one after another in some order consistent with real time: no update is lost and no name is ever taken twice. A namespace no request is about is in every list, once and as it is. The saved registration then equals the final list, and there are no data races, panics or deadlocks.",
 ["schedules","histories"],"concurrent batches of create, update, get and list requests under many schedules",
 "There are no concurrent tests; the race detector is not used.",
 [M+"namespaceservice.go",M+"likenamespace.go",A+"endpoints/namespaceendpoint.go"],[("registry lock",M+"namespaceservice.go: rwLock"),("namespace settings lock",M+"likenamespace.go: rwLock")],(),["response statuses, final list, saved file, race detector"])
p("C20","Every request to a running namespace gets exactly its own reply",
 "Every like, dislike, item or profile deletion, profile, similarity and recommendation request to a running namespace reaches the storage exactly once with its own arguments, in the order of arrival, and returns the reply the storage gave to that very request, be it a value or an error. Requests that queue up are processed together in one batch after a short fixed delay. If the storage fails to process a batch, every request left without a reply gets that error instead of waiting forever.",
 ["histories","schedules","fault_sequences"],"every sequence of requests of every kind from any number of clients at any times, with any storage replies",
 "There are no tests of running namespaces.",
 [M+"likenamespace.go",M+"actions.go",R+"likestorage.go"],[("action queue and worker",M+"likenamespace.go: Start, perform, enqueue"),("typed reply channels",M+"likenamespace.go: GetProfile, GetSimilarProfiles, RecommendItems")],
 [("action","queue of requests",M+"likenamespace.go")],["replies and the batches seen by the storage, in virtual time"])
p("C21","Namespaces start and stop cleanly whatever the order of events",
 "Starting a namespace opens its storages exactly once or fails with an error leaving none of those it opened open; starting twice, after a stop, or without a like storage fails. After a stop or a cancellation, however often and whenever it comes, the namespace closes each of its storages exactly once, the like storage before those it depends on, and every request not served by then, pending or later, fails instead of blocking. None of these calls blocks or panics.",
 ["schedules","histories","fault_sequences"],"every interleaving of start, stop, cancellation and requests at any times, with any of the storages failing to open",
 "There are no tests of the namespace life cycle.",
 [M+"likenamespace.go"],[("life cycle",M+"likenamespace.go: Start, Stop"),("failing pending requests",M+"likenamespace.go: perform, enqueue")],
 [("stop/stopped","stop request / the worker is gone",M+"likenamespace.go")],["storage open/close events, replies, in virtual time"])
p("C22","A namespace restarted after a crash continues with its surviving data",
 "Starting a namespace over the files left by a killed process succeeds: its delta log has all operations flushed before and none that was never recorded, its index is empty if it had not been closed properly and the last saved mapping otherwise, and its database file is handed to the like storage as that left it. A properly stopped namespace finds all its delta operations and its whole index when started again. A file that is not an index, and not too short to be told from a cut one, makes the start fail and is left untouched.",
 ["crash_points","histories"],"every state of the namespace's files: closed, killed at any file operation, cut at any byte, over several generations",
 "No test starts a namespace.",
 [M+"likenamespace.go",D+"storagefactory.go",I+"storagefactory.go"],[("delta recovery on start",M+"likenamespace.go: openMaybeRecoverDeltaStorage"),("index reset on start",M+"likenamespace.go: openMaybeResetIndexStorage")],(),["storages handed to the like storage"])
p("C23","The in-memory file behaves as a real file",
 "Under any sequence of reads, writes, seeks and truncations that stay within the file, the in-memory file used for recovery returns the same results and holds the same contents as a regular file. Seeking outside of the contents is refused without moving, and every operation on a closed one fails.",
 ["histories","inputs"],"every sequence of operations with any sizes and offsets, compared with an operating system file",
 "There is no direct test of it.",
 [H+"file_buffer.go"],[("buffer and offset",H+"file_buffer.go")],(),["results and contents after every step"])
p("C24","File formats stay byte-compatible",
 "The prefixes, headers and records of the delta log, the index and the recommendation database are written exactly in the documented big-endian layout, and everything in that layout is read back to the same values, whatever the field values are. A newly created database is a valid empty one. Cut or foreign prefixes, cut headers or records and failing transfers are reported as errors.",
 ["inputs"],"every value of every header and record field; every cut point",
 "Tests encode one literal per structure.",
 [D+"protocol.go",I+"protocol.go",R+"protocol.go",R+"likeprotocol.go"],[("codecs",D+"protocol.go; "+I+"protocol.go; "+R+"protocol.go"),("database creation",R+"protocol.go: Create")],(),["bytes, against an independent codec"])
p("C25","Namespace names are safe and namespaces never share files",
 "A name is accepted exactly if it is a Latin letter followed by any number of Latin letters, digits, underscores and hyphens, and the accepted value is the given one; likewise the only accepted type is the known one. A started namespace creates its files in the configured data directory only, each namespace having files of its own named after it.",
 ["inputs"],"every string, including separators, control characters, non-Latin letters and line breaks; every data directory spelling",
 "There are no tests of names.",
 [M+"valueobjects/namespacename.go",M+"valueobjects/namespacetype.go",M+"likenamespace.go",M+"namespaceservice.go"],[("name validation",M+"valueobjects/namespacename.go"),("file paths",M+"likenamespace.go; "+M+"namespaceservice.go: NewNamespaceService")],(),["validation results, files created"])
p("C26","Any environment yields a usable configuration",
 "For any values of the host and port variables the configuration takes each variable if it is set to a usable value (a non-empty host, a non-negative whole decimal port), and otherwise the given default, or the built-in one if none is given. The listening address is the host and the port joined with a colon, and nothing panics.",
 ["configurations","inputs"],"every value of the environment variables and defaults",
 "There are no tests of the configuration.",
 [A+"config.go"],[("environment lookup",A+"config.go: NewConfigFromEnv, GetHostPort")],(),["resulting configuration"])
p("C27","Zero-filling and skipping transfer exactly the requested number of bytes",
 "Zero-filling writes exactly the requested number of zero bytes, and skipping consumes exactly the requested number of bytes, however the underlying stream splits its transfers; the returned count is the number of bytes actually transferred. A failing stream makes them return its error, except when everything requested has been transferred. Concurrent uses do not affect each other.",
 ["inputs","fault_sequences","schedules"],"every size, every chunking of the stream and every failure point",
 "There are no tests of these; streams in other tests never split transfers.",
 [H+"io.go"],[("chunked loops",H+"io.go: WriteZeros, SkipReading")],(),["bytes transferred, counts, errors, race detector"])
p("C28","The service process serves, survives being killed, and shuts down on request",
 "The service process answers API requests on the configured address (the environment takes precedence over the .env file), and after being killed at any moment and started again lists every namespace whose creation or last update was acknowledged, with nothing that was never requested. Asked to by a termination or interrupt signal it still answers the requests it is receiving and terminates in time, with a success status unless some request never ends; it terminates with an error if it cannot listen on its address, or if the saved registration exists but cannot be loaded, which it then leaves as it is.",
 ["crash_points","histories","configurations"],"every history of requests, kills and graceful terminations of the real process, every damaged registration",
 "No test runs the process.",
 ["main.go",A+"application.go",A+"config.go",M+"namespaceservice.go"],[("start-up wiring",'main.go: runShard'),("listening and graceful shutdown",A+"application.go: Run")],(),["HTTP responses and exit status of the process"])
p("C29","Opening a database by its path yields a valid database or a clean failure",
 "Opening a recommendation database by its path yields, from its beginning, the file found there with its contents untouched, or a newly created valid, empty and unlocked database of the protocol's entry type if there is none. A creation that fails (no directory, a disk full at any byte, no free descriptors) is reported, and neither it nor a process dying in the middle of it leaves anything that would be taken for a database: the next opening succeeds as if it were the first. Databases of different paths opened at the same time are opened as if alone. No descriptors are left open but that of the returned file.",
 ["fault_sequences","crash_points","histories"],"every sequence of openings over missing and existing files with any contents, with failures and crashes after any number of bytes",
 "There are no tests of it.",
 [R+"protocol.go"],[("opening or creating a file",R+"protocol.go: OpenOrCreateFile, Create")],(),["the returned file, the file at the path, the directory"])
p("C30","A refused API request is told what is wrong with it",
 "Every refused namespace request is answered with a JSON object that explains the refusal: a non-empty message, or a list of validation errors each naming a field and saying something about it. If a well-formed body has invalid fields, the list names at least one of them, all the missing ones, none twice and no valid one. Creations are answered with 201, other successes with 200, requests about a namespace that does not exist with 404, and malformed bodies, invalid fields and invalid names in the path with 400.",
 ["inputs","histories"],"every combination of valid, invalid and missing fields, malformed bodies and paths, over any set of registered namespaces",
 "There are no tests of the HTTP API.",
 [A+"endpoints/helpers.go",A+"endpoints/namespaceendpoint.go",A+"dto/validationerror.go",A+"dto/error.go",A+"dto/namespacecreaterequest.go",A+"dto/namespaceupdaterequest.go"],[("error responses",A+"endpoints/helpers.go: AbortWithBindingErrors, AbortWithValidationError"),("collected field errors",A+"dto/validationerror.go")],(),["HTTP statuses and bodies"])
p("C31","Opening a delta log or an index is decided by its bytes",
 "Opening non-empty contents as a delta log or an index, without recovery, succeeds exactly if they are a complete unlocked file of that kind and the current version, and then it holds exactly the declared records, which survive further changes, closing and opening again (of records of the same pair or id, the delta log takes the last one, the index any one). Contents of another kind, a file left locked and one cut before its declared end are refused, and nothing but the lock mark is changed by the refusal; an index refuses the latter two as corrupted, the first not. Opening never panics, nor takes memory in proportion to a mere declared count. Files with damaged records or of other versions may be refused or taken.",
 ["inputs"],"every header, count, prefix, record sequence, cut and tail",
 "Tests open one valid file and one locked file.",
 [D+"storage.go",D+"protocol.go",I+"storage.go",I+"protocol.go"],[("loading",D+"storagefactory.go; "+I+"storage.go: load")],(),["errors of the opening, answers, bytes of the file, allocated memory"])
p("C32","The like storage answers every request of every batch",
 "Every request of every batch handed to the like storage gets exactly one reply, of its own kind and without an error: a completion for likes, dislikes, item and profile deletions, the profile of that very user (or none) for profile requests, and a list, possibly empty, for similarity and recommendation requests. A request of an unknown kind gets an error and spoils none of the others. This holds whatever the size of the batch, however often requests repeat, and whether or not their clients have room for the reply before taking it; processing a batch and closing succeed.",
 ["inputs","histories"],"every sequence of batches of any requests, known or not",
 "There are no tests of the like storage.",
 [R+"likestorage.go",M+"actions.go"],[("dispatch by the kind of the action",R+"likestorage.go: ProcessActions"),("kinds and payloads",M+"actions.go")],(),["replies received on the channels of every action"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x['title']) for x in P))
