#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "The chunk bitset behaves exactly as a set of indices",
  "After any sequence of set, unset, fill, copy, union and intersect operations, membership, count, size and fullness of a bitset equal those of a plain set of indices with a high-water size (a union is as large as its larger operand, an intersection as its smaller). Unsetting an absent or out-of-range index changes nothing, size never shrinks, querying any 64-bit index is safe, and a copy never aliases its original.",
  ["histories", "inputs"], "every operation sequence up to the stated depth over indices around the 64-bit word boundaries and initial sizes around word boundaries",
  "The unit tests set and unset random indices in alternation from one seed; they never unset an absent index, never use a copy, union or intersect after a mutation, and never query at the integer limits.",
  ["common/bitset/bitset.go"],
  [("word/bit indexing and growth", "common/bitset/bitset.go: Get, Set, Unset, Fill, Full, Union, Intersect, Copy")],
  ["bitset exported methods"], [("data,size", "backing words and logical size", "common/bitset/bitset.go")])

prop("C02", "Chunk-range queries report exactly the present or missing chunks",
  "For every set of present chunks and every list of inclusive request ranges, the reported ranges are sorted, maximal and disjoint within each request range, and cover exactly the chunks that are present (or, for missing-range queries, exactly the chunks below the size that are absent). Requests reaching beyond the size, single-element, inverted or incomplete pairs never crash and never yield a chunk that is not present.",
  ["inputs"], "every subset of a small universe, placed at word boundaries and at the 16-bit limit, times every request range list up to two pairs",
  "The tests check nine hand-written subsets and five requests; the claim is over all subsets and requests.",
  ["common/bitset/bitset.go", "common/range.go"],
  [("range scan", "common/bitset/bitset.go: filledRanges, Overlap, Ranges, UnfilledRanges, UnfilledItems")],
  ["Overlap, Ranges, UnfilledRanges, UnfilledItems"])

prop("C03", "Progress encoding round-trips and rejects malformed data",
  "Any bitset serialised and deserialised answers every query as the original did, and re-serialises to the same bytes. Any byte string that is not a well-formed encoding (truncated, torn, with a size that does not fit its payload, with bits at or beyond its size) is rejected with an error rather than a crash or a bitset that crashes later.",
  ["inputs"], "every subset of small universes at word boundaries; every prefix and every single-byte corruption of length/size fields of those encodings",
  "TestSerialization covers random sets from one seed, only well-formed bytes, and no input shorter than a header.",
  ["common/bitset/bitset.go", "catalogue/progressFile.go"],
  [("fixed-size header plus words", "common/bitset/bitset.go: Serialize, Deserialize")],
  ["Serialize/Deserialize", "reopened catalogue"])

prop("C04", "Every protocol message survives encoding and decoding",
  "For every protocol message with values in the encodable domain, decoding its encoding, alone or followed by the zero padding of a fixed-size receive buffer, yields an equal message of the same type. Data packets and their header (hash, size, payload) round-trip likewise, and values too large for their field (names over 255 bytes, more chunk values than the count byte can say) are cut to a decodable message whose retained entries are a correct prefix.",
  ["inputs"], "the cross product of boundary values of every field of all seven message kinds",
  "The tests encode one or two fixed messages per type, never boundary counts or lengths, and never data packets or acks.",
  ["flu/messages/parse.go", "flu/messages/utils.go", "flu/messages/msgDiscoverHosts.go", "flu/messages/msgListFiles.go", "flu/messages/msgConnection.go", "flu/messages/msgDataPacket.go"],
  [("offset-based encoders and the byte reader", "flu/messages")],
  ["messages Serialize, Parse, ParseAsDataPacket, Split"])

prop("C05", "Decoding is total: any byte string yields a message or an error",
  "Decoding never crashes, whatever the bytes: it returns either a message or an error. A byte string shorter than its own type and counts require is rejected with an error, and so is an unknown message type.",
  ["inputs"], "every strict prefix and every boundary-value mutation of the type and count bytes of a corpus of all message kinds, and all strings up to three bytes over a boundary alphabet",
  "The tests only decode well-formed messages.",
  ["flu/messages/parse.go", "flu/messages/utils.go", "flu/messages/msgDataPacket.go"],
  [("byte reader", "flu/messages/utils.go"), ("message switch", "flu/messages/parse.go: Parse")],
  ["messages.Parse", "messages.ParseAsDataPacket / DataPacket.Split as used by a download"])

prop("C06", "No datagram sequence brings a daemon down or makes it unresponsive",
  "Whatever datagrams arrive at a running daemon from the network, well-formed or not, in any catalogue state, the daemon process keeps running and afterwards still answers discovery and listing requests correctly. Requests about unknown files or chunks are refused or ignored, never fatal, and never change the catalogue.",
  ["inputs", "histories"], "every sequence of up to two (thorough: three) datagrams from a boundary alphabet of valid, truncated and hostile messages against three catalogue states of the real daemon",
  "No test runs the daemon, its message handler or any of the flu package.",
  ["main.go", "flu/server.go", "flu/serverListFilesOnHost.go", "flu/serverStartUpload.go", "flu/serverContinueUpload.go", "flu/serverDiscoverHosts.go"],
  [("message dispatch, error returns", "flu/server.go: HandleMessage")],
  ["daemon alive; replies to probe datagrams; catalogue listing before and after"])

prop("C07", "The catalogue agrees with its reference model across all histories",
  "After any sequence of share, register, save-chunk, unshare, lookup, list and restart, the catalogue reports exactly the files, sizes, chunk sizes, paths and present chunks that the history implies, and a restart (including from a moved data directory) changes nothing. Sharing content that is already indexed is refused and leaves the existing entry untouched; operations on unknown files report an error, and results handed out are snapshots.",
  ["histories"], "every operation sequence up to the stated depth over three files and two chunk sizes, with restart as an operation, deduplicated by observable state",
  "The only catalogue tests marshal one index and initialise one empty directory; no operation of the catalogue is tested.",
  ["catalogue/catalogue.go", "catalogue/indexFile.go", "catalogue/indexRecord.go", "catalogue/progressFile.go"],
  [("index.json plus one progress file per hash", "catalogue/indexFile.go: save, Init; catalogue/progressFile.go: save, deserializeProgressFile")],
  ["catalogue exported methods, before and after reopening"],
  [("index", "hash to record map", "catalogue/indexFile.go"), ("progress", "present chunks", "catalogue/progressFile.go")])

prop("C08", "A daemon crash at any point leaves a usable, faithful catalogue",
  "If the process dies at any point of a catalogue operation, even halfway through a file write, the catalogue reopens, every operation acknowledged before the crash is still in force, and the interrupted operation has happened entirely or not at all. The reopened catalogue remains fully usable: every file can be listed, looked up, and unshared or shared again, and no chunk is reported present whose bytes were not written.",
  ["crash_points", "histories"], "every prefix of the file-system operation log of every short operation history, with each write additionally torn at several lengths, followed by recovery and a second crash inside recovery",
  "No test interrupts a write or reopens a catalogue.",
  ["catalogue/indexFile.go", "catalogue/progressFile.go", "catalogue/catalogue.go"],
  [("write order of progress file and index; replacement by rename", "catalogue/catalogue.go: ShareFile, RegisterDownload, UnshareFile, SaveChunk; catalogue/indexFile.go: save; catalogue/progressFile.go: save")],
  ["catalogue exported methods after reopening on the crashed file system"])

prop("C09", "A failing disk operation is reported and never corrupts the catalogue",
  "If any single file-system call made by a catalogue operation fails, including a short write, the operation either returns an error or has taken effect in full; it never hangs or crashes, and the catalogue keeps serving further calls. What earlier operations acknowledged stays in force, now and after a restart, and retrying the failed operation succeeds once the disk works again.",
  ["fault_sequences", "histories"], "every single failing file-system call (and every pair, thorough) of every short operation history",
  "No test injects an I/O error.",
  ["catalogue/catalogue.go", "catalogue/indexFile.go", "catalogue/indexRecord.go", "catalogue/progressFile.go", "common/utils.go", "common/chunkReader.go"],
  [("error returns", "catalogue/*.go")],
  ["return values of catalogue methods; state before and after reopening"])

prop("C10", "Concurrent catalogue calls are linearizable, race- and deadlock-free",
  "Catalogue methods may be called from any number of goroutines: every outcome equals that of some sequential order of the same calls, both in the returned values and in the final state in memory and on disk. No interleaving causes a data race, a crash or a deadlock.",
  ["schedules"], "all interleavings of two or three concurrent callers up to a preemption bound, over all pairs of operations on colliding files",
  "No test calls the catalogue from more than one goroutine.",
  ["catalogue/catalogue.go", "catalogue/progressFile.go"],
  [("catalogue mutex", "catalogue/catalogue.go: Cat.lock"), ("progress mutex", "catalogue/progressFile.go")],
  ["returned values, final listing, files on disk, happens-before race detector"])

prop("C11", "Stored chunks are returned exactly; absent chunks are refused",
  "A chunk becomes readable exactly when it has been stored (or the file was shared whole), and reading it yields precisely the bytes stored for that position, with their length and SHA-1, whatever read sizes and rewinds the reader uses. Storing one chunk never alters the bytes of another, in any order of storing, and a file all of whose chunks are stored is byte-identical to the source.",
  ["histories", "inputs"], "every order of storing chunks for file and chunk sizes around each other's multiples, every read buffer size from a boundary set, and rewinds at every point",
  "TestChunkReaderHashMatching reads offset 0 of three tiny files; no test stores a chunk.",
  ["catalogue/indexRecord.go", "common/chunkReader.go", "catalogue/catalogue.go"],
  [("offset arithmetic", "catalogue/indexRecord.go: saveChunk, getChunkReader"), ("section reader", "common/chunkReader.go")],
  ["SaveChunk, GetChunkReader, MissingChunks, FileComplete, file bytes"])

prop("C12", "An upload streams the chunk exactly once, within the agreed window",
  "In answer to a request for a chunk it has, a daemon first sends one header packet with the chunk's hash, length and first bytes, and then, driven only by acknowledgements, data packets whose offsets and bytes tile the rest of the chunk without gap or overlap, ending with an empty packet at the chunk's end. Until the end is reached the packets sent never exceed the acknowledgements received plus the requested window, whatever the order and timing of acknowledgements, and nothing is sent without an acknowledgement. An upload that receives none for about ten seconds may be dropped.",
  ["schedules", "inputs"], "chunk lengths around packet-size multiples, windows 1 to 3 and 1024, every ack order, duplicate acks, and all schedules up to a preemption bound",
  "The flu package has no tests.",
  ["flu/senderConnection.go", "flu/serverStartUpload.go", "flu/serverContinueUpload.go"],
  [("window counter and reader offset", "flu/senderConnection.go: kickstart, kick")],
  ["datagrams sent by the daemon"], [("windowSize", "packets in flight", "flu/senderConnection.go")])

prop("C13", "Downloaded content is byte-identical whatever the network does",
  "A chunk is recorded as present on the downloading side only if its stored bytes are those the serving peer holds; a transfer whose bytes do not match the announced SHA-1 is discarded and never recorded. Loss, duplication, reordering, delay or corruption of any transfer datagrams, and any scheduling of the two daemons, can therefore never produce a file that is complete but different.",
  ["fault_sequences", "schedules"], "all patterns of up to k datagram faults (drop, duplicate, reorder, corrupt) and schedule deviations in a two-daemon download, k as stated",
  "No test performs a transfer.",
  ["flu/serverStartDownload.go", "flu/recvConnection.go", "flu/senderConnection.go", "flu/messages/msgDataPacket.go"],
  [("hash check before saving", "flu/serverStartDownload.go: downloadChunk")],
  ["file bytes and chunk map on the downloading host after every step"])

prop("C14", "A requested download completes, and resumes, once peers are reachable",
  "If a reachable peer holds every chunk of a non-empty file, a requested download ends complete although up to a bounded number of datagrams were lost, duplicated, reordered or (transfer packets) corrupted, or the serving daemon restarted meanwhile; a request that ended in an error may be repeated. A download interrupted by a restart of the downloading daemon continues when requested again, keeps the chunks it already had, and completes. A download asks a peer only for chunks that peer has announced, and never for more packets at once than a socket's receive buffer of default size holds, so that it completes however slowly either daemon gets to run; nor do slow networks (round trips of up to about two seconds, a few KB per second) or further peers that offer chunks they cannot deliver prevent it, nor file-system errors, a full or a read-only disk for a while (a request refused for it may be repeated).",
  ["fault_sequences", "schedules", "crash_points"], "all patterns of up to k faults in a two-daemon download, and a daemon crash at every step of it, run to a stated virtual-time horizon",
  "No test performs a transfer or restarts a daemon.",
  ["flu/serverStartDownload.go", "flu/recvConnection.go", "flu/serverDiscoverHosts.go", "flu/serverListFilesOnHost.go", "catalogue/catalogue.go"],
  [("retry loop over missing chunks", "flu/serverStartDownload.go: StartDownload"), ("persisted progress", "catalogue/progressFile.go")],
  ["completion within the horizon; requests for chunks already held"])

prop("C15", "Replies reach exactly the request that asked, and discovery always ends",
  "A discovery returns within its fixed waiting time with every reply to that request received in time (exactly at the deadline either way), each received datagram exactly once and none belonging to another request, regardless of how many replies arrive or how close to the deadline. Late, duplicate or unsolicited replies never block the daemon or leak into a later request, and concurrent requests never share an identifier.",
  ["schedules", "histories"], "all interleavings, up to a preemption bound, of one or two concurrent discoveries with up to three replies arriving before, at and after the deadline",
  "The flu package has no tests; the window is a two-second timeout.",
  ["flu/server.go", "flu/serverDiscoverHosts.go"],
  [("request id counter and response table", "flu/server.go: generateRequestID, registerResponseChan, deliverResponse, unregisterResponseChan")],
  ["results of discoveries; requests on the wire; liveness of handlers"])

prop("C16", "A discovery reply states exactly the requested chunks the host holds",
  "For every discovery request naming a file, the reply carries the host's address, port and the request's identifier, and chunk ranges equal to the intersection of the requested ranges with the chunks held (all chunks held if none are named), in order and up to the reply's capacity. For the blank file hash or an unknown file the reply carries no chunks.",
  ["inputs", "histories"], "every chunk set of files of up to six chunks (plus word- and count-boundary sets) times every request of up to two ranges",
  "No test runs the discovery handler.",
  ["flu/serverDiscoverHosts.go", "catalogue/catalogue.go", "common/bitset/bitset.go"],
  [("overlap of progress and request", "flu/serverDiscoverHosts.go: RespondToDiscoverHosts")],
  ["reply datagram"])

prop("C17", "Every listing, local or remote, shows the catalogue as it is",
  "The local listing shows each indexed file once, with its size, hash, chunk count, chunk size and downloaded chunks; listing a host over the network shows the same entries with bare file names, for all files or for one named file. A remote listing that cannot be obtained is reported as an error within a few seconds, and a catalogue whose files cannot all be read is listed completely or not at all.",
  ["inputs", "histories", "fault_sequences"], "catalogues of zero to three files in every progress state plus listings around the datagram size, with loss and wrong-typed replies",
  "No test runs the listing code on either side.",
  ["flu/serverListFilesOnHost.go", "cli/cliMethodsList.go", "cli/cliMethodsShare.go"],
  [("listing reply", "flu/serverListFilesOnHost.go"), ("rendering", "cli/cliMethodsList.go")],
  ["CLI output and RPC responses on both hosts"])

prop("C18", "Concurrent and successive uploads never mix",
  "Uploads to different endpoints, and successive uploads to the same endpoint, are independent: each requester receives the header and bytes of the chunk it asked for last, in every interleaving of their requests and acknowledgements (of requests from one endpoint that are in flight together, either may win, but their bytes never mix). No interleaving causes a data race, a crash or a stuck handler.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of two uploads' requests and acks, and every sequence of request, ack, and re-request from one endpoint up to a depth",
  "The flu package has no tests.",
  ["flu/serverStartUpload.go", "flu/serverContinueUpload.go", "flu/senderConnection.go"],
  [("upload table keyed by remote endpoint", "flu/server.go: uploads")],
  ["datagrams per endpoint, race detector, stuck goroutines"])

prop("C19", "Finished transfers give back what they used",
  "When a transfer has ended, by completion or timeout, and its packets have drained, neither daemon retains goroutines, sockets or open files on its behalf. A daemon can therefore serve and fetch any number of chunks over its lifetime.",
  ["schedules", "fault_sequences", "histories"], "all executions of a two-daemon transfer with up to k datagram faults and schedule deviations, resources counted at quiescence and compared with before",
  "No test performs a transfer or counts resources.",
  ["flu/recvConnection.go", "flu/senderConnection.go", "flu/serverStartUpload.go", "flu/serverStartDownload.go", "common/chunkReader.go"],
  [("connection closing and worker termination", "flu/recvConnection.go, flu/senderConnection.go")],
  ["live goroutines, open sockets and open files at quiescence"])

prop("C20", "Cleaning removes exactly the files that can no longer be served",
  "After a clean, the index contains every file whose content still matches its hash and every download still in progress, and no complete file that is missing, unreadable or changed. Cleaning reports what it did for each file, never modifies or deletes a user's file, and a second clean changes nothing.",
  ["histories", "inputs"], "every assignment of {intact, changed same size, grown, truncated, missing, replaced by a directory, partial} to up to three files, every listing order, with and without restart",
  "No test runs clean.",
  ["cli/cliMethodsClean.go", "catalogue/catalogue.go", "common/utils.go"],
  [("rehash and unshare", "cli/cliMethodsClean.go: Clean")],
  ["index before and after, report, files on disk"])

prop("C21", "Downloads write only their own file inside the downloads directory",
  "Whatever name, size, and chunk data a peer announces, a download writes to no path outside the downloads directory, not even temporarily, never to a path already taken by something of the user's, and two different files never share a path. Files elsewhere, and other entries of the catalogue, stay byte-for-byte untouched.",
  ["inputs", "histories"], "every pair of peer-announced names from a hostile alphabet (parent references, absolute, empty, dot, nested, colliding, catalogue names) times chunk data of too short, exact and too long sizes",
  "No test registers a download.",
  ["catalogue/catalogue.go", "catalogue/indexRecord.go", "flu/serverStartDownload.go"],
  [("path construction", "catalogue/catalogue.go: RegisterDownload")],
  ["every file-system write performed by the daemon"])

prop("C22", "No user command crashes the CLI or the daemon",
  "For every command line, well-formed or not, and in every catalogue state, the CLI prints a result or an error and the daemon keeps running. Commands that fail change nothing, a relative path means the directory the command was run in, and a command's printed result agrees with the daemon's state. Starting a second daemon on a host leaves the first one working.",
  ["inputs", "histories"], "every command with every argument list of up to two arguments from a boundary alphabet, in every catalogue state from a set including empty, partial and missing files, and every pair of commands (thorough)",
  "The cli package has no tests.",
  ["cli/cliClient.go", "cli/cliMethodsShare.go", "cli/cliMethodsList.go", "cli/cliMethodsGet.go", "cli/cliMethodsChims.go", "cli/cliMethodsClean.go", "main.go"],
  [("argument validation", "cli/cliClient.go: Run"), ("RPC methods", "cli/cliMethods*.go")],
  ["CLI exit and output; daemon liveness; listing afterwards"])

prop("C23", "File hashing is exact for every file and every read pattern",
  "The hash computed for a file or a chunk is the SHA-1 of exactly its bytes, for every size and however the operating system splits the reads, and a read error yields an error rather than a wrong hash. Hashes survive conversion to text, bytes and back, malformed text is rejected, and exactly the all-ones hash counts as blank.",
  ["inputs", "fault_sequences"], "file sizes around the buffer size times every pattern of short reads with up to k deviations and an error at every read; every single-position corruption of hash text",
  "Tests hash three tiny files with whole reads and never fail a read.",
  ["common/utils.go", "common/chunkReader.go", "common/sha1Hash.go"],
  [("read loops", "common/utils.go: HashFile; common/chunkReader.go: NewChunkReader"), ("conversions", "common/sha1Hash.go")],
  ["HashFile, NewChunkReader, Sha1Hash methods"])

prop("C24", "A daemon serving commands and peers at once is race- and deadlock-free",
  "While a daemon concurrently handles user commands and incoming datagrams, no interleaving produces a data race, a crash, a deadlock, or a message handled with another message's content. When the load ends, the daemon is responsive and its catalogue is in a state some sequential order would give.",
  ["schedules"], "all interleavings up to a preemption bound of pairs and triples of simultaneous commands and datagrams against the real daemon loop",
  "No test runs the daemon.",
  ["main.go", "flu/server.go", "catalogue/catalogue.go", "cli/cliMethods.go"],
  [("per-message goroutines and buffers", "main.go"), ("locks", "flu/server.go, catalogue/catalogue.go")],
  ["race detector, stuck goroutines, replies, listing at the end"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
