#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook="cfg(nargun_verif) re-exports private items as a library"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Stored piece bytes land exactly where the torrent layout puts them",
  "For every single-file or multi-file layout and every sequence of piece writes, each byte of a written piece is found at exactly the file and offset the torrent's layout assigns it and nowhere else, whatever mix of file lengths (empty, shorter than a piece, spanning several pieces), piece length and last-piece length the torrent has. Reading any in-range block back returns the bytes last written there, and bytes of pieces not written are never altered.",
  ["inputs", "configurations", "histories"],
  "all file layouts (lengths around piece boundaries, empty files, several files per piece and several pieces per file), all piece write orders incl. rewrites, all in-range block reads",
  "The file-storage tests use one layout each with a fixed write order; the boundary layouts (piece-multiple lengths, empty files, final short piece) are never reached.",
  ["src/fs/single_file_rw.rs", "src/fs/multi_file_rw.rs", "src/fs/multi_file_iter.rs", "src/fs/file_cache.rs"],
  [("piece/offset arithmetic", "src/fs/single_file_rw.rs"), ("byte-range iteration over files", "src/fs/multi_file_iter.rs"), ("handle cache", "src/fs/file_cache.rs")],
  observe=["files under the base directory", "block read result"])
p("C02", "A storage call's success is truthful",
  "When a piece write reports success all of that piece's bytes are already readable from the files, and when a block read reports success exactly the requested bytes were delivered. A request outside the torrent, or an I/O failure while serving one, is reported as an error and never as success, a crash or partial data, and does not disturb data already stored. Never more than 16 data files are kept open.",
  ["inputs", "histories", "fault_sequences"],
  "all (piece, offset, length) requests in and out of range, every position at which the underlying file fails (full device, missing or unopenable file), every sequence of such calls, with more files than the handle cache holds",
  "Tests only write and read valid ranges on a healthy file system and re-open through the same handle.",
  ["src/fs/single_file_rw.rs", "src/fs/multi_file_rw.rs", "src/fs/file_cache.rs"],
  [("bounds checks and write/flush", "src/fs/multi_file_rw.rs, src/fs/single_file_rw.rs"), ("handle cache eviction", "src/fs/file_cache.rs")],
  observe=["return values", "file contents through an independent handle", "number of open descriptors"])
p("C03", "Accepted torrents can never name a path outside their own directory",
  "No torrent description that the client accepts contains a file path or name which, once joined to the download directory, denotes that directory itself or anything outside of it: empty, current-directory, parent-directory, absolute or separator-containing components are rejected. Every description whose components are ordinary names is accepted with its components unchanged.",
  ["inputs"], "all sequences of path components over {ordinary, empty, '.', '..', absolute, containing '/' , containing NUL} in name and file paths, single- and multi-file",
  "No test supplies a hostile path at all.",
  ["src/transcoding/metainfo.rs", "src/fs/multi_file_rw.rs", "src/fs/single_file_rw.rs"],
  [("metainfo validation", "src/transcoding/metainfo.rs"), ("path joining", "src/fs/multi_file_rw.rs")],
  observe=["result of loading a .torrent file"])
p("C04", "Torrent identity and fields are exactly those of the file",
  "Loading a torrent file either fails with an error or yields an info-hash equal to SHA-1 of the exact bytes of the info dictionary and exactly the announce list, piece length, piece hashes, names and file lengths the file states. A file whose parts are missing or inconsistent (zero piece length, piece-hash string not a multiple of 20, hash count not matching the total length, both or neither of length and files) is rejected, and no input crashes the loader.",
  ["inputs"], "all combinations of present/absent/ill-typed/inconsistent keys, key orders, unknown extra keys (which must stay in the hash), and truncations/garbage",
  "Tests parse a handful of well-formed torrents.",
  ["src/transcoding/metainfo.rs"],
  [("bencode decoding with raw info slice", "src/transcoding/metainfo.rs")],
  observe=["result of loading a .torrent file"])
p("C05", "Peer wire messages are delivered once, in order, whatever the chunking",
  "For every sequence of well-formed peer messages and every way the byte stream is cut into reads, each message is delivered exactly once, in order and with unchanged content to the one consumer it is meant for: data blocks to the downloader, a port announcement to the DHT as that peer's own IP with the announced port, everything else to the session. Nothing is delivered that the remote did not send.",
  ["inputs", "schedules"], "all message sequences over every message kind (incl. empty and maximum-size payloads) and all segmentations of the resulting stream",
  "Unit tests decode single messages from complete buffers; the reassembly loop is not tested.",
  ["src/peers/connection/connection_manager.rs", "src/peers/connection/message.rs"],
  [("reassembly loop", "src/peers/connection/connection_manager.rs"), ("message decoding and dispatch", "src/peers/connection/message.rs")],
  observe=["session channel", "DHT channel", "outgoing requests / finished pieces"])
p("C06", "Malformed or vanished peers end in one disconnect and harm nobody else",
  "Whatever bytes a connected peer sends (unknown kinds, lengths that do not fit the kind, oversized lengths, truncation) and whenever it closes or resets, the client neither crashes, nor spins, nor delivers a message that was not sent: a complete message of unknown kind is skipped and later messages are still delivered, an impossible message ends the connection, and a closed connection is reported as disconnected exactly once. Other connections keep working.",
  ["inputs", "fault_sequences"], "all interleavings of valid, unknown-kind, wrong-length and oversized messages with close/reset at every byte position",
  "No test feeds malformed streams or closes a socket.",
  ["src/peers/connection/connection_manager.rs", "src/peers/connection/message.rs", "src/peers/connection/connection_handle.rs"],
  [("read loop and disconnect report", "src/peers/connection/connection_manager.rs"), ("length checks", "src/peers/connection/message.rs")],
  observe=["session channel", "panic count"])
p("C07", "A peer session opens only after a correct handshake",
  "The client opens a session with a peer by sending its 68-byte handshake carrying its own torrent's info-hash and peer id, and treats the peer as connected only after receiving 68 bytes naming the BitTorrent protocol and the same info-hash, however those bytes are split. In every other case (refused, closed early, wrong protocol, wrong torrent) the peer is reported unreachable exactly once and no message of it is ever delivered.",
  ["inputs", "schedules", "fault_sequences"], "all corruptions of handshake fields, all segmentations, closing after every prefix, data following immediately after the handshake",
  "Tests check the (de)serialised struct only, never the exchange.",
  ["src/peers/connection/handshake.rs", "src/peers/connection/connection_manager.rs"],
  [("handshake exchange and validation", "src/peers/connection/handshake.rs")],
  observe=["bytes on the socket", "session channel"])
p("C08", "Peer session lifecycle: ordered sends, no leaks, reconnectable",
  "Messages the client queues for a connected peer reach that peer exactly once, in order and in valid wire encoding; sending to a peer that is not connected is an error. Connecting to an already connected peer opens no second connection, disconnecting closes the socket, and after any session has ended (disconnect, loss or failed connect) the same peer can be connected again.",
  ["histories", "schedules"], "all sequences of connect / disconnect / send(each kind) / remote close over several peers",
  "There are no tests of the connection handle.",
  ["src/peers/connection/connection_handle.rs", "src/peers/connection/connection_manager.rs", "src/shutdown.rs"],
  [("peer table", "src/peers/connection/connection_handle.rs"), ("sender task", "src/peers/connection/connection_manager.rs")],
  observe=["bytes on the sockets", "session channel", "call results"])
p("C09", "Block ledger hands out, times out and completes blocks correctly",
  "A block of an in-progress piece is handed to at most one peer at a time: it is handed out again only after its request timed out (seven seconds) or was cancelled, never after it was received, and only once no block that was never requested is left for that peer. A piece completes exactly once, when and only when every block has been received with its exact length, with the blocks in order and with the received content; blocks of wrong length, position or unknown piece change nothing, and no peer is handed more blocks than it has room for. At most ten pieces are in progress in the ledger.",
  ["histories", "schedules", "inputs"], "all sequences of add / hand-out / deliver / duplicate / wrong-size / cancel / clock-advance over several peers sharing the ledger, every piece-length class relative to the block size, and concurrent callers",
  "The ledger has no tests.",
  ["src/peers/connection/pending_pieces.rs", "src/peers/connection/downloader.rs"],
  [("shared ledger", "src/peers/connection/pending_pieces.rs")],
  state=[("piece ledger", "per block: unbegun / pending(peer, since) / downloaded", "src/peers/connection/pending_pieces.rs")],
  observe=["public ledger calls"])
p("C10", "Only verified pieces are reported finished, and honest peers finish",
  "A piece is reported finished only if it was asked for and the reported data hashes to the piece hash given for it, and at most once per verified download; corrupt, unrequested, duplicate or misaddressed blocks never lead to a finished report. If the remote answers every request correctly the piece is finished after finitely many requests, also after earlier corrupt answers or unanswered requests.",
  ["inputs", "histories", "schedules"], "all interleavings of download orders and remote answers (correct, corrupt, duplicate, wrong piece, wrong offset, wrong length, silence) for every piece-length class",
  "There is no test of the download pipeline.",
  ["src/peers/connection/downloader.rs", "src/peers/connection/pending_pieces.rs", "src/peers/connection/connection_handle.rs"],
  [("download task", "src/peers/connection/downloader.rs"), ("piece hash check", "src/peers/connection/downloader.rs")],
  observe=["requests on the socket", "session channel"])
p("C11", "The swarm manager survives any peer behaviour and keeps its limits",
  "The torrent manager keeps at most ten peers, asks a peer only for pieces it announced and only while that peer is not choking, and never has more than nine pieces in progress. A finished piece is stored once, with the right content, and not asked for again; the pieces of a lost peer are asked of others that have them. No sequence of peer messages, including out-of-range piece numbers, bad bitfields, and unsolicited requests or cancels, stops it: other peers are still served, and a lost peer is replaced by the next candidate.",
  ["inputs", "histories", "schedules"], "all interleavings of have / bitfield / choke / unchoke / interested / request / cancel / disconnect from several peers",
  "The manager has no tests.",
  ["src/torrent_manager.rs", "src/peers/active_peers.rs"],
  [("message handling and piece selection", "src/torrent_manager.rs")],
  observe=["connections and requests seen by the remote peers"])
p("C12", "The peer pool never hands out a peer that is in use",
  "A peer obtained from the pool is not handed out again until it has been returned; discovering an already known peer again (from the DHT, a tracker or an announcement) never changes its standing; and counting or listing peers changes nothing. A batch never exceeds the requested size, contains no duplicates, is as large as the candidates allow, and prefers fresh peers over peers that had nothing useful, those over peers that choked too long, and those over unreachable ones.",
  ["histories", "schedules", "inputs"], "all histories of discover / hand-out / return-with-status / count calls from all clones of the pool, and concurrent callers",
  "One scripted test with three peers and a fixed call order.",
  ["src/peers/active_peers.rs"],
  [("status map under one lock", "src/peers/active_peers.rs")],
  state=[("status", "peer -> in use / unknown / no useful pieces / choked too long / unable to connect", "src/peers/active_peers.rs")],
  observe=["public pool calls"])
p("C13", "Routing table admits, keeps and evicts nodes by the Kademlia rules",
  "The table never holds two entries for one node id, and never more than K nodes per bucket range; a live (good) node is never displaced by another, an offered node is accepted whenever its range has room or holds a node that is not live (which it then replaces, one node only), and the bucket covering the table's own id splits when full of live nodes. Whoever uses the id of a held node from another address doesn't take its place. Contact updates a node's standing and every admitted node stays findable until evicted.",
  ["histories", "inputs"], "all sequences of offering nodes, successful and failed contacts and clock advances over ids at every distance from the own id",
  "Tests fill buckets with a few hand-picked ids and never evict, age or split repeatedly.",
  ["src/dht/routing_table/table.rs", "src/dht/routing_table/bucket.rs"],
  [("bucket admission", "src/dht/routing_table/bucket.rs"), ("bucket splitting", "src/dht/routing_table/table.rs")],
  observe=["public routing-table calls"])
p("C14", "A lookup returns exactly the node or the K closest good nodes",
  "Looking up an id returns that very node if the table holds it, and otherwise the K live nodes of the whole table that are closest to the id by XOR distance (all of them if there are fewer), without duplicates. Comparing ids by distance is a total order that agrees with the numeric XOR distance.",
  ["inputs", "histories"], "all table contents over every bucket shape and all lookup targets",
  "Tests check a few targets on one table where all nodes are in one bucket.",
  ["src/dht/routing_table/table.rs", "src/data_structures/id.rs"],
  [("closest-node search", "src/dht/routing_table/table.rs"), ("distance ordering", "src/data_structures/id.rs")],
  observe=["find_node / find_closest results"])
p("C15", "Stale buckets are refreshed, and periodic work cannot be starved",
  "A refresh asks for exactly one random id inside each bucket range that is not full of live nodes (other than the own range, for which it asks for the own id) and for no other range. The DHT's periodic work keeps its scheduled times no matter how much other traffic arrives, and its growing interval never skips a period, never shrinks and never exceeds its cap.",
  ["histories", "schedules"], "all sequences of table changes and clock advances followed by a refresh; all timings of traffic relative to timers",
  "No test advances the clock or mixes timer and traffic.",
  ["src/dht/routing_table/table.rs", "src/dht/dht_manager.rs", "src/capped_growing_interval.rs"],
  [("refresh targets", "src/dht/routing_table/table.rs"), ("growing interval", "src/capped_growing_interval.rs")],
  observe=["refresh ids", "datagrams on the loopback network"])
p("C16", "The saved routing table survives restart and crashes",
  "Loading after a completed save yields the same own id and the same nodes, and starting with a missing, truncated or garbage save file yields a fresh usable table instead of a failure. A crash or error at any point during a save leaves either the previous or the new state loadable.",
  ["crash_points", "histories", "inputs"], "every table content reachable within bounds, a kill at every file-system step of the save, and arbitrary prior file contents",
  "One test saves and loads once in the happy case.",
  ["src/dht/routing_table/table.rs"],
  [("store/load", "src/dht/routing_table/table.rs")],
  observe=["save file", "loaded table"])
p("C17", "Each DHT query completes at most once, with its own answer",
  "Each outgoing DHT query completes at most once: with the first response or error that carries its transaction id, comes from the address that was asked, fits the kind of query and arrives within a minute; its content reaches the part that asked (the routing table or the peer search). Late, duplicate, unsolicited, unfitting or wrongly-addressed responses complete no query and change nothing, and no two queries share a transaction id.",
  ["schedules", "histories", "inputs", "fault_sequences"], "all interleavings of several outstanding queries of every kind with answers, errors, reorderings, duplicates, losses and timeouts",
  "Message encoding is tested; the request/response matching is not.",
  ["src/dht/connection/pending.rs", "src/dht/connection/connection_manager.rs", "src/dht/connection/connection_handle.rs"],
  [("transaction table", "src/dht/connection/pending.rs")],
  observe=["UDP datagrams", "query results"])
p("C18", "Announcements are accepted only with a token issued to that node",
  "A peer announcement is stored, and acknowledged, only if it carries the token this node issued to the announcing IP address; every other announcement (no token, a forged one, one issued to another address) adds no peer and is not acknowledged. The stored address is the sender's IP with the announced port; for the served torrent it joins the peer pool, for another torrent it is kept for that torrent alone.",
  ["histories", "inputs"], "all histories of get_peers / announce / secret rotation by several nodes with own, foreign, stale, forged and missing tokens",
  "No test issues or validates tokens through the handler.",
  ["src/dht/dht_manager.rs", "src/data_structures/id.rs"],
  [("token secrets and rotation", "src/dht/dht_manager.rs")],
  observe=["UDP responses", "peer pool"])
p("C19", "Every valid DHT query gets one correct answer from the node's own state",
  "Every well-formed DHT query, however many further keys it has, receives exactly one datagram with the same transaction id, sent to the asker and within the 1300-byte limit (announcements that are refused receive none): ping and announce acknowledge with the own id, find_node returns the node or the closest nodes, get_peers returns a token plus the known peers of that torrent or else the closest nodes. A query is answered by the arguments it carries (unknown methods included), whether or not any node is known yet; queries change nothing but what an announcement adds, and a query for an unserved torrent never yields peers of the served one.",
  ["inputs", "histories"], "all query kinds, targets, torrents, table fillings and peer-list sizes",
  "Only (de)serialisation of individual messages is tested.",
  ["src/dht/dht_manager.rs", "src/dht/krpc_message.rs", "src/dht/connection/connection_manager.rs"],
  [("query handler", "src/dht/dht_manager.rs"), ("response encoding", "src/dht/krpc_message.rs")],
  observe=["UDP datagrams"])
p("C20", "Malformed datagrams cannot hurt the DHT",
  "No datagram, however malformed (truncated, ill-typed, wrong-length ids, node or peer lists, empty, oversized), crashes the client, changes its routing table or peers, or completes a query that it does not answer; a datagram is decoded from its own bytes only, only complete messages are acted upon, and the next valid message is handled normally.",
  ["inputs", "histories"], "every single-field corruption and truncation of every message kind in every state of outstanding queries, in every order with valid traffic",
  "Tests decode valid messages and one or two invalid ones.",
  ["src/dht/krpc_message.rs", "src/dht/connection/connection_manager.rs", "src/data_structures/id.rs"],
  [("decoding", "src/dht/krpc_message.rs"), ("receive loop", "src/dht/connection/connection_manager.rs")],
  observe=["UDP datagrams", "panic count"])
p("C21", "The iterative peer search walks towards the torrent and uses every answer",
  "The search starts, once a node has answered, from the closest good nodes known then, asks every node it learns of from answers exactly once per search, and repeats periodically with all nodes known so far; once it knows 512 nodes it goes on with the best 128 of them (those with peers first, then those that answered, nearest first), asks the others no more in this search, and ends if 128 peers are known. Every peer found is added to the pool, whenever the answer arrives; a search ends three seconds after the last answer even when nodes never answer; answers that arrive between searches, however many, keep the client from nothing; after each, the client announces itself with its port to exactly the nodes that gave a token (at most sixteen, those with peers first), using that node's own latest token.",
  ["schedules", "histories", "fault_sequences"], "all small overlay topologies with nodes that answer with nodes, peers, errors, or not at all, in every order",
  "The search has no tests.",
  ["src/dht/peer_fetcher.rs", "src/dht/dht_manager.rs"],
  [("search task", "src/dht/peer_fetcher.rs")],
  observe=["UDP datagrams", "peer pool", "routing table"])
p("C22", "Tracker sessions follow the announce protocol in every history",
  "Every HTTP tracker of a torrent is contacted on its own, whatever the others do. Its announces say started until a start was answered successfully and never again after that; later ones are sent when the interval the tracker last gave is over (regular) and once for each completion (completed). A tracker that refuses, breaks off, answers wrongly or does not answer within 128 s is asked the same again after 64 s. A shutdown ends every request and every wait at once and sends exactly one stopped announce to each tracker that answered a start, even if a later announce is being retried; the shutdown is over when these are answered or given up, and nothing is sent afterwards.",
  ["histories", "fault_sequences", "schedules"], "all sequences of tracker answers (good, failing, malformed, silent), completions, shutdown and clock advances over several trackers",
  "Tracker tests cover decoding of one response and building one URL.",
  ["src/tracker/tracker_manager.rs", "src/tracker/announce.rs", "src/tracker/response.rs"],
  [("tracker loop", "src/tracker/tracker_manager.rs")],
  observe=["HTTP requests", "peer pool"])
p("C23", "Tracker requests and responses are encoded faithfully",
  "Every announce carries the exact info-hash and peer id bytes percent-encoded, the listening port, the bytes left according to the pieces finished, and the event, appended correctly to any tracker URL (with or without a query of its own); the tracker id given last is sent back exactly, whatever bytes it has. Every well-formed tracker response adds exactly the IPv4 peers it lists, compact or as dictionaries, to the pool and sets the interval, whether or not its optional keys are there; a failure reason, an unusable or an incomplete response adds none and changes nothing.",
  ["inputs"], "all byte values in hashes and ids, tracker URLs with and without a query, response shapes (compact, dictionary, missing optional keys, failure)",
  "Tests cover one URL and two responses.",
  ["src/tracker/announce.rs", "src/tracker/response.rs"],
  [("query building", "src/tracker/announce.rs"), ("response decoding", "src/tracker/response.rs")],
  observe=["HTTP requests", "peer pool"])
p("C24", "Shutdown reaches every task and waits for all of them",
  "After shutdown is requested, every task holding a shutdown handle, including clones made earlier or later, is notified, and the wait completes if and only if all holders are gone: never while one is still alive, and never hanging after the last is dropped.",
  ["schedules", "histories"], "all interleavings of cloning, dropping, receiving and sending over several holders",
  "The shutdown channel has no tests.",
  ["src/shutdown.rs"],
  [("broadcast plus liveness channel", "src/shutdown.rs")],
  observe=["recv / wait completion"])
p("C25", "Piece bitmaps answer exactly what was recorded",
  "For every length, a piece bitmap reports exactly the set of pieces marked since the last replacement: reading, iterating and counting agree, changing one piece affects no other and returns its former value, and a replacement of the wrong size is refused and changes nothing. Spare bits beyond the last piece never count as pieces.",
  ["inputs", "histories"], "all lengths around byte boundaries and all sequences of change / replace",
  "Tests use two lengths and a single replacement with clean spare bits.",
  ["src/data_structures/bitmap.rs"],
  [("bit addressing", "src/data_structures/bitmap.rs")],
  observe=["public bitmap calls"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
