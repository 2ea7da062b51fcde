#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the properties are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NET = "every loss, duplication, reordering and delay of packets on the network, and every placement of timeouts"

p("C01", "Uploads store exactly the client's bytes",
  "At every moment of an upload, what the server has stored is a prefix of the client's file: no block is skipped, repeated, swapped or altered. When the client reports that the upload succeeded, the stored file equals the source file byte for byte.",
  ["schedules", "fault_sequences", "inputs"],
  NET + "; every file length (empty, short, exact multiples of the block size), block size, window size and block reader kind",
  "The tests run uploads over a lossless in-order loopback; none drops, duplicates or reorders a packet, so no retransmission path of client or server runs against a peer.",
  ["src/client/sender.rs", "src/server/helpers/write.rs", "src/writers/single_block_writer.rs",
   "src/readers/single_block_reader.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs"],
  [("only the next expected block is written", "src/writers/single_block_writer.rs write_block"),
   ("unacknowledged blocks are kept and resent", "src/readers/*.rs next/free_block")],
  ["bytes given to the server's storage", "the client's return value", "datagrams on the wire"])

p("C02", "Downloads deliver exactly the server's bytes",
  "At every moment of a download, what the client has stored is a prefix of the file the server reads. When the client reports that the download succeeded, its copy equals the server's file byte for byte, whether or not the server took up the offered options.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  NET + "; every file length, block size, window size, reader kind, and servers that answer with or without an option acknowledgement",
  "The tests download over a lossless loopback from a server that always acknowledges options; no test loses the option acknowledgement or talks to a server that ignores options.",
  ["src/client/receiver.rs", "src/client/connection.rs", "src/server/helpers/read.rs", "src/writers/single_block_writer.rs",
   "src/readers/single_block_reader.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs"],
  [("only the next expected block is written", "src/writers/single_block_writer.rs write_block"),
   ("reply to the request decides the options in force", "src/client/connection.rs query_server")],
  ["bytes given to the client's storage", "the client's return value", "datagrams on the wire"])

p("C03", "Success is reported only when the peer really has everything",
  "A sending end reports success only after the receiver acknowledged the final block, and a receiving end only after it stored the final block; the byte count it reports is the length of the file. A remote error, a storage failure (including a partial write), or a timeout is never reported as success.",
  ["fault_sequences", "schedules"],
  "every point at which the peer sends an error, the storage fails or accepts only part of a write, or the network goes silent, under every packet schedule",
  "The tests inject no storage failure, no partial write, no error packet and no silence in the middle of a transfer.",
  ["src/client/sender.rs", "src/client/receiver.rs", "src/server/helpers/write.rs", "src/server/helpers/read.rs", "src/writers/single_block_writer.rs"],
  [("completion test on the reader", "src/readers/*.rs is_finished"), ("completion test on the last short block", "src/client/receiver.rs, src/server/helpers/write.rs")],
  ["return values of the client", "datagrams on the wire", "storage calls"])

p("C04", "Senders keep to the negotiated window and resend identical blocks",
  "A sending end (client or server) never has more blocks outstanding than the negotiated window, sends new blocks in order starting at 1, and never sends a block it has already been told was received. Every transmission of a block carries the same bytes: exactly the negotiated block size for all blocks but the last, and less than that for the last.",
  ["schedules", "inputs", "fault_sequences"],
  "every sequence of acknowledgements (in order, duplicated, stale, skipping ahead, absent) and timeouts; every window and block size; all three block readers",
  "The reader unit tests replay a few hand-written acknowledgement sequences; none runs the send loops with acknowledgements that arrive late, twice or not at all.",
  ["src/readers/single_block_reader.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs",
   "src/readers/pool_reader.rs", "src/server/helpers/read.rs", "src/client/sender.rs"],
  [("window bound", "src/readers/multiple_block_reader.rs next; src/readers/multiple_block_seek_reader.rs next"),
   ("window moves on acknowledgement", "free_block of each reader")],
  ["DATA and ACK datagrams of the sending end"])

p("C05", "Receivers acknowledge exactly what they have contiguously stored",
  "Every acknowledgement a receiving end (client or server) sends names the last block of the contiguous run it has stored, never a block it does not have. It does acknowledge when a full window has arrived, when the last block has arrived, and when a block arrives that it already has or that skips ahead, so the sender can always resynchronise.",
  ["schedules", "inputs", "fault_sequences"],
  "every order, duplication and loss of data blocks, for every window size",
  "The writer unit tests call the writer with a handful of block numbers; the acknowledgement decisions of the two receive loops are never exercised with anything but in-order blocks.",
  ["src/server/helpers/write.rs", "src/client/receiver.rs", "src/writers/single_block_writer.rs"],
  [("acknowledgement condition", "src/server/helpers/write.rs handle_write; src/client/receiver.rs receive_file"),
   ("position reported for unexpected blocks", "src/writers/single_block_writer.rs write_block")],
  ["ACK datagrams of the receiving end", "storage calls"])

p("C06", "Transfers stay correct past 65,535 blocks",
  "The 16-bit block number wraps from 65535 to 0 without limit: a transfer of any length stores every block once, in order, and acknowledges it under the right number. Duplicated, lost or reordered packets near the wrap do not confuse blocks of one round with those of another, as long as no packet is displaced by 10,000 blocks or more.",
  ["inputs", "schedules"],
  "every block position in several wraps of the block counter, and every displacement of a packet below 10,000 blocks",
  "One unit test checks about twenty points of the numbering function; no test transfers more than 65,535 blocks with loss or reordering at the wrap.",
  ["src/block_mapper.rs", "src/writers/single_block_writer.rs", "src/readers/single_block_reader.rs", "src/readers/multiple_block_reader.rs", "src/readers/multiple_block_seek_reader.rs"],
  [("block number to position mapping", "src/block_mapper.rs index/block")],
  ["block writer and block reader results", "DATA and ACK datagrams"])

p("C07", "The server grants options only within its limits",
  "The server's option acknowledgement contains only options the client requested (plus its own keys when encryption is requested), never a block or window size above what the client asked for or the server allows, and never a value outside its valid range; invalid or unknown options are ignored without failing the request. The transfer then runs with exactly the values acknowledged, and with the protocol defaults for every option not acknowledged.",
  ["inputs", "configurations"],
  "every combination of requested option values (absent, below, at, inside, above each limit, not a number) with every server limit, for reads and writes",
  "Two unit tests try one valid and one invalid combination; none checks that the transfer that follows uses the acknowledged values.",
  ["src/server/extensions.rs", "src/server/connection_builder.rs", "src/server/helpers/connection.rs", "src/packet.rs"],
  [("clamping of requested values", "src/server/extensions.rs parse_extensions"), ("transfer size in the reply", "src/server/connection_builder.rs build_reader")],
  ["OACK datagram", "DATA sizes and window of the transfer that follows"])

p("C08", "The client runs only with options it asked for and the server granted",
  "A client refuses an option acknowledgement that contains an option it did not request, a value larger than it requested, or a block size, window or timeout out of range, and tells the server so or stops; it never runs a transfer under such values. Otherwise it runs with exactly the acknowledged values, and with the protocol defaults (512-byte blocks, window of one) for anything not acknowledged, including when the server answers without any option acknowledgement.",
  ["inputs", "configurations"],
  "every option acknowledgement a server could send (each option absent, lower, equal, higher, out of range, garbage, unrequested) against every set of requested options, for sending and receiving",
  "The unit tests parse a few acknowledgements; no test runs a transfer against a server that answers with fewer, other or no options.",
  ["src/client/extensions.rs", "src/client/connection.rs", "src/client/sender.rs", "src/client/receiver.rs"],
  [("refusal of unrequested options", "src/client/extensions.rs validate_extensions"), ("range checks", "src/client/extensions.rs parse_extensions"),
   ("reply without options", "src/client/connection.rs query_server")],
  ["datagrams of the client after the reply", "return value"])

p("C09", "Required encryption is never downgraded",
  "A client told to require encryption never sends or accepts file bytes in the clear: whatever the server or someone in the middle answers, it runs encrypted at least at the level it required or fails, and one told to use full encryption (or protocol encryption with a known server key) never sends its request in the clear. A server that requires full encryption serves only transfers that are encrypted from the request on, and one with authorised keys serves no unencrypted transfer. Neither end of a transfer agreed to be encrypted sends file bytes in the clear.",
  ["inputs", "configurations", "fault_sequences"],
  "every requested encryption level, key configuration and server policy, and every reply (option acknowledgement with the encryption options kept, changed or stripped, plain acknowledgement, plain data, error)",
  "The tests only pair clients and servers whose settings match; none strips or changes the encryption options in flight or answers a client that requires encryption without them.",
  ["src/client/connection.rs", "src/client/extensions.rs", "src/client/encryption_socket.rs", "src/client/encryption_socket_builder.rs", "src/server/extensions.rs", "src/server/connection.rs", "src/server/connection_builder.rs"],
  [("client level check", "src/client/extensions.rs parse_extensions"), ("server policy check", "src/server/extensions.rs parse_extensions")],
  ["whether known plaintext of the file appears in any datagram", "return values", "storage calls"])

p("C10", "Only authorised keys that are proven are served",
  "When the server has a list of authorised keys, it opens, creates or sends a file only for a peer that presents a listed key together with a valid signature by that key over the session key it uses. Such a peer is served. All other requests are refused, and get no reply at all when errors go to authorised peers only. (A recorded request that is sent again is out of scope: its sender cannot read what the server answers.)",
  ["inputs", "configurations"],
  "every combination of listed, unlisted and missing key; valid, missing, stale and foreign signatures; every encryption level and server policy",
  "The tests cover the listed-key and the unlisted-key case with honest signatures only.",
  ["src/server/extensions.rs", "src/server/multi_thread.rs", "src/server/connection_builder.rs", "src/key_management.rs"],
  [("signature and list check", "src/server/extensions.rs parse_extensions"), ("silence to strangers", "src/server/connection_builder.rs reply_with_error")],
  ["storage calls of the server", "replies"])

p("C11", "Forged or altered packets never change an encrypted transfer",
  "In a transfer whose traffic is encrypted, a packet that was not produced by the other end of that session (altered in any bit, truncated, made under another key, in the clear, or garbage) never changes what is stored, never counts as an acknowledgement and never ends the transfer; both ends keep the transfer going as if the packet had not arrived. This holds from the end of the exchange of options on, at the protocol and full levels for every packet, and at the data level for the file bytes of data packets (headers, acknowledgements and errors are not protected at that level).",
  ["fault_sequences", "inputs"],
  "every kind of tampering at every point of the transfer, in both directions and at each encryption level (at the data level: tampering with data contents)",
  "No test delivers an altered or forged packet to a running transfer.",
  ["src/encrypted_packet.rs", "src/encryption.rs", "src/server/connection.rs", "src/client/encryption_socket.rs"],
  [("authenticated decryption before parsing", "src/server/connection.rs decrypt_packet; src/client/encryption_socket.rs recv_from")],
  ["storage calls", "replies", "return value"])

p("C12", "Requests never reach outside the served directory",
  "Whatever file name a request carries, and whatever links exist below the served directory, the server reads, creates and changes files only inside it, and no deeper than the configured depth. A request that would lead elsewhere is refused and leaves everything outside untouched; a plain name of a file inside, within the depth, is not refused.",
  ["inputs", "configurations"],
  "every path of separators, dots, parent references, names and links up to a bounded length, for reading, writing and listing, and every depth limit",
  "Unit tests check a dozen literal names in the two helper functions; none follows a link or looks at the file system afterwards.",
  ["src/server/validation.rs", "std-binary/src/io.rs"],
  [("name normalisation", "src/server/validation.rs normalize_remote_name"), ("containment after resolving links", "std-binary/src/io.rs create_server_reader/create_server_writer"),
   ("depth limit", "std-binary/src/io.rs validate_path")],
  ["the file system inside and outside the served directory before and after", "replies"])

p("C13", "Existing files change only when overwriting is allowed",
  "Without the overwrite setting, no request changes or truncates a file that already exists in the served directory; the upload is refused. With it, an accepted upload replaces the old content completely, and a refused request leaves every existing file as it was.",
  ["inputs", "configurations"],
  "every combination of target (absent, file, directory, link to inside, link to outside, dangling link), request outcome and overwrite setting",
  "The end-to-end tests upload to fresh names; overwriting, refusal to overwrite and shorter replacement content are not covered.",
  ["std-binary/src/io.rs", "src/server/connection_builder.rs", "src/server/validation.rs"],
  [("create-new when overwriting is off; truncate only after the path is resolved", "std-binary/src/io.rs create_server_writer")],
  ["the file system before and after", "replies"])

p("C14", "Size limits bound what is accepted",
  "A server never accepts a file larger than its limit, nor a client a download larger than its own: an announced size above the limit is refused before anything is stored (on a server: before anything is opened), and a transfer that outgrows the limit is stopped with an error, stores at most one block beyond it, and is never acknowledged or reported as complete. Files up to and including the limit are not refused.",
  ["inputs", "configurations", "schedules"],
  "every file length and announced length around the limit, announced truthfully, falsely or not at all, on both ends, under duplication and loss",
  "No test sends a file at, just below or above a limit.",
  ["src/server/validation.rs", "src/server/helpers/write.rs", "src/client/receiver.rs"],
  [("announced size", "src/server/validation.rs validate_request_options"), ("running total", "src/server/helpers/write.rs handle_write; src/client/receiver.rs handle_file_size")],
  ["storage calls", "replies", "return value"])

p("C15", "Transfers are isolated from each other and from strangers",
  "Packets from any address other than the peer of a transfer never change it: they store nothing, acknowledge nothing, and never end, complete or redirect it; a client follows the server to another port only when configured to. Concurrent transfers do not influence each other's contents, a repeated request from a peer being served starts nothing new, and the server never runs more transfers than its connection limit.",
  ["schedules", "histories", "configurations"],
  "every interleaving of several clients, repeated requests and packets from foreign addresses, and every connection limit",
  "The end-to-end tests run a few concurrent clients without foreign packets, repeated requests or a reached connection limit.",
  ["src/server/multi_thread.rs", "src/server/single_thread.rs", "src/client/sender.rs", "src/client/receiver.rs", "src/client/connection.rs"],
  [("per-client socket and table", "src/server/multi_thread.rs server"), ("endpoint comparison", "src/client/sender.rs, src/client/receiver.rs, src/client/connection.rs")],
  ["storage calls per client", "datagrams per client", "sockets created"])

p("C16", "Dead transfers end and release their place",
  "When its peer falls silent, or answers only with packets that make no progress, the server gives up the transfer within the request timeout (plus its polling interval), tells the peer, and the place counts as free again, so the server never stays full of dead transfers. A client whose server falls silent returns an error within its own request timeout, both before and during the transfer.",
  ["fault_sequences", "schedules", "histories"],
  "every point of a transfer at which the peer falls silent, vanishes or sends only useless packets, for each of the four transfer loops, and every fill level of the connection table",
  "The tests never let a peer fall silent; a timeout test would need real waiting.",
  ["src/server/helpers/connection.rs", "src/server/multi_thread.rs", "src/server/single_thread.rs", "src/client/sender.rs", "src/client/receiver.rs", "src/client/connection.rs"],
  [("progress deadline", "src/server/helpers/connection.rs timeout_client"), ("client deadline", "timeout in src/client/*.rs")],
  ["virtual time of the last action", "datagrams", "return value", "whether new requests are accepted"])

p("C17", "Transfers complete over a lossy but fair network",
  "If the network eventually delivers what is retransmitted and both ends stay up, a started transfer completes: neither loss, duplication nor reordering of any data block or acknowledgement can bring the two ends into a state where both wait for each other, and the lost packets are retransmitted well within the request timeout. (When only the acknowledgement of the last block of an upload is lost, the server has finished; the client may then report a timeout although the file is complete.)",
  ["schedules", "fault_sequences"],
  "every bounded pattern of lost, duplicated and reordered packets after the option exchange, for every window size and all block readers",
  "The tests never lose a packet, so retransmission and window resynchronisation are never needed for them to pass.",
  ["src/client/sender.rs", "src/client/receiver.rs", "src/server/helpers/read.rs", "src/server/helpers/write.rs", "src/flow_control.rs", "src/client/connection.rs"],
  [("retransmission timers", "src/server/helpers/read.rs send_data_block; src/client/sender.rs; src/flow_control.rs timeout_interval"),
   ("re-acknowledgement of unexpected blocks", "src/server/helpers/write.rs; src/client/receiver.rs")],
  ["return value", "virtual time"])

p("C18", "No input stops the server or crashes a client",
  "Whatever bytes arrive at the server's port or at any of its transfer sockets, the server keeps running and keeps serving other requests, and a malformed packet is ignored or answered with an error without opening any file. A client that receives malformed bytes ignores them or returns an error; it does not crash.",
  ["inputs", "fault_sequences"],
  "every malformation of every packet kind (cut at any byte, unterminated or non-text strings, unknown opcodes and modes, oversized or multi-byte names, repeated and overlong options, short encrypted packets) at every phase",
  "The packet tests parse a few malformed packets in isolation; none is delivered to a running server or client, and error replies for odd names are never produced.",
  ["src/packet.rs", "src/encrypted_packet.rs", "src/encryption.rs", "src/server/multi_thread.rs", "src/server/connection_builder.rs", "src/server/validation.rs", "src/lib.rs"],
  [("total parsing", "src/packet.rs from_bytes"), ("error replies", "src/server/connection_builder.rs, src/server/validation.rs")],
  ["panics", "whether the server still serves", "storage calls", "replies"])

p("C19", "Files encrypted at rest round-trip and reject alteration",
  "A file sent with a file key (--encryption-key) is stored only as ciphertext, every upload under a nonce of its own, and receiving it back with the same key restores the original bytes exactly, whatever was lost and sent again on the way. If the stored bytes were altered, reordered, repeated, cut short, or encrypted under another key, the receiving side does not report success; what it writes is never anything but the beginning of a file that was stored under its key.",
  ["inputs", "fault_sequences"],
  "every file length around block boundaries and every block size; every alteration of the stored stream (changed, swapped, repeated, removed blocks, wrong key)",
  "The unit tests encrypt and decrypt a few fixed buffers; alteration is tested for one byte only, and never through a transfer.",
  ["src/readers/encrypted_stream_reader.rs", "src/writers/encrypted_stream_writer.rs", "src/encryption.rs", "std-binary/src/encryption_io.rs"],
  [("stream cipher with per-block tag and counter", "src/encryption.rs StreamEncryptor/StreamDecryptor")],
  ["stored bytes", "output bytes", "errors"])

p("C20", "A pinned or remembered server key is enforced",
  "A client that authenticates with a key of its own and knows the server's key completes no encrypted transfer, and with a required level no transfer at all, with a server that does not prove that very key. (The optional levels may fall back to an unencrypted transfer.) A remembered key is looked up by exact endpoint name, the first entry counts, and it is only ever added for an endpoint that has none, never replaced.",
  ["inputs", "histories", "configurations"],
  "every reply (right key, other key, missing key, bad or missing signature) for pinned and unpinned clients; every history of sessions against a known-hosts file with comments, prefixes and repeated entries",
  "The tests cover a matching and a mismatching key once; the life of the known-hosts file over several sessions is not tested.",
  ["src/client/connection.rs", "src/client/extensions.rs", "src/key_management.rs", "std-binary/src/encryption_io.rs", "std-binary/src/config.rs"],
  [("pinned key comparison", "src/client/connection.rs query_server"), ("first use only", "std-binary/src/encryption_io.rs handle_hosts_file")],
  ["return value", "contents of the known-hosts file"])

p("C21", "Sending a file that is still being written loses nothing",
  "When a file is sent while another program is still appending to it (sync --start-on-create), or a pipe is sent, the transfer waits for data that has not been written yet and ends only when the file has been closed and everything written before that was sent. The uploaded file is the complete written file, however appends, reads and the close interleave (as long as the writer does not pause beyond the request timeout).",
  ["schedules"],
  "every interleaving of the writer's appends and close with the sender's reads, for every append and block size",
  "One unit test runs a single interleaving of four appends and a close.",
  ["std-binary/src/blocking_reader.rs", "std-binary/src/sync.rs", "src/client/sender.rs", "src/readers/multiple_block_reader.rs", "src/readers/single_block_reader.rs"],
  [("would-block until complete or closed", "std-binary/src/blocking_reader.rs read")],
  ["blocks read", "blocks sent"])

p("C22", "Directory listings are complete and confined",
  "When listings are enabled, requesting the listing name in a directory returns one line for every entry of that directory and nothing else, as paths relative to the served directory with directories marked; when they are not enabled the name is an ordinary file name. A listing never shows a directory outside the served one.",
  ["inputs", "configurations"],
  "every directory content and nesting in a bounded family (files, directories, links in and out), every listing name, and transfers of the listing at every block size",
  "One end-to-end test lists one flat directory.",
  ["std-binary/src/io.rs"],
  [("listing", "std-binary/src/io.rs list_directory, create_server_reader")],
  ["bytes received for the listing request"])

p("C23", "Packets on the wire follow the TFTP formats",
  "Every packet the system sends has the layout of RFC 1350, 2347, 2348, 2349 and 7440, so that a parser written from those documents reads back exactly what was meant; and every packet in those layouts is read with exactly that meaning, independent of option order, of the letter case of the mode and of option names, and of unknown options. Encoding a packet and decoding it again yields the same packet.",
  ["inputs"],
  "every packet kind with every option subset and order, boundary block numbers and payload lengths, and strings at the length limits",
  "The packet tests check a few literal packets; the tests' peers are this same code, so a consistent change of both directions would pass.",
  ["src/packet.rs", "src/client/extensions.rs"],
  [("encoding and decoding", "src/packet.rs ByteConverter")],
  ["datagram bytes", "decoded packets"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, sch)
print(len(P), "properties")
