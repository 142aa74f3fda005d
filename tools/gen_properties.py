import json
L="src/mqtt/listener.rs";H="src/broker/client_packet_handler.rs";M="src/broker/messaging/messaging_service.rs";S="src/broker/messaging/subscriptions_repository.rs";D="src/mqtt/transport/packet_decoder.rs";E="src/mqtt/transport/packet_encoder.rs";B="src/mqtt/transport/mqtt_bytes_stream.rs";A="src/broker/authentication.rs";APP="src/application.rs";P="ratelmq-passwd/src/main.rs";SS="src/broker/session/session_repository.rs";ST="src/settings/mod.rs"
P_=[]
def p(id,title,stmt,over,qt,why,files,mech,obs="packets on client connections"):
    P_.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[obs],hook_needed=None)))
NOE2E="The repository's tests exercise only the subscription trie, the codec on a socket pair and a session map in isolation; no test runs two clients, so "
p("B01","Every message reaches every matching live subscriber",
 "A message published by an accepted client reaches every client that had received the acknowledgement of a matching subscription before the message was sent, provided that subscriber keeps its connection open and keeps reading and does not unsubscribe before it arrives, and that the publisher's connection is not reset. Topic and payload arrive byte for byte, whatever the size, and nothing is dropped because of how many messages, subscribers or publishers are in flight or because the publisher disconnects in an orderly way right afterwards. Delivery completes within a bounded time once the network delivers bytes.",
 ["schedules","histories","inputs","fault_sequences"],"all interleavings of publishers, subscribers and network delays; any number and size of messages; unrelated clients failing at any point",
 NOE2E+"loss that needs bursts larger than a queue, slow links, concurrent subscribers or another client's failure is never reached.",
 [H,M,S,L,B],[("publish fan-out",H+":on_publish"),("per-connection event queue and writer",L+":connection_write_loop"),("subscriber lookup",M+":senders_to_publish")])
p("B02","Clients receive only what was published and matches",
 "Every message a client receives was published by an accepted client with exactly that topic and payload, and the client holds at that time a subscription whose filter matches the topic. For one published message a client receives at most one copy per distinct matching filter it holds; subscribing again to a filter it already holds does not add copies. Bytes of different messages, connections or publishers never mix.",
 ["schedules","histories","inputs","fault_sequences"],"all interleavings and histories of subscribe, unsubscribe, publish, disconnect and reconnect by any number of clients",
 NOE2E+"duplicates or misdirected messages that need re-subscription, reconnects or concurrent publishers are never reached.",
 [H,M,S,E],[("subscription set",S+":subscribe"),("session lookup by client id",M+":senders_to_publish")])
p("B03","Messages of one publisher arrive in publishing order",
 "For every publisher and every subscriber, the messages the subscriber receives from that publisher arrive in the order in which the publisher sent them, across topics and filters. Scheduling, network delays, other publishers, bursts and short writes never reorder them.",
 ["schedules","histories","fault_sequences"],"all task schedules, delays and concurrent publishers",
 NOE2E+"ordering between two messages is never observed.",
 [L,H,M],[("single event queue from readers to handler",L+":connection_read_loop"),("one writer per connection",L+":connection_write_loop")])
p("B04","Topic filters match level by level, whatever the history",
 "A message is delivered to exactly those clients holding at least one filter that matches its topic level by level: '+' stands for exactly one level (also an empty one), a trailing '#' for one or more remaining levels, and any other level only for itself, case-sensitively. Adding or removing filters, in any order and by any clients, never changes what the remaining filters match. (Topics beginning with '$' and topics or filters that MQTT forbids are outside this property.)",
 ["histories","inputs","schedules"],"all histories of subscribing and unsubscribing by several clients with overlapping filters, and all topics",
 "Existing unit tests fix about ten hand-picked filter sets on a fresh tree with no removals and no second operation on the same node; the property is over all histories and topics.",
 [S],[("subscription tree walk",S+":subscribed_clients"),("removal",S+":unsubscribe")])
p("B05","Unsubscribing ends exactly the named subscriptions",
 "After a client has received the acknowledgement of an UNSUBSCRIBE, no message that any client sends afterwards is delivered to it because of the filters named there. Its other filters, and the same or other filters of other clients, keep delivering. Unsubscribing filters that are not held is acknowledged and changes nothing.",
 ["histories","schedules","inputs"],"all histories of subscribe, repeated subscribe, unsubscribe (also of several or unknown filters) interleaved with publishing by others",
 "No existing test unsubscribes at all.",
 [S,H],[("unsubscribe",S+":unsubscribe"),("unsubscribe acknowledgement",H+":on_unsubscribe")])
p("B06","A session's end removes that client's state and only that",
 "When a client's session ends, by DISCONNECT, by loss of the network connection or by a protocol violation, the broker forgets its subscriptions: once the broker has closed its side, a new connection with the same client id is told that no session is present and receives nothing for earlier filters. Sessions, connections and subscriptions of all other clients, including those with the same filters or on the same address, are unaffected.",
 ["histories","schedules","fault_sequences","crash_points"],"all ways and moments in which a client can end (orderly, reset, half-way through a packet, with traffic in flight), any number of reconnects",
 "No existing test ends a connection and looks at the state left behind.",
 [L,H,M,S],[("disconnect handling",H+":on_disconnect"),("connection loss handling",H+":on_connection_lost"),("recursive removal of subscriptions",S+":remove_client")])
p("B07","Each request is answered exactly once and in order",
 "On an accepted connection that stays open, every SUBSCRIBE, UNSUBSCRIBE and PINGREQ is answered exactly once, in the order the requests were sent, with the packet identifier of the request; a SUBACK carries exactly one return code per requested filter, in order, each granting QoS 0. No answer is sent that was not asked for.",
 ["schedules","histories","inputs","fault_sequences"],"all pipelined request sequences and interleavings with deliveries and with other clients",
 "Existing tests encode single acknowledgement packets; none runs the request and reply path.",
 [H,E],[("request handlers",H+":on_packet"),("acknowledgement encoding",E)])
p("B08","Refused credentials give no access at all",
 "A CONNECT carrying a user name is accepted only if the password file has that exact user name and the given password matches its hash; otherwise, also when the password is missing, the client gets a CONNACK with a non-zero return code and the broker closes the connection. Nothing such a connection sends, before or after the refusal, has any effect on other clients, on subscriptions or on an existing session with the same client id. Correct credentials are always accepted.",
 ["inputs","schedules","histories"],"all user names and passwords, all packets pipelined around the refusal, all interleavings with other clients",
 "Authentication has no test at all in the repository; effects of packets pipelined behind a refused CONNECT need an end-to-end schedule.",
 [H,A,L],[("credential check",A+":authenticate"),("refusal",H+":on_connect")])
p("B09","CONNECT comes first, once, and is answered first",
 "A connection whose first packet is not CONNECT is closed without any answer and without any effect. On an accepted connection CONNACK is the first packet the broker sends and it is sent exactly once, even when the client pipelines further packets, which are then processed normally. A second CONNECT on the same connection is a protocol violation: the broker closes that connection and does not act on it.",
 ["inputs","schedules","histories"],"all packet sequences at the start of a connection, all segmentations and interleavings",
 "No existing test opens a connection to a running broker.",
 [L,H],[("first packet check",L+":connection_read_loop"),("CONNACK",H+":on_connect")])
p("B10","A client id belongs to one live connection, the newest",
 "When a connection is accepted with a client id that another live connection uses, the broker closes the older connection, and the subscriptions made on it no longer deliver anything to anyone. The newer session starts clean and its own subscriptions keep working, whatever the older connection still sends and whenever its end is noticed.",
 ["schedules","histories","fault_sequences"],"all orders of takeover, traffic on both connections, and detection of the old connection's end",
 "No existing test connects twice with one client id; the failures need the old connection's end to be processed at particular points.",
 [H,M,L,SS],[("session insertion",M+":session_insert"),("disconnect handling",H+":on_disconnect")])
p("B11","No client can take the broker down for others",
 "Whatever bytes any set of clients sends and however their connections fail, the broker keeps serving all other clients: it accepts new connections and answers and delivers to well-behaved clients within a bounded time once faults stop. No input makes the broker stop, hang or spin.",
 ["inputs","schedules","fault_sequences","histories"],"all byte streams of hostile or failing clients, all failure moments, alone and together",
 "Existing tests feed single well-formed packets to the codec; the handler that all clients share never runs under a misbehaving client.",
 [H,L,D,B,M],[("shared handler loop",H+":run"),("per-connection reader",L+":connection_read_loop"),("decoder",D)])
p("B12","A malformed packet closes its sender and has no effect",
 "When a client sends a packet that violates the MQTT packet format (reserved packet type or one only a server sends, wrong fixed-header flags, QoS 3, over-long length field, lengths that do not fit together, strings that are not UTF-8 or contain a null character, an empty filter list, an empty topic name or filter, wildcards in a topic name or in the wrong place of a filter, packet identifier 0, a password without a user name, trailing or missing bytes), the broker closes that connection within a bounded time. Neither that packet nor any byte after it on that connection has an effect; packets before it are processed normally.",
 ["inputs","schedules"],"all malformed byte strings at every position in a stream, all segmentations",
 "Existing decoder tests contain two or three malformed packets, decoded in isolation; resynchronisation inside a bad stream and the effect on the connection are not tested.",
 [D,B,L],[("packet decoding",D+":read_packet"),("string and length handling",B),("reader loop end",L+":connection_read_loop")])
p("B13","Splitting a byte stream differently changes nothing",
 "How the bytes a client sends are split into TCP segments and read calls has no effect: every stream of valid packets, of any legal packet length, is decoded to the same packets and has the same effects, whether it arrives byte by byte, in one piece, or cut at any place with any delay between the pieces.",
 ["schedules","inputs","fault_sequences"],"all segmentations, delays and read sizes of all valid packet streams, including packets much larger than the read buffer",
 "Existing decoder tests deliver each small packet in one write over a local socket; buffer-boundary alignments and large packets are never reached.",
 [B,D],[("read buffering",B+":wait_for_data"),("chunked reads",B+":get_bytes"),("length field",D+":decode_remaining_length")])
p("B14","Outgoing packets are whole and sent promptly",
 "The bytes the broker sends on a connection are always a concatenation of whole, well-formed packets, never cut, mixed or repeated, whatever sizes the packets have and however the transport accepts them (short writes, back-pressure). Each packet is transmitted completely within a bounded time of the peer reading, without waiting for a later packet.",
 ["fault_sequences","schedules","inputs"],"all short-write and back-pressure patterns, all packet sizes and sequences",
 "Existing encoder tests write one small packet to an idle local socket that accepts everything at once.",
 [B,E,L],[("write buffering",B+":put_bytes"),("flush at packet end",B+":finish_packet")],"bytes on client connections")
p("B15","A finished client's connection is released",
 "Once a client is finished, because it sent DISCONNECT, closed or reset its connection, violated the protocol or was refused, the broker closes its own side and releases the connection within a bounded time, even with messages for it in flight. Repeating this any number of times leaves no connections behind.",
 ["histories","schedules","fault_sequences"],"all ways and moments of ending, any number of repetitions, any traffic in flight",
 "No existing test ends a connection of a running broker.",
 [L,H,M],[("reader end",L+":connection_read_loop"),("writer end",L+":connection_write_loop"),("session removal",M+":disconnect")],"server side of each transport connection")
p("B16","An interrupt shuts the broker down within bounded time",
 "After the interrupt signal the broker accepts no new clients, its run completes without a panic within a bounded time, and the connections it had are closed, whatever connected clients are doing at that moment (idle, publishing in bursts, half-way through a packet, connecting, disconnecting).",
 ["schedules","crash_points","fault_sequences"],"the signal at any moment of any workload",
 "No existing test starts or stops the broker.",
 [APP,H,L,M],[("signal and broadcast",APP+":run"),("handler stop",H+":run"),("listener stop",L+":start_accepting")],"completion of the broker's run")
p("B17","A stalled client does not hold up the others",
 "A client that stops half-way through a packet, never completes its handshake, sits idle for any time, or stops reading does not delay service to any other client: messages between other clients, new connections and answers still complete within a bounded time.",
 ["fault_sequences","schedules"],"all moments at which one or several clients stall, with any traffic around them",
 "No existing test has two clients, let alone one that stalls.",
 [L,H],[("task per connection",L+":handle_connection"),("bounded queues",L+":connection_write_loop")])
p("B18","Idle time and clock steps do not change behaviour",
 "The passage of time and steps of the wall clock (forward, backward, also while clients are connected) do not by themselves disconnect a client that honours its keep-alive, end a subscription, or change what is delivered or answered.",
 ["schedules","fault_sequences","histories"],"all idle periods and clock steps at any point of a session, all keep-alive values",
 "Existing tests run for milliseconds on an undisturbed clock.",
 [H,M,"src/broker/session/session_entity.rs"],[("last activity and keep-alive bookkeeping","src/broker/session/session_entity.rs:is_keep_alive_expired")])
p("B19","All listeners serve one broker and survive accept errors",
 "Every configured listener accepts clients, and clients connected through different listeners exchange messages and share client ids exactly as clients of one listener do. A failing accept call (aborted connection, no descriptors, interrupted) loses at most that connection attempt: the listener goes on accepting.",
 ["configurations","fault_sequences","schedules"],"any number of listeners, any sequence of accept failures",
 "No existing test starts a listener.",
 [L,APP],[("accept loop",L+":start_accepting"),("listener start-up",APP+":run")])
p("B20","A password file update survives a crash in one piece",
 "If ratelmq-passwd is killed, fails on a write, or the machine loses power at any point while it updates the password file, the file afterwards holds either the complete old or the complete new set of entries, never a mixture, a truncation or nothing. If the tool reports success, the new contents are durable.",
 ["crash_points","fault_sequences"],"every system call of the update as crash point, every failing or short write, process kill and power loss",
 "The tool has no tests.",
 [P],[("file rewrite",P+":main")],"contents of the password file after a crash")
p("B21","Setting or deleting a user changes exactly that user",
 "After ratelmq-passwd has set a password for a user, the broker accepts that user name with that password and with no other; after it has deleted a user, the broker refuses that name. Every other entry of the file keeps its exact contents, for any history of such operations, any user names (also prefixes, suffixes, different case or regular-expression characters) and a file with or without a final newline.",
 ["histories","inputs"],"all histories of set and delete over sets of similar user names, with transient I/O faults",
 "The tool has no tests.",
 [P,A],[("entry search and replacement",P+":main"),("file format reader",A+":new")],"password file contents and CONNACK codes of the broker")
p("B22","Messages are forwarded at the granted QoS with clean flags",
 "Because every subscription is granted QoS 0, each message a client receives has QoS 0, no packet identifier, DUP clear and RETAIN clear, whatever QoS, DUP, RETAIN flag or packet identifier the publisher used; topic and payload are those published.",
 ["inputs","schedules","histories"],"all publish flags, identifiers and sizes, all subscribers",
 NOE2E+"the flags of a forwarded message are never looked at.",
 [H,E,D],[("publish fan-out",H+":on_publish"),("publish encoding",E+":write_publish")])
p("B23","Settings come from the environment, then the file, or start-up fails",
 "Each setting takes its value from its RATELMQ_ environment variable if that is set (nested names joined by '__', the items of a list separated by ','), and otherwise from the configuration file. The broker then listens at exactly the configured addresses and lets in exactly the users of the configured password file. If a setting is given in neither place or has the wrong type, the configuration file or the password file cannot be read, or an address cannot be bound, the broker does not start serving.",
 ["configurations","fault_sequences"],"all configuration files and environments, with any bind or file error",
 "The repository notes 'todo: tests for envs precedence'; nothing covers it.",
 [ST,APP,L,A],[("layered configuration",ST+":new"),("start-up",APP+":run"),("binding",L+":MqttListener::bind")])
p("B24","Clients without a client id never share an identity",
 "Clients that connect with an empty client id are each treated as a separate client: however many are connected at once, none takes over another's connection, none receives messages for another's subscriptions, and the end of one leaves the others untouched.",
 ["schedules","histories","inputs"],"any number of concurrent anonymous clients, all interleavings of their operations and ends, with the random source under the simulator's control",
 "No existing test connects without a client id.",
 [L,H],[("generated client id",L+":connection_read_loop")])
p("B25","Repeated use accumulates no memory",
 "What the broker allocates for a client, a subscription, a request or a message it gives back once that is over: however often clients connect and leave (in order or not, accepted or refused), subscribe and unsubscribe (the same or ever new filters, held or not), and publish, the memory the broker holds afterwards stays within a constant bound of what it held after the first few repetitions.",
 ["histories","schedules"],"any number of repetitions of operations that leave nothing behind, under all schedules",
 "No existing test repeats an operation or looks at memory.",
 [S,H,SS,L],[("subscription tree",S+":unsubscribe"),("sessions",H+":on_disconnect"),("connections",L+":connection_read_loop")])
p("B26","Memory in use is bounded whatever clients send",
 "At any moment the memory the broker uses is at most a constant, plus a constant amount for each connection and each subscription held, plus what a fixed number (some dozens) of messages per connection take. It grows neither with the number of messages published to clients that read slowly or not at all, nor with the number of requests a client makes without reading the answers, nor with the lengths that packets merely announce.",
 ["inputs","schedules","histories","fault_sequences"],"any number of publishers, of subscribers that stop reading and of packets that announce up to 256 MB and stay incomplete, under all schedules",
 "No existing test looks at memory or fills a queue.",
 [L,H,B,APP],[("event queue of a connection",L+":handle_connection"),("queue of client events",APP+":run"),("buffers for announced lengths",B+":get_bytes"),("publish fan-out",H+":on_publish")])
LK="src/mqtt/packets/connect.rs"
p("B27","Passwords and their hashes stay inside the broker",
 "Neither a password that a client presents, well formed or not, accepted or refused, nor an entry of the password file with its hash appears in anything the broker writes: its log at any level, its standard output and error, panic messages, or what it sends to any client.",
 ["inputs","histories","schedules"],"all credentials, well-formed and malformed CONNECT packets and password files, at all log levels",
 "No existing test looks at the log or connects with a password.",
 [LK,A,H,D],[("packet logged at debug level",LK+":ConnectPacket"),("authentication log",H+":on_connect"),("password file reader",A+":new"),("string decoding errors",B+":get_string")])
p("B28","The password file gives nothing away",
 "ratelmq-passwd stores each password only as an Argon2 hash of at least the default cost with a fresh random salt of at least 8 bytes, never in clear; it neither prints nor logs a password or hash; no file it creates, also temporarily or left behind when it fails or is killed at any point, can be read or written by anyone who could not do so with the password file; and a successful update keeps that file's owner, group and mode and leaves no other file.",
 ["crash_points","fault_sequences","inputs","histories"],"every file operation of the update as point of failure or kill, all owners, modes, umasks and log levels, long histories of updates",
 "The tool has no tests.",
 [P],[("hashing",P+":build_entry"),("copy with the original's owner and mode",P+":write_copy")])
p("B29","Concurrent updates of the password file are all kept",
 "When several runs of ratelmq-passwd on one file overlap, in any interleaving of their file operations, the outcome is that of running those that report success one after the other: none of their changes is lost. At every moment in between the file is whole, each run succeeds unless an operation of its own fails, and a run that fails or is killed at any point neither damages the file nor holds up the others.",
 ["schedules","crash_points","fault_sequences"],"all interleavings of the file operations of several runs, with one failing or killed at any of them",
 "The tool has no tests.",
 [P],[("lock",P+":lock_file"),("read, change and replace",P+":main")])
MA="src/main.rs"
p("B30","The program starts as its command line says and ends with a status that tells",
 "The ratelmq program serves with the configuration file named by -c or --config, else /etc/ratelmq/ratelmq.conf; variables in the nearest .env file, from the working directory upwards, count as environment variables unless these are set already. It keeps serving until it is interrupted, however long that takes, and then exits with status 0. When the configuration is missing or invalid, an address cannot be bound or the command line is wrong, it exits with a non-zero status and serves nobody; --help and --version print and exit with status 0 without serving.",
 ["configurations","inputs","schedules","fault_sequences"],"all command lines, working directories, .env files, environments and configuration files, with any bind error, and an interrupt at any time",
 "No test starts the program; the command line is not covered at all.",
 [MA,APP,ST],[("program entry",MA+":main"),("start-up and shutdown",APP+":run"),("layered configuration",ST+":new")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P_))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P_: jsonschema.validate(x,sch); assert len(x['title'])<=80
print(len(P_))
