import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state: a["state"]=[{"name":x,"where":files[0]} for x in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]="a constructor for session ids" if hook else None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CI="engine/src/command/impl/"
p("C01","Commands act on a typed key-value map",
"Every sequence of commands answers, and leaves every key holding, exactly what a simple typed map does: set replaces value and type and get returns it unchanged, delete removes, an untyped command takes the type of the existing value or the command's documented default, existence, type, type-check, key-listing, length and echo commands report the truth and change nothing. A command that asks for a type the key does not have, a missing key, a missing argument or an unsupported type fails with the error defined for it.",
["histories","inputs"],"all sequences of commands up to a depth, over all commands x all requested types x representative keys and arguments, including malformed argument lists",
"Each command has a few unit tests with one fixed key and value; no test runs command sequences, mixes types, or compares against a specification.",
["engine/src/hop.rs",CI+"set.rs",CI+"get.rs",CI+"delete.rs",CI+"exists.rs",CI+"is.rs",CI+"type.rs",CI+"keys.rs",CI+"length.rs",CI+"echo.rs","engine/src/state/mod.rs"],
"Hop::dispatch selects a command implementation, which reads and writes State (a concurrent map of keys to Value)",["State map of Key to Value"],["the response bytes of Hop::dispatch","State::key_ref / contains_key / key_type"])
p("C02","A command that fails changes nothing and writes no partial answer",
"Whenever a command answers with an error, no key was created, removed or changed in type or value by it, and no bytes of a success answer were produced for it.",
["histories","inputs"],"every failing command instance in every reachable small state (all commands x types x argument counts x existing value types)",
"Tests assert the error code only; none inspects the keys or the response buffer after a failure.",
[CI+"append.rs",CI+"increment_by.rs",CI+"decrement_by.rs",CI+"set.rs",CI+"rename.rs","engine/src/hop.rs"],
"validation happens before key_or_insert_with creates the default value and before the response is written",["State map of Key to Value"],["complete state before and after Hop::dispatch","response buffer"])
p("C03","Increment and decrement compute exactly the right number",
"Incrementing or decrementing by one or by an amount adds or subtracts exactly that amount to the key's number (two's complement wrap-around for integers, IEEE arithmetic for floats), stores it and answers it; a missing key starts from zero, as a float if floats were requested and as an integer otherwise. The operation never changes the key's type, never panics, and refuses an amount of fewer than 8 bytes.",
["inputs","histories"],"all sequences of arithmetic commands over boundary integers and floats (including extremes, NaN, infinities, signed zero), all requested types and all existing value types, up to a depth",
"Tests use 1 and 3 from a missing key; nothing covers boundaries, floats by amount, or untyped commands on float keys.",
[CI+"increment.rs",CI+"decrement.rs",CI+"increment_by.rs",CI+"decrement_by.rs"],
"increment_int_by / increment_float_by on a held mutable reference",["numeric Value of the key"],["response bytes","State::key_ref"])
p("C04","Append keeps everything already there and adds in order",
"Appending to a bytes, list or string key leaves the existing content as an unchanged prefix and adds the given pieces after it in the order given (one list element per piece, invalid text pieces left out), answers the whole new value, and creates a missing key of the requested type (bytes if none was requested). Appending never changes a key's type, and the length command reports the resulting number of bytes, elements or characters.",
["histories","inputs"],"all sequences of append/set/length/get commands over a small alphabet of pieces (empty, ASCII, multi-byte, invalid UTF-8), all requested and existing types, up to a depth",
"There is no engine test of append at all; client tests append once.",
[CI+"append.rs",CI+"length.rs","engine/src/command/request/mod.rs"],
"Append::{bytes,list,string} extend the value under a held mutable reference",["appendable Value of the key"],["response bytes","State::key_ref"])
p("C05","Rename moves a value without ever losing, copying or overwriting one",
"A rename that reports success has moved the source's exact value to a destination key that did not exist, removing the source; a rename that fails has not moved anything. This holds under any interleaving with other commands: no value is ever in two places, no value that another command created under the destination is overwritten, and no value disappears unless a command deleted or overwrote it.",
["schedules","histories"],"all interleavings (at every lock acquisition) of up to three threads running renames against sets, deletes, increments, appends, gets and other renames, plus all sequential histories up to a depth",
"Tests rename once on one thread; the loss needs another command between the check and the move.",
[CI+"rename.rs","engine/src/state/mod.rs"],
"Rename checks both keys, removes the source and inserts the destination only if vacant",["State map of Key to Value"],["responses of all threads","final state"])
p("C06","Commands on a single key are linearizable",
"For every interleaving of concurrent commands that each touch one key, the answers and the final state are the same as if the commands had run one at a time in some order consistent with real time. In particular no increment, append, set or delete is lost, repeated or half visible.",
["schedules","programs"],"all interleavings at lock-acquisition granularity of all 2- and 3-thread programs of a bounded size over the single-key commands, all initial value types, with colliding and non-colliding shards",
"No test runs commands on more than one thread.",
["engine/src/state/mod.rs",CI+"increment_by.rs",CI+"append.rs",CI+"set.rs",CI+"delete.rs",CI+"get.rs","engine/src/hop.rs"],
"each command performs its read-modify-write while holding one shard guard of the concurrent map",["State map shards and their locks"],["responses of all threads","final state"])
p("C07","No command can block or deadlock the engine",
"Whatever the interleaving and whichever keys collide internally, every command completes once the other commands' finite work is scheduled: no set of concurrent commands ever waits on itself or on each other forever, and a command never panics. This includes commands naming the same key more than once.",
["schedules","programs"],"all interleavings of bounded multi-thread programs over all commands including multi-key ones, session, pubsub and metrics operations, with one shard (every key collides) and many shards",
"A deadlock needs a specific interleaving and key collision; single-threaded tests cannot produce one.",
["engine/src/state/mod.rs","engine/src/pubsub/manager.rs","engine/src/session/manager.rs",CI+"rename.rs",CI+"stats.rs","lib/metrics/src/lib.rs"],
"shard guards are dropped before another key of the same map is accessed",["shard locks of all concurrent maps"],["scheduler: set of runnable threads"])
p("C08","A built request parses back to exactly itself",
"Any request that the request builder produces, when its bytes are parsed, yields the same command, requested type, number of arguments and arguments, and the same bytes; rebuilding from a parsed request and adding arguments behaves like building it in one go.",
["inputs"],"all commands x all requested types x all argument lists up to a count over representative argument lengths (1, around 255/256, 65535/65536) plus argument counts 0..255",
"Tests compare a few built byte strings; the parser is tested with one request and its arguments are never read.",
["engine/src/command/request/builder.rs","engine/src/command/request/context.rs","engine/src/command/request/mod.rs"],
"RequestBuilder::push_argument and Context::feed both maintain argument end positions",["argument positions","argument count byte"],["Request accessors"])
p("C09","Request parsing does not depend on how the bytes arrive",
"However a stream of requests is cut into chunks, parsing the accumulated bytes reports a request exactly when its last byte has arrived and never before, with the same content as parsing it whole, and accounts for exactly that request's bytes so that the requests following it in the stream are parsed correctly. The parser can be reused for any number of requests, including after a rejected one.",
["inputs","histories"],"all split points (all 2^(n-1) chunkings for short streams) of all streams of up to 3 requests from a representative set, fed through one parser",
"The only parser test feeds one complete request in a single chunk.",
["engine/src/command/request/context.rs"],
"Context::feed keeps stage, index and positions across calls",["Context stage/idx/positions"],["return value of feed","Request::as_bytes length"])
p("C10","Arbitrary bytes never crash the request parser or the engine",
"For every byte string, parsing ends in a request, a defined parse error or a wait for more bytes (exactly as the wire format says), and running any parsed request ends in an answer or a defined error; nothing panics. An unknown command or type number is always rejected.",
["inputs"],"all byte strings up to a length over the full byte range for the head and a reduced alphabet for the rest, plus all single-byte mutations and truncations of valid requests, each run against the engine in several states",
"Fuzz-like input space: tests contain only well-formed requests.",
["engine/src/command/request/context.rs","engine/src/command/request/mod.rs","engine/src/hop.rs","engine/src/state/mod.rs"],
"Context::feed stages, Request accessors, per-command argument validation",["Context stage"],["return value or panic of feed and dispatch"])
p("C11","An encoded response decodes back to the same value",
"Every value and every error the engine can answer with is encoded so that decoding yields the same type and content: empty and non-empty bytes, strings, lists, maps and sets, all integers and floats bit for bit, both booleans, and every error code. Encodings are appended to what the buffer already holds and several can be decoded one after the other.",
["inputs"],"all values up to a size over representative elements for all eight types, boundary lengths (255/256, 65535/65536), all error codes, and all pairs in one buffer",
"Tests decode hand-written bytes of a few non-empty values; empty collections and boundary lengths are never round-tripped.",
["engine/src/command/response/mod.rs","engine/src/command/response/context.rs"],
"write_* encoders and Context::feed decoder stages",["length and count fields"],["decoded Response"])
p("C12","The response decoder asks for exactly the bytes that are missing",
"Fed any prefix of a well-formed response, the decoder asks for exactly the bytes that are known to be missing: the rest of the four bytes of the length, or else the rest of the response, never less nor any beyond its end. Following its requests it concludes exactly at the response's last byte with the right value, for any way of delivering the bytes. It ignores bytes after the response and can be reused for the next one.",
["inputs","histories"],"all prefixes of all responses in a representative set, all chunkings of short ones, with and without trailing bytes, reusing one decoder",
"Tests feed whole buffers or one fixed split; asking for too much would block a client forever and no test has a stream.",
["engine/src/command/response/context.rs"],
"Context::feed returns Instruction::ReadBytes(n) or Concluded",["Context stage/idx"],["Instruction values"])
p("C13","A malformed response never crashes the decoder",
"For every byte string, whatever lengths and counts it claims, the decoder ends in a value, a defined error or a request for a positive number of further bytes, and never panics, loops or concludes a value from bytes that were not there. Unknown kinds, unknown error codes and invalid text are reported as their defined errors.",
["inputs"],"all byte strings of a bounded shape: header lengths x kinds x count/length fields x payloads, exhaustively over small alphabets, and all single-byte mutations of valid responses",
"Tests contain two invalid inputs.",
["engine/src/command/response/context.rs"],
"bounds checks in every decoder stage",["Context stage/idx"],["return value or panic of feed"])
p("C14","The request builder refuses what the wire format cannot carry",
"The builder accepts bytes and list items exactly when they are non-empty, and any argument only if the request then has at most 255 arguments, whichever way it is given (bytes, or the one, n or 2n arguments of a value); otherwise it returns an error and the request does not carry the refused argument. The count of the request is always the number of arguments it carries. Empty bytes, text, maps and sets are refused as values.",
["inputs","histories"],"all combinations of prior argument count (0..255 boundaries) x value kinds x element counts around the limit, and all short sequences of builder calls",
"Tests add at most two arguments.",
["engine/src/command/request/builder.rs"],
"argument_count is a single byte on the wire; arguments_would_overfill guards it",["argument_count"],["builder results","bytes of the built request"])
p("C15","Wire numbers, names and types map one-to-one and stay fixed",
"Commands, key types, error codes and response kinds each have the fixed documented number and (for commands and metrics) name: converting to the number or name and back is the identity, every other number or name is rejected, no two share one, and asking a value for its kind, or whether it is or can be viewed as a kind, agrees with what it holds.",
["inputs"],"all 256 byte values for each numbered type, all names and near-miss names, all eight value kinds x all predicates and views",
"Tests check the defined variants only, not the other numbers, and no predicate or view.",
["engine/src/command/command_id.rs","engine/src/command/error.rs","engine/src/state/mod.rs","engine/src/state/value.rs","engine/src/command/response/mod.rs","engine/src/command/request/context.rs","engine/src/metrics.rs"],
"TryFrom<u8>, FromStr, name(), Value accessors",["none"],["conversion results"])
p("C16","The server answers every request on a connection once and in order",
"Whatever the fragmentation, pipelining or short writes, a connection receives exactly one answer per request, in request order, equal to what the engine answers for that sequence of commands; an answer does not wait for bytes of a later request. An unparseable request is answered with its parse error and the connection stays usable for what is sent afterwards.",
["inputs","schedules","fault_sequences"],"all chunkings of streams of representative requests (including ones containing any delimiter-like byte), short reads and short writes, exhaustively within a bound, against the server's own connection handler",
"The server has no test.",
["server/src/main.rs","engine/src/command/request/context.rs"],
"handle_socket_inner: accumulate, feed, dispatch, write, drain",["input and response buffers of a connection"],["bytes written to the socket"])
p("C17","One connection's faults never affect another or the server",
"With any number of connections being opened, fed, reset, half-closed or abandoned mid-request at any point, and with failing accepts, reads and writes, the server keeps accepting and every other connection still gets its own complete answers; all connections act on the same data. A connection that reaches end of stream or fails is closed, and an incomplete request is never executed.",
["schedules","fault_sequences"],"all interleavings of a bounded set of connection events (data chunk, end of stream, reset, accept error, write error) and task scheduling orders",
"The server has no test.",
["server/src/main.rs"],
"main accept loop spawns handle_socket per connection sharing one engine",["per-connection task","shared engine"],["bytes written to each socket","accept calls"])
p("C18","Concurrent callers of a network client each get their own answer",
"However calls on one connected client are interleaved, and whichever of them are abandoned midway, each completed call returns the server's answer to that very call or reports a connection error, never the answer to another call; requests reach the server whole. A call without faults always completes.",
["schedules"],"all poll/cancel interleavings of up to 3 concurrent calls against all response delivery orders and fragmentations within a bound",
"The network client has no test.",
["client/src/backend/server.rs"],
"send_and_wait holds the reader lock across write and read, and marks the connection while a response is pending",["reader/writer locks","pending flag"],["results of the calls","bytes on the wire"])
p("C19","Client calls return the same over the network as in memory",
"Every client call has the same outcome (value, or the same kind of failure) on a client connected to a server as on an in-memory client in the same state, and both are what the engine answers for the corresponding command with the corresponding type; the effects on the data are identical too.",
["histories","inputs"],"all sequences up to a depth of client calls (all methods x value types x keys) run on both kinds of client, network bytes delivered in all small fragmentations",
"The network client has no test; the in-memory one is tested one call at a time.",
["client/src/backend/server.rs","client/src/backend/memory.rs","client/src/backend/mod.rs","client/src/request"],
"both backends implement the Backend trait by building requests and decoding responses",["engine state behind each backend"],["results of client calls"])
p("C20","The typed client API never panics and enforces the type asked for",
"Awaiting any client call, in any state of the data, resolves to a value of the requested type or to an error: a typed get, append, increment or decrement of a key of another type is an error, what a typed set stored is what the typed get of that type returns, and too many or no keys are refused up front. No call panics.",
["histories","inputs"],"all client calls x all existing value types x boundary arguments (empty key, empty value, empty collection, 255/256 items), in all states reachable in a few calls",
"Tests and doc examples cover the matching-type path only.",
["client/src/request","client/src/backend/memory.rs","client/src/lib.rs"],
"request futures convert the engine's Value to the requested type",["engine state"],["results of client calls"])
p("C21","Connection faults surface as errors, never as wrong values or panics",
"If connecting fails, or the connection breaks, ends or delivers bytes that are no valid answer at any point of a call, that call returns an error of the matching kind (connecting, writing, reading, closed, bad response) and no later call on that connection returns a value that is not the answer to it. Nothing panics or waits forever after end of stream.",
["fault_sequences","schedules"],"a fault (connect error, write error after k bytes, read error or end of stream after k bytes, malformed answer) injected at every byte position of every call in bounded call sequences",
"The network client has no test.",
["client/src/backend/server.rs","client/src/lib.rs"],
"send_and_wait error mapping; Client::connect",["pending flag","stream position"],["results of the calls"])
p("C22","Subscriptions are exactly the ones made and not yet ended",
"Subscribing succeeds exactly when that session is not already subscribed to that key, unsubscribing exactly when it is, and removing a session ends all its subscriptions and only its own, reporting whether there were any; looking a subscription up finds it exactly while it exists. Ending a session's subscriptions closes their channels. All this holds for operations running concurrently, for different sessions or for one, as if they had run one at a time in some order.",
["histories","schedules"],"all sequences of subscribe/unsubscribe/remove/lookup operations over 2 sessions x 2 keys to a depth (all reachable states), and all interleavings of two and three threads acting for different sessions or for the same",
"The manager has no behavioural test.",
["engine/src/pubsub/manager.rs","engine/src/pubsub/mod.rs"],
"two maps: key to sessions and session to subscriptions",["keys map","sessions map"],["results of manager calls","Weak<Subscription> and channel state"],True)
p("C23","Session ids are unique and every session can be added and removed once",
"Sessions added at any time and from any threads get pairwise different ids among the active ones, carry the token they were added with and the id they are stored under; removing succeeds exactly once per added session and never affects another. Adding never panics.",
["schedules","histories"],"all sequences of add/remove to a depth, and all interleavings of up to 3 threads adding and removing, including an id counter about to wrap",
"The manager has no behavioural test.",
["engine/src/session/manager.rs"],
"atomic id counter plus a map entry per session",["next id","sessions map"],["returned session id and key","result of remove"])
p("C24","Statistics count every command and session exactly once",
"The reported numbers of successful commands, failed commands, started sessions and ended sessions always equal the numbers of such events that completed before, and every event counts in exactly one of them, for every history and every interleaving of concurrent commands; asking for statistics reports what was counted before it.",
["histories","schedules"],"all sequences of commands and session operations to a depth, and all interleavings of 2-3 threads",
"One test checks that the stats response is a map.",
[CI+"stats.rs","engine/src/hop.rs","engine/src/metrics.rs","engine/src/session/manager.rs","lib/metrics/src/lib.rs","client/src/model.rs"],
"Hop::dispatch increments a counter per outcome; SessionManager counts sessions; Stats reads them",["counters map"],["stats command response","metrics reader"])
p("C25","Metrics neither lose nor leak updates",
"A counter's value is the number of increments made on it, a gauge's the last value written, each key and kind independent of the others and absent until written; a snapshot never changes afterwards and never changes the live values, and instances do not affect each other. Readers and writers report an instance as gone exactly once it is dropped, then reading nothing and refusing writes; concurrent updates are never lost.",
["histories","schedules"],"all operation sequences to a depth over 2 keys x 2 kinds x instance/reader/writer/snapshot lifetimes, and all interleavings of 2-3 threads",
"Tests cover one or two sequential updates.",
["lib/metrics/src/lib.rs"],
"concurrent maps of counters and gauges behind weak references",["counters and gauges maps"],["Reader, Writer, Snapshot results"])
p("C26","The timer reports the time between its start and its stop",
"The timer starts once until reset, stops once after being started, is running exactly in between, and its duration is the difference of the clock at the successful stop and the successful start, available exactly while stopped; a reset timer behaves like a new one. Clones are independent and equal timers behave equally.",
["histories","inputs"],"all operation sequences to a depth x all assignments of clock readings from a set including second boundaries and out-of-range fields",
"Tests use the real clock, so no exact duration is ever checked, and short fixed call sequences.",
["lib/timer/src/lib.rs"],
"start/stop are optional clock readings",["start","stop"],["return values of timer methods"])
p("C27","A command line becomes exactly the request it spells out",
"Parsing a command line yields the named command, the type suffix if one is given and none otherwise, and the words as arguments, each encoded as the given type (numbers and booleans as their wire encodings, anything else verbatim, keys always verbatim); what is not a command, not of the type, lacks its key or is an incomplete map is refused with the matching error. Parsing never panics.",
["inputs"],"all lines of up to a number of words over an alphabet of command names, type suffixes (and near misses), keys and arguments including empty words, multi-byte text and extremes",
"Tests parse a handful of lines.",
["cli/lib/src/parse.rs","engine/src/command/command_id.rs"],
"parse splits on spaces, resolves the command and type, and converts arguments",["none"],["parsed request or error"])
p("C28","The command line interface runs the line and prints the true answer",
"Running a line has the effect of its command and prints the complete answer: every element of a list, map or set on its own line, numbers, booleans, text and types as such, and a fixed message for each kind of failure; it never panics and a failed line leaves the data as it was.",
["histories","inputs"],"all sequences of up to 2 lines from an alphabet of lines, in all states over all value types with empty, one- and multi-element and multi-byte content",
"There is no test that runs a line or prints a collection.",
["cli/lib/src/process.rs","cli/lib/src/print.rs","cli/lib/src/parse.rs"],
"process parses, calls the client and renders the value",["engine state"],["printed text"])
p("C29","The embedded key store behaves as a map with stable references",
"Used directly, the key store behaves as one map of keys to values: inserting returns the replaced value, removing returns the removed pair, lookups, existence and type agree with the last write, get-or-insert runs its default only when the key is missing and otherwise keeps the value, and changes made through a mutable reference are what is read afterwards. Handles cloned from one store share it; separate stores and separate engines share nothing.",
["histories"],"all operation sequences to a depth over 2 keys x several values x two handles and a separate store",
"Tests check the type lookup only; the doc examples are single calls.",
["engine/src/state/mod.rs","engine/src/hop.rs"],
"State wraps a shared concurrent map",["State map"],["results of State methods"])
p("C30","The server listens where it is configured to",
"The server binds to the host and port given in its environment, and for each of them that is absent or not valid to its documented default; if binding fails it ends with that error instead of running.",
["configurations","fault_sequences"],"all combinations of absent, valid (IPv4, IPv6, port bounds) and invalid values of the two settings, with binding succeeding or failing",
"The server has no test.",
["server/src/main.rs"],
"Config::new reads HOST and PORT",["none"],["address passed to bind","process outcome"])
p("C31","The interactive program answers every line in turn",
"The interactive program prompts, reads a line, runs it on the one in-memory store it keeps and prints its complete output and an end of line before it prompts again, for every line of its input and in order, however the input arrives and the output is taken. A line it cannot parse may end it with an error; when its input ends or a stream fails it ends, running nothing that was not entered, and it never panics, spins or ends otherwise.",
["inputs","fault_sequences"],"all sequences of lines to a depth, with and without the last end of line, all ways to cut them, short and delayed reads and writes, a fault at every read and write",
"The program has no test.",
["cli/bin/src/main.rs"],
"run() loops over lines, process() returns what is printed",["the store of Client::memory","input buffer"],["bytes on the standard output","process outcome"])
p("C32","An engine runs with the configuration it was built with",
"An engine reports each setting as it was last set on its builder, or else its documented default (publish/subscribe enabled, no limit of sessions). Engines built from copies of a builder do not affect each other, and neither copying nor using an engine changes its configuration.",
["configurations","histories"],"all histories of setting, copying, building and using to a depth",
"The settings have a documentation example only.",
["engine/src/hop.rs"],
"Builder wraps a Config, Hop keeps it",["Config"],["results of Config's accessors"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
print(len(P))
