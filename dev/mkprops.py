import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    if hook: a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/string/"
p("C01","Restricted string types admit exactly their documented bytes",
 "Validating bytes into a restricted string type (no-NUL, line, word, argument, target, nickname, username, key, command) succeeds exactly when every byte is in that type's documented class and the type's rules on emptiness and on a leading colon hold. Narrowing from a wider type gives the same verdict as validating from scratch, and non-ASCII bytes are either all allowed or all rejected by a type.",
 ["inputs"],"every byte string, every restricted type, every way of validating it",
 "Tests sample a handful of strings; the class must be right for all 256 bytes at every position in every type, including every byte dropped or added by a later edit of one type's table.",
 [S+"subtypes.rs",S+"subtypes/macros.rs",S+"subtypes/impls.rs"],[("per-type byte predicates and first-byte checks",S+"subtypes.rs"),("validators generated for each type",S+"subtypes/macros.rs")])
p("C02","Safe operations never produce an invalid restricted string",
 "No operation callable without unsafe code yields a value of a restricted string type whose bytes were not established to be valid for that type, whether by validation, by taking part of an already valid string up to the first disallowed byte, by conversion from a narrower type, or from a validated literal. Every place that skips validation is backed by one of these arguments on all paths.",
 ["programs","inputs"],"every caller of the public API and every input",
 "A skipped validation only shows for the inputs that would have been rejected; the argument has to hold at each of the unchecked construction sites on every path.",
 [S+"subtypes/macros.rs",S+"subtypes/impls.rs",S+"splitter.rs",S+"builder.rs",S+"bytes.rs",S+"tf/escape.rs","src/ircmsg/numeric.rs","src/ircmsg/servermsgkind.rs"],
 [("unchecked constructors and transmutes",S+"subtypes/macros.rs"),("validity-tracking splitter",S+"splitter.rs"),("concatenating builder",S+"builder.rs")])
p("C03","Case mapping and trimming are exact and keep strings valid",
 "ASCII case mapping changes exactly the ASCII letters, in either direction. RFC 1459 lowercasing additionally maps exactly [, ] and \\\\ to {, } and | and, unless strict, ~ to ^. Both apply at every position of the string. Trimming removes only whitespace at the requested ends, and none of these operations can turn a valid restricted string into an invalid one.",
 ["inputs"],"every byte string, both directions, every type they are offered on",
 "Nick and channel comparison depends on all 256 bytes at all positions; tests check a few letters.",
 [S+"tf/casemap.rs",S+"tf/trim.rs",S+"tf.rs"],[("case maps",S+"tf/casemap.rs"),("trim",S+"tf/trim.rs")])
p("C04","Tag value escaping is reversible and wire-safe",
 "Escaping a message tag value replaces each of semicolon, space, CR, LF and backslash by its own two-byte escape and copies every other byte, so escaped text contains none of the first four. Unescaping maps exactly those escapes back, drops the backslash of an unknown escape and a trailing lone backslash, and copies everything else.",
 ["inputs"],"every tag value, every escape sequence at every position",
 "Round trips must hold for every byte in every position, including the first escape in a value; tests only cover a few strings.",
 [S+"tf/escape.rs","src/ircmsg/tags.rs"],[("escape/unescape tables",S+"tf/escape.rs")])
p("C05","Strings derived from a secret string are secret",
 "Cloning, taking ownership, splitting, transforming, re-encoding as UTF-8 or base64, and converting between string types never loses the secret mark: every string value produced from a secret string is itself secret. Values created from secret buffers or secret deserialisation are secret from the start.",
 ["programs","inputs"],"every sequence of string operations applied to a secret",
 "Losing the mark in one operation leaks a password only in logs produced by programs that use that operation on a secret; tests would have to enumerate all operation chains.",
 [S+"bytes.rs",S+"splitter.rs",S+"builder.rs",S+"secretbuf.rs",S+"tf/escape.rs",S+"subtypes/macros.rs"],[("secret flag of byte strings",S+"bytes.rs")])
p("C06","Secret contents never appear in formatted output",
 "Displaying or debug-printing a secret string, any string type wrapping it, a secret buffer, or any credential-holding type prints a placeholder instead of the contents, on every path. Credentials loaded by the client are held in secret strings.",
 ["inputs","configurations"],"every formatting path of every type that can hold a secret",
 "Formatting is reached from any log statement or derived debug implementation; tests print a few types.",
 [S+"bytes.rs",S+"secretbuf.rs",S+"subtypes/macros.rs","src/client/auth/secret.rs","src/client/auth/sasl/password.rs","src/client/auth/sasl/external.rs"],[("display and debug of byte strings",S+"bytes.rs"),("secret providers","src/client/auth/secret.rs")])
p("C07","Secret buffers are wiped before their memory is released",
 "When a growable secret buffer is dropped, reallocated or rejected, its whole allocation is overwritten before the memory goes back to the allocator. The buffer of an owning secret string is overwritten over its whole allocation when the last reference to it is dropped.",
 ["histories","programs"],"every way a secret-holding allocation can be released",
 "Freed memory cannot be observed portably from a test, and each release path needs it.",
 [S+"secretbuf.rs",S+"bytes.rs","src/util/ownedslice.rs"],[("secret buffer drop and growth",S+"secretbuf.rs"),("raw buffer overwrite","src/util/ownedslice.rs")])
p("C08","A string marked as valid UTF-8 really is valid UTF-8",
 "The cached UTF-8 knowledge of a string is only ever set to valid for text that came from a Rust string, passed a UTF-8 check over exactly the bytes concerned, or is a part or transformation that provably preserves validity. Splitting, restoring a saved split position, concatenating and transforming never carry the mark over to bytes it was not established for.",
 ["inputs","histories"],"every byte string and every sequence of split/transform/restore operations",
 "A wrong mark is undefined behaviour only for particular non-UTF-8 contents after particular operation sequences.",
 [S+"bytes.rs",S+"splitter.rs",S+"builder.rs",S+"tf.rs"],[("cached validity",S+"bytes.rs"),("encoding tracked while splitting",S+"splitter.rs")])
p("C09","Shared string buffers are released once, after the last use",
 "A shared buffer's reference count is raised for every additional holder and lowered once per drop, and only the thread that takes it to zero releases the buffer, ordered after all other holders' accesses. A buffer is only taken back for reuse when the count shows a single holder, and text borrowed from a buffer is never handed out beyond its owner.",
 ["schedules","histories"],"every interleaving of clones and drops across threads",
 "Ordering bugs in reference counting need a particular interleaving on weakly ordered hardware.",
 ["src/util/thinarc.rs","src/util/ownedslice.rs",S+"bytes.rs"],[("reference counting","src/util/thinarc.rs"),("owner/borrow pairing",S+"bytes.rs")])
p("C10","Raw buffer accesses stay inside their allocation",
 "Every read or write through a raw pointer into a string or secret buffer lies within the allocation, and memory is returned to the allocator with the pointer and capacity it was obtained with. Reads never expose uninitialised bytes, and a secret buffer's length is exactly the number of bytes put into it.",
 ["inputs","histories"],"every buffer length/capacity combination and operation order",
 "Off-by-length errors corrupt the heap only when spare capacity and length interact; tests use small buffers that do not crash.",
 ["src/util/ownedslice.rs",S+"secretbuf.rs","src/util/thinarc.rs"],[("owned slice","src/util/ownedslice.rs"),("secret buffer",S+"secretbuf.rs")])
p("C11","String equality, ordering and hashing depend on content alone",
 "Two strings compare equal, order and hash the same exactly as their byte contents do, regardless of string type, ownership, secrecy or cached encoding knowledge, and a borrowed byte slice used as a lookup key agrees with the owned key. No comparison reports inequality for equal contents.",
 ["inputs"],"every pair of strings and every combination of their internal flags",
 "Map lookups silently fail if any of the comparison, ordering and hashing implementations disagrees for one combination of flags.",
 [S+"bytes.rs",S+"subtypes/macros.rs","src/names/types.rs"],[("comparison traits",S+"bytes.rs")])
p("C12","A written message is one line and cannot be injected into",
 "Everything written for a client or server message consists of fixed separators and strings whose types exclude CR, LF and NUL, fields that must not contain spaces are of types that exclude them, and a trailing argument with spaces or a leading colon is preceded by a colon. The line terminator is written exactly once, at the end, and text left from an earlier message is never included.",
 ["inputs","programs"],"every message value constructible through the API",
 "Injection needs an unusual field value in one particular field; tests write a few ordinary messages.",
 ["src/ircmsg/client.rs","src/ircmsg/server.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs","src/ircmsg/source.rs","src/ircmsg/codec.rs"],[("message writers","src/ircmsg/client.rs"),("line terminators","src/ircmsg/codec.rs")])
p("C13","Only the last argument of a message can be a long one",
 "An argument list holds single-word arguments except that its last may be arbitrary line text, through every construction and edit; adding after a long last argument drops or replaces it rather than leaving it in the middle. The words view never exposes a long argument and the split into words and trailing text is consistent with it.",
 ["histories","inputs"],"every sequence of argument edits",
 "A list with a long argument in the middle only arises from particular edit orders and reads back as different arguments.",
 ["src/ircmsg/args.rs"],[("argument list and edit guard","src/ircmsg/args.rs")])
p("C14","Reading a message from a stream is bounded",
 "Every reader of messages from a byte stream stops after the documented maximum message length and reports an over-long line as an error instead of buffering without limit, in both the blocking and the asynchronous readers and for both message directions. A line is only accepted once its terminator has been seen.",
 ["inputs"],"every byte stream a peer can send",
 "An unbounded read only shows against a hostile peer that never sends a line break.",
 ["src/ircmsg/codec.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs"],[("bounded line readers","src/ircmsg/codec.rs")])
p("C15","Parsing any input terminates",
 "Every loop that parses message text consumes input or shrinks its remaining work on each iteration, so parsing any line, tag list, argument list, source, mode string or capability list finishes.",
 ["inputs"],"every byte string given to a parser",
 "A parser that fails to advance hangs only on the specific malformed input that hits that branch.",
 ["src/ircmsg/tags.rs","src/ircmsg/args.rs","src/ircmsg/source.rs","src/ircmsg/server.rs","src/ircmsg/client.rs","src/ircmsg/ctcp.rs","src/client/cap.rs","src/state/mode.rs","src/names/isupport.rs"],[("splitting loops","src/ircmsg/tags.rs"),("split primitives",S+"splitter.rs")])
p("C16","Server input cannot cause a panic",
 "Parsing bytes received from a server, and running the built-in handlers on the resulting message, never panics: no reachable indexing, slicing, unwrapping or arithmetic can fail for any input.",
 ["inputs","histories"],"every message a server can send, in every handler state",
 "A panic needs the one malformed message whose shape the code did not anticipate.",
 ["src/ircmsg","src/client/register/handler.rs","src/client/auth/handler.rs","src/client/cap.rs","src/client/handlers","src/names/isupport.rs"],[("message parsers","src/ircmsg/server.rs"),("registration handler","src/client/register/handler.rs")])
p("C17","Keyed collections hold one entry per key and find what they hold",
 "After any sequence of insertions, updates and removals, a tag list or name map holds at most one entry per key, a lookup finds exactly the entries present, and its reported size is the number of entries. Of entries with the same key given together the last is kept. No entry is released twice, and an edit abandoned midway leaves a map that still finds what it holds.",
 ["histories","inputs"],"every sequence of edits in every key order",
 "The edit structure keeps a sorted prefix and an unsorted tail; wrong results need particular interleavings of inserts, removals and lookups.",
 ["src/util/flatmap.rs","src/names/types.rs","src/ircmsg/tags.rs"],[("sorted map and edit guard","src/util/flatmap.rs")])
p("C18","Numeric replies are always three decimal digits",
 "A numeric reply code is always in the range 000 to 999 and is stored, printed and parsed as exactly three decimal digits, with printing and parsing inverse to each other. Integers outside the range and malformed text are rejected.",
 ["inputs"],"every integer and every three-byte text",
 "Tests check a few codes; each digit position must be right for all 1000.",
 ["src/ircmsg/numeric.rs","src/ircmsg/servermsgkind.rs"],[("numeric codes","src/ircmsg/numeric.rs")])
p("C19","Deserialised values satisfy the same rules as constructed ones",
 "Deserialising any type whose values are restricted re-validates the data and rejects what the checked constructors would reject. What a type serialises as, it accepts back.",
 ["inputs"],"every serialised document, every deserialisable type",
 "An unvalidated deserialiser admits invalid values only from crafted documents.",
 [S+"serde.rs",S+"subtypes/macros.rs","src/ircmsg/numeric.rs","src/ircmsg/source.rs","src/ircmsg/servermsgkind.rs","src/client"],[("string deserialisation",S+"serde.rs")])
p("C20","The outgoing queue sends in order, once, and within its rate limit",
 "A queued message leaves the queue only by being popped, in the order queued (or by an explicit clear, reset or adjustment), and a pop only yields a message when the configured rate limit allows one; each pop charges the limiter. Editing through a guard never disturbs messages that were queued before the edit began.",
 ["histories","schedules"],"every sequence of pushes, edits and pops at any times",
 "Flood limits and ordering are properties of histories; tests pop a few messages.",
 ["src/client/queue.rs"],[("rate-limited queue","src/client/queue.rs")])
p("C21","Each handler sees each message once until it finishes",
 "Every registered handler is run exactly once per incoming message until it reports completion or is cancelled, is then removed and never run again, and its removal does not make another handler be skipped or run twice. A handler's identifier is not reused while the handler or an unreported completion still uses it.",
 ["histories"],"every set of handlers and every message sequence",
 "Skipping or double-running needs particular completion patterns within one pass.",
 ["src/client/handler.rs","src/client/logic.rs","src/client.rs"],[("handler registry and dispatch","src/client/handler.rs")])
p("C22","One-shot channels deliver at most one value and free their memory once",
 "A one-shot channel hands its value to the receiver at most once, never reads a value before it is fully written, and frees the shared allocation exactly once when both sides are gone, in every interleaving of send, receive and drop on two threads. A blocked receiver is always woken by a send or by the sender's disappearance.",
 ["schedules"],"every interleaving of the two ends",
 "The race windows are a few instructions wide.",
 ["src/client/handler/channel/oneshot.rs","src/client/handler/channel/parker.rs"],[("one-shot cell","src/client/handler/channel/oneshot.rs"),("parker","src/client/handler/channel/parker.rs")])
p("C23","Only thread-safe values can cross threads",
 "Every type that asserts it may be sent to or shared with other threads does so only when the values it gives access to may be, so no safe program can move a thread-bound value to another thread through this library. The string, message and client types users pass between threads remain sendable and shareable.",
 ["programs"],"every safe program using the library",
 "Whether a bound is missing is only visible to a program that should not compile.",
 ["src/util/thinarc.rs","src/util/ownedslice.rs","src/client/handler/channel/oneshot.rs","src/client/handler/channel/parker.rs"],[("manual thread-safety assertions","src/client/handler/channel/oneshot.rs")])
p("C24","Required authentication is enforced",
 "When authentication is configured as required and at least one authenticator is available, capability negotiation is never concluded and registration never reported as successful unless the server has confirmed a login; otherwise it ends with an error.",
 ["histories","inputs"],"every sequence of server messages and every authenticator set",
 "A server (or attacker) controls the message sequence; each shortcut to the end of registration must be guarded.",
 ["src/client/register.rs","src/client/register/handler.rs"],[("registration state machine","src/client/register/handler.rs"),("handler construction","src/client/register.rs")])
p("C25","Capability negotiation only requests what it may and ends once",
 "The client requests only capabilities the server offered, never requests strict transport security, and fails rather than continues when a required capability is not offered or is refused. It decides what to request only once the complete list of offers is in, and concludes negotiation at most once, after all requests are acknowledged and authentication is over.",
 ["histories","inputs"],"every sequence of capability messages",
 "Multi-line listings, refusals and late changes interleave in ways tests do not enumerate.",
 ["src/client/register/handler.rs","src/client/cap.rs"],[("capability handling","src/client/register/handler.rs"),("capability messages","src/client/cap.rs")])
p("C26","SASL data is sent only on request and framed as specified",
 "Authentication payloads are sent only in response to the server's challenge for the mechanism in use, split into chunks of at most 400 bytes with a terminating marker when the last chunk is full, and marked secret. When the server rejects a mechanism the next configured one is tried, and the exchange ends successfully only on the server's success reply (900, 903 or 907).",
 ["histories","inputs"],"every server message sequence and payload length",
 "Payload lengths at chunk boundaries and failure/retry sequences are rarely exercised.",
 ["src/client/auth/handler.rs","src/client/auth.rs","src/client/auth/sasl/password.rs","src/client/auth/sasl/external.rs",S+"base64.rs"],[("authentication handler","src/client/auth/handler.rs"),("chunked base64",S+"base64.rs")])
p("C27","Every server ping is answered with its own token",
 "Whenever a ping message is received, during registration or afterwards, exactly one pong carrying the ping's last argument (its token) is queued, and no other message kind produces a pong.",
 ["histories","inputs"],"every ping, in every client phase",
 "Servers disconnect clients that miss one ping; the phases in which it must hold are many.",
 ["src/client/handlers/ping.rs","src/client/handlers.rs","src/client/register/handler.rs"],[("pong","src/client/handlers.rs")])
p("C28","Automatic replies answer only direct requests",
 "The built-in CTCP responder replies only to a private request (a PRIVMSG whose text begins with the CTCP marker) from an identified sender, addresses the reply to that sender as a notice, and never reacts to notices, so two clients can never loop.",
 ["inputs"],"every incoming message",
 "Reply loops and reflected replies need a particular message kind that tests do not send.",
 ["src/client/handlers/autoreply.rs","src/ircmsg/ctcp.rs","src/ircmsg/targeted.rs"],[("version responder","src/client/handlers/autoreply.rs")])
p("C29","Resetting a client leaves nothing of the old connection",
 "Resetting a client for a new connection drops all handlers, queued messages, buffered input and output and connection-derived state, and restores defaults derived from it, so the next connection starts as a new client would.",
 ["histories"],"every state the client can be in when it is reset",
 "Leftover state only misbehaves on the second connection after a particular first one.",
 ["src/client.rs","src/client/state.rs","src/client/queue.rs","src/client/handler.rs"],[("client reset","src/client.rs")])
p("C30","TLS certificate checks are only skipped when asked to",
 "TLS connections verify the server certificate against the configured roots unless the configuration explicitly disables verification, and even then handshake signatures are checked with the procedure for the negotiated protocol version. The name verified is the name the caller asked to connect to.",
 ["configurations","inputs"],"every TLS configuration and server",
 "Verification failures need a malicious server; tests never connect.",
 ["src/client/tls.rs","src/client/conn.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs"],[("TLS configuration","src/client/tls.rs")])
p("C31","Read and write timeouts apply to every operation and do not linger",
 "Every blocking or asynchronous read and write performed by the client is bounded: a read by the queue's next deadline when there is one and by the configured limit otherwise, a write by the configured limit; a deadline set for one operation never affects a later one, and expiry is reported rather than waited through.",
 ["histories","schedules"],"every sequence of timed operations",
 "Stale deadlines only show as spurious timeouts after particular sequences in real time.",
 ["src/client/conn/time.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/logic.rs"],[("time-limited streams","src/client/conn/time.rs")])
p("C32","I/O failures surface and unsent output is kept",
 "No error from reading, writing or flushing a connection is discarded: each is returned to the caller (a read timeout is reported as such). Output buffered for sending is discarded only once it has been written out or the write's error is returned, and a message leaves the buffer only once.",
 ["fault_sequences"],"every point at which an I/O call can fail",
 "Faults must be injected at each I/O call to see an error swallowed.",
 ["src/client.rs","src/client/conn.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/ircmsg/codec.rs","src/client/logic.rs"],[("connection I/O","src/client/conn/sync.rs")])
p("C33","Channel mode classes stay disjoint and mode sets are exact",
 "A set of modes contains exactly the mode letters put into it, its set operations are exact for every letter, and a server's four channel-mode classes are only accepted when no letter appears in two of them. Every letter maps to its own slot and back.",
 ["inputs"],"every pair of modes and every set of classes",
 "Six pairs of classes and all letters must be checked; tests try a few.",
 ["src/state/mode.rs"],[("mode sets","src/state/mode.rs")])
p("C34","Nickname fallbacks are valid, use the documented digits, and end",
 "Suffix generators only append digits from their documented alphabet, every generated nickname is a valid nickname, and a finite generator yields finitely many nicknames and then reports exhaustion. No configuration makes generation panic.",
 ["inputs","configurations"],"every base nickname and suffix configuration",
 "Digits above nine and empty configurations are not sampled by tests.",
 ["src/client/nick/suffix.rs","src/client/nick.rs"],[("suffix strategies","src/client/nick/suffix.rs")])
p("C35","Blocking and asynchronous clients behave alike",
 "The blocking and asynchronous variants of sending, receiving and running the client perform the same sequence of operations on queue, buffers, handlers and connection, and map the same conditions to the same results.",
 ["histories","configurations"],"every pair of twin operations",
 "A fix applied to one twin only shows to users of the other.",
 ["src/client/logic.rs","src/client.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/ircmsg/codec.rs","src/client/conn/time.rs"],[("twin drivers","src/client/logic.rs")])
p("C36","Length accounting matches what is written",
 "The lengths reported for sources, argument lists (the last argument counted with its colon), message kinds, CTCP texts and messages equal the number of bytes their writers produce, so the remaining-length calculation never lets a message exceed the limit or rejects one that fits.",
 ["inputs"],"every message value",
 "Accounting errors are off-by-one in one branch (a separator, a colon, a valueless tag).",
 ["src/ircmsg/client.rs","src/ircmsg/server.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs","src/ircmsg/source.rs"],[("length functions","src/ircmsg/client.rs")])
p("C37","Named constants carry their protocol names",
 "Every predefined command, capability and ISUPPORT token constant is a valid string of its type, distinct from the others of its kind, and equal to the name it is documented and exposed under.",
 ["programs"],"every predefined name",
 "There are hundreds of constants; a typo in one affects only its users.",
 ["src/names.rs","src/names/cmd.rs","src/names/cap.rs","src/names/isupport.rs","src/names/types.rs"],[("name tables","src/names/cmd.rs")])
p("C38","Taking ownership never leaves a dangling borrow",
 "Converting a string, argument list, tag list, source or message to its owning form makes every part of it owning, in place or by value, so the result stays valid after the original input is gone. No conversion extends a lifetime without first copying the borrowed data.",
 ["programs","inputs"],"every composite value and every mixture of borrowed and owned parts",
 "A part left borrowed is a use-after-free that only shows when the input buffer is reused.",
 ["src/owning.rs",S+"bytes.rs","src/ircmsg","src/util/flatmap.rs"],[("ownership conversion","src/owning.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
