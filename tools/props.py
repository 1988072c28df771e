import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
GEN="protocol/genout.go"; SRV="protocol/server.go"; CLI="protocol/client.go"; FS="filesystem/filesystem.go"

p("C01","Messages are encoded in the 9P2000 wire format and decode back unchanged",
 "For every message type and every directory record that fits its 2-byte size, encoding any field values (integers of full width, strings and name/QID lists and stat blobs up to 65535 elements, data of any length) produces exactly the 9P2000 layout: a 4-byte little-endian size equal to the number of bytes produced (2-byte for directory records, not counting itself), the type byte, the tag, then the fields in order. Decoding that encoding returns the same tag and the same field values and consumes exactly the message. Encoding into a buffer that already holds other bytes gives the same result.",
 ["inputs"],"all message types x all field values (boundary values of every field width, length and count)",
 "TestEncode compares two hand-written packets (Tversion, Rversion); no other type, length boundary, or round trip is looked at.",
 [GEN,"protocol/protocol.go"],[("generated marshal/unmarshal functions",GEN),("message type numbers","protocol/protocol.go")])
p("C02","Decoders reject every malformed message instead of crashing or guessing",
 "Decoding a message body that was cut short at any byte, that carries bytes after its last field, or whose embedded length or count exceeds the bytes that follow, returns an error. No byte sequence makes a decoder panic, and a decoder never reports success with a value that was not completely present in the bytes it was given. (A directory record may be followed by further bytes, which stay unread, and its leading size is informative.)",
 ["inputs"],"all message types x every truncation point x every perturbation of embedded lengths x trailing bytes x short arbitrary byte strings",
 "No test decodes a damaged packet; only replies of the in-repo server are ever decoded.",
 [GEN,"protocol/gen.go"],[("length checks in generated unmarshal functions",GEN)])
p("C03","Every request gets exactly one matching reply, in order, with values intact",
 "For every sequence of well-formed requests on a connection, the server sends exactly one reply per request, in request order, carrying the request's tag and either the reply type belonging to the request or an error reply. The file server behind it is invoked exactly once per request with exactly the values sent, and the reply carries exactly the values it returned, or the text of the error it returned. Message types the server does not support are answered with an error reply, invoke nothing, and leave the connection usable.",
 ["inputs","histories"],"all request sequences up to a bound, all request types incl. unsupported, all handler outcomes, boundary argument and result values, pipelined or not",
 "TestTMessages sends one fixed conversation and ignores most argument and result values; no pipelining, unsupported types or tags are tried.",
 [SRV,GEN],[("per-connection read/dispatch/write loop",SRV+" conn.serve"),("type switch",SRV+" Dispatch"),("per-type server stubs",GEN)])
p("C04","Server behaviour does not depend on how the byte stream is segmented",
 "The replies a server sends and the operations it performs are a function of the sequence of bytes received, not of how the transport split or merged them into reads: any fragmentation of a request (inside the header, inside the body, across messages, one byte at a time) or coalescing of several requests gives the same result as whole-message delivery.",
 ["schedules","inputs"],"all ways of splitting bounded request streams into reads",
 "The tests use net.Pipe with one write per message, so a header is never split and messages are never merged.",
 [SRV],[("header and body reads",SRV+" conn.serve")])
p("C05","An incomplete or malformed request is never executed and harms nobody else",
 "If the connection ends or fails before the last byte of a request arrived, that request has no effect at all, and the requests completely received before it have been executed and answered; the server then closes its side. A request whose body does not decode is answered with an error reply carrying its tag and invokes nothing; one whose declared size is smaller than a message header ends the connection without invoking anything. In no case does the server process crash or any other connection notice.",
 ["crash_points","fault_sequences","inputs"],"every byte position of a conversation at which the transport ends or errors (reads and writes), every malformed body and size up to a bound, with a second connection active",
 "No test closes a connection early, sends a damaged packet, or has two connections.",
 [SRV,GEN],[("short read handling",SRV+" conn.serve"),("decode errors in server stubs",GEN)])
p("C06","No request reaches the file server before version negotiation",
 "On every connection, until the first version request has been received, every other request (known or unknown type, well formed or not) is answered with an error reply carrying its tag and reaches the file server in no way; the connection stays usable and a later version request works. From the first version request on, requests are dispatched; negotiation on one connection has no influence on another.",
 ["histories"],"all request sequences up to a bound before and after the version request, on one and two connections",
 "TestTMessages tries exactly one request (attach) before version.",
 [SRV],[("version gate",SRV+" Dispatch")],[dict(name="Versioned",meaning="set by the first version request of the connection",where=SRV)])
p("C07","Connections do not influence each other",
 "Each accepted connection has its own file identifiers, version state and message buffers: what one connection observes is the same whatever requests other connections issue at whatever moments (including while a request of the first is being executed), as long as they touch different files. In particular a file identifier established, opened, clunked or removed on one connection neither exists nor changes on another.",
 ["schedules","histories"],"all interleavings of two connections' request scripts, at request granularity and at the read/decode/execute/reply steps inside requests",
 "No test has two connections to one listener.",
 [SRV,FS],[("a fresh file server per connection",SRV+" Listener.newConn"),("per-server fid map",FS)])
p("C08","Every client call returns the reply to its own request, under any concurrency",
 "With any number of concurrent calls on one client, and replies arriving in any order, each call returns exactly once, with the values (or the error text) of the server's reply to that very request. The request put on the wire is one contiguous, correctly encoded message for that call's arguments.",
 ["schedules"],"all thread interleavings (bounded preemptions) of 2-3 concurrent calls and all reply orders",
 "All tests make strictly sequential calls from one goroutine.",
 [CLI,GEN],[("tag-indexed table of pending calls",CLI+" Client.IO"),("call stubs",GEN)],[dict(name="RPC",meaning="pending call per tag",where=CLI)])
p("C09","Tags are unique among outstanding requests and are never lost",
 "At every moment, two requests sent by a client whose replies have not arrived carry different tags, and no request carries tag 0 or the reserved no-tag value. After a reply its tag becomes available again, so the client can make any number of calls and any number of callers may wait for a tag: when fewer tags than callers are left, calls wait and all complete as replies arrive.",
 ["schedules","histories"],"all interleavings (bounded preemptions) of more callers than available tags; all reply orders; sequences longer than the tag supply",
 "TestTManyRPCs reuses tags strictly sequentially; with 65534 tags in the pool neither exhaustion nor reuse with another request outstanding ever happens.",
 [CLI],[("tag pool channel",CLI+" Client.IO")],[dict(name="Tags",meaning="pool of free tags",where=CLI)])
p("C10","A lost connection makes every client call fail: none hangs, nothing crashes",
 "When the transport of a client ends or fails, at any byte of the conversation, for reading or for writing, every call without a completely received reply returns an error, every later call returns an error, and a reply completely received before is still delivered. No call blocks forever, no call reports success from a truncated reply, and the program using the client is neither crashed nor exited.",
 ["crash_points","schedules","fault_sequences"],"every byte position x kind of failure x interleavings with outstanding and later calls",
 "No test ever closes or breaks a client's transport.",
 [CLI],[("reader shutdown",CLI+" Client.readNetPackets"),("write errors",CLI+" Client.IO")],[dict(name="Dead",meaning="client unusable",where=CLI)])
p("C11","Unexpected or malformed replies neither crash the client nor pass as answers",
 "Whatever bytes a server sends, the client program does not crash and no call is handed a reply that does not belong to it: a reply whose tag is not outstanding is not delivered to anybody and does not disturb other calls, and a reply that carries the call's tag but the wrong message type, or a body that does not decode, makes that call return an error. Calls answered properly afterwards still succeed as long as framing is intact.",
 ["inputs","histories"],"all call types x all reply types, tags and damage patterns up to a bound, with other calls outstanding",
 "The tests' server only ever sends correct replies.",
 [CLI,GEN],[("reply routing",CLI+" Client.IO"),("reply decoding in call stubs",GEN)])
p("C12","Client behaviour does not depend on how replies are segmented",
 "The result of every client call is a function of the bytes the server sends, not of how they are split or merged into reads: any fragmentation of a reply or coalescing of several replies gives the same results as whole-message delivery.",
 ["schedules","inputs"],"all ways of splitting bounded reply streams into reads",
 "The tests use net.Pipe with one write per reply, so a reply header is never split.",
 [CLI],[("header and body reads",CLI+" Client.readNetPackets")])
p("C13","File identifiers and tags handed out by a client are unique under concurrency",
 "Over the lifetime of a client no two requests for a new file identifier, from any goroutines, return the same value, and none returns the reserved no-fid value (within the 32-bit space). A tag taken by a caller is not handed to any other caller nor used by any request while it is held.",
 ["schedules"],"all interleavings (bounded preemptions) of 2-3 goroutines obtaining identifiers and tags while calls run",
 "TestTags takes one tag from one goroutine; file identifiers are never requested in a test.",
 [CLI],[("atomic counter",CLI+" Client.GetFID"),("tag pool",CLI+" Client.GetTag")])
p("C14","A listener keeps serving until stopped, and Shutdown stops all of it",
 "While serving, a listener accepts and serves every incoming connection; a temporary accept error is retried after a delay of at most one second and loses no connection, any other accept error ends that serve call with this error and closes the listener. Shutdown closes every listener being served, so every serve call in progress returns, without deadlock in any interleaving with starting and ending serve calls; connections already accepted continue to work.",
 ["schedules","fault_sequences"],"all sequences of accept outcomes up to a bound; all interleavings (bounded preemptions) of serve, accept and shutdown calls",
 "No test calls Serve or Shutdown at all.",
 [SRV],[("accept loop",SRV+" Listener.Serve"),("tracked listeners under a mutex",SRV+" trackListener, Shutdown")])
p("C15","Clients cannot reach anything outside the exported root",
 "Whatever names a client puts in attach, walk, create and wstat requests (parent references, absolute names, names containing slashes, in any combination and sequence, from any file identifier), every file the server looks at, opens, creates, changes, renames or removes lies inside the exported root directory: a parent reference at the root stays at the root. The root directory itself can be neither renamed nor removed. (Symbolic links placed in the tree by the host are outside this property.)",
 ["inputs","histories"],"all sequences up to a bound of requests with names from an alphabet of escaping names",
 "TestMount exports / itself, where nothing is outside, and never sends a parent reference.",
 [FS],[("path joining under the root",FS+" Rattach, Rwalk, Rcreate, Rwstat")])
p("C16","File identifiers follow the 9P life cycle",
 "A file identifier exists from a successful attach or walk to it until it is clunked or removed (also when the removal fails), and only then; requests on others are answered with an error and change nothing. A walk makes the new identifier denote the file reached if and only if every name was walked; it returns one QID per name walked, an error if the first name fails, and otherwise leaves both identifiers alone; using an identifier already in use as the target of attach or walk fails, except walking an identifier onto itself. Opening an identifier twice fails and leaves the first open intact, and reading or writing requires an open one.",
 ["histories"],"all request sequences up to a bound over 3 identifiers and a small tree",
 "TestMount runs one fixed conversation; two-identifier interplay, partial walks, in-use targets and double opens are not exercised.",
 [FS],[("fid map",FS+" Rattach, Rwalk, Ropen, clunk")],[dict(name="files",meaning="fid to file",where=FS)])
p("C17","Reads and writes through the server are those of a byte array",
 "Through any number of open file identifiers, a read at any offset (below 2^63) and count returns exactly the bytes the file then holds there (fewer only at end of file or where the negotiated message size has no room for more, none at or past the end), and a successful write stores exactly its bytes at exactly its offset, extends the file (zero filled) if needed, changes nothing else and reports their number. Opening with the truncate flag and only that empties the file; an identifier opened only for reading cannot write and one opened only for writing cannot read.",
 ["histories","inputs"],"all open/read/write/truncate/clunk sequences up to a bound through two identifiers; boundary offsets, counts and sizes up to beyond 2^32",
 "TestMount does one 1-byte read and one 5-byte write and checks neither the data read nor the file afterwards.",
 [FS,"filesystem/ninep.go"],[("positional reads and writes",FS+" Rread, Rwrite"),("mode translation","filesystem/ninep.go modeToUnixFlags")])
p("C18","Reading a directory lists every entry exactly once",
 "Reading an opened, unchanging directory from offset 0 with any sequence of counts returns whole, decodable entries, never more bytes than asked for, and, when continued until an empty read with a count large enough for any entry, every entry of the directory exactly once and no other. A count too small for the next entry loses nothing: a later sufficient read still returns it. Reading again from offset 0 restarts the listing, and listings through different identifiers are independent.",
 ["inputs","histories"],"all directories up to a bound of entries x all sequences of counts, rewinds and interleavings of two identifiers up to a bound; one large directory",
 "TestMount reads one 3-entry directory with one count and does not compare names.",
 [FS],[("directory branch of read",FS+" Rread"),("saved overflow entry",FS+" file.oflow")])
p("C19","Stat and QIDs describe the host file truthfully and consistently",
 "A stat reports the host file's current name, length, permission bits, directory flag and modification time. The QID of a file is the same in attach, walk, open, create, stat and directory entries as long as the file is unmodified; different files have different QID paths, the type of a QID says directory exactly for directories (and symbolic link exactly for symbolic links), and the version differs after a modification that changes the modification time by a millisecond or more.",
 ["inputs","histories"],"all files of a tree of every kind (empty, large, odd modes and times, directories, links) x all requests that return QIDs or stat data, before and after changes",
 "TestMount prints stat results and QIDs without comparing them to anything.",
 ["filesystem/ninep.go","filesystem/ninep_unix.go",FS],[("stat conversion","filesystem/ninep.go dirTo9p2000Dir"),("QID from inode and mtime","filesystem/ninep_unix.go fileInfoToQID")])
p("C20","A wstat changes exactly what it asks for, or nothing",
 "A successful wstat sets the requested attributes (permission bits, length, name, modification and access time) of that file to the requested values and leaves every attribute marked as don't-touch, and every other file, as it was; after renaming, the file identifier denotes the file under its new name. A wstat of attributes the host lets the server change succeeds. A request to change the owner or group, to rename onto a directory, or with an undecodable record, is answered with an error, and a wstat answered with an error changes nothing.",
 ["inputs","histories"],"all combinations of requested attributes and values up to a bound, on files and directories, open or not, in sequences up to a bound",
 "TestMount never sends a wstat.",
 [FS],[("wstat steps",FS+" Rwstat")])
p("C21","Create and remove do on the host what they report",
 "A successful create makes a file (or, with the directory bit, a directory) of the given name in the identifier's directory with the given permission bits, and afterwards the identifier denotes it; a created file is empty and open in the given mode. A create that cannot be carried out on the host (missing permission, parent not a directory, directory to be made already exists) and a remove that cannot (non-empty directory, missing file or permission) is answered with an error and changes no file; a successful remove deletes exactly that file.",
 ["inputs","histories"],"all create/remove sequences up to a bound over a small tree, all permission and mode values of an alphabet, all host error causes of an alphabet",
 "TestMount creates one file and one directory that did not exist and removes them again.",
 [FS],[("create",FS+" Rcreate"),("remove",FS+" Rremove")])
p("C22","File identifiers are independent and release their host files",
 "Operations on one file identifier (open, clunk, remove, failed open, walking it elsewhere) never change whether or how another identifier, in particular a clone or another open of the same file, can be used. At every moment the server holds exactly one host file open per open file identifier, so a clunk, remove, or walk away releases it and a failed request holds none.",
 ["histories"],"all request sequences up to a bound over 3 identifiers incl. clones of open ones; host descriptor table compared in every state",
 "TestMount never clones an open identifier nor opens one file twice, and does not look at descriptors.",
 [FS],[("open file per fid",FS+" Ropen, Rwalk clone, clunk")])
p("C23","The debugging wrapper changes nothing but the log",
 "A file server wrapped in the debugging server behaves exactly as without it: every request is forwarded exactly once to the same operation with the same arguments, and its results and errors are returned unchanged, for every operation, argument and outcome (including undecodable stat data).",
 ["inputs"],"all operations x argument values x outcomes of the wrapped server up to a bound, and whole conversations with the ufs server",
 "The debugging server has no tests.",
 ["pkg/debugfs/debug.go",FS],[("forwarding methods","pkg/debugfs/debug.go"),("-debug flag",FS+" NewUFS")])
p("C24","Regenerating the protocol stubs gives stubs with the same guarantees",
 "Running the stub generator on the current message definitions produces stubs that compile and that behave like the checked-in ones: same wire format, same rejection of malformed messages, same server dispatch and same client calls, for every message.",
 ["programs","inputs"],"the generator's output for the repository's message definitions, checked for all inputs of the alphabets of C01, C02, C03, C05, C08 and C11",
 "The generator is excluded from the build and its output is not compared with anything.",
 ["protocol/gen.go",GEN],[("templates","protocol/gen.go")])
p("C25","Read replies respect the negotiated message size",
 "After a version request was answered with message size M, no read (of a file or directory, whatever count is asked for) is answered with a message longer than M, and reading on with the returned lengths still yields the complete file. The answered size is never larger than the one asked for, and a read with a negative or excessive count neither crashes the server nor fails to be answered.",
 ["inputs"],"all message sizes x counts x offsets x file sizes of boundary alphabets, for files and directories",
 "TestMount negotiates 8000 and reads at most 256 bytes.",
 [FS],[("count handling",FS+" Rread, Rversion")])
p("C26","A trace function changes nothing but what is traced",
 "Clients and servers behave exactly the same with a trace function set as without: the same requests and replies reach the wire and the file server, every call returns the same, and everything guaranteed about decoding, framing, isolation, matching of replies, failure of the connection and shutdown holds with tracing too. In particular tracing neither alters nor consumes messages, never crashes on any message, and never deadlocks (it may format whatever it is given, including the client itself).",
 ["inputs","schedules","fault_sequences"],"all requests, replies, segmentations, fault points and schedules of the bounded spaces of C03-C08, C10-C12 and C14, with a trace function that formats its arguments",
 "The tests trace to the terminal and never compare traced with untraced behaviour; nearly all error paths are never traced.",
 [CLI,SRV,GEN],[("trace calls",CLI),("logf",SRV)])
p("C27","No data races",
 "Whatever the schedule, no two accesses to the same memory of which one is a write happen without synchronisation in between, in the client, the listener, the connections and the file server: neither between the library's own goroutines nor between them and its callers, when callers use their client, listener or server from several goroutines at once as the other guarantees allow (calls, identifiers, tags, String; Serve, Accept, Shutdown). Once a call has returned, its arguments and results belong to the caller, who may change them; a transport's own data belongs to the transport.",
 ["schedules"],"all schedules up to a deviation bound of 1-3 callers, up to three connections, one or two listeners, and transport failures at every point; in each, every pair of conflicting accesses not ordered by happens-before",
 "The tests run without the race detector, one call at a time, and a race only shows on the schedules that happen to be run.",
 [CLI,SRV,FS],[("RPC table, Dead, FID",CLI),("listeners",SRV),("per-connection state",FS)])
p("C28","Concurrent calls to ufs take effect one at a time",
 "When several callers use one client of a ufs server at once, each call takes effect at a single moment between its beginning and its return: the results of all the calls, what later calls find, and the files on the host are what they would have been had the same calls been made one after another, in some order in which a call that returned before another began comes first. This holds for every mix of calls on shared or separate file identifiers: walk, open, create, read, write, stat, wstat, clunk, remove, attach and flush.",
 ["schedules"],"two or three callers with up to three calls each (all pairs of 40 calls, and longer programs) on a few shared identifiers, all schedules of client and server up to a deviation bound",
 "The tests never make two calls at once; an effect that comes late, or half of one, shows only when another call gets in between.",
 [CLI,SRV,FS],[("request queue",CLI),("serve loop",SRV),("fids",FS)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
