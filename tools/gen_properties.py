#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=hook)))
IN="inputs"; SC="schedules"; HI="histories"; CO="configurations"; FA="fault_sequences"; PR="programs"

p("C01","A single-tag read returns exactly what the controller holds",
 "For every tag a controller holds (each atomic type, an array from any starting element and of any length, a STRING or array of STRINGs, a bit of an integer, a BOOL array, a UDT read into a matching struct or slice of structs), Read, Read_single and ReadPacked deliver exactly the value of the requested elements. The value is never truncated, shifted, sign- or width-changed, taken from another element, bit or tag, and data left over from an earlier read is never returned. A request that cannot be delivered in the requested Go type ends in an error.",
 [IN,CO],"every tag name, type, value (including extreme ones), array shape, start index, element count and target Go type",
 "The unit tests decode a few canned replies; the real read path is only tested against hardware that is not available.",
 ["read.go","types.go","partialread.go","ioi.go","items.go"],
 [("typed read","read.go: Read/Read_single/read/readArray"),("atomic decode and bit extraction","types.go: readValue/getBit")],
 ["Client.Read / Read_single / ReadPacked results against the memory of an independent controller model on a TCP loopback"])
p("C02","Multi-tag reads pair every requested tag with its own value",
 "For every set of tags in one ReadMulti, ReadList, ReadMap or ReadTagGroup call, of any size and mix of types, elements and struct fields, each result slot, map key or struct field receives exactly its own tag's value. Results keep the requested order however many requests the call is split into, and a successful call leaves no requested slot unread. Fields without a tag are left untouched.",
 [IN,CO],"every list/map/struct of tags: number of tags, name lengths, types, element counts, connection sizes",
 "Existing tests never run a multi-tag read against a target; splitting only occurs for sizes no test reaches.",
 ["read.go","partialread.go","taggroup_readmap.go","taggroup.go"],
 [("multi-service request","read.go: readList"),("splitting","partialread.go: countIOIsThatFit"),("struct fill","read.go: ReadMulti")],
 ["results of the multi-read API against the model's memory"])
p("C03","Multi-tag requests fit the negotiated connection and ask for each tag once",
 "Whatever the number, name length, type and element count of the tags in a multi-tag read or write, or the size of the value of a single write, no connected request carries more data than the connection size the client negotiated, as long as each single tag fits on its own. Replies the client solicits fit that size too, and over all requests of one call each tag is requested exactly once with the requested element count. The service offsets inside each request point at well-formed services.",
 [IN,CO],"every tag set and every negotiated connection size (standard and large)",
 "No test sends a request large enough to split.",
 ["partialread.go","read.go","write.go","connect.go"],
 [("size accounting","partialread.go: countIOIsThatFit"),("offset table","read.go: readList; write.go: WriteMap")],
 ["every SendUnitData frame received by the controller model"])
p("C04","Values returned in fragments are reassembled completely and in order",
 "When the controller answers a read with a partial transfer, the client asks for the remainder at exactly the byte offsets already received until the controller reports completion, and returns the same value as an unfragmented read. This holds for every way of cutting the data into fragments. If any fragment fails, is missing or never makes progress the call ends in an error, never in a short, padded or duplicated value.",
 [IN,FA],"every array type, length and fragmentation pattern, and a failure at every fragment",
 "Three canned fragment sequences are unit tested.",
 ["read.go"],[("fragment loop","read.go: readFragmented/sendFragReadRequest")],
 ["offset/elements of every fragmented read on the wire; value returned"])
p("C05","A controller-reported error is never returned as success",
 "Whenever the controller (or a service inside a multi-service request) reports a non-success status for a read, write, attribute, discovery, generic or data table operation, the call returns a non-nil error, and the caller's destination is not given a value the controller did not send. A rejected operation does not disturb later operations on the same client. This holds for every CIP general status, with or without extended status words, and for encapsulation-level status codes.",
 [IN,FA],"every operation x every status code x extended-status length x position in a batch",
 "Tests only decode successful replies and two failing fragments.",
 ["read.go","write.go","udt_write.go","getattr.go","listalltags.go","listsubtags.go","listmembers.go","datatable.go","connect.go"],
 [("status checks","after each send_recv_data call")],
 ["API error results against the status injected by the model"])
p("C06","Concurrent callers of one client each get the reply to their own request",
 "Any number of goroutines may use one connected client at the same time, mixing reads, writes, multi-tag and attribute calls: each caller receives the result of its own request and no access to shared client state races. At most one request is outstanding on the connection at a time and no two of them share a connected sequence number. Operations on one tag are linearizable with respect to the controller's memory.",
 [SC,HI],"every interleaving of concurrent calls on one client, with delays at the controller",
 "No test runs two goroutines on one client, and the suite is not run with the race detector.",
 ["sendreceive.go","client.go","ioi.go","connect.go"],
 [("send/receive under a mutex","sendreceive.go: send_recv_data"),("ioi cache lock","ioi.go: newIOI"),("sequencer","messages.go")],
 ["call/return history at the API, request log at the controller, race detector reports"])
p("C07","No reply bytes can crash, hang or exhaust the client",
 "For every byte sequence a controller or middlebox sends in place of a valid reply (truncated, corrupted, wrong counts, lengths and offsets, absurd sizes, other commands, early close), every client call returns, with a value or an error, within its socket timeouts. It never panics, never blocks for good and never allocates memory out of proportion to the bytes received. The client stays usable: after the fault it can be disconnected and connected again.",
 [IN,FA],"every mutation of every reply of every operation",
 "Tests feed a handful of well-formed replies.",
 ["items.go","read.go","write.go","connect.go","getattr.go","listalltags.go","listsubtags.go","listmembers.go","listallprograms.go","listidentity.go","listservices.go","datatable.go"],
 [("length checks","items.go: readItems and the CIPItem accessors; every reply decoder")],
 ["call outcome (value/error/panic/timeout), heap growth"])
p("C08","Connect, Disconnect and reconnect keep a consistent session",
 "A successful Connect has registered a session and opened exactly one connection under the client's own vendor number, serial number and packet interval, falling back to a standard-size open when the large one is refused, and every later request uses the handles, identifiers and size the controller granted in this session. Disconnect closes that same connection at the controller and the socket; a failed Connect, a transport error or a timeout leaves the client disconnected with no socket left open. After that Connect or AutoConnect establishes a fresh working session, and using the client while disconnected gives an error, never a crash.",
 [HI,FA,SC],"every sequence of Connect/Disconnect/operations with a fault at any handshake step or request",
 "Connection handling is not covered by any offline test.",
 ["connect.go","disconnect.go","client.go","sendreceive.go"],
 [("status machine","connect.go: startConnect; disconnect.go: startDisconnect"),("fallback","connect.go: Connect")],
 ["session/connection tables of the controller model, open sockets, API results"])
p("C09","Every request the client sends is a well-formed EtherNet/IP message",
 "Every frame sent by any client operation is a complete encapsulation message whose length fields, item headers, path sizes, element counts and data lengths are mutually consistent, carry the granted session handle and connection identifier, and name the CIP service and path the operation stands for. No bytes are left over or missing. Connected sequence numbers differ between consecutive requests.",
 [IN,HI],"every operation with every argument",
 "Nothing parses the client's requests independently.",
 ["sendreceive.go","items.go","messages.go","connect.go","getattr.go","datatable.go"],
 [("header and item construction","sendreceive.go: sendMsgBuild; items.go: serializeItems")],
 ["strict decoder over all bytes received by the controller model"])
p("C10","A tag name always addresses exactly the named tag, member, element and bit",
 "The path the client sends for a tag name decodes, segment by segment, to exactly that name: program scope, member names of any length, one to three array indices of any magnitude at any level, and the bit selected from the value. This is independent of letter case, of what was addressed before, and of whether discovery has made the tag known by instance number. A name that cannot be addressed yields an error.",
 [IN,HI],"every tag name and every order of earlier requests, before and after discovery",
 "Five fixed names are compared with captured bytes; the cache and known-tag shortcut are not tested.",
 ["ioi.go","client.go"],[("path encoding","ioi.go: newIOI/marshalIOIPart"),("path cache","client.go: ioi_cache"),("instance addressing","client.go: KnownTag.Bytes")],
 ["symbolic/logical segments decoded from the wire by an independent decoder"])
p("C11","A successful single write puts exactly the given value at the named tag",
 "When Write returns nil, the controller's memory at the named tag, array slice, string or structure holds exactly the Logix encoding of the given Go value, with the right type code or structure handle and element count, and nothing else has changed. Reading the tag back gives the same value. A value that cannot be represented in the tag gives an error and is not written.",
 [IN],"every supported Go value, slice length, string length and struct shape",
 "Write is only exercised against hardware.",
 ["write.go","udt_write.go","items.go","pack.go","types.go"],
 [("value encoding","items.go: Serialize; pack.go: Pack"),("type handle","pack.go: TypeEncode")],
 ["memory of the controller model before and after"])
p("C12","A successful multi-tag write has written every given tag",
 "When WriteMap or WriteMulti returns nil, every tag in the map or struct (nested struct fields included) holds exactly the given value and nothing else has changed, however many tags there are. If the controller rejects or does not answer for any of them the call returns an error.",
 [IN,FA],"every map/struct of tags, any size, any subset of rejected tags",
 "Only the flattening of a struct into a map is unit tested.",
 ["write.go","udt_write.go"],[("multi-write","write.go: WriteMap"),("flattening","udt_write.go: multi_to_dict/udt_to_dict")],
 ["memory of the controller model before and after, API errors"])
p("C13","Keep-alive runs once per session and stops when told",
 "With keep-alive enabled a connected client polls the controller periodically from a single background task until it is cancelled, the client disconnects or the connection fails; after that no further poll is sent and no background task remains. Cancelling, disconnecting and reconnecting in any order and from any goroutine neither crashes nor races. A failing poll leaves the client disconnected.",
 [SC,HI,FA],"every order of connect, cancel, disconnect, reconnect and poll failure",
 "Keep-alive has no test.",
 ["connect.go","disconnect.go"],[("keep-alive loop","connect.go: KeepAlive; disconnect.go: KeepAliveCancel")],
 ["poll requests at the controller model, goroutine profile, race detector"])
p("C14","Routes and logical paths encode exactly the segments asked for",
 "ParsePath, the path builder and the class, instance, attribute, element, port and address types produce bytes that an independent EPATH decoder reads back as exactly the given segments, for every value and every width (8, 16, 32 bit), with correct padding, and the reported length always equals the number of bytes. Decoding a path with the exported readers gives the same numbers. Any text or value that is not a valid path yields an error, never a crash or a silently wrong route.",
 [IN],"every route string and every sequence of builder calls with every value",
 "Unit tests compare a few fixed paths.",
 ["path.go","cip_definitions.go","ioi.go"],[("route parser","path.go: ParsePath"),("segment encoders","cip_definitions.go")],
 ["exported path API"])
p("C15","Pack and Unpack follow the Logix structure layout and invert each other",
 "For every struct made of supported field types (atomics, bit-packed BOOLs and BOOL arrays, numeric arrays, nested structs, predefined types), Pack writes exactly the byte layout a controller uses for that structure and returns the number of bytes written, and Unpack of those bytes restores an equal value and consumes the same number of bytes. Neither reads or writes beyond the structure. Truncated input gives an error.",
 [IN,PR],"every struct shape and value",
 "Unit tests cover about a dozen fixed structs.",
 ["pack.go","lgxtypes"],[("pack/unpack","pack.go: Pack/Unpack")],["bytes produced and consumed for generated struct types"])
p("C16","Structure handles are computed from the complete structure definition",
 "TypeEncode yields for every struct type the abbreviated definition and its CRC-16 exactly as defined for Logix structure handles: type name, then each member's type in order, nested structures and arrays expanded, BOOLs folded into bytes of eight. Types that announce their own abbreviation use it, and the result does not depend on the field values. Predefined types give the handles the controller uses.",
 [IN,PR],"every struct shape and value",
 "Three fixed structs are checked.",
 ["pack.go","lgxtypes"],[("abbreviation and CRC","pack.go: TypeEncode")],["TypeEncode results for generated struct types"])
p("C17","Tag discovery reports exactly the controller's inventory",
 "After ListAllTags the client's known tags, programs and types are exactly the controller's visible symbols (controller scope and every program), each with its type, dimensions, instance number and, for structures, complete template with nested members, no matter over how many partial replies the controller spreads the listing. Listing functions called on their own return the complete list too. Discovery ends, or fails with an error, for every reply pattern.",
 [IN,CO,FA],"every inventory of tags, programs and templates and every pagination",
 "Discovery is only run against hardware.",
 ["listalltags.go","listsubtags.go","listallprograms.go","listmembers.go"],
 [("pagination","listalltags.go: ListAllTags; listsubtags.go: ListSubTags"),("template decode","listmembers.go: ListMembers")],
 ["KnownTags/KnownPrograms/KnownTypes and return values against the model's inventory"])
p("C18","Attribute, identity and generic services deliver the device's data unchanged",
 "GetAttrSingle, GetAttrList, GetControllerPropList, GetTemplateInstanceAttr, ListIdentity, ListServices and GenericCIPMessage send exactly the requested class, instance, attributes, service and data, and hand back exactly the payload the device answered with, positioned at its first byte. The typed item accessors return the bytes in order with the documented widths and report running out of data as an error.",
 [IN],"every class/instance/attribute/service/payload combination",
 "Only the identity and services body parsers are tested, on one capture each.",
 ["getattr.go","listidentity.go","listservices.go","items.go","listmembers.go"],
 [("attribute services","getattr.go"),("item accessors","items.go")],["request seen by the device model and bytes returned"])
p("C19","Tag groups and name templates expand to exactly the intended tags",
 "For every tag group and argument list, each placeholder is replaced by its own argument, each definition is read as its declared type and element count, and the result returns, under the expanded name, exactly the controller's value for that definition; multi-element definitions expand to consecutive elements of the last array dimension. Typed accessors return the value only when it has that type and otherwise an error. A group is unchanged by use.",
 [IN],"every template, argument list, type and element count",
 "Unit tests cover fixed templates without a target.",
 ["taggroup.go","taggroup_readmap.go","datatable.go"],[("template expansion","taggroup.go: formatName/expandArrayTag"),("group read","taggroup_readmap.go")],
 ["ReadTagGroup / AddTagGroup results and the tags the model saw requested"])
p("C20","Data table buffers return each tag's own current value",
 "For every history of adding, removing, syncing and reading tags (single, batch, group, tagged struct) on a data table buffer, every read returns for each tag currently in the buffer exactly the controller's current value for it, under its name and in its referenced variable, and nothing for removed tags. The client's record of the buffer and the controller's buffer always describe the same tags. Close deletes the buffer at the controller exactly once; a closed buffer returns errors.",
 [HI,IN],"every sequence of buffer operations over tags of every type and number",
 "Unit tests only decode hand-written buffers.",
 ["datatable.go"],[("sync and batch tracking","datatable.go: SyncTags/ReadAll"),("removal","datatable.go: RemoveTag")],
 ["class 0xB2 object in the controller model vs ReadAll/ReadAllRaw/ReadAllTyped"])
p("C21","Predefined Logix structure types keep every member across the wire",
 "For every value of the predefined types (TIMER, COUNTER, CONTROL, STRING) packing gives the controller's 12-byte (or string) layout with every status bit, preset and accumulated value in its place, unpacking restores every documented member, and the announced type handle is the controller's. Reading and writing such a tag through the client gives the same values.",
 [IN],"every combination of flags, presets and accumulators",
 "lgxtypes has no test.",
 ["lgxtypes/timer.go","lgxtypes/counter.go","lgxtypes/control.go","lgxtypes/string.go"],
 [("pack/unpack","lgxtypes/*.go")],["bytes and members against an independent bit-level layout"])
p("C22","Fault and force helpers report exactly what the controller says",
 "GetFaults and GetForces ask the controller once and return exactly the fault log and force status it answers with, for every content; when the controller refuses, reports a failure for the attribute or answers with fewer bytes than needed they return an error. A fault event is described by the table entry for its own type and code, or as an unknown fault with its numbers and detail; every table entry states the type and code it is filed under; each fault-type question is true exactly when its own bit is set, and forces are reported as installed (bit 0) and as enabled (bit 1) independently.",
 [IN],"every fault log content, status, length, type and code",
 "The canned package has no test.",
 ["canned/faults.go","canned/forces.go","canned/fault_descriptions.go"],
 [("calls","canned/faults.go: GetFaults; canned/forces.go: GetForces"),("descriptions","canned/fault_descriptions.go")],
 ["requests and results against a recording controller model, table and predicates exhaustively"])
p("S01","The server answers each request exactly once, to the right requester",
 "For every stream of well-formed requests on any number of client connections, the server sends on the same connection exactly one reply per request, in order, that echoes the request's context and session, its connected sequence number and originator connection identifier, and names the requested service as a reply. Requests it does not support or cannot satisfy are answered with a CIP error status instead of silence, and the connection stays usable. Reply length fields always match the bytes sent, and a connected reply is never larger than the size its connection was opened with.",
 [HI,IN],"every sequence of sessions, opens, closes, reads, writes, multi-service, attribute and unsupported requests",
 "Tests check four canned server replies.",
 ["server.go","server_connected.go","server_unconnected.go","server_listidentity.go"],
 [("dispatch and reply","server.go: serve/sendUnitData/send"),("error replies","server.go: sendUnitDataErrorReply; server_unconnected.go: sendUnconnectedErrorReply")],
 ["all bytes sent by the server, matched to requests by an online checker"])
p("S02","Tags served to remote clients behave like a typed store",
 "For every history of connected, unconnected, multi-service and attribute-bridge reads and writes against a map tag provider, each read returns the value, type and elements last written (or initially set) for that tag or element and each accepted write changes exactly the addressed tag or elements and keeps an array's element type. Reads or writes outside a tag's bounds, reads and element writes of unknown tags and writes of incompatible type report an error and change nothing; writing a whole tag the provider does not have creates it, as documented.",
 [HI,IN],"every sequence of requests over scalars, strings and arrays of every type, by name in any letter case and by element index",
 "The suite checks a few string reads and writes.",
 ["server_router.go","server_connected.go","server_unconnected.go","ioi.go"],
 [("map provider","server_router.go: TagRead/TagWrite"),("request decode","server_connected.go: parseWriteValues; ioi.go: getTagFromPath")],
 ["replies of the real server and the provider's map against a sequential model"])
p("S03","Concurrent clients of one server see linearizable, untorn tags",
 "When any number of connections read and write the tags of one map provider at the same time, every operation appears to take effect atomically between its request and its reply, an array read never mixes elements of different writes that replaced the whole array, and no access to the provider's data or to the server's own state races. Enumerating tags or changing the map under its lock at the same time is safe.",
 [SC,HI],"every interleaving of requests from concurrent connections",
 "No test drives two connections, and the suite is not run with the race detector.",
 ["server_router.go","server.go","server_connected.go","server_connections.go"],
 [("provider mutex","server_router.go: MapTagProvider.Mutex"),("connection table lock","server_connections.go: Lock")],
 ["per-tag linearizability of recorded histories, race detector"])
p("S04","No bytes from the network can crash or wedge the server",
 "For every byte sequence sent to its TCP or UDP port, the server process keeps running, never spins or allocates out of proportion to the input, and keeps serving other connections and new ones correctly. At most the offending connection is closed. Tag data is never changed by a request that was malformed.",
 [IN,FA],"every mutation of every request, on TCP and UDP, at every protocol state",
 "Tests only send well-formed requests.",
 ["server.go","server_connected.go","server_unconnected.go","server_io.go","server_iochannel.go","ioi.go","items.go","server_router.go"],
 [("length and range checks","ioi.go: getTagFromPath; server_connected.go: connectedMulti/parseWriteValues; server.go: forwardOpen; server_io.go: IOWrite")],
 ["server process exit, canary connection, provider contents"])
p("S05","Server connections are tracked per originator and released on close",
 "Each forward open adds exactly one connection with the identifiers returned to its originator, routed to the provider registered for its path; requests are served only on identifiers that are open; a forward close removes exactly the connection it names for that originator and is answered, and leaves all other connections untouched. When a client's TCP connection ends, its connections end with it.",
 [HI],"every interleaving of opens and closes by any number of originators, including equal serial numbers",
 "One test checks the echoed identifier.",
 ["server.go","server_connections.go"],[("connection table","server_connections.go"),("open/close","server.go: forwardOpen/largeForwardOpen/forwardClose")],
 ["which connection identifiers are served, and by which provider, after every step"])
p("S06","Class 1 I/O delivers each side's current data, unmixed and in sequence",
 "While a cyclic connection is open the server produces, at the requested interval, packets carrying that connection's target-to-originator identifier, a strictly increasing sequence and the complete packed value most recently set by the provider, and stops after the connection is closed. Every well-formed packet consumed reaches exactly the provider of its connection, whole and in order, for the struct provider and for every subscriber waiting for it of the channel provider; other packets change nothing. Setting and reading the data concurrently never races or tears a value.",
 [SC,HI,IN],"every data struct, value history, number of connections and subscribers",
 "I/O has no test.",
 ["server_io.go","server_iochannel.go","server.go"],[("producer loop","server.go: ioConnection"),("consumer","server.go: serveUDP; server_io.go; server_iochannel.go")],
 ["packets on the UDP port, values seen by providers and subscribers, race detector"])
p("S07","The server describes itself consistently on every discovery service",
 "For every set of identity attributes and tags, ListIdentity, ListServices, Get Attributes All and Get Attribute Single (connected, direct and wrapped), and symbol listing all report exactly the configured values in the layout standard clients parse, with names and counts of any length handled. Symbol listing names every tag of the provider once with its type, and the attribute bridge's numbering agrees with it. A description too long for a small connection may be refused with an error, never cut.",
 [IN,CO],"every identity (strings of every length, integers of every value) and every tag set",
 "A few fixed identities are checked.",
 ["server_listidentity.go","server_unconnected.go","server.go","server_connected.go"],
 [("identity replies","server_listidentity.go; server_unconnected.go: buildIdentityGetAttributesAllResponse"),("symbol list","server_unconnected.go: buildSymbolObjectInstanceListResponse")],
 ["replies of the real server against the configured attributes; the client's own ListIdentity/ListServices parsers"])
p("S08","A client and a server of this library interoperate end to end",
 "A client connected to a server of this library reads back through every read call exactly what was written through every write call or set in the provider, for every supported type, array and string, and identity and service listing work between the two. Connect and Disconnect complete promptly and leave no connection behind on the server. What the pair does not support (bit writes, arrays of bools, arrays of strings larger than the connection, structures) is reported as an error. A failing operation leaves the session usable.",
 [HI,IN],"every history of client operations against the library's own server",
 "No test connects the library's client to its server.",
 ["client.go","read.go","write.go","server.go","server_connected.go"],
 [("client","client.go, read.go, write.go"),("server","server*.go")],["client results vs provider map"])
p("L01","Loading an L5X export yields exactly the tags, types and comments it contains",
 "For every L5X project, the loaded tags (controller and program scope), comments, rung comments and data types are exactly those in the document, under their fully qualified names, with values of the declared type. Missing optional sections are treated as empty; malformed content yields an error. No document crashes the loader.",
 [IN],"every L5X document: any subset of optional sections, tags, types, comments and programs",
 "The l5x package has no test that runs offline.",
 ["l5x/load_tags.go","l5x/types.go","l5x/schema.go"],[("loader","l5x/load_tags.go")],["exported l5x functions over generated documents"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
