TRUST=" Assurance is that of the executions observed (counts in the evidence file); trusts the controller model in harness/plc, which was written from the public EtherNet/IP and 1756-PM020 descriptions and not from the code under test."
CLAIMED={
"C01":("runtime monitoring: value oracle against a recording controller model, race detector on","Every delivered value is compared bit for bit with the model's memory at the requested address, over generated tag worlds."+TRUST),
"C04":("runtime monitoring: trace and value oracle on fragmented replies from a controller model, fault injection, race detector on","Every cut of the data is compared with the unfragmented value and every follow-up request with the bytes already sent; failed, missing and stalled fragments must end in an error."+TRUST),
"C02":("runtime monitoring: value oracle on every slot of multi-tag reads against a recording controller model, reply reordering and truncation, race detector on","Every delivered slot, key and field is compared with the model's memory for its own tag, over random tag sets, splits and reply orders."+TRUST),
"C03":("runtime monitoring: online measurement of every received request and produced reply against the negotiated size, conservation check of requested tags, race detector on","Item sizes, offset tables and the multiset of requested (place, count) are checked on the wire for random and size-filling tag sets."+TRUST),
"C10":("runtime monitoring: independent EPATH decoder on every received request path, compared with the name, race detector on","Every path received is decoded and compared with the meaning of the name, for random and boundary names and for instance addressing across listings and downloads."+TRUST),
"C11":("runtime monitoring: whole-memory differential oracle on a recording controller model, race detector on","The memory of the model before and after each write is compared byte by byte with the predicted effect."+TRUST),
"C12":("runtime monitoring: whole-memory differential oracle on a recording controller model, fault injection, race detector on","The memory of the model after each multi-tag write is compared byte by byte with the prediction; rejected, dropped and failed services must end in an error."+TRUST),
"C14":("runtime monitoring: independent EPATH decoder over encoded paths and over connection paths received by a controller model, round-trip oracle, race detector on","Every produced byte string is decoded by a strict independent decoder and compared segment by segment with what was asked; the routes of opened connections are compared at the controller model."+TRUST),
"C15":("runtime monitoring: byte-level oracle from an independent layout model, round-trip, truncation and failing reader/writer injection over generated struct types, race detector on","Every packed value is compared byte for byte with the model, every unpacked one member by member; truncated and failing sources must give an error. Assurance is that of the executions observed (counts in the evidence file); trusts the layout model in harness/checks/layout.go and the hand-written layouts."),
"C16":("runtime monitoring: oracle from an independent abbreviation and CRC implementation over generated struct types and over written requests, race detector on","Definition text and handle of every generated type are compared with an independent implementation for zero, random and all-ones values. Assurance is that of the executions observed (counts in the evidence file); trusts that implementation."),
"C22":("runtime monitoring: byte-level oracle for the fault and force calls against a recording controller model, exhaustive monitor over fault table, fault-type and force bits, race detector on","Random and boundary log contents, every status, every truncation; types and codes 0-400 exhaustively and random ones beyond."+TRUST),
"C21":("runtime monitoring: exhaustive status-bit oracle for the predefined types, through pack, unpack and a client against a recording controller model, race detector on","All status bit combinations are exercised exhaustively with boundary and random numbers."+TRUST),
"C18":("runtime monitoring: byte-level request and result oracle against a recording controller model, reference cursor for item accessors, race detector on","Every request of attribute, identity, service and generic calls is decoded and compared with what was asked for, every result with what the model answered."+TRUST),
"C17":("runtime monitoring: inventory oracle over random controllers, pagination, malformed listings and faults, race detector on","The client's tags, programs and types after every listing are compared with the controller model's inventory; every listing must end."+TRUST),
"C19":("runtime monitoring: expansion and value oracle over random templates and arguments read through every route from a recording controller model, race detector on","Every result of a group is compared by expanded name with the model's memory, every typed accessor with the value's type, and the group with what it was before."+TRUST),
"C20":("runtime monitoring: state oracle over random buffer histories comparing the client's record, the controller model's buffer, values and references after every step, race detector on","After each step of random histories with refusals, removals and closing, the record of every buffer is compared with the model's buffer entry by entry and every value read with the model's memory."+TRUST),
"L01":("runtime monitoring: differential oracle of generated project documents against the generator's own model, damage injection, race detector on","Every loaded value, comment, rung comment and type of generated projects is compared with what was generated; incomplete and damaged documents must not crash. Assurance is that of the executions observed (counts in the evidence file); trusts the document generator in harness/checks/l01_l5x.go, written after exports of Studio 5000."),
"C05":("runtime monitoring: status fault injection into every client operation of a recording controller model, result and follow-up oracle, race detector on","Every general status, extended status and encapsulation status is put on every kind of call; a nil error or an invented destination value is a violation, and the session must keep working."+TRUST),
"C06":("runtime monitoring: linearizability checking (porcupine) of recorded concurrent histories, wire monitor for overlapping requests and repeated sequence counts, race detector","Results of concurrent calls are compared with constant data and register histories checked for linearizability under random controller delays."+TRUST),
"C07":("runtime monitoring: reply mutation and replacement under panic, hang, allocation and recovery monitors, race detector","Every kind of call gets replies that are cut, flipped, extended, replaced, endless or missing; panics, calls beyond their timeouts, allocation out of proportion and clients that cannot be used again are violations."+TRUST),
"C08":("runtime monitoring: state oracle between the client's claim and the controller model's sockets, sessions and connections over random lives with faults and concurrent reconnects, race detector","After every step of random histories the model's open sockets and connections are compared with what the client says; every received request must carry the handles of its own session."+TRUST),
"C09":("runtime monitoring: online wire-format monitor on every received frame, service expectation per call, size-filling and oversized calls, sequence count wrap","Every frame of every call is taken apart by the model; calls that need more than a length field can say must be refused."+TRUST),
"C13":("runtime monitoring: poll rate and goroutine monitor on the keep-alive over random phases, faults and concurrent starts and cancels, race detector","Polls received are counted against the clock and keep-alive goroutines counted in the process after every transition."+TRUST),
}
STRUST=" Assurance is that of the executions observed (counts in the evidence file); trusts the byte-level client in harness/checks/srv.go, which shares no code with the library."
CLAIMED.update({
"S01":("runtime monitoring: online request/reply matching on every byte the real server sends over many sessions and connections, race detector on","Every reply is taken apart and matched with its request: context, session, sequence count, connection identifier, service, status and every length field."+STRUST),
"S02":("runtime monitoring: sequential model oracle over recorded histories of the real server and its map provider, race detector on","Each reply and the provider's whole map after it are compared with a sequential store model over random histories on every route."+STRUST),
"S03":("runtime monitoring: linearizability checking (porcupine) of recorded concurrent histories of the real server, tear and race detection","Concurrent histories of several connections, with listing and direct changes of the map, are checked per tag for linearizability."+STRUST),
"S04":("runtime monitoring: mutation of every message at every protocol state under crash, hang, allocation and canary monitors, store comparison, race detector on","After every mutated message a canary connection must be served, tags must hold what only well-formed requests wrote, and memory and goroutines must stay in proportion."+STRUST),
"S05":("runtime monitoring: state oracle over random histories of opens and closes by several originators, probing every identifier after each step, race detector on","After each step every identifier ever given out is probed: open ones must be served by the provider of their path, closed ones not."+STRUST),
"S06":("runtime monitoring: packet and value oracle on the server's class 1 I/O with self-describing values, rate and sequence monitors, race detector on","Every packet produced and every value delivered is taken apart and compared with what was set or sent; values carry their own check so that tears show."+STRUST),
"S07":("runtime monitoring: byte-level oracle of every description service of the real server against its configuration, race detector on","Every identity and listing reply is taken apart and compared with the configured attributes and tags."+STRUST),
"S08":("runtime monitoring: model oracle over random histories of the library's client against the library's server, connection probes, race detector on","Every client result is compared with a model of the provider, the provider's map with the model, and the server's connections with what the client opened. Assurance is that of the executions observed (counts in the evidence file); trusts the model in harness/checks/s08_interop.go."),
})
NOT={}
