import json,glob,re
out=[]
A=out.append
A('''# Verification of danomagnum/gologix by runtime monitoring

Everything here decides a property in one way: the real code of `/repo`, compiled with the race detector, runs under
generated, hostile and stress workloads, and an oracle that shares no code with it judges what is observed. Nothing is
proved; the assurance is that of the executions observed, and each run writes into `/verif/evidence/<id>.json` how many
events, distinct situations and faults these were.

## Parts

    properties.jsonl       the 30 properties (generated by tools/gen_properties.py)
    MANIFEST.json          generated by tools/gen_manifest.py from tools/claims.py
    check.sh ID TIER [CASE] builds harness against /repo's working tree (with -race) and runs one check
    known_findings.txt     the recorded finding and the repaired defects
    harness/               Go module, `replace github.com/danomagnum/gologix => /repo`; exported API only
      rt/                  runtime: case lists, child processes, guards, signatures, findings, evidence
      plc/                 controller model: sockets, sessions, connections, CIP services, memory, templates, buffers
      checks/              one file per property (c02 has C02, C03 and C12) and what they share
    seeded/                planted bugs (patch, demonstration, what they need); read by no check
    tools/plant.py         confirms a planted bug and records it; tools/demo: shared parts of demonstrations
    tools/mutate/          mutation sampler: random syntactic changes to /repo in a copy, stable tests, all checks

There are no hooks in `/repo`: everything is observed at the exported API, on the sockets and in the process (goroutine
profile, heap, race reports). So `MANIFEST.json` has no hooks and nothing in `/repo` is behind a build tag. What is
committed there are the `fix:` commits listed at the end.

### The runtime (`harness/rt`)

* The list of cases of a check depends on the tier and `VERIF_SEED` only; every case has a PRNG of its own seeded with
  (seed, case name), so `./check.sh ID TIER CASE` replays one.
* Cases run in child processes, six by default. A crash, `fatal error`, exhausted memory or deadlock kills the child and is
  attributed to the case that ran; the remaining cases go on in a new child.
* Guards around every call into the library: panics (`Guard`), time (`Within`), a case that stands still for 120 s
  (watchdog "stuck", which prints goroutines), live heap above 1 GiB ("memory"), data race reports with a frame of
  gologix in them (from the race detector's log), goroutines and sockets left (where a property says so).
* A failure has a *signature* (a short word the monitor chooses) and a detail. `known_findings.txt` lists
  (property, signature, what fails); a listed one is printed as `KNOWN-FINDING`, any other as `VIOLATION` with a replay
  file that names seed, case and command.
* After the first unlisted failure the run goes on for 60 s (quick) or 240 s (thorough) and then stops, so that a broken tree is reported
  in time. Soft and hard limits of the whole run: quick 560/700 s, thorough 760/840 s. A run that was cut says so in
  its evidence (`cut_short_by`), a healthy one isn't cut.
* A run in which an event counter that must not be 0 (`MinEvents`) is 0 fails: a monitor that saw nothing decides nothing.
* Checks of the server and of ListIdentity need fixed ports (TCP 44818, UDP 44818 and 2222) and take a lock. Everything
  else listens on a free port of the loopback network. Nothing is written outside the scratch directory of the run.

### The controller model (`harness/plc`)

Written from public descriptions of EtherNet/IP, CIP and Logix data access (1756-PM020), not from the code under test. It accepts real
TCP connections, decodes every frame strictly (each length field, item header, path, padding and trailing byte), keeps
sessions, connections with their sizes, tags with byte memory, templates, program scopes, symbol listing in parts,
fragmented reads and writes, multiple services, attributes, data table buffers, and records all of it. Faults are injected
per request: any status, extended words, fragments of any size, replies delayed, dropped, cut, flipped, extended,
replaced or reordered, sockets closed, opens refused. A frame it finds malformed is a failure of the running case on
every check, so the wire format is monitored under all workloads.

The byte-level client for the server side (`checks/srv.go`) is the mirror image of it: it shares nothing with the library either.

## Properties
''')
P=[
("C01","read.go, gologix.go, types.go, structs","`all-types`, `all-bits`, `string-lengths`, `targets`, `changing-values`, `too-long` enumerate types, bits, string lengths, unusable targets; `size-N` reads slices around every boundary of the connection size up to 65535; `random-N` draws controllers and reads through Read, Read_single, ReadPacked into every fitting Go type. Oracle: the delivered value equals the decoded bytes at that place of the model's memory; junk in the destination must be overwritten, nothing else touched. A test compares a handful of fixed tags on a real controller (skipped here)."),
("C02","multiread.go, tag groups","random tag sets of 1–400 slots over ReadMulti, ReadMultiArgs, ReadMap, ReadMultiMap, ReadList, ReadTagGroup; splits, services answered out of their usual place, `short` replies, `wide` connections of up to 65535 bytes. Oracle: each slot equals the memory of its own tag, untagged fields unchanged, map keys exactly those asked for."),
("C03","multiread.go, multiwrite.go","the model measures each connected request and the reply it makes against the size it granted, checks the offset table and compares the multiset of (place, count) requested with the one implied by the call. `uniform-N` fills connections exactly with equal tags of every length, `mixed-N` is random, sizes up to 65535."),
("C04","readFragmented and its callers","the model cuts data at random places (single bytes to whole reply), `by-connection-size`, inside multi services, structures; arrays beyond 64 KiB. Oracle: value equal to the memory, each follow-up asks at exactly the offset delivered. `faults-N`: fragments missing, failing, empty, repeated: error, no value, no endless loop."),
("C05","every place that looks at a status","every operation × every general status (0–255 over the run), extended words, encapsulation status, inside multi services at each position. Oracle: non-nil error; destination unchanged or a value the model really sent; next operations work on the same session."),
("C06","client locks, sequence and handle state","2–16 goroutines mix all calls (half the time discovery and data table buffers too) on one client with random delays of the model; values are self-describing constants, registers are checked for linearizability with porcupine; wire monitor: never two outstanding, no sequence count twice. Race detector on."),
("C07","all reply parsing","each operation × mutations of a real reply (cut at every length, flipped bits, wrong counts, lengths, offsets, other command, extended, endless, silence, close). Monitors: panic, call beyond its timeout, allocation compared with the bytes received, and whether the client connects and works again."),
("C08","connect.go, disconnect, forward open/close","`life-N` random histories of connect, calls, disconnect, timeouts, refused large opens, refused sessions; `chaos-N` from several goroutines; `idle-*` each call on a client that isn't connected; `absent-N` a controller that refuses the connection until it appears, with settings left to the library's defaults. After every step: sockets, sessions and connections at the model equal what the client claims; every request carries the handles granted in this session; forward close names the opened connection."),
("C09","every serializer","`calls-N` each exported operation with random arguments; `big-*` operations whose lengths reach the limits of their fields (must be refused rather than wrapped); `sequence`/`wrap` for the count through 65535. Oracle: strict decoding of each frame and expected service and path for the call."),
("C10","ioi.go","names with program scope, nesting, 1–3 indices of 8/16/32 bits, bits 0–63, any letter case, again after listings and program downloads that change instance numbers. Oracle: decoded path segments equal the parsed name (independent parser); impossible names give an error and nothing on the wire."),
("C11","write.go","each type × length × index, strings, structures (packed by an independent layout model), typed slices up to and past the connection size. Oracle: memory of the whole controller before/after."),
("C12","multiwrite.go","maps and nested structs of up to hundreds of tags; rejected or dropped services; unrepresentable values; wide connections. Oracle: as C11."),
("C13","keepalive.go","polls counted against the clock, goroutines by their stack in the process profile, over phases of connect, cancel, disconnect, broken sockets, concurrent start/cancel; keep-alive tags."),
("C14","cipaddresses.go, path.go","every width and boundary of each segment type, the builder, ParsePath on valid and damaged texts, exported readers on the bytes; the routes of real forward opens at the model. Oracle: independent EPATH decoder."),
("C15","pack.go, unpack.go","random struct types made with reflect (nested, arrays of structs, bools in any arrangement) plus named and predefined ones; failing and short writers/readers. Oracle: byte layout from `layout.go`, an independent implementation of the Logix rules."),
("C16","type encoding","random struct types; text and CRC from an independent implementation; handles of written structures at the model; independence of values."),
("C17","listalltags.go, listprograms, templates","random controllers (programs, modules, system names, UDTs nested, thousands of tags) with listings cut in parts of any size, repeated listings after changes; `hostile-N` listings that never end, repeat or contradict themselves."),
("C18","attributes.go, genericcip.go, items.go","request decoded and compared with the arguments, result with what the model answered; `items-N` compares the cursor of the typed accessors with a reference cursor at every position including the last bytes."),
("C19","taggroup.go","random templates and argument lists, placeholders inside arguments, multi-element definitions, reads through all routes; typed accessors for all types; groups must not change or be shared."),
("C20","datatable.go","random histories on one or several buffers with refusals, removals, bits, strings, references, `parallel-N` goroutines, `large-N`. After every step the record equals the model's buffer entry by entry."),
("C21","lgxtypes","all status bit combinations of TIMER, COUNTER, CONTROL exhaustively; strings of each length; through a client against the model."),
("C22","canned/","fault logs and force statuses of every kind, whole, cut, refused or failed per attribute; every class and code to 400 described and compared with the table; every force status; a client shared by several goroutines. The bit numbers of the fault types are taken from the package: they look one too low from IO on next to the manual's type numbers, but that needs hardware to confirm."),
("S01","server*.go","up to 170 pipelined requests per stream, several streams, connections of 100–65000 bytes, long multiple services (up to 800 requests), unknown services, custom endpoints returning any Go value or error. Each byte sent is parsed and matched."),
("S02","maptagprovider.go, server read/write","sequential model of a typed store against random histories over connected, unconnected, multi and attribute routes; the provider's map compared after every step. `wide` cases use arrays of up to 65536 elements, reads on from beyond 64 KiB and writes beyond the end by 256 or 512 elements; names also carry negative and impossible indices; stores and routers of the zero value; routes nobody is at and stores without tags."),
("S03","maptagprovider.go locks","3–8 connections, listing and direct changes under the lock; per tag linearizability (porcupine), arrays carry one stamp per write so tears show."),
("S04","all request parsing","mutations of every message at each protocol state, every length of each message, names that index nothing, cut writes, UDP. Canary connection, store comparison, memory and goroutines."),
("S05","server connection table","random histories by several originators with colliding serials, vendor ids, closes of others' connections, sockets dropped; every id ever given out is probed after each step. Routes of up to 64 hops and routes that begin with another provider's; cyclic opens without an interval or a provider must be refused."),
("S06","class 1 I/O","self-describing values with a checksum; ids, counts (a `long` case goes beyond 65536 packets), rate with wide tolerance, stop after close, values up to 4000 bytes, providers that have nothing at first; providers of one direction only; subscribers that come, several at once, while data does; tag requests at an I/O provider are refused; consumers checked for whole values in order."),
("S07","identity, listing","random identities (names up to and over 255 bytes, missing attributes) and providers; every service parsed by an independent reader; types of listing compared with values."),
("S08","client and server together","random histories of all client calls against the server with a model of the provider; listing by name and number; connections probed after disconnect; up to 600 tags per request."),
("L01","l5x/","documents written by a generator after real exports, with optional sections missing, every radix, type and shape; damaged documents must not crash. Oracle: the generator's own model."),
]
def title(i):
    for l in open('/verif/properties.jsonl'):
        p=json.loads(l)
        if p['id']==i: return p['title']
seeds={}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); seeds.setdefault(m['property'],[]).append((d.split('/')[3],m['needs']))
cost={l.split()[0]:l.split()[1] for l in open('/verif/tools/costs.txt')} if __import__('os').path.exists('/verif/tools/costs.txt') else {}
for i,where,txt in P:
    A(f"### {i} — {title(i)}\n")
    A(f"*Anchored in* {where}. {txt}")
    if i in cost: A(f"Quick run about {cost[i]} s.")
    for s,n in seeds.get(i,[]):
        A(f"Planted `{s}` ({n}): caught.")
    A("")
A(open('/verif/tools/design_tail.md').read())
s="\n".join(out)
open('/verif/DESIGN.md','w').write(s)
