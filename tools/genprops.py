#!/usr/bin/env python3
# Generates /verif/properties.jsonl.  One place to edit the property list.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "CIP path segments encode to the exact logical segment and know their length",
  "For every class, instance, attribute and element number the encoded path segment is the CIP logical segment with the smallest of the 8/16/32-bit forms that holds the number, carrying exactly that number little-endian with its pad byte. The length a path part reports equals the number of bytes it encodes to, and serializing several parts concatenates them in order.",
  ["inputs"], "all 2^16 class/attribute and 2^32 instance/element numbers, all port numbers and short extended addresses",
  "Tests pin a few small numbers; the width switch points (255/256, 65535/65536) and the agreement of reported and actual length are over all values.",
  ["cip_definitions.go", "path.go", "ioi.go"], [("Bytes/Len pairs of the path-part types", "cip_definitions.go"), ("Serialize", "path.go")], ["CIPClass(...).Bytes()", "CIPInstance(...).Bytes()", "CIPElement(...).Bytes()", "Serialize"])

p("C02", "A tag path becomes exactly the request path it names, or an error",
  "For every tag path of dotted names with numeric array indexes (one to three dimensions) the request path produced is one symbolic segment per name, in order, with its length, its bytes and even padding, each followed by one element segment per index in order with the exact index value. A bit suffix or program prefix is handled without changing the rest, a path whose index text is not a list of non-negative numbers is rejected with an error, and no tag path text makes the client panic.",
  ["inputs"], "names, index values up to 2^32, number of parts and all characters within the length bound",
  "ioi_test pins about ten fixed strings; index values, malformed index text and odd/even lengths are unbounded.",
  ["ioi.go"], [("newIOI", "ioi.go"), ("tag part parsing", "ioi.go"), ("marshalIOIPart", "ioi.go")], ["request bytes on the wire for Read/Write"])

p("C03", "The server recovers from a request path the tag name the client meant",
  "For every tag path the client can encode, the tag name the server hands to its tag provider for a read or write names the same symbol parts, indexes and members as the client's path. A request path the server cannot interpret yields an error to the requester, not a different tag's name and not a crash.",
  ["inputs"], "all names and index values in the bound, all element segment widths, all request path bytes up to the bound",
  "The server tests use single plain names; indexes beyond one byte, members and malformed paths are never sent.",
  ["ioi.go", "server_unconnected.go", "server_connected.go"], [("getTagFromPath", "server_unconnected.go"), ("newIOI", "ioi.go")], ["TagRead/TagWrite calls on the tag provider"])

p("C04", "Route path text parses to the exact port segments or is rejected",
  "A route path of comma-separated port,link pairs encodes every port and link in order: one-byte links as the number, textual (IP) links as an extended link segment with length and even padding. Text that is not such a list is rejected with an error; no text makes the parser panic or silently drop or truncate a hop.",
  ["inputs"], "every text up to the length bound, all port and link numbers",
  "path_test holds a dozen examples; error and boundary values of ports, links and separators are not covered.",
  ["path.go"], [("ParsePath", "path.go"), ("Serialize", "path.go")], ["ParsePath", "Serialize"])

p("C05", "Message item lists survive framing and truncated input is refused",
  "Any list of items written to the wire format and read back yields the same item kinds, lengths and bytes in the same order. Input that ends early, or announces more data than it holds, yields an error and never a panic, an invented item or bytes that were not received.",
  ["inputs"], "item counts and payload lengths in the bound, every payload byte, every truncation point, every arbitrary input buffer up to the bound",
  "items_test frames two fixed messages; arbitrary headers and truncations are not covered.",
  ["items.go"], [("serializeItems/readItems", "items.go")], ["SendUnitData/SendRRData frames"])

p("C06", "Item reads return the next bytes in order and fail cleanly at the end",
  "Every typed read from a message item returns exactly the next bytes in little-endian order and advances by the size read; reading past the end returns an error and never fabricates data or panics. What is serialized into an item is appended unchanged and can be read back in the same order after a reset.",
  ["inputs", "histories"], "all payload bytes, all sequences of typed reads/writes within the bound",
  "Tests read one hand-made item; short items and mixed sequences are not covered.",
  ["items.go"], [("CIPItem cursor", "items.go")], ["CIPItem.Byte/Int16/Uint16/Uint32/.../Bytes/Serialize/DeSerialize"])

p("C07", "Every controller data type decodes to exactly the value it carries",
  "For every elementary CIP type and every bit pattern, the Go value produced for that type is the little-endian number (or IEEE float, boolean or string) that the bytes denote, with the documented Go type. A single bit taken from an integer value is exactly that bit, and a bit number outside the type is an error rather than a value.",
  ["inputs"], "all bit patterns of each elementary type, all bit numbers",
  "Tests decode single sample values; sign extension, every bit position and short payloads are over all values.",
  ["types.go", "read.go"], [("readValue", "types.go"), ("getBit", "read.go")], ["values returned by Read_single, ReadList, ReadMap"])

p("C08", "Struct packing is invertible and follows the controller's alignment rules",
  "Packing a structure and unpacking the bytes into a structure of the same type returns the same field values, for any nesting of integers, booleans, arrays and nested structures. Field offsets follow the controller's layout: members aligned to their size, consecutive booleans packed bit by bit least significant first, structures aligned to their largest member and elements of structure arrays padded to it; unpacking from too few bytes is an error.",
  ["inputs", "programs"], "all field values of a family of struct shapes covering every ordered pair of field kinds, arrays and nesting",
  "pack_test fixes a handful of structs and values; the quantifier is over every field value and field order.",
  ["pack.go", "types.go"], [("Pack/Unpack", "pack.go")], ["Pack", "Unpack"])

p("C09", "Timer, counter, control and string structures keep every field and flag",
  "For every value of the preset, accumulator, length, position and every status flag the controller uses, packing a timer, counter or control structure and unpacking it returns the same structure, and each flag occupies its own status bit as the controller defines it. Writing one flag never changes another flag or number.",
  ["inputs"], "all 32-bit numbers and all combinations of flags",
  "The existing tests need hardware; only sample values are compared.",
  ["lgxtypes/timer.go", "lgxtypes/counter.go", "lgxtypes/control.go", "lgxtypes/string.go"], [("Pack/Unpack methods", "lgxtypes")], ["lgxtypes.TIMER/COUNTER/CONTROL Pack and Unpack"])

p("C10", "A read returns the controller's value or an error, whatever the reply",
  "A tag read puts on the wire one read request naming that tag with the requested element count, and on a successful reply returns exactly the value the reply carries for the type asked for. Any reply with a non-zero status, a truncated reply, a mismatched type, a short transfer or arbitrary bytes yields an error, never a success with a value the controller did not send and never a panic; so does asking for a value in a Go variable that can't hold one.",
  ["inputs", "fault_sequences"], "all reply bytes up to the bound, all statuses, all values of each type, all truncation points, single values and arrays",
  "The fake-server tests script one good and one bad reply; the reply is adversarial input of any shape.",
  ["read.go", "types.go", "items.go", "sendreceive.go"], [("Read/Read_single/readArray", "read.go"), ("recvData", "sendreceive.go")], ["Client.Read", "Client.Read_single"])

p("C11", "Fragmented reads reassemble the controller's bytes exactly once in order",
  "When the controller splits a value over several partial-transfer replies, the client asks for each next piece at exactly the byte offset already received and the result is the in-order concatenation of all pieces. An error status or truncated piece in the middle makes the whole read fail instead of returning partial data, and the client stops when the transfer is complete or makes no progress.",
  ["inputs", "histories"], "all numbers and sizes of fragments within the bound, all data bytes, all statuses at each fragment",
  "read_partial_test scripts three transfers with fixed split points.",
  ["partialread.go", "read.go"], [("fragmented read loop", "partialread.go")], ["Client.Read of arrays with status 0x06 replies"])

p("C12", "Multi-tag reads give each tag its own reply, type and status",
  "In a multi-tag read every result delivered under a tag is the value of that tag's own reply, in request order, whatever the lengths and types of the other replies. If the controller reports a failure for any tag the call returns an error, a malformed reply is an error and not a panic, every request carries a correct service count and offset table and fits the negotiated connection size, and splitting a long list neither drops nor repeats nor reorders tags.",
  ["inputs"], "numbers of tags, tag name lengths, types, reply values and statuses within the bound, all connection sizes around the split point",
  "The list tests need hardware; correspondence and splitting are over all tag lists.",
  ["read.go"], [("readList / countIOIsThatFit", "read.go"), ("ReadMap/ReadMulti", "read.go")], ["Client.ReadList", "Client.ReadMap", "Client.ReadMulti"])

p("C13", "A write sends exactly the value given and succeeds only if acknowledged",
  "A single-tag write sends one write request naming the tag with the correct type code, element count and exact little-endian value bytes. It reports success only when the controller acknowledged with status zero; any error status, truncated or arbitrary reply or socket failure is reported as an error without a panic.",
  ["inputs", "fault_sequences"], "all values of every supported type, array lengths in the bound, all reply bytes and statuses",
  "Write tests need hardware; values and replies are unbounded.",
  ["write.go", "messages.go", "items.go"], [("Write / write_single", "write.go"), ("CIPTypeOf", "types.go")], ["Client.Write"])

p("C14", "Multi-tag writes carry every tag with its own value and report failures",
  "A map or struct write sends every entry exactly once with its own name, type code, element count and value, packaged with a correct service count and offset table. If the controller reports that any of the writes failed, or the reply is malformed, the call returns an error.",
  ["inputs"], "numbers of tags and all values in the bound, all reply statuses",
  "write tests need hardware and check one struct; reply statuses are never varied.",
  ["write.go", "udt_write.go"], [("WriteMap / WriteMulti", "write.go"), ("multi_to_dict", "udt_write.go")], ["Client.WriteMap", "Client.WriteMulti"])

p("C15", "What a client writes to the gologix server is what a client reads back",
  "For every supported scalar, array and string value, writing a tag through the client to the in-process server and reading it back through the client, connected, returns the same value, and reading one tag never returns another tag's value. A tag the server does not have reads as an error, and a failed write leaves the stored value unchanged.",
  ["inputs", "histories"], "all values of each supported type, short array and string lengths, sequences of two operations",
  "The end-to-end tests use fixed values over a real socket.",
  ["server_connected.go", "server_unconnected.go", "read.go", "write.go", "server_router.go"], [("connectedRead/cipConnectedWrite", "server_connected.go"), ("MapTagProvider", "server_router.go")], ["Client.Write then Client.Read against Server"])

p("C16", "No bytes a peer sends can crash the server",
  "Whatever bytes arrive on a TCP session or in a UDP datagram, before or after a connection is opened, the server never panics: it answers, answers with an error, or closes that session.",
  ["inputs"], "all request bytes up to the bound for every command and service the server dispatches, all connection states in the bound",
  "Tests only send well-formed requests; a crash needs one malformed field among thousands of combinations.",
  ["server.go", "server_connected.go", "server_unconnected.go", "server_connections.go", "server_io.go"], [("request dispatch and parsing", "server.go")], ["Server sessions"])

p("C17", "Server replies carry the requester's identifiers, sequence and service",
  "Every reply frame the server emits echoes the request's sender context and session, announces the exact payload length, and in connected messages carries the request's sequence number, the request's service code with the reply bit and the target-to-originator connection id of that connection. Each well-formed request gets exactly one reply.",
  ["inputs"], "all contexts, sessions, sequence numbers, connection ids and payloads, every service the server answers",
  "Tests check one connection id; the echo must hold for every identifier value and every reply path.",
  ["server.go", "server_connected.go", "server_unconnected.go", "server_listidentity.go"], [("send / reply builders", "server.go")], ["bytes written to the session socket"])

p("C18", "The server answers what it cannot do with an error status",
  "A request for an unsupported service, an unknown tag, an unknown object or a write the tag provider refuses is answered with a non-zero status and never with a success, and a request that succeeded is answered with status zero and exactly the provider's data. Inside a multiple-service request each embedded service gets its own reply and status in request order.",
  ["inputs"], "all service codes, all class/instance numbers, all provider outcomes, embedded service lists in the bound",
  "Tests cover two unsupported cases; the answer must hold for all services and provider outcomes.",
  ["server.go", "server_connected.go", "server_unconnected.go"], [("error replies", "server.go"), ("connectedMulti", "server_connected.go")], ["bytes written to the session socket"])

p("C19", "The server's connection table matches the opens and closes it has seen",
  "After any sequence of connection opens and closes a lookup by originator-to-target id, by target-to-originator id or by serial number finds exactly the connections opened and not yet closed, with the path and ids negotiated at open. Closing one connection never removes or alters another, and closing an unknown one is an error.",
  ["histories", "inputs"], "all sequences of up to the bound of open/close/lookup with arbitrary ids",
  "No test exercises more than one connection.",
  ["server_connections.go", "server_unconnected.go", "server.go"], [("serverConnectionManager", "server_connections.go")], ["ConnMgr lookups; forward open replies"])

p("C20", "The map tag provider stores and returns exactly what was written",
  "Reading a tag (case-insensitively, optionally by index) returns the last value written to it, array element writes change only that element, out-of-range indexes, counts and unknown tags are errors, and no argument makes the provider panic. Integers are converted to the stored type only when the value is representable there.",
  ["inputs", "histories"], "all values, indexes and counts, histories of up to the bound of reads and writes",
  "Provider tests write one scalar; index and count arithmetic is over all values.",
  ["server_router.go"], [("MapTagProvider.TagRead/TagWrite", "server_router.go")], ["TagRead", "TagWrite"])

p("C21", "Client connection state is truthful under every fault",
  "After any sequence of connect, use and disconnect with failures at any message, the client reports connected only if session registration and connection open both succeeded and nothing has since torn the connection down; a failed connect leaves it able to connect again with no socket left open. A failed exchange surfaces an error to the caller, and disconnect always ends disconnected with the socket closed.",
  ["fault_sequences", "histories"], "a fault at every message of the handshake and of later exchanges, all reply statuses",
  "Tests never inject a fault during the handshake.",
  ["connect.go", "disconnect.go", "sendreceive.go", "client.go"], [("Connect/Disconnect state machine", "connect.go")], ["Client.Connected, socket closed, errors returned"])

p("C22", "Concurrent callers each get the reply to their own request",
  "When several goroutines use one client at once, every caller receives the reply to its own request, requests are never interleaved on the wire, and neither deadlock nor a lost reply can result from any interleaving. Connects and disconnects that overlap act one after the other: each connection is made once, ended once and closed once.",
  ["schedules"], "all interleavings of the bounded number of callers at lock and socket operations",
  "Tests do not run concurrent callers; the quantifier is over schedules.",
  ["sendreceive.go", "client.go", "connect.go"], [("client mutex around send/receive", "sendreceive.go")], ["Client.Read results, bytes on the wire"])

p("C23", "A data table buffer reads every tag's own value and keeps its index exact",
  "For any tags added to and removed from a data table buffer, each poll yields for every remaining tag the value at that tag's own place in the reply, and the connection commands it sends describe exactly those tags. Truncated or failing replies are errors, never another tag's bytes and never a panic.",
  ["inputs", "histories"], "all add/remove sequences within the bound, all reply bytes",
  "datatable_test uses fixed replies for fixed tags.",
  ["datatable.go"], [("DataTableBuffer", "datatable.go")], ["DataTableBuffer.Read and accessors"])

p("C24", "Tag groups expand to the right tags and typed access is faithful",
  "A tag group definition expands each array and formatted name into exactly the tags it denotes, in order, each with the zero value of its declared type. Typed get and set by name act on that tag only, with the value unchanged, and a wrong name or type is an error.",
  ["inputs"], "array bounds, name parts and values in the bound",
  "taggroup_test covers a few definitions.",
  ["taggroup.go", "taggroup_readmap.go"], [("tag expansion and accessors", "taggroup.go")], ["TagGroup methods"])

p("C25", "Tag listing reports every listed tag exactly and terminates",
  "Whatever pages the controller returns, the tag listing reports every valid entry of every page with its exact name, type bits, dimensions and instance id, asks for the next page starting after the last instance received, and finishes when the controller reports completion. A page that fails or is truncated is an error, and no page makes the client panic or loop forever.",
  ["inputs", "histories"], "all pages of the bounded number of entries, all statuses and truncations",
  "Listing tests need hardware.",
  ["listalltags.go", "listsubtags.go", "listallprograms.go"], [("ListAllTags paging", "listalltags.go"), ("ListSubTags paging", "listsubtags.go")], ["Client.ListAllTags", "Client.ListSubTags", "KnownTags"])

p("C26", "Structure definitions parse to exactly the members the controller sent",
  "For every template reply the structure description has the template's name and every member's exact name, type word, array size or bit number and offset in order. Truncated or malformed templates are errors and never a panic.",
  ["inputs"], "all templates within the member and name bounds, all arbitrary template bytes within the bound",
  "Member tests need hardware.",
  ["listmembers.go"], [("ListMembers", "listmembers.go")], ["Client.ListMembers"])

p("C27", "Identity and service listings round-trip between server and client",
  "The identity the server announces decodes in the client to the same vendor, device type, product code, revision, status, serial number and name, and its service list decodes to the same services. Arbitrary or truncated replies make the client return an error, not a panic or invented fields.",
  ["inputs"], "all identity attribute values, names within the bound, all reply bytes within the bound",
  "Tests use one fixed identity.",
  ["listidentity.go", "server_listidentity.go", "listservices.go"], [("ListIdentity parse", "listidentity.go"), ("server list replies", "server_listidentity.go")], ["Client.ListIdentity", "Client.ListServices"])

p("C28", "Class 1 I/O data passes between wire and provider unchanged",
  "For every output datagram on an open I/O connection the provider's output structure receives exactly the datagram's data, and the input datagram the provider sends carries exactly the input structure's bytes. A short or malformed datagram is an error and leaves the output unchanged.",
  ["inputs"], "all data bytes, all datagram lengths within the bound",
  "No test covers class 1 I/O.",
  ["server_io.go", "server_iochannel.go", "server.go"], [("IOProvider / IOChannelProvider", "server_io.go")], ["IOWrite", "IORead"])

p("C29", "L5X tag values load as exactly the number the file states",
  "For every tag in an L5X file the loaded value is the number written there in its radix and data type, structures and arrays keep every member and element under its own name and index, and text that is not a value of the type is reported as an error.",
  ["inputs"], "all value texts within the length bound, all data types and radixes",
  "One L5X file is loaded in tests.",
  ["l5x/load_tags.go", "l5x/types.go"], [("LoadTags value conversion", "l5x/load_tags.go")], ["l5x.LoadTags"])

p("C30", "Controller force and fault reports decode each bit and field exactly",
  "The force status reports forces installed and enabled from their own status bits, and fault records decode their time, type, code and information fields from exactly their bytes, for every reply. A short reply is an error.",
  ["inputs"], "all reply words and bytes",
  "No test covers these helpers.",
  ["canned/forces.go", "canned/faults.go"], [("GetForces / GetFaults", "canned")], ["canned package results"])

p("C31", "Attribute and generic CIP calls surface status and return exact data",
  "Attribute reads and generic CIP messages put the requested service, path and data on the wire unchanged and return exactly the reply's data. A non-zero status, truncated or arbitrary reply is an error, never data and never a panic. Two readings of the controller properties match exactly if every property in them is the same.",
  ["inputs", "fault_sequences"], "all classes, instances, attributes, services, data and reply bytes within the bound",
  "Attribute tests need hardware.",
  ["getattr.go", "services.go"], [("GetAttrSingle/GetAttrList/GenericCIPMessage", "getattr.go")], ["Client.GetAttrSingle", "Client.GetAttrList", "Client.GetAttrAll", "Client.GenericCIPMessage"])

p("C32", "Status codes and aggregate errors always report what failed",
  "Every status other than success is presented as an error with its code and the meaning the protocol gives that code, the reply form of every service code is the request code with the reply bit set and converts back, and an aggregate of errors matches exactly the errors it was given without ever panicking.",
  ["inputs"], "all 256 status and service codes, aggregates of up to the bound of errors",
  "Tests never enumerate the codes.",
  ["errors.go", "services.go", "cip_definitions.go"], [("CIPStatus.Error / AsResponse / multiError", "errors.go")], ["error values"])

p("C33", "The connection open request carries the client's parameters exactly",
  "The connection open and close requests the client sends carry its serial numbers, vendor id, packet interval, connection size and route path in the fields the protocol defines, with counts equal to the lengths present, for both the standard and the large form. The connection id the controller returns is the one used in every later connected message.",
  ["inputs", "configurations"], "all parameter values, route paths within the bound, all returned ids",
  "Tests connect with default parameters only.",
  ["connect.go", "disconnect.go", "sendreceive.go"], [("newForwardOpenStandard/Large, forwardOpen", "connect.go")], ["bytes on the wire during Connect/Disconnect/Read"])

p("C34", "L5X comments load under the tag, member or rung they describe",
  "For every export file each non-empty module operand comment, tag description and rung comment is returned under its own name (controller tag, program:name.tag, module operand, task/program/routine[rung]), and each member comment joins the descriptions on its path in order. A partial export with missing sections, or odd or self-containing types, loads what is there without panicking or endless recursion.",
  ["inputs", "configurations"], "all comment texts and presence combinations within the bound, all missing sections",
  "No test loads comments.",
  ["l5x/load_tags.go"], [("LoadTagComments / LoadRungComments / GetTypeComments", "l5x/load_tags.go")], ["l5x.LoadTagComments", "l5x.LoadRungComments"])

p("C35", "The keepalive watches the controller and never outlives its connection",
  "While it runs, the keepalive asks for exactly the configured properties once at its start and once each interval, and lists the tags again whenever the properties changed (if told to). A request that fails leaves the client disconnected with its socket closed; a disconnect or a forced cancellation ends it, after which it sends nothing, and the next connection starts a new one.",
  ["histories", "fault_sequences"], "all property values, failures at any of its requests, cancellations, disconnects and reads in any order within the bound",
  "No test runs the keepalive.",
  ["connect.go", "disconnect.go", "client.go"], [("KeepAlive", "connect.go"), ("KeepAliveCancel", "disconnect.go")], ["requests on the wire", "Client.Connected", "KnownTags"])

p("C36", "Sessions of a server and the users of its providers do not disturb each other",
  "Any number of sessions can use a server at once: each request gets its one reply in its own session with its own connection, sequence number and value, connections opened at the same time get ids of their own, and a failed accept or a session's end leaves the others alone. A MapTagProvider, IOProvider or IOChannelProvider used by several goroutines and sessions acts as if the operations happened one after the other, without data races, and what was read or written stays its owner's.",
  ["schedules", "inputs"], "all schedules with up to the stated number of switches, of two to four goroutines or sessions with every pair of the stated operations",
  "Tests use one session at a time and one goroutine; a race or a mixed-up reply needs a particular interleaving.",
  ["server.go", "server_router.go", "server_io.go", "server_iochannel.go", "server_connections.go"],
  [("serveTCP", "server.go"), ("TagRead", "server_router.go"), ("TagWrite", "server_router.go"), ("IOWrite", "server_io.go"), ("Open", "server_connections.go")],
  ["replies on each connection", "TagRead results", "IORead bytes", "data races"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
