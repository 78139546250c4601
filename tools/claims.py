CLAIMS = {
 'C01': 'Bounds: all class/instance/attribute/element numbers in 32 bits; concatenations of up to the lengths in the harness comments.',
 'C02': 'Bounds: names of symbolic characters up to the lengths, 1-3 dimensions of symbolic decimal indexes, arbitrary path text up to the lengths in the harness comments.',
 'C03': 'Bounds: as C02 for the client side; arbitrary request path bytes up to the lengths in the harness comments.',
 'C04': 'Bounds: route texts up to the lengths in the harness comments. Outside: odd part counts, an IP address in port position, signs and spaces inside numbers (no defined meaning).',
 'C05': 'Bounds: item counts and lengths in the harness comments, arbitrary bytes split over reads.',
 'C06': 'Bounds: item sizes, cursor positions and read sizes in the harness comments.',
 'C07': 'Bounds: every value of every elementary type; arrays and strings to the lengths in the harness comments.',
 'C08': 'Bounds: every ordered pair of field kinds, arrays, nested structures and arrays of structures in the listed shapes; every field value. Outside: trailing padding after a single nested structure at the end (an existing test pins that it is not written).',
 'C09': 'Bounds: every numeric field value and every flag combination. Outside: the documented unused TIMER flags FS, LS, OV, ER, which are not carried.',
 'C10': 'Bounds: every kind of destination, element counts, reply lengths and bytes in the harness comments.',
 'C11': 'Bounds: chunk counts, sizes and reply bytes in the harness comments.',
 'C12': 'Bounds: one to four tags of the listed kinds, connection sizes around the split points, reply bytes in the harness comments.',
 'C13': 'Bounds: the scalar types, slices, strings, structures and reply lengths in the harness comments, every value.',
 'C14': 'Bounds: one to four tags of the listed kinds, connection sizes around the split points, reply bytes in the harness comments.',
 'C15': 'Bounds: the eleven scalar types, arrays to 6 elements and of 900 to 3000 DINTs, strings to 82 characters, histories of two to four operations, every value. Outside: []bool (the client reads packed words), longer strings, random ids other than the ones tried.',
 'C16': 'Bounds: frame, item, path and data lengths in the harness comments, every byte; text in symbolic names is ASCII, other text from a list. Outside: structures as providers of I/O data that are not structures.',
 'C17': 'Bounds: every session, context, sequence number, connection id, service and path number; data lengths and histories in the harness comments.',
 'C18': 'Bounds: every service, class, instance, attribute and value; values, counts and requests of the shapes in the harness comments.',
 'C19': 'Bounds: histories of opens and closes of up to three or four connections with any ids. Outside: two open connections with the same triple of serial numbers.',
 'C20': 'Bounds: scalars of every kind and arrays up to the lengths in the harness comments, every value, index and count; histories of up to three operations.',
 'C21': 'Bounds: histories of up to 3 (thorough 4) operations with one or two faults from a list of seven; calls on a client never connected. Schedules are C22.',
 'C22': 'Bounds: two to three goroutines with one to two calls each, every schedule with up to one or two switches at lock, atomic and socket operations; data races between them are assertions (happens-before). Outside: more switches, the public fields of a client changed while it is used.',
 'C23': 'Bounds: histories, tag counts, types and reply lengths in the harness comments, every value, instance and batch number. Outside: bytes after the last tag in a reply, the contents of buffers shared with other clients.',
 'C24': 'Bounds: names, counts, types and arguments in the harness comments, every value. Outside: definitions of types without a Go type.',
 'C25': 'Bounds: lists of up to the number of pages and entries in the harness comments, every number, symbolic names; reply lengths in the harness comments. Outside: the letter case of the program in a request.',
 'C26': 'Bounds: templates of the member counts and name lengths in the harness comments, every number, any split of the definition over replies.',
 'C27': 'Bounds: every identity number, address and port; names and reply lengths in the harness comments.',
 'C28': 'Bounds: the structures, datagram lengths and histories in the harness comments, every byte. Outside: a datagram longer than the structure, receivers that are not waiting, filtering of sequence numbers.',
 'C29': 'Bounds: value texts up to the lengths in the harness comments, every integer type and radix, structures and arrays in the listed shapes. Outside: XML decoding itself, date/time radixes, float texts beyond the listed ones.',
 'C30': 'Bounds: every bit pattern of the status attributes and every fault type and code; reply lengths in the harness comments. Outside: the display texts of faults without a table entry.',
 'C31':  'Bounds: every class, instance, attribute and service number; path, data and reply lengths in the harness comments.',
 'C32': 'Bounds: every pair of status and extended codes, aggregates of up to the size in the harness comments, every general status in replies.',
 'C33': 'Bounds: every identity, size, handle and connection id; path and reply lengths and intervals in the harness comments.',
 'C34': 'Bounds: the file shapes in the harness comments with every presence of their parts, every short text. Outside: XML decoding, the bit position in the names of BIT members, entries named after a type.',
 'C35': 'Bounds: one to five watched properties of any values, histories of two (thorough three) events, then a second connection; every failure of the first requests.',
 'C36': 'Bounds: two to four goroutines or sessions, up to three switches (two with datagrams, one with a listener; thorough one more), the operations in the harness comments. Outside: adding routes while serving, direct use of the providers\' exported fields without their locks.',
}
NA = {}
