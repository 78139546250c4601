package gologix

// vfItems is a list of up to max items of any id with up to 5 data bytes each.
func vfItems(max int) []CIPItem {
	k := vfPick("items", max+1)
	items := make([]CIPItem, 0, k)
	for i := 0; i < k; i++ {
		items = append(items, newItem(CIPItemID(vfU16("id")), vfBytes("data", []int{0, 1, 2, 5}[vfPick("len", 4)])))
	}
	return items
}

func vfItemsWire(items []CIPItem) []byte {
	w := append(make([]byte, 6), vfLe16(uint16(len(items)))...)
	for i := range items {
		w = vfCat(w, vfLe16(uint16(items[i].Header.ID)), vfLe16(uint16(len(items[i].Data))), items[i].Data)
	}
	return w
}

func vfSameItems(a, b []CIPItem) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i].Header.ID == b[i].Header.ID && int(a[i].Header.Length) == len(b[i].Data) && vfEq(a[i].Data, b[i].Data)
	}
	return ok
}

// VF_C05_roundtrip: lists of 0 to 3 items (thorough: 4), any id, 0 to 5 data bytes, every byte, received in pieces of
// 1, 3 or any number of bytes and followed by other data.
func VF_C05_roundtrip() {
	n := 3
	if vfTier() > 0 {
		n = 4
	}
	items := vfItems(n)
	b, err := serializeItems(items)
	vfAssert(err == nil, "items serialize")
	vfAssert(vfEq(*b, vfItemsWire(items)), "the wire form is the item count and each item's id, length and data in order")
	r := &vfChunks{append((*b)[6:len(*b):len(*b)], 0xEE, 0x01), []int{1, 3, 1000}[vfPick("chunk", 3)]}
	got, err := readItems(r)
	vfAssert(err == nil, "the items are read back")
	vfAssert(vfSameItems(got, items), "the same items come back")
	vfAssert(len(r.data) == 2, "nothing after the items is consumed")
	vfObsB("wire", *b)
}

// VF_C05_truncated: every proper prefix of the wire form of 1 to 2 items (thorough: 3) is an error.
func VF_C05_truncated() {
	n := 2
	if vfTier() > 0 {
		n = 3
	}
	items := vfItems(n)
	w := vfItemsWire(items)[6:]
	cut := vfPick("cut", len(w))
	_, err := readItems(&vfChunks{w[:cut], []int{1, 1000}[vfPick("chunk", 2)]})
	vfAssert(err != nil, "truncated items are an error")
}

// VF_C05_arbitrary: any 0 to 12 bytes (thorough: 16) with an item count up to 5 or 65535 and item lengths up to 12, 255 or 65535:
// no panic, and what is accepted is exactly the bytes received.
func VF_C05_arbitrary() {
	n := 13
	if vfTier() > 0 {
		n = 17
	}
	w := vfBytes("w", vfPick("n", n))
	if len(w) >= 2 {
		vfAssume(w[1] == 0 && w[0] <= 5 || w[0] == 255 && w[1] == 255)
		for i, pos := 0, 2; i < 5 && pos+4 <= len(w); i++ {
			l := vfU16le(w[pos+2:])
			vfAssume(l <= 12 || l == 255 || l == 65535)
			pos += 4 + int(vfConc(uint64(l)))
		}
	}
	r := &vfChunks{w, 1000}
	items, err := readItems(r)
	if err != nil {
		return
	}
	used := len(w) - len(r.data)
	vfAssert(vfEq(w[:used], vfItemsWire(items)[6:]), "accepted items are exactly the bytes received")
}

// VF_C05_long: an item of 65534 to 65537 or 131072 bytes is framed exactly or refused.
func VF_C05_long() {
	n := []int{65534, 65535, 65536, 65537, 131072}[vfPick("n", 5)]
	d := make([]byte, n)
	d[0], d[n-1] = vfU8("first"), vfU8("last")
	items := []CIPItem{newItem(cipItem_Null, nil), newItem(cipItem_ConnectedData, d)}
	b, err := serializeItems(items)
	if n > 65535 {
		vfAssert(err != nil, "an item longer than its length field is refused")
		return
	}
	vfAssert(err == nil, "a long item serializes")
	got, err := readItems(&vfChunks{(*b)[6:], 100000})
	vfAssert(err == nil && len(got) == 2 && len(got[0].Data) == 0 && len(got[1].Data) == n, "a long item comes back")
	vfAssert(got[1].Data[0] == d[0] && got[1].Data[n-1] == d[n-1], "with its bytes")
}

// VF_C05_many: lists of 130, 256, 257 and 1000 items with 0 to 300 data bytes, the first, 255th, 256th and last with any id and data, whole and cut inside the last item.
func VF_C05_many() {
	n := []int{130, 256, 257, 1000}[vfPick("n", 4)]
	var items []CIPItem
	for i := 0; i < n; i++ {
		d := make([]byte, i*7%301)
		for j := range d {
			d[j] = byte(i + j)
		}
		id := CIPItemID(i)
		if i == 0 || i == 255 || i == 256 || i == n-1 {
			id, d = CIPItemID(vfU16("id")), vfBytes("data", 257)
		}
		items = append(items, newItem(id, d))
	}
	b, err := serializeItems(items)
	vfAssert(err == nil, "items serialize")
	vfAssert(vfEq(*b, vfItemsWire(items)), "the wire form is the item count and each item's id, length and data in order")
	cut := vfPick("cut", 3)
	w := (*b)[6:]
	if cut > 0 {
		_, err := readItems(&vfChunks{w[:len(w)-[]int{1, 256}[cut-1]], 1000})
		vfAssert(err != nil, "truncated items are an error")
		return
	}
	got, err := readItems(&vfChunks{append(w[:len(w):len(w)], 1, 2), []int{61, 100000}[vfPick("chunk", 2)]})
	vfAssert(err == nil, "the items are read back")
	vfAssert(vfSameItems(got, items), "the same items come back")
}
