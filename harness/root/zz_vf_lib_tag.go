package gologix

func vfClient() *Client {
	c := new(Client)
	c.Logger = NewLogger()
	c.knownFirmware = 99
	c.KnownTags = make(map[string]KnownTag)
	return c
}

func vfLow(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// vfNameSeg is the symbolic segment of a name.
func vfNameSeg(name []byte) []byte {
	r := []byte{0x91, byte(len(name))}
	for _, c := range name {
		r = append(r, vfLow(c))
	}
	if len(name)%2 == 1 {
		r = append(r, 0)
	}
	return r
}

// vfName is a tag name of n characters: a letter or underscore, then letters, digits, underscores.
func vfName(n int) []byte {
	b := vfBytes("name", n)
	for i, c := range b {
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if i > 0 {
			ok = ok || c >= '0' && c <= '9'
		}
		vfAssume(ok)
	}
	return b
}

// vfDec is an n-digit decimal text and its value.
func vfDec(n int) ([]byte, uint64) {
	b := vfBytes("digit", n)
	v := uint64(0)
	for _, c := range b {
		vfAssume(c >= '0' && c <= '9')
		v = v*10 + uint64(c-'0')
	}
	return b, v
}

// vfIndexed is a name part with its index list; every width combination is chosen by the caller.
func vfIndexed(nameLen int, widths ...int) (text, segs []byte, ok bool) {
	text = vfName(nameLen)
	segs = vfNameSeg(text)
	ok = true
	if len(widths) == 0 {
		return
	}
	text = append(text, '[')
	for i, w := range widths {
		if i > 0 {
			text = append(text, ',')
		}
		d, v := vfDec(w)
		text = append(text, d...)
		if v > 0xFFFFFFFF {
			ok = false
		} else {
			segs = append(segs, vfSeg(0x28, uint32(v))...)
		}
	}
	text = append(text, ']')
	return
}
