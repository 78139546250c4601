package gologix

import (
	"errors"
	"fmt"
	"strings"
)

func vfC32hex(v uint16) string { return fmt.Sprintf("%X", v) }

// VF_C32_text: any two status codes.
func VF_C32_text() {
	a, b := vfU8("a"), vfU8("b")
	x, y := CIPStatus(a).String(), CIPStatus(b).String()
	vfAssert((x == y) == (a == b), "every status has its own text")
	vfAssert((x == "OK") == (a == 0), "only status zero is presented as OK")
	if a > 0x2C {
		vfAssert(strings.Contains(x, "0x"+vfC32hex(uint16(a))), "an unknown status is presented with its code")
		vfReach("unknown")
	}
}

// VF_C32_names: the status codes 0x01 to 0x2C, each against the name the constant's definition gives it.
func VF_C32_names() {
	s := CIPStatus(vfU8("status"))
	words := []string{"OK", "Connection failure", "Resource unavailable", "InvalidParameterValue", "Path segment error", "Path destination unknown", "PartialTransfer", "ConnectionLost",
		"Service not supported", "Invalid attribute value", "AttributeListError", "AlreadyInRequestedMode", "ObjectStateConflict", "ObjectAlreadyExists", "Attribute not settable", "PrivilegeViolation",
		"DeviceStateConflict", "ReplyDataTooLarge", "FragmentationOfMessage", "Not enough data", "Attribute not supported", "Too much data", "Object does not exist", "ServiceFragmentation",
		"NoStoredAttributeData", "StoreOperationFailure", "RoutingFailureReqTooLarge", "RoutingFailureRespTooLarge", "MissingAttributeListEntry", "InvalidAttributeValueList", "EmbeddedServiceError", "VendorSpecificError",
		"Invalid parameter ", "WriteOnceValueOrMedium", "InvalidReplyReceived", "BufferOverflow", "MessageFormatError", "KeyFailure", "Path size invalid", "UnexpectedAttribInList",
		"InvalidMemberID", "MemberNotSettable", "Group2OnlyServerGeneralFailure", "UnknownModbusError", "AttributeNotGettable"}
	t := s.String()
	for i, w := range words {
		if s == CIPStatus(i) {
			vfAssert(strings.HasPrefix(t, w), "a status is presented with the name of its code")
			vfReach("known")
			return
		}
	}
	vfAssert(strings.HasPrefix(t, "Unknown"), "a status without a name is presented as unknown")
}

// VF_C32_error: any code and extended code of a CIPError, any expected and got status of a CIPStatusError.
func VF_C32_error() {
	code, extended := vfU8("code"), vfU16("extended")
	e := &CIPError{Code: code, Extended: extended}
	t := e.Error()
	vfAssert(strings.Contains(t, vfC32hex(uint16(code))), "an error is presented with its code")
	o := &CIPError{Code: vfU8("code2"), Extended: vfU16("extended2")}
	vfAssert(o.Code == code && o.Extended == extended || o.Error() != t, "every code has its own text")
	vfReach("error")
}

// VF_C32_errornames: any code and extended code of a CIPError, against the meaning the protocol gives them (letter case aside).
func VF_C32_errornames() {
	e := &CIPError{Code: vfU8("code"), Extended: vfU16("extended")}
	known := []struct {
		code     byte
		extended uint16
		words    string
	}{{0, 0, "no error"}, {1, 0, "connection failure"}, {2, 0, "resource unavailable"}, {3, 0, "parameter"}, {4, 0, "request path"}, {5, 0, "destination unknown"}, {6, 0, "insufficient packet space"},
		{7, 0, "connection lost"}, {8, 0, "not supported"}, {9, 0, "attribute data"}, {0xA, 0, "attribute list error"}, {0x13, 0, "insufficient request data"}, {0x16, 0, "does not exist"},
		{0x1A, 0, "request too large"}, {0x1B, 0, "response too large"}, {0x1C, 0, "attribute list shortage"}, {0x26, 0, "path size"},
		{0x10, 0x2101, "keyswitch"}, {0x10, 0x2802, "safety"}, {0xFF, 0x2104, "offset is beyond"}, {0xFF, 0x2105, "number of elements"}, {0xFF, 0x2107, "data type"}}
	t := strings.ToLower(e.Error())
	for _, k := range known {
		if e.Code == k.code && (k.extended == 0 || e.Extended == k.extended) {
			vfAssert(strings.Contains(t, k.words), "an error is presented with the meaning of its code")
			vfReach("known")
			return
		}
	}
	// other codes may be given names too, but not these
	for _, k := range known[:17] {
		vfAssert(k.code == 1 || k.code == 3 || k.code == 8 || !strings.Contains(t, k.words), "an error is not presented with the meaning of another code")
	}
}

// VF_C32_statuserror: any expected and got status.
func VF_C32_statuserror() {
	vfTexts(true)
	s := CIPStatus(vfU8("status"))
	var err error = CIPStatusError{Status: s}
	t := err.Error()
	vfAssert(strings.Contains(t, s.String()), "a status error is presented with its status")
	vfAssert(strings.Contains(t, "0x"+vfC32hex(uint16(s))), "a status error is presented with its code")
	var got CIPStatusError
	vfAssert(errors.As(err, &got) && got.Status == s, "a status error has its status")
}

// VF_C32_service: any service code.
func VF_C32_service() {
	v := vfU8("service")
	s := CIPService(v)
	vfAssert(s.IsResponse() == (v >= 0x80), "a service is a reply exactly with the reply bit")
	vfAssert(byte(s.AsResponse()) == v|0x80 && s.AsResponse().IsResponse(), "the reply form has the reply bit and the code")
	vfAssert(byte(s.UnResponse()) == v&0x7F && !s.UnResponse().IsResponse(), "the request form has the code without the reply bit")
	if v < 0x80 {
		vfAssert(s.AsResponse().UnResponse() == s, "a request converts to its reply and back")
		vfAssert(s.AsResponse() != s, "a reply is no request")
	} else {
		vfAssert(s.UnResponse().AsResponse() == s, "a reply converts to its request and back")
	}
	vfReach("service")
}

// VF_C32_servicetext: any two service codes.
func VF_C32_servicetext() {
	a, b := vfU8("a"), vfU8("b")
	vfAssert((CIPService(a).String() == CIPService(b).String()) == (a == b), "every service has its own text")
}

// vfC32err is an error of a kind with a value.
type vfC32err struct{ v uint8 }

func (e vfC32err) Error() string { return "kind" }

// VF_C32_many: aggregates of 0 to 4 (thorough 6) errors, each any of four, plain, wrapped or of a kind with any value, made from nil or the first.
func VF_C32_many() {
	base := []error{errors.New("e0"), errors.New("e1"), errors.New("e2")}
	n := vfPick("n", 5+2*vfTier())
	var in [3]bool
	kinds, first := 0, uint8(0)
	m := newMultiError(nil)
	vals := []uint8{}
	for i := 0; i < n; i++ {
		var e error
		which := vfPick("which", 4)
		if which == 3 {
			v := vfU8("value")
			e = vfC32err{v}
			if kinds == 0 {
				first = v
			}
			kinds++
			vals = append(vals, v)
		} else {
			e = base[which]
			in[which] = true
		}
		if i == 1 {
			e = fmt.Errorf("wrapped %w", e)
		}
		if i == 0 && vfPick("from", 2) == 1 {
			m = newMultiError(e)
		} else {
			m.Add(e)
		}
	}
	var err error = m
	if vfPick("outer", 2) == 1 {
		err = fmt.Errorf("outer: %w", m)
	}
	vfAssert(vfNoPanic(func() { _ = err.Error() }), "an aggregate has a text")
	for i, b := range base {
		hit := false
		vfAssert(vfNoPanic(func() { hit = errors.Is(err, b) }), "an aggregate can be matched")
		vfAssert(hit == in[i], "an aggregate matches exactly the errors it was given")
	}
	x := vfU8("x")
	hit, has := false, false
	for _, v := range vals {
		has = has || v == x
	}
	vfAssert(vfNoPanic(func() { hit = errors.Is(err, vfC32err{x}) }), "an aggregate can be matched")
	vfAssert(hit == has, "an aggregate matches exactly the values it was given")
	var got vfC32err
	vfAssert(vfNoPanic(func() { hit = errors.As(err, &got) }), "an aggregate can be searched by kind")
	vfAssert(hit == (kinds > 0) && (!hit || got.v == first), "an aggregate has an error of a kind exactly if it was given one, the first first")
	vfReach("aggregate")
}

// VF_C32_aggregatetext: aggregates of 1 to 3 errors.
func VF_C32_aggregatetext() {
	vfTexts(true)
	n := 1 + vfPick("n", 3)
	t := []string{vfStr("a", 3), vfStr("b", 2), vfStr("c", 1)}
	m := newMultiError(errors.New(t[0]))
	for i := 1; i < n; i++ {
		m.Add(errors.New(t[i]))
	}
	s := m.Error()
	for i := 0; i < n; i++ {
		at := strings.Index(s, t[i])
		vfAssert(at >= 0, "an aggregate is presented with every error")
		s = s[at+len(t[i]):]
	}
}

// VF_C32_calls: any non-zero status in the reply to each of thirteen client calls.
func VF_C32_calls() {
	vfTexts(true)
	st := vfU8("status")
	vfAssume(st != 0)
	op := vfPick("op", 13)
	if op >= 8 {
		vfAssume(st != 6) // partial transfer
	}
	if op == 0 || op == 1 {
		vfAssume(st != 6)
	}
	reply := func(f []byte) []byte {
		if f[0] == 0x70 {
			return vfAnswer(f, 0, vfConnBody(7, vfSeqReply(f, []byte{f[46] | 0x80, 0, st, 0, 0, 0, 0, 0, 0, 0, 0, 0})))
		}
		return vfAnswer(f, 0, vfUnconnBody([]byte{f[40] | 0x80, 0, st, 0, 0, 0, 0, 0, 0, 0, 0, 0}))
	}
	c, conn := vfNetClient(nil)
	conn.respond = func(cn *vfConn, f []byte) []byte { return reply(f) }
	var err error
	switch op {
	case 0:
		var v int16
		err = c.Read("a", &v)
	case 1:
		_, err = c.Read_single("a", CIPTypeINT, 1)
	case 2:
		err = c.Write("a", int16(5))
	case 3:
		_, err = c.ReadList([]string{"a", "b"}, []any{int16(0), int32(0)}, []int{1, 1})
	case 4:
		err = c.ReadMap(map[string]any{"a": int16(0), "b": int32(0)})
	case 5:
		err = c.WriteMap(map[string]any{"a": int16(0), "b": int32(0)})
	case 6:
		_, err = c.GetAttrSingle(1, 1, 1)
	case 7:
		_, err = c.GenericCIPMessage(5, []byte{0x20, 1, 0x24, 1}, nil)
	case 8:
		err = c.ListAllTags(0)
	case 9:
		err = c.ListAllPrograms()
	case 10:
		_, err = c.ListMembers(5)
	case 11:
		_, err = c.GetAttrList(1, 1, 1, 2)
	case 12:
		v := make([]int32, 200)
		err = c.Read("a", &v)
	}
	vfAssert(err != nil, "a status other than success is an error")
	t := err.Error()
	s := CIPStatus(st)
	vfAssert(strings.Contains(t, s.String()) || strings.Contains(t, "0x"+vfC32hex(uint16(st))) || strings.Contains(t, "tatus "+fmt.Sprint(int(st))), "the error names the status")
	vfReach("refused")
}
