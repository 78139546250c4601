package l5x

import "strings"

// vfText is a comment as Studio 5000 writes it (with its CDATA wrapping and surrounding blanks): absent, empty, or one
// or two letters, any.
func vfText(kinds int) (inner []byte, text string, present bool) {
	k := vfPick("text", kinds)
	if k == 0 {
		return nil, "", false
	}
	if k == 2 {
		return []byte("<![CDATA[]]>"), "", true
	}
	t := vfBytes("t", 2-k%2)
	for _, c := range t {
		vfAssume(c >= 'a' && c <= 'z')
	}
	inner = append(inner, "\n<![CDATA["...)
	inner = append(inner, t...)
	return append(inner, "]]>\n"...), string(t), true
}

func vfDesc(kinds int) (*DescriptionType, string) {
	inner, text, ok := vfText(kinds)
	if !ok {
		return nil, ""
	}
	return &DescriptionType{InnerValue: inner}, text
}

// vfJoin puts the texts that are not empty behind each other.
func vfWords(texts ...string) string {
	out := ""
	for _, t := range texts {
		if t == "" {
			continue
		}
		if out != "" {
			out += " "
		}
		out += t
	}
	return out
}

// vfSameComments checks every comment expected, and that there are no others with text than those, apart from the entries
// the library adds for the types themselves.
func vfSameComments(got map[string]string, want map[string]string, types ...string) {
	for k, w := range want {
		vfAssert(strings.TrimSpace(got[k]) == w, "every comment is found under its name")
	}
	for k, g := range got {
		if _, ok := want[k]; ok {
			continue
		}
		last := k[strings.LastIndexByte(k, '.')+1:]
		isType := false
		for _, t := range types {
			isType = isType || t == last
		}
		vfAssert(isType || g == "", "nothing else has a comment")
	}
}

// VF_C34_tags: a controller tag and a program tag (of an atomic type, of a user type or of one that contains it, or of a
// type not in the file; with or without exported data), whose descriptions and those of the types and members are absent,
// empty or any one letter: the comment of each tag and member is found under the name the tag is read by.
func VF_C34_tags() {
	small := 2
	if vfTier() > 0 {
		small = 4
	}
	d1, t1 := vfDesc(4)
	d2, t2 := vfDesc(small)
	di, ti := vfDesc(small)
	dn, tn := vfDesc(2)
	do, to := vfDesc(small)
	db, tb := vfDesc(2)
	types := &DataTypeCollectionType{DataType: []*DataTypeType{
		{NameAttr: "Outer", Description: do, Members: &TypeMemberCollectionType{Member: []*DataTypeMemberType{
			{NameAttr: "N", DataTypeAttr: "DINT", Description: db},
			{NameAttr: "In", DataTypeAttr: "Inner", Description: dn},
		}}},
		{NameAttr: "Inner", Description: di, Members: &TypeMemberCollectionType{Member: []*DataTypeMemberType{
			{NameAttr: "A", DataTypeAttr: "REAL"},
			{NameAttr: "B", DataTypeAttr: "DINT", Description: db},
		}}},
	}}
	tag := func(name string, d *DescriptionType) *TagType {
		t := &TagType{NameAttr: name, DataTypeAttr: []string{"DINT", "Inner", "Outer", "Other"}[vfPick("type", 4)]}
		if d != nil {
			t.Description = []*DescriptionType{d}
		}
		if vfBool("data") {
			t.Data = []*DataWideType{{FormatAttr: "L5K"}}
		}
		return t
	}
	want := map[string]string{}
	expect := func(name, text string, t *TagType) {
		want[name] = text
		member := func(name string, own ...string) {
			if w := vfWords(own...); w != "" {
				want[name] = vfWords(text, w)
			}
		}
		switch t.DataTypeAttr {
		case "Inner":
			member(name+".A", ti)
			member(name+".B", ti, tb)
		case "Outer":
			member(name+".N", to, tb)
			member(name+".In", to, tn)
			member(name+".In.A", to, tn, ti)
			member(name+".In.B", to, tn, ti, tb)
		}
	}
	c, p := tag("One", d1), tag("Two", d2)
	expect("One", t1, c)
	expect("program:Main.Two", t2, p)
	var l RSLogix5000Content = &ProjectType{Controller: &ControllerType{
		DataTypes: types,
		Tags:      &TagCollectionType{Tag: []*TagType{c}},
		Programs:  &ProgramCollectionType{Program: []*AProgramType{{NameAttr: "Main", Tags: &TagCollectionType{Tag: []*TagType{p}}}}},
	}}
	got, err := LoadTagComments(l)
	vfAssert(err == nil, "the comments load")
	vfSameComments(got, want, "Inner", "Outer")
}

// VF_C34_modules: two modules with up to two connections, whose input and output tags have up to two comments each, in a collection or two, absent,
// empty or one or two letters, any: each non-empty comment is found under the module, the side and the operand.
func VF_C34_modules() {
	want := map[string]string{}
	comments := func(prefix string, ops ...string) []*CommentCollectionType {
		g := []*CommentCollectionType{}
		joined := len(ops) > 1 && vfBool("joined")
		for _, op := range ops {
			inner, text, ok := vfText(3)
			if !ok {
				continue
			}
			w := &CommentWideType{OperandAttr: op, InnerValue: inner}
			if joined && len(g) > 0 {
				g[0].Comment = append(g[0].Comment, w)
			} else {
				g = append(g, &CommentCollectionType{Comment: []*CommentWideType{w}})
			}
			if text != "" {
				want[prefix+op] = text
			}
		}
		return g
	}
	var mods []*MapDeviceType
	mods = append(mods, &MapDeviceType{NameAttr: "Local"})
	if vfBool("bare") {
		mods = append(mods, &MapDeviceType{NameAttr: "Bare", Communications: &CommunicationsType{}})
	}
	for i, name := range []string{"Rack", "Drive"} {
		var cs []*MapConnectionType
		for c := 0; c < 1+vfPick("connections", 2); c++ {
			con := &MapConnectionType{}
			op := []string{".0", ".Data[1].3"}[c]
			if i+c == 0 {
				con.InputTag = &InputTagType{Comments: comments(name+":I", op, op+".1")}
			} else if i == 0 && vfBool("in") {
				con.InputTag = &InputTagType{Comments: comments(name+":I", op)}
			}
			if i+c < 2 && vfBool("out") {
				con.OutputTag = &OutputTagType{Comments: comments(name+":O", op)}
			}
			cs = append(cs, con)
		}
		mods = append(mods, &MapDeviceType{NameAttr: name, Communications: &CommunicationsType{Connections: &MapConnectionCollectionType{Connection: cs}}})
		if vfTier() == 0 {
			break
		}
	}
	var l RSLogix5000Content = &ProjectType{Controller: &ControllerType{Modules: &MapDeviceCollectionType{Module: mods}}}
	got, err := LoadTagComments(l)
	vfAssert(err == nil, "the comments load")
	vfSameComments(got, want)
}

// VF_C34_rungs: two programs, scheduled by either of two tasks or by none, with two routines of two rungs each, whose
// comments are absent, empty or one letter, any (one of them with an empty one before or behind it): each non-empty comment is found under its task, program, routine and rung.
func VF_C34_rungs() {
	tasks := &TaskCollectionType{Task: []*TaskType{{NameAttr: "Fast"}, {NameAttr: "Slow", ScheduledPrograms: &ScheduledProgramCollectionType{}}}}
	want := map[string]string{}
	var progs []*AProgramType
	for _, p := range []string{"Main", "Aux"} {
		task := ""
		if k := vfPick("task", 3); k > 0 {
			t := tasks.Task[k-1]
			task = t.NameAttr
			if t.ScheduledPrograms == nil {
				t.ScheduledPrograms = &ScheduledProgramCollectionType{}
			}
			t.ScheduledPrograms.ScheduledProgram = append(t.ScheduledPrograms.ScheduledProgram, &ScheduledProgramType{NameAttr: p})
		}
		rs := &RoutineCollectionType{}
		for _, r := range []string{"R1", "R2"} {
			rc := &RungCollectionType{}
			for _, n := range []string{"0", "1"} {
				rung := &RungType{NumberAttr: n}
				kinds := 2
				if vfTier() > 0 && p == "Main" {
					kinds = 3
				}
				inner, text, ok := vfText(kinds)
				if ok {
					rung.Comment = []*CommentWideType{{InnerValue: inner}}
				}
				if p == "Main" && r == "R1" && n == "0" {
					switch empty := (&CommentWideType{InnerValue: []byte("<![CDATA[]]>")}); vfPick("empty", 3) {
					case 1:
						rung.Comment = append([]*CommentWideType{empty}, rung.Comment...)
					case 2:
						rung.Comment = append(rung.Comment, empty)
					}
				}
				if text != "" {
					want[task+"/"+p+"/"+r+"["+n+"]"] = text
				}
				rc.Rung = append(rc.Rung, rung)
			}
			rs.Routine = append(rs.Routine, &RoutineType{NameAttr: r, RLLContent: []*RungCollectionType{rc}})
		}
		progs = append(progs, &AProgramType{NameAttr: p, Routines: rs})
	}
	var l RSLogix5000Content = &ProjectType{Controller: &ControllerType{Tasks: tasks, Programs: &ProgramCollectionType{Program: progs}}}
	got, err := LoadRungComments(l)
	vfAssert(err == nil, "the comments load")
	vfAssert(len(got) == len(want), "each non-empty comment once")
	for k, w := range want {
		g, ok := got[k]
		vfAssert(ok && g == w, "every comment is found under its place")
	}
}

// VF_C34_partial: an export in which the controller, the modules, types, tags, programs, tasks, or the parts within a
// program, type, task or module are missing: what there is, is loaded; nothing fails.
func VF_C34_partial() {
	missing := vfPick("missing", 14)
	desc := func(s string) []*DescriptionType {
		return []*DescriptionType{{InnerValue: []byte("<![CDATA[" + s + "]]>")}}
	}
	dt := &DataTypeType{NameAttr: "U", Members: &TypeMemberCollectionType{Member: []*DataTypeMemberType{{NameAttr: "M", DataTypeAttr: "DINT", Description: desc("member")[0]}}}}
	mod := &MapDeviceType{NameAttr: "Rack", Communications: &CommunicationsType{Connections: &MapConnectionCollectionType{Connection: []*MapConnectionType{{
		InputTag: &InputTagType{Comments: []*CommentCollectionType{{Comment: []*CommentWideType{{OperandAttr: ".0", InnerValue: []byte("input")}}}}}}}}}}
	prog := &AProgramType{NameAttr: "Main", Tags: &TagCollectionType{Tag: []*TagType{{NameAttr: "P", DataTypeAttr: "U", Description: desc("prog")}}},
		Routines: &RoutineCollectionType{Routine: []*RoutineType{{NameAttr: "ST"}, {NameAttr: "R", RLLContent: []*RungCollectionType{{Rung: []*RungType{{NumberAttr: "7", Comment: []*CommentWideType{{InnerValue: []byte("rung")}}}}}}}}}}
	task := &TaskType{NameAttr: "T", ScheduledPrograms: &ScheduledProgramCollectionType{ScheduledProgram: []*ScheduledProgramType{{NameAttr: "Main"}}}}
	c := &ControllerType{
		DataTypes: &DataTypeCollectionType{DataType: []*DataTypeType{dt}},
		Modules:   &MapDeviceCollectionType{Module: []*MapDeviceType{mod}},
		Tags:      &TagCollectionType{Tag: []*TagType{{NameAttr: "G", DataTypeAttr: "U", Description: desc("tag")}}},
		Programs:  &ProgramCollectionType{Program: []*AProgramType{prog}},
		Tasks:     &TaskCollectionType{Task: []*TaskType{task}},
	}
	p := &ProjectType{Controller: c}
	var l RSLogix5000Content = p
	in, g, gm, pr, pm, rung := "input", "tag", "tag member", "prog", "prog member", "T/Main/R[7]"
	switch missing {
	case 1:
		l, in, g, gm, pr, pm, rung = nil, "", "", "", "", "", ""
	case 2:
		p.Controller, in, g, gm, pr, pm, rung = nil, "", "", "", "", "", ""
	case 3:
		c.Modules, in = nil, ""
	case 4:
		c.DataTypes, gm, pm = nil, "", ""
	case 5:
		c.Tags, g, gm = nil, "", ""
	case 6:
		c.Programs, pr, pm, rung = nil, "", "", ""
	case 7:
		c.Tasks, rung = nil, "/Main/R[7]"
	case 8:
		task.ScheduledPrograms, rung = nil, "/Main/R[7]"
	case 9:
		prog.Tags, pr, pm = nil, "", ""
	case 10:
		prog.Routines, rung = nil, ""
	case 11:
		dt.Members, gm, pm = nil, "", ""
	case 12:
		mod.Communications.Connections, in = nil, ""
	case 13:
		mod.Communications.Connections.Connection[0].InputTag, in = nil, ""
	}
	got, err := LoadTagComments(l)
	vfAssert(err == nil, "the comments load")
	vfAssert(got["Rack:I.0"] == in && got["G"] == g && got["G.M"] == gm && got["program:Main.P"] == pr && got["program:Main.P.M"] == pm, "what there is, is found")
	rungs, err := LoadRungComments(l)
	vfAssert(err == nil, "the rung comments load")
	if rung == "" {
		vfAssert(len(rungs) == 0, "no rungs")
	} else {
		vfAssert(len(rungs) == 1 && rungs[rung] == "rung", "the rung is found")
	}
	types := GetDataTypeMap(l)
	if missing == 1 || missing == 2 || missing == 4 {
		vfAssert(len(types) == 0, "no types")
	} else {
		vfAssert(len(types) == 1 && types["U"] == dt, "the types by name")
	}
}

// VF_C34_odd: types with a BIT member (bit 0, 3 or 7) whose target is any text of up to 4 bytes of letters, digits,
// signs or anything else, and types that contain each other or themselves: no panic, no endless recursion, and the other
// members keep their comments.
func VF_C34_odd() {
	n := vfPick("n", 5)
	target := vfBytes("target", n)
	for i := range target {
		if i >= n-2 && (target[i] >= '0' && target[i] <= '9') {
			target[i] = byte(vfConc(uint64(target[i])))
		}
	}
	bit := []int{0, 3, 7}[vfPick("bit", 3)]
	inner := []string{"DINT", "U", "V"}[vfPick("inner", 3)]
	types := map[string]*DataTypeType{
		"U": {NameAttr: "U", Members: &TypeMemberCollectionType{Member: []*DataTypeMemberType{
			{NameAttr: "X", DataTypeAttr: "BIT", TargetAttr: string(target), BitNumberAttr: bit, Description: &DescriptionType{InnerValue: []byte("bit")}},
			{NameAttr: "Y", DataTypeAttr: inner, Description: &DescriptionType{InnerValue: []byte("why")}},
		}}},
		"V": {NameAttr: "V", Members: &TypeMemberCollectionType{Member: []*DataTypeMemberType{
			{NameAttr: "Z", DataTypeAttr: "U"},
		}}},
	}
	got := GetTypeComments(types, "U")
	vfAssert(got["Y"] == "why", "the other members keep their comments")
	vfAssert(len(GetTypeComments(types, "None")) == 0, "a type that is not there has none")
}
