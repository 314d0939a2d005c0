package dmodel

import "github.com/mrasu/GravityR/internal/vsym"

func vf_checkText(s string) {
	it, err := NewIndexTargetFromText(s)
	table, cols, ok := vf_parse(s)
	vsym.Observe("accepted", err == nil)
	if !ok {
		vsym.Assert(err != nil, "a text that is not table:column(+column)* is rejected")
		vsym.Assert(it == nil, "a rejected text yields no index")
		return
	}
	vsym.Assert(err == nil && it != nil, "every table:column(+column)* is accepted")
	if err != nil || it == nil {
		return
	}
	vsym.Cover("accepted")
	vsym.Assert(it.TableName == table, "the table is the text before the colon")
	vsym.Assert(len(it.Columns) == len(cols), "the columns are those of the text")
	if len(it.Columns) != len(cols) {
		return
	}
	for i := range cols {
		vsym.Assert(it.Columns[i].Name == cols[i], "the columns come in the order of the text")
	}
	vsym.Assert(it.IsSafe(), "an accepted text is a safe target")
}

// Every byte string up to the bound.
func VerifC04_AnyBytes() { vf_checkText(vsym.String(0, vsym.Bound(5, 6))) }

// Longer texts over the characters that matter to the grammar.
func VerifC04_Grammar() {
	vf_checkText(vsym.StringOf("a_:+ \n\"", 0, vsym.Bound(7, 9)))
}

// Long texts: names of any length and many columns, broken in at most one place.
func VerifC04_Long() {
	l := "a_Really9long_Name_of_seventy_letters_that_goes_on_and_on_and_on_until_70"
	s := l[:vsym.Int(0, len(l))] + vsym.String(1, 1) + l[:vsym.Int(0, len(l))]
	vf_checkText(s)
}

func VerifC04_ManyColumns() {
	s := "t:"
	n := 1 + vsym.Choice(9)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "+"
		}
		s += "col" + string(rune('a'+i))
	}
	k := vsym.Choice(len(s) + 1)
	vf_checkText(s[:k] + vsym.String(0, 1) + s[k:])
}

// A longer list, of which one text is anything.
func VerifC04_LongList() {
	in := []string{"t:b+a", "t:a", "t:a", "s:x", "T:a", "t:a+b"}
	k := vsym.Choice(len(in) + 1)
	if k < len(in) {
		in[k] = vsym.StringOf("a:+;", 0, 3)
	}
	vf_checkList(in)
}

// A list of texts is accepted iff each one is, and keeps order and number.
func VerifC04_List() {
	n := vsym.Choice(3)
	var in []string
	for i := 0; i < n; i++ {
		in = append(in, vsym.StringOf("a:+;", 0, 4))
	}
	vf_checkList(in)
}

func vf_checkList(in []string) {
	n := len(in)
	allOK := true
	for _, s := range in {
		_, _, ok := vf_parse(s)
		allOK = allOK && ok
	}
	its, err := NewIndexTargetsFromTexts(in)
	vsym.Assert((err == nil) == allOK, "a list is accepted exactly when each text is")
	if err == nil {
		vsym.Assert(len(its) == n, "one target per text")
		for i := 0; i < n && i < len(its); i++ {
			t, cols, _ := vf_parse(in[i])
			vsym.Assert(its[i].TableName == t && len(its[i].Columns) == len(cols), "targets come in the order of the texts")
			for j := 0; j < len(cols) && j < len(its[i].Columns); j++ {
				vsym.Assert(its[i].Columns[j].Name == cols[j], "targets have the columns of the texts")
			}
		}
	}
}
