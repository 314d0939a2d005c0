package vfspec

import (
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vsym"
)

// Stmt is a statement split into what is outside quotes and the quoted names.
type Stmt struct {
	Skeleton string // upper case, single spaces, each quoted name as ?
	Names    []string
	OK       bool // only plain words outside quotes, only word characters inside
}

func wordByte(c byte) bool {
	return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
}

// IsWord tells whether s is made of word characters.
func IsWord(s string) bool {
	for i := 0; i < len(s); i++ {
		if !wordByte(s[i]) {
			return false
		}
	}
	return len(s) > 0
}

// Split is a small lexer for the statements the tool writes itself.
func Split(s string, quote byte) Stmt {
	r := Stmt{OK: true}
	var sk []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == quote:
			j := i + 1
			for j < len(s) && s[j] != quote {
				j++
			}
			if j >= len(s) || !IsWord(s[i+1:j]) {
				r.OK = false
				return r
			}
			r.Names = append(r.Names, s[i+1:j])
			sk = append(sk, '?')
			i = j
		case c == ' ' || c == '\n' || c == '\t':
			if len(sk) > 0 && sk[len(sk)-1] != ' ' {
				sk = append(sk, ' ')
			}
		case c >= 'a' && c <= 'z':
			sk = append(sk, c-32)
		case (c >= 'A' && c <= 'Z') || c == '(' || c == ')' || c == ',':
			for c == ',' && len(sk) > 0 && sk[len(sk)-1] == ' ' {
				sk = sk[:len(sk)-1]
			}
			sk = append(sk, c)
		case c == ';' && i == len(s)-1:
		default:
			r.OK = false
			return r
		}
	}
	// no spaces after commas and around parentheses
	var o []byte
	for i, c := range sk {
		if c == ' ' {
			if i+1 == len(sk) || sk[i+1] == '(' || sk[i+1] == ')' || sk[i+1] == ',' {
				continue
			}
			if p := o[len(o)-1]; p == '(' || p == ',' {
				continue
			}
		}
		o = append(o, c)
	}
	r.Skeleton = string(o)
	return r
}

func colSkel(n int) string {
	s := "(?"
	for i := 1; i < n; i++ {
		s += ",?"
	}
	return s + ")"
}

// IndexSQL checks the statements sent while it is examined: [query, create, query, drop].
func IndexSQL(mysql bool, query string, it *dmodel.IndexTarget, sent []string) {
	quote := byte('"')
	if mysql {
		quote = '`'
	}
	vsym.Assert(len(sent) == 4, "one run, one CREATE, one measured run, one DROP")
	if len(sent) != 4 {
		return
	}
	vsym.Assert(sent[0] == query && sent[2] == query, "the query is sent as the user wrote it")
	var cs []string
	for _, c := range it.Columns {
		cs = append(cs, c.Name)
	}
	c, d := Split(sent[1], quote), Split(sent[3], quote)
	vsym.Assert(c.OK && d.OK, "the statements hold nothing but keywords and quoted word identifiers")
	if !c.OK || !d.OK {
		return
	}
	var name, table, dname, dtable string
	var cols []string
	switch c.Skeleton {
	case "ALTER TABLE ? ADD INDEX ?" + colSkel(len(cs)):
		table, name, cols = c.Names[0], c.Names[1], c.Names[2:]
	case "CREATE INDEX ? ON ?" + colSkel(len(cs)):
		name, table, cols = c.Names[0], c.Names[1], c.Names[2:]
	default:
		vsym.Assert(false, "an index on exactly the target's columns is created")
		return
	}
	vsym.Assert(table == it.TableName, "the index is created on the target's table")
	for i := range cs {
		vsym.Assert(cols[i] == cs[i], "the index has the target's columns in order")
	}
	switch {
	case mysql && d.Skeleton == "ALTER TABLE ? DROP INDEX ?":
		dtable, dname = d.Names[0], d.Names[1]
	case mysql && d.Skeleton == "DROP INDEX ? ON ?":
		dname, dtable = d.Names[0], d.Names[1]
	case !mysql && (d.Skeleton == "DROP INDEX ?" || d.Skeleton == "DROP INDEX IF EXISTS ?"):
		dname, dtable = d.Names[0], it.TableName
	default:
		vsym.Assert(false, "only the index is dropped")
		return
	}
	vsym.Assert(dname == name && dtable == table, "the index dropped is the one created")
	vsym.Assert(len(name) <= 63, "the name fits the database's limit")
	vsym.Observe("create", c.Skeleton)
}

// Target is an index target the tool may be asked to examine.
func Target() *dmodel.IndexTarget {
	n := 1 + vsym.Choice(2)
	switch vsym.Choice(4) {
	case 3: // many columns
		var cs []string
		k := 2 + vsym.Choice(7)
		for i := 0; i < k; i++ {
			cs = append(cs, "c"+string(rune('a'+i)))
		}
		cs[vsym.Choice(k)] = "c" + vsym.StringOf("aZ_9", 1, 1)
		return dmodel.NewIndexTarget("Ta", cs)
	case 0: // from the command line
		it, err := dmodel.NewIndexTargetFromText(vsym.String(0, vsym.Bound(4, 5)))
		if err != nil {
			return nil
		}
		return it
	case 1: // suggested, any bytes
		t := vsym.String(1, 2)
		var cs []string
		for i := 0; i < n; i++ {
			cs = append(cs, vsym.String(1, vsym.Bound(1, 2)))
		}
		it := dmodel.NewIndexTarget(t, cs)
		if !it.IsSafe() {
			return nil
		}
		return it
	}
	// long names
	l := "a_really_long_column_name_of_the_users_table_of_forty"
	cs := []string{l[:vsym.Int(1, len(l))]}
	if n == 2 {
		cs = append(cs, l)
	}
	return dmodel.NewIndexTarget(l+l[:7], cs)
}

// Query is a query the user may give.
func Query(alphabet string) string {
	one := func() string {
		if alphabet == "" {
			return vsym.String(0, 1)
		}
		return vsym.StringOf(alphabet, 0, 1)
	}
	switch vsym.Choice(4) {
	case 1:
		return one() + "SELECT * FROM t WHERE a = '?' AND b = :b" + one()
	case 2:
		return "select  a,b from `x` -- c\n where \"a\" LIKE '%s' limit 5;" + one()
	case 3:
		return "query Q($id: Int!) { users(where: {id: {_eq: $id}}) { name } } # " + one()
	}
	return one()
}
