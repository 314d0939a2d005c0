// Package vfcmd specifies what a suggest command does, for any database.
package vfcmd

import (
	"errors"
	"strings"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/internal/vfpage"
	"github.com/mrasu/GravityR/internal/vfspec"
	"github.com/mrasu/GravityR/internal/vsym"
)

// Run is one run of a suggest command, with what it did.
type Run struct {
	Examine bool
	Index   []string              // --index
	Given   []*dmodel.IndexTarget // what --index says
	BadIdx  bool                  // --index is not understood
	BadPlan bool
	BadSQL  bool   // the analyser cannot parse the query
	Field   string // what is selected
	Col     string // the column filtered on
	Lit     string // the literal
	Exists  bool   // there is an index on it
	FailAt  int    // the operation that fails

	Ops    []string // "plan" "columns" "indexes" "run" "create t:c+c" "drop"
	Failed string   // the operation that failed
	open   map[string]string
	Quote  byte
}

func New(quote byte) *Run {
	r := &Run{Quote: quote, open: map[string]string{}}
	r.Examine = vsym.Choice(2) == 1
	switch vsym.Choice(5) {
	case 1:
		r.Index = []string{"ta:c"}
		r.Given = []*dmodel.IndexTarget{dmodel.NewIndexTarget("ta", []string{"c"})}
	case 2:
		r.Index = []string{"tb:d+a", "ta:c"}
		r.Given = []*dmodel.IndexTarget{dmodel.NewIndexTarget("tb", []string{"d", "a"}), dmodel.NewIndexTarget("ta", []string{"c"})}
	case 3:
		r.Index = []string{"ta:c", "ta"}
		r.BadIdx = true
	case 4:
		r.Index = []string{"ta:c;d"}
		r.BadIdx = true
	}
	r.Col = []string{"b", "b-1"}[vsym.Choice(2)]
	r.Field = []string{"a", "c", "1"}[vsym.Choice(3)]
	r.Lit = vsym.StringOf("x;%?", 0, 2)
	r.Exists = vsym.Choice(2) == 1
	r.BadPlan = vsym.Choice(2) == 1
	if !r.BadPlan {
		r.BadSQL = vsym.Choice(2) == 1
	}
	r.FailAt = vsym.Choice(vsym.Bound(8, 12)) - 1
	return r
}

func (r *Run) Query() string {
	if r.BadSQL {
		return "SELECT " + r.Field + " FROM ta WHERE WHERE " + r.QCol()
	}
	return "SELECT " + r.Field + " FROM ta WHERE " + r.QCol() + " = '" + r.Lit + "'"
}

// QCol is the column as a query has it.
func (r *Run) QCol() string {
	if r.Col == "b" {
		return "b"
	}
	return string([]byte{r.Quote}) + r.Col + string([]byte{r.Quote})
}

// Op records an operation and tells whether it fails.
func (r *Run) Op(op string) error {
	vsym.Assert(r.Failed == "" || strings.HasPrefix(op, "drop"), "after a failure nothing more is done, but for dropping the index")
	r.Ops = append(r.Ops, op)
	if len(r.Ops)-1 == r.FailAt {
		r.Failed = op
		return errors.New("op")
	}
	return nil
}

// DDL records a statement that is not the query.
func (r *Run) DDL(sql string) error {
	s := vfspec.Split(sql, r.Quote)
	vsym.Assert(s.OK && len(s.Names) >= 1, "only an index is created or dropped")
	if !s.OK {
		return errors.New("bad")
	}
	k, words := 0, s.Skeleton
	switch {
	case strings.HasPrefix(words, "ALTER TABLE ? ADD INDEX ?(") && len(s.Names) > 2:
		k = 1
		s.Names[0], s.Names[1] = s.Names[1], s.Names[0]
	case strings.HasPrefix(words, "CREATE INDEX ? ON ?(") && len(s.Names) > 2:
		k = 1
	case words == "ALTER TABLE ? DROP INDEX ?":
		s.Names[0] = s.Names[1]
	case words == "DROP INDEX ? ON ?" || words == "DROP INDEX ?" || words == "DROP INDEX IF EXISTS ?":
	default:
		vsym.Assert(false, "only an index is created or dropped")
		return errors.New("bad")
	}
	if k == 1 {
		err := r.Op("create " + s.Names[1] + ":" + strings.Join(s.Names[2:], "+"))
		if err == nil {
			r.open[s.Names[0]] = s.Names[1]
		}
		return err
	}
	_, ok := r.open[s.Names[0]]
	vsym.Assert(ok || r.Failed != "", "only an index created before is dropped")
	err := r.Op("drop")
	if err == nil {
		delete(r.open, s.Names[0])
	}
	return err
}

func (r *Run) uses() []*vfspec.Use {
	u := &vfspec.Use{Table: "ta", All: []string{"a", r.Col, "c"}, PK: []string{"a"}}
	if r.Field != "1" {
		u.Mention(r.Field, false)
	}
	u.Mention(r.Col, true)
	return []*vfspec.Use{u}
}

// Check checks the outcome; sub is the part of the page that is about the command.
func (r *Run) Check(err error, page any, path string, sub ...any) any {
	bad := r.BadIdx || r.BadPlan || r.BadSQL || r.Failed != ""
	vsym.Observe("ops", strings.Join(r.Ops, ","))
	vsym.Assert((err != nil) == bad, "it fails exactly when an argument is not understood or an operation fails")
	vsym.Assert((page != nil) == (err == nil), "a page is made exactly when nothing fails")
	if !strings.HasPrefix(r.Failed, "drop") {
		vsym.Assert(len(r.open) == 0, "no index stays behind")
	}
	var created []string
	runs := 0
	for _, o := range r.Ops {
		if strings.HasPrefix(o, "create ") {
			created = append(created, o[7:])
		}
		if o == "run" {
			runs++
		}
	}
	if !r.Examine || r.BadIdx {
		vsym.Assert(len(created) == 0 && runs == 0, "without --with-examine, and with an --index not understood, nothing is examined")
	}
	if err != nil || page == nil {
		return nil
	}
	data := vfpage.At(page, append([]any{"suggestData"}, sub...)...)
	vsym.Assert(data != nil && vfpage.At(page, "digData") == nil, "the page is about the command")
	for _, k := range []string{"mysql", "postgres", "hasura"} {
		vsym.Assert((vfpage.At(page, "suggestData", k) != nil) == (k == sub[0]), "the page is about one database")
	}
	// suggestions
	its := targets(data, "indexTargets", "")
	all := append([]*dmodel.IndexTarget{}, its...)
	if r.Exists {
		ex := dmodel.NewIndexTarget("ta", []string{r.Col})
		for _, it := range its {
			vsym.Assert(text(it) != text(ex), "an existing index is not suggested")
		}
		k := 0
		for k < len(all) && len(all[k].Columns) == 1 && all[k].Columns[0].Name < r.Col {
			k++
		}
		all = append(append(append([]*dmodel.IndexTarget{}, its[:k]...), ex), its[k:]...)
	}
	us := r.uses()
	vfspec.Sound(us, all)
	vfspec.Complete(us, all)
	// examination
	res := vfpage.At(data, "examinationResult")
	vsym.Assert((res != nil) == r.Examine, "results are shown when the indexes are examined")
	if r.Examine {
		want := r.Given
		if len(want) == 0 {
			for _, it := range its {
				if r.Col == "b" || !has(it, r.Col) {
					want = append(want, it)
				}
			}
		}
		got := targets(res, "indexResults", "indexTarget")
		vsym.Assert(len(created) == len(want) && len(got) == len(want) && runs == 1+len(want), "each index to examine is examined once")
		for _, w := range want {
			n, m := 0, 0
			for _, g := range got {
				if text(g) == text(w) {
					n++
				}
			}
			for _, c := range created {
				if c == text(w) {
					m++
				}
			}
			vsym.Assert(n == 1 && m == 1, "the indexes examined are the ones given, else the ones suggested")
		}
	}
	// the command to examine
	opts := map[string]string{}
	for i := 0; i < vfpage.Len(data, "examinationCommandOptions"); i++ {
		o := vfpage.At(data, "examinationCommandOptions", i)
		short, _ := vfpage.At(o, "isShort").(bool)
		n := vfpage.Str(o, "name")
		vsym.Assert(short == (len(n) == 1), "short options are one letter")
		opts[n] = vfpage.Str(o, "value")
	}
	out := path
	if !r.Examine {
		out = strings.TrimSuffix(path, ".html") + "_examine.html"
	}
	vsym.Assert(opts["o"] == out, "the command shown writes next to the page, not over it")
	return data
}

func has(it *dmodel.IndexTarget, c string) bool {
	for _, x := range it.Columns {
		if x.Name == c {
			return true
		}
	}
	return false
}

func text(it *dmodel.IndexTarget) string {
	s := it.TableName + ":"
	for i, c := range it.Columns {
		if i > 0 {
			s += "+"
		}
		s += c.Name
	}
	return s
}

// targets are the index targets of a list of the page.
func targets(x any, list, sub string) []*dmodel.IndexTarget {
	var out []*dmodel.IndexTarget
	for i := 0; i < vfpage.Len(x, list); i++ {
		t := vfpage.At(x, list, i)
		if sub != "" {
			t = vfpage.At(t, sub)
		}
		var cs []string
		for k := 0; k < vfpage.Len(t, "columns"); k++ {
			cs = append(cs, vfpage.Str(t, "columns", k, "name"))
		}
		out = append(out, dmodel.NewIndexTarget(vfpage.Str(t, "tableName"), cs))
	}
	return out
}

// Option is the value of an option of the command shown.
func Option(data any, name string) string {
	for i := 0; i < vfpage.Len(data, "examinationCommandOptions"); i++ {
		if o := vfpage.At(data, "examinationCommandOptions", i); vfpage.Str(o, "name") == name {
			return vfpage.Str(o, "value")
		}
	}
	return "(none)"
}
