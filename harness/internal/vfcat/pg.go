package vfcat

// PG is PostgreSQL's catalogue.
type PG struct {
	DB
	oid    int64
	spaces map[string]int64
}

func NewPG() *PG {
	c := &PG{spaces: map[string]int64{}, oid: 100}
	c.Tables = map[string]*Table{
		"pg_namespace": {Cols: []string{"oid", "nspname"}},
		"pg_class":     {Cols: []string{"oid", "relname", "relnamespace", "relkind", "relnatts"}},
		"pg_attribute": {Cols: []string{"attrelid", "attname", "attnum", "attisdropped", "attnotnull"}},
		"pg_index":     {Cols: []string{"indexrelid", "indrelid", "indkey", "indisprimary", "indisunique", "indisvalid", "indnatts", "indnkeyatts"}},
	}
	c.Func = c.call
	return c
}

func (c *PG) add(table string, row ...any) {
	t := c.Tables[table]
	t.Rows = append(t.Rows, row)
}

func (c *PG) space(name string) int64 {
	if c.spaces[name] == 0 {
		c.oid++
		c.spaces[name] = c.oid
		c.add("pg_namespace", c.oid, name)
	}
	return c.spaces[name]
}

// Column is a column of a table; Dropped tells that it is there no longer.
type Column struct {
	Name    string
	Dropped bool
}

// Relation adds a table ('r'), a view ('v') and gives its oid.
func (c *PG) Relation(schema, name, kind string, cols []Column) int64 {
	sp := c.space(schema)
	c.oid++
	id := c.oid
	c.add("pg_class", id, name, sp, kind, int64(len(cols)))
	if kind == "r" {
		c.add("pg_attribute", id, "tableoid", int64(-6), false, true)
		c.add("pg_attribute", id, "ctid", int64(-1), false, true)
	}
	for i, col := range cols {
		c.add("pg_attribute", id, col.Name, int64(i+1), col.Dropped, false)
	}
	return id
}

// Index adds an index of a relation; a column 0 is the expression lower(x).
func (c *PG) Index(schema, name string, rel int64, primary, unique bool, cols ...int64) {
	sp := c.space(schema)
	c.oid++
	id := c.oid
	c.add("pg_class", id, name, sp, "i", int64(len(cols)))
	key := Array{}
	for i, col := range cols {
		key.V = append(key.V, col)
		n := c.attr(rel, col)
		if col == 0 {
			n = "lower"
		}
		c.add("pg_attribute", id, n, int64(i+1), false, false)
	}
	n := int64(len(cols))
	c.add("pg_index", id, rel, key, primary, unique, true, n, n)
}

// Expression is what an index on an expression shows.
const Expression = "lower(x)"

func (c *PG) attr(rel, num int64) string {
	for _, r := range c.Tables["pg_attribute"].Rows {
		if r[0] == rel && r[2] == num {
			return r[1].(string)
		}
	}
	return ""
}

func (c *PG) call(fn string, args []any) (any, bool) {
	switch fn {
	case "pg_get_indexdef":
		if len(args) != 3 {
			return nil, false
		}
		for _, r := range c.Tables["pg_index"].Rows {
			if r[0] != args[0] {
				continue
			}
			i, ok := args[1].(int64)
			if !ok || i < 1 || i > int64(len(r[2].(Array).V)) {
				return nil, true
			}
			num := r[2].(Array).V[i-1].(int64)
			if num == 0 {
				return Expression, true
			}
			return quote(c.attr(r[1].(int64), num)), true
		}
		return nil, true
	case "quote_ident":
		n, ok := args[0].(string)
		return quote(n), ok
	}
	return nil, false
}

// quote writes a name as SQL has it.
func quote(n string) string {
	for i := 0; i < len(n); i++ {
		if !(n[i] >= 'a' && n[i] <= 'z' || n[i] == '_' || i > 0 && n[i] >= '0' && n[i] <= '9') {
			return `"` + n + `"`
		}
	}
	return n
}

// Answer is the answer to a query as a driver gives it.
func (c *PG) Answer(q string, args []any) (cols []string, rows [][]any, ok bool) {
	cols, rows, ok = c.Query(q, args)
	for _, r := range rows {
		for i, v := range r {
			if a, is := v.(Array); is {
				r[i] = []byte(a.Text())
			}
		}
	}
	return cols, rows, ok
}
