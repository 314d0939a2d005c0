package vfcat

// MySQL is MySQL's information_schema.
type MySQL struct{ DB }

func NewMySQL() *MySQL {
	c := &MySQL{}
	c.Tables = map[string]*Table{
		"information_schema.columns":    {Cols: []string{"TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_KEY"}},
		"information_schema.statistics": {Cols: []string{"TABLE_SCHEMA", "TABLE_NAME", "INDEX_SCHEMA", "INDEX_NAME", "SEQ_IN_INDEX", "COLUMN_NAME", "EXPRESSION", "NON_UNIQUE"}},
	}
	return c
}

// Table adds a table; keys are the COLUMN_KEYs of its columns.
func (c *MySQL) Table(schema, name string, cols, keys []string) {
	t := c.Tables["information_schema.columns"]
	for i, col := range cols {
		t.Rows = append(t.Rows, []any{schema, name, col, int64(i + 1), keys[i]})
	}
}

// Index adds an index; a column "" is the expression lower(x).
func (c *MySQL) Index(schema, table, name string, unique bool, cols ...string) {
	non := int64(1)
	if unique {
		non = 0
	}
	t := c.Tables["information_schema.statistics"]
	for i, col := range cols {
		var n, e any = col, nil
		if col == "" {
			n, e = nil, Expression
		}
		t.Rows = append(t.Rows, []any{schema, table, schema, name, int64(i + 1), n, e, non})
	}
}
