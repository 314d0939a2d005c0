// Package vfsql reads the parts of a query on metadata that decide what its answer looks like.
package vfsql

import "strings"

type Row map[string]any

// Answer gives the columns the query selects from the rows, in the order the query asks for.
func Answer(q string, rows []Row) ([]string, [][]any) {
	q = strings.TrimRight(strings.TrimSpace(q), "; \n\t")
	cols := Columns(q)
	keys, desc := orderBy(q)
	sorted := append([]Row{}, rows...)
	for i := 1; i < len(sorted); i++ {
		for k := i; k > 0 && less(sorted[k], sorted[k-1], keys, desc); k-- {
			sorted[k], sorted[k-1] = sorted[k-1], sorted[k]
		}
	}
	var out [][]any
	for _, r := range sorted {
		var o []any
		for _, c := range cols {
			o = append(o, get(r, c))
		}
		out = append(out, o)
	}
	return cols, out
}

// get is a column of a row; names are the same in any case.
func get(r Row, name string) any {
	if v, ok := r[name]; ok {
		return v
	}
	if v, ok := r[strings.ToUpper(name)]; ok {
		return v
	}
	return r[strings.ToLower(name)]
}

func less(a, b Row, keys []string, desc []bool) bool {
	for i, k := range keys {
		switch x := get(a, k).(type) {
		case string:
			y, _ := get(b, k).(string)
			if x != y {
				return (x < y) != desc[i]
			}
		case int:
			y, _ := get(b, k).(int)
			if x != y {
				return (x < y) != desc[i]
			}
		}
	}
	return false
}

// Columns are the names of the columns a query selects.
func Columns(q string) []string {
	l := strings.ToLower(q)
	from := top(l, "select")
	to := top(l, "from")
	if from < 0 || to < from {
		return nil
	}
	out, _ := names(q[from+6 : to])
	return out
}

func orderBy(q string) ([]string, []bool) {
	l := strings.ToLower(q)
	i := top(l, "order by")
	if i < 0 {
		return nil, nil
	}
	return names(q[i+8:])
}

// names are the last identifiers of the expressions of a list, and whether DESC follows.
func names(s string) ([]string, []bool) {
	var out []string
	var desc []bool
	depth, start := 0, 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] == '(' {
			depth++
		}
		if i < len(s) && s[i] == ')' {
			depth--
		}
		if i == len(s) || s[i] == ',' && depth == 0 {
			e := strings.TrimSpace(s[start:i])
			l := strings.ToLower(e)
			desc = append(desc, strings.HasSuffix(l, " desc"))
			if strings.HasSuffix(l, " desc") || strings.HasSuffix(l, " asc") {
				e = strings.TrimSpace(e[:len(e)-4])
			}
			e = strings.TrimRight(e, "`\"")
			k := len(e)
			for k > 0 && word(e[k-1]) {
				k--
			}
			out = append(out, e[k:])
			start = i + 1
		}
	}
	return out, desc
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// top finds a keyword outside parentheses.
func top(l, kw string) int {
	depth := 0
	for i := 0; i+len(kw) <= len(l); i++ {
		if l[i] == '(' {
			depth++
		}
		if l[i] == ')' {
			depth--
		}
		if depth == 0 && l[i:i+len(kw)] == kw && (i == 0 || !word(l[i-1])) && (i+len(kw) == len(l) || !word(l[i+len(kw)])) {
			return i
		}
	}
	return -1
}
