package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the layers the code under test talks through: sqlx (statements go
// to the harness' Handler), net/http (requests go to the harness' Handler) and
// encoding/json (a value tree, carried through byte slices as a token).

const (
	vfdb   = modPath + "/internal/vfdb"
	vfhttp = modPath + "/internal/vfhttp"
	vfgrpc = modPath + "/internal/vfgrpc"
	vfopen = modPath + "/internal/vfopen"
	sqlxP  = "github.com/jmoiron/sqlx"
)

func (in *Interp) pkgFunc(pkg, name string) *ssa.Function {
	for _, p := range in.prog.SSA.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Func(name)
		}
	}
	return nil
}

func (in *Interp) loadGlobal(pkg, name string) Value {
	for _, p := range in.prog.SSA.AllPackages() {
		if p.Pkg.Path() == pkg {
			return *in.global(p.Var(name))
		}
	}
	panic(unsupported{pkg + "." + name})
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldIdx(t types.Type, name string) int {
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

var (
	anyT    = types.NewInterfaceType(nil, nil)
	anySl   = types.NewSlice(anyT)
	anyMap  = types.NewMap(types.Typ[types.String], anyT)
	strSlT  = types.NewSlice(types.Typ[types.String])
	byteSlT = types.NewSlice(types.Universe.Lookup("byte").Type())
)

func init() {
	reg(vfdb+".Open", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		dbt := deref(fn.Signature.Results().At(0).Type())
		c := new(Value)
		st := in.zero(dbt).(Struct)
		st[fieldIdx(dbt, "driverName")] = a[0]
		inner := new(Value)
		*inner = Struct{}
		st[0] = inner // the embedded *sql.DB
		*c = st
		if p.hooks == nil {
			p.hooks = map[*Value]Iface{}
		}
		p.hooks[c] = a[1].(Iface)
		p.hooks[inner] = a[1].(Iface)
		return c
	})
	hook := func(in *Interp, v Value) Iface {
		if p, ok := v.(*Value); ok && p != nil {
			if h, ok := needPath(in).hooks[p]; ok {
				return h
			}
		}
		panic(unsupported{"a database that is not the harness'"})
	}
	exec := func(in *Interp, fn *ssa.Function, a []Value) Value {
		args := a[1:]
		if isCtx(fn) {
			args = args[1:]
		}
		err := in.CallMethod(hook(in, a[0]), "Exec", args[0], args[1]).(Iface)
		if err.t != nil {
			return Tuple{Iface{}, err}
		}
		return Tuple{Iface{t: in.namedTypeOr("database/sql/driver", "RowsAffected"), v: in.b.Const(64, 0)}, Iface{}}
	}
	for _, r := range []string{"(*database/sql.DB).Exec", "(*database/sql.DB).ExecContext", "(*" + sqlxP + ".DB).Exec", "(*" + sqlxP + ".DB).ExecContext"} {
		reg(r, exec)
	}
	sel := func(in *Interp, fn *ssa.Function, a []Value) Value {
		args := a[1:]
		if isCtx(fn) {
			args = args[1:]
		}
		return in.sqlSelect(hook(in, a[0]), args[0].(Iface), args[1], args[2])
	}
	reg("(*"+sqlxP+".DB).Select", sel)
	reg("(*"+sqlxP+".DB).SelectContext", sel)
	nilErr := func(in *Interp, fn *ssa.Function, a []Value) Value { return Iface{} }
	for _, n := range []string{"Close", "Ping"} {
		reg("(*database/sql.DB)."+n, nilErr)
		reg("(*"+sqlxP+".DB)."+n, nilErr)
	}
	open := func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.pkgFunc(vfopen, "open")
		if f == nil {
			panic(unsupported{"a database that is not the harness'"})
		}
		return in.callFn(f, []Value{a[0], a[1]}, nil)
	}
	reg(sqlxP+".Open", open)
	reg(sqlxP+".Connect", open)
	reg(vfopen+".install", nop)
	for _, n := range []string{"SetConnMaxLifetime", "SetConnMaxIdleTime", "SetMaxOpenConns", "SetMaxIdleConns"} {
		reg("(*database/sql.DB)."+n, nop)
	}
	reg(sqlxP+".BindType", func(in *Interp, fn *ssa.Function, a []Value) Value {
		k := map[string]uint64{"postgres": 2, "pgx": 2, "mysql": 1, "sqlite3": 1}
		return in.b.Const(64, k[a[0].(string)])
	})
	reg(sqlxP+".In", func(in *Interp, fn *ssa.Function, a []Value) Value {
		q, ok := a[0].(string)
		if !ok {
			panic(unsupported{"sqlx.In of a symbolic query"})
		}
		args := a[1].([]Value)
		var out []Value
		var sb strings.Builder
		i, anySlice := 0, false
		rest := q
		for {
			p := strings.IndexByte(rest, '?')
			if p < 0 {
				break
			}
			if i >= len(args) {
				return Tuple{"", []Value(nil), in.hostErr(fmt.Errorf("number of bindVars exceeds arguments"))}
			}
			sb.WriteString(rest[:p+1])
			rest = rest[p+1:]
			ar := args[i].(Iface)
			i++
			if sl, ok := ar.v.([]Value); ok && ar.t != nil && !isBytes(ar.t) {
				anySlice = true
				if len(sl) == 0 {
					return Tuple{"", []Value(nil), in.hostErr(fmt.Errorf("empty slice passed to 'in' query"))}
				}
				et := ar.t.Underlying().(*types.Slice).Elem()
				for j, e := range sl {
					if j > 0 {
						sb.WriteString(", ?")
					}
					if x, isI := e.(Iface); isI {
						out = append(out, x)
					} else {
						out = append(out, Iface{t: et, v: e})
					}
				}
				continue
			}
			if ar.t != nil {
				if _, isSl := ar.t.Underlying().(*types.Slice); isSl && !isBytes(ar.t) {
					return Tuple{"", []Value(nil), in.hostErr(fmt.Errorf("empty slice passed to 'in' query"))}
				}
			}
			out = append(out, ar)
		}
		sb.WriteString(rest)
		if i < len(args) {
			return Tuple{"", []Value(nil), in.hostErr(fmt.Errorf("number of bindVars less than number arguments"))}
		}
		if !anySlice {
			return Tuple{q, args, Iface{}}
		}
		return Tuple{sb.String(), out, Iface{}}
	})

	// ---- grpc
	reg(vfgrpc+".dial", func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = in.zero(deref(fn.Signature.Results().At(0).Type()))
		return c
	})
	dial := func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.pkgFunc(vfgrpc, "open")
		if f == nil {
			panic(unsupported{"grpc without a server model"})
		}
		return in.callFn(f, []Value{a[len(a)-2]}, nil)
	}
	for _, n := range []string{"Dial", "DialContext", "NewClient"} {
		reg("google.golang.org/grpc."+n, dial)
	}
	for _, n := range []string{"WithBlock", "WithTransportCredentials", "WithReturnConnectionError", "WithInsecure"} {
		reg("google.golang.org/grpc."+n, nop)
	}
	reg("google.golang.org/grpc/credentials/insecure.NewCredentials", nop)
	reg(vfgrpc+".listen", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return Tuple{"host:1", &Closure{host: func(in *Interp, args []Value) Value { return nil }}}
	})
	reg("context.WithTimeout", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return Tuple{a[0], &Closure{host: func(in *Interp, args []Value) Value { return nil }}}
	})
	reg("(*google.golang.org/grpc.ClientConn).NewStream", func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.pkgFunc(vfgrpc, "newStream")
		if f == nil {
			panic(unsupported{"grpc stream without a server model"})
		}
		return in.callFn(f, []Value{a[3]}, nil)
	})
	reg("(*google.golang.org/grpc.ClientConn).Close", func(in *Interp, fn *ssa.Function, a []Value) Value { return Iface{} })

	// ---- SQL parsers
	reg("github.com/pingcap/tidb/parser.New", func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = in.zero(deref(fn.Signature.Results().At(0).Type()))
		return c
	})
	parse := func(pkg string, at int) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			f := in.pkgFunc(modPath+"/internal/"+pkg, "do")
			if f == nil {
				panic(unsupported{"a text to parse"})
			}
			return in.callFn(f, []Value{a[at]}, nil)
		}
	}
	first := func(all intrinsic, msg string) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			t := all(in, fn, a).(Tuple)
			e := t[len(t)-1].(Iface)
			l, _ := t[0].([]Value)
			zero := in.zero(fn.Signature.Results().At(0).Type())
			switch {
			case e.t != nil:
				return Tuple{zero, e}
			case len(l) != 1:
				return Tuple{zero, in.hostErr(fmt.Errorf("%s", msg))}
			}
			return Tuple{l[0], Iface{}}
		}
	}
	my, pg := parse("vfmyparse", 1), parse("vfpgparse", 0)
	reg("(*github.com/pingcap/tidb/parser.Parser).Parse", my)
	reg("(*github.com/pingcap/tidb/parser.Parser).ParseSQL", my)
	reg("(*github.com/pingcap/tidb/parser.Parser).ParseOneStmt", first(my, "syntax error"))
	reg("github.com/auxten/postgresql-parser/pkg/sql/parser.Parse", pg)
	reg("github.com/auxten/postgresql-parser/pkg/sql/parser.ParseOne", first(pg, "expected 1 statement"))

	// ---- net/http
	reg(vfhttp+".install", nop)
	do := func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.pkgFunc(vfhttp, "do")
		if f == nil {
			panic(unsupported{"http request without a server model"})
		}
		return in.callFn(f, []Value{a[1]}, nil)
	}
	reg("(*net/http.Client).Do", do)
	newReq := func(in *Interp, fn *ssa.Function, a []Value) Value {
		if isCtx(fn) {
			a = a[1:]
		}
		p := needPath(in)
		rt := deref(fn.Signature.Results().At(0).Type())
		st := in.zero(rt).(Struct)
		st[fieldIdx(rt, "Method")] = a[0]
		st[fieldIdx(rt, "Header")] = NewMap()
		body := a[2].(Iface)
		if body.t != nil {
			nc := in.pkgFunc("io", "NopCloser")
			st[fieldIdx(rt, "Body")] = in.callFn(nc, []Value{body}, nil)
		}
		c := new(Value)
		*c = st
		if p.urls == nil {
			p.urls = map[*Value]Value{}
		}
		p.urls[c] = a[1]
		return Tuple{c, Iface{}}
	}
	reg("net/http.NewRequest", newReq)
	reg("net/http.NewRequestWithContext", newReq)
	reg(vfhttp+".urlOf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if u, ok := needPath(in).urls[a[0].(*Value)]; ok {
			return u
		}
		panic(unsupported{"request of unknown origin"})
	})
	hdr := func(add bool) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			m := a[0].(*MapV)
			k := canonHeader(a[1])
			var cur []Value
			if e := in.mapFind(m, k); e != nil && add {
				cur = e.v.([]Value)
			}
			in.mapSet(m, k, append(append([]Value{}, cur...), a[2]))
			return nil
		}
	}
	reg("(net/http.Header).Add", hdr(true))
	reg("(net/http.Header).Set", hdr(false))
	reg("(net/http.Header).Get", func(in *Interp, fn *ssa.Function, a []Value) Value {
		m, _ := a[0].(*MapV)
		if m == nil {
			return ""
		}
		if e := in.mapFind(m, canonHeader(a[1])); e != nil {
			if s := e.v.([]Value); len(s) > 0 {
				return s[0]
			}
		}
		return ""
	})
	reg("net/http.StatusText", func(in *Interp, fn *ssa.Function, a []Value) Value { return "status" })

	// ---- encoding/json
	marshal := func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		tree, err := in.toTree(i.t, i.v, 0)
		if err != nil {
			return Tuple{[]Value(nil), in.hostErr(err)}
		}
		p := needPath(in)
		p.trees = append(p.trees, tree)
		return Tuple{in.bytesOf("\x00json#" + strconv.Itoa(len(p.trees)-1)), Iface{}}
	}
	reg("encoding/json.Marshal", marshal)
	reg("encoding/json.MarshalIndent", marshal)
	reg("encoding/json.Valid", func(in *Interp, fn *ssa.Function, a []Value) Value {
		bs, _ := a[0].([]Value)
		s, ok := in.mkStrV(bs).(string)
		if !ok {
			panic(unsupported{"json.Valid of symbolic bytes"})
		}
		return in.b.Bool(strings.HasPrefix(s, "\x00json#") || json.Valid([]byte(s)))
	})
	unmarshal := func(in *Interp, bs []Value, dst Value) Value {
		var tree Iface
		s := in.mkStrV(bs)
		cs, ok := s.(string)
		if !ok {
			panic(unsupported{"json.Unmarshal of symbolic bytes"})
		}
		if t := strings.TrimSpace(cs); strings.HasPrefix(t, "\x00json#") {
			n, _ := strconv.Atoi(t[6:])
			tree = needPath(in).trees[n]
		} else {
			x, err := hostJSON([]byte(cs))
			if err != nil {
				return in.hostErr(err)
			}
			tree = in.hostTree(x)
		}
		d := dst.(Iface)
		pt, ok := d.t.Underlying().(*types.Pointer)
		if !ok || d.v == nil {
			return in.hostErr(fmt.Errorf("json: Unmarshal(non-pointer)"))
		}
		v, err := in.fromTree(pt.Elem(), tree, in.load(d.v))
		if err == nil {
			in.store(d.v, v)
		}
		return in.hostErr(err)
	}
	reg("encoding/json.Unmarshal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		bs, _ := a[0].([]Value)
		return unmarshal(in, bs, a[1])
	})
	type jdec struct {
		src   Iface
		rest  []Value
		exact bool
	}
	newStream := func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = in.zero(deref(fn.Signature.Results().At(0).Type()))
		p := needPath(in)
		if p.jdecs == nil {
			p.jdecs = map[*Value]any{}
		}
		p.jdecs[c] = &jdec{src: a[0].(Iface)}
		return c
	}
	reg("encoding/json.NewDecoder", newStream)
	reg("encoding/json.NewEncoder", newStream)
	decOf := func(in *Interp, v Value) *jdec {
		d, _ := needPath(in).jdecs[v.(*Value)].(*jdec)
		if d == nil {
			panic(unsupported{"json stream of unknown origin"})
		}
		return d
	}
	fill := func(in *Interp, d *jdec) (string, Value) {
		if d.src.t != nil {
			r := in.callFn(in.pkgFunc("io", "ReadAll"), []Value{d.src}, nil).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				return "", e
			}
			d.rest, _ = r[0].([]Value)
			d.src = Iface{}
		}
		s, ok := in.mkStrV(d.rest).(string)
		if !ok {
			panic(unsupported{"json stream of symbolic bytes"})
		}
		return s, nil
	}
	reg("(*encoding/json.Decoder).UseNumber", func(in *Interp, fn *ssa.Function, a []Value) Value {
		decOf(in, a[0]).exact = true
		return nil
	})
	reg("(*encoding/json.Decoder).Decode", func(in *Interp, fn *ssa.Function, a []Value) Value {
		d := decOf(in, a[0])
		s, e := fill(in, d)
		if e != nil {
			return e
		}
		one := d.rest
		if strings.TrimSpace(s) == "" {
			return in.loadGlobal("io", "EOF")
		}
		if !strings.HasPrefix(s, "\x00json#") {
			hd := json.NewDecoder(strings.NewReader(s))
			var raw json.RawMessage
			if err := hd.Decode(&raw); err != nil {
				return in.hostErr(err)
			}
			n := int(hd.InputOffset())
			one, d.rest = d.rest[:n], d.rest[n:]
		} else {
			d.rest = nil
		}
		in.exactNum = d.exact
		r := unmarshal(in, one, a[1])
		in.exactNum = false
		return r
	})
	reg("(*encoding/json.Decoder).More", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, e := fill(in, decOf(in, a[0]))
		s = strings.TrimSpace(s)
		return in.b.Bool(e == nil && s != "" && s[0] != ']' && s[0] != '}')
	})
	reg("(*encoding/json.Decoder).Token", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, e := fill(in, decOf(in, a[0]))
		if e != nil {
			return Tuple{Iface{}, e}
		}
		if strings.TrimSpace(s) == "" {
			return Tuple{Iface{}, in.loadGlobal("io", "EOF")}
		}
		if strings.HasPrefix(s, "\x00json#") {
			panic(unsupported{"json tokens"})
		}
		t, err := json.NewDecoder(strings.NewReader(s)).Token()
		if err == nil {
			if _, ok := t.(json.Delim); ok {
				return Tuple{Iface{t: types.Typ[types.String], v: "delimiter"}, Iface{}}
			}
		}
		return Tuple{in.hostTree(t), in.hostErr(err)}
	})
	reg("(*encoding/json.Encoder).Encode", func(in *Interp, fn *ssa.Function, a []Value) Value {
		d := decOf(in, a[0])
		t := marshal(in, fn, a[1:]).(Tuple)
		if e := t[1].(Iface); e.t != nil {
			return e
		}
		r := in.callFn(in.prog.method(d.src.t, nil, "Write"), []Value{d.src.v, append(t[0].([]Value), in.bytesOf("\n")...)}, nil).(Tuple)
		return r[1]
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML", nop)
	reg("(*encoding/json.Encoder).SetIndent", nop)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isCtx(fn *ssa.Function) bool { return strings.HasSuffix(fn.Name(), "Context") }

func canonHeader(v Value) Value {
	s, ok := v.(string)
	if !ok {
		panic(unsupported{"symbolic header name"})
	}
	b := []byte(strings.ToLower(s))
	up := true
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
		up = c == '-'
	}
	return string(b)
}

func (in *Interp) namedTypeOr(pkg, name string) types.Type {
	if t := in.namedType(pkg, name); t != nil {
		return t
	}
	return types.Typ[types.Int64]
}

func (in *Interp) bytesOf(s string) []Value {
	r := make([]Value, len(s))
	for i := range r {
		r[i] = in.b.Const(8, uint64(s[i]))
	}
	return r
}

func (in *Interp) mkStrV(bs []Value) Value {
	ts := make([]*Term, len(bs))
	for i := range bs {
		ts[i] = bs[i].(*Term)
	}
	return in.mkStr(ts)
}

// ---- sqlx.Select

func (in *Interp) sqlSelect(h Iface, dest Iface, q, args Value) Value {
	r := in.CallMethod(h, "Query", q, args).(Tuple)
	if e := r[2].(Iface); e.t != nil {
		return e
	}
	var cols []string
	if cs, ok := r[0].([]Value); ok {
		for _, c := range cs {
			cols = append(cols, c.(string))
		}
	}
	st, ok := deref(dest.t).Underlying().(*types.Slice)
	if !ok {
		panic(unsupported{"Select into something that is not a slice"})
	}
	et := st.Elem()
	isPtr := false
	bt := et
	if p, ok := et.Underlying().(*types.Pointer); ok {
		isPtr, bt = true, p.Elem()
	}
	rows, _ := r[1].([]Value)
	out := []Value{}
	for _, row := range rows {
		rv, _ := row.([]Value)
		cell := new(Value)
		*cell = in.zero(bt)
		if s := structOf(bt); s != nil && in.prog.method(types.NewPointer(bt), nil, "Scan") == nil {
			for k, c := range cols {
				fi := -1
				for i := 0; i < s.NumFields(); i++ {
					tag := reflect.StructTag(s.Tag(i)).Get("db")
					if tag == "" {
						tag = strings.ToLower(s.Field(i).Name())
					}
					if tag == c {
						fi = i
					}
				}
				if fi < 0 {
					return in.hostErr(fmt.Errorf("missing destination name %s in %s", c, bt))
				}
				if err := in.scan(s.Field(fi).Type(), &(*cell).(Struct)[fi], rv[k].(Iface)); err.t != nil {
					return err
				}
			}
		} else if err := in.scan(bt, cell, rv[0].(Iface)); err.t != nil {
			return err
		}
		if isPtr {
			out = append(out, cell)
		} else {
			out = append(out, *cell)
		}
	}
	if len(out) > 0 {
		var cur []Value
		if c, ok := in.load(dest.v).([]Value); ok {
			cur = c
		}
		in.store(dest.v, append(append([]Value{}, cur...), out...))
	}
	return Iface{}
}

func (in *Interp) scan(t types.Type, cell *Value, v Iface) Iface {
	if in.prog.method(types.NewPointer(t), nil, "Scan") != nil {
		return in.CallMethod(Iface{t: types.NewPointer(t), v: cell}, "Scan", v).(Iface)
	}
	fail := func() Iface {
		return in.hostErr(fmt.Errorf("sql: Scan error: unsupported Scan, storing %v into %s", v.t, t)).(Iface)
	}
	if v.t == nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return Iface{}
		}
		return fail()
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		c := new(Value)
		*c = in.zero(p.Elem())
		if e := in.scan(p.Elem(), c, v); e.t != nil {
			return e
		}
		*cell = c
		return Iface{}
	}
	switch {
	case isString(t) && isString(v.t):
		*cell = v.v
	case isString(t) && isBytes(v.t):
		*cell = in.mkStrV(v.v.([]Value))
	case types.Identical(t.Underlying(), v.t.Underlying()):
		*cell = v.v
	default:
		return fail()
	}
	return Iface{}
}

// ---- JSON trees

func jsonName(s *types.Struct, i int) (name string, omit, skip bool) {
	f := s.Field(i)
	if !f.Exported() {
		return "", false, true
	}
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if tag == "-" {
		return "", false, true
	}
	parts := strings.Split(tag, ",")
	name = parts[0]
	if name == "" {
		name = f.Name()
	}
	for _, o := range parts[1:] {
		switch o {
		case "omitempty":
			omit = true
		default:
			panic(unsupported{"json option " + o})
		}
	}
	return
}

func (in *Interp) toTree(t types.Type, v Value, depth int) (Iface, error) {
	if depth > 30 {
		panic(unsupported{"deep JSON value"})
	}
	if t == nil {
		return Iface{}, nil
	}
	if f := in.prog.method(t, nil, "MarshalJSON"); f != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			if p, _ := v.(*Value); p == nil {
				return Iface{}, nil
			}
		}
		r := in.callFn(f, []Value{v}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return Iface{}, fmt.Errorf("json: error calling MarshalJSON")
		}
		s, ok := in.mkStrV(r[0].([]Value)).(string)
		if !ok {
			panic(unsupported{"symbolic MarshalJSON of " + t.String()})
		}
		if strings.HasPrefix(s, "\x00json#") {
			n, _ := strconv.Atoi(s[6:])
			return in.copyTree(needPath(in).trees[n]), nil
		}
		var x any
		if err := json.Unmarshal([]byte(s), &x); err != nil {
			return Iface{}, err
		}
		return in.hostTree(x), nil
	}
	if in.prog.method(t, nil, "MarshalText") != nil {
		panic(unsupported{"json of " + t.String()})
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(Iface)
		return in.toTree(i.t, i.v, depth+1)
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			return Iface{}, nil
		}
		return in.toTree(u.Elem(), *p, depth+1)
	case *types.Basic:
		switch {
		case isNumber(t):
			n, ok := v.(string)
			if !ok {
				panic(unsupported{"symbolic json.Number"})
			}
			if n == "" {
				n = "0"
			}
			return in.hostTree(json.Number(n)), nil
		case u.Info()&types.IsString != 0:
			return Iface{t: types.Typ[types.String], v: v}, nil
		case u.Info()&types.IsBoolean != 0:
			return Iface{t: types.Typ[types.Bool], v: v}, nil
		case u.Info()&types.IsInteger != 0:
			x := v.(*Term)
			if !x.isConst() {
				op := OUToF
				if isSigned(t) {
					op = OSToF
				}
				return Iface{t: types.Typ[types.Float64], v: in.b.FConv(op, x, Sort{W: 64, FP: true})}, nil
			}
			f := float64(x.val)
			if isSigned(t) {
				f = float64(sx(x.val, x.sort.W))
			}
			return Iface{t: types.Typ[types.Float64], v: in.b.FConst(64, math.Float64bits(f))}, nil
		case u.Kind() == types.Float64:
			return Iface{t: types.Typ[types.Float64], v: v}, nil
		}
	case *types.Struct:
		m := NewMap()
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Anonymous() {
				panic(unsupported{"json of an embedded field"})
			}
			n, omit, skip := jsonName(u, i)
			if skip {
				continue
			}
			x, err := in.toTree(u.Field(i).Type(), v.(Struct)[i], depth+1)
			if err != nil {
				return x, err
			}
			if omit && in.emptyTree(x) {
				continue
			}
			in.mapSet(m, n, x)
		}
		return Iface{t: anyMap, v: m}, nil
	case *types.Map:
		m, _ := v.(*MapV)
		if m == nil {
			return Iface{}, nil
		}
		r := NewMap()
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			x, err := in.toTree(u.Elem(), e.v, depth+1)
			if err != nil {
				return x, err
			}
			in.mapSet(r, e.k, x)
		}
		return Iface{t: anyMap, v: r}, nil
	case *types.Slice:
		if isBytes(t) {
			panic(unsupported{"json of bytes"})
		}
		s, _ := v.([]Value)
		if s == nil {
			return Iface{}, nil
		}
		r := []Value{}
		for _, e := range s {
			x, err := in.toTree(u.Elem(), e, depth+1)
			if err != nil {
				return x, err
			}
			r = append(r, x)
		}
		return Iface{t: anySl, v: r}, nil
	case *types.Signature, *types.Chan:
		return Iface{}, fmt.Errorf("json: unsupported type: %s", t)
	}
	panic(unsupported{"json of " + t.String()})
}

func (in *Interp) emptyTree(x Iface) bool {
	switch v := x.v.(type) {
	case nil:
		return true
	case string:
		return v == ""
	case *SymStr:
		return len(v.b) == 0
	case *MapV:
		return v.n == 0
	case []Value:
		return len(v) == 0
	case *Term:
		if v.isConst() {
			return v.val == 0
		}
		return in.branch(in.b.Not(v))
	}
	return x.t == nil
}

func (in *Interp) hostTree(x any) Iface {
	switch v := x.(type) {
	case nil:
		return Iface{}
	case string:
		return Iface{t: types.Typ[types.String], v: v}
	case bool:
		return Iface{t: types.Typ[types.Bool], v: in.b.Bool(v)}
	case json.Number:
		if f, ok := canonNum(string(v)); ok {
			return Iface{t: types.Typ[types.Float64], v: in.b.FConst(64, math.Float64bits(f))}
		}
		return Iface{t: in.numberType(), v: string(v)}
	case float64:
		return Iface{t: types.Typ[types.Float64], v: in.b.FConst(64, math.Float64bits(v))}
	case []any:
		r := []Value{}
		for _, e := range v {
			r = append(r, in.hostTree(e))
		}
		return Iface{t: anySl, v: r}
	case map[string]any:
		m := NewMap()
		for _, k := range sortedKeys(v) {
			in.mapSet(m, k, in.hostTree(v[k]))
		}
		return Iface{t: anyMap, v: m}
	}
	panic(unsupported{"hostTree"})
}

// hostJSON decodes text, keeping numbers that a float64 does not hold.
func hostJSON(b []byte) (any, error) {
	var x any
	if err := json.Unmarshal(b, &x); err != nil {
		return nil, err
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err := d.Decode(&x)
	return x, err
}

func canonNum(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	b, err2 := json.Marshal(f)
	return f, err == nil && err2 == nil && string(b) == s
}

func (in *Interp) numberType() types.Type {
	if p := in.prog.SSA.ImportedPackage("encoding/json"); p != nil {
		return p.Type("Number").Type()
	}
	panic(unsupported{"json.Number"})
}

func isNumber(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Number" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json"
}

// copyTree gives the reader values of its own.
func (in *Interp) copyTree(x Iface) Iface {
	if x.t != nil && !in.exactNum && isNumber(x.t) {
		f, err := strconv.ParseFloat(x.v.(string), 64)
		if err != nil {
			panic(unsupported{"a number beyond float64"})
		}
		return Iface{t: types.Typ[types.Float64], v: in.b.FConst(64, math.Float64bits(f))}
	}
	if x.t != nil && in.exactNum && types.Identical(x.t, types.Typ[types.Float64]) {
		f := x.v.(*Term)
		if !f.isConst() {
			panic(unsupported{"text of a symbolic number"})
		}
		b, _ := json.Marshal(math.Float64frombits(f.val))
		return Iface{t: in.numberType(), v: string(b)}
	}
	switch v := x.v.(type) {
	case []Value:
		r := make([]Value, len(v))
		for i := range v {
			r[i] = in.copyTree(v[i].(Iface))
		}
		return Iface{t: x.t, v: r}
	case *MapV:
		m := NewMap()
		for _, e := range v.ents {
			if !e.dead {
				in.mapSet(m, e.k, in.copyTree(e.v.(Iface)))
			}
		}
		return Iface{t: x.t, v: m}
	}
	return x
}

func (in *Interp) fromTree(t types.Type, x Iface, cur Value) (Value, error) {
	bad := func() (Value, error) {
		return cur, fmt.Errorf("json: cannot unmarshal into Go value of type %s", t)
	}
	if in.prog.method(types.NewPointer(t), nil, "UnmarshalJSON") != nil {
		panic(unsupported{"UnmarshalJSON of " + t.String()})
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			return bad()
		}
		return in.copyTree(x), nil
	case *types.Pointer:
		if x.t == nil {
			return in.zero(t), nil
		}
		c := new(Value)
		*c = in.zero(u.Elem())
		v, err := in.fromTree(u.Elem(), x, *c)
		*c = v
		return c, err
	case *types.Slice:
		if x.t == nil {
			return in.zero(t), nil
		}
		s, ok := x.v.([]Value)
		if !ok {
			return bad()
		}
		r := []Value{}
		var first error
		for _, e := range s {
			v, err := in.fromTree(u.Elem(), e.(Iface), in.zero(u.Elem()))
			if err != nil && first == nil {
				first = err
			}
			r = append(r, v)
		}
		return r, first
	}
	if x.t == nil {
		return cur, nil
	}
	if isNumber(t) {
		if isNumber(x.t) || types.Identical(x.t, types.Typ[types.Float64]) {
			old := in.exactNum
			in.exactNum = true
			n := in.copyTree(x)
			in.exactNum = old
			return n.v, nil
		}
		return bad()
	}
	if isNumber(x.t) {
		if u, ok := t.Underlying().(*types.Basic); ok && u.Info()&types.IsInteger != 0 {
			n, err := strconv.ParseInt(x.v.(string), 10, 64)
			if err != nil {
				return bad()
			}
			return in.b.Const(sortOf(t).W, uint64(n)), nil
		}
		old := in.exactNum
		in.exactNum = false
		x = in.copyTree(x)
		in.exactNum = old
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && isString(x.t):
			return x.v, nil
		case u.Info()&types.IsBoolean != 0 && types.Identical(x.t, types.Typ[types.Bool]):
			return x.v, nil
		case u.Kind() == types.Float64 && types.Identical(x.t, types.Typ[types.Float64]):
			return x.v, nil
		case u.Info()&types.IsInteger != 0 && types.Identical(x.t, types.Typ[types.Float64]):
			f := x.v.(*Term)
			if !f.isConst() {
				panic(unsupported{"symbolic JSON number"})
			}
			fv := math.Float64frombits(f.val)
			if fv != math.Trunc(fv) {
				return bad()
			}
			return in.b.Const(sortOf(t).W, uint64(int64(fv))), nil
		}
		return bad()
	case *types.Struct:
		m, ok := x.v.(*MapV)
		if !ok {
			return bad()
		}
		r := copyVal(cur).(Struct)
		var first error
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			k, ok := e.k.(string)
			if !ok {
				panic(unsupported{"symbolic JSON key"})
			}
			fi := -1
			for i := 0; i < u.NumFields(); i++ {
				n, _, skip := jsonName(u, i)
				if !skip && (n == k || (fi < 0 && strings.EqualFold(n, k))) {
					fi = i
				}
			}
			if fi < 0 {
				continue
			}
			v, err := in.fromTree(u.Field(fi).Type(), e.v.(Iface), r[fi])
			if err != nil && first == nil {
				first = err
			}
			r[fi] = v
		}
		return r, first
	case *types.Map:
		m, ok := x.v.(*MapV)
		if !ok {
			return bad()
		}
		r := NewMap()
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			v, err := in.fromTree(u.Elem(), e.v.(Iface), in.zero(u.Elem()))
			if err != nil {
				return r, err
			}
			in.mapSet(r, e.k, v)
		}
		return r, nil
	}
	panic(unsupported{"json into " + t.String()})
}
