package main

import (
	"go/types"
	"io/fs"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Result pages: html/template is modelled as writing the JSON tree of the value
// that the template assigns to window.grParam; files and buffers carry it as a token.

const vfpage = modPath + "/internal/vfpage"

var grField = regexp.MustCompile(`window\.grParam\s*=\s*\{\{-?\s*\.(\w+)\s*-?\}\}`)

const pageTok = "\x00page#"

func (in *Interp) pageWrite(path string, data Value) {
	p := needPath(in)
	s, ok := in.mkStrV(data.([]Value)).(string)
	if !ok {
		panic(unsupported{"symbolic text written to a file"})
	}
	if i := strings.Index(s, pageTok); i >= 0 {
		n, _ := strconv.Atoi(strings.TrimRight(s[i+len(pageTok):], "\x01"))
		if p.pages == nil {
			p.pages = map[string]Iface{}
		}
		p.pages[path] = p.trees[n]
	}
}

func init() {
	reg(vfpage+".New", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return Tuple{"/page/out.html", &Closure{host: func(in *Interp, args []Value) Value { return nil }}}
	})
	reg(vfpage+".Read", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			panic(unsupported{"symbolic path"})
		}
		return in.copyTree(needPath(in).pages[s])
	})
	reg("io/fs.ReadFile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, ok := a[1].(string)
		if !ok {
			panic(unsupported{"symbolic path"})
		}
		switch s {
		case "client/dist/assets/main.js", "client/dist/assets/main.css", "client/dist/assets/mermaid.js", "client/dist/assets/mermaid.css":
			return Tuple{in.bytesOf("x"), Iface{}}
		}
		return Tuple{[]Value(nil), in.hostErr(fs.ErrNotExist)}
	})
	create := func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(string)
		if !ok || !strings.HasPrefix(s, "/page/") {
			return Tuple{(*Value)(nil), in.hostErr(fs.ErrPermission)}
		}
		p := needPath(in)
		c := new(Value)
		*c = in.zero(deref(fn.Signature.Results().At(0).Type()))
		if p.files == nil {
			p.files = map[*Value]string{}
		}
		p.files[c] = s
		delete(p.pages, s)
		return Tuple{c, Iface{}}
	}
	reg("os.Create", create)
	reg("os.OpenFile", create)
	reg("os.Getwd", func(in *Interp, fn *ssa.Function, a []Value) Value { return Tuple{"/wd", Iface{}} })
	reg("(*os.File).Close", func(in *Interp, fn *ssa.Function, a []Value) Value { return Iface{} })
	reg("(*os.File).Sync", func(in *Interp, fn *ssa.Function, a []Value) Value { return Iface{} })
	reg("(*os.File).Name", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return needPath(in).files[a[0].(*Value)]
	})
	reg("(*os.File).Write", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.pageWrite(needPath(in).files[a[0].(*Value)], a[1])
		return Tuple{in.b.Const(64, uint64(len(a[1].([]Value)))), Iface{}}
	})
	reg("os.WriteFile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := create(in, in.pkgFunc("os", "Create"), a[:1]).(Tuple)
		if e := t[1].(Iface); e.t != nil {
			return e
		}
		in.pageWrite(a[0].(string), a[1])
		return Iface{}
	})
	const ht = "html/template"
	newT := func(in *Interp, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = in.zero(deref(fn.Signature.Results().At(0).Type()))
		return c
	}
	reg(ht+".New", newT)
	reg("(*"+ht+".Template).Parse", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, ok := a[1].(string)
		if !ok {
			panic(unsupported{"symbolic template"})
		}
		p := needPath(in)
		if p.tmpls == nil {
			p.tmpls = map[*Value]string{}
		}
		p.tmpls[a[0].(*Value)] = s
		return Tuple{a[0], Iface{}}
	})
	reg("(*"+ht+".Template).Execute", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := needPath(in)
		m := grField.FindStringSubmatch(p.tmpls[a[0].(*Value)])
		d := a[2].(Iface)
		if m == nil || d.t == nil {
			panic(unsupported{"template without window.grParam"})
		}
		var v Value
		var vt types.Type
		switch u := d.t.Underlying().(type) {
		case *types.Map:
			e := in.mapFind(d.v.(*MapV), m[1])
			if e == nil {
				panic(unsupported{"template value missing"})
			}
			v, vt = e.v, u.Elem()
		case *types.Struct:
			i := fieldIdx(d.t, m[1])
			if i < 0 {
				panic(unsupported{"template value missing"})
			}
			v, vt = d.v.(Struct)[i], u.Field(i).Type()
		default:
			panic(unsupported{"template data"})
		}
		tree, err := in.toTree(vt, v, 0)
		if err != nil {
			return in.hostErr(err)
		}
		p.trees = append(p.trees, tree)
		tok := in.bytesOf("page " + pageTok + strconv.Itoa(len(p.trees)-1) + "\x01")
		w := a[1].(Iface)
		if w.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		r := in.callFn(in.prog.method(w.t, nil, "Write"), []Value{w.v, tok}, nil).(Tuple)
		return r[1]
	})
}
