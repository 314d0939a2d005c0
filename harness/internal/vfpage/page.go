// Package vfpage reads back what a result page shows.
package vfpage

import (
	"encoding/json"
	"os"
	"strings"
	"testing/fstest"

	"github.com/mrasu/GravityR/injection"
)

const mark = "window.grParam = "

// New gives a path for a page, and a function that removes it.
func New() (string, func()) {
	injection.ClientDist = fstest.MapFS{
		"client/dist/assets/main.js":     {Data: []byte("console.log('x')")},
		"client/dist/assets/main.css":    {Data: []byte("body{}")},
		"client/dist/assets/mermaid.js":  {Data: []byte("console.log('x')")},
		"client/dist/assets/mermaid.css": {Data: []byte("body{}")},
	}
	d, err := os.MkdirTemp("", "vfpage")
	if err != nil {
		panic(err)
	}
	return d + "/out.html", func() { os.RemoveAll(d) }
}

// Read gives the data of the page at path, nil when there is no page.
func Read(path string) any {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	s := string(b)
	i := strings.Index(s, mark)
	if i < 0 {
		return nil
	}
	var x any
	if json.NewDecoder(strings.NewReader(s[i+len(mark):])).Decode(&x) != nil {
		return nil
	}
	return x
}

// At follows names and indexes into x; nil when there is nothing there.
func At(x any, path ...any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, ok := x.(map[string]any)
			if !ok {
				return nil
			}
			x = m[k]
		case int:
			l, ok := x.([]any)
			if !ok || k >= len(l) {
				return nil
			}
			x = l[k]
		}
	}
	return x
}

func Str(x any, path ...any) string {
	s, ok := At(x, path...).(string)
	if !ok {
		return "(none)"
	}
	return s
}

func Num(x any, path ...any) float64 {
	f, ok := At(x, path...).(float64)
	if !ok {
		return -1
	}
	return f
}

func Len(x any, path ...any) int {
	l, ok := At(x, path...).([]any)
	if !ok {
		return -1
	}
	return len(l)
}
