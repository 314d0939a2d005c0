// Package vfopen is what the program finds when it opens a database: what it
// asked to open is recorded, and the harness answers for the database.
package vfopen

import (
	"database/sql"
	"database/sql/driver"
	_ "unsafe"

	"github.com/jmoiron/sqlx"
	"github.com/mrasu/GravityR/internal/vfdb"
)

// Opened is what was opened: drivers and settings.
var Opened [][2]string

var handler vfdb.Handler

// Set makes h the database there is.
func Set(h vfdb.Handler) {
	handler = h
	Opened = nil
	install()
}

//go:linkname drivers database/sql.drivers
var drivers map[string]driver.Driver

// install is nothing under the executor, which sends sqlx.Open to open.
func install() {
	for n := range drivers {
		drivers[n] = drv(n)
	}
	if len(drivers) == 0 {
		sql.Register("mysql", drv("mysql"))
	}
}

type drv string

func (d drv) Open(dsn string) (driver.Conn, error) {
	known := false
	for _, o := range Opened {
		known = known || o == [2]string{string(d), dsn}
	}
	if !known {
		Opened = append(Opened, [2]string{string(d), dsn})
	}
	return vfdb.Conn(handler), nil
}

func open(driverName, dsn string) (*sqlx.DB, error) {
	Opened = append(Opened, [2]string{driverName, dsn})
	return vfdb.Open(driverName, handler), nil
}

// KV reads a libpq connection string: key = value, a value in single quotes or
// up to a space, a backslash taking the next character as it is; of a repeated
// key the last counts.
func KV(s string) (keys, vals []string, ok bool) {
	i, n := 0, len(s)
	space := func(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }
	for {
		for i < n && space(s[i]) {
			i++
		}
		if i >= n {
			return keys, vals, true
		}
		k := i
		for i < n && !space(s[i]) && s[i] != '=' {
			i++
		}
		key := s[k:i]
		for i < n && space(s[i]) {
			i++
		}
		if i >= n || s[i] != '=' || key == "" {
			return nil, nil, false
		}
		i++
		for i < n && space(s[i]) {
			i++
		}
		var v []byte
		if i < n && s[i] == '\'' {
			i++
			for {
				if i >= n {
					return nil, nil, false
				}
				if s[i] == '\'' {
					i++
					break
				}
				if s[i] == '\\' {
					i++
					if i >= n {
						return nil, nil, false
					}
				}
				v = append(v, s[i])
				i++
			}
		} else {
			for i < n && !space(s[i]) {
				if s[i] == '\\' {
					i++
					if i >= n {
						return nil, nil, false
					}
				}
				v = append(v, s[i])
				i++
			}
		}
		keys, vals = append(keys, key), append(vals, string(v))
	}
}

// Last is the value that counts of a key.
func Last(keys, vals []string, k string) (string, bool) {
	v, ok := "", false
	for i := range keys {
		if keys[i] == k {
			v, ok = vals[i], true
		}
	}
	return v, ok
}
