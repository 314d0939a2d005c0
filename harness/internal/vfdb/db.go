// Package vfdb is a database whose answers the harness decides.  Natively it is
// a database/sql driver; under the symbolic executor the calls of sqlx end in
// the same Handler.
package vfdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"

	"github.com/jmoiron/sqlx"
)

type Handler interface {
	Exec(q string, args []any) error
	Query(q string, args []any) (cols []string, rows [][]any, err error)
}

// Open is intercepted by the executor.
func Open(driverName string, h Handler) *sqlx.DB {
	return sqlx.NewDb(sql.OpenDB(&connector{h}), driverName)
}

type connector struct{ h Handler }

func (c *connector) Connect(context.Context) (driver.Conn, error) { return &conn{c.h}, nil }
func (c *connector) Driver() driver.Driver                        { return nil }

// Conn is a connection to h.
func Conn(h Handler) driver.Conn { return &conn{h} }

type conn struct{ h Handler }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("no prepare") }
func (c *conn) Close() error                          { return nil }
func (c *conn) Begin() (driver.Tx, error)             { return nil, errors.New("no transactions") }

func vals(a []driver.NamedValue) []any {
	var r []any
	for _, x := range a {
		r = append(r, x.Value)
	}
	return r
}

func (c *conn) ExecContext(_ context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	if err := c.h.Exec(q, vals(a)); err != nil {
		return nil, err
	}
	return driver.RowsAffected(0), nil
}

func (c *conn) QueryContext(_ context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	cols, rs, err := c.h.Query(q, vals(a))
	if err != nil {
		return nil, err
	}
	return &rows{cols, rs}, nil
}

type rows struct {
	cols []string
	rs   [][]any
}

func (r *rows) Columns() []string { return r.cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dst []driver.Value) error {
	if len(r.rs) == 0 {
		return io.EOF
	}
	for i, v := range r.rs[0] {
		dst[i] = v
	}
	r.rs = r.rs[1:]
	return nil
}
