// Package vfmyparse stands for the MySQL parser under the symbolic executor;
// natively the parser itself runs.
package vfmyparse

import (
	"errors"

	"github.com/mrasu/GravityR/internal/vsym"
	"github.com/pingcap/tidb/parser/ast"
)

var text string
var stmts []ast.StmtNode

// Set tells what the parser makes of a text.
func Set(t string, ss ...ast.StmtNode) { text, stmts = t, ss }

// do is where the executor sends (*parser.Parser).Parse.
func do(sql string) ([]ast.StmtNode, []error, error) {
	vsym.Assert(vsym.StrEq(sql, text), "the query analysed is the one given")
	if stmts == nil {
		return nil, nil, errors.New("syntax")
	}
	return stmts, nil, nil
}
