// Package vfpgparse stands for the PostgreSQL parser under the symbolic
// executor; natively the parser itself runs.
package vfpgparse

import (
	"errors"

	"github.com/auxten/postgresql-parser/pkg/sql/parser"
	"github.com/auxten/postgresql-parser/pkg/sql/sem/tree"
	"github.com/mrasu/GravityR/internal/vsym"
)

var text string
var stmts []tree.Statement

// Set tells what the parser makes of a text.
func Set(t string, ss ...tree.Statement) { text, stmts = t, ss }

// do is where the executor sends parser.Parse.
func do(sql string) (parser.Statements, error) {
	vsym.Assert(vsym.StrEq(sql, text), "the query analysed is the one given")
	if stmts == nil {
		return nil, errors.New("syntax")
	}
	var out parser.Statements
	for _, s := range stmts {
		out = append(out, parser.Statement{AST: s})
	}
	return out, nil
}
