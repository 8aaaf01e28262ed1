package main

// Thin wrappers around the code under test.

import (
	"strings"

	"github.com/akito0107/xsqlparser"
	a "github.com/akito0107/xsqlparser/sqlast"
)

func parseSQL(src string, d *dial, opts ...xsqlparser.ParserOption) ([]a.Stmt, error) {
	p, err := xsqlparser.NewParser(strings.NewReader(src), d.d, opts...)
	if err != nil {
		return nil, err
	}
	return p.ParseSQL()
}

func parseFile(src string, d *dial, comments bool) (*a.File, error) {
	var opts []xsqlparser.ParserOption
	if comments {
		opts = append(opts, xsqlparser.ParseComment())
	}
	p, err := xsqlparser.NewParser(strings.NewReader(src), d.d, opts...)
	if err != nil {
		return nil, err
	}
	return p.ParseFile()
}

func parseStmt(src string, d *dial) (a.Stmt, error) {
	p, err := xsqlparser.NewParser(strings.NewReader(src), d.d)
	if err != nil {
		return nil, err
	}
	return p.ParseStatement()
}

func parseExpr(src string, d *dial) (a.Node, error) {
	p, err := xsqlparser.NewParser(strings.NewReader(src), d.d)
	if err != nil {
		return nil, err
	}
	return p.ParseExpr()
}

func parseType(src string, d *dial) (a.Type, error) {
	p, err := xsqlparser.NewParser(strings.NewReader(src), d.d)
	if err != nil {
		return nil, err
	}
	return p.ParseDataType()
}

// equalStmts compares two statement lists up to positions.
func equalStmts(x, y []a.Stmt) string {
	if len(x) != len(y) {
		return "different number of statements"
	}
	for i := range x {
		if d := diffTrees(x[i], y[i], false); d != "" {
			return d
		}
	}
	return ""
}
