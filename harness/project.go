package main

// Projection of the library's results onto the state of the specification
// (module Parser: EmptyTable, EmptyColumn, Accept, Reject).

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/kodaimura/ddlparse"
)

type Default struct {
	K string `json:"k"`
	V string `json:"v"`
}

type Column struct {
	N  string   `json:"n"`
	T  string   `json:"t"`
	DN string   `json:"dn"`
	DM string   `json:"dm"`
	CN string   `json:"cn"`
	PK bool     `json:"pk"`
	UQ bool     `json:"uq"`
	NN bool     `json:"nn"`
	AI bool     `json:"ai"`
	DF Default  `json:"df"`
	CK string   `json:"ck"`
	CO string   `json:"co"`
	RT string   `json:"rt"`
	RC []string `json:"rc"`
}

type Key struct {
	N string   `json:"n"`
	C []string `json:"c"`
}

type Check struct {
	N string `json:"n"`
	E string `json:"e"`
}

type ForeignKey struct {
	N  string   `json:"n"`
	C  []string `json:"c"`
	RT string   `json:"rt"`
	RC []string `json:"rc"`
}

type Table struct {
	S  string       `json:"s"`
	N  string       `json:"n"`
	I  bool         `json:"i"`
	C  []Column     `json:"c"`
	PK []Key        `json:"pk"`
	UQ []Key        `json:"uq"`
	CK []Check      `json:"ck"`
	FK []ForeignKey `json:"fk"`
}

type Outcome struct {
	K    string  `json:"k"` // ok | err | panic | hang | crash | both
	Tabs []Table `json:"tabs"`
	L    int     `json:"l"`
	Near string  `json:"near"`
}

func names(ls []string) []string {
	return append([]string{}, ls...)
}

// a float64 as m * 2^q, m having 53 bits unless q is the smallest exponent
func canonical(f float64) string {
	if f == 0 {
		return "0"
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	sign := ""
	if f < 0 {
		sign, f = "-", -f
	}
	bits := math.Float64bits(f)
	m, e := bits&(1<<52-1), int(bits>>52)
	if e == 0 {
		e = 1
	} else {
		m |= 1 << 52
	}
	return fmt.Sprintf("%s%dp%d", sign, m, e-1075)
}

func projectDefault(v interface{}) Default {
	switch x := v.(type) {
	case nil:
		return Default{"nil", ""}
	case float64:
		return Default{"num", canonical(x)}
	case bool:
		return Default{"bool", strconv.FormatBool(x)}
	case string:
		return Default{"str", x}
	}
	return Default{"other", fmt.Sprintf("%T %v", v, v)}
}

func projectTable(t ddlparse.Table) Table {
	r := Table{S: t.Schema, N: t.Name, I: t.IfNotExists,
		C: []Column{}, PK: []Key{}, UQ: []Key{}, CK: []Check{}, FK: []ForeignKey{}}
	for _, c := range t.Columns {
		k := c.Constraint
		r.C = append(r.C, Column{
			N: c.Name, T: c.DataType.Name,
			DN: strconv.Itoa(c.DataType.DigitN), DM: strconv.Itoa(c.DataType.DigitM),
			CN: k.Name, PK: k.IsPrimaryKey, UQ: k.IsUnique, NN: k.IsNotNull, AI: k.IsAutoincrement,
			DF: projectDefault(k.Default), CK: k.Check, CO: k.Collate,
			RT: k.References.TableName, RC: names(k.References.ColumnNames)})
	}
	for _, x := range t.Constraints.PrimaryKey {
		r.PK = append(r.PK, Key{x.Name, names(x.ColumnNames)})
	}
	for _, x := range t.Constraints.Unique {
		r.UQ = append(r.UQ, Key{x.Name, names(x.ColumnNames)})
	}
	for _, x := range t.Constraints.Check {
		r.CK = append(r.CK, Check{x.Name, x.Expr})
	}
	for _, x := range t.Constraints.ForeignKey {
		r.FK = append(r.FK, ForeignKey{x.Name, names(x.ColumnNames),
			x.References.TableName, names(x.References.ColumnNames)})
	}
	return r
}

func project(ts []ddlparse.Table, err error) Outcome {
	if err == nil {
		o := Outcome{K: "ok", Tabs: []Table{}}
		for _, t := range ts {
			o.Tabs = append(o.Tabs, projectTable(t))
		}
		return o
	}
	o := Outcome{K: "err", Tabs: []Table{}}
	for _, t := range ts { // tables next to an error: not allowed, made visible
		o.Tabs = append(o.Tabs, projectTable(t))
	}
	var ve ddlparse.ValidateError
	if errors.As(err, &ve) {
		o.L, o.Near = ve.Line, ve.Near
		if m := err.Error(); !strings.Contains(m, ve.Near) || !strings.Contains(m, strconv.Itoa(ve.Line)) {
			o.Near = "message without the position: " + m
		}
	} else {
		o.L, o.Near = -1, fmt.Sprintf("%T: %v", err, err)
	}
	return o
}

// d: SQLite, PostgreSQL, MySQL via Parse; Force; direct:<dialect> via ParseX
func call(d string, text string) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{K: "panic", Tabs: []Table{}, Near: fmt.Sprint(r)}
		}
	}()
	return project(invoke(d, text))
}

func invoke(d string, text string) ([]ddlparse.Table, error) {
	switch d {
	case "Force":
		return ddlparse.ParseForce(text)
	case "direct:SQLite":
		return ddlparse.ParseSQLite(text)
	case "direct:PostgreSQL":
		return ddlparse.ParsePostgreSQL(text)
	case "direct:MySQL":
		return ddlparse.ParseMySQL(text)
	case "SQLite":
		return ddlparse.Parse(text, ddlparse.SQLite)
	case "PostgreSQL":
		return ddlparse.Parse(text, ddlparse.PostgreSQL)
	case "MySQL":
		return ddlparse.Parse(text, ddlparse.MySQL)
	}
	panic("harness: unknown entry point " + d)
}

// everything a caller sees of an outcome, down to nil or empty slices
func exactly(d, s string) (j string) {
	defer func() {
		if r := recover(); r != nil {
			j = "panic"
		}
	}()
	tabs, err := invoke(d, s)
	b, jerr := json.Marshal(tabs)
	if jerr != nil {
		return jerr.Error()
	}
	if err != nil {
		return fmt.Sprintf("%s %T %s", b, err, err)
	}
	return string(b)
}
