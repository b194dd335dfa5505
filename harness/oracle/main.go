//go:build js && wasm

// Statement oracle: what the (trusted, out-of-repository) kwil-db/parse dependency says
// about the text of one action statement.  Imports nothing of the code under test.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"syscall/js"

	actparser "github.com/kwilteam/kwil-db/parse/action"
	sqlparser "github.com/kwilteam/kwil-db/parse/sql"
	"github.com/kwilteam/kwil-db/parse/sql/tree"
)

type answer struct {
	OK        bool      `json:"ok"`
	Why       string    `json:"why,omitempty"`
	Kind      string    `json:"kind,omitempty"`
	Method    string    `json:"method,omitempty"`
	Ext       string    `json:"ext,omitempty"`
	Args      []*string `json:"args"`   // bind parameter passed as the argument itself
	Nested    []string  `json:"nested"` // bind parameters inside larger argument expressions
	Receivers []string  `json:"receivers"`
}

func params(a *answer, es []tree.Expression) {
	for _, e := range es {
		if b, ok := e.(*tree.ExpressionBindParameter); ok {
			p := b.Parameter
			a.Args = append(a.Args, &p)
			continue
		}
		a.Args = append(a.Args, nil)
		nested(a, reflect.ValueOf(e), 0)
	}
}

func nested(a *answer, v reflect.Value, depth int) {
	if depth > 200 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		if b, ok := v.Interface().(*tree.ExpressionBindParameter); ok {
			a.Nested = append(a.Nested, b.Parameter)
			return
		}
		nested(a, v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				nested(a, v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			nested(a, v.Index(i), depth+1)
		}
	}
}

func judge(stmt string) (a answer) {
	defer func() {
		if r := recover(); r != nil {
			a = answer{Why: fmt.Sprint(r)}
		}
	}()
	st, err := actparser.Parse(stmt)
	if err != nil {
		return answer{Why: err.Error()}
	}
	switch s := st.(type) {
	case *actparser.DMLStmt:
		t, err := sqlparser.ParseSql(stmt, 1, nil, false)
		if err != nil {
			return answer{Why: err.Error()}
		}
		if _, err := t.ToSQL(); err != nil {
			return answer{Why: err.Error()}
		}
		return answer{OK: true, Kind: "dml"}
	case *actparser.ActionCallStmt:
		a = answer{OK: true, Kind: "call", Method: s.Method}
		params(&a, s.Args)
	case *actparser.ExtensionCallStmt:
		a = answer{OK: true, Kind: "ext", Method: s.Method, Ext: s.Extension, Receivers: s.Receivers}
		params(&a, s.Args)
	}
	return a
}

func main() {
	js.Global().Set("judge", js.FuncOf(func(this js.Value, args []js.Value) any {
		b, _ := json.Marshal(judge(args[0].String()))
		return string(b)
	}))
	<-make(chan bool)
}
