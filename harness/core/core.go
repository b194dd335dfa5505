// Package core-by-overlay: one interpreter for requests against the real kuneiform
// packages, shared by the library harness and the caller-threads harness.  It uses
// only the exported API.  It is compiled into a main package of /repo's module
// through -overlay.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

type request struct {
	Op       string `json:"op"`
	Src      int    `json:"src"` // threads harness: index into the sources
	Trace    bool   `json:"trace"`
	Listener string `json:"listener"` // "" = nil listener
	Keep     string `json:"keep"`     // handle under which to keep what was returned
	Handle   string `json:"handle"`
	Seed     uint32 `json:"seed"`
	Raw      bool   `json:"raw"` // keep the result without serialising it
}

type response struct {
	OK     bool     `json:"ok"`
	Err    string   `json:"err,omitempty"`
	Syntax bool     `json:"syntax,omitempty"`
	JSON   string   `json:"json,omitempty"`
	JErr   string   `json:"jerr,omitempty"`
	LLen   int      `json:"llen"`
	LErrs  []string `json:"lerrs,omitempty"`
	Panic  string   `json:"panic,omitempty"`
	Ann    any      `json:"ann,omitempty"`
	Res    bool     `json:"res,omitempty"`  // a failing call also returned a result
	LSyn   []bool   `json:"lsyn,omitempty"` // which listener entries are syntax errors
	Loaded any      `json:"loaded,omitempty"` // what a document was read as
	After  any      `json:"after,omitempty"`  // ... if validating changed it
}

type held struct {
	res ast.Ast
	err error
	ann *utils.Annotation
}

// state is what one caller holds on to.
type state struct {
	listeners map[string]*utils.ErrorListener
	kept      map[string]held
	shared    map[string]held // results of another caller, only ever read
}

func (s *state) find(handle string) held {
	if h, ok := s.kept[handle]; ok {
		return h
	}
	return s.shared[handle]
}

func newState() *state {
	return &state{listeners: map[string]*utils.ErrorListener{}, kept: map[string]held{}}
}

func (s *state) listener(name string) *utils.ErrorListener {
	if name == "" {
		return nil
	}
	if name == "!" { // a listener of its own, dropped with the call
		return utils.NewErrorListener()
	}
	l := s.listeners[name]
	if l == nil {
		l = utils.NewErrorListener()
		s.listeners[name] = l
	}
	return l
}

func (s *state) run(req request, src string) (resp response) {
	defer func() {
		if r := recover(); r != nil {
			resp.Panic = fmt.Sprint(r)
			resp.OK = false
		}
	}()
	switch req.Op {
	case "parse":
		l := s.listener(req.Listener)
		mode := kfparser.Default
		if req.Trace {
			mode = kfparser.Trace
		}
		res, err := kfparser.ParseKF(src, l, mode)
		if req.Raw && err == nil {
			resp.OK = true
		} else {
			report(res, err, nil, &resp)
		}
		if l != nil {
			resp.LLen = len(l.ErrorList)
			for _, e := range l.ErrorList {
				resp.LErrs = append(resp.LErrs, e.Error())
				resp.LSyn = append(resp.LSyn, errors.Is(e, utils.ErrInvalidSyntax))
			}
		}
		if req.Keep != "" {
			s.kept[req.Keep] = held{res: res, err: err}
		}
	case "parse1": // the one-argument convenience entry point
		res, err := kfparser.Parse(src)
		report(res, err, nil, &resp)
		if req.Keep != "" {
			s.kept[req.Keep] = held{res: res, err: err}
		}
	case "dump":
		h := s.find(req.Handle)
		report(h.res, h.err, h.ann, &resp)
	case "validate": // a finished result is judged again, and its parts serialised
		h := s.find(req.Handle)
		if h.res == nil {
			report(nil, h.err, nil, &resp)
			break
		}
		judge(h.res, &resp)
	case "load": // what was published is read back
		var sc schema.Schema
		if err := json.Unmarshal([]byte(src), &sc); err != nil {
			resp.Err = "unreadable: " + err.Error()
			break
		}
		if req.Raw {
			before := plain(reflect.ValueOf(sc))
			resp.Loaded = before
			if err := sc.Accept(schema.NewCtxValidator()); err != nil {
				resp.Err = err.Error()
			} else {
				resp.OK = true
			}
			if after := plain(reflect.ValueOf(sc)); !reflect.DeepEqual(before, after) {
				resp.After = after
			}
			break
		}
		judge(&sc, &resp)
	case "mutate":
		m := &mutator{x: req.Seed | 1}
		h := s.kept[req.Handle]
		m.walk(reflect.ValueOf(h.res))
		m.walk(reflect.ValueOf(h.ann))
		resp.OK = true
		resp.LLen = m.n
	case "drop":
		delete(s.kept, req.Handle)
		resp.OK = true
	case "annotation":
		a, err := utils.ParseAnnotation(src)
		report(nil, err, a, &resp)
		if req.Keep != "" {
			s.kept[req.Keep] = held{err: err, ann: a}
		}
	default:
		resp.Err = "unknown op"
	}
	return resp
}

func judge(res ast.Ast, resp *response) {
	if err := res.Accept(schema.NewCtxValidator()); err != nil {
		resp.Err = err.Error()
		return
	}
	report(res, nil, nil, resp)
	if sc, ok := res.(*schema.Schema); ok {
		for i := range sc.Tables {
			part(&sc.Tables[i], resp)
		}
		for i := range sc.Actions {
			part(&sc.Actions[i], resp)
		}
		for i := range sc.Extensions {
			part(&sc.Extensions[i], resp)
		}
	}
}

// plain is the value of a schema under its JSON names, taken field by field.
func plain(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return plain(v.Elem())
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			name := strings.Split(f.Tag.Get("json"), ",")[0]
			if !f.IsExported() || name == "" || name == "-" {
				continue
			}
			if x := plain(v.Field(i)); x != nil {
				m[name] = x
			}
		}
		return m
	case reflect.Slice, reflect.Array:
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, plain(v.Index(i)))
		}
		return l
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	}
	if !v.IsValid() {
		return nil
	}
	return fmt.Sprint(v.Interface())
}

func part(n ast.Ast, resp *response) {
	b, err := n.ToJSON()
	if err != nil {
		resp.JErr = err.Error()
	}
	resp.LErrs = append(resp.LErrs, string(b))
}

func report(res ast.Ast, err error, ann *utils.Annotation, resp *response) {
	if err != nil {
		resp.Err = err.Error()
		resp.Syntax = errors.Is(err, utils.ErrInvalidSyntax)
		return
	}
	resp.OK = true
	if ann != nil {
		c := *ann
		c.Attributes = append([]utils.AnnotationAttribute(nil), ann.Attributes...)
		resp.Ann = c
	}
	if res != nil {
		b, err := res.ToJSON()
		resp.JSON = string(b)
		if err != nil {
			resp.JErr = err.Error()
		}
	}
}

// mutator overwrites everything reachable from a value it is given.
type mutator struct {
	x uint32
	n int
}

func (m *mutator) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			m.walk(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() && v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
			m.n++
		} else if !v.IsNil() {
			m.walk(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				m.walk(v.Field(i))
			}
		}
	case reflect.Slice:
		// scribble over the whole backing array, not just the visible part
		full := v
		if v.Cap() > v.Len() {
			full = v.Slice3(0, v.Cap(), v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			m.walk(full.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
			m.n++
		}
	case reflect.String:
		if v.CanSet() {
			m.x = m.x*1664525 + 1013904223
			v.SetString(fmt.Sprintf("scribble%d", m.x>>8))
			m.n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			m.n++
		}
	}
}
