// Driver: calls the public API of /repo's current tree for requests read from
// stdin (JSON lines) and prints what each call returned, as a plain tree.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/kodaimura/ddlparse"
)

type req struct {
	Op   string // "", "conc"
	Fn   string
	Rd   string
	Ddl  []byte
	Rep  int
	More []req
}

type res struct {
	Panic string      `json:",omitempty"`
	Hang  bool        `json:",omitempty"`
	Nil   bool        `json:",omitempty"`
	Tab   interface{} `json:",omitempty"`
	Err   string      `json:",omitempty"` // "", "VE" or another type name
	Line  int         `json:",omitempty"`
	Near  string      `json:",omitempty"`
	Msg   string      `json:",omitempty"`
	Diff  string      `json:",omitempty"`
}

func dump(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Struct:
		m := map[string]interface{}{}
		for i := 0; i < v.NumField(); i++ {
			m[v.Type().Field(i).Name] = dump(v.Field(i))
		}
		return m
	case reflect.Slice:
		l := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(v.Index(i)))
		}
		return l
	case reflect.Interface:
		if v.IsNil() {
			return map[string]interface{}{"k": "nil"}
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Float64:
			s := strconv.FormatFloat(e.Float(), 'g', -1, 64)
			if math.IsNaN(e.Float()) {
				s = "NaN"
			}
			return map[string]interface{}{"k": "float", "v": s}
		case reflect.String, reflect.Bool:
			return map[string]interface{}{"k": e.Type().String(), "v": e.Interface()}
		}
		return map[string]interface{}{"k": e.Type().String(), "v": fmt.Sprint(e.Interface())}
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem())
	}
	return v.Interface()
}

func call(q req) (r res, keep []ddlparse.Table) {
	defer func() {
		if e := recover(); e != nil {
			r = res{Panic: fmt.Sprint(e)}
		}
	}()
	var t []ddlparse.Table
	var err error
	s := string(q.Ddl)
	switch q.Fn {
	case "", "Parse":
		t, err = ddlparse.Parse(s, ddlparse.Rdbms(q.Rd))
	case "ParseSQLite":
		t, err = ddlparse.ParseSQLite(s)
	case "ParsePostgreSQL":
		t, err = ddlparse.ParsePostgreSQL(s)
	case "ParseMySQL":
		t, err = ddlparse.ParseMySQL(s)
	case "ParseForce":
		t, err = ddlparse.ParseForce(s)
	}
	r.Nil = t == nil
	r.Tab = dump(reflect.ValueOf(t))
	if err != nil {
		if ve, ok := err.(ddlparse.ValidateError); ok {
			r.Err, r.Line, r.Near = "VE", ve.Line, ve.Near
			r.Msg = err.Error()
		} else {
			r.Err = fmt.Sprintf("%T", err)
			r.Near = err.Error()
		}
	}
	return r, t
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// conc runs the requests one after the other, again in reverse, and from many
// goroutines, and reports any difference between runs of the same request and
// any change to what an earlier call returned.
func conc(q req) res {
	n := len(q.More)
	first := make([]string, n)
	kept := make([][]ddlparse.Table, n)
	tabs := make([]string, n)
	// first from many goroutines: nothing has been warmed up by earlier calls
	cold := make([][]string, q.Rep)
	if q.Fn == "cold" {
		var wg sync.WaitGroup
		for g := range cold {
			cold[g] = make([]string, n)
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < n; k++ {
					i := k
					if g%2 == 1 {
						i = (k + g) % n
					}
					r, _ := call(q.More[i])
					cold[g][i] = js(r)
				}
			}(g)
		}
		wg.Wait()
	}
	for i := range q.More {
		r, k := call(q.More[i])
		first[i], kept[i] = js(r), k
		tabs[i] = js(dump(reflect.ValueOf(k)))
		for g := range cold {
			if cold[g] != nil && cold[g][i] != first[i] {
				return res{Diff: fmt.Sprintf("request %d: concurrently %s, alone %s", i, cold[g][i], first[i])}
			}
		}
	}
	for i := n - 1; i >= 0; i-- {
		r, _ := call(q.More[i])
		if s := js(r); s != first[i] {
			return res{Diff: fmt.Sprintf("request %d: first %s, again %s", i, first[i], s)}
		}
	}
	var mu sync.Mutex
	diff := ""
	var wg sync.WaitGroup
	for g := 0; g < q.Rep; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < n; k++ {
				i := (k + g) % n
				r, _ := call(q.More[i])
				if s := js(r); s != first[i] {
					mu.Lock()
					diff = fmt.Sprintf("request %d: alone %s, concurrently %s", i, first[i], s)
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	for i := range q.More {
		if b := js(dump(reflect.ValueOf(kept[i]))); tabs[i] != b {
			return res{Diff: fmt.Sprintf("request %d: its result was %s and became %s", i, tabs[i], b)}
		}
	}
	if diff != "" {
		return res{Diff: diff}
	}
	// what a caller does to its own result must not show in a later one
	for round := 0; round < 2; round++ {
		for i := range q.More {
			r, k := call(q.More[i])
			if s := js(r); s != first[i] {
				return res{Diff: fmt.Sprintf("request %d: first %s, and after callers changed their own results %s", i, first[i], s)}
			}
			scribble(reflect.ValueOf(k))
		}
	}
	return res{}
}

// scribble overwrites everything a caller can reach in a result, the spare
// capacity of its slices included (an append would write there).
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Interface:
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-7)
		}
	}
}

func main() {
	debug.SetMaxStack(256 << 20)
	if os.Getenv("DRIVER_NOLIMIT") == "" {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	limit := 3 * time.Second
	for {
		var q req
		if dec.Decode(&q) != nil {
			return
		}
		ch := make(chan res, 1)
		l := limit
		if q.Op == "conc" {
			l = 60 * time.Second
		}
		go func() {
			if q.Op == "conc" {
				ch <- conc(q)
				return
			}
			r, _ := call(q)
			ch <- r
		}()
		tm := time.NewTimer(l)
		select {
		case r := <-ch:
			tm.Stop()
			enc.Encode(r)
			out.Flush()
		case <-tm.C:
			enc.Encode(res{Hang: true})
			out.Flush()
			os.Exit(3)
		}
	}
}
