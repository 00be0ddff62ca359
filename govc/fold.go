package main

import (
	"fmt"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

var strT = types.Typ[types.String]

// Library functions that are evaluated when every argument is a constant.
var foldable = map[string]any{
	"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.TrimSpace": strings.TrimSpace,
	"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.Index": strings.Index,
	"strings.LastIndex": strings.LastIndex, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Repeat": strings.Repeat, "strings.Title": strings.Title, "strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold,
	"strings.Split": strings.Split, "strings.Fields": strings.Fields, "strings.SplitN": strings.SplitN,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "path.Base": path.Base, "path.Dir": path.Dir, "path/filepath.Base": filepath.Base,
	"path/filepath.Ext": filepath.Ext, "path/filepath.Dir": filepath.Dir,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter,
	"github.com/mercari/grpc-federation/util.GoCamelCase": goCamelCase,
	"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
}

func (e *Eng) fold(s *State, name string, args []Val) ([]Val, bool) {
	f, ok := foldable[name]
	if !ok {
		return nil, false
	}
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	if rt.NumIn() != len(args) {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range args {
		t, ok := a.(*T)
		if !ok {
			return nil, false
		}
		switch {
		case t.op == "strc" && rt.In(i).Kind() == reflect.String:
			in = append(in, reflect.ValueOf(t.sval))
		case t.isNum() && (rt.In(i).Kind() == reflect.Int || rt.In(i).Kind() == reflect.Int32):
			v := reflect.New(rt.In(i)).Elem()
			v.SetInt(t.ival.Int64())
			in = append(in, v)
		default:
			return nil, false
		}
	}
	var outs []reflect.Value
	bad := false
	func() {
		defer func() {
			if recover() != nil {
				bad = true
			}
		}()
		outs = rv.Call(in)
	}()
	if bad {
		return nil, false
	}
	var res []Val
	for _, o := range outs {
		switch o.Kind() {
		case reflect.String:
			res = append(res, StrC(o.String()))
		case reflect.Bool:
			res = append(res, Bool(o.Bool()))
		case reflect.Int, reflect.Int32:
			res = append(res, Num(o.Int()))
		case reflect.Slice:
			if o.Type().Elem().Kind() != reflect.String {
				return nil, false
			}
			arr := s.alloc()
			e.zeroElems(s, arr, strT)
			for i := 0; i < o.Len(); i++ {
				e.store(s, elemPtr(arr, Num(int64(i)), strT), StrC(o.Index(i).String()))
			}
			n := Num(int64(o.Len()))
			res = append(res, SliceV{arr, Num(0), n, n})
		default:
			panic(fmt.Sprint("fold ", o.Kind()))
		}
	}
	return res, true
}
