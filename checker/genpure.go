package main

import (
	"go/token"
	"html"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// pureFuncs: library functions whose result on known arguments is known.
var pureFuncs = map[string]interface{}{
	"strings.Count": strings.Count, "strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte,
	"strings.LastIndexByte": strings.LastIndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny, "strings.LastIndexAny": strings.LastIndexAny,
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.ToValidUTF8": strings.ToValidUTF8,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN, "strings.Fields": strings.Fields,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix, "strings.Title": strings.Title, "strings.ToTitle": strings.ToTitle,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strconv.FormatUint": strconv.FormatUint, "strconv.QuoteToASCII": strconv.QuoteToASCII, "strconv.Quote": strconv.Quote, "strconv.CanBackquote": strconv.CanBackquote,
	"path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.Clean": path.Clean,
	"path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext, "path/filepath.Clean": filepath.Clean,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsNumber": unicode.IsNumber, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.ToTitle": unicode.ToTitle,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"go/token.IsExported": token.IsExported, "go/token.IsKeyword": token.IsKeyword, "go/token.IsIdentifier": token.IsIdentifier, "go/ast.IsExported": token.IsExported,
	"html.EscapeString": html.EscapeString,
}

// pure evaluates a library function whose arguments are all known.
func (g *ginterp) pure(name string, args []gv) (res []gv, ok bool) {
	f, has := pureFuncs[name]
	if !has {
		return nil, false
	}
	fn := reflect.ValueOf(f)
	t := fn.Type()
	if t.NumIn() != len(args) {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range args {
		v := reflect.New(t.In(i)).Elem()
		switch a := a.(type) {
		case gstr:
			s, isL := a.isLit()
			if !isL || v.Kind() != reflect.String {
				return nil, false
			}
			v.SetString(s)
		case gint:
			if !a.known {
				return nil, false
			}
			switch v.Kind() {
			case reflect.Int, reflect.Int32, reflect.Int64:
				v.SetInt(a.k)
			case reflect.Uint8, reflect.Uint64:
				v.SetUint(uint64(a.k))
			default:
				return nil, false
			}
		default:
			return nil, false
		}
		in = append(in, v)
	}
	defer func() {
		if e := recover(); e != nil {
			panic(gpanic{name + " panics"})
		}
	}()
	for _, v := range fn.Call(in) {
		switch v.Kind() {
		case reflect.String:
			res = append(res, lit(v.String()))
		case reflect.Bool:
			res = append(res, gb(v.Bool()))
		case reflect.Int, reflect.Int32, reflect.Int64:
			res = append(res, gk(v.Int()))
		case reflect.Slice:
			r := gslice{nil: v.IsNil()}
			for i := 0; i < v.Len(); i++ {
				r.e = append(r.e, &gloc{v: lit(v.Index(i).String())})
			}
			res = append(res, r)
		default:
			return nil, false
		}
	}
	return res, true
}
