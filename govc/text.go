package main

import (
	"go/types"
	"strings"
)

// Text functions of struct tags: structural where the text is known, else
// uninterpreted functions of it.

func textFn(name string, args []*Term) *Term {
	switch name {
	case "spl":
		if args[1].isC() {
			if it, ok := splitTerm(args[0]); ok {
				if args[1].v < uint64(len(it)) {
					return it[args[1].v]
				}
				return eps
			}
		}
	case "nspl":
		if it, ok := splitTerm(args[0]); ok {
			return C64(uint64(len(it)))
		}
	case "atoi", "isnum":
		if v, ok, known := knownNum(args[0]); known {
			if name == "atoi" {
				return v
			}
			return ok
		}
	case "tlook", "haslook":
		if v, has, ok := knownTag(args[0], args[1]); ok {
			if name == "tlook" {
				return v
			}
			return B(has)
		}
	}
	return genText(name, args)
}

func knownNum(s *Term) (v, ok *Term, known bool) {
	if s.op == "itoa" {
		return s.args[0], tTrue, true
	}
	if s == eps {
		return C64(0), tFalse, true
	}
	if s.op == "strc" {
		v := uint64(0)
		good := len(s.str) > 0 && len(s.str) < 18
		for i := 0; i < len(s.str) && good; i++ {
			if s.str[i] < '0' || s.str[i] > '9' {
				good = false
			}
			v = v*10 + uint64(s.str[i]-'0')
		}
		if good {
			return C64(v), tTrue, true
		}
	}
	return nil, nil, false
}

// knownTag: the value of a key of a struct tag whose text is known up to the
// numbers (and quoted texts) in its values.
func knownTag(tag, key *Term) (v *Term, has, known bool) {
	if key.op != "strc" {
		return nil, false, false
	}
	if tag == eps {
		return eps, false, true
	}
	type tok struct {
		c    byte
		t    *Term
		open bool // a quoted text that is not known
	}
	var ts []tok
	for _, a := range atoms(tag) {
		switch {
		case a.op == "strc":
			for _, c := range []byte(a.str) {
				if c < ' ' || c > '~' || c == '\\' {
					return nil, false, false
				}
				ts = append(ts, tok{c: c})
			}
		case a.op == "uf" && a.str == "quote", a.op == "uf" && a.str == "bqfix" && a.args[0].op == "uf" && a.args[0].str == "quote":
			ts = append(ts, tok{t: a, open: true})
		case without(a, "\"\\ :"):
			ts = append(ts, tok{t: a})
		default:
			return nil, false, false
		}
	}
	i := 0
	for {
		for i < len(ts) && ts[i].c == ' ' {
			i++
		}
		if i >= len(ts) {
			return eps, false, true
		}
		k := ""
		for i < len(ts) && ts[i].t == nil && ts[i].c > ' ' && ts[i].c != ':' && ts[i].c != '"' {
			k += string(ts[i].c)
			i++
		}
		if k == "" || i+1 >= len(ts) || ts[i].t != nil || ts[i].c != ':' {
			return nil, false, false
		}
		i++
		if ts[i].open {
			if k == key.str {
				return nil, false, false
			}
			i++
			continue
		}
		if ts[i].t != nil || ts[i].c != '"' {
			return nil, false, false
		}
		i++
		var in []*Term
		for i < len(ts) && (ts[i].t != nil || ts[i].c != '"') {
			if ts[i].t != nil {
				if ts[i].open {
					return nil, false, false
				}
				in = append(in, ts[i].t)
			} else {
				in = append(in, StrC(string(ts[i].c)))
			}
			i++
		}
		if i >= len(ts) {
			return nil, false, false
		}
		i++
		if k == key.str {
			return Cat(in...), true, true
		}
	}
}

// plain: text whose quotation is itself between quotes.
func plain(s *Term) bool { return without(s, "\"\\") }

// without: printable text that contains none of the bytes of bad.
func without(s *Term, bad string) bool {
	for _, a := range atoms(s) {
		switch a.op {
		case "itoa":
		case "strc":
			for _, c := range []byte(a.str) {
				if c < ' ' || c > '~' || strings.IndexByte(bad, c) >= 0 {
					return false
				}
			}
		case "ite":
			if !without(a.args[1], bad) || !without(a.args[2], bad) {
				return false
			}
		case "uf":
			if a.str == "bqfix" || a.str == "quote" {
				return false
			}
			u, ok := spec.unfold(a)
			if !ok || !without(u, bad) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// genText: functions of generated Go text.
func genText(name string, args []*Term) *Term {
	switch name {
	case "quote":
		if plain(args[0]) {
			return Cat(StrC(`"`), args[0], StrC(`"`))
		}
	case "bqfix":
		if without(args[0], "`") {
			return args[0]
		}
	case "comment":
		if args[0] == eps {
			return tTrue
		}
	case "s.HasPrefix", "s.HasSuffix", "s.Contains":
		if args[0].op == "strc" && args[1].op == "strc" || args[0] == eps && args[1].op == "strc" {
			a, b := args[0].str, args[1].str
			if args[0] == eps {
				a = ""
			}
			switch name {
			case "s.HasPrefix":
				return B(strings.HasPrefix(a, b))
			case "s.HasSuffix":
				return B(strings.HasSuffix(a, b))
			}
			return B(strings.Contains(a, b))
		}
	case "gopt":
		if args[0].op == "gtc" {
			return GTC("proto.Option[" + args[0].str + "]")
		}
	case "gty":
		return goType(args[0])
	case "tkind":
		if t := basicGo[args[0].str]; args[0].op == "gtc" && t != 0 {
			return C64(reflectKind(types.Typ[t]))
		}
		if args[0].op == "gtc" && strings.HasPrefix(args[0].str, "proto.Option[") {
			return C64(25)
		}
	}
	return nil
}

var basicGo = map[string]types.BasicKind{"bool": types.Bool, "int32": types.Int32, "int64": types.Int64, "uint32": types.Uint32, "uint64": types.Uint64,
	"float32": types.Float32, "float64": types.Float64, "string": types.String, "byte": types.Uint8, "uint8": types.Uint8}

// goType: the type a Go type expression denotes, by its structure. Parts whose
// text is not known are whole type expressions.
func goType(s *Term) *Term {
	as := atoms(s)
	if s == eps || len(as) == 0 {
		return nil
	}
	if as[0].op == "uf" && as[0].str == "qid" && len(as) == 1 {
		path, n := as[0].args[1], as[0].args[2]
		if path == StrC(modPath+"/proto") {
			if in, ok := between(n, "Option[", "]"); ok {
				return UF2("gopt", in)
			}
		}
		return nil
	}
	if as[0].op != "strc" {
		return nil
	}
	t := as[0].str
	rest := func(p string) *Term {
		return Cat(append([]*Term{StrC(t[len(p):])}, as[1:]...)...)
	}
	switch {
	case len(as) == 1 && basicGo[t] != 0:
		return gtcOf(types.Typ[basicGo[t]])
	case strings.HasPrefix(t, "[]"):
		return UF2("gslice", rest("[]"))
	case strings.HasPrefix(t, "*"):
		return UF2("gptr", rest("*"))
	case strings.HasPrefix(t, "map["):
		// the key ends at the matching bracket
		depth := 0
		var key []*Term
		for i, a := range as {
			if a.op != "strc" {
				key = append(key, a)
				continue
			}
			str := a.str
			if i == 0 {
				str = str[4:]
			}
			for j := 0; j < len(str); j++ {
				if str[j] == '[' {
					depth++
				}
				if str[j] == ']' {
					if depth == 0 {
						key = append(key, StrC(str[:j]))
						val := Cat(append([]*Term{StrC(str[j+1:])}, as[i+1:]...)...)
						return UF("gmap", SType, spec.apply("gty", SType, []*Term{Cat(key...)}), spec.apply("gty", SType, []*Term{val}))
					}
					depth--
				}
			}
			key = append(key, StrC(str))
		}
	}
	return nil
}

// UF2 applies a type constructor to the type of an expression.
func UF2(c string, s *Term) *Term {
	return spec.apply(c, SType, []*Term{spec.apply("gty", SType, []*Term{s})})
}

// between strips a known prefix and suffix.
func between(s *Term, pre, suf string) (*Term, bool) {
	as := append([]*Term{}, atoms(s)...)
	if len(as) == 0 || as[0].op != "strc" || !strings.HasPrefix(as[0].str, pre) {
		return nil, false
	}
	if len(as) == 1 {
		t := as[0].str
		if len(t) < len(pre)+len(suf) || !strings.HasSuffix(t, suf) {
			return nil, false
		}
		return StrC(t[len(pre) : len(t)-len(suf)]), true
	}
	l := as[len(as)-1]
	if l.op != "strc" || !strings.HasSuffix(l.str, suf) {
		return nil, false
	}
	as[0] = StrC(as[0].str[len(pre):])
	as[len(as)-1] = StrC(l.str[:len(l.str)-len(suf)])
	return Cat(as...), true
}
